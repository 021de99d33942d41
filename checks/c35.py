"""C35: statistics of database systems: emulated, native, most common values and histograms."""
import json
import warnings

from checks import c34
from vx import minisql
from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Implies, Or, Shadow, SymBool, SymFloat, SymInt

import mysql.connector
import psycopg
import quacklab
import z3
import postbound._core as core
import postbound._qep as qep
import postbound.db._db as dbmod
import postbound.duckdb as duck
import postbound.mysql as my
import postbound.postgres as pg
from postbound import ColumnReference, TableReference
from postbound.db import DatabaseStatistics
from postbound.db._db import Histogram, MostCommonValues

LEVEL = "model_checking"
ASSUMPTIONS = ["database servers are stand-ins: a small SQL engine evaluates the statistics and catalog queries over tables with arbitrary values",
               "native statistics of Postgres (pg_class, pg_stats, pg_buffercache), MySQL (information_schema) and DuckDB (duckdb_tables) have the documented meaning"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, pg: NS, duck: NS, my: NS, dbmod: NS})
warnings.simplefilter("ignore")
KINDS = ("postgres", "duckdb", "mysql")
DEEP = False


def driver_error(kind, msg):
    return {"postgres": psycopg.errors.SyntaxError, "mysql": mysql.connector.ProgrammingError, "duckdb": quacklab.Error}[kind](msg)


class Unanswered(BaseException):
    """The stand-in cannot evaluate a query: the check has no answer."""


def parameters(kind, params):
    if params is None:
        return ()
    if isinstance(params, (list, tuple)):
        return tuple(params)
    if kind == "mysql":
        raise mysql.connector.ProgrammingError(f"Could not process parameters: {type(params).__name__}({params}), it must be of type list, tuple or dict")
    raise TypeError(f"query parameters should be a sequence or a mapping, got {type(params).__name__}")


class Server(c34.Server):
    """Answers queries with the engine."""

    def __init__(self, kind, tables, functions=None, casts=None, database="mydb"):
        super().__init__(kind)
        self.tables, self.params, self.database = tables, (), database
        schema = {"postgres": "public", "duckdb": "main", "mysql": database}[kind]
        fn = {"current_database": lambda: database, "current_schema": lambda: schema, "ltrim": lambda s, c=" ": None if s is None else s.lstrip(c), "rtrim": lambda s, c=" ": None if s is None else s.rstrip(c)}
        if kind == "mysql":
            fn = {"database": lambda: database, "schema": lambda: database}
        fn.update(functions or {})
        self.engine = minisql.Engine(tables, fn, casts)

    def connect(self, *a, **kw):
        c = {"postgres": PgConn, "duckdb": DuckConn, "mysql": MyConn}[self.kind](self)
        self.conns.append(c)
        return c

    def answer(self, conn, sql):
        up = " ".join(str(sql).upper().split())
        if not isinstance(sql, str) or up.startswith(("SHOW ", "SELECT @@", "SELECT VERSION()", "SET ", "PRAGMA")):
            return super().answer(conn, sql)
        if up.rstrip(";") in ("SELECT DATABASE()", "SELECT CURRENT_DATABASE()"):
            return [(self.database,)]
        if up.startswith(("ALTER", "ANALYZE")):
            self.log.append((conn.pid, sql))
            return None
        self.log.append((conn.pid, sql))
        try:
            return self.engine.run(sql, self.params, "?" if self.kind == "duckdb" else "%s")
        except minisql.SqlError as e:
            raise driver_error(self.kind, str(e))
        except minisql.Unsupported as e:
            raise Unanswered(f"{e}: {sql}")


class Cur(c34.Cursor):
    def execute(self, sql, params=None):
        self.conn.server.params = parameters(self.conn.server.kind, params)
        super().execute(sql)


class PgConn(c34.PgConn):
    def cursor(self):
        return Cur(self)


class MyConn(c34.MyConn):
    def cursor(self, buffered=False):
        return Cur(self, buffered)


class DuckConn(c34.DuckConn):
    def execute(self, sql, parameters=None):
        self.server.params = globals()["parameters"]("duckdb", parameters)
        self.result = self.run(sql)
        return self


# ------------------------------------------------------------------ emulated statistics
TABS = {"plain": (TableReference("t", "x"), "t", "a"), "schema": (TableReference("t", "x", schema="s"), "s.t", "a"), "quoted": (TableReference("My Table"), "My Table", "my col")}


def data(ctx, tag, n, nulls):
    return [None if i < nulls else ctx.int(f"{tag}{i}", 0, 3) for i in range(n)]


def count(rows, p):
    """The number of (non-null) rows with some property."""
    total = 0
    for r in rows:
        if r is not None:
            c = p(r)
            if isinstance(c, SymBool):
                c = SymInt(z3.If(c.t, z3.IntVal(1), z3.IntVal(0)))
            total = total + (c if isinstance(c, SymInt) else int(c))
    return total


def check_stat(ctx, stat, got, rows, arg, k):
    vals = [r for r in rows if r is not None]
    if stat == "total_rows":
        ctx.check(got == len(rows), "the number of rows", key=k, got=got)
    elif stat in ("num_distinct", "distinct_values"):
        d = sum((count([v], lambda v: And(*[v != w for w in vals[:i]]) if i else True) for i, v in enumerate(vals)), 0)
        ctx.check(got == d, "the number of distinct values", key=k)
    elif stat == "min_max":
        if not vals:
            ctx.check(got is None or tuple(got) == (None, None), "there is no minimum", key=k)
            return
        lo, hi = got
        ctx.check(And(*[And(lo <= v, v <= hi) for v in vals]), "minimum and maximum", key=k)
        ctx.check(And(Or(*[lo == v for v in vals]), Or(*[hi == v for v in vals])), "minimum and maximum are values of the column", key=k)
    elif stat == "most_common_values":
        check_mcvs(ctx, got, vals, arg, k)
    else:
        if not vals:
            ctx.check(got is None, "there is no histogram of an empty column", key=k)
            return
        check_hist(ctx, got, vals, arg, k)


def check_mcvs(ctx, got, vals, arg, k):
    pairs = list(got)
    ctx.check(all(v is not None for v, _ in pairs), "NULL is not a value", key=k)
    for v, f in pairs:
        ctx.check(f == count(vals, lambda r: r == v), "the frequency of a common value", key=k)
        ctx.check(f > 0, "common values exist", key=k)
    for i in range(len(pairs) - 1):
        ctx.check(pairs[i][1] >= pairs[i + 1][1], "most common values are sorted by their frequency", key=k)
        ctx.check(And(*[pairs[i][0] != w for w, _ in pairs[i + 1:]]), "common values are distinct", key=k)
    bound = pairs[-1][1] if pairs else 0
    rest = [v for v in vals if not any(bool(v == w) for w, _ in pairs)]
    if arg is None or arg <= 0 or len(pairs) < arg:
        ctx.check(not rest, "all values are contained", key=k)
    else:
        ctx.check(len(pairs) == arg, "the requested number of values", key=k)
        for v in rest:
            ctx.check(count(vals, lambda r: r == v) <= bound, "other values are less common", key=k)


def check_hist(ctx, h, vals, bins, k):
    if h is None:
        ctx.check(False, "there is a histogram", key=k)
        return
    b, f = list(h.bounds), [x for _, x in h]
    ctx.check(len(b) == len(f) == h.n_buckets == len(h) and 0 < len(b) <= bins, "the number of buckets", key=k, got=len(b), want=bins)
    ctx.check(all(x is not None for x in b) and h.lower is not None, "NULL is not a value", key=k)
    ctx.check(And(*[h.lower <= v for v in vals]), "the lower bound is the minimum", key=k)
    ctx.check(Or(*[h.lower == v for v in vals]), "the lower bound is a value", key=k)
    ctx.check(And(*[v <= h.upper for v in vals]), "the upper bound is the maximum", key=k)
    prev = None
    for x, n in zip(b, f):
        if prev is not None:
            ctx.check(prev < x, "bounds are in ascending order", key=k)
        ctx.check(n == count(vals, lambda r: And(r <= x, r > prev) if prev is not None else r <= x), "the frequency of a bucket", key=k)
        ctx.check(Or(*[x == v for v in vals]), "bounds are values", key=k)
        ctx.check(count(vals, lambda r: And(r < x, r > prev) if prev is not None else r < x) * bins < len(vals), "buckets are balanced: a bucket ends once it contains its share of the rows", key=k)
        prev = x
    ctx.check(h.n_rows == len(vals), "the histogram contains all rows", key=k)
    # estimates of the histogram
    for v in list(b)[:2]:
        ctx.check(h.frequency_below(v) == count(vals, lambda r: r <= v), "values at a bound are counted exactly", key="below " + k)
        ctx.check(h.frequency_above(v) == count(vals, lambda r: r > v), "values at a bound are counted exactly", key="above " + k)


def emulated(kind):
    def body(ctx):
        tk = ctx.pick("table", ["plain", "schema", "quoted"] if kind != "mysql" else ["plain", "schema"])
        stat = ctx.pick("stat", ["total_rows", "num_distinct", "distinct_values", "min_max", "most_common_values", "histogram"])
        n = ctx.choose("n", 5 if DEEP else 4)
        nulls = ctx.choose("nulls", 2 if n else 1)
        rows = data(ctx, "v", n, nulls)
        tab, name, colname = TABS[tk]
        tables = {k: minisql.Table(["a", "my col"], [(7, 7)] * 6) for k in ("t", "s.t", "My Table", "a")}
        tables[name] = minisql.Table(["a", "my col"], [(r, 1) if colname == "a" else (1, r) for r in rows])
        s = Server(kind, tables)
        with c34.scratch(), c34.World(s) as w:
            db = w.database()
            s.log.clear()
            st = db.statistics()
            col = ColumnReference(colname, tab)
            kw, arg = {}, None
            if stat == "most_common_values":
                arg = ctx.pick("k", [2, None, -1, 1])
                kw["k"] = arg
            if stat == "histogram":
                arg = kw["n_bins"] = ctx.pick("bins", [1, 2, 3])
                if ctx.choose("interpolation", 2):
                    kw["interpolation"] = "bound"
            how = ctx.pick("how", ["parameter", "default"])
            if how == "parameter":
                kw["emulated"] = True
            else:
                st.emulated = True
            try:
                got = getattr(st, stat)(tab if stat == "total_rows" else col, **kw)
            except (psycopg.Error, quacklab.Error, mysql.connector.Error, TypeError) as e:
                ctx.check(False, "the statistic can be computed", key=f"{stat} error", error=f"{type(e).__name__} {str(e)[:100]}")
                return
            check_stat(ctx, stat, got, rows, arg, stat)
            ctx.reach(stat)
    return body


def caching(ctx):
    """Cached statistics are used if (and only if) this is requested."""
    kind = ctx.pick("kind", KINDS)
    stat = ctx.pick("stat", ["total_rows", "num_distinct", "min_max", "most_common_values", "histogram"])
    rows = [data(ctx, f"v{i}_", 1 + i if DEEP else 2 - i, 0) for i in range(2)]
    tables = {"t": minisql.Table(["a"], [(r,) for r in rows[0]])}
    s = Server(kind, tables)
    with c34.scratch(), c34.World(s) as w:
        default_db = ctx.choose("default db", 2) == 1
        db = w.database(default_db)
        st = db.statistics()
        st.cache_enabled = ctx.pick("default", [None, True, False])
        tab = TableReference("t", "x")
        kw = {"n_bins": 2} if stat == "histogram" else {}
        last = None
        for step in range(2):
            local = ctx.pick(f"cache{step}", [None, True, False])
            use = local if local is not None else st.cache_enabled if st.cache_enabled is not None else default_db
            tables["t"].rows = [(r,) for r in rows[step]]
            before = len(s.log)
            got = getattr(st, stat)(tab if stat == "total_rows" else ColumnReference("a", tab), emulated=True, cache_enabled=local, **kw)
            if use and last is not None:
                ctx.reach("hit")
                ctx.check(len(s.log) == before, "cached statistics are not computed again", key=f"{stat} hit")
                check_stat(ctx, stat, got, last, 10 if stat == "most_common_values" else 2, f"{stat} cached")
            else:
                ctx.check(len(s.log) > before, "statistics are computed if there is no cached result", key=f"{stat} miss")
                check_stat(ctx, stat, got, rows[step], 10 if stat == "most_common_values" else 2, f"{stat} fresh")
                if use:
                    last = rows[step]


def rejected(ctx):
    kind = ctx.pick("kind", KINDS)
    stat = ctx.pick("stat", ["total_rows", "num_distinct", "distinct_values", "min_max", "most_common_values", "histogram"])
    what = ctx.pick("what", ["virtual", "unbound", "bins"])
    s = Server(kind, {"t": minisql.Table(["a"], [(ctx.int("v", 0, 3),)])})
    with c34.scratch(), c34.World(s) as w:
        st = w.database().statistics()
        s.log.clear()
        emul = ctx.pick("emulated", [None, True, False])
        if what == "bins":
            if stat != "histogram" or emul is False or (emul is None and not st.emulated):
                return
            want = ValueError
            arg = ColumnReference("a", TableReference("t"))
        elif what == "unbound":
            if stat == "total_rows":
                return
            want, arg = core.UnboundColumnError, ColumnReference("a")
        else:
            tab = TableReference.create_virtual("t")
            want, arg = core.VirtualTableError, tab if stat == "total_rows" else ColumnReference("a", tab)
        try:
            getattr(st, stat)(arg, emulated=emul, **({"n_bins": 2} if stat == "histogram" and what != "bins" else {}))
            ctx.check(False, "statistics of virtual tables and unbound columns are rejected", key=what)
        except want:
            ctx.check(not s.log, "nothing is sent to the server", key=what)
        ctx.reach(what)


# ------------------------------------------------------------------ native statistics
def pg_catalog(ctx):
    oids = {"public": {"t": 10, "u": 11}, "s": {"t": 20, "w": 21}}

    class Err(psycopg.errors.UndefinedTable):
        pass

    def regclass(v):
        if isinstance(v, int):
            return v
        v = v.replace('"', "")
        sch, _, name = v.rpartition(".")
        try:
            return oids[sch or "public"][name]
        except KeyError:
            raise Err(f'relation "{v}" does not exist')
    spaces = {"public": 1, "s": 2}
    regnamespace = lambda v: spaces[v.replace('"', "")]
    casts = {"regclass": regclass, "regnamespace": regnamespace, "text": lambda v: v, "int4[]": lambda v: list(v) if v is not None else None, "text[]": lambda v: [str(x) for x in v] if v is not None else None}
    pages = {o: ctx.int(f"pages{o}", 0, 1000) for o in (10, 20)}
    rel = {o: ctx.int(f"rows{o}", -1, 1000) for o in (10, 20)}
    cls = minisql.Table(["oid", "relname", "relnamespace", "reltuples", "relpages"], [(10, "t", 1, rel[10], pages[10]), (20, "t", 2, rel[20], pages[20]), (11, "u", 1, 5, 1), (21, "w", 2, 6, 1)])
    return casts, cls, rel, pages


def native_pg(ctx):
    casts, cls, rel, pages = pg_catalog(ctx)
    where = ctx.pick("schema", ["public", "s"])
    explicit = where == "s" or ctx.choose("explicit", 2) == 1
    tab = TableReference("t", "x", schema=where if explicit else "")
    oid = 10 if where == "public" else 20
    rows = rel[oid]
    nd = ctx.real("nd", -1, 100)
    stat = ctx.pick("stat", ["total_rows", "n_pages", "num_distinct", "most_common_values", "histogram", "min_max", "buffers"])
    nm = ctx.choose("mcvs", 3) if stat in ("most_common_values", "histogram") else 0
    mv = [ctx.int(f"m{i}", 0, 6) for i in range(nm)]
    mf = [ctx.pick(f"f{i}", [0.5, 0.25]) if i == 0 else 0.125 for i in range(nm)]
    nb = ctx.choose("bounds", 3 if DEEP else 2) + 2 if stat == "histogram" else 0
    hb = [ctx.int(f"h{i}", 0, 6) for i in range(nb)]
    for x, y in zip(hb, hb[1:]):
        ctx.assume(x < y)
    if len(mv) == 2:
        ctx.assume(mv[0] != mv[1])
    for m in mv:
        for h in hb:
            ctx.assume(m != h)
    analyzed = stat not in ("num_distinct", "most_common_values", "histogram") or ctx.choose("analyzed", 2) == 1
    mine = (where, "t", "a", nd, mv or None, mf or None, hb or None)
    other = ("s" if where == "public" else "public", "t", "a", 99.0, [9], [0.9], [9, 10])
    stats = minisql.Table(["schemaname", "tablename", "attname", "n_distinct", "most_common_vals", "most_common_freqs", "histogram_bounds"],
                          [other] + ([mine] if analyzed else []) + [(where, "t", "b", 98.0, [8], [0.8], [8, 9]), (where, "u", "a", 98.0, [8], [0.8], [8, 9])])
    cols = minisql.Table(["table_schema", "table_name", "column_name", "data_type"], [("s" if where == "public" else "public", "t", "a", "text"), (where, "t", "a", "integer"), (where, "t", "b", "text")])
    buffers = minisql.Table(["relfilenode", "reldatabase"], [(1000 + oid, 7), (1000 + oid, 7), (1000 + oid, 8), (1030 - oid, 7), (1011, 7), (1021, 7), (1000 + oid, 0)])
    s = Server("postgres", {"pg_class": cls, "pg_stats": stats, "information_schema.columns": cols, "pg_buffercache": buffers, "pg_database": minisql.Table(["oid", "datname"], [(7, "mydb"), (8, "other")]),
                            **{name: minisql.Table(["a"], [(3,), (1,)] if name.startswith("s.") == (where == "s") else [(9,)]) for name in ("t", "public.t", "s.t")}},
               {"pg_relation_filenode": lambda o: 1000 + o}, casts)
    with c34.scratch(), c34.World(s) as w:
        st = w.database().statistics()
        col = ColumnReference("a", tab)
        key = f"native {stat}"
        try:
            if stat == "total_rows":
                got = st.total_rows(tab, emulated=False)
                if bool(rows < 0):
                    ctx.reach("unknown")
                    ctx.check(got is None, "the number of rows is unknown", key=key)
                else:
                    ctx.check(got is not None and got == rows, "the estimated number of rows", key=key)
            elif stat == "n_pages":
                ctx.check(st.n_pages(tab) == pages[oid], "the number of pages", key=key)
            elif stat == "buffers":
                ctx.check(st.n_buffered(tab) == 3, "the number of buffered pages", key=key)
                ctx.check(st.buffer_state(schema=where) == {"t": 3, "u" if where == "public" else "w": 1}, "the buffered pages of all tables", key=key)
            elif stat == "min_max":
                ctx.check(tuple(st.min_max(col, emulated=False)) == (1, 3), "emulated minimum and maximum", key=key)
                st.enable_emulation_fallback = False
                try:
                    st.min_max(col, emulated=False)
                    ctx.check(False, "emulation is not enabled", key=key)
                except dbmod.UnsupportedDatabaseFeatureError:
                    pass
            elif stat == "num_distinct":
                got = st.num_distinct(col, emulated=False)
                if not analyzed:
                    ctx.check(got is None, "the number of distinct values is unknown", key=key)
                elif bool(nd >= 0):
                    ctx.check(And(got <= nd, nd < got + 1), "the number of distinct values", key=key)
                    ctx.reach("absolute")
                elif bool(rows >= 0):
                    ctx.check(And(got <= -nd * rows, -nd * rows < got + 1), "the relative number of distinct values", key=key)
                    ctx.reach("relative")
                else:
                    ctx.check(got is None, "the number of distinct values is unknown", key=key)
            elif stat == "most_common_values":
                k = ctx.pick("k", [10, 1, None])
                got = list(st.most_common_values(col, k=k, emulated=False))
                ctx.assume(rows != 0)  # all values would have the same frequency
                want = list(zip(mv, mf)) if analyzed and bool(rows >= 0) else []
                want = want[:k] if k else want
                ctx.check(len(got) == len(want), "the number of most common values", key=key, got=len(got), want=len(want))
                for (v, f), (v2, f2) in zip(got, want):
                    ctx.check(And(v == v2, close(f, f2 * rows)), "the frequencies of the most common values", key=key)
            else:
                native_histogram(ctx, st, col, analyzed, rows, hb, list(zip(mv, mf)), key)
        except (psycopg.Error, TypeError, AssertionError) as e:
            ctx.check(False, "the statistic can be retrieved", key=f"{key} error", error=f"{type(e).__name__} {str(e)[:100]}")
            return
        ctx.reach(stat)


def close(a, b):
    return And(a - b <= 0.001, b - a <= 0.001)


def native_histogram(ctx, st, col, analyzed, rows, hb, mcvs, key):
    ctx.assume(rows > 0)
    h = st.histogram(col, emulated=False)
    if not analyzed:
        ctx.check(h is None, "there is no histogram", key=key)
        return
    b = list(h.bounds)
    vals = hb + [v for v, _ in mcvs]
    for x, y in zip(b, b[1:]):
        ctx.check(x < y, "bounds are in ascending order", key=key)
    ctx.check(And(*[h.lower <= v for v in vals]), "the lower bound is the minimum", key=key)
    ctx.check(And(*[v <= h.upper for v in vals]), "the upper bound is the maximum", key=key)
    ctx.check(Or(*[h.lower == v for v in vals]), "the lower bound is a known value", key=key)
    n = sum((f for _, f in h), 0)
    ctx.check(And(n <= rows + 0.001, n >= rows - len(b) - 1), "the histogram contains all rows", key=key)
    for v, f in mcvs:
        hit = [g for x, g in h if bool(x == v)]
        ctx.check(len(hit) == 1 and hit[0] >= f * rows - 1, "the histogram contains the most common values", key=key)


def native_other(ctx):
    kind = ctx.pick("kind", ["mysql", "duckdb"])
    stat = ctx.pick("stat", ["total_rows", "num_distinct", "min_max", "most_common_values", "histogram"])
    fallback = ctx.choose("fallback", 2) == 1
    n = ctx.int("n", 0, 1000)
    c = ctx.int("c", 0, 1000)
    rows = data(ctx, "v", 2, 0)
    schema = ctx.pick("schema", ["", "s"])
    name = "s.t" if schema else "t"
    base, other = {"mysql": ("mydb", "s"), "duckdb": ("main", "s")}[kind]
    mine, alien = (base, other) if not schema else (other, base)
    known = ctx.choose("known", 2) == 1
    tables = {"t": minisql.Table(["a"], [(9,)]), "s.t": minisql.Table(["a"], [(9,)])}
    tables[name] = minisql.Table(["a"], [(r,) for r in rows])
    if kind == "mysql":
        tables["information_schema.tables"] = minisql.Table(["table_schema", "table_name", "table_rows"], [(alien, "t", 77), (mine, "u", 78), (mine, "t", n)])
        tables["information_schema.statistics"] = minisql.Table(["table_schema", "table_name", "column_name", "index_name", "cardinality"], [(alien, "t", "a", "i", 77), (mine, "u", "a", "i", 78), (mine, "t", "b", "i", 79)] + ([(mine, "t", "a", "i", c)] if known else []))
    else:
        tables["duckdb_tables()"] = minisql.Table(["database_name", "schema_name", "table_name", "estimated_size"], [("mydb", alien, "t", 77), ("other", mine, "t", 76), ("mydb", mine, "u", 78)] + ([("mydb", mine, "t", n)] if known else []))
    s = Server(kind, tables)
    with c34.scratch(), c34.World(s) as w:
        st = w.database().statistics()
        st.enable_emulation_fallback = fallback
        tab = TableReference("t", "x", schema=schema)
        key = f"native {kind} {stat}"
        try:
            got = getattr(st, stat)(tab if stat == "total_rows" else ColumnReference("a", tab), emulated=False)
        except dbmod.UnsupportedDatabaseFeatureError:
            ctx.check(not fallback and (stat not in ("total_rows", "num_distinct") or (kind == "duckdb" and stat == "num_distinct")), "unsupported statistics are emulated", key=key)
            ctx.reach("unsupported")
            return
        except (quacklab.Error, mysql.connector.Error, TypeError) as e:
            ctx.check(False, "the statistic can be retrieved", key=f"{key} error", error=f"{type(e).__name__} {str(e)[:100]}")
            return
        if stat == "total_rows":
            ctx.check(got == n if kind == "mysql" or known else got is None, "the number of rows", key=key)
        elif stat == "num_distinct" and kind == "mysql":
            if known:
                ctx.check(isinstance(got, (int, SymInt)) and got == c, "the number of distinct values", key=key, got=type(got).__name__)
            elif fallback:
                check_stat(ctx, stat, got, rows, None, key)
            else:
                ctx.check(got is None, "the number of distinct values is unknown", key=key)
        else:
            ctx.check(fallback, "statistics are not emulated", key=key)
            check_stat(ctx, stat, got, rows, 100 if stat == "histogram" else 10, key)
        ctx.reach(kind)


# ------------------------------------------------------------------ histograms and most common values
def histogram(ctx):
    """Estimates of a histogram with respect to all data that it describes."""
    k = 1 + ctx.choose("k", 4 if DEEP else 3)
    lo = ctx.int("lo", -4, 4)
    b, f = [ctx.int(f"b{i}", -4, 12) for i in range(k)], [ctx.int(f"f{i}", 0, 5) for i in range(k)]
    ctx.assume(lo <= b[0])
    for x, y in zip(b, b[1:]):
        ctx.assume(x < y)
    mode = ctx.pick("mode", ["bound", "approx-uni"])
    h = Histogram(b, f, lower=lo, bucket_interpolation=mode) if ctx.choose("set", 2) == 0 else Histogram(b, f, lower=lo)
    h.bucket_interpolation = mode
    n = sum(f, 0)
    ctx.check(And(h.n_rows == n, h.n_buckets == k, len(h) == k, h.lower == lo, h.upper == b[-1]), "the histogram describes its buckets", key="properties")
    for i, (x, y) in enumerate(h):
        ctx.check(And(x == b[i], y == f[i]), "buckets can be iterated", key="properties")
        ctx.check(And(h[i][0] == b[i], h[i][1] == f[i]), "buckets can be accessed", key="properties")
    d = h.__json__()
    ctx.check(And(d["lower"] == lo, d["n_rows"] == n, d["bucket_interpolation"] == mode, *[x == y for x, y in zip(d["bounds"], b)], *[x == y for x, y in zip(d["frequencies"], f)]), "JSON", key="json")
    ctx.check(bool(h == Histogram(list(b), list(f), lower=lo, bucket_interpolation=mode)), "equal histograms", key="eq")
    v = ctx.int("v", -6, 14)
    below, above = h.frequency_below(v), h.frequency_above(v)
    if bool(v < lo):
        ctx.check(And(below == 0, above == n), "there are no values below the lower bound", key="outside")
        return
    if bool(v >= b[-1]):
        ctx.check(And(below == n, above == 0), "there are no values above the upper bound", key="outside")
        return
    i = 0
    while not bool(v <= b[i]):
        i += 1
    before = sum(f[:i], 0)
    if bool(v == b[i]):
        ctx.reach("aligned")
        ctx.check(below == before + f[i], "values below a bound are counted exactly", key="aligned")
        ctx.check(above == n - before - f[i], "values above a bound are counted exactly", key="aligned")
        return
    ctx.reach(mode)
    start = lo if i == 0 else b[i - 1]
    if mode == "bound":
        ctx.check(below == before + f[i], "the estimate is bounded by the entire bucket", key="bound below")
        ctx.check(above == n - before, "the estimate is bounded by the entire bucket", key="bound above")
    else:
        w = b[i] - start
        ctx.check((below - before) * w == f[i] * (v - start), "the estimate is interpolated within the bucket", key="uni below")
        ctx.check((above - (n - before - f[i])) * w == f[i] * (b[i] - v), "the estimate is interpolated within the bucket", key="uni above")


def malformed(ctx):
    b, f = [ctx.int(f"b{i}", 0, 3) for i in range(ctx.choose("k", 3))], [ctx.int(f"f{i}", 0, 3) for i in range(ctx.choose("l", 3))]
    try:
        h = Histogram(b, f, lower=0)
        ctx.check(len(b) == len(f) > 0, "malformed histograms are rejected", key="malformed")
        try:
            h.bucket_interpolation = "unknown"
            ctx.check(False, "unknown strategies are rejected", key="strategy")
        except ValueError:
            ctx.check(h.bucket_interpolation == "bound", "the strategy is not changed", key="strategy")
        ctx.reach("valid")
    except ValueError:
        ctx.check(not b or len(b) != len(f), "valid histograms are accepted", key="malformed")


def mcvs(ctx):
    k = ctx.choose("k", 4)
    vals, f = [ctx.int(f"v{i}", 0, 4) for i in range(k)], [ctx.int(f"f{i}", 1, 9) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(vals[i] != vals[j])
    m = MostCommonValues(iter(list(zip(vals, f))))
    pairs = list(m)
    ctx.check(len(pairs) == len(m) == m.k == k and bool(m) == (k > 0), "all values are contained", key="len")
    for x, y in zip(pairs, pairs[1:]):
        ctx.check(x[1] >= y[1], "values are sorted by their frequency", key="sorted")
    ctx.check(And(*[Or(*[And(v == x, g == y) for x, y in pairs]) for v, g in zip(vals, f)]) if k else True, "values keep their frequency", key="pairs")
    ctx.check(And(*[And(m.max_freq >= g, m.min_freq <= g) for g in f], Or(*[m.max_freq == g for g in f]), Or(*[m.min_freq == g for g in f])) if k else m.max_freq == m.min_freq == 0, "minimum and maximum frequency", key="extrema")
    q = ctx.int("q", 0, 5)
    hit = [g for v, g in zip(vals, f) if bool(v == q)]
    ctx.check((q in m) == bool(hit), "values are found", key="contains")
    kw = ctx.pick("kw", [{}, {"default": 0}, {"default": 3}, {"bound_missing": True}, {"default": 3, "bound_missing": True}])
    got = m.frequency_of(q, **kw)
    want = hit[0] if hit else kw["default"] if "default" in kw else m.min_freq if kw else None
    ctx.check(got is None if want is None else got is not None and got == want, "the frequency of a value", key="frequency")
    i = ctx.choose("i", 4)
    ctx.check([id(x) for p in m.top(i) for x in p] == [id(x) for p in pairs[:i] for x in p] and [id(x) for p in m.below(i) for x in p] == [id(x) for p in pairs[i:] for x in p], "the most common values can be split", key="split") if not ctx.symbolic else \
        ctx.check(And(len(m.top(i)) == min(i, k), len(m.below(i)) == max(k - i, 0), *[And(x[0] == y[0], x[1] == y[1]) for x, y in zip(list(m.top(i)) + list(m.below(i)), pairs)]), "the most common values can be split", key="split")
    ctx.check(len(m.values) == len(m.frequencies) == k and And(*[And(v == p[0], g == p[1]) for v, g, p in zip(m.values, m.frequencies, pairs)]), "values and frequencies", key="values")
    ctx.reach("hit" if hit else "miss")


F = ["DatabaseStatistics", "PostgresStatisticsInterface", "MysqlStatisticsInterface", "DuckDBStatistics", "Histogram", "MostCommonValues", "_infer_histogram_bounds"]


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    stats = ("total_rows", "num_distinct", "min_max", "most_common_values", "histogram")
    return [H(f"emulated {k}", emulated(k), f"columns with up to {4 if DEEP else 3} rows, all values 0..3 and NULL; up to 3 bins", stats) for k in KINDS] + [
        H("caching", caching, "2 requests, all combinations of caching; up to 2 rows", ("hit",)),
        H("rejected", rejected, "all statistics", ("virtual", "unbound", "bins")),
        H("native postgres", native_pg, "2 tables with the same name; up to 2 common values and 3 bounds, all estimates", ("total_rows", "n_pages", "num_distinct", "most_common_values", "histogram", "min_max", "buffers", "absolute", "relative", "unknown")),
        H("native other", native_other, "2 tables with the same name", ("mysql", "duckdb", "unsupported")),
        H("histogram", histogram, f"up to {4 if DEEP else 3} buckets, all bounds, frequencies and values", ("aligned", "bound", "approx-uni")),
        H("malformed", malformed, "up to 2 buckets", ("valid",)),
        H("mcvs", mcvs, "up to 3 values, all frequencies", ("hit", "miss"))]
