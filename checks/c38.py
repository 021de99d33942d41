"""C38: the database schema describes the catalogs of the database system."""
import warnings

from checks import c34, c35
from vx import minisql
from vx.engine import Harness
from vx.sym import NUM_SHADOW, Shadow

import networkx as nx
import mysql.connector
import psycopg
import quacklab
import postbound._core as core
import postbound._qep as qep
import postbound.db._db as dbmod
import postbound.duckdb as duck
import postbound.mysql as my
import postbound.postgres as pg
from postbound import ColumnReference, TableReference
from postbound.db import DatabaseSchema

LEVEL = "model_checking"
ASSUMPTIONS = ["database servers are stand-ins: a small SQL engine evaluates the catalog queries over catalogs that are generated from an arbitrary schema",
               "catalogs (information_schema, pg_class/pg_index/pg_attribute, duckdb_constraints/duckdb_indexes) have the documented structure; names of constraints are unique within a schema"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, pg: NS, duck: NS, my: NS, dbmod: NS})
warnings.simplefilter("ignore")
KINDS = ("postgres", "duckdb", "mysql", "generic")
BASE = {"postgres": "public", "generic": "public", "duckdb": "main", "mysql": "mydb"}
DEEP = False
ERRORS = (psycopg.Error, quacklab.Error, mysql.connector.Error, TypeError, AssertionError, AttributeError, nx.NetworkXError, IndexError)


class Tab:
    def __init__(self, schema, name, columns, *, view=False, pk=(), indexes=(), uniques=(), fks=(), types=None, nullable=(), symbolic=False):
        self.schema, self.name, self.columns, self.view, self.pk = schema, name, list(columns), view, tuple(pk)
        self.indexes, self.uniques = [(f"{schema}_{n}", tuple(c)) for n, c in indexes], [(f"{schema}_{n}", tuple(c)) for n, c in uniques]
        self.fks = [(f"{schema}_{name}_fk{i}", c, t) for i, (c, t) in enumerate(fks)]
        self.types, self.nullable, self.symbolic = types or {}, set(nullable), symbolic

    def pk_name(self, kind):
        return "PRIMARY" if kind == "mysql" else f"{self.schema}_{self.name}_pkey"


def quoted(kind, name):
    return name if name.isalnum() else "'\"" + name + "\"'"


def catalog(ctx, kind, tabs, reverse=False):
    base = BASE[kind]
    cat = "def" if kind == "mysql" else "mydb"
    T = minisql.Table
    rows = {k: [] for k in ("tables", "columns", "tc", "kcu", "ccu", "stat", "ptab", "pcls", "patt", "pidx", "pcon", "dtab", "didx", "dcon")}
    spaces = {base: 1, "s": 2}
    nums = {}
    for i, t in enumerate(tabs):
        key = (t.schema, t.name)
        oid = 100 * (i + 1)
        rows["tables"].append((cat, t.schema, t.name, "VIEW" if t.view else "BASE TABLE"))
        rows["pcls"].append((oid, t.name, spaces[t.schema], "v" if t.view else "r"))
        if not t.view:
            rows["dtab"].append(("mydb", t.schema, t.name))
        # attribute numbers are arbitrary (columns may have been dropped)
        nums[key] = [ctx.int(f"att{i}_{j}", 1, 5) for j in range(len(t.columns))] if t.symbolic else [j + 1 for j in range(len(t.columns))]
        for x, y in zip(nums[key], nums[key][1:]) if t.symbolic else ():
            ctx.assume(x < y)
        keyed = {c for cols in [t.pk] + [c for _, c in t.indexes + t.uniques] for c in cols[:1]}
        for c, n in zip(t.columns, nums[key]):
            ty = t.types.get(c, "integer")
            rows["columns"].append((cat, t.schema, t.name, c, n, "YES" if c in t.nullable else "NO", ty, ty, "PRI" if c in t.pk else "MUL" if c in keyed else ""))
            rows["patt"].append((oid, c, n))
        k = lambda cols: [nums[key][t.columns.index(c)] for c in cols]
        phys = ([(t.pk_name(kind), t.pk, True, True)] if t.pk else []) + [(n, c, False, True) for n, c in t.uniques] + [(n, c, False, False) for n, c in t.indexes]
        for n, (iname, cols, primary, uniq) in enumerate(phys):
            rows["pcls"].append((oid + n + 1, iname, spaces[t.schema], "i"))
            rows["pidx"].append((oid + n + 1, oid, k(cols), primary, uniq, len(cols), len(cols)))
            for seq, c in enumerate(cols):
                rows["stat"].append((cat, t.schema, t.name, 0 if uniq else 1, t.schema, iname, seq + 1, c, 5))
            if not primary and not uniq:
                rows["didx"].append((iname, "mydb", t.schema, t.name, False, "[" + ", ".join(quoted(kind, c) for c in cols) + "]"))
        for cname, ctype, cols in ([(t.pk_name(kind), "PRIMARY KEY", t.pk)] if t.pk else []) + [(n, "UNIQUE", c) for n, c in t.uniques]:
            rows["tc"].append((cat, t.schema, cname, cat, t.schema, t.name, ctype))
            for p, c in enumerate(cols):
                rows["kcu"].append((cat, t.schema, cname, cat, t.schema, t.name, c, p + 1, None, None, None))
                rows["ccu"].append((cat, t.schema, t.name, c, cat, t.schema, cname))
            rows["dcon"].append(("mydb", t.schema, t.name, ctype, list(cols), None, [], cname))
    for t in tabs:
        for cname, c, (ts, tt, tcol) in t.fks:
            rows["tc"].append((cat, t.schema, cname, cat, t.schema, t.name, "FOREIGN KEY"))
            rows["kcu"].append((cat, t.schema, cname, cat, t.schema, t.name, c, 1, ts, tt, tcol))
            rows["ccu"].append((cat, t.schema, t.name, c, cat, t.schema, cname) if kind == "duckdb" else (cat, ts, tt, tcol, cat, t.schema, cname))
            rows["dcon"].append(("mydb", t.schema, t.name, "FOREIGN KEY", [c], tt, [tcol], cname))
            i, j = [[(x.schema, x.name) for x in tabs].index(k) for k in ((t.schema, t.name), (ts, tt))]
            rows["pcon"].append((cname, spaces[t.schema], "f", 100 * (i + 1), 100 * (j + 1), [nums[(t.schema, t.name)][t.columns.index(c)]], [nums[(ts, tt)][tabs[j].columns.index(tcol)]]))
    if reverse:
        for r in rows.values():
            r.reverse()
    cons = ["constraint_catalog", "constraint_schema", "constraint_name"]
    tab = ["table_catalog", "table_schema", "table_name"]
    my_only = (lambda x: x) if kind == "mysql" else (lambda x: [])
    cut = lambda rs, n: [r[:n] for r in rs]
    res = {"information_schema.tables": T(tab + ["table_type"], rows["tables"]),
           "information_schema.columns": T(tab + ["column_name", "ordinal_position", "is_nullable", "data_type"] + my_only(["column_type", "column_key"]), cut(rows["columns"], 9 if kind == "mysql" else 7)),
           "information_schema.table_constraints": T(cons + (tab if kind != "mysql" else ["table_schema", "table_name"]) + ["constraint_type"], rows["tc"] if kind != "mysql" else [r[:3] + r[4:] for r in rows["tc"]]),
           "information_schema.key_column_usage": T(cons + tab + ["column_name", "ordinal_position"] + my_only(["referenced_table_schema", "referenced_table_name", "referenced_column_name"]), cut(rows["kcu"], 11 if kind == "mysql" else 8))}
    if kind == "mysql":
        res["information_schema.statistics"] = T(tab + ["non_unique", "index_schema", "index_name", "seq_in_index", "column_name", "cardinality"], rows["stat"])
    else:
        res["information_schema.constraint_column_usage"] = T(tab + ["column_name"] + cons, rows["ccu"])
    if kind == "postgres":
        for p in ("", "pg_catalog."):
            res[p + "pg_class"] = T(["oid", "relname", "relnamespace", "relkind"], rows["pcls"])
            res[p + "pg_attribute"] = T(["attrelid", "attname", "attnum"], rows["patt"])
            res[p + "pg_index"] = T(["indexrelid", "indrelid", "indkey", "indisprimary", "indisunique", "indnatts", "indnkeyatts"], rows["pidx"])
            res[p + "pg_namespace"] = T(["oid", "nspname"], [(i, n) for n, i in spaces.items()])
            res[p + "pg_constraint"] = T(["conname", "connamespace", "contype", "conrelid", "confrelid", "conkey", "confkey"], rows["pcon"])
    if kind == "duckdb":
        for p in ("", "()"):
            res["duckdb_tables" + p] = T(["database_name", "schema_name", "table_name"], rows["dtab"])
            res["duckdb_indexes" + p] = T(["index_name", "database_name", "schema_name", "table_name", "is_unique", "expressions"], rows["didx"])
            res["duckdb_constraints" + p] = T(["database_name", "schema_name", "table_name", "constraint_type", "constraint_column_names", "referenced_table", "referenced_column_names", "constraint_name"], rows["dcon"])
    return res


def server(ctx, kind, tabs, reverse=False):
    trim = lambda s, c=" ": None if s is None else s.strip(c)
    fn = {"trim": trim, "btrim": trim, "array_value": lambda *a: list(a), "list_value": lambda *a: list(a)} if kind == "duckdb" else {}
    return c35.Server("postgres" if kind == "generic" else kind, catalog(ctx, kind, tabs, reverse), fn)


class Opened:
    """The schema interface of a database with some tables."""

    def __init__(self, ctx, kind, tabs, reverse=False):
        self.s, self.kind = server(ctx, kind, tabs, reverse), kind

    def __enter__(self):
        self.a, self.b = c34.scratch(), None
        self.a.__enter__()
        self.b = c34.World(self.s)
        db = self.b.__enter__().database()
        self.s.log.clear()
        return DatabaseSchema(db) if self.kind == "generic" else db.schema()

    def __exit__(self, *e):
        self.b.__exit__(*e)
        return self.a.__exit__(*e)


def ident(c):
    return (c.table.schema, c.table.full_name, c.name)


NAMES = {"plain": ("t", "a", "b"), "quoted": ("My Table", "my col", "other-col")}


def guarded(f):
    def body(ctx):
        try:
            f(ctx)
        except ERRORS as e:
            ctx.check(False, "the schema can be inspected", key=f"error {type(e).__name__}", error=str(e)[:150])
    return body


# ------------------------------------------------------------------ indexes and keys
def indexes(kind):
    def body(ctx):
        T, a, b = NAMES[ctx.pick("names", ["plain", "quoted"])]
        where = ctx.pick("schema", ["", "s", "base"] if T == "t" or DEEP else ["s"])
        base = BASE[kind]
        mine, alien = (base, "s") if where != "s" else ("s", base)
        pk = ctx.pick("pk", [(), (a,), (a, b)])
        idx = ctx.pick("index", [(), (a,), (b,), (a, b), (b, a)])
        uni = ctx.pick("unique", [(), (b,), (a, b)])
        full = ctx.choose("alien", 2) == 1
        focus = Tab(mine, T, [a, b], symbolic=kind == "postgres", pk=pk, indexes=[("i1", idx)] if idx else [], uniques=[("u1", uni)] if uni else [])
        other = Tab(alien, T, [a, b], pk=[b] if full else [], indexes=[("i2", [a])] if full else [], uniques=[("u2", [a]), ("u3", [b])] if full else [])
        third = Tab(mine, "w", [a, b], pk=[a] if full else [], indexes=[("i4", [b]), ("i5", [a])] if full else [])
        reverse = ctx.choose("reverse", 2 if DEEP or full else 1) == 1
        with Opened(ctx, kind, [other, focus, third], reverse) as sc:
            tab = TableReference(T, "x", schema={"": "", "s": "s", "base": base}[where])
            for c in (a, b):
                col = ColumnReference(c, tab)
                is_pk = pk == (c,)
                # NB: plain indexes are not part of the information schema
                second = uni == (c,) or (idx == (c,) and kind != "generic")
                ctx.check(sc.is_primary_key(col) == is_pk, "primary keys", key="is_primary_key", want=is_pk)
                ctx.check(sc.has_secondary_index(col) == second, "secondary indexes", key="has_secondary_index", want=second)
                ctx.check(sc.has_index(col) == (is_pk or second), "indexes", key="has_index")
                single = {n for n, cols in [(focus.pk_name(kind), pk)] + focus.uniques + focus.indexes if cols == (c,)}
                every = {n for n, cols in [(focus.pk_name(kind), pk)] + focus.uniques + focus.indexes if c in cols}
                got = set(sc.indexes_on(col))
                if kind != "generic":
                    ctx.check(single <= got <= every, "names of the indexes", key="indexes_on", got=sorted(got), want=sorted(single))
                else:  # without a catalog of indexes, only constraints are known
                    ctx.check({n for n in single if n != f"{mine}_i1"} <= got <= every, "names of the indexes", key="indexes_on", got=sorted(got))
            try:
                got = sc.primary_key_column(tab if where or len(idx) != 1 else T)
                ctx.check(len(pk) < 2 and (got.name == a if pk else got is None), "the primary key", key="primary_key_column")
                ctx.check(got is None or got.table == tab or (not where and got.table == TableReference(T)), "the primary key is bound to the table", key="primary_key_column")
            except ValueError:
                ctx.check(len(pk) > 1, "simple primary keys are supported", key="primary_key_column")
            if kind == "postgres":
                for n, cols in focus.indexes + focus.uniques:
                    got = sc.indexed_column(n, schema=mine)
                    ctx.check(got is not None and got.name == cols[0] and got.table.full_name == T, "the (first) column of an index", key="indexed_column", got=got)
                    ctx.check(got.table.schema in ((mine, "") if mine == base else (mine,)), "the schema of an index", key="indexed_column")
                    ctx.check(sc.indexed_column(n, schema=alien) is None, "indexes of other schemas", key="indexed_column")
            ctx.reach("compound" if len(pk) > 1 else "simple")
            ctx.reach("foreign" if where == "s" else "local")
    return guarded(body)


# ------------------------------------------------------------------ foreign keys
def foreign_keys(kind):
    def body(ctx):
        base = BASE[kind]
        where = ctx.pick("schema", ["", "s"])
        mine, alien = (base, "s") if not where else ("s", base)
        targets = [(mine, "u", "c"), (mine, "u", "d"), (mine, "t", "b")] + ([(alien, "u", "c")] if kind in ("postgres", "mysql", "generic") else [])
        fa = [t for i, t in enumerate(targets) if ctx.choose(f"a{i}", 2)] if DEEP else ctx.pick("a", [[], targets[:1], targets[:2], targets[1:3], targets[-1:]])
        fb = ctx.pick("b", [[], [targets[0]], [targets[1]]])
        t = Tab(mine, "t", ["a", "b"], pk=["b"], fks=[("a", x) for x in fa] + [("b", x) for x in fb])
        u = Tab(mine, "u", ["c", "d"], pk=["c"], uniques=[("ud", ["d"])])
        w = Tab(mine, "v", ["a"], fks=[("a", (mine, "u", "d"))] if ctx.choose("v", 2) else [])
        t2 = Tab(alien, "t", ["a", "b"], pk=["a"], fks=[("b", (alien, "t", "a"))])
        u2 = Tab(alien, "u", ["c", "d"], pk=["c"])
        view = Tab(mine, "z", ["a"], view=True)
        tabs = [t2, u2, t, u, w] + ([view] if not where else [])
        with Opened(ctx, kind, tabs, ctx.choose("reverse", 2) == 1) as sc:
            def norm(schema):
                return "" if not where and schema == base else schema
            for table in (t, u, w):
                for c in table.columns:
                    got = {ident(x) for x in sc.foreign_keys_on(ColumnReference(c, TableReference(table.name, "x", schema=where)))}
                    want = {(norm(ts), tt, tc) for _, col, (ts, tt, tc) in table.fks if col == c}
                    if kind == "postgres" or kind == "generic":
                        got = {(("" if s == base and where else s), n, c2) for s, n, c2 in got}
                        want = {(("" if s == base and where else s), n, c2) for s, n, c2 in want}
                    ctx.check(got == want, "foreign keys", key="foreign_keys_on", got=sorted(got), want=sorted(want))
            ctx.reach("foreign keys" if fa else "none")
            if where or any(x[0] == alien for x in fa):
                return
            whole(ctx, kind, sc, [t, u, w, view])
    return guarded(body)


def whole(ctx, kind, sc, tabs):
    """Views of the entire schema (tables of the default schema)."""
    ref = {t.name: TableReference(t.name) for t in tabs}
    real = [t for t in tabs if not t.view]
    edges = {(t.name, c, tt, tc) for t in real for _, c, (_, tt, tc) in t.fks}
    g = sc.as_graph()
    ctx.check(set(g.nodes) == {ref[t.name] for t in real}, "the tables of the graph", key="as_graph nodes", got=sorted(map(str, g.nodes)))
    got = [(x.fk_col.table.full_name, x.fk_col.name, x.referenced_col.table.full_name, x.referenced_col.name) for _, _, d in g.edges(data=True) for x in d["foreign_keys"]]
    ctx.check(len(got) == len(set(got)) and set(got) == edges, "the foreign keys of the graph", key="as_graph edges", got=sorted(got), want=sorted(edges))
    ctx.check({(x.full_name, y.full_name) for x, y in g.edges} == {(e[0], e[2]) for e in edges}, "the edges of the graph", key="as_graph edges")
    for t in real:
        d = g.nodes[ref[t.name]]
        ctx.check([c.name for c in d["columns"]] == t.columns and {c.name: x for c, x in d["data_type"].items()} == {c: "integer" for c in t.columns}, "columns of the graph", key="as_graph columns")
        ctx.check((d["primary_key"].name if d["primary_key"] else None) == (t.pk[0] if len(t.pk) == 1 else None), "primary keys of the graph", key="as_graph primary key")
    # equivalence classes of joinable columns
    u = nx.Graph()
    u.add_edges_from(((e[0], e[1]), (e[2], e[3])) for e in edges)
    want = {frozenset(c) for c in nx.connected_components(u)}
    short = lambda cs: frozenset((c.table.full_name, c.name) for c in cs)
    ctx.check({short(c) for c in sc.join_equivalence_classes()} == want, "classes of joinable columns", key="join_equivalence_classes")
    keys = sc.join_equivalence_keys()
    ctx.check({(k.table.full_name, k.name): short(v) for k, v in keys.items()} == {c: cl for cl in want for c in cl}, "joinable columns", key="join_equivalence_keys")
    # mapping
    visible = [t for t in tabs if not (t.view and kind == "duckdb")]
    ctx.check(set(sc) == {ref[t.name] for t in visible} and len(sc) == len(visible), "the schema contains all tables", key="mapping")
    for t in real:
        for k in ([ref[t.name], t.name] if DEEP or t is real[0] else [ref[t.name]]):
            info = sc[k]
            ctx.check(info.table == ref[t.name] and [c.column.name for c in info.columns] == t.columns and len(info) == len(t.columns), "summaries of tables", key="table info")
            ctx.check((info.primary_key.name if info.primary_key else None) == (t.pk[0] if len(t.pk) == 1 else None), "the primary key", key="table info primary key")
            fk = lambda xs: {(x.fk_col.table.full_name, x.fk_col.name, x.referenced_col.table.full_name, x.referenced_col.name) for x in xs}
            ctx.check(fk(info.outgoing_foreign_keys) == {e for e in edges if e[0] == t.name}, "outgoing foreign keys", key="table info foreign keys")
            ctx.check(fk(info.incoming_foreign_keys) == {e for e in edges if e[2] == t.name}, "incoming foreign keys", key="table info foreign keys")
            for c in t.columns:
                column(ctx, info[c], t, c, "table info")
                ctx.check(info[ColumnReference(c, ref[t.name])] is info[c], "columns of a table", key="table info")
        for c in t.columns[:1]:
            column(ctx, sc[ColumnReference(c, ref[t.name])], t, c, "column info")
            column(ctx, sc[f"{t.name}.{c}"], t, c, "column info by name")
    for missing in ("nope", "t.nope", "nope.a"):
        try:
            sc[missing]
            ctx.check(False, "unknown tables and columns are rejected", key="mapping missing")
        except KeyError:
            pass
    ctx.check(TableReference("nope") not in sc and ref["t"] in sc, "containment", key="mapping contains")
    ctx.reach("whole")


def column(ctx, info, t, c, key):
    ctx.check(info.column.name == c and info.table.full_name == t.name, "the column", key=key)
    ctx.check(info.datatype == "integer" and info.nullable is (c in t.nullable), "data type of the column", key=key)
    ctx.check(info.primary_key == (t.pk == (c,)) and info.indexed == (t.pk == (c,) or any(cols == (c,) for _, cols in t.uniques + t.indexes)) or any(col == c for _, col, _ in t.fks), "keys of the column", key=key)


# ------------------------------------------------------------------ tables and columns
def tables(kind):
    def body(ctx):
        base = BASE[kind]
        n = 1 + ctx.choose("n", 3)
        cols = ["b", "a", "c"][:n]
        nul = [c for c in cols if ctx.choose(f"null {c}", 2)] if DEEP else ctx.pick("null", [[], cols[:1], cols[1:]])
        types = {"b": "text", "a": ctx.pick("type", ["integer", "date"])}
        t = Tab(base, "t", cols, types=types, nullable=nul, symbolic=True)
        t2 = Tab("s", "t", ["d"] + cols, types={"b": "real", "a": "real", "d": "real"}, nullable=[c for c in cols if c not in nul], view=ctx.choose("view", 2) == 1)
        u = Tab(base, "u", ["a"], view=ctx.choose("alien view", 2) == 1 if DEEP else not t2.view)
        w = Tab("s", "w", ["a", "Up Col"])
        sysm = [Tab(base, "pg_stat_x", ["a"])] if kind == "postgres" else []
        with Opened(ctx, kind, [t2, t, w, u] + sysm, ctx.choose("reverse", 2) == 1) as sc:
            want = {TableReference("t")} | ({TableReference("u")} if not (kind == "duckdb" and u.view) else set())
            names = lambda xs: sorted((x.schema, x.full_name) for x in xs)
            if kind == "postgres" and ctx.choose("other schema", 2):
                got = sc.tables(schema="s")
                ctx.check(sorted(x.full_name for x in got) == ["t", "w"], "tables of another schema", key="tables schema")
                ctx.check(all(x.schema == "s" for x in got), "tables of another schema are qualified", key="tables schema")
            if kind == "postgres" and ctx.choose("system", 2):
                ctx.check(sorted(x.full_name for x in sc.tables(include_system_tables=True)) == ["pg_stat_x", "t", "u"], "system tables", key="tables system")
            got = sc.tables()
            ctx.check(names(got) == names(want), "the tables of the current schema", key="tables", got=names(got))
            got.clear()
            ctx.check(names(sc.tables()) == names(want), "the tables of the current schema", key="tables again")
            for tab, m in ((TableReference("t", "x"), t), (TableReference("t", schema=base), t), (TableReference("t", schema="s"), t2), ("t", t), (TableReference("u"), u)):
                got = sc.columns(tab)
                tt = TableReference(tab) if isinstance(tab, str) else tab
                ctx.check([c.name for c in got] == m.columns and all(c.table == tt for c in got), "the columns of a table in their order", key="columns", got=[c.name for c in got])
                ctx.check(sc.is_view(tab) == m.view, "views", key="is_view")
                if isinstance(tab, str):
                    continue
                for c in m.columns:
                    col = ColumnReference(c, tab)
                    ctx.check(sc.datatype(col) == m.types.get(c, "integer"), "the data type of a column", key="datatype")
                    ctx.check(bool(sc.is_nullable(col)) == (c in m.nullable), "nullable columns", key="is_nullable")
            try:
                sc.is_view("nope")
                ctx.check(False, "unknown tables are rejected", key="is_view missing")
            except (ValueError, KeyError):
                pass
            if n == 3 and not nul or DEEP:
                lookup(ctx, sc, t, t2, u, w)
            ctx.reach("view" if u.view else "table")
    return guarded(body)


def lookup(ctx, sc, t, t2, u, w):
    refs = [(TableReference("t", "x"), t), (TableReference("t", schema="s"), t2), (TableReference("u"), u), (TableReference("w", schema="s"), w)]
    many = ctx.choose("many", 2)
    order = ctx.pick("order", [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0], [2, 3], []] if DEEP or not many else [[3, 1, 0]])
    cands = [refs[i] for i in order]
    if many:
        cands = [(TableReference("u", f"u{i}"), u) for i in range(3)] + cands + [(TableReference("w", f"w{i}", schema="s"), w) for i in range(2)]
    if isinstance(sc, pg.PostgresSchemaInterface):  # names are folded to lower case
        hit = [r for r, m in cands if "a" in m.columns]
        ctx.check(sc.lookup_column("A", [x[0] for x in cands]) == (hit[0] if hit else None), "columns in upper case", key="lookup case")
    for c in ("a", "b", "d", "Up Col", "nope"):
        for arg in (c, ColumnReference(c), ColumnReference(c, TableReference("q"))):
            hit = [r for r, m in cands if c in m.columns]
            got = sc.lookup_column(arg, (x[0] for x in cands) if ctx.symbolic and c == "b" else [x[0] for x in cands])
            ctx.check(got == (hit[0] if hit else None), "the first table that contains the column", key="lookup", got=got, want=hit[:1])
    try:
        got = sc.lookup_column("d", [x[0] for x in cands], expect_match=True)
        ctx.check(any(m is t2 for _, m in cands) and got == TableReference("t", schema="s"), "missing columns are rejected", key="lookup expect")
    except ValueError:
        ctx.check(not any(m is t2 for _, m in cands), "columns are found", key="lookup expect")


def rejected(kind):
    def body(ctx):
        t = Tab(BASE[kind], "t", ["a", "b"], pk=["a"])
        what = ctx.pick("what", ["unbound", "virtual"])
        m = ctx.pick("method", ["is_primary_key", "has_secondary_index", "has_index", "indexes_on", "foreign_keys_on", "datatype", "is_nullable", "columns", "is_view", "primary_key_column"])
        with Opened(ctx, kind, [t]) as sc:
            tab = TableReference.create_virtual("t")
            if m in ("columns", "is_view", "primary_key_column"):
                if what == "unbound":
                    return
                arg = tab
            else:
                arg = ColumnReference("a") if what == "unbound" else ColumnReference("a", tab)
            try:
                getattr(sc, m)(arg)
                ctx.check(False, "unbound columns and virtual tables are rejected", key=f"rejected {m} {what}")
            except (core.UnboundColumnError if what == "unbound" else core.VirtualTableError):
                ctx.check(True, "unbound columns and virtual tables are rejected", key="rejected")
            ctx.reach(what)
    return guarded(body)


F = ["DatabaseSchema", "PostgresSchemaInterface", "MysqlSchemaInterface", "DuckDBSchema", "TableInfo"]


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    res = []
    for k in KINDS:
        res += [H(f"indexes {k}", indexes(k), "a table of 2 columns with all primary keys, an arbitrary index and unique constraint; 2 other tables with the same columns; all attribute numbers", ("compound", "simple", "foreign", "local")),
                H(f"foreign keys {k}", foreign_keys(k), "3 tables and a view in 2 schemas, up to 2 foreign keys per column", ("foreign keys", "none", "whole")),
                H(f"tables {k}", tables(k), "4 tables in 2 schemas with up to 4 columns in arbitrary order", ("view", "table")),
                H(f"rejected {k}", rejected(k), "all methods", ("unbound", "virtual"))]
    return res
