"""C40: generated queries are exactly as requested."""
import contextlib
import datetime
import os
import shutil
import tempfile
import types
import warnings
from collections import Counter

import networkx as nx
import numpy as np
from pglast import ast, enums, parse_sql

from vx import minisql
from vx.engine import Harness, PathAbort
from vx.sym import Shadow

import postbound.experiments.ceb as ceb
import postbound.experiments.querygen as qg
import postbound.util.nx as unx
from postbound import TableReference
from postbound._core import ColumnReference
from postbound.db import simplify_result_set
from postbound.qal import SqlQuery
from postbound.util.misc import DependencyGraph
from postbound.workloads import Workload

LEVEL = "model_checking"
ASSUMPTIONS = ["every draw of the random number generator is an arbitrary (symbolic) number", "the database executes its queries correctly"]
SH = Shadow({})
warnings.simplefilter("ignore")
DEEP = False


# ------------------------------------------------------------------ random numbers
class Exhausted(Exception):
    pass


class Draws:
    """stands in for the module `random` and for the generators of numpy: each draw is an arbitrary number"""

    def __init__(self, ctx, limit=40, operators=2, watch=None):
        self.ctx, self.left, self.operators, self.watch = ctx, limit, operators, watch

    def index(self, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        self.left -= 1
        if self.left < 0:
            raise Exhausted()
        return self.ctx.int("draw", 0, n - 1).__index__() if n > 1 else 0

    def seen(self, xs, weights):
        if self.watch is not None:
            self.watch(list(xs), list(weights))

    def choice(self, xs):
        if xs and all(isinstance(x, qg.LogicalOperator) for x in xs):
            self.operators -= 1
            if self.operators < 0:
                return xs[0]
        self.seen(xs, [1] * len(xs))
        return xs[self.index(len(xs))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        assert cum_weights is None
        weights = [1] * len(population) if weights is None else weights
        assert len(weights) == len(population)
        self.seen(population, weights)
        possible = [x for x, w in zip(population, weights) if w > 0]
        return [possible[self.index(len(possible))] for _ in range(k)]

    def randint(self, a, b):
        if b < a:
            raise ValueError("empty range for randrange()")
        return a + self.index(b - a + 1)

    def randrange(self, a, b=None):
        a, b = (0, a) if b is None else (a, b)
        return self.randint(a, b - 1)

    def sample(self, population, k):
        """an arbitrary subset (the order of samples is not explored)"""
        if not 0 <= k <= len(population):
            raise ValueError("Sample larger than population or is negative")
        out, start = [], 0
        for i in range(k):
            j = start + self.index(len(population) - (k - i - 1) - start)
            out.append(population[j])
            start = j + 1
        return out

    def shuffle(self, xs):
        rest = list(xs)
        xs[:] = [rest.pop(self.index(len(rest))) for _ in range(len(rest))]

    def default_rng(self, *args):
        return types.SimpleNamespace(choice=self.np_choice)

    def np_choice(self, population, size=None, replace=True, p=None):
        assert not replace and size is not None
        p = [1] * len(population) if p is None else list(p)
        assert abs(sum(p) - 1) < 1e-9 or p[0] == 1, "probabilities do not sum to 1"
        self.seen(population, p)
        possible = [x for x, w in zip(population, p) if w > 0]
        if size > len(possible):
            raise ValueError("Fewer non-zero entries in p than size")
        return np.array(self.sample(possible, size))


class NumPy:
    def __init__(self, draws):
        self.random = draws

    def __getattr__(self, name):
        return getattr(np, name)


@contextlib.contextmanager
def patched(*changes):
    old = [(m, a, getattr(m, a)) for m, a, _ in changes if hasattr(m, a)]
    for m, a, v in changes:
        if hasattr(m, a):
            setattr(m, a, v)
    try:
        yield
    finally:
        for m, a, v in old:
            setattr(m, a, v)


@contextlib.contextmanager
def random_numbers(d, *more):
    with patched((qg, "random", d), (unx, "random", d), (ceb, "random", d), (ceb, "np", NumPy(d)), *more):
        yield


# ------------------------------------------------------------------ databases
class Db:
    """columns: {table: {column: (type, values)}}, keys: primary keys, fks: [((table, column), (table, column))]"""

    def __init__(self, columns, keys=(), fks=(), rows=0):
        self.columns, self.keys, self.fks, self.rows = columns, set(keys), list(fks), rows
        self.tables = {t: TableReference(t) for t in columns}
        self.queries = []
        self.engine = minisql.Engine({t: minisql.Table(cols, list(zip(*[v for _, v in cols.values()]))) for t, cols in columns.items()})

    def column(self, t, c):
        return ColumnReference(c, self.tables[t])

    def schema(self):
        return Schema(self)

    def statistics(self):
        return types.SimpleNamespace(total_rows=lambda table, **kwargs: self.rows)

    def execute_query(self, query, *, cache_enabled=None, raw=False):
        import re
        text = re.sub(r"TABLESAMPLE\s+\w+\s*\([^)]*\)", "", str(query))
        self.queries.append(str(query))
        out = [tuple(r) for r in self.engine.run(text)]
        return out if raw else simplify_result_set(out)


class Schema:
    def __init__(self, db):
        self.db = db

    def as_graph(self):
        g = nx.DiGraph()
        for t, cols in self.db.columns.items():
            refs = [self.db.column(t, c) for c in cols]
            g.add_node(self.db.tables[t], columns=refs, data_type={r: cols[r.name][0] for r in refs}, primary_key=None)
        for (t, c), (u, d) in self.db.fks:
            fk = qg.ForeignKeyRef(self.db.column(t, c), self.db.column(u, d))
            edge = g.edges.get([self.db.tables[t], self.db.tables[u]])
            if edge:
                edge["foreign_keys"].append(fk)
            else:
                g.add_edge(self.db.tables[t], self.db.tables[u], foreign_keys=[fk])
        return g

    def tables(self):
        return set(self.db.tables.values())

    def columns(self, table):
        name = table if isinstance(table, str) else table.full_name
        return [self.db.column(name, c) for c in self.db.columns[name]]

    def is_primary_key(self, col):
        return (col.table.full_name, col.name) in self.db.keys

    def foreign_keys_on(self, col):
        return {self.db.column(u, d) for (t, c), (u, d) in self.db.fks if (t, c) == (col.table.full_name, col.name)}

    def datatype(self, col):
        return self.db.columns[col.table.full_name][col.name][0]

    def lookup_column(self, column, candidate_tables, *, expect_match=False):
        name = column.name if isinstance(column, ColumnReference) else column
        for t in candidate_tables:
            if name in self.db.columns[t.full_name]:
                return t
        if expect_match:
            raise ValueError(name)
        return None


# ------------------------------------------------------------------ reading queries
def literal(node):
    if isinstance(node, ast.TypeCast):
        return literal(node.arg)
    if isinstance(node, ast.A_Const):
        if node.isnull:
            return None
        v = node.val
        return int(v.ival) if isinstance(v, ast.Integer) else float(v.fval) if isinstance(v, ast.Float) else v.boolval if isinstance(v, ast.Boolean) else v.sval
    if isinstance(node, ast.A_Expr) and node.lexpr is None:
        return -literal(node.rexpr)
    raise ValueError(f"no literal: {node}")


def conjuncts(node):
    if node is None:
        return []
    if isinstance(node, ast.BoolExpr) and node.boolop == enums.BoolExprType.AND_EXPR:
        return [x for a in node.args for x in conjuncts(a)]
    return [node]


def read(sql):
    """(columns of the select clause, [(table, alias)], [(column, operator, column or value)])"""
    stmts = parse_sql(sql)
    assert len(stmts) == 1
    q = stmts[0].stmt
    tables = [(r.relname, r.alias.aliasname if r.alias else r.relname) for r in q.fromClause]
    preds = []
    for e in conjuncts(q.whereClause):
        assert isinstance(e, ast.A_Expr), e
        col = tuple(f.sval for f in e.lexpr.fields)
        op = e.name[0].sval
        if e.kind == enums.A_Expr_Kind.AEXPR_IN:
            preds.append((col, "IN" if op == "=" else "NOT IN", tuple(literal(x) for x in e.rexpr)))
        elif isinstance(e.rexpr, ast.ColumnRef):
            preds.append((col, op, ("column",) + tuple(f.sval for f in e.rexpr.fields)))
        else:
            preds.append((col, {"~~": "LIKE", "~~*": "ILIKE"}.get(op, op), literal(e.rexpr)))
    target = q.targetList[0].val
    return ("count(*)" if isinstance(target, ast.FuncCall) else "*"), tables, preds


# ------------------------------------------------------------------ random queries
FKS = {"chain": [(("s", "r_a"), ("r", "a")), (("t", "s_c"), ("s", "c"))],
       "star": [(("s", "r_a"), ("r", "a")), (("t", "s_c"), ("r", "a"))],
       "two keys": [(("s", "r_a"), ("r", "a")), (("s", "c"), ("r", "a")), (("t", "s_c"), ("s", "c"))],
       "cycle": [(("s", "r_a"), ("r", "a")), (("t", "s_c"), ("s", "c")), (("r", "b"), ("t", "f"))]}


def schema(shape, kind="integer"):
    return Db({"r": {"a": (kind, [1, 2]), "b": ("text", ["o'x", "o'x"])},
               "s": {"c": (kind, [0, 0]), "r_a": (kind, [1, 1])},
               "t": {"s_c": (kind, [0, 0]), "f": ("text", ["", ""])}},
              keys=[("r", "a"), ("s", "c")], fks=FKS[shape])


def check_query(ctx, db, q, tabs, filters, allowed, star, key):
    """tabs and filters: (minimum, maximum)"""
    ctx.check(isinstance(q, SqlQuery), "generated queries are queries", key=key)
    select, tables, preds = read(str(q))
    ctx.check(select == star, "the SELECT clause is as requested", key=key)
    names = [t for t, _ in tables]
    ctx.check(len(set(names)) == len(names) and set(names) <= set(allowed), "each allowed table is contained at most once", key=key)
    ctx.check(tabs[0] <= len(names) <= tabs[1], "the number of tables is as requested", got=len(names), want=tabs, key=key)
    joins = [p for p in preds if isinstance(p[2], tuple) and p[2][:1] == ("column",)]
    fil = [p for p in preds if p not in joins]
    got = Counter()
    for col, op, other in joins:
        pair = {col, other[1:]}
        ctx.check(op == "=" and any(pair == {x, y} for x, y in db.fks), "joins follow the foreign keys", got=str((col, op, other)), key=key)
        got[frozenset((col[0], other[1]))] += 1
    want = {frozenset((x[0], y[0])) for x, y in db.fks if x[0] in names and y[0] in names}
    ctx.check(got == Counter(want), "tables with foreign keys are joined exactly once", got=str(got), want=str(want), key=key)
    g = nx.Graph(list(tuple(p) for p in want))
    g.add_nodes_from(names)
    ctx.check(nx.is_connected(g), "the tables are connected", key=key)
    columns = [p[0] for p in fil]
    ctx.check(len(set(columns)) == len(columns), "each column is filtered at most once", key=key)
    ctx.check(filters[0] <= len(fil) <= filters[1], "the number of filters is as requested", got=len(fil), want=filters, key=key)
    for col, op, value in fil:
        ctx.check(col[0] in names and col[1] in allowed[col[0]], "filters refer to requested columns", got=str(col), key=key)
        ctx.check(op in ("=", "<>", "!=", "<", ">"), "filters are simple comparisons", got=op, key=key)
        values = db.columns[col[0]][col[1]][1]
        ctx.check(value is not None and value in values and type(value) in map(type, values), "filters compare with values of the column", got=repr(value), key=key)
    ctx.reach(f"{len(names)} tables")
    ctx.reach(f"{len(fil)} filters")
    return names, columns


def structure(ctx):
    shape = ctx.pick("schema", tuple(FKS))
    db = schema(shape)
    low, high = ctx.pick("tables", ((None, None), (1, 1), (2, 2), (3, None), (2, 5)))
    count = bool(ctx.bool("count"))
    pool = bool(ctx.bool("database from the pool"))
    allowed = {t: list(c) for t, c in db.columns.items()}
    d = Draws(ctx, operators=1 if DEEP else 0)
    current = types.SimpleNamespace(get_instance=lambda: types.SimpleNamespace(current_database=lambda: db))
    filters = ctx.pick("filters", ((0, 0), (1, 1), (0, 1)))
    try:
        with random_numbers(d, (qg, "DatabasePool", current)):
            q = next(qg.generate_query(None if pool else db, count_star=count, min_tables=low, max_tables=high, min_filters=filters[0] or None, max_filters=filters[1]))
    except Exhausted:
        ctx.check(False, "queries are generated", key=f"{low}-{high}/{filters}")
        return
    check_query(ctx, db, q, (low or 1, high or 3), filters, allowed, "count(*)" if count else "*", "structure")


def filters(ctx):
    shape = ctx.pick("schema", ("chain", "two keys"))
    kind = ctx.pick("type", ("integer", "INTEGER", "bigint", "double precision", "DOUBLE", "timestamp without time zone", "decimal(10,2)", "date"))
    db = schema(shape, kind)
    keys, numeric = (True, False), (False, True)
    mode = ctx.pick("mode", ("all", "no keys", "numeric", "numeric without keys"))
    if mode != "numeric" and kind != "integer":
        raise PathAbort()
    allowed = {t: list(c) for t, c in db.columns.items()}
    if mode in ("no keys", "numeric without keys"):
        fk = {x for x, _ in db.fks}
        allowed = {t: [c for c in cols if (t, c) not in fk | db.keys] for t, cols in allowed.items()}
    if mode.startswith("numeric"):
        allowed = {t: [c for c in cols if db.columns[t][c][0] != "text"] for t, cols in allowed.items()}
    few = kind != "integer" and not DEEP
    tabs = ctx.pick("tables", ((1, 1), (2, 2))[:1 if few else 2])
    # counts for which each selection of tables suffices
    groups = [["r"], ["s"], ["t"]] if tabs[0] == 1 else [["r", "s"], ["s", "t"]]
    limit = min(sum(len(allowed[t]) for t in g) for g in groups)
    most = max(sum(len(allowed[t]) for t in g) for g in groups)
    low = ctx.pick("minimum", (None, 1) if few else (None, 0, 1, 2, 4))
    if (low or 0) > limit:
        raise PathAbort()
    high = ctx.pick("maximum", (None,) if few else (None, 0, 1, 2, 4))
    key = f"filters/{mode}"
    d = Draws(ctx, operators=1)
    try:
        with random_numbers(d):
            q = next(qg.generate_query(db, min_tables=tabs[0], max_tables=tabs[1], min_filters=low, max_filters=high, filter_key_columns="without keys" not in mode and mode != "no keys", numeric_filters=mode.startswith("numeric")))
    except Exhausted:
        ctx.check(False, "queries are generated", key=key)
        return
    except ValueError:
        ctx.check(high is not None and high < (low or 0), "requests that can be satisfied are accepted", key=key)
        ctx.reach("reject")
        return
    ctx.check(high is None or high >= (low or 0), "contradicting requests are rejected", key=key)
    check_query(ctx, db, q, tabs, (low or 0, most if high is None else high), allowed, "*", key)
    ctx.reach(mode)


def values(ctx):
    """filters of a single column with arbitrary contents"""
    pgs = bool(ctx.bool("postgres"))
    name = ctx.pick("column", ("a", "Weird Name", "order"))
    table = ctx.pick("table", ("r", "Mixed"))
    content = ctx.pick("values", ([1, 2, 2, 3], [0], [0, 0], [""], ["", "x"], [None, 5], [None, "a", None], [None], [1.5], [], ["o'x", "%"], [True, False]))
    db = Db({table: {name: ("integer", content)}, "pg_x" if pgs else "other": {"z": ("integer", [7])}}, rows=2000 if bool(ctx.bool("large")) else 10)
    ignore = None if pgs else {TableReference("other")}
    d = Draws(ctx, operators=1)
    low = 1 if any(v is not None for v in content) else 0
    try:
        with random_numbers(d, (qg, "postgres", types.SimpleNamespace(PostgresInterface=Db if pgs else Draws))):
            gen = qg.generate_query(db, ignore_tables=ignore, min_filters=1)
            out = [next(gen) for _ in range(2 if len(content) < 3 else 1)]
    except Exhausted:
        ctx.check(False, "queries are generated", key="values")
        return
    for q in out:
        check_query(ctx, db, q, (1, 1), (low, low), {table: [name]}, "*", "values")
    sampled = any("TABLESAMPLE" in x for x in db.queries)
    ctx.check(not sampled or (pgs and db.rows > 1000), "values are only sampled from large tables", key="values")
    ctx.reach("postgres" if pgs else "other")


# ------------------------------------------------------------------ templates
D1, D2 = datetime.date(2020, 1, 2), datetime.date(2021, 3, 4)
TEXTS = ("text", "VARCHAR", "character varying", "varchar(20)")


def people(text="text"):
    return Db({"p": {"id": ("integer", [1, 2, 3, 4, 5]), "k": ("INTEGER", [1, 1, 2, 2, 2]), "n": (text, ["x", "o'x", "x", "y", "y"]), "d": ("date", [D1, D1, D2, D2, D2])},
               "e": {"z": ("integer", [2, 3]), "n": (text, ["q", "q"])}})


def toml(v):
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return str(v)


def template(title, sql, aliases, predicates):
    lines = [f"title = {toml(title)}", "[base_sql]", f"sql = {toml(sql)}", "table_aliases = {" + ", ".join(f"{k} = {toml(v)}" for k, v in aliases.items()) + "}"]
    for p in predicates:
        lines.append("[[predicates]]")
        lines += [f"{k} = {toml(v)}" for k, v in p.items()]
    return "\n".join(lines) + "\n"


def generate(ctx, db, templates, n=1, parsed=False, watch=None, limit=40):
    d = tempfile.mkdtemp()
    try:
        for i, t in enumerate(templates):
            with open(os.path.join(d, f"t{i}.toml"), "w") as f:
                f.write(t)
        with random_numbers(Draws(ctx, limit=limit, watch=watch)):
            if parsed:
                return ceb.generate_workload(d, queries_per_template=n, db_connection=db)
            return ceb.generate_raw_workload(d, queries_per_template=n, db_connection=db)
    finally:
        shutil.rmtree(d)


def want_literal(v, op):
    if op in ("LIKE", "ILIKE"):
        return f"%{v}%"
    return str(v) if isinstance(v, datetime.date) else v


def scalar(ctx):
    """a predicate with scalar values"""
    text = ctx.pick("text type", TEXTS)
    db = people(text)
    col = ctx.pick("column", ("id", "k", "n", "d"))
    if col != "n" and text != "text":
        raise PathAbort()
    op = ctx.pick("operator", ("=", "<", ">", "<=", ">=", "<>") if col != "n" else ("=", "<>", "LIKE", "ILIKE"))
    method = ctx.pick("sampling", ("uniform", "weighted"))
    source = ctx.pick("source", ("sql", "list", "weights first", "weights second"))
    alias = ctx.pick("alias", ("p", "x", "none"))
    styles = (col, source) == ("k", "sql") and alias != "x"
    style = lambda name: styles and bool(ctx.bool(name))
    weights_given = source.startswith("weights")
    data = db.columns["p"][col][1]
    if source != "sql" and col == "d":
        data = [str(v) for v in data]
    dist = Counter(data)
    pred = {"name": "P", "keys": ["<<V>>" if style("brackets") else "V"], "columns": [col if alias == "none" else f"{alias}.{col}"],
            "pred_type": op if style("plain operator") else [op], "sampling_method": method, "type": "sql" if source == "sql" else "list"}
    if source == "sql":
        pred["sql"] = f"SELECT p.{col} FROM p"
    elif source == "list":
        pred["options"] = list(data)
    else:
        dist = Counter({v: i + 2 for i, v in enumerate(dict.fromkeys(data))})
        dist[max(dist)] = 0
        pred["options"] = [[w, v] if source == "weights first" else [v, w] for v, w in dist.items()]
        pred["weights_column"] = 1 if source == "weights first" else 2
    if style("empty dependencies"):
        pred["dependencies"] = []
    x = {"p": "p", "x": "x", "none": "p"}[alias]
    t = template("q", f"SELECT * FROM p{' x' if alias == 'x' else ''} WHERE {'' if alias == 'none' else x + '.'}{col} {op} <<V>>", {"x": "p"} if alias == "x" else {"p": ""}, [pred])
    seen = []

    def watch(xs, ws):
        probs = Counter()
        for item, w in zip(xs, ws):
            item = tuple(item) if isinstance(item, (tuple, list)) else (item,)
            if weights_given and len(item) == 2:
                item = item[1:] if source == "weights first" else item[:1]
            probs[item[0] if len(item) == 1 else item] += w
        seen.append(probs)
    key = f"{col}/{op}/{source}/{method}"
    wl = generate(ctx, db, [t], watch=watch)
    ctx.check(list(wl) == ["q-1"], "queries are labelled", got=list(wl), key="label")
    _, tables, preds = read(wl["q-1"])
    expected = {v for v, w in dist.items() if w or method == "uniform"}
    ctx.check(len(preds) == 1 and preds[0][:2] == ((col,) if alias == "none" else (x, col), op) and preds[0][2] in {want_literal(v, op) for v in expected}, "placeholders are replaced by values", got=wl["q-1"], key=key)
    for probs in seen:
        if set(probs) == set(dist):
            target = {v: 1 / len(dist) for v in dist} if method == "uniform" else {v: w / dist.total() for v, w in dist.items()}
            total = sum(probs.values())
            ctx.check(all(abs(probs[v] / total - target[v]) < 1e-9 for v in dist), "values are sampled with their probabilities", got=str(probs), want=str(target), key="probability")
            ctx.reach("distribution")
    ctx.reach("done")


def several(ctx):
    """IN predicates"""
    text = ctx.pick("text type", ("text", "VARCHAR"))
    db = people(text)
    col = ctx.pick("column", ("id", "n") if text == "text" else ("n",))
    method = ctx.pick("sampling", ("uniform", "weighted"))
    source = ctx.pick("source", ("sql", "list", "weights first", "weights second"))
    low, high = ctx.pick("samples", ((None, None), (1, 1), (2, None), (2, 2), (None, 2), (2, 3), (6, 7)))
    data = db.columns["p"][col][1]
    dist = Counter(data)
    pred = {"name": "P", "keys": ["V"], "columns": [f"p.{col}"], "pred_type": ["IN"], "sampling_method": method, "type": "sql" if source == "sql" else "list"}
    if source == "sql":
        pred["sql"] = f"SELECT p.{col} FROM p"
    elif source == "list":
        pred["options"] = list(data)
    else:
        dist = Counter({v: i + 1 for i, v in enumerate(dict.fromkeys(data))})
        pred["options"] = [[w, v] if source == "weights first" else [v, w] for v, w in dist.items()]
        pred["weights_column"] = 1 if source == "weights first" else 2
    if low is not None:
        pred["min_samples"] = low
    if high is not None:
        pred["max_samples"] = high
    seen = []

    def watch(xs, ws):
        if all(not isinstance(x, (tuple, list)) for x in xs):
            seen.append({(x.item() if hasattr(x, "item") else x): w for x, w in zip(xs, ws)})
    least, most = low or 1, min(high or len(dist), len(dist))
    key = f"{source}/{method}"
    try:
        wl = generate(ctx, db, [template("q", f"SELECT * FROM p WHERE p.{col} IN <<V>>", {"p": "p"}, [pred])], watch=watch)
    except ceb.SamplingError:
        ctx.check(least > most, "requests that can be satisfied are accepted", key=key)
        ctx.reach("reject")
        return
    ctx.check(least <= most, "requests that cannot be satisfied are rejected", key=key)
    _, _, preds = read(wl["q-1"])
    ctx.check(len(preds) == 1 and preds[0][:2] == (("p", col), "IN"), "placeholders are replaced by values", got=wl["q-1"], key=key)
    got = preds[0][2]
    ctx.check(len(set(got)) == len(got) and set(got) <= set(dist), "different values are chosen", got=str(got), key=key)
    ctx.check(least <= len(got) <= most, "the number of values is as requested", got=str(got), want=(least, most), key=key)
    for probs in seen:
        if method == "weighted" and set(probs) == set(dist):
            total = sum(probs.values())
            ctx.check(all(abs(probs[v] / total - dist[v] / dist.total()) < 1e-9 for v in dist), "values are sampled with their probabilities", got=str(probs), key="probability")
            ctx.reach("distribution")
    ctx.reach(f"{len(got)} values")


def correlated(ctx):
    """several placeholders of a predicate, and predicates that depend on each other"""
    db = people()
    rows = list(zip(*[v for _, v in db.columns["p"].values()]))
    mode = ctx.pick("mode", ("sql", "list", "chain", "siblings", "both", "in"))
    pred = lambda name, col, sql, deps=(), op="=": {"name": name, "keys": [name], "columns": [f"p.{col}"], "pred_type": [op], "sampling_method": "uniform", "type": "sql", "sql": sql, "dependencies": list(deps)}
    dep = []
    if mode == "sql":
        preds = [{"name": "M", "keys": ["K", "N"], "columns": ["p.k", "p.n"], "pred_type": ["=", "="], "sampling_method": "uniform", "type": "sql", "sql": "SELECT DISTINCT p.k, p.n FROM p"}]
        good = lambda v: any((v["k"], v["n"]) == r[1:3] for r in rows)
        base = "p.k = <<K>> AND p.n = <<N>>"
    elif mode == "list":
        preds = [{"name": "M", "keys": ["N", "K"], "columns": ["p.n", "p.k"], "pred_type": ["LIKE", "<="], "sampling_method": "uniform", "type": "list", "options": [["a", 1], ["b", 2], ["1", 3]]}]
        good = lambda v: (v["n"], v["k"]) in (("%a%", 1), ("%b%", 2), ("%1%", 3))
        base = "p.k <= <<K>> AND p.n LIKE <<N>>"
    elif mode == "in":
        preds = [dict(pred("N", "n", "SELECT p.n FROM p", op="IN"), max_samples=2), pred("I", "id", "SELECT p.id FROM p WHERE p.n IN <<N>>", ["N"])]
        good = lambda v: any(v["id"] == r[0] and r[2] in v["n"] for r in rows)
        base = "p.n IN <<N>> AND p.id = <<I>>"
    else:
        first = {"name": "K", "keys": ["K"], "columns": ["p.k"], "pred_type": ["="], "sampling_method": "uniform", "type": "list", "options": [1, 2, 9]}
        second = pred("N", "n", "SELECT p.n FROM p WHERE p.k = <<K>>", ["K"])
        base = "p.k = <<K>> AND p.n = <<N>> AND p.id = <<I>>"
        if mode == "chain":
            preds = [first, second, pred("I", "id", "SELECT p.id FROM p WHERE p.n = <<N>>", ["N"])]
            good = lambda v: any(v["k"] == r[1] and v["n"] == r[2] for r in rows) and any(v["n"] == r[2] and v["id"] == r[0] for r in rows)
        elif mode == "siblings":
            first["options"] = [1, 2]
            preds = [first, second, pred("I", "id", "SELECT p.id FROM p WHERE p.k = <<K>> AND p.id > 3", ["K"])]
            good = lambda v: any(v["k"] == r[1] and v["n"] == r[2] for r in rows) and any(v["k"] == r[1] and v["id"] == r[0] > 3 for r in rows)
        else:
            other = {"name": "N", "keys": ["N"], "columns": ["p.n"], "pred_type": ["="], "sampling_method": "uniform", "type": "list", "options": ["x", "y"]}
            first["options"] = [1, 2]
            preds = [first, other, pred("I", "id", "SELECT p.id FROM p WHERE p.k = <<K>> AND p.n = <<N>>", ["K", "N"])]
            good = lambda v: any((v["id"], v["k"], v["n"]) == r[:3] for r in rows)
        order = ctx.pick("order", ((0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1)))
        preds = [preds[i] for i in order]
    try:
        wl = generate(ctx, db, [template("q", f"SELECT * FROM p WHERE {base}", {"p": "p"}, preds)], limit=18 if DEEP else 14)
    except (Exhausted, ceb.SamplingError):
        raise PathAbort()
    _, _, got = read(wl["q-1"])
    vals = {c[1]: v for c, _, v in got}
    ctx.check(len(got) == base.count("<<") and bool(good(vals)), "values fit together", got=wl["q-1"], key=mode)
    ctx.reach(mode)


def workloads(ctx):
    """the requested number of different queries"""
    db = people()
    n = ctx.pick("queries", (1, 2, 3, 4))
    parsed = bool(ctx.bool("parsed"))
    ts = []
    both = bool(ctx.bool("two templates"))
    for title in ("q", "q2")[:2 if both else 1]:
        ts.append(template(title, f"SELECT * FROM p WHERE p.id = <<V>>{' AND p.k = 1' if title == 'q2' else ''}", {"p": "p"}, [{"name": "P", "keys": ["V"], "columns": ["p.id"], "pred_type": ["="], "sampling_method": "uniform", "type": "list", "options": [1, 2, 3]}]))
    try:
        wl = generate(ctx, db, ts, n=n, parsed=parsed, limit=(6 if both else 5) if DEEP else 5 if both else 4)
    except Exhausted:
        raise PathAbort()
    ctx.check(n <= 3, "only different queries are generated", key="different")
    titles = ("q", "q2")[:2 if both else 1]
    items = dict(wl.entries()) if parsed else wl
    ctx.check(set(items) == {f"{t}-{i}" for t in titles for i in range(1, n + 1)}, "each template provides the requested number of queries", got=sorted(items), key="labels")
    texts = [str(q) for q in items.values()]
    ctx.check(len(set(texts)) == len(texts), "the queries of a workload are different", key="different")
    for label, q in items.items():
        _, _, preds = read(str(q))
        ctx.check(preds[0][:2] == (("p", "id"), "=") and preds[0][2] in (1, 2, 3) and (len(preds) == 2) == label.startswith("q2-"), "queries belong to their templates", got=str(q), key="template")
    if parsed:
        ctx.check(isinstance(wl, Workload) and all(isinstance(q, SqlQuery) for q in items.values()), "workloads contain parsed queries", key="parsed")
    d = tempfile.mkdtemp()
    try:
        ceb.persist_workload(d, wl)
        files = sorted(os.listdir(d))
        ctx.check(files == sorted(f"{label}.sql" for label in items), "each query is stored", got=files, key="persist")
        for label, q in items.items():
            with open(os.path.join(d, f"{label}.sql")) as f:
                ctx.check(read(f.read()) == read(str(q)), "the stored queries are the queries", key="persist")
    finally:
        shutil.rmtree(d)
    ctx.reach("parsed" if parsed else "raw")


def dependencies(ctx):
    n = 1 + ctx.choose("tasks", 4)
    names = "abcd"[:n]
    order = []
    rest = list(names)
    while rest:
        order.append(rest.pop(ctx.choose(f"next {''.join(order)}", len(rest))))
    deps = {x: [y for y in names if y < x and bool(ctx.bool(f"{x} after {y}"))] for x in names}
    g = DependencyGraph()
    implicit = bool(ctx.bool("implicit tasks"))
    for x in order:
        if implicit and not deps[x] and any(x in ys for ys in deps.values()):
            ctx.reach("implicit")
            continue
        g.add_task(x, depends_on=deps[x] if deps[x] or bool(ctx.bool("empty list")) else None)
    for _ in range(2):
        out = list(g)
        ctx.check(sorted(out) == sorted(names), "every task is provided once", got=out, key="once")
        ctx.check(all(out.index(y) < out.index(x) for x in names for y in deps[x]), "tasks are provided after their dependencies", got=out, want=str(deps), key="order")
    ctx.reach("done")


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    G = ["generate_query", "_generate_join_predicates", "_generate_filter", "nx_random_walk"]
    C = ["generate_raw_workload", "_parse_template_toml", "QueryTemplate", "PredicateGenerator"]
    return [Harness("structure", structure, functions=G, must_reach=("1 tables", "2 tables", "3 tables", "0 filters", "1 filters"), bounds={"tables": 3, "schemas": 4, "draws": "arbitrary"}),
            Harness("filters", filters, functions=G + ["_is_numeric"], must_reach=("all", "no keys", "numeric", "0 filters", "1 filters", "2 filters", "4 filters", "reject"), bounds={"tables": 2, "columns": 4, "draws": "arbitrary, one operator"}),
            Harness("values", values, functions=G, must_reach=("postgres", "other", "0 filters", "1 filters"), bounds={"values": 4, "draws": "arbitrary"}),
            Harness("scalar", scalar, functions=C, must_reach=("done", "distribution"), bounds={"rows": 5, "draws": "arbitrary"}),
            Harness("several", several, functions=C, must_reach=("1 values", "2 values", "3 values", "reject", "distribution"), bounds={"rows": 5, "draws": "arbitrary"}),
            Harness("correlated", correlated, functions=C + ["DependencyGraph"], must_reach=("sql", "list", "chain", "siblings", "both", "in"), bounds={"predicates": 3, "draws": 14}),
            Harness("workloads", workloads, functions=C + ["generate_workload", "persist_workload"], must_reach=("raw", "parsed"), bounds={"templates": 2, "queries": 3, "draws": 5}),
            Harness("dependencies", dependencies, functions=["DependencyGraph"], must_reach=("done", "implicit"), bounds={"tasks": 4})]
