"""C36: plans reported by the supported database systems are imported without loss or distortion."""
import json
import math
import types
import warnings

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Shadow, is_nan

import postbound._core as core
import postbound._qep as qep
import postbound.duckdb as duck
import postbound.mysql as my
import postbound.postgres as pg
from postbound import TableReference, parse_query, transform
from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._qep import QueryPlan
from postbound.qal import Hint

LEVEL = "model_checking"
ASSUMPTIONS = ["database connections are stand-ins", "nodes have at most one subplan; estimates of subplans inside of parallel parts are not constrained", "MySQL: no derived tables and unions", "DuckDB: scans of tables that are referenced multiple times may remain unbound, unless the filters of exactly one of them match"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, pg: NS, duck: NS, my: NS})
warnings.simplefilter("ignore")
NAN = math.nan


def num(x):
    return x.get() if isinstance(x, Cardinality) else x


def eq(a, b):
    """Equality of two numbers, including unknown ones."""
    a, b = num(a), num(b)
    while isinstance(a, Cardinality):
        a = a.get()
    na, nb = a is None or is_nan(a), b is None or is_nan(b)
    if na or nb:
        return na and nb
    d = a - b
    return And(d <= 1e-6, d >= -1e-6)


def tab(t):
    return None if t is None else (t.full_name, t.alias)


def opt_eq(a, b):
    return (a is None) == (b is None) and (a is None or eq(a, b))


class Want:
    def __init__(self, kind, op=None, table=None, children=(), sub=None, index=None, est=NAN, act=NAN, cost=NAN, time=NAN, hits=None, misses=None, workers=None):
        self.__dict__.update(kind=kind, op=op, table=table, children=list(children), sub=sub, index=index, est=est, act=act, cost=cost, time=time, hits=hits, misses=misses, workers=workers)


def compare(ctx, got, want, key, free_est=False):
    c = lambda ok, what: ctx.check(ok, what, key=f"{key}/{want.kind}")
    ctx.check(isinstance(got, QueryPlan), "the result is a query plan", key=key)
    c(got.node_type == want.kind or want.op is not None and got.node_type == want.op.name, "node types")
    c(got.operator is want.op, "operators")
    c(tab(got.base_table) == want.table, "scanned tables")
    c((got.params.index or None) == want.index, "indexes")
    if not free_est:
        c(eq(got.estimated_cardinality, want.est), "estimated cardinalities")
    c(eq(got.estimated_cost, want.cost), "costs")
    c(eq(got.actual_cardinality, want.act), "actual cardinalities")
    c(eq(got.execution_time, want.time), "execution times")
    c(opt_eq(got.measures.cache_hits, want.hits), "cache hits")
    c(opt_eq(got.measures.cache_misses, want.misses), "cache misses")
    c(eq(got.params.parallel_workers or 0, want.workers or 0), "workers")
    c(len(got.children) == len(want.children), "number of children")
    for a, b in zip(got.children, want.children):
        compare(ctx, a, b, key, free_est)
    c((got.subplan is None) == (want.sub is None), "subplans")
    if want.sub is not None:
        compare(ctx, got.subplan.root, want.sub[0], key, free_est or want.sub[1])


# ---------------------------------------------------------------- Postgres
OPS = {"Nested Loop": JO.NestedLoopJoin, "Hash Join": JO.HashJoin, "Merge Join": JO.SortMergeJoin, "Seq Scan": SO.SequentialScan, "Index Scan": SO.IndexScan, "Index Only Scan": SO.IndexOnlyScan,
       "Bitmap Heap Scan": SO.BitmapScan, "Materialize": IO.Materialize, "Memoize": IO.Memoize, "Sort": IO.Sort}


def n(kind, *children, rel="Outer", table=None, alias=None, index=None, planned=0, name=None, cte=None):
    return types.SimpleNamespace(kind=kind, children=list(children), rel=rel, table=table, alias=alias, index=index, planned=planned, name=name, cte=cte)


def scan(kind, table, alias=None, rel="Outer"):
    return n(kind, rel=rel, table=table, alias=alias, index={"Index Scan": "ix", "Index Only Scan": "iox"}.get(kind))


def pg_trees(ctx):
    s = lambda rel="Outer": scan(ctx.pick("scan", ("Seq Scan", "Index Scan", "Index Only Scan", "Tid Scan")), "r", ctx.pick("alias", (None, "r", "x")), rel)
    simple = lambda t, rel="Outer": scan("Seq Scan", t, t, rel)
    w = lambda: ctx.pick("planned workers", (0, 1, 3))
    return {
        "scan": lambda: s(),
        "join": lambda: n(ctx.pick("join", ("Nested Loop", "Hash Join", "Merge Join")), simple("r"), simple("s", "Inner")),
        "hash": lambda: n("Hash Join", simple("r"), n("Hash", simple("s"), rel="Inner")),
        "intermediate": lambda: n("Nested Loop", simple("r"), n(ctx.pick("intermediate", ("Materialize", "Memoize", "Sort", "Incremental Sort")), simple("s"), rel="Inner")),
        "gather": lambda: n("Aggregate", n(ctx.pick("gather", ("Gather", "Gather Merge")), n("Hash Join", simple("r"), n("Hash", simple("s"), rel="Inner")), planned=w())),
        "inner gather": lambda: n("Nested Loop", simple("r"), n("Gather", n("Sort", simple("s")), rel="Inner", planned=w())),
        "nested gather": lambda: n("Gather", n("Nested Loop", simple("r"), n("Gather", simple("s"), rel="Inner", planned=w())), planned=w()),
        "append": lambda: n("Append", simple("r", "Member"), n("Limit", simple("s"), rel="Member"), simple("t", "Member")),
        "parallel append": lambda: n("Gather", n("Append", simple("r", "Member"), simple("s", "Member")), planned=w()),
        "bitmap": lambda: n("Bitmap Heap Scan", n("Bitmap Index Scan", index="ix"), table="r", alias="x"),
        "bitmap and": lambda: n("Bitmap Heap Scan", n(ctx.pick("bitmap", ("BitmapAnd", "BitmapOr")), n("Bitmap Index Scan", rel="Member", index="ix"), n("Bitmap Index Scan", rel="Member", index="iy")), table="r", alias="r"),
        "init plan": lambda: n(ctx.pick("join", ("Nested Loop", "Hash Join")), simple("r"), simple("s", "Inner"), n("Aggregate", simple("t"), rel="InitPlan", name="InitPlan 1 (returns $0)")),
        "sub plan": lambda: n("Seq Scan", n("Limit", simple("t"), rel="SubPlan", name="SubPlan 1"), table="r", alias="r"),
        "subquery scan": lambda: n("Hash Join", simple("r"), n("Subquery Scan", n("Unique", simple("s"), rel="Subquery"), rel="Inner", alias="q")),
        "cte": lambda: n("CTE Scan", n("Seq Scan", rel="InitPlan", table="r", alias="r", name="CTE c"), alias="c", cte="c"),
        "function": lambda: n("Nested Loop", n(ctx.pick("function", ("Function Scan", "Values Scan", "Foreign Scan")), alias="f", table="f" if ctx.bool("has name") else None), simple("s", "Inner")),
        "parallel subplan": lambda: n("Gather", n("Seq Scan", n("Result", rel="SubPlan", name="SubPlan 1"), table="r", alias="r"), planned=w()),
    }


def pg_json(ctx, t, info, w, path="0", inside=False):
    """The JSON document and the expected plan for a tree."""
    d = {"Node Type": t.kind, "Parallel Aware": False, "Startup Cost": 0.5}
    if path != "0":
        d["Parent Relationship"] = t.rel
    want = Want(t.kind, OPS.get(t.kind), None if not t.table else (t.table, t.alias if t.alias and t.alias != t.table else ""), index=t.index)
    for k, v in {"Relation Name": t.table, "Alias": t.alias, "Index Name": t.index, "Subplan Name": t.name, "CTE Name": t.cte}.items():
        if v is not None:
            d[k] = v
    if info != "bare":
        rows, cost = ctx.int(f"rows {path}", 0, 10**6), ctx.real(f"cost {path}", 0, 10**6)
        d |= {"Plan Rows": rows, "Total Cost": cost, "Plan Width": 8}
        want.est, want.cost = rows * (w + 1 if w else 1), cost
    if info in ("analyze", "buffers"):
        act, time, loops = ctx.int(f"actual rows {path}", 0, 10**6), ctx.real(f"time {path}", 0, 10**6), ctx.pick("loops", (1, 3)) if path in ("0", "01") else 2
        d |= {"Actual Rows": act, "Actual Total Time": time, "Actual Loops": loops, "Actual Startup Time": 0.1}
        want.act, want.time = NAN if t.kind in ("BitmapAnd", "BitmapOr") else act * loops, time / 1000
    if info == "buffers":
        want.hits, want.misses = ctx.int(f"hits {path}", 0, 100), ctx.int(f"misses {path}", 0, 100)
        d |= {"Shared Hit Blocks": want.hits, "Shared Read Blocks": want.misses, "Temp Read Blocks": 7, "Temp Written Blocks": 8}
    if "Gather" in t.kind:
        d["Workers Planned"] = t.planned
        want.workers = t.planned or None
        if info in ("analyze", "buffers"):
            d["Workers Launched"] = ctx.int(f"launched {path}", 0, 3)
            want.workers = d["Workers Launched"] if d["Workers Launched"] > 0 else want.workers
    plans, kids = [], {}
    for i, c in enumerate(t.children):
        j, k = pg_json(ctx, c, info, w if w else t.planned, path + str(i))
        plans.append(j)
        kids.setdefault(c.rel, []).append(k)
    if len(plans) > 1 and t.children[0].rel != "Member" and bool(ctx.bool("children are reported in reverse order")):
        plans.reverse()
    if plans:
        d["Plans"] = plans
    want.children = kids.get("Outer", []) + kids.get("Inner", []) + kids.get("Member", [])
    subs = [x for r in ("SubPlan", "InitPlan", "Subquery") for x in kids.get(r, [])]
    want.sub = (subs[0], bool(w or t.planned)) if subs else None
    return d, want


def postgres(names):
    def body(ctx):
        shape = ctx.pick("tree", names)
        info = ctx.pick("information", ("estimates", "analyze", "buffers", "bare"))
        d, want = pg_json(ctx, pg_trees(ctx)[shape](), info, 0)
        doc = {"Plan": d}
        if info in ("analyze", "buffers"):
            doc |= {"Planning Time": 1.5, "Execution Time": 2.5}
        form = ctx.pick("form", ("dict", "list", "raw", "simple")) if shape in ("join", "cte") else "list"
        key = f"{shape}/{info}/{form}"
        if form in ("dict", "list"):
            p = pg.PostgresExplainPlan(doc if form == "dict" else [doc])
            plan = p.as_qep()
            ctx.check(p.is_analyze() == (info in ("analyze", "buffers")) and plan.is_analyze() == p.is_analyze(), "analyzed plans", key=key)
            if info in ("analyze", "buffers"):
                ctx.check(And(eq(p.planning_time, 0.0015), eq(p.execution_time, 0.0025)), "planning and execution times", key=key)
        else:
            plan = pg.PostgresOptimizer(None).parse_plan([([doc],)] if form == "raw" else [doc])
        ctx.reach(shape)
        compare(ctx, plan, want, key)
    return body


def pg_nodes(ctx):
    """Equality, hashing and helpers of explain nodes."""
    COND = ("Filter", "Index Cond", "Join Filter", "Hash Cond", "Recheck Cond")

    def node(tag):
        d = {"Node Type": ctx.pick(f"type {tag}", ("Seq Scan", "Index Scan")), "Relation Name": "r", "Alias": ctx.pick(f"alias {tag}", ("r", "x"))}
        for k in ("Filter", "Index Name"):
            if bool(ctx.bool(f"{k} {tag}")):
                d[k] = "(a = 1)"
        return d
    what = ctx.pick("what", ("equality", "conditions", "children", "invalid"))
    ctx.reach(what)
    if what == "equality":
        a, b = node("a"), node("b")
        wrap = ctx.pick("level", ("node", "child", "plan"))
        if wrap == "child":
            x, y = (pg.PostgresExplainNode({"Node Type": "Sort", "Plans": [dict(d, **{"Parent Relationship": "Outer"})]}) for d in (a, b))
        elif wrap == "node":
            x, y = pg.PostgresExplainNode(a), pg.PostgresExplainNode(b)
        else:
            x, y = pg.PostgresExplainPlan({"Plan": a}), pg.PostgresExplainPlan([{"Plan": b}])
        key = f"{wrap}/{a}/{b}"
        ctx.check(x != y or hash(x) == hash(y), "equal nodes have equal hashes", key=key)
        ctx.check(a != b or x == y, "identical nodes are equal", key=key)
        ctx.check(x != y or (a["Node Type"], a["Alias"]) == (b["Node Type"], b["Alias"]), "nodes with different types or relations are different", key=key)
    elif what == "conditions":
        conds = {k: f"({k.lower().replace(' ', '_')} = 1)" for k in COND if bool(ctx.bool(k))}
        x = pg.PostgresExplainNode({"Node Type": "Index Scan", "Relation Name": "r", **conds})
        ctx.check(x.filter_conditions() == conds, "filter conditions", key=str(conds))
        ctx.check(x.is_scan() and not x.is_join(), "kinds of nodes")
    elif what == "children":
        kind = ctx.pick("children", ("none", "one", "different", "equal"))
        o, i = ({"Node Type": "Result", "Parent Relationship": r} for r in ("Outer", "Inner"))
        if kind == "different":
            i |= {"Node Type": "Materialize"}
        kids = {"none": [], "one": [o]}.get(kind, [i, o] if bool(ctx.bool("inner first")) else [o, i])
        x = pg.PostgresExplainNode({"Node Type": "Nested Loop", "Plans": kids})
        got = [c.parent_relationship for c in x.inner_outer_children()]
        ctx.check(got == {"none": [], "one": ["Outer"]}.get(kind, ["Inner", "Outer"]), "inner and outer children", key=f"{kind}/{kids and kids[0]['Parent Relationship']}")
        ctx.check(x.is_join() and not x.is_scan(), "kinds of nodes")
    else:
        bad = ctx.pick("document", ({}, {"Node Type": "Seq Scan"}, [{"Node Type": "Seq Scan"}], {"Plan": {"Node Type": "Sort", "Plans": [{"Node Type": "Result", "Parent Relationship": "Unknown"}]}}))
        try:
            pg.PostgresExplainPlan(bad)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "invalid documents are rejected", key=str(bad))


# ---------------------------------------------------------------- DuckDB
DQ = {"different": "SELECT * FROM r, s WHERE r.a = s.a AND r.b = 3", "aliases": "SELECT * FROM r AS x, s AS y WHERE x.a = y.a", "self": "SELECT * FROM r AS x, r AS y WHERE x.a = y.b AND x.b = 3 AND x.c = 'abcdef' AND y.d < 1000"}


def duck_scan(ctx, tag, table, kind="Sequential Scan", filters=None, mode="json"):
    d = {"name": ctx.pick("label", ("SEQ_SCAN", "SEQ_SCAN ")) if tag == "l" else "SEQ_SCAN ", "children": [], "extra_info": {"Table": table, "Type": kind, "Projections": ["a", "b"]}}
    if filters:
        d["extra_info"]["Filters"] = filters
    return d


def duckdb(ctx):
    mode = ctx.pick("format", ("dict", "json", "json list"))
    symbolic = mode == "dict"
    analyzed = bool(ctx.bool("analyzed"))
    shape = ctx.pick("shape", ("scan", "join", "nested", "unknown join", "group", "wrapped"))
    q = ctx.pick("query", ("different", "aliases", "self", "none"))
    query = None if q == "none" else parse_query(DQ[q], accept_set_query=False)
    if query is not None and analyzed:
        query = transform.as_explain_analyze(query)
    kind = ctx.pick("scan", ("Sequential Scan", "Index Scan")) if shape in ("scan", "join") else "Sequential Scan"
    filters = {"self": ctx.pick("filters", (["b=3", "c='abcdef'"], "b=3", "d<1000", None)) if q == "self" else None}.get(q, ctx.pick("filters", ("b=3", ["b=3", "c=1"], None)) if q == "different" else None)
    left = duck_scan(ctx, "l", "r", kind, filters)
    right = duck_scan(ctx, "r", "r" if q == "self" else "s", filters="d<1000" if q == "self" else None)
    SCANS = {"Sequential Scan": SO.SequentialScan, "Index Scan": SO.IndexScan}
    TABS = {"different": (("r", ""), ("s", "")), "aliases": (("r", "x"), ("s", "y")), "self": (None, None), "none": (None, None)}[q]
    wl, wr = Want("SEQ_SCAN", SCANS[kind], TABS[0]), Want("SEQ_SCAN", SO.SequentialScan, TABS[1])
    mk = lambda name, *kids: {"name": name, "children": list(kids), "extra_info": {}}
    join = (mk("HASH_JOIN", left, right), Want("HASH_JOIN", JO.HashJoin, children=[wl, wr]))
    tree, want = {"scan": lambda: (left, wl), "join": lambda: join, "nested": lambda: (mk("PROJECTION", mk("FILTER", join[0])), Want("PROJECTION", children=[Want("FILTER", children=[join[1]])])),
                  "unknown join": lambda: (mk("UNGROUPED_AGGREGATE", mk("PIECEWISE_MERGE_JOIN", left, right)), Want("UNGROUPED_AGGREGATE", children=[Want("PIECEWISE_MERGE_JOIN", children=[wl, wr])])),
                  "group": lambda: (mk("PERFECT_HASH_GROUP_BY", left), Want("PERFECT_HASH_GROUP_BY", children=[wl])),
                  "wrapped": lambda: join}[shape]()

    def fill(d, w, path="0"):
        time = 0
        for i, (a, b) in enumerate(zip(d["children"], w.children)):
            time = time + fill(a, b, path + str(i))
        if shape == "nested" and path == "0" or not bool(ctx.bool("has estimate")) and path == "00":
            pass
        else:
            w.est = ctx.int(f"rows {path}", 0, 10**6) if symbolic else 17 + len(path)
            d["extra_info"]["Estimated Cardinality"] = w.est if symbolic else str(w.est)
        if analyzed:
            w.act = ctx.int(f"actual {path}", 0, 10**6) if symbolic else 5 * len(path)
            own = ctx.real(f"time {path}", 0, 1000) if symbolic else 0.25 * len(path)
            d["operator_cardinality"], d["operator_timing"] = w.act, own
            d["operator_name"] = d.pop("name")
            w.time = own + time
        return w.time
    fill(tree, want)
    doc = tree
    if analyzed:
        doc = {"latency": 0.1, "children": [{"operator_name": "EXPLAIN_ANALYZE", "operator_timing": 0.5, "operator_cardinality": 0, "extra_info": {}, "children": [tree]}]}
    elif shape == "wrapped":
        doc = {"name": "EXPLAIN", "extra_info": {}, "children": [tree]}
    form = ctx.pick("entry", ("parse", "raw", "simple")) if mode != "dict" else "parse"
    doc = {"dict": lambda: doc, "json": lambda: json.dumps(doc), "json list": lambda: json.dumps([doc])}[mode]()
    o = duck.DuckDBOptimizer(None)
    plan = o.parse_plan({"parse": doc, "raw": [("physical_plan", doc)], "simple": ("physical_plan", doc)}[form], query=query)
    key = f"{mode}/{shape}/{q}/{kind}/{filters}/{analyzed}/{form}"
    ctx.reach(shape)
    if q == "self":
        scans = [x for x in plan if x.operator in SCANS.values()]
        for x, f in zip(scans, (filters, "d<1000")):
            ctx.check(x.base_table is None or tab(x.base_table) in (("r", "x"), ("r", "y")), "scans are bound to tables of the query", key=key)
            if isinstance(f, list):
                ctx.check(tab(x.base_table) == ("r", "x"), "scans are bound to the table with the same filters", key=key)
            elif f == "d<1000":
                ctx.check(tab(x.base_table) in (None, ("r", "y")), "scans are bound to the table with the same filters", key=key)
        for x, w in zip(scans, (wl, wr)):
            w.table = tab(x.base_table)
    compare(ctx, plan, want, key)


# ---------------------------------------------------------------- MySQL
ACCESS = {"const": ("Const", None), "eq_ref": ("Index Lookup", SO.IndexScan), "range": ("Index Lookup", SO.IndexScan), "index_merge": ("Index Merge", SO.BitmapScan), "ALL": ("Table Scan", SO.SequentialScan)}
BUFFER = {None: ("Nested Loop", JO.NestedLoopJoin), "Block Nested Loop": ("Block Nested Loop", JO.NestedLoopJoin), "hash join": ("Hash Join", JO.HashJoin), "Batched Key Access (unique)": ("Batched Key Access", JO.NestedLoopJoin)}
MQ = {"plain": ("r, s, t", ("r", "s", "t")), "aliases": ("r AS x, s AS y, t AS z", ("x", "y", "z")), "self": ("r, r AS x, s AS y", ("r", "x", "y")), "shadow": ("s AS r, r AS s, t", ("r", "s", "t")), "none": (None, ("r", "s", "t"))}


def mysql(ctx):
    q = ctx.pick("query", tuple(MQ))
    tables, names = MQ[q]
    query = parse_query(f"SELECT * FROM {tables}", accept_set_query=False) if tables else None
    lookup = {t.identifier(): tab(t) for t in query.tables()} if query else {}
    k = ctx.pick("tables", (1, 2, 3))
    order = ctx.pick("order", ((0, 1, 2), (2, 0, 1)))
    focus = ctx.pick("focus", ("wrapper", "missing", "access", "buffer"))
    symbolic = bool(ctx.bool("symbolic numbers"))
    wrap = ctx.pick("wrapper", (None, "grouping_operation", "ordering_operation", "nested wrappers")) if focus == "wrapper" else None
    missing = ctx.pick("missing", (None, "cost_info", "filtered", "prefix_cost", "rows_examined_per_scan")) if focus == "missing" else None
    docs, want = [], None
    for i in range(k):
        name = names[order[i]]
        acc = ctx.pick("access", tuple(ACCESS)) if i == k - 1 and focus == "access" else "ALL"
        buf = ctx.pick("join buffer", tuple(BUFFER)) if i == k - 1 and k > 1 and focus == "buffer" else None
        v = {x: (ctx.int(f"{x} {i}", 1, 1000) if symbolic else 1 + i) for x in ("read_cost", "eval_cost", "prefix_cost", "rows_examined_per_scan", "rows_produced_per_join")}
        filtered = ctx.pick("filtered", (100, 12.5)) if i == k - 1 and focus == "missing" else 25
        out = lambda x: x if symbolic else f"{x:.2f}"
        d = {"table_name": name, "access_type": acc, "rows_examined_per_scan": v["rows_examined_per_scan"], "rows_produced_per_join": v["rows_produced_per_join"], "filtered": f"{filtered:.2f}",
             "cost_info": {"read_cost": out(v["read_cost"]), "eval_cost": out(v["eval_cost"]), "prefix_cost": out(v["prefix_cost"]), "data_read_per_join": "1K"}, "used_columns": ["a"]}
        if buf:
            d["using_join_buffer"] = buf
        gone = missing if i == k - 1 else None
        if gone == "prefix_cost":
            del d["cost_info"]["prefix_cost"]
        elif gone:
            del d[gone]
        scan_ = Want(ACCESS[acc][0], ACCESS[acc][1], lookup.get(name), cost=NAN if gone == "cost_info" else v["read_cost"] + v["eval_cost"], est=NAN if gone in ("filtered", "rows_examined_per_scan") else v["rows_examined_per_scan"] * filtered / 100)
        docs.append({"table": d})
        join_cost = NAN if gone in ("cost_info", "prefix_cost") else v["prefix_cost"]
        if want is None:
            want = scan_
        else:
            want = Want(*BUFFER[buf], children=[want, scan_], cost=join_cost, est=v["rows_produced_per_join"])
    block = docs[0] if k == 1 else {"nested_loop": docs}
    for w in {None: (), "nested wrappers": ("grouping_operation", "ordering_operation")}.get(wrap, (wrap,)):
        block = {w: {"using_filesort": True} | block}
        want = Want(w.replace("_", " ").title(), children=[want])
    doc = {"query_block": {"select_id": 1, "cost_info": {"query_cost": "12.50"}} | block}
    key = f"{q}/{k}/{order}/{wrap}/{missing}/{symbolic}"
    ctx.reach(str(wrap))
    # Cardinalities are integers
    entry = ctx.pick("entry", ("function", "optimizer")) if focus == "access" else "function"
    if entry == "function":
        p = my.parse_mysql_explain_plan(query, doc)
        ctx.check(p.total_cost == 12.5, "total costs", key=key)
        plan = p.as_qep()
    else:
        plan = my.MysqlOptimizer(None).parse_plan(doc, query=query)
    round_cards(plan, want)
    compare(ctx, plan, want, key)


def round_cards(plan, want):
    """Cardinalities are rounded to integers."""
    if not is_nan(want.est):
        want.est = num(Cardinality(want.est))
    for a, b in zip(plan.children, want.children):
        round_cards(a, b)


def harnesses(tier):
    t = tier == "thorough"
    F = ["PostgresExplainPlan", "PostgresExplainNode", "PostgresOptimizer", "parse_duckdb_plan", "_bind_node_to_table", "DuckDBOptimizer", "parse_mysql_explain_plan", "_node_sequence_to_qep", "MysqlExplainNode", "MysqlOptimizer", "QueryPlan.__init__"]
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    names = tuple(pg_trees(None))
    return [H("postgres", postgres(names), "17 shapes of plans with up to 6 nodes; all costs, cardinalities, times and blocks; 0, 1 or 3 workers", names),
            H("pg nodes", pg_nodes, "all combinations of 2 types, 2 aliases and 2 conditions; 5 kinds of conditions", ("equality", "conditions", "children", "invalid")),
            H("duckdb", duckdb, "6 shapes of plans x 4 queries x 3 formats", ("scan", "join", "nested", "unknown join", "group", "wrapped")),
            H("mysql", mysql, "up to 3 tables x 5 queries x 5 access types x 4 join types", ("None", "grouping_operation"))]
