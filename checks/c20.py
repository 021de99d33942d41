"""C20: query plans survive their JSON representation with all metadata."""
import json
import math
import warnings

from vx import jsonx
from vx.engine import Harness
from vx.planref import eqn, nan
from vx.sym import NUM_SHADOW, And, Shadow

import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
import postbound.opt._helpers as helpers
import postbound.parser as parser
from postbound import ColumnReference, TableReference, parse_query
from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
from postbound.opt import read_operator_json, read_query_plan_json
from postbound.qal import ColumnExpression
from postbound.util.jsonize import to_json

LEVEL = "translation_validation"
ASSUMPTIONS = ["all numbers are arbitrary non-negative integers (rationals for costs and times), unknown or infinite", "custom metadata consists of JSON values; custom parameters do not reuse the names of the defined ones"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS, helpers: NS})
F = ["read_query_plan_json", "read_operator_json", "QueryPlan.__json__", "PlanParams.__json__", "PlanEstimates.__json__", "PlanMeasures.__json__", "Subplan.__json__", "SortKey.__json__", "PlanMeasures.__init__", "PlanEstimates.__init__", "load_expression_json", "load_predicate_json", "load_table_json"]
warnings.simplefilter("ignore")

OPS = [*SO, *JO, *IO]
TABLES = [TableReference("r"), TableReference("r", "x"), TableReference("r", "r2", schema="sch"), TableReference("r", schema="sch"), TableReference.create_virtual("v"), TableReference("Mixed Case", "select")]
PRED_SQL = ["r.a = 1", "r.a IS NOT NULL AND r.b < 2.5", "r.a IN (1, 2) OR NOT r.b LIKE 'x%'", "r.a BETWEEN 1 AND s.b", "r.a = s.a AND r.b + 1 <> s.b", "r.a NOT IN (SELECT t.a FROM t WHERE t.b = 0)", "lower(r.c) = 'it''s'",
            "r.a > ALL (SELECT t.a FROM t)", "CAST(r.a AS text) = 'x'", "r.c = '' AND r.d", "r.a = -1", "r.c IS NULL", "EXISTS (SELECT 1 FROM t WHERE t.a = 3)", "CASE WHEN r.a = 1 THEN r.b ELSE r.c END = 7"]
PREDS = [parse_query(f"SELECT * FROM r, s WHERE {p}").where_clause.predicate for p in PRED_SQL]
EXPRS = [ColumnExpression(ColumnReference("a", TableReference("r"))), ColumnExpression(ColumnReference("b", TABLES[2])), parse_query("SELECT lower(r.c) || 'x' FROM r").select_clause.targets[0].expression,
         parse_query("SELECT r.a + 1 FROM r").select_clause.targets[0].expression, parse_query("SELECT CAST(r.a AS int) FROM r").select_clause.targets[0].expression]
SORTS = [[], [SortKey.of(EXPRS[0])], [SortKey.of(EXPRS[0], ascending=False), SortKey.of(EXPRS[2])], [SortKey.for_equivalence_class([EXPRS[0], EXPRS[1]])], [SortKey(EXPRS[:3], ascending=False), SortKey.of(EXPRS[3]), SortKey([EXPRS[4], EXPRS[1]])]]
CUSTOM = [{}, {"note": "x"}, {"flag": False, "n": 0}, {"items": [1, "a", None]}, {"nested": {"k": [True]}, "empty": ""}]


def card(ctx, n):
    k = ctx.choose(n + "kind", 3)
    return ctx.int(n, 0, 10**9) if k == 0 else math.nan if k == 1 else math.inf


def num(ctx, n):
    return math.nan if ctx.choose(n + "nan", 2) else ctx.real(n, 0, 10**9)


def same_num(a, b):
    return type(a) is not str and type(b) is not str and eqn(a, b)


def pre(params):
    return {k: v for k, v in params._params.items()}


def same(p, q):
    """every piece of information that is accessible for p is the same for q"""
    c = [p.node_type == q.node_type, p.operator is q.operator, len(p.children) == len(q.children), type(p.params) is type(q.params), type(q.params.sort_keys) is tuple, isinstance(q.estimated_cardinality, Cardinality), isinstance(q.actual_cardinality, Cardinality),
         p.base_table == q.base_table, p.filter_predicate == q.filter_predicate, p.sort_keys == q.sort_keys, p.params.index == q.params.index, p.lookup_key == q.lookup_key, p.parallel_workers == q.parallel_workers,
         (str(p.base_table), str(p.filter_predicate), str(p.lookup_key)) == (str(q.base_table), str(q.filter_predicate), str(q.lookup_key)), p.base_table is None or p.base_table.virtual == q.base_table.virtual]
    if not all(x is not False for x in c):
        return False
    for a, b, std in ((p.params, q.params, ()), (p.estimates, q.estimates, ("cardinality", "cost")), (p.measures, q.measures, ("cardinality", "execution_time", "cache_hits", "cache_misses"))):
        x, y = a._params, b._params
        if set(x) != set(y):
            return False
        for k in x:
            if k in std:
                c.append(x[k] is y[k] if x[k] is None or y[k] is None else eqn(x[k], y[k]))
            elif k not in ("base_table", "filter_predicate", "sort_keys", "lookup_key", "index", "parallel_workers"):
                c.append(type(x[k]) is type(y[k]) and x[k] == y[k])
    c.append(bool(p.is_analyze()) == bool(q.is_analyze()))
    if (p.subplan is None) != (q.subplan is None):
        return False
    if p.subplan is not None:
        c += [p.subplan.target_name == q.subplan.target_name, same(p.subplan.root, q.subplan.root)]
    return And(True, *c, *(same(a, b) for a, b in zip(p.children, q.children)))


def check(ctx, p, key):
    q = read_query_plan_json(jsonx.roundtrip(ctx, p))
    ctx.check(same(p, q), "the plan survives its JSON representation", key=key)
    r = read_query_plan_json(jsonx.roundtrip(ctx, q))
    ctx.check(same(p, r), "reading is idempotent", key=key)


def params(ctx):
    """one node with arbitrary parameters"""
    op = ctx.pick("op", [*OPS, None])
    what = ctx.pick("what", ["table", "pred", "sort", "index", "lookup", "custom", "all"])
    on = lambda x: what in (x, "all")
    kw = {}
    if on("table"):
        kw["base_table"] = ctx.pick("table", TABLES)
    if on("pred"):
        kw["filter_predicate"] = ctx.pick("pred", PREDS if what != "all" else PREDS[1:6:4])
    if on("sort"):
        kw["sort_keys"] = ctx.pick("sort", SORTS if what != "all" else SORTS[-1:])
    if on("index"):
        kw["index"] = ctx.pick("index", ["idx", "weird \"name\""] if what != "all" else ["idx"])
    if on("lookup"):
        kw["lookup_key"] = ctx.pick("lookup", EXPRS if what != "all" else EXPRS[2:3])
    if on("custom"):
        kw.update(ctx.pick("custom", CUSTOM if what != "all" else CUSTOM[-1:]))
    if ctx.choose("workers", 2):
        kw["parallel_workers"] = ctx.int("w", 0, 128)
    p = QueryPlan(op or "Hash", **kw) if op is None or ctx.choose("std", 2) else QueryPlan("custom name", operator=op, **kw)
    check(ctx, p, f"{op} {what} {sorted(kw)}")
    ctx.reach(what)


def numbers(ctx):
    """arbitrary, partially missing numbers"""
    kw = {}
    if ctx.choose("est", 2):
        kw["estimates"] = PlanEstimates(cardinality=card(ctx, "ec"), cost=num(ctx, "cost"), **ctx.pick("ecustom", CUSTOM[:3]))
        if ctx.choose("act", 2):
            kw.update(actual_cardinality=Cardinality(card(ctx, "ac")), execution_time=num(ctx, "time"))
    else:
        kw["measures"] = PlanMeasures(cardinality=card(ctx, "ac"), execution_time=num(ctx, "time"), cache_hits=None if ctx.choose("nohits", 2) else ctx.int("hits", 0, 10**6), cache_misses=None if ctx.choose("nomiss", 2) else ctx.int("miss", 0, 10**6),
                                      **ctx.pick("mcustom", CUSTOM[:3]))
    check(ctx, QueryPlan(SO.SequentialScan, base_table=TABLES[0], **kw), str(sorted(kw)))


def trees(nmax):
    def body(ctx):
        n = [0]

        def go(leaves, nm, sub):
            n[0] += 1
            i = n[0]
            kw = dict(estimated_cardinality=ctx.int(f"e{i}", 0, 1000), estimated_cost=ctx.real(f"c{i}", 0, 1000), parallel_workers=i % 3, tag=i)
            if i % 2:
                kw.update(actual_cardinality=ctx.int(f"m{i}", 0, 1000))
            if sub == i:
                kw.update(subplan_root=go(1, nm + "s", 0))
                if ctx.choose("target", 2):
                    kw.update(subplan_target_name="InitPlan 1")
            if leaves == 1:
                p = QueryPlan(ctx.pick(nm + "leaf", [SO.SequentialScan, SO.IndexScan]) if i < 3 else SO.IndexOnlyScan, base_table=TABLES[i % 4], **kw)
            else:
                k = 1 + ctx.choose(nm, leaves - 1)
                p = QueryPlan(JO.NestedLoopJoin if i % 2 else JO.HashJoin, children=[go(k, nm + "o", sub), go(leaves - k, nm + "i", sub)], filter_predicate=PREDS[4], **kw)
            return QueryPlan("Hash" if i % 2 else IO.Sort, children=p, sort_keys=SORTS[2]) if ctx.choose(nm + "x", 2) else p
        leaves = 1 + ctx.choose("n", nmax)
        p = go(leaves, "p", ctx.choose("sub", 2 * leaves))
        check(ctx, p, str(p))
        ctx.reach("subplan" if p.find_first_node(lambda x: x.subplan is not None) else "plain")
    return body


def partial(ctx):
    """minimal documents and operators"""
    op = ctx.pick("op", OPS)
    ctx.check(read_operator_json(json.loads(to_json(op))) is op and read_operator_json(to_json(op).strip('"')) is op, "operators are read from their names")
    drop = ctx.pick("drop", ["operator", "children", "plan_params", "estimates", "measures", "subplan"])
    full = QueryPlan(op, base_table=TABLES[0] if isinstance(op, SO) else None, estimated_cost=ctx.real("c", 0, 10))
    doc = jsonx.roundtrip(ctx, full)
    empty = doc.pop(drop)
    q = read_query_plan_json(doc)
    ctx.check(q.node_type == full.node_type and (q.operator is None if drop == "operator" else q.operator is op) and q.children == () and q.subplan is None
              and (q.base_table == full.base_table if drop != "plan_params" else q.base_table is None) and (nan(q.estimated_cost) if drop == "estimates" else eqn(q.estimated_cost, full.estimated_cost)), "missing parts are unknown", key=f"{drop} {empty is None}")
    ctx.check(not q.is_analyze(), "missing parts are unknown")
    text = to_json(QueryPlan(op, tag="x", parallel_workers=3))
    ctx.check(same(read_query_plan_json(text), read_query_plan_json(json.loads(text))) and read_query_plan_json(text).params["tag"] == "x", "plans are read from text")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("params", params, "all operators x tables, predicates, sort keys, indexes, lookup keys, custom metadata; symbolic workers", ["table", "pred", "sort", "index", "lookup", "custom", "all"]),
            Hn("numbers", numbers, "all patterns of missing and infinite numbers, otherwise symbolic"),
            Hn("trees", trees(4 if t else 3), f"all plans with up to {4 if t else 3} leaves, auxiliary nodes and a subplan at any node", ["subplan", "plain"]),
            Hn("partial", partial, "all operators x missing part of the document")]
