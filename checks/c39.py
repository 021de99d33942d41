"""C39: analysis of join trees and query plans."""
import itertools
import math
import types
import warnings

from vx import minisql
from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Or, Shadow

import postbound._core as core
import postbound._qep as qep
import postbound.opt._analysis as an
from postbound import ColumnReference, IntermediateOperator, JoinOperator, ScanOperator, TableReference, parse_query, util
from postbound._core import Cardinality
from postbound._hints import JoinTree
from postbound._qep import QueryPlan
from postbound.db import simplify_result_set
from postbound.opt import (PlanChangeEntry, PlanChangeset, actual_plan_cost, compare_query_plans, join_depth, jointree_similarity_bottomup, linearized_levenshtein_distance,
                           possible_plans_bound, star_query_cardinality)

LEVEL = "model_checking"
ASSUMPTIONS = ["cardinalities and costs are arbitrary non-negative integers or unknown", "the database of star queries executes its queries correctly"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, an: NS})
warnings.simplefilter("ignore")
DEEP = False
T = {x: TableReference(x) for x in "abcdef"}


# ------------------------------------------------------------------ trees
def shape(ctx, tag, pool):
    """an arbitrary binary tree over all tables of the pool (as nested tuples)"""
    pool = list(pool)
    if len(pool) == 1:
        return pool[0]
    left = []
    n = 1 + ctx.choose(f"{tag} size {''.join(pool)}", len(pool) - 1)
    rest = list(pool)
    for i in range(n):
        left.append(rest.pop(ctx.choose(f"{tag} left {''.join(pool)} {i} {''.join(left)}", len(rest)) if not left else _after(ctx, tag, rest, left, i, n, pool)))
    return (shape(ctx, tag, left), shape(ctx, tag, rest))


def _after(ctx, tag, rest, left, i, n, pool):
    """sets are drawn in ascending order"""
    cand = [j for j, x in enumerate(rest) if x > left[-1]]
    if not cand:
        from vx.engine import PathAbort
        raise PathAbort()
    return cand[ctx.choose(f"{tag} left {''.join(pool)} {i} {''.join(left)}", len(cand))]


def leaves(t):
    return [t] if isinstance(t, str) else leaves(t[0]) + leaves(t[1])


def tree(t):
    return JoinTree.scan(T[t]) if isinstance(t, str) else JoinTree.join(tree(t[0]), tree(t[1]))


def joins(t):
    return [] if isinstance(t, str) else [frozenset(leaves(t))] + joins(t[0]) + joins(t[1])


def depths(t):
    """documented depths for trees in which each join has a base table, None for other trees"""
    if isinstance(t, str):
        return {t: 1}
    l, r = t
    if isinstance(l, str) and isinstance(r, str):
        return {l: 1, r: 1}
    if isinstance(l, str):
        l, r = r, l
    if not isinstance(r, str):
        return None
    d = depths(l)
    return None if d is None else d | {r: max(d.values()) + 1}


def bushy_depths(t, level):
    """both interpretations of the depth of joins between intermediates"""
    if isinstance(t, str):
        return {t: 1}, 1
    if isinstance(t[0], str) and isinstance(t[1], str):
        return {t[0]: 1, t[1]: 1}, 1
    if not isinstance(t[0], str) and not isinstance(t[1], str):
        (a, i), (b, j) = bushy_depths(t[0], level), bushy_depths(t[1], level)
        return a | b, max(i, j) + level
    big, small = (t[1], t[0]) if isinstance(t[0], str) else t
    d, i = bushy_depths(big, level)
    return d | {small: i + 1}, i + 1


def edit_distance(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b):
            cur.append(min(prev[j + 1] + 1, cur[j] + 1, prev[j] + (x != y)))
        prev = cur
    return prev[-1]


def trees(ctx):
    n = 1 + ctx.choose("tables", 6 if DEEP else 5)
    a = shape(ctx, "first", "abcdef"[:n])
    ja = tree(a)
    got = {t.identifier(): d for t, d in join_depth(ja).items()}
    want = [bushy_depths(a, k)[0] for k in (0, 1)]
    ctx.check(got in want, "the depth of a table is the depth of the intermediate it is joined with, plus 1", got=got, want=want, key="depth")
    if depths(a) is not None:
        ctx.check(got == depths(a), "the depths of linear join trees are the positions of the joins", got=got, want=depths(a), key="depth")
        ctx.reach("linear")
    else:
        ctx.reach("bushy")
    ctx.check(join_depth(JoinTree.empty()) == {}, "empty join trees have no depths", key="empty")
    ctx.check(jointree_similarity_bottomup(ja, tree(a)) == 1 and linearized_levenshtein_distance(ja, tree(a)) == 0, "equal trees are most similar", key="same")


def pairs(ctx):
    n = 1 + ctx.choose("tables", 4)
    other = ctx.pick("other tables", (0, 1)) if n < 4 else 0
    a = shape(ctx, "first", "abcd"[:n])
    m = n if n == 4 and not DEEP else 1 + ctx.choose("tables of the second", n)
    if n == 4 and not DEEP:
        b = ctx.pick("second", ((("a", "b"), ("c", "d")), ((("b", "d"), "a"), "c"), ("c", ("a", ("d", "b")))))
    else:
        b = shape(ctx, "second", "abcde"[other:other + m])
    ja, jb = tree(a), tree(b)
    sa, sb = set(joins(a)), set(joins(b))
    want = len(sa & sb) / len(sa | sb) if sa | sb else float(a == b)
    got = jointree_similarity_bottomup(ja, jb)
    ctx.check(abs(got - want) < 1e-9, "the similarity of join trees is the share of common intermediates", got=got, want=want, key="bottomup")
    ctx.check(abs(jointree_similarity_bottomup(jb, ja) - got) < 1e-9 and 0 <= got <= 1, "the similarity is symmetric", key="bottomup")
    dist = linearized_levenshtein_distance(ja, jb)
    ctx.check(dist == edit_distance(leaves(a), leaves(b)), "the distance is the edit distance of the join sequences", got=dist, want=edit_distance(leaves(a), leaves(b)), key="levenshtein")
    ctx.reach("done")


def bound(ctx):
    """compared with the number of plans, which is computed recursively over subsets of tables"""
    n = ctx.choose("tables", 7)
    j, s = ctx.choose("join operators", 5), ctx.choose("scan operators", 4)
    q = parse_query("SELECT 1" if not n else "SELECT * FROM " + ", ".join("abcdefg"[:n]))
    got = possible_plans_bound(q, join_operators={f"j{i}" for i in range(j)}, scan_operators={f"s{i}" for i in range(s)})
    plans = {1: s}
    for k in range(2, n + 1):
        plans[k] = sum(math.comb(k, i) * plans[i] * plans[k - i] for i in range(1, k)) * j
    want = plans[n] if n else 1
    ctx.check(got >= want and (n == 0 or isinstance(got, int)), "the bound is an upper bound of the number of plans", got=got, want=want, key="bound")
    if n and j == 3 and s == 2:
        ctx.check(possible_plans_bound(q) >= want, "the default operators are used", key="default")
    k = ctx.pick("catalan", (1, 2, 3, 4, 5, 6, 7, 12, 20, 31, 33, 47, 60, 100))
    lower, upper = util.stats.catalan_number(k), util.stats.catalan_number(k + 1)
    ctx.check(util.stats.catalan_number(0) == 1 and util.stats.catalan_number(1) == 1, "the first catalan numbers are 1", key="catalan")
    ctx.check((k + 2) * upper == 2 * (2 * k + 1) * lower, "catalan numbers are exact", k=k, got=upper, key="catalan")
    ctx.reach("done")


# ------------------------------------------------------------------ query plans
def plan(ctx, tag, t, numbers, ops):
    """numbers: (node, kind) -> value or None, ops: node -> operator"""
    key = frozenset(leaves(t))
    val = lambda kind: numbers[key, kind]
    card = lambda kind: Cardinality.unknown() if val(kind) is None else Cardinality(val(kind))
    cost = math.nan if val("cost") is None else val("cost")
    if isinstance(t, str):
        return QueryPlan(ops[key], base_table=T[t], estimated_cardinality=card("est"), actual_cardinality=card("act"), estimated_cost=cost)
    return QueryPlan(ops[key], children=[plan(ctx, tag, t[0], numbers, ops), plan(ctx, tag, t[1], numbers, ops)], estimated_cardinality=card("est"), actual_cardinality=card("act"), estimated_cost=cost)


def nodes(t):
    return [t] if isinstance(t, str) else [t] + nodes(t[0]) + nodes(t[1])


def differ(a, b):
    if a is None or b is None:
        return (a is None) != (b is None)
    return bool(a != b)


NODE_TYPES = {op: QueryPlan(op, base_table=T["a"]).node_type for op in ScanOperator} | {op: QueryPlan(op, children=[QueryPlan(ScanOperator.SequentialScan, base_table=T[x]) for x in "ab"]).node_type for op in JoinOperator}


def expected(a, b, na, nb, oa, ob):
    ta, tb = frozenset(leaves(a)), frozenset(leaves(b))
    if ta != tb:
        return [("tree-structure", None, ta, tb)]
    out = []
    for kind, name in (("est", "card-est"), ("act", "actual-card"), ("cost", "cost-est")):
        if differ(na[ta, kind], nb[ta, kind]):
            out.append((name, ta, na[ta, kind], nb[ta, kind]))
    if oa[ta] != ob[ta]:
        out.append(("physical-op", ta, oa[ta], ob[ta]))
    if isinstance(a, str):
        return out
    if set(leaves(a[0])) == set(leaves(b[1])):
        out.append(("join-direction", None, ta, tb))
        sub = ((a[0], b[1]), (a[1], b[0]))
    else:
        sub = ((a[0], b[0]), (a[1], b[1]))
    for x, y in sub:
        out += expected(x, y, na, nb, oa, ob)
    return out


def state_equal(kind, got, want):
    if kind in ("card-est", "actual-card", "cost-est"):
        card = isinstance(got, Cardinality)
        if got.isnan() if card else bool(got != got):
            return want is None
        return want is not None and (got.value if card else got) == want
    if kind == "join-direction":
        return frozenset(t.identifier() for t in got.tables()) == want
    if kind == "tree-structure":
        return frozenset(t.identifier() for t in got) == want
    return got == want or got == NODE_TYPES[want]


def compare(ctx):
    n = 1 + ctx.choose("tables", 4 if DEEP else 3)
    a = shape(ctx, "first", "abcd"[:n])
    b = shape(ctx, "second", "abcd"[:n]) if n > 1 or not bool(ctx.bool("other table")) else "d"
    na, nb, oa, ob = {}, {}, {}, {}
    special = ctx.choose("difference at node", n * 2 - 1)
    what = ctx.pick("difference", ("est", "act", "cost", "op", "none"))
    for numbers, ops, t, side in ((na, oa, a, "left"), (nb, ob, b, "right")):
        for i, x in enumerate(nodes(t)):
            key = frozenset(leaves(x))
            for j, kind in enumerate(("est", "act", "cost")):
                numbers[key, kind] = 10 * len(key) + j
                if i == special and kind == what:
                    numbers[key, kind] = None if bool(ctx.bool(f"{side} unknown")) else ctx.int(f"{side} value", 0)
            ops[key] = ScanOperator.SequentialScan if isinstance(x, str) else JoinOperator.HashJoin
            if i == special and what == "op":
                ops[key] = ctx.pick(f"{side} operator", (ScanOperator.SequentialScan, ScanOperator.IndexScan) if isinstance(x, str) else (JoinOperator.HashJoin, JoinOperator.NestedLoopJoin))
    pa, pb = plan(ctx, "left", a, na, oa), plan(ctx, "right", b, nb, ob)
    got = compare_query_plans(pa, pb)
    want = expected(a, b, na, nb, oa, ob)
    key = what
    ctx.check(isinstance(got, PlanChangeset), "comparisons provide a set of changes", key=key)
    rest = list(got.changes)
    ctx.check(len(rest) == len(want), "plans differ exactly in the differences", got=[(c.change_type, str(c.context)) for c in rest][:6], want=[(w[0], str(w[1])) for w in want][:6], key=key)
    for kind, context, l, r in want:
        fits = [c for c in rest if c.change_type == kind and (context is None or frozenset(t.identifier() for t in c.context) == context) and bool(state_equal(kind, c.left_state, l)) and bool(state_equal(kind, c.right_state, r))]
        ctx.check(len(fits) >= 1, "each difference is reported with both states", kind=kind, at=str(context), key=key)
        rest.pop(next(i for i, c in enumerate(rest) if c is fits[0]))
        text = fits[0].inspect()
        ctx.check(isinstance(text, str) and "left=" in text, "differences can be displayed", key=kind)
        ctx.reach(kind)
    ctx.check(len(got.inspect().splitlines()) == len(want), "all differences are displayed", key=key)
    if not want:
        ctx.reach("equal")


def auxiliary(ctx):
    """plans with other operators are rejected, independent of their position"""
    a = shape(ctx, "plan", "ab")
    num = {(frozenset(leaves(x)), k): 1 for x in nodes(a) for k in ("est", "act", "cost")}
    ops = {frozenset(leaves(x)): ScanOperator.SequentialScan if isinstance(x, str) else JoinOperator.HashJoin for x in nodes(a)}
    p = plan(ctx, "p", a, num, ops)
    where = ctx.choose("sort at", 3)
    if where == 0:
        aux = QueryPlan(IntermediateOperator.Sort, children=[p])
    else:
        kids = list(p.children)
        kids[where - 1] = QueryPlan(IntermediateOperator.Sort, children=[kids[where - 1]])
        aux = QueryPlan(JoinOperator.HashJoin, children=kids)
    x, y = (aux, p) if bool(ctx.bool("left")) else (p, aux)
    try:
        compare_query_plans(x, y)
        ctx.check(False, "plans with other operators are rejected", key=str(where))
    except ValueError:
        ctx.check(True, "plans with other operators are rejected", key=str(where))
    ctx.reach("done")


def actual_cost(ctx):
    """the cost of a plan with its actual cardinalities"""
    a = ctx.pick("plan", ("a", ("a", "b"), (("a", "b"), "c")))
    num = {}
    for i, x in enumerate(nodes(a)):
        key = frozenset(leaves(x))
        num[key, "est"], num[key, "cost"] = ctx.int(f"est {i}", 0), 5
        num[key, "act"] = ctx.int(f"act {i}", 0)
    ops = {frozenset(leaves(x)): ScanOperator.SequentialScan if isinstance(x, str) else JoinOperator.HashJoin for x in nodes(a)}
    if bool(ctx.bool("without measurements")):
        for k in num:
            if k[1] == "act":
                num[k] = None
    measured = num[frozenset(leaves(a)), "act"] is not None
    p = plan(ctx, "p", a, num, ops)
    query = parse_query("SELECT * FROM " + ", ".join(leaves(a)))
    cost = ctx.int("cost", 0)
    seen = []
    db = types.SimpleNamespace(hinting=lambda: types.SimpleNamespace(generate_hints=lambda q, plan: seen.append((q, plan)) or "hinted"),
                               optimizer=lambda: types.SimpleNamespace(cost_estimate=lambda q: cost if q == "hinted" else None))
    pool = bool(ctx.bool("database from the pool"))
    saved = an.DatabasePool
    current = types.SimpleNamespace(current_database=lambda: db)

    class Pool:
        def __new__(cls):
            return current

        @staticmethod
        def get_instance():
            return current
    if pool:
        an.DatabasePool = Pool
    try:
        got = actual_plan_cost(query, p) if pool else actual_plan_cost(query, p, database=db)
    except ValueError:
        ctx.check(not measured, "plans with measurements have actual costs", key="analyze")
        ctx.reach("reject")
        return
    finally:
        an.DatabasePool = saved
    ctx.check(measured, "plans without measurements are rejected", key="analyze")
    ctx.check(got is cost and len(seen) == 1 and seen[0][0] == query, "the cost is estimated for the hinted query", key="cost")
    for node in [seen[0][1]] + list(seen[0][1].find_all_nodes(lambda n: True)):
        key = frozenset(t.identifier() for t in node.tables())
        ctx.check(node.estimated_cardinality.value == num[key, "act"], "actual cardinalities are used as estimates", key="cost")
    ctx.reach("done")


def diffs(ctx):
    l = ctx.pick("left", ("", "x", "x\ny", "long line\ny\n\nz", "a\n"))
    r = ctx.pick("right", ("", "1", "1\n2", "1\n22222222\n3\n4\n5"))
    opts = ctx.pick("separator", ({}, {"sep": "#"}))
    sep = opts.get("sep", " | ")
    lines = an.text_diff(l, r, **opts).splitlines()
    a, b = l.splitlines(), r.splitlines()
    n = max(len(a), len(b))
    ctx.check(len(lines) == n, "all lines are part of the diff", got=lines, key="lines")
    w = max((len(x) for x in a), default=0)
    for i in range(n):
        x, y = a[i] if i < len(a) else "", b[i] if i < len(b) else ""
        ctx.check(lines[i].rstrip() == (x.ljust(w) + sep + y).rstrip(), "the lines of both texts are next to each other", got=lines[i], key="lines")
    ctx.reach("done")


# ------------------------------------------------------------------ star queries
def star(ctx):
    ndim = 1 + ctx.choose("dimensions", 2)
    nf = ctx.choose("facts", 3)
    nrows = [1 + (i == 0) for i in range(ndim)]
    ids = list(range(1, nf + 1))
    facts = [(i, ctx.int(f"fact {i}", 0, 3)) for i in ids]
    dims = [[(ctx.int(f"dimension {d} key {i}", 1, 3), ctx.int(f"dimension {d} value {i}", 0, 3)) for i in range(n)] for d, n in enumerate(nrows)]
    M = minisql.Table
    eng = minisql.Engine({"f": M(("id", "v"), facts), **{"de"[d]: M(("fid", "x"), rows) for d, rows in enumerate(dims)}})
    filt = ctx.pick("filter", ("none", "fact", "dimension", "both"))
    alias = bool(ctx.bool("aliases")) if filt == "both" or DEEP else False
    fn, dn = ("ff", ["dd", "ee"][:ndim]) if alias else ("f", ["d", "e"][:ndim])
    conds = [f"{fn}.id = {x}.fid" if i == 0 else f"{x}.fid = {fn}.id" for i, x in enumerate(dn)]
    k = 2
    if filt in ("fact", "both"):
        conds.append(f"{fn}.v < {k}")
    if filt in ("dimension", "both"):
        conds.append(f"{dn[0]}.x = {k}")
    froms = ", ".join(f"{x} AS {y}" if x != y else x for x, y in zip(["f", "d", "e"], [fn] + dn))
    query = parse_query(f"SELECT * FROM {froms} WHERE " + " AND ".join(conds), bind_columns=False)

    def execute_query(q, *, raw=False, **kw):
        rows = list(eng.run(str(q).rstrip(";")))
        rows = [tuple(r) for r in (rows if not hasattr(rows, "rows") else rows.rows)]
        return rows if raw else simplify_result_set(rows)

    db = types.SimpleNamespace(execute_query=execute_query, schema=lambda: types.SimpleNamespace(lookup_column=lambda c, ts: next(t for t in ts if t.full_name == "f")))
    fact = TableReference("f", fn if alias else "")
    bound_col = bool(ctx.bool("bound column"))
    got = star_query_cardinality(query, ColumnReference("id", fact if bound_col else None), database=db)
    want = 0
    for i, v in facts:
        if filt in ("fact", "both") and not bool(v < k):
            continue
        prod = 1
        for d, rows in enumerate(dims):
            prod *= sum(1 for key, x in rows if bool(key == i) and (d or filt not in ("dimension", "both") or bool(x == k)))
        want += prod
    ctx.check(got == want, "the cardinality of a star query is the sum over all facts", got=got, want=want, key=filt)
    ctx.reach(filt)


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    O = "postbound.opt."
    return [
        Harness("trees", trees, shadow=SH, functions=[O + x for x in ("join_depth", "jointree_similarity_bottomup", "linearized_levenshtein_distance")], bounds={"tables": 6 if DEEP else 5, "trees": "all"}, must_reach=["linear", "bushy"]),
        Harness("pairs", pairs, shadow=SH, functions=[O + x for x in ("jointree_similarity_bottomup", "linearized_levenshtein_distance")], bounds={"tables": 4, "trees": "all pairs of 3 tables"}, must_reach=["done"]),
        Harness("bound", bound, shadow=SH, functions=[O + "possible_plans_bound", "postbound.util.stats.catalan_number"], bounds={"tables": 6, "join operators": 4, "scan operators": 3}, must_reach=["done"]),
        Harness("compare", compare, shadow=SH, functions=[O + x for x in ("compare_query_plans", "PlanChangeEntry.inspect", "PlanChangeset.inspect")], bounds={"tables": 4 if DEEP else 3, "plans": "all pairs", "cardinalities and costs": "all non-negative integers or unknown"},
                must_reach=["tree-structure", "join-direction", "card-est", "actual-card", "cost-est", "physical-op", "equal"]),
        Harness("auxiliary", auxiliary, shadow=SH, functions=[O + "compare_query_plans"], bounds={"tables": 2}, must_reach=["done"]),
        Harness("actual_cost", actual_cost, shadow=SH, functions=[O + "actual_plan_cost"], bounds={"tables": 3, "cardinalities": "all non-negative integers"}, must_reach=["done", "reject"]),
        Harness("diffs", diffs, shadow=SH, functions=[O + "_analysis.text_diff"], bounds={"texts": 5}, must_reach=["done"]),
        Harness("star", star, shadow=SH, functions=[O + "star_query_cardinality"], bounds={"facts": 2, "dimensions": 2, "rows per dimension": 2, "values": "all"}, must_reach=["none", "fact", "dimension", "both"]),
    ]
