"""C19: query plans, join trees, operator assignments and plan parameters convert into each other without loss."""
import copy
import math
import warnings

from vx.engine import Harness
from vx.planref import COLS, TABS, N, eqn, matches, nan
from vx.sym import NUM_SHADOW, And, Shadow

import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
import postbound.opt._helpers as helpers
from postbound import TableReference, parse_query
from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._hints import DirectionalJoinOperatorAssignment as DJ, JoinOperatorAssignment as JA, JoinTree, LogicalJoinTree, PhysicalOperatorAssignment as PA, PlanParameterization as PP, ScanOperatorAssignment as SA
from postbound._hints import jointree_from_plan, operators_from_plan, parameters_from_plan
from postbound._qep import QueryPlan
from postbound.opt import explode_query_plan, to_query_plan, update_plan
from postbound.qal import ColumnExpression

LEVEL = "model_checking"
ASSUMPTIONS = ["cardinalities are arbitrary non-negative integers or unknown, workers arbitrary positive integers", "filter predicates of plan nodes refer to the tables below the node; join predicates of queries combine two tables"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS, helpers: NS})
F = ["to_query_plan", "_make_simple_plan", "_make_custom_plan", "update_plan", "explode_query_plan", "jointree_from_plan", "operators_from_plan", "parameters_from_plan", "_intermediate_of"]
warnings.simplefilter("ignore")

QUERY = parse_query("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b < t.b AND r.c = t.c AND r.a = 1 AND r.b IS NULL AND t.a IN (1, 2)")
PREDS = list(QUERY.where_clause.predicate.children)


def names(ts):
    return {t.full_name for t in ts}



def split(p):
    from postbound.qal import CompoundPredicate, CompoundOperator
    return [x for c in p.children for x in split(c)] if isinstance(p, CompoundPredicate) and p.operation == CompoundOperator.And else [p]


def skeleton(ctx, tabs, n="p"):
    """all binary trees over the tables"""
    if len(tabs) == 1:
        return N(SO.SequentialScan, table=tabs[0])
    k = 1 + ctx.choose(n, len(tabs) - 1)
    return N(JO.HashJoin, [skeleton(ctx, tabs[:k], n + "o"), skeleton(ctx, tabs[k:], n + "i")])


def tree_of(r, cls):
    if not r.kids:
        return cls.scan(r.table, annotation=r.ann)
    return cls.join(*(tree_of(k, cls) for k in r.kids), annotation=r.ann)


def predicates(r):
    """the predicates of the query that a node evaluates, for a node over plain tables"""
    own, kids = names(r.tables()), [names(k.tables()) for k in r.kids]
    if r.scan:
        return sorted(str(p) for p in PREDS if names(p.tables()) == own)
    return sorted(str(p) for p in PREDS if len(names(p.tables())) > 1 and names(p.tables()) <= own and not any(names(p.tables()) <= k for k in kids))


def check_preds(ctx, p, r, query, key):
    got = [] if p.filter_predicate is None else sorted(map(str, split(p.filter_predicate)))
    ctx.check(got == (predicates(r) if query and (r.scan or r.join) else []), "every node evaluates the predicates that become applicable", key=key)
    for c, k in zip(p.children, r.kids):
        check_preds(ctx, c, k, query, key)


def strip(p):
    """the plan without predicates"""
    return QueryPlan(p.node_type, operator=p.operator, children=[strip(c) for c in p.children], base_table=p.base_table, parallel_workers=p.parallel_workers, estimates=p.estimates, measures=p.measures)


def wrapped(r, inter):
    """reference of the plan with intermediate operators"""
    x = copy.copy(r)
    x.kids = [wrapped(k, inter) for k in r.kids]
    op = inter.get(frozenset(r.tables()))
    if op is IO.Materialize:
        y = N(op, [x])
        y.est = x.est
        return y
    return x


def build(nmax):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABS[:n])
        custom, logical, query = ctx.choose("custom", 2), ctx.choose("logical", 2), ctx.choose("query", 2)
        ops, params, missing = PA(), PP(), False
        fall = ctx.choose("fallback", 2) if custom else 1
        inter = {}
        default = {True: SO.IndexScan, False: JO.SortMergeJoin}
        if custom:
            ops.set(SO.BitmapScan, False)
        base, special, swhat = ctx.choose("base", 4), ctx.choose("special", len(r.nodes())), ctx.choose("what", 4)
        for i, x in enumerate(r.nodes()):
            x.ann = Cardinality(ctx.int(f"a{i}", 0, 1000)) if logical else "other"
            x.est = x.ann if logical else math.nan
            x.op = default[x.scan]
            what = swhat if i == special else base  # operator?  parameters?
            tabs = frozenset(x.tables())
            if custom and what in (1, 2):
                x.op = SO.BitmapScan if x.scan else JO.NestedLoopJoin
                w = ctx.int(f"v{i}", 1, 8)  # documented to be ignored
                if x.scan:
                    ops.add(SA(x.op, x.table, w))
                elif what == 1:
                    ops.add(DJ(x.op, inner=x.kids[1].tables(), outer=x.kids[0].tables(), parallel_workers=w))
                else:
                    ops.add(JA(x.op, tabs, parallel_workers=w))
            elif not fall:
                missing = True
            if what in (2, 3):
                x.est = ctx.int(f"c{i}", 0, 1000)
                params.add_cardinality(tabs, x.est)
                if custom:
                    x.workers = ctx.int(f"p{i}", 1, 64)
                    params.set_workers(tabs, x.workers)
            x.name = x.op.name
        if custom and ctx.choose("inter", 2):
            x = r.nodes()[ctx.choose("internode", len(r.nodes()))]
            inter[frozenset(x.tables())] = ctx.pick("interop", [IO.Materialize, IO.Sort])
            ops.set_intermediate_operator(inter[frozenset(x.tables())], x.tables())
        t = tree_of(r, LogicalJoinTree if logical else JoinTree)
        kw = {}
        if query:
            kw["query"] = QUERY
        if custom:
            kw["physical_ops"] = ops
        if not custom or fall:
            kw.update(scan_op=SO.IndexScan, join_op=JO.SortMergeJoin)
        if params.cardinalities or ctx.choose("noparams", 2):
            kw["plan_params"] = params
        key = f"{r.key()} {sorted(kw)}"
        try:
            p = to_query_plan(t, **kw)
        except ValueError:
            ctx.check(missing, "plans are only rejected for missing operators", key=key)
            ctx.reach("missing")
            return
        ctx.check(not missing, "missing operators are reported", key=key)
        exp = wrapped(r, inter)
        ctx.check(matches(strip(p), exp), "the plan has the join order, operators, cardinalities and workers", key=key)
        check_preds(ctx, p, exp, query, key)
        ctx.reach("custom" if custom else "simple")
    return body


def plan(ctx, nmax, aux=1):
    """reference plan with up to aux auxiliary nodes, symbolic estimates and partially unknown measurements"""
    n = 1 + ctx.choose("n", nmax)
    scan, join = [SO.SequentialScan, SO.IndexScan], [JO.HashJoin, JO.NestedLoopJoin]
    flip = ctx.choose("ops", 2)  # operators alternate
    pos, cnt = [], [0, 0]
    for j in range(aux):
        pos.append((ctx.choose(f"aux{j}", 2 * n), ctx.choose(f"kind{j}", 2)))

    def go(tabs, nm):
        cnt[1] += 1
        me, leaf = cnt[1], len(tabs) == 1
        cnt[0] += 1
        op = (scan if leaf else join)[(cnt[0] + flip) % 2]
        if leaf:
            r = N(op, table=tabs[0])
        else:
            k = 1 + ctx.choose(nm, len(tabs) - 1)
            r = N(op, [go(tabs[:k], nm + "o"), go(tabs[k:], nm + "i")])
        for p, kind in pos:
            if p == me:
                r = N(IO.Materialize, [r]) if kind else N(None, [r], name="Hash")
        return r
    r = go(TABS[:n], "p")
    for i, x in enumerate(r.nodes()):
        x.est = ctx.int(f"e{i}", 0, 1000)
        x.act = ctx.int(f"m{i}", 0, 1000)
        x.workers = 0
    special = ctx.choose("special", len(r.nodes()) + 1)
    if special:
        x = r.nodes()[special - 1]
        k = ctx.choose("kind", 3)
        if k == 0:
            x.est = math.nan
        elif k == 1:
            x.act = math.nan
        else:
            x.workers = ctx.int("w", 1, 64)
    return r


def ref_tree(r, attr):
    if r.scan:
        return (r.table, getattr(r, attr))
    if r.join:
        return (*(ref_tree(k, attr) for k in r.kids), getattr(r, attr))
    return ref_tree(r.kids[0], attr)


def tree_is(t, x):
    if type(t) is not LogicalJoinTree or not isinstance(t.cardinality, Cardinality):
        return False
    if len(x) == 2:
        return t.is_scan() and And(t.base_table == x[0], eqn(t.cardinality, x[1]))
    return t.is_join() and And(tree_is(t.outer_child, x[0]), tree_is(t.inner_child, x[1]), eqn(t.cardinality, x[2]))


def deepest(r, value, known):
    """per set of tables: the value of the lowest node that has one"""
    res = {}
    for x in r.nodes():  # top-down
        if known(value(x)):
            res[frozenset(x.tables())] = value(x)
    return res


def check_ops(ctx, ops, r, workers, key):
    exp = {frozenset(x.tables()): x for x in r.nodes() if x.scan or x.join}
    got = {frozenset([k]): v for k, v in ops.scan_operators.items()} | dict(ops.join_operators)
    ctx.check(set(got) == set(exp) and not ops.global_settings, "exactly the scans and joins have operators", key=key)
    for k, x in exp.items():
        a = got[k]
        ctx.check(a.operator is x.op and (a.table == x.table if x.scan else a.join == k), "operators of the nodes", key=key)
        w = a.parallel_workers
        if not workers:
            ctx.check(nan(w), "workers are only included on request", key=key)
        elif nan(w):
            ctx.check(x.workers == 0, "workers are included on request", key=key)
        else:
            ctx.check(w == x.workers, "workers are included on request", key=key)
    ctx.check(ops.intermediate_operators == {frozenset(x.tables()): x.op for x in r.nodes() if isinstance(x.op, IO)}, "intermediate operators", key=key)


def check_params(ctx, params, cards, workers, key):
    ctx.check(set(params.cardinalities) == set(cards) and set(params.parallel_workers) == set(workers), "parameters of exactly the intermediates", key=key)
    for k, v in cards.items():
        ctx.check(eqn(params.cardinalities[k], v), "cardinality is the one of the operator", key=key)
    for k, v in workers.items():
        ctx.check(params.parallel_workers[k] == v, "workers are the ones of the operator", key=key)


KNOWN = lambda v: not nan(v)


def explode(nmax, aux):
    def body(ctx):
        r = plan(ctx, nmax, aux)
        p, key = r.real(), r.key()
        src = ctx.pick("source", ["estimated", "actual"])
        attr = "est" if src == "estimated" else "act"
        workers = deepest(r, lambda x: x.workers, lambda w: not (isinstance(w, int) and type(w) is int and w == 0))
        tree, ops, params = explode_query_plan(p, card_source=src) if ctx.choose("default", 2) or src == "actual" else explode_query_plan(p)
        ctx.check(tree_is(tree, ref_tree(r, attr)), "join tree of the plan", key=key)
        ctx.check(tree_is(jointree_from_plan(p), ref_tree(r, "est")) and tree_is(jointree_from_plan(p, card_source="actual"), ref_tree(r, "act")), "join tree of the plan", key=key)
        check_ops(ctx, ops, r, False, key)
        check_ops(ctx, operators_from_plan(p, include_workers=True), r, True, key)
        cards = deepest(r, lambda x: getattr(x, attr), KNOWN)
        check_params(ctx, params, cards, workers, key)
        both = deepest(r, lambda x: x.est if nan(x.act) else x.act, KNOWN)
        check_params(ctx, parameters_from_plan(p, target_cardinality="actual", fallback_estimated=True), both, workers, key)
        check_params(ctx, parameters_from_plan(p, target_cardinality="estimated", fallback_estimated=True), deepest(r, lambda x: x.est, KNOWN), workers, key)
        tcards = {frozenset(x.tables()): getattr(x, attr) for x in r.nodes() if (x.scan or x.join) and KNOWN(getattr(x, attr))}
        check_params(ctx, parameters_from_plan(tree), tcards, {}, key)
        none = JoinTree.scan(TABS[0]) if not ctx.choose("x", 2) else LogicalJoinTree.scan(TABS[0])
        if isinstance(none, LogicalJoinTree):
            check_params(ctx, parameters_from_plan(none), {}, {}, "tree without cardinality")
        ctx.check(matches(r.real(), r) and matches(p, r), "the plan is not modified", key=key)
        ctx.reach(src)
    return body


def roundtrip(nmax):
    def body(ctx):
        r = plan(ctx, nmax, aux=0)
        p, key = r.real(), r.key()
        tree, ops, params = explode_query_plan(p)
        q = to_query_plan(tree, physical_ops=ops, plan_params=params)
        for x in r.nodes():
            x.act = x.time = math.nan
        ctx.check(matches(q, r), "to_query_plan reverses explode_query_plan", key=key)
        ctx.check(matches(update_plan(q, operators=ops, params=params), r), "updating with its own operators changes nothing", key=key)
    return body


def update(nmax, aux):
    def body(ctx):
        r = plan(ctx, nmax, aux)
        for i, x in enumerate(r.nodes()):
            x.extra = {"tag": i}
        p, key = r.real(), r.key()
        simplify = ctx.choose("simplify", 2)
        what = ctx.pick("what", ["operators", "params", "both"])
        ops, params = PA(), PP()

        def canon(x):
            if simplify and not x.scan and not x.join:
                return canon(x.kids[0])
            y = copy.copy(x)
            y.kids = [canon(k) for k in x.kids]
            return y
        e = canon(r)
        nodes = [x for x in r.nodes() if x.scan or x.join]
        tabs = frozenset(nodes[ctx.choose("node", len(nodes))].tables())
        if what != "params":
            op = SO.BitmapScan if len(tabs) == 1 else JO.SortMergeJoin
            ops.add(SA(op, next(iter(tabs))) if len(tabs) == 1 else JA(op, tabs, parallel_workers=3))
            for x in e.nodes():
                if (x.scan or x.join) and frozenset(x.tables()) == tabs:
                    x.op, x.name = op, op.name
        if what != "operators":
            c, w = ctx.int("newcard", 0, 1000), ctx.int("neww", 1, 64)
            params.add_cardinality(tabs, c).set_workers(tabs, w)
            for x in e.nodes():
                if frozenset(x.tables()) == tabs:
                    if not x.scan and not x.join:  # parameters of auxiliary nodes of the same intermediate: not specified
                        ctx.assume(False)
                    x.est, x.workers = c, w
        kw = {**({"operators": ops} if what != "params" else {}), **({"params": params} if what != "operators" else {}), **({} if simplify else {"simplify": False})}
        got = update_plan(p, **kw)
        ctx.check(matches(got, e), "update_plan changes exactly the given operators and parameters", key=f"{key} {what} {simplify}")
        ctx.check(matches(p, r), "update_plan does not modify the plan", key=key)
        ctx.reach(what)
    return body


def references(ctx):
    """tables that are only referenced (lookup keys, subplans) do not belong to the intermediate"""
    R, S, T = TABS[:3]
    c = [ctx.int(f"c{i}", 0, 1000) for i in range(4)]
    scan = QueryPlan(SO.IndexScan, base_table=S, lookup_key=ColumnExpression(COLS[0]) if ctx.choose("key", 2) else None, estimated_cardinality=c[0], parallel_workers=2)
    memo = QueryPlan(IO.Memoize, children=[scan], lookup_key=ColumnExpression(COLS[0]), estimated_cardinality=c[1])
    sub = QueryPlan(SO.SequentialScan, base_table=T, estimated_cardinality=7) if ctx.choose("sub", 2) else None
    outer = QueryPlan(SO.SequentialScan, base_table=R, estimated_cardinality=c[2], **({"subplan_root": sub} if sub else {}))
    p = QueryPlan(JO.NestedLoopJoin, children=[outer, memo], estimated_cardinality=c[3])
    tree, ops, params = explode_query_plan(p)
    check_params(ctx, params, {frozenset([S]): c[0], frozenset([R]): c[2], frozenset([R, S]): c[3]}, {frozenset([S]): 2}, "")
    ctx.check(set(ops.scan_operators) == {R, S} and set(ops.join_operators) == {frozenset([R, S])} and ops.intermediate_operators == {frozenset([S]): IO.Memoize}, "operators")
    q = update_plan(p, params=PP().add_cardinality([S], 5).add_cardinality([R, S], 6))
    ctx.check(And(eqn(q.estimated_cardinality, 6), eqn(q.inner_child.estimated_cardinality, 5), eqn(q.outer_child.estimated_cardinality, c[2])), "update_plan finds the intermediates")


def rejected(ctx):
    t = JoinTree.join(JoinTree.scan(TABS[0]), JoinTree.scan(TABS[1]))
    kw = ctx.pick("kw", [{}, {"scan_op": SO.SequentialScan}, {"join_op": JO.HashJoin}, {"plan_params": PP()}])
    try:
        to_query_plan(t, **kw)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "plans need operators")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("build", build(4 if t else 3), f"all join orders of up to {4 if t else 3} tables x all hints for all but one node, which is arbitrary x fallbacks x query; numbers symbolic", ["custom", "simple", "missing"]),
            Hn("explode", explode(3, 2 if t else 1), f"all plans of up to 3 tables with up to {2 if t else 1} auxiliary nodes, one node with missing numbers or workers", ["estimated", "actual"]),
            Hn("roundtrip", roundtrip(6 if t else 5), f"all plans of up to {6 if t else 5} tables"),
            Hn("update", update(3, 2 if t else 1), f"all plans of up to 3 tables with up to {2 if t else 1} auxiliary nodes x updated node", ["operators", "params", "both"]),
            Hn("references", references, "a plan with lookup keys and a subplan"), Hn("rejected", rejected, "incomplete arguments")]
