"""C18: query plans report their structure and their numbers faithfully, and derived plans change exactly one thing."""
import copy
import math

from vx.engine import Harness
from vx.planref import COLS, TABS, N, eqn, matches, nan
from vx.sym import NUM_SHADOW, And, Iff, Not, Or, Shadow, SymFloat, SymInt

import postbound._core as core
import postbound._qep as qep
from postbound import ColumnReference, TableReference
from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._qep import QueryPlan, SortKey
from postbound.qal import BinaryPredicate, ColumnExpression, LogicalOperator, StaticValueExpression

LEVEL = "model_checking"
ASSUMPTIONS = ["cardinalities are arbitrary non-negative integers (or unknown), costs, times and factors arbitrary non-negative reals; no rounding of floats",
               "trees of scans and joins with at most one auxiliary operator above each of them, optionally one subplan"]
SH = Shadow({core: NUM_SHADOW, qep: {k: v for k, v in NUM_SHADOW.items() if k != "hash"}})
F = ["QueryPlan." + x for x in ("__init__", "is_join", "is_scan", "is_auxiliary", "is_analyze", "is_ordered", "is_linear", "is_bushy", "is_left_deep", "is_right_deep", "is_zigzag", "is_scan_branch", "is_base_join",
     "plan_depth", "fetch_base_table", "outermost_scan", "tables", "columns", "iternodes", "lookup", "find_first_node", "find_all_nodes", "cout", "qerror", "operator_time", "parallelize", "with_estimates",
     "with_actual_card", "scale_cardinality", "canonical", "clone", "get", "__contains__", "__getitem__", "__iter__", "__len__", "__eq__", "__hash__")] + ["PlanParams", "PlanEstimates", "PlanMeasures", "Subplan", "SortKey"]

def tree(ctx, tabs, aux, n="p"):
    if len(tabs) == 1:
        r = N([SO.SequentialScan, SO.IndexScan][len(n) % 2], table=tabs[0])
        r.pred = BinaryPredicate(LogicalOperator.Equal, ColumnExpression(ColumnReference("a", tabs[0])), StaticValueExpression(1))
    else:
        k = 1 + ctx.choose(n, len(tabs) - 1)
        r = N(JO.HashJoin, [tree(ctx, tabs[:k], aux, n + "o"), tree(ctx, tabs[k:], aux, n + "i")])
        o, i = (x.nodes()[-1].table for x in r.kids)
        r.pred = BinaryPredicate(LogicalOperator.Equal, ColumnExpression(ColumnReference("b", o)), ColumnExpression(ColumnReference("c", i)))
    if aux and ctx.choose(n + "x", 2):
        r = N(*[(IO.Sort, [r]), (None, [r])][len(n) % 2], name="Hash") if len(n) % 2 else N(IO.Sort, [r])
    return r


def withsub(ctx, r, where):
    """attach a subplan somewhere"""
    nodes = r.nodes()
    k = ctx.choose("sub", len(nodes) + 1) if where else 0
    if k:
        sub = N(JO.NestedLoopJoin, [N(SO.SequentialScan, table=TABS[4]), N(IO.Materialize, [N(SO.IndexScan, table=TABS[5])])]) if ctx.choose("subjoin", 2) else N(SO.IndexScan, table=TABS[4])
        nodes[k - 1].sub = sub
    return r


def outer_first(ids, n, direction):
    return None


def find(n, p, direction):
    """reference for find_first_node: the node itself, the inputs, its subplan"""
    if p(n):
        return n
    kids = n.kids if direction == "outer" else n.kids[::-1]
    for k in kids + ([n.sub] if n.sub else []):
        r = find(k, p, direction)
        if r:
            return r
    return None


def lookup(n, tabs):
    if n.tables() == tabs:
        return n
    for k in n.kids:
        r = lookup(k, tabs)
        if r:
            return r
    return None


def is_same(p, r):
    """the plan node p is at the position r describes (ids are given by the tag parameter)"""
    return p is not None and p["tag"] == r.extra["tag"]


def shape(nmax, aux, sub):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = withsub(ctx, tree(ctx, TABS[:n], aux), sub)
        for i, x in enumerate(r.nodes(True)):
            x.extra = {"tag": i}
        p, key = r.real(), r.key()
        reals = {x["tag"]: x for x in p}
        refs = r.nodes(True)
        ctx.check(len(list(p)) == len(refs) and set(reals) == set(range(len(refs))), "iteration has every node once, including subplans", key=key)
        it = [x["tag"] for x in p.iternodes()]
        ctx.check(sorted(it) == sorted(x.extra["tag"] for x in r.nodes()), "iternodes has every node once", key=key)
        for x in refs:
            q = reals[x.extra["tag"]]
            ctx.check(bool(q.is_scan()) == x.scan and bool(q.is_join()) == x.join and bool(q.is_auxiliary()) == (not x.scan and not x.join), "kind of node", key=key)
            ctx.check(q.operator is x.op and q.node_type == x.name and q.base_table == x.table, "operator, name and table", key=key)
            ctx.check([c["tag"] for c in q.children] == [c.extra["tag"] for c in x.kids], "inputs", key=key)
            ctx.check((q.input_node is None) == (len(x.kids) != 1) and (q.outer_child is None) == (len(x.kids) != 2) == (q.inner_child is None), "inputs", key=key)
            ctx.check(len(x.kids) != 1 or is_same(q.input_node, x.kids[0]), "inputs", key=key)
            ctx.check(len(x.kids) != 2 or is_same(q.outer_child, x.kids[0]) and is_same(q.inner_child, x.kids[1]), "inputs", key=key)
            ctx.check(q.tables() == x.tables(), "tables", key=key)
            exp = {c for y in x.nodes(True) if y.pred for c in y.pred.columns()}
            ctx.check(q.columns() == exp, "columns", key=key)
            depth = lambda y: 1 + max([depth(k) for k in y.kids], default=0)
            ctx.check(q.plan_depth() == depth(x) == len(q), "depth", key=key)
            js = x.joins()
            sides = [(bool(j.kids[0].joins()), bool(j.kids[1].joins())) for j in js]
            lin, left, right = all(not (a and b) for a, b in sides), all(not b for a, b in sides), all(not a for a, b in sides)
            ctx.check(bool(q.is_linear()) == lin and bool(q.is_bushy()) == (not lin), "linear iff every join has an input without joins", key=key)
            ctx.check(bool(q.is_left_deep()) == left, "left-deep iff all inner inputs are base tables", key=key)
            ctx.check(bool(q.is_right_deep()) == right, "right-deep iff all outer inputs are base tables", key=key)
            ctx.check(not js or bool(q.is_zigzag()) == (lin and not left and not right), "zig-zag iff linear, but neither left- nor right-deep", key=key)
            ctx.check(bool(q.is_scan_branch()) == x.branch(), "scan branch iff the node leads to a scan", key=key)
            ctx.check(bool(q.is_base_join()) == (x.join and all(k.branch() for k in x.kids)), "base join iff both inputs are scan branches", key=key)
            ctx.check(q.fetch_base_table() == (next(y.table for y in x.nodes() if y.scan) if x.branch() else None), "base table of scan branches", key=key)
            ctx.check(is_same(q.outermost_scan(), next(y for y in x.nodes() if y.scan)), "outermost scan", key=key)
        for what, f, g in (("scans", lambda q: q.is_scan(), lambda x: x.scan), ("joins", lambda q: q.is_join(), lambda x: x.join), ("auxiliaries", lambda q: q.is_auxiliary(), lambda x: not x.scan and not x.join),
                           ("r", lambda q, t: q.base_table == t, lambda x: x.table == TABS[1]), ("v", lambda q, t: q.base_table == t, lambda x: x.table == TABS[4])):
            arg = (TABS[1],) if what == "r" else (TABS[4],) if what == "v" else ()
            ctx.check(sorted(q["tag"] for q in p.find_all_nodes(f, *arg)) == sorted(x.extra["tag"] for x in refs if g(x)), "find_all_nodes", key=f"{what}: {key}")
            for d in ("outer", "inner"):
                got, exp = p.find_first_node(f, *arg, direction=d), find(r, g, d)
                ctx.check(got is None if exp is None else is_same(got, exp), "find_first_node", key=f"{what} {d}: {key}")
        for m in range(1, 2 ** n):
            s = {t for i, t in enumerate(TABS[:n]) if m >> i & 1}
            got, exp = p.lookup(s if len(s) > 1 else next(iter(s))), lookup(r, s)
            ctx.check(got is None if exp is None else is_same(got, exp), "lookup finds the highest node with exactly the tables", key=f"{m}: {key}")
            ctx.check(s in p and next(iter(s)) in p and TableReference("x") not in p and s | {TableReference("x")} not in p, "containment of tables", key=key)
        ctx.check("tag" in p and "cardinality" in p and "nope" not in p and p["tag"] == 0 and p.get("nope", 3) == 3 and p.get("tag") == 0, "access by name", key=key)
        str(p), p.inspect(), p.explain(), p.ast()
        ctx.reach("sub" if any(x.sub for x in refs) else "bushy" if p.is_bushy() else "linear")
    return body


def number(ctx, n):
    return ctx.int(n, 0, 10 ** 6)


def fill(ctx, r, measured):
    """numbers for all nodes; unknown values according to the pattern"""
    est, act = ctx.pick("est", ["all", "root", "kids"]), ctx.pick("act", ["all", "root", "kids", "none", "timeonly"]) if measured else "none"
    for i, x in enumerate(r.nodes(True)):
        x.extra = {"tag": i}
        on = lambda k: k == "all" or k == "root" and i == 0 or k == "kids" and i > 0
        if on(est):
            x.est, x.cost = number(ctx, f"e{i}"), ctx.real(f"c{i}", 0, 10 ** 6)
        if on(act):
            x.act = number(ctx, f"a{i}")
        if on(act) or act == "timeonly":
            x.time = ctx.real(f"t{i}", 0, 10 ** 6)
    return r


def plan(ctx, nmax, measured=True, how=False):
    n = 1 + ctx.choose("n", nmax)
    r = tree(ctx, TABS[:n], True)
    sub = ctx.choose("sub", 3 if how else 2)
    if sub:
        (r if sub == 2 else r.nodes()[-1]).sub = N(IO.Sort, [N(SO.IndexScan, table=TABS[4])]) if how else N(SO.IndexScan, table=TABS[4])
    return fill(ctx, r, measured)


def numbers(nmax):
    def body(ctx):
        r = plan(ctx, nmax)
        p, key = r.real(), r.key()
        ctx.check(matches(p, r), "numbers are stored", key=key)
        pairs = list(zip(sorted(p, key=lambda q: q["tag"]), r.nodes(True)))
        for q, x in [pairs[ctx.choose("node", len(pairs))]]:
            known = not nan(x.act) or not nan(x.time)
            for aux in (True, False):
                def cout(y):
                    if nan(y.act) and nan(y.time):
                        return math.nan
                    own = y.act if aux or y.scan or y.join else 0
                    ks = [cout(k) for k in y.kids]
                    return math.nan if nan(own) or any(nan(k) for k in ks) else sum(ks, own)
                ctx.check(eqn(q.cout(include_auxiliaries=aux), cout(x)), "C_out is the sum of all actual cardinalities", key=key)
            qe = q.qerror()
            if nan(x.act) or nan(x.est):
                ctx.check(eqn(qe, math.nan), "q-errors need an estimate and a measurement", key=key)
            else:
                e, a = x.est + 1, x.act + 1
                near = lambda x, y: And(x - y <= 0.0001, y - x <= 0.0001)
                ctx.check(near(qe, e / a if bool(e >= a) else a / e), "q-error is the ratio of the larger and the smaller cardinality", key=key)
            times = [k.time for k in x.kids]
            exp = math.nan if not known or nan(x.time) or any(nan(t) for t in times) else x.time - sum(times) if times else x.time
            ctx.check(eqn(q.operator_time, exp), "time of an operator excludes its inputs", key=key)
        ctx.reach("measured" if p.is_analyze() else "estimated")
    return body


def derived(nmax):
    def body(ctx):
        r = plan(ctx, nmax, how=True)
        p, key = r.real(), r.key()
        how = ctx.pick("how", ["parallelize", "estimates", "actual", "scale", "canonical", "clone", "deep"])
        ctx.reach(how)

        def only(**kw):
            x = copy.copy(r)
            x.__dict__.update(kw)
            return x
        if how == "parallelize":
            w = ctx.int("w", 0, 64)
            got, exp = p.parallelize(w), only(workers=w)
        elif how == "estimates":
            kw = {}
            if ctx.choose("card", 2):
                kw["cardinality"] = Cardinality(number(ctx, "card"))
            if ctx.choose("cost", 2):
                kw["cost"] = ctx.real("cost", 0, 10 ** 6)
            keep = ctx.choose("keep", 2)
            got = p.with_estimates(**kw, **({"keep_measures": True} if keep else {}))
            exp = only(est=kw.get("cardinality", r.est), cost=kw.get("cost", r.cost), **({} if keep else dict(act=math.nan, time=math.nan)))
        elif how == "actual":
            ign, est = ctx.choose("ignore", 2), ctx.choose("estimator", 2)
            args = {} if ign else {"ignore_nan": False}
            seen = []

            def cost(q, c):
                seen.append((q, c))
                return ctx_cost[q["tag"]]
            ctx_cost = {x.extra["tag"]: ctx.real("newcost", 0, 10 ** 6) for x in r.nodes(True)} if est else {}
            got = p.with_actual_card(**args, **({"cost_estimator": cost} if est else {}))

            def f(x):
                x.est = x.est if nan(x.act) and ign else x.act
                x.cost = ctx_cost[x.extra["tag"]] if est else math.nan
                x.act = x.time = math.nan
            exp = r.map(f)
            new = {x.extra["tag"]: x.est for x in exp.nodes(True)}
            for q, c in seen:
                ctx.check(eqn(c, new[q["tag"]]), "cost estimators receive the new cardinality", key=key)
        elif how == "scale":
            kind, rec = ctx.pick("kind", ["estimated", "actual", "both"]), ctx.choose("rec", 2)
            by = ctx.pick("factor", [2, 0.5, 3])
            got = p.scale_cardinality(by, kind=kind, recursive=bool(rec))

            def f(x):
                if not rec and x.extra["tag"]:
                    return
                mul = lambda v: v if nan(v) else round(v * by)
                if kind != "actual":
                    x.est = mul(x.est)
                if kind != "estimated":
                    x.act = mul(x.act)
            exp = r.map(f)
        elif how == "canonical":
            def canon(x):
                if not x.scan and not x.join:
                    if x.sub:  # subplans of removed nodes: not specified
                        ctx.assume(False)
                    return canon(x.kids[0])
                y = copy.copy(x)
                y.kids, y.sub = [canon(k) for k in x.kids], canon(x.sub) if x.sub else None
                return y
            got, exp = p.canonical(), canon(r)
        else:
            got, exp = p.clone(deep=how == "deep"), r
            ctx.check(got == p and hash(got) == hash(p) and copy.deepcopy(p) == p and copy.copy(p) == p, "clones are equal", key=key)
            got.params["probe"] = 1
            ctx.check("probe" not in p, "clones are independent", key=key)
        ctx.check(matches(got, exp), f"{how} changes exactly what it is asked to change", key=key)
        ctx.check(matches(p, r), f"{how} does not modify the plan", key=key)
    return body


def measures(ctx):
    """metadata containers keep everything, and derived plans keep the remaining metadata"""
    v = {k: ctx.int(k, 0, 1000) for k in ("hits", "misses", "est", "act", "w", "cust")}
    t = TABS[0]
    key = SortKey.of(COLS[0], ascending=False)
    lk = ColumnExpression(COLS[1])
    p = QueryPlan(SO.IndexScan, base_table=t, index="idx", sort_keys=[key], lookup_key=lk, parallel_workers=v["w"], custom=v["cust"],
                  estimates=qep.PlanEstimates(cardinality=v["est"], cost=1.5, margin=v["cust"]), measures=qep.PlanMeasures(cardinality=v["act"], execution_time=2.5, cache_hits=v["hits"], cache_misses=v["misses"], loops=v["cust"]))

    def same(q, card=v["act"], measured=True):
        return And(q.base_table == t, q.params.index == "idx", tuple(q.sort_keys) == (key,), q.lookup_key == lk, q.parallel_workers == v["w"], q["custom"] == v["cust"], q.params.custom == v["cust"],
                   q.is_ordered(), eqn(q.measures.cardinality, card) if measured else not q.is_analyze(),
                   And(q.measures.cache_hits == v["hits"], q.measures.cache_misses == v["misses"], q.measures["loops"] == v["cust"]) if measured else True)
    ctx.check(same(p), "metadata is stored")
    ctx.check(p.tables() == {t, TABS[1]} and p.columns() == {COLS[1]}, "lookup keys access their table and column")
    ctx.check(same(p.clone()) and same(p.clone(deep=True)), "clones keep all metadata")
    ctx.check(same(p.with_estimates(cardinality=Cardinality(1), keep_measures=True)) and same(p.with_estimates(cardinality=Cardinality(1)), measured=False), "with_estimates keeps the metadata")
    q = p.scale_cardinality(2, kind="both")
    ctx.check(same(q, card=2 * v["act"]) and q.estimates["margin"] == v["cust"] and q.estimated_cost == 1.5, "scale_cardinality keeps the other metadata")
    a = p.with_actual_card()
    ctx.check(same(a, measured=False) and a.estimates["margin"] == v["cust"], "with_actual_card keeps the metadata")
    ctx.check(same(p.canonical()), "canonical keeps the metadata of scans and joins")
    for k, e in (("index", "idx"), ("cost", 1.5), ("execution_time", 2.5), ("custom", v["cust"]), ("margin", v["cust"]), ("loops", v["cust"])):
        ctx.check(k in p and p[k] == e and p.get(k) == e, "access by name", key=k)
    ctx.check("nope" not in p and p.get("nope") is None and p.get("nope", 7) == 7, "access by name")


def sortkeys(ctx):
    cols = [ColumnExpression(c) for c in COLS[:3]]
    s = [[i for i in range(3) if ctx.choose(f"{n}{i}", 2)] for n in "ab"]
    if not s[0] or not s[1]:
        return
    asc = [bool(ctx.choose(f"asc{n}", 2)) for n in "ab"]
    k = [SortKey([cols[i] for i in x], ascending=d) for x, d in zip(s, asc)]
    ctx.check(bool(k[0].is_compatible_with(k[1])) == (asc[0] == asc[1] and bool(set(s[0]) & set(s[1]))), "sort keys are compatible iff same direction and a common member")
    for i in range(3):
        ctx.check(bool(k[0].is_compatible_with(COLS[i])) == (i in s[0]), "columns are compatible iff they are members")
        ctx.check((COLS[i] in k[0]) == (i in s[0]), "containment of columns")
    ctx.check((k[0] == k[1]) == (s[0] == s[1] and asc[0] == asc[1]) and (k[0] != k[1] or hash(k[0]) == hash(k[1])), "equality")
    ctx.check(SortKey.for_equivalence_class([COLS[i] for i in s[0]], ascending=asc[0]) == k[0], "construction from columns")
    ctx.check(len(s[0]) > 1 or SortKey.of(COLS[s[0][0]], ascending=asc[0]) == k[0] and k[0].column == cols[s[0][0]], "construction from one column")
    try:
        m = k[0].merge_with(k[1])
    except ValueError:
        m = None
    ctx.check((m is None) == (asc[0] != asc[1]) and (m is None or m == SortKey([cols[i] for i in set(s[0]) | set(s[1])], ascending=asc[0])), "merging joins the classes")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("shape", shape(5 if t else 4, True, False), f"all plans over up to {5 if t else 4} tables, an optional auxiliary node above each node", ["bushy", "linear"]),
            Hn("subplans", shape(4 if t else 3, t, True), f"all plans over up to {4 if t else 3} tables with a subplan at any node", ["sub"]),
            Hn("numbers", numbers(3 if t else 2), f"plans over up to {3 if t else 2} tables; all numbers symbolic; five patterns of unknown values", ["measured", "estimated"]),
            Hn("derived", derived(3 if t else 2), "plans over up to two tables; all numbers symbolic; five patterns of unknown values", ["parallelize", "estimates", "actual", "scale", "canonical", "clone", "deep"]),
            Hn("metadata", measures, "symbolic numbers in all metadata containers"), Hn("sortkeys", sortkeys, "all pairs of sort keys over three columns")]
