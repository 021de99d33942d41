"""C28: TONIC recommends, for every join, the operator with the least accumulated cost among those that have been observed for the same join path."""
import os
import tempfile
import types
import warnings

from vx.engine import Harness, PathAbort
from vx.sym import NUM_SHADOW, Shadow

import postbound._core as core
import postbound._qep as qep
import postbound.util.dicts as dicts
import postbound.util.jsonize as jsonize
from postbound import TableReference, parse_query
from postbound._core import IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._hints import JoinTree
from postbound._qep import QueryPlan, SortKey

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import postbound.opt.tonic as tonic

warnings.simplefilter("ignore")
LEVEL = "model_checking"
ASSUMPTIONS = ["cost integration over exact real numbers", "no self joins within bushy subqueries (their identifiers only consist of the table names)", "the database system is a stand-in: it provides plans with arbitrary costs"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, tonic: NS, dicts: NS})
F = ["QEPsNode.recommend_operators", "QEPsNode.integrate_costs", "QEPsNode.detect_unknown_costs", "QEPsNode.update_costs", "QEPSynopsis", "TonicOperatorSelection", "_load_qeps_from_json", "_iterate_query_plan", "_iterate_join_tree", "_generate_all_cost_estimates", "_sample_cost_estimates"]
HJ, NL, MJ = JO.HashJoin, JO.NestedLoopJoin, JO.SortMergeJoin
# nested pairs of table names: (outer, inner)
TREES = {"rs": ("r", "s"), "rst": (("r", "s"), "t"), "t-rs": ("t", ("r", "s")), "srt": (("s", "r"), "t"), "rts": (("r", "t"), "s"), "rs-tu": (("r", "s"), ("t", "u")), "tu-rs": (("t", "u"), ("r", "s")),
         "rstu": ((("r", "s"), "t"), "u"), "u-rst": ("u", (("r", "s"), "t")), "rst-uv": ((("r", "s"), "t"), ("u", "v")), "uv-trs": (("u", "v"), ("t", ("r", "s"))), "rs-tu-v": ((("r", "s"), ("t", "u")), "v"), "vw-rs-tu": (("v", "w"), (("r", "s"), ("t", "u")))}
_CACHE = {}


def leaves(t):
    return [t] if isinstance(t, str) else leaves(t[0]) + leaves(t[1])


def joins(t):
    return [] if isinstance(t, str) else joins(t[0]) + joins(t[1]) + [t]


def depth(t):
    return 1 if isinstance(t, str) else 1 + max(depth(t[0]), depth(t[1]))


def query_of(t, aliases=False, filters=""):
    ts = sorted(leaves(t))
    k = (tuple(ts), aliases, filters)
    if k not in _CACHE:
        al = {x: alias(x) if aliases else x for x in ts}
        preds = [f"{al[a]}.c = {al[b]}.c" for a, b in zip(ts, ts[1:])] + [f"{al[x]}.f {'>' if f.islower() else '<'} 1" for f in filters for x in [f.lower()] if x in ts]
        _CACHE[k] = parse_query("SELECT * FROM " + ", ".join(f"{x} {al[x]}" if aliases else x for x in ts) + " WHERE " + " AND ".join(preds), accept_set_query=False)
    return _CACHE[k]


def alias(x):
    return chr(ord("a") + ord("z") - ord(x)) + x  # reverses the alphabetical order


def ref(x, aliases):
    return TableReference(x, alias(x)) if aliases else TableReference(x)


# ---------------------------------------------------------------- reference
def paths(t, filters="", ctx=()):
    """the path of each join: a base join is an unordered pair, each further table extends the path. Bushy joins refer to the tables of the shallower side, whose own joins have separate paths."""
    out = {}
    ident = lambda x: x + "".join(f for f in filters if f.lower() == x)

    def deep(t):
        a, b = t
        if isinstance(a, str) and isinstance(b, str):
            key = ctx + tuple(sorted((ident(a), ident(b))))
        else:
            sub, main = (a, b) if depth(a) <= depth(b) else (b, a)
            key = deep(main) + ((ident(sub),) if isinstance(sub, str) else (frozenset(leaves(sub)),))
            if not isinstance(sub, str):
                out.update(paths(sub, filters, key + ("subquery",)))
        out[t] = key
        return key
    if not isinstance(t, str):
        deep(t)
    return out


class Ref:
    def __init__(self, gamma):
        self.g, self.costs = gamma, {}

    def add(self, t, ops, costs, filters=""):
        for j, key in paths(t, filters).items():
            d = self.costs.setdefault(key, {})
            d[ops[j]] = costs[j] + self.g * d[ops[j]] if ops[j] in d else costs[j]

    def check(self, ctx, t, assignment, name, key, filters="", aliases=False):
        seen = set()
        for j, p in paths(t, filters).items():
            tabs = frozenset(ref(x, aliases) for x in leaves(j))
            seen.add(tabs)
            d = self.costs.get(p, {})
            got = assignment.join_operators.get(tabs)
            if len(d) < 2:
                ctx.check(got is None, f"{name}: no recommendation without alternatives", key=key)
            else:
                ctx.check(got is not None and got.operator in d, f"{name}: known joins receive a recommendation", key=key)
                for o, c in d.items():
                    if got is not None and o != got.operator:
                        ctx.check(d[got.operator] <= c, f"{name}: the operator with the least cost is recommended", key=key)
        ctx.check(set(assignment.join_operators) <= seen and not assignment.scan_operators and not assignment.global_settings and not assignment.intermediate_operators, f"{name}: only joins of the query are assigned", key=key)

    def unknown(self, t, allowed, filters="", aliases=False):
        out = {}
        for j, p in paths(t, filters).items():
            miss = frozenset(o for o in allowed if o not in self.costs.get(p, {}))
            if miss:
                out[frozenset(ref(x, aliases) for x in leaves(j))] = miss
        return out


def tree_of(t, aliases=False):
    return JoinTree.scan(ref(t, aliases)) if isinstance(t, str) else JoinTree.join(tree_of(t[0], aliases), tree_of(t[1], aliases))


AUX = ("none", "hash", "sorted scans", "deep scans", "materialize", "top")


def plan_of(t, ops, costs, aux="none", aliases=False, top=True, card=None):
    if isinstance(t, str):
        p = QueryPlan("Scan", operator=SO.SequentialScan, base_table=ref(t, aliases), estimated_cost=1.0)
        if aux in ("sorted scans", "deep scans"):
            p = QueryPlan("Sort", operator=IO.Sort, children=p, estimated_cost=2.0)
        if aux == "deep scans":
            p = QueryPlan("Gather", children=QueryPlan("Materialize", operator=IO.Materialize, children=QueryPlan("Memoize", operator=IO.Memoize, children=p)))
    else:
        l, r = plan_of(t[0], ops, costs, aux, aliases, False), plan_of(t[1], ops, costs, aux, aliases, False)
        if aux == "hash":
            r = QueryPlan("Hash", children=QueryPlan("Hash", children=r, estimated_cost=5.0), estimated_cost=4.0)
        if aux == "materialize" and not l.is_scan():
            l = QueryPlan("Materialize", operator=IO.Materialize, children=QueryPlan("Sort", operator=IO.Sort, children=QueryPlan("Gather", children=l)))
        p = QueryPlan("Join", operator=ops[t], children=[l, r], estimated_cost=costs[t])
    return QueryPlan("Limit", children=QueryPlan("Aggregate", children=p, estimated_cost=7.0), estimated_cost=8.0) if top and aux == "top" else p


def model(filter_aware=False, gamma=0.5, db=None):
    return tonic.TonicOperatorSelection(filter_aware, gamma, database=db or types.SimpleNamespace())


def draw_costs(ctx, t):
    return {j: ctx.real("cost", 0, 1000) for j in joins(t)}


# ---------------------------------------------------------------- recommendations
def history(n, trees, targets, opers=(HJ, NL), gammas=(0.5, 0.0, 1.0)):
    def body(ctx):
        g = ctx.pick("gamma", gammas)
        m, r = model(gamma=g), Ref(g)
        key = f"{g}"
        for i in range(n):
            name = ctx.pick(f"plan{i}", trees)
            t = TREES[name]
            base = ctx.pick(f"operator{i}", opers)
            ops, cs = {j: base for j in joins(t)}, draw_costs(ctx, t)
            m.integrate_cost(query_of(t), plan_of(t, ops, cs))
            r.add(t, ops, cs)
            key += f"/{name}:{base.name}"
        name = ctx.pick("target", targets)
        t = TREES[name]
        q = query_of(t)
        unknown = m.qeps.detect_unknown_costs(q, tree_of(t), {HJ, NL})
        ctx.check(unknown == r.unknown(t, {HJ, NL}), "unknown costs are detected", key=key + name)
        out = m.select_physical_operators(q, tree_of(t))
        ctx.reach("some" if out.join_operators else "none")
        r.check(ctx, t, out, "history", key + name)
        m.reset()
        ctx.check(not m.select_physical_operators(q, tree_of(t)).join_operators and not m.qeps.root.operator_costs, "nothing is known after a reset", key=key + name)
    return body


def mixed(ctx):
    """several operators within a plan"""
    name = ctx.pick("tree", ("rst", "t-rs", "rs-tu", "rst-uv", "uv-trs"))
    t = TREES[name]
    m, r = model(), Ref(0.5)
    key = name
    for i in range(2):
        ops = {j: ctx.pick(f"operator{i}", (HJ, NL)) for j in joins(t)}
        cs = draw_costs(ctx, t)
        m.integrate_cost(query_of(t), plan_of(t, ops, cs))
        r.add(t, ops, cs)
        key += "/" + ",".join(o.name for o in ops.values())
    q = query_of(t)
    r.check(ctx, t, m.select_physical_operators(q, tree_of(t)), "mixed", key)
    unknown = m.qeps.detect_unknown_costs(q, tree_of(t), {HJ, NL, MJ})
    ctx.check(unknown == r.unknown(t, {HJ, NL, MJ}), "unknown costs are detected", key=key)
    ctx.reach("done")


def repeated(n):
    """all histories of a single path"""
    def body(ctx):
        g = ctx.pick("gamma", (0.5, 0.0, 1.0))
        name = ctx.pick("tree", ("rs", "t-rs", "rs-tu"))
        t = TREES[name]
        m, r = model(gamma=g), Ref(g)
        key = f"{g}/{name}"
        for i in range(n):
            op = ctx.pick(f"operator{i}", (HJ, NL, MJ))
            ops, cs = {j: op for j in joins(t)}, {j: 1.0 for j in joins(t)}
            cs[t] = ctx.real("cost", 0, 1000)
            m.integrate_cost(query_of(t), plan_of(t, ops, cs))
            r.add(t, ops, cs)
            key += op.name
        r.check(ctx, t, m.select_physical_operators(query_of(t), tree_of(t)), "repeated", key)
        ctx.reach("done")
    return body


def auxiliary(ctx):
    """nodes other than joins and scans neither contribute costs nor change the path"""
    name = ctx.pick("tree", tuple(TREES))
    aux = ctx.pick("auxiliary", AUX[1:])
    t = TREES[name]
    m, r = model(), Ref(0.5)
    for op, a in ((HJ, aux), (NL, ctx.pick("other", ("none", "hash")))):
        ops, cs = {j: op for j in joins(t)}, draw_costs(ctx, t)
        m.integrate_cost(query_of(t), plan_of(t, ops, cs, a))
        r.add(t, ops, cs)
    r.check(ctx, t, m.select_physical_operators(query_of(t), tree_of(t)), "auxiliary", f"{name}/{aux}")
    ctx.reach("done")


def normalized(ctx):
    """aliases do not matter, filters only if they should"""
    aware = bool(ctx.bool("filter aware"))
    name = ctx.pick("tree", ("rs", "rst", "t-rs", "rs-tu"))
    t = TREES[name]
    m, r = model(aware), Ref(0.5)
    key = f"{aware}/{name}"
    for i in range(2):
        al, fl = bool(ctx.bool(f"alias{i}")), ctx.pick(f"filter{i}", ("", "r", "R", "st"))
        op = (HJ, NL)[i]
        ops, cs = {j: op for j in joins(t)}, draw_costs(ctx, t)
        m.integrate_cost(query_of(t, al, fl), plan_of(t, ops, cs, aliases=al))
        r.add(t, ops, cs, fl if aware else "")
        key += f"/{al},{fl}"
    al, fl = bool(ctx.bool("alias")), ctx.pick("filter", ("", "r", "R"))
    q = query_of(t, al, fl)
    ctx.check(m.qeps.detect_unknown_costs(q, tree_of(t, al), {HJ}) == r.unknown(t, {HJ}, fl if aware else "", al), "unknown costs are detected", key=key)
    r.check(ctx, t, m.select_physical_operators(q, tree_of(t, al)), "normalized", f"{key}/{al},{fl}", fl if aware else "", al)
    ctx.reach("aware" if aware else "unaware")


def self_joins(ctx):
    """self joins (including different filters for the same table)"""
    def q(x, y, f):
        return parse_query(f"SELECT * FROM r {x}, r {y} WHERE {x}.c = {y}.c" + (f" AND {f}.f > 1" if f else ""), accept_set_query=False)
    aware = bool(ctx.bool("filter aware"))
    m, costs = model(aware), {}
    key = f"{aware}"
    for i in range(3):
        x, y = ctx.pick(f"aliases{i}", (("a", "b"), ("b", "a")))
        f = ctx.pick(f"filter{i}", ("", "x")) and x if i < 2 else ""
        op = (HJ, NL, HJ)[i]
        c = ctx.real("cost", 0, 1000)
        p = QueryPlan("Join", operator=op, estimated_cost=c, children=[QueryPlan("Scan", operator=SO.SequentialScan, base_table=TableReference("r", z)) for z in (x, y)])
        m.integrate_cost(q(x, y, f), p)
        d = costs.setdefault((aware and f) or "", {})
        d[op] = c + 0.5 * d[op] if op in d else c
        key += f"/{x}{f}"
    known = costs.get("", {})
    out = m.select_physical_operators(q("b", "a", ""), JoinTree.join(JoinTree.scan(TableReference("r", "b")), JoinTree.scan(TableReference("r", "a")))).join_operators
    ctx.check(all(k == {TableReference("r", "a"), TableReference("r", "b")} for k in out), "self joins: the join is assigned", key=key)
    got = [o.operator for o in out.values()]
    if len(known) < 2:
        ctx.check(not got, "self joins: no recommendation without alternatives", key=key)
    else:
        ctx.check(len(got) == 1 and got[0] in known, "self joins receive a recommendation", key=key)
        ctx.check(not got or all(known[got[0]] <= c for c in known.values()), "self joins: the operator with the least cost is recommended", key=key)
    ctx.reach("done")


# ---------------------------------------------------------------- persistence
def encoded(o):
    """what is written to (and read from) the model file; numbers remain symbolic"""
    enc = jsonize.JsonizeEncoder()
    while not isinstance(o, (dict, list, tuple, str, int, float, bool, type(None))):
        o = enc.default(o)
    if isinstance(o, dict):
        return {k: encoded(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [encoded(x) for x in o]
    return o


def stored(full):
    return lambda ctx: stored_model(ctx, full)


def stored_model(ctx, full):
    aware = bool(ctx.bool("filter aware"))
    g = ctx.pick("gamma", (0.5, 0.0) if full else (0.5,))
    name = ctx.pick("tree", ("rs", "rst", "rs-tu", "rst-uv", "rs-tu-v") if full else ("rst", "rs-tu", "rst-uv"))
    t = TREES[name]
    m, r = model(aware, g), Ref(g)
    key = f"{aware}/{g}/{name}"

    def add(m, i, tree, real=True):
        fl = ctx.pick(f"filter{i}", ("", "r", "st") if full else ("", "st")) if i < 2 else ""
        op = (HJ, NL, HJ)[i]
        ops, cs = {j: op for j in joins(tree)}, draw_costs(ctx, tree)
        m.integrate_cost(query_of(tree, False, fl), plan_of(tree, ops, cs))
        r.add(tree, ops, cs, fl if aware else "")
    add(m, 0, t)
    add(m, 1, t)
    data = encoded(m)
    old = tonic.json
    fd, fname = tempfile.mkstemp()
    os.write(fd, b"{}")
    os.close(fd)
    tonic.json = types.SimpleNamespace(load=lambda *a, **k: data, loads=lambda *a, **k: data, JSONDecodeError=ValueError)
    try:
        m2 = tonic.TonicOperatorSelection.load_model(fname, types.SimpleNamespace())
    finally:
        tonic.json = old
        os.unlink(fname)
    ctx.check(m2.describe() == m.describe() == {"name": "tonic", "filter_aware": aware, "gamma": g}, "settings are restored", key=key)
    q = query_of(t)
    r.check(ctx, t, m2.select_physical_operators(q, tree_of(t)), "restored", key)
    more = ctx.pick("more", ("none", "same", "new"))
    if more != "none":
        tree = t if more == "same" else TREES["rts"]
        add(m2, 2, tree)
        r.check(ctx, tree, m2.select_physical_operators(query_of(tree), tree_of(tree)), "restored models can be extended", key + more)
        m.reset()
    ctx.reach(more)


# ---------------------------------------------------------------- exploration
class System:
    """stands in for the database system: plans of hinted queries have arbitrary costs"""

    def __init__(self, ctx, t, ok):
        self.ctx, self.t, self.ok, self.log, self.analyzed = ctx, t, ok, [], []

    def hinting(self):
        return self

    optimizer = hinting

    def supports_hint(self, op):
        return op in self.ok

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None, **kw):
        if plan is not None:
            return Hinted(query, plan.tag, True)
        return Hinted(query, (join_order, physical_operators), False)

    def analyze_plan(self, query):
        self.analyzed.append(query)
        return Analyzed(getattr(query, "tag", None))

    def query_plan(self, query):
        t = self.t
        if isinstance(query, Hinted) and query.tag is not None:
            order, a = query.tag
            ops = {j: getattr(a.join_operators.get(frozenset(TableReference(x) for x in leaves(j))), "operator", None) for j in joins(t)}
        else:
            order, ops = None, {j: HJ for j in joins(t)}
        cs = draw_costs(self.ctx, t)
        self.log.append((query, order, ops, cs))
        return plan_of(t, {j: o or MJ for j, o in ops.items()}, cs, "top")


class Hinted:
    def __init__(self, query, tag, actual):
        self.query, self.tag, self.actual = getattr(query, "query", query), tag, actual

    def __getattr__(self, name):
        return getattr(self.query, name)


class Analyzed:
    def __init__(self, tag):
        self.tag = tag

    def with_actual_card(self):
        return self


def explore(limit):
    def body(ctx):
        name = ctx.pick("tree", ("rs", "t-rs") + (("rs-tu",) if not limit else ()))
        t = TREES[name]
        ok = [o for o in (HJ, NL, MJ) if ctx.bool(f"supported {o.name}")]
        allowed = ctx.pick("allowed", (None, (HJ, NL), (MJ,)))
        use = [o for o in (allowed or (HJ, NL, MJ)) if o in ok]
        if (len(joins(t)) > 2 or limit) and len(use) > 2:
            raise PathAbort()
        native = bool(ctx.bool("native join order"))
        sys_ = System(ctx, t, ok + [SO.SequentialScan])
        m = model(db=sys_)
        q = query_of(t)
        key = f"{name}/{[o.name for o in ok]}/{allowed and [o.name for o in allowed]}/{native}"
        n = ctx.pick("limit", (None, 100) if not limit else (1, 2, 3))
        old = tonic.random
        left = [9]

        def choice(xs):
            left[0] -= 1
            if left[0] < 0:
                raise PathAbort()
            return xs[ctx.int("draw", 0, len(xs) - 1).__index__()]
        tonic.random = types.SimpleNamespace(choice=choice)
        try:
            m.explore_costs(q, None if native else tree_of(t), allowed_operators=allowed, max_combinations=n)
        finally:
            tonic.random = old
        runs = [e for e in sys_.log if isinstance(e[0], Hinted)]
        ctx.check(all(e[0].actual for e in runs), "costs are based on the true cardinalities", key=key)
        ctx.check(all(e[1].to_string() == tree_of(t).to_string() if hasattr(e[1], "to_string") else str(e[1]) == str(tree_of(t)) for e in runs) if not native else True, "the join order is explored", key=key)
        got = [tuple(e[2][j] for j in joins(t)) for e in runs]
        total = len(use) ** len(joins(t))
        ctx.check(all(o in use for c in got for o in c), "only allowed and supported operators are explored", key=key)
        ctx.check(len(set(got)) == len(got), "no combination is explored twice", key=key)
        if n is None or total <= n:
            ctx.check(len(got) == total, "all combinations are explored", key=key)
        else:
            ctx.check(len(got) <= n and got, "at most the requested number of combinations is explored", key=key)
        r = Ref(0.5)
        for e in runs:
            r.add(t, e[2], e[3])
        r.check(ctx, t, m.select_physical_operators(q, tree_of(t)), "explored", key)
        ctx.reach("done")
    return body


def feedback(ctx):
    """costs that are provided by the database system"""
    name = ctx.pick("tree", ("rs", "t-rs", "rs-tu"))
    t = TREES[name]
    sys_ = System(ctx, t, [HJ, NL])
    m, r = model(db=sys_), Ref(0.5)
    q = query_of(t)
    ops, cs = {j: NL for j in joins(t)}, draw_costs(ctx, t)
    m.integrate_cost(q, plan_of(t, ops, cs))
    r.add(t, ops, cs)
    kind = ctx.pick("kind", ("native", "feedback"))
    if kind == "native":
        m.integrate_cost(q)
    else:
        m.simulate_feedback(q)
        ctx.check(sys_.analyzed == [q] and [e[0].actual for e in sys_.log] == [True], "feedback uses the true cardinalities", key=name)
    ctx.check(len(sys_.log) == 1, "one plan is requested", key=name + kind)
    r.add(t, sys_.log[-1][2], sys_.log[-1][3])
    order = ctx.pick("order", ("given", "none", "empty"))
    out = m.select_physical_operators(q, tree_of(t) if order == "given" else None if order == "none" else JoinTree.empty() if hasattr(JoinTree, "empty") else JoinTree())
    r.check(ctx, t, out, kind, name + order)
    ctx.reach(kind)


def harnesses(tier):
    t = tier == "thorough"
    H = lambda n, b, bounds, reach=("done",): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    all_ = tuple(TREES)
    return [H("history", history(2, ("rst", "t-rs", "srt", "rts", "rs-tu", "tu-rs", "rstu", "rst-uv") if not t else all_, all_, gammas=(0.5, 0.0, 1.0) if t else (0.5,)), "histories of 2 plans, 13 join trees of up to 6 tables; all costs", ("some", "none")),
            H("repeated", repeated(4 if t else 3), f"histories of {4 if t else 3} plans for the same join order, 3 operators, 3 decay factors; all costs"),
            H("mixed", mixed, "histories of 2 plans with arbitrary combinations of 2 operators"),
            H("auxiliary", auxiliary, "13 join trees x 5 kinds of auxiliary nodes"),
            H("normalized", normalized, "4 join trees x aliases x filters", ("aware", "unaware")),
            H("self", self_joins, "self joins of a single table"),
            H("stored", stored(t), f"{5 if t else 3} join trees, 2 plans before and up to 1 plan after the model is restored", ("none", "same", "new")),
            H("explore", explore(False), "join trees of up to 4 tables x sets of operators"),
            H("sampled", explore(True), "join trees of up to 3 tables x sets of operators; all random numbers"),
            H("feedback", feedback, "3 join trees", ("native", "feedback"))] + ([H("history3", history(3, ("rst", "t-rs", "rs-tu", "tu-rs"), ("rst", "rs-tu", "rs-tu-v"), gammas=(0.5,)), "histories of 3 plans", ("some", "none"))] if t else [])
