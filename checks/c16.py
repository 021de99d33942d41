"""C16: operator assignments keep exactly what was assigned, and the last assignment wins."""
import math

from vx import jsonx
from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Iff, Not, Shadow

import postbound._hints as H
from postbound import TableReference
from postbound._core import IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._hints import DirectionalJoinOperatorAssignment as DJ, JoinOperatorAssignment as JA, PhysicalOperatorAssignment as PA, PlanParameterization, ScanOperatorAssignment as SA
from postbound.opt._helpers import read_operator_assignment_json, read_operator_json

LEVEL = "model_checking"
ASSUMPTIONS = ["numbers of workers are arbitrary non-negative integers or unset", "three tables; three operators per kind"]
SH = Shadow({H: NUM_SHADOW})
F = ["PhysicalOperatorAssignment." + x for x in ("get_globally_enabled_operators", "set_operator_enabled_globally", "set_join_operator", "set_scan_operator", "set_intermediate_operator", "add", "set",
     "merge_with", "integrate_workers_from", "global_settings_only", "clone", "get", "__json__", "__bool__", "__iter__", "__contains__", "__getitem__", "__hash__", "__eq__", "__str__")] + [
    "ScanOperatorAssignment", "JoinOperatorAssignment", "DirectionalJoinOperatorAssignment", "read_operator_assignment_json", "read_operator_json"]

R, S, T = TableReference("r", "r1"), TableReference("s", schema="pub"), TableReference("t")
SUBS = [frozenset(x) for x in ([R], [S], [T], [R, S], [R, T], [S, T], [R, S, T])]
JOINS = SUBS[3:]


class Op:
    """reference for an assigned operator; workers None: unset"""

    def __init__(self, op, tabs, workers=None, direction=None):
        self.op, self.tabs, self.workers, self.direction = op, tabs, workers, direction

    def real(self):
        kw = {} if self.workers is None else {"parallel_workers": self.workers}
        if isinstance(self.op, SO):
            return SA(self.op, next(iter(self.tabs)), **kw)
        return JA(self.op, self.tabs, **kw) if self.direction is None else DJ(self.op, outer=self.direction[0], inner=self.direction[1], **kw)


def unset(w):
    return w is None or (isinstance(w, float) and w != w)


def matches(a, r):
    """the assignment object a is what r describes"""
    if a is None or a.operator is not r.op:
        return False
    if isinstance(r.op, SO):
        ok = type(a) is SA and frozenset([a.table]) == r.tabs
    elif r.direction is None:
        ok = type(a) is JA and a.join == r.tabs and a.intermediate == r.tabs and not a.is_directional()
    else:
        ok = type(a) is DJ and a.join == r.tabs and (a.outer, a.inner) == r.direction and a.is_directional()
    return ok and (unset(a.parallel_workers) if r.workers is None else not unset(a.parallel_workers) and a.parallel_workers == r.workers)


class Model:
    def __init__(self, g=(), n=(), i=()):
        self.g, self.n, self.i = dict(g), dict(n), dict(i)  # global settings, scans and joins by tables, intermediate operators

    def copy(self):
        return Model(self.g, self.n, self.i)

    def merge(self, o):
        return Model({**self.g, **o.g}, {**self.n, **o.n}, {**self.i, **o.i})

    def real(self, rev=False):
        a = PA()
        for d, f in ((self.g, lambda k, v: a.set(k, v)), (self.n, lambda k, v: a.add(v.real())), (self.i, lambda k, v: a.set_intermediate_operator(v, k))):
            for k in (list(d)[::-1] if rev else list(d)):
                f(k, d[k])
        return a


def compare(ctx, a, m, what):
    g, n, i = dict(a.global_settings), {frozenset([k]): v for k, v in a.scan_operators.items()} | dict(a.join_operators), dict(a.intermediate_operators)
    ctx.check(set(g) == set(m.g) and set(n) == set(m.n) and i == m.i, f"{what}: exactly the assigned operators")
    for k in m.g:
        ctx.check(Iff(g[k], m.g[k]), f"{what}: global settings")
    for k in m.n:
        ctx.check(matches(n[k], m.n[k]), f"{what}: operators")


def observe(ctx, a, m):
    compare(ctx, a, m, "assignment")
    ctx.check(bool(a) == bool(m.g or m.n or m.i), "truth value")
    it = list(a)
    ctx.check(len(it) == len(m.n) and {frozenset([x.table]) if isinstance(x, SA) else x.join for x in it} == set(m.n), "iteration over scans and joins")
    for s in SUBS:
        exp = m.n.get(s)
        for key in [s, list(s), tuple(s)] + ([next(iter(s))] if len(s) == 1 else []):
            got, dflt = a.get(key), a.get(key, "none")
            ctx.check(matches(got, exp) if exp else got is None and dflt == "none", "get()")
            ctx.check((key in a) == (exp is not None), "containment")
            if not (len(s) == 1 and not isinstance(key, TableReference)):
                item = a[key]
                ctx.check(matches(item, exp) if exp else item is None, "item access")
    for op in (SO.SequentialScan, SO.IndexScan, JO.HashJoin, JO.NestedLoopJoin, IO.Memoize):
        ctx.check(a[op] is None if op not in m.g else a[op] is not None and Iff(a[op], m.g[op]), "item access for operators")
    for dflt in (True, False):
        on = a.get_globally_enabled_operators(dflt)
        for kind in (SO, JO, IO):
            for op in kind:
                ctx.check(Iff(op in on, m.g.get(op, dflt)), "globally enabled operators")
    str(a), a.inspect(), repr(a)


def scanop(ctx, n):
    return ctx.pick(n, [SO.SequentialScan, SO.IndexScan])


def assignment(ctx, n):
    """(real object, Op)"""
    w = ctx.int(n + ".workers", 0, 64) if ctx.choose(n + ".hasworkers", 2) else None
    k = ctx.pick(n + ".kind", ["scan", "join", "directional"])
    if k == "scan":
        o = Op(scanop(ctx, n + ".op"), ctx.pick(n + ".tab", SUBS[:2]), w)
    elif k == "join":
        o = Op(ctx.pick(n + ".op", [JO.HashJoin, JO.NestedLoopJoin]), ctx.pick(n + ".tabs", [SUBS[3], SUBS[6]]), w)
    else:
        d = ctx.pick(n + ".dir", [(SUBS[0], SUBS[1]), (SUBS[1], SUBS[0]), (SUBS[3], SUBS[2])])
        o = Op(JO.HashJoin, d[0] | d[1], w, d)
    return o.real(), o


def step(ctx, a, m, n):
    """one operation on the assignment and its model"""
    k = ctx.pick(n, ["add", "plain", "inter", "global", "merge", "workers", "only"])
    if k == "add":
        x, o = assignment(ctx, n)
        ret = ctx.pick(n + ".how", [a.add, a.set_scan_operator if isinstance(o.op, SO) else a.set_join_operator])(x)
        m.n[o.tabs] = o
        ctx.check(ret is a, "the assignment is returned")
    elif k == "plain":
        if ctx.choose(n + ".scan", 2):
            op, t = scanop(ctx, n + ".op"), ctx.pick(n + ".tab", SUBS[:2])
            arg = ctx.pick(n + ".form", [next(iter(t)), [next(iter(t))]])
            (a.add if ctx.choose(n + ".how", 2) else a.set_scan_operator)(op, arg)
            m.n[t] = Op(op, t)
        else:
            op, t = ctx.pick(n + ".op", [JO.HashJoin, JO.NestedLoopJoin]), SUBS[3]
            (a.add if ctx.choose(n + ".how", 2) else a.set_join_operator)(op, ctx.pick(n + ".form", [list(t), t]))
            m.n[t] = Op(op, t)
    elif k == "inter":
        op, t = ctx.pick(n + ".op", [IO.Materialize, IO.Memoize]), ctx.pick(n + ".tabs", [SUBS[0], SUBS[3]])
        if ctx.choose(n + ".how", 2):
            a.add(op, next(iter(t)) if len(t) == 1 else t)
        else:
            a.set_intermediate_operator(op, t)
        m.i[t] = op
    elif k == "global":
        op, on = ctx.pick(n + ".op", [SO.SequentialScan, JO.HashJoin, IO.Materialize]), ctx.bool(n + ".on")
        over = ctx.choose(n + ".over", 2)
        if over:
            a.set_operator_enabled_globally(op, on, overwrite_fine_grained_selection=True)
        else:
            (a.set if ctx.choose(n + ".how", 2) else a.set_operator_enabled_globally)(op, on)
        m.g[op] = on
        if over and not on:
            m.n, m.i = {t: o for t, o in m.n.items() if o.op != op}, {t: o for t, o in m.i.items() if o != op}
    elif k == "merge":
        x, o = assignment(ctx, n)
        on = ctx.bool(n + ".on")
        other = Model({JO.HashJoin: on}, {o.tabs: o}, {SUBS[0]: IO.Memoize})
        b = other.real()
        if ctx.choose(n + ".first", 2):
            r, mm = b.merge_with(a), other.merge(m)
        else:
            r, mm = a.merge_with(b), m.merge(other)
        compare(ctx, a, m, "merge_with keeps its inputs")
        compare(ctx, b, other, "merge_with keeps its inputs")
        a, m = r, mm
    elif k == "workers":
        p, upd = PlanParameterization(), {}
        for j in range(2):
            t, w = ctx.pick(f"{n}.tabs{j}", [SUBS[0], SUBS[3], SUBS[6]]), ctx.int(f"{n}.w{j}", 1, 64)
            p.set_workers(t, w)
            upd[t] = w
        missing = any(t not in m.n for t in upd)
        strict = ctx.choose(n + ".strict", 2)
        try:
            r = a.integrate_workers_from(p, fail_on_missing=bool(strict))
        except ValueError:
            ctx.check(strict and missing, "integrating workers fails only on request")
            return a, m
        ctx.check(not (strict and missing), "missing operators are reported on request")
        compare(ctx, a, m, "integrate_workers_from keeps its input")
        a, m = r, Model(m.g, {t: Op(o.op, o.tabs, upd.get(t, o.workers), o.direction) for t, o in m.n.items()}, m.i)
    else:
        r = a.global_settings_only()
        r.set(JO.SortMergeJoin, False)
        compare(ctx, a, m, "global_settings_only is independent")
        a, m = r, Model({**m.g, JO.SortMergeJoin: False})
    ctx.reach(k)
    return a, m


def history(n, keep=None):
    def body(ctx):
        a, m = PA(), Model()
        for j in range(n):
            a, m = step(ctx, a, m, f"s{j}")
        observe(ctx, a, m)
        c = a.clone()
        ctx.check(c == a and hash(c) == hash(a), "a clone is equal")
        c.add(SA(SO.BitmapScan, T)).set(JO.SortMergeJoin, True).set_intermediate_operator(IO.Sort, SUBS[6])
        compare(ctx, a, m, "a clone is independent")
        ctx.check(c != a, "different assignments are not equal")
    return body


def slot(ctx, m, k):
    """fill slot k of the model with anything (or nothing)"""
    if not ctx.choose(f"s{k}", 2):
        return
    if k == 0:
        m.g[ctx.pick("gop", [SO.IndexScan, IO.Sort])] = ctx.bool("on")
    elif k == 3:
        m.i[ctx.pick("itab", [SUBS[0], SUBS[3]])] = IO.Materialize if ctx.choose("iop", 2) else IO.Memoize
    else:
        w = ctx.int(f"w{k}", 0, 64) if ctx.choose(f"hw{k}", 2) else None
        o = Op(scanop(ctx, "sop"), SUBS[0], w) if k == 1 else Op(JO.HashJoin, SUBS[3], w, ctx.pick("dir", [None, (SUBS[0], SUBS[1]), (SUBS[1], SUBS[0])]))
        m.n[o.tabs] = o


def content(ctx, base=None):
    """an arbitrary assignment: every slot is empty or has any operator; with a base: one of its slots is filled again"""
    m = Model()
    if base is None:
        for k in range(4):
            slot(ctx, m, k)
        return m
    k = ctx.choose("again", 4)
    m = base.copy()
    [m.g, m.n, m.n, m.i][k].clear() if k in (0, 3) else m.n.pop(SUBS[0] if k == 1 else SUBS[3], None)
    slot(ctx, m, k)
    return m


def same(a, b):
    """models describe the same assignment (a condition)"""
    if set(a.g) != set(b.g) or set(a.n) != set(b.n) or a.i != b.i:
        return False
    c = [Iff(a.g[k], b.g[k]) for k in a.g]
    for k in a.n:
        x, y = a.n[k], b.n[k]
        c.append(x.op is y.op and x.direction == y.direction and (x.workers is None) == (y.workers is None) and (x.workers is None or x.workers == y.workers))
    return And(True, *c)


def equality(ctx):
    a = content(ctx)
    b = content(ctx, a)
    x, y = a.real(), b.real(rev=True)
    ctx.check(Iff(x == y, same(a, b)), "equal iff all assignments are the same")
    if x == y:
        ctx.check(hash(x) == hash(y), "equal assignments have equal hashes")
        ctx.reach("equal")
    else:
        ctx.reach("different")


def single(ctx):
    """equality, hashes and JSON of single assignments"""
    (x, a), (y, b) = assignment(ctx, "a"), assignment(ctx, "b")
    eq = same(Model(n={a.tabs: a}), Model(n={b.tabs: b}))
    ctx.check(Iff(x == y, eq) and Iff(y == x, eq), "equal iff same operator, tables, direction and workers")
    if x == y:
        ctx.check(hash(x) == hash(y), "equal assignments have equal hashes")
        ctx.reach("equal")
    got = read_operator_json(jsonx.roundtrip(ctx, x))
    ctx.check(matches(got, a), "JSON round trip of an assignment")
    ctx.check(got == x and hash(got) == hash(x), "JSON round trip yields an equal assignment")
    str(x), x.inspect(), repr(x)


def json(ctx):
    m = content(ctx)
    got = read_operator_assignment_json(jsonx.roundtrip(ctx, m.real()))
    compare(ctx, got, m, "JSON round trip")
    ctx.check(got == m.real(), "JSON round trip yields an equal assignment")
    for op in list(SO) + list(JO) + list(IO):
        ctx.check(read_operator_json(op.value) is op, "JSON round trip of operators")
    ctx.check(read_operator_json("") is None and read_operator_json(None) is None, "no operator")


def invalid(ctx):
    k = ctx.choose("k", 4)
    try:
        [lambda: JA(JO.HashJoin, [R]), lambda: DJ(JO.HashJoin, [], [R, S]), lambda: DJ(JO.HashJoin, [R, S], []), lambda: PA().add("seq", [R])][k]()
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "invalid assignments are rejected")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("history", history(3 if t else 2), f"all sequences of {3 if t else 2} operations; numbers of workers and flags symbolic", ["add", "plain", "inter", "global", "merge", "workers", "only"]),
            Hn("equality", equality, "all assignments with up to 1 global, 2 plan and 1 intermediate operators, paired with all that differ in one of these", ["equal", "different"]),
            Hn("single", single, "all pairs of single assignments", ["equal"]),
            Hn("json", json, "all assignments with up to 4 operators"), Hn("invalid", invalid, "4 invalid assignments")]
