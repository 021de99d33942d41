"""C17: plan parameters keep exactly what was set, and the last setting wins."""
from vx import jsonx
from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Shadow, SymFloat

import postbound._core as core
from postbound import TableReference
from postbound._core import Cardinality
from postbound._hints import PlanParameterization as PP
from postbound.opt._helpers import read_plan_params_json

LEVEL = "model_checking"
ASSUMPTIONS = ["cardinalities are arbitrary non-negative numbers, infinite or unknown; numbers of workers and values of settings are arbitrary integers", "three tables, two settings"]
SH = Shadow({core: {k: v for k, v in NUM_SHADOW.items() if k != "hash"}})
F = ["PlanParameterization." + x for x in ("add_cardinality", "set_workers", "set_system_settings", "merge_with", "drop_workers", "__json__", "__str__", "inspect")] + ["read_plan_params_json"]
R, S, T = TableReference("r", "r1"), TableReference("s", schema="pub"), TableReference("t")
SUBS = [frozenset(x) for x in ([R], [R, S], [R, S, T])]


class Model:
    def __init__(self, c=(), w=(), s=(), mode=None):
        self.c, self.w, self.s, self.mode = dict(c), dict(w), dict(s), mode

    def copy(self):
        return Model(self.c, self.w, self.s, self.mode)

    def merge(self, o):
        return Model({**self.c, **o.c}, {**self.w, **o.w}, {**self.s, **o.s}, o.mode if o.mode is not None else self.mode)


def card(ctx, n):
    """(argument, extended number)"""
    k = ctx.pick(n, ["int", "real", "inf", "nan", "Cardinality"])
    if k == "Cardinality":
        v = ctx.int(n + "v", 0, 1000)
        return Cardinality(v), v
    if k == "int":
        v = ctx.int(n + "v", 0, 1000)
        return v, v
    if k == "real":
        v = ctx.real(n + "v", 0, 1000)
        return v, round(v)
    return float(k), float(k)


def samecard(a, e):
    if not isinstance(a, Cardinality):
        return False
    if not isinstance(e, SymFloat) and e != e:
        return a.isnan()
    if e == float("inf"):
        return a.isinf()
    return And(a.is_valid(), a.value == e)


def compare(ctx, p, m, what):
    ctx.check(set(p.cardinalities) == set(m.c) and set(p.parallel_workers) == set(m.w) and set(p.system_settings) == set(m.s), f"{what}: exactly the given parameters")
    for k, v in m.c.items():
        ctx.check(samecard(p.cardinalities[k], v), f"{what}: cardinalities")
    for k, v in m.w.items():
        ctx.check(p.parallel_workers[k] == v, f"{what}: workers")
    for k, v in m.s.items():
        ctx.check(p.system_settings[k] == v, f"{what}: settings")
    ctx.check(p.execution_mode == m.mode, f"{what}: execution mode")
    str(p), repr(p), p.inspect()


def step(ctx, p, m, n):
    k = ctx.pick(n, ["card", "workers", "setting", "mode", "merge", "drop", "json"])
    ctx.reach(k)
    if k == "card":
        t, (a, v) = ctx.pick(n + "t", SUBS[:2]), card(ctx, n)
        ctx.check(p.add_cardinality(ctx.pick(n + "f", [t, list(t)]), a) is p, "returns itself")
        m.c[t] = v
    elif k == "workers":
        t, w = ctx.pick(n + "t", SUBS[:2]), ctx.int(n + "w", 0, 64)
        ctx.check(p.set_workers(ctx.pick(n + "f", [t, list(t)]), w) is p, "returns itself")
        m.w[t] = w
    elif k == "setting":
        a, b = ctx.int(n + "a"), ctx.int(n + "b")
        f = ctx.choose(n + "f", 4)
        if f < 2:
            x = ["geqo", "work mem"][f]
            p.set_system_settings(x, a)
            m.s[x] = a
        else:
            p.set_system_settings(**({"geqo": a, "jit": b} if f == 2 else {"geqo": b}))
            m.s.update({"geqo": a, "jit": b} if f == 2 else {"geqo": b})
    elif k == "mode":
        p.execution_mode = m.mode = ctx.pick(n + "m", [None, "sequential", "parallel"])
    elif k == "merge":
        o = Model({SUBS[0]: ctx.int(n + "c", 0, 1000)}, {SUBS[1]: ctx.int(n + "w", 0, 64)}, {"geqo": ctx.int(n + "g")}, ctx.pick(n + "m", [None, "parallel"]))
        q = PP()
        for t, v in o.c.items():
            q.add_cardinality(t, v)
        for t, v in o.w.items():
            q.set_workers(t, v)
        q.set_system_settings(**o.s)
        q.execution_mode = o.mode
        r, mm = (q.merge_with(p), o.merge(m)) if ctx.choose(n + "o", 2) else (p.merge_with(q), m.merge(o))
        probe = r.merge_with(PP())
        r.add_cardinality(SUBS[2], 7).set_workers(SUBS[2], 2).set_system_settings(x=1)
        compare(ctx, p, m, "merge_with keeps its inputs")
        compare(ctx, q, o, "merge_with keeps its inputs")
        p, m = probe, mm
    elif k == "drop":
        r = p.drop_workers()
        probe = r.drop_workers()
        r.add_cardinality(SUBS[2], 7).set_workers(SUBS[2], 2).set_system_settings(x=1)
        compare(ctx, p, m, "drop_workers provides a copy")
        p, m = probe, Model(m.c, {}, m.s, m.mode)
    else:
        p = read_plan_params_json(jsonx.roundtrip(ctx, p))
    return p, m


def history(n):
    def body(ctx):
        p, m = PP(), Model()
        for j in range(n):
            p, m = step(ctx, p, m, f"s{j}")
        compare(ctx, p, m, "parameters")
    return body


def invalid(ctx):
    k = ctx.choose("k", 2)
    try:
        [lambda: PP().set_system_settings("a", 1, b=2), lambda: PP().set_system_settings()][k]()
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "ambiguous settings are rejected")


def harnesses(tier):
    n = 4 if tier == "thorough" else 3
    return [Harness("history", history(n), shadow=SH, functions=F, bounds=f"all sequences of {n} operations; all numbers symbolic",
                    must_reach=["card", "workers", "setting", "mode", "merge", "drop", "json"]),
            Harness("invalid", invalid, shadow=SH, functions=F, bounds="2 invalid calls")]
