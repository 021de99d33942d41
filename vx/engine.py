"""Path-exploring symbolic executor.

A *harness* is a Python function ``body(ctx)`` which calls the real code of /repo.  In symbolic mode ``ctx`` hands out
proxy values which carry z3 terms; whenever the code under test needs a concrete truth value, the engine asks the solver
which outcomes are feasible, takes one and schedules the other (DFS by re-execution).  ``ctx.check`` hands the negated
assertion to the solver under the path condition.  In concrete mode the very same body is executed on plain Python values
taken from a solver model; this is how each counterexample is replayed, and how path witnesses are cross-checked.
"""
from __future__ import annotations

import time
import traceback
from fractions import Fraction

import z3


class PathAbort(BaseException):
    """The current path is infeasible / excluded by an assumption."""


class Inconclusive(BaseException):
    """The solver (or the engine) could not decide something."""


class ReplayMismatch(BaseException):
    """Re-execution took a different turn."""


class CheckFailed(BaseException):
    """Concrete mode: an assertion does not hold."""

    def __init__(self, label, info):
        super().__init__(label)
        self.label, self.info = label, info


CURRENT = None  # the active symbolic context


class Stats:
    FIELDS = ("paths", "branches", "queries", "checks", "discharged", "witnesses", "unknown", "aborted")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reached = {}
        self.samples = []

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:6]


def _z(x):
    from . import sym
    return sym.to_bool_term(x)


class BaseCtx:
    symbolic = False

    # --- to be provided: int/real/bool/atom/choose/assume/check
    def pick(self, name, options):
        return options[self.choose(name, len(options))]


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.trail = []
        self.decided = {}
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.query_timeout_ms)
        self.inputs = {}  # name -> (kind, term, meta)
        self.names = {}
        self.observations = []
        self.tags = []
        self.soft = []

    # ---- inputs
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def int(self, name, lo=None, hi=None):
        from . import sym
        name = self._name(name)
        t = z3.Int(name)
        self.inputs[name] = ("int", t, None)
        if lo is not None:
            self.solver.add(t >= lo)
        if hi is not None:
            self.solver.add(t <= hi)
        return sym.SymInt(t)

    def real(self, name, lo=None, hi=None):
        from . import sym
        name = self._name(name)
        t = z3.Real(name)
        self.inputs[name] = ("real", t, None)
        if lo is not None:
            self.solver.add(t >= lo)
        if hi is not None:
            self.solver.add(t <= hi)
        self.soft += [z3.IsInt(t), t <= 4096, t >= -4096]
        return sym.SymFloat.finite(t)

    def bool(self, name):
        from . import sym
        name = self._name(name)
        t = z3.Bool(name)
        self.inputs[name] = ("bool", t, None)
        return sym.SymBool(t)

    def atom(self, name):
        from . import sym
        name = self._name(name)
        t = z3.Int(name)
        self.inputs[name] = ("atom", t, None)
        self.solver.add(t >= 0)
        return sym.SymAtom.make(t)

    def str(self, name, length, alphabet_pred=None, lo=0, hi=0x10FFFF):
        from . import sym
        name = self._name(name)
        chars = []
        for i in range(length):
            c = z3.Int(f"{name}[{i}]")
            self.inputs[f"{name}[{i}]"] = ("int", c, None)
            self.solver.add(c >= lo, c <= hi, z3.Or(c < 0xD800, c > 0xDFFF))
            if alphabet_pred is not None:
                self.solver.add(alphabet_pred(c))
            chars.append(c)
        return sym.SymStr.make(chars)

    def choose(self, name, n):
        """Pick an integer in [0, n); explored exhaustively as a solver-feasible branch."""
        if n <= 0:
            raise PathAbort()
        name = self._name(name)
        # a fresh, unconstrained input in [0, n): every value is feasible on every feasible path
        i = len(self.trail)
        if n == 1:
            v = 0
        elif i < len(self.prefix):
            kind, v, h = self.prefix[i]
            if kind != "c" or h != name:
                raise ReplayMismatch(f"choice #{i} {name}")
            self.trail.append(self.prefix[i])
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.alternatives.append(self.trail + [("c", alt, name)])
            self.engine.stats.branches += 1
            self.trail.append(("c", 0, name))
        self.inputs[name] = ("const", v, None)
        return v

    # ---- path handling
    def _check(self, *assumptions):
        st = self.engine.stats
        st.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        st.solver_s += time.perf_counter() - t0
        return r

    def concretize(self, t, n=None):
        """Fork over the feasible values of an integer term (all of them)."""
        i = len(self.trail)
        if i < len(self.prefix):
            kind, v, h = self.prefix[i]
            if kind != "v" or h != t.hash():
                raise ReplayMismatch(f"value decision #{i}")
            self.trail.append(self.prefix[i])
            self.solver.add(t == v)
            return v
        vals = []
        if n is not None:
            for v in range(n):
                r = self._check(t == v) if self.trail or i == 0 else z3.sat
                if r != z3.unsat:
                    vals.append(v)
        else:
            self.solver.push()
            while True:
                r = self._check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Inconclusive("concretize")
                v = self.solver.model().eval(t, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(t != v)
                if len(vals) > self.engine.max_fanout:
                    raise Inconclusive("fan-out too large")
            self.solver.pop()
            vals.sort()
        if not vals:
            raise PathAbort()
        h = t.hash()
        for v in reversed(vals[1:]):
            self.alternatives.append(self.trail + [("v", v, h)])
        self.engine.stats.branches += 1
        self.trail.append(("v", vals[0], h))
        self.solver.add(t == vals[0])
        return vals[0]

    def branch(self, cond) -> bool:
        """the truth of cond on this path; every condition is decided once per path"""
        k = cond.get_id()
        if k not in self.decided:
            self.decided[k] = (self._branch(cond), cond)
        return self.decided[k][0]

    def _branch(self, cond) -> bool:
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trail)
        h = cond.hash()
        if i < len(self.prefix):
            kind, v, ph = self.prefix[i]
            if kind != "b" or ph != h:
                raise ReplayMismatch(f"branch decision #{i}")
            self.trail.append(self.prefix[i])
            if v[1]:
                self.solver.add(c if v[0] else z3.Not(c))
            return v[0]
        rt = self._check(c)
        rf = self._check(z3.Not(c)) if rt != z3.unsat else z3.sat
        if z3.unknown in (rt, rf):
            self.engine.stats.unknown += 1
        t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
        if t_ok and f_ok:
            self.engine.stats.branches += 1
            self.alternatives.append(self.trail + [("b", (False, True), h)])
            self.trail.append(("b", (True, True), h))
            self.solver.add(c)
            if len(self.trail) > self.engine.max_depth:
                raise Inconclusive("path too deep")
            return True
        v = t_ok
        self.trail.append(("b", (v, False), h))
        return v

    def assume(self, cond):
        c = _z(cond)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.solver.add(c)
        if self._check() == z3.unsat:
            raise PathAbort()

    # ---- assertions
    def check(self, cond, label, **info):
        st = self.engine.stats
        st.checks += 1
        c = _z(cond)
        if c is True:
            st.discharged += 1
            return
        if c is False:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Inconclusive(f"path feasibility at {label}")
            self._report(label, info, [])
            raise PathAbort()
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            raise Inconclusive(f"check {label}")
        self._report(label, info, [z3.Not(c)])
        self.solver.add(c)
        if self._check() == z3.unsat:
            raise PathAbort()

    def reach(self, label):
        self.engine.stats.reached[label] = self.engine.stats.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.observations.append((label, value))

    def model_values(self, extra=()):
        """A model of the path, preferring integral reals of small magnitude."""
        r = z3.unknown
        if self.soft:
            r = self._check(*(list(extra) + self.soft))
            if r != z3.sat:
                r = self._check(*(list(extra) + [s for s in self.soft if s.decl().kind() == z3.Z3_OP_IS_INT]))
        if r != z3.sat:
            r = self._check(*extra)
        if r != z3.sat:
            return None
        m = self.solver.model()
        out = {}
        for name, (kind, t, _) in self.inputs.items():
            if kind == "const":
                out[name] = t
                continue
            v = m.eval(t, model_completion=True)
            if kind in ("int", "atom"):
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = z3.is_true(v)
            elif kind == "real":
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = [v.numerator_as_long(), v.denominator_as_long()]
        self._last_model = m
        return out

    def _report(self, label, info, extra):
        vals = self.model_values(extra)
        if vals is None:
            raise Inconclusive(f"no model for {label}")
        key = info.get("key", "")
        self.engine.candidates.append({"label": label, "inputs": vals, "info": {"key": str(key)}})


class ConcreteCtx(BaseCtx):
    """Runs a harness on plain Python values."""

    symbolic = False

    def __init__(self, values):
        self.values = values
        self.names = {}
        self.observations = []
        self.failures = []
        self.reached = {}

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _get(self, name, default=0):
        return self.values.get(name, default)

    def int(self, name, lo=None, hi=None):
        v = self._get(self._name(name), lo if lo is not None else 0)
        return v

    def real(self, name, lo=None, hi=None):
        v = self._get(self._name(name), [lo or 0, 1])
        f = Fraction(v[0], v[1])
        return float(f)

    def bool(self, name):
        return bool(self._get(self._name(name), False))

    def atom(self, name):
        return atom_name(self._get(self._name(name), 0))

    def str(self, name, length, alphabet_pred=None, lo=0, hi=0x10FFFF):
        name = self._name(name)
        return "".join(chr(self._get(f"{name}[{i}]", lo)) for i in range(length))

    def choose(self, name, n):
        if n <= 0:
            raise PathAbort()
        v = self._get(self._name(name), 0)
        return v if n > 1 else 0

    def assume(self, cond):
        if z3.is_expr(cond) or type(cond).__name__ == "SymBool":
            cond = not decide_valid(z3.Not(_z3(cond)))
        if not cond:
            raise PathAbort()

    def check(self, cond, label, **info):
        if z3.is_expr(cond) or type(cond).__name__ == "SymBool":
            cond = decide_valid(cond)
        if not cond:
            self.failures.append((label, info))
            raise CheckFailed(label, info)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.observations.append((label, value))


def _z3(c):
    return c if z3.is_expr(c) else c.t


def decide_valid(cond):
    """Concrete inputs, but uninterpreted functions are left: holds for each of their interpretations?"""
    c = z3.simplify(_z3(cond))
    if z3.is_true(c):
        return True
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(z3.Not(c))
    r = s.check()
    if r == z3.unknown:
        raise Inconclusive("concrete replay")
    return r == z3.unsat


def quick_valid(cond, timeout=3000):
    """z3's verdict on the validity of cond (False also stands for "unknown"); counted like every other query"""
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(z3.Not(cond))
    t0 = time.perf_counter()
    r = s.check()
    if CURRENT is not None:
        CURRENT.engine.stats.queries += 1
        CURRENT.engine.stats.solver_s += time.perf_counter() - t0
    return r == z3.unsat


def atom_name(v):
    return f"nm{v:06d}"


class Engine:
    def __init__(self, harness, *, max_paths=200000, max_depth=4000, max_fanout=4096, query_timeout_ms=20000,
                 deadline=None, witness_every=1, max_witness=40):
        self.h = harness
        self.stats = Stats()
        self.candidates = []
        self.violations = []
        self.inconclusive = []
        self.max_paths, self.max_depth, self.max_fanout = max_paths, max_depth, max_fanout
        self.query_timeout_ms = query_timeout_ms
        self.deadline = deadline
        self.max_witness = max_witness
        self._seen_viol = {}

    # -- run one path; returns the alternative prefixes
    def run_path(self, prefix):
        global CURRENT
        ctx = SymCtx(self, prefix)
        self.candidates = []
        status = "ok"
        err = None
        CURRENT = ctx
        try:
            self.h.enter(ctx)
            try:
                self.h.body(ctx)
            finally:
                self.h.leave(ctx)
        except PathAbort:
            status = "abort"
        except (Inconclusive, ReplayMismatch) as e:
            status = "inconclusive"
            self.inconclusive.append(f"{self.h.name}: {type(e).__name__}: {e}")
        except Exception as e:  # the code under test raised
            status = "raise"
            err = e
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename.split('/')[-1]}:{f.name}" for f in reversed(tb) if "/postbound/" in f.filename), "?")
            vals = ctx.model_values() if ctx._check() != z3.unsat else None
            if vals is not None:
                self.candidates.append({"label": f"raises:{type(e).__name__}", "inputs": vals,
                                        "info": {"error": f"{type(e).__name__}: {e}", "where": where,
                                                 "tb": "".join(traceback.format_exception(e))[-1500:]}})
        finally:
            CURRENT = None
        st = self.stats
        if status == "abort":
            st.aborted += 1
        else:
            st.paths += 1
        # witness cross-check
        vals = None
        if status == "ok" and not self.candidates and st.witnesses < self.max_witness:
            vals = ctx.model_values()
        for cand in self.candidates:
            self._confirm(cand)
        if vals is not None:
            self._witness(vals, ctx)
        return ctx.alternatives

    def _confirm(self, cand):
        sig = (self.h.name, cand["label"], self.h.signature(cand))
        if sig in self._seen_viol:
            return
        res = replay(self.h, cand["inputs"])
        if res is None:
            self.inconclusive.append(f"{self.h.name}: counterexample for {cand['label']} does not replay: "
                                     f"{cand['inputs']} {cand['info']}")
            return
        self._seen_viol[sig] = True
        label, info = res
        self.violations.append({"harness": self.h.name, "label": label, "sym_label": cand["label"],
                                "inputs": cand["inputs"], "info": {k: str(v) for k, v in info.items()}})

    def _witness(self, vals, ctx):
        try:
            c = ConcreteCtx(vals)
            self.h.body(c)
        except PathAbort:
            return  # rounding / witness not representable
        except CheckFailed as e:
            if self.h.strict_witness:
                self.violations.append({"harness": self.h.name, "label": e.label, "sym_label": "witness",
                                        "inputs": vals, "info": {k: str(v) for k, v in e.info.items()}})
            else:
                self.inconclusive.append(f"{self.h.name}: path witness fails concretely ({e.label}): {vals} {e.info}")
            return
        except Exception as e:
            self.inconclusive.append(f"{self.h.name}: path witness raises concretely {type(e).__name__}: {e}: {vals} "
                                     + "".join(traceback.format_exception(e))[-600:])
            return
        # compare observations
        for (l1, v1), (l2, v2) in zip(ctx.observations, c.observations):
            from . import sym
            e1 = sym.eval_under(ctx._last_model, v1)
            if l1 != l2 or not sym.same(e1, v2):
                self.inconclusive.append(f"{self.h.name}: encoding mismatch at {l1}: symbolic {e1!r} vs real {v2!r} on {vals}")
                return
        self.stats.witnesses += 1
        if len(self.stats.samples) < 3:
            self.stats.samples.append({"harness": self.h.name, "inputs": {k: v for k, v in list(vals.items())[:24]}})

    def explore(self, frontier=None, *, breadth_limit=None, max_violations=3):
        """DFS; returns the remaining frontier if stopped early by breadth_limit."""
        work = list(frontier) if frontier is not None else [[]]
        while work:
            if breadth_limit is not None and len(work) >= breadth_limit:
                return work
            if self.deadline is not None and time.time() > self.deadline:
                self.inconclusive.append(f"{self.h.name}: deadline reached with {len(work)} open paths")
                return work
            if self.stats.paths + self.stats.aborted >= self.max_paths:
                self.inconclusive.append(f"{self.h.name}: path limit {self.max_paths} reached")
                return work
            prefix = work.pop(0) if breadth_limit is not None else work.pop()
            alts = self.run_path(prefix)
            work.extend(alts)
            if len(self.violations) >= max_violations and self.h.stop_early:
                return []
        return []


class Harness:
    """name, body, and how to prepare the modules under test."""

    def __init__(self, name, body, *, shadow=None, functions=(), bounds="", stop_early=True, strict_witness=False,
                 must_reach=(), options=None):
        self.name, self.body = name, body
        self.shadow = shadow
        self.functions = list(functions)
        self.bounds = bounds
        self.stop_early = stop_early
        self.strict_witness = strict_witness
        self.must_reach = list(must_reach)
        self.options = options or {}

    def enter(self, ctx):
        if self.shadow is not None:
            self.shadow.install()

    def leave(self, ctx):
        if self.shadow is not None:
            self.shadow.remove()

    def signature(self, cand):
        return cand["info"].get("key", "")


def replay(harness, values):
    """Run the harness on the real, unpatched code.  Returns (label, info) on failure, None if it passes."""
    c = ConcreteCtx(values)
    try:
        harness.body(c)
    except CheckFailed as e:
        return e.label, e.info
    except PathAbort:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename.split('/')[-1]}:{f.name}" for f in reversed(tb) if "/postbound/" in f.filename), "?")
        return f"raises:{type(e).__name__}", {"error": f"{type(e).__name__}: {e}", "where": where,
                                              "tb": "".join(traceback.format_exception(e))[-1200:]}
    return None
