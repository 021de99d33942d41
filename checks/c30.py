"""C30: optimization pipelines only run stages whose pre-checks accept the database and the query, hand over their results unchanged and train them as required."""
import types
import warnings

from vx.engine import Harness, PathAbort
from vx.sym import NUM_SHADOW, Shadow

import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
from postbound import TableReference, parse_query
from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._hints import HintType, JoinTree, PhysicalOperatorAssignment, PlanParameterization
from postbound._pipelines import IncrementalOptimizationPipeline, IntegratedOptimizationPipeline, MultiStageOptimizationPipeline, TextBookOptimizationPipeline
from postbound._qep import QueryPlan
from postbound._stages import (CardinalityEstimator, CompleteOptimizationAlgorithm, CostModel, IncrementalOptimizationStep, JoinOrderOptimization, OptimizationStage, ParameterGeneration, PhysicalOperatorSelection, PlanEnumerator,
                               as_complete_algorithm)
from postbound.db import Database
from postbound.opt import native
from postbound.postgres import PostgresInterface
from postbound.util._errors import StateError
from postbound.validation import (CompoundCheck, CrossProductPreCheck, CustomCheck, DependentSubqueryPreCheck, EmptyPreCheck, EquiJoinPreCheck, ImplicitQueryPreCheck, InnerJoinPreCheck, OptimizationPreCheck, PreCheckResult,
                                  SetOperationsPreCheck, SubqueryPreCheck, SupportedHintCheck, UnsupportedQueryError, UnsupportedSystemError, VirtualTablesPreCheck, merge_checks)

LEVEL = "model_checking"
ASSUMPTIONS = ["stages and database systems are stand-ins whose pre-checks give arbitrary (symbolic) answers", "the answers of a pre-check do not change over time"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS})
warnings.simplefilter("ignore")
Q = [parse_query(f"SELECT * FROM r, s WHERE r.a = s.a AND r.b = {i}", accept_set_query=False) for i in range(2)]


class Check(OptimizationPreCheck):
    """answers are symbolic booleans, which are drawn when they are needed first"""

    def __init__(self, ctx, name, memo):
        super().__init__(name)
        self.ctx, self.memo = ctx, memo

    def verdict(self, what):
        k = f"{self.name} accepts {what}"
        if k not in self.memo:
            self.memo[k] = bool(self.ctx.bool(k))
        return self.memo[k]

    def check_supported_query(self, query):
        ok = self.verdict(f"query {Q.index(query)}")
        return PreCheckResult(ok, "" if ok else f"{self.name} query")

    def check_supported_database_system(self, db):
        ok = self.verdict(f"database {db.tag}")
        return PreCheckResult(ok, "" if ok else f"{self.name} database")

    def describe(self):
        return {"name": self.name}


def standin(base):
    cls = type(base.__name__ + "StandIn", (base,), {"__repr__": lambda self: self.tag, "__str__": lambda self: self.tag})
    cls.__abstractmethods__ = frozenset()
    return cls


_DB = standin(Database)
_PG = standin(PostgresInterface)


class Recorder:
    def __init__(self):
        self.log = []


def make_db(tag, cls=None):
    db = object.__new__(cls or _DB)
    db.tag, db.log = tag, []
    h = types.SimpleNamespace(generate_hints=lambda query, plan=None, **kw: db.log.append(("hints", query, plan, kw)) or ("hinted", len(db.log)), supports_hint=lambda x: True)
    o = types.SimpleNamespace(query_plan=lambda query: db.log.append(("plan", query)) or ("native plan", query), cardinality_estimate=None, cost_estimate=None)
    db.hinting, db.optimizer = lambda: h, lambda: o
    db.describe = lambda: {"name": tag}
    return db


def stage(base, name, check, log, result, methods):
    """a stage that records its calls and returns a unique result"""
    ns = {"pre_check": lambda self: check, "describe": lambda self: {"name": name}}
    for m in methods:
        ns[m] = lambda self, *a, _m=m, **k: log.append((name, _m, a, k)) or result
    if issubclass(base, (CardinalityEstimator, CostModel)):
        ns["initialize"] = lambda self, *a: log.append((name, "initialize", a, {}))
        ns["cleanup"] = lambda self: log.append((name, "cleanup", (), {}))
    cls = type(name, (base,), ns)
    cls.__abstractmethods__ = frozenset()
    return cls()


def outcome(f):
    """result or kind of failure"""
    try:
        return ("ok", f())
    except UnsupportedQueryError as e:
        return ("query", e.query)
    except UnsupportedSystemError as e:
        return ("system", e.db_system)
    except StateError:
        return ("state", None)


# ---------------------------------------------------------------- merging of checks
def merging(ctx):
    memo = {}
    mk = lambda n: Check(ctx, n, memo)
    a, b, c = mk("a"), mk("b"), mk("c")
    kind = ctx.pick("kind", ("one", "two", "twice", "nested", "more", "empty", "none", "only more", "deep", "compound", "hints", "custom", "nothing"))
    db = make_db("x")
    want = [a, b, c]
    if kind == "one":
        m, want = merge_checks(a), [a]
    elif kind == "two":
        m, want = merge_checks([a, b]), [a, b]
    elif kind == "twice":
        m, want = merge_checks([a, b, mk("a")], mk("b")), [a, b]
    elif kind == "nested":
        m = merge_checks([merge_checks([a, b]), c])
    elif kind == "more":
        m = merge_checks(a, b, merge_checks(c, a))
    elif kind == "empty":
        m, want = merge_checks([EmptyPreCheck(), a], EmptyPreCheck()), [a]
    elif kind == "none":
        m, want = merge_checks([None, a, b]), [a, b]
    elif kind == "only more":
        m, want = merge_checks([], a, b), [a, b]
    elif kind == "deep":
        m = merge_checks([CompoundCheck([a, CompoundCheck([b, EmptyPreCheck()])]), CompoundCheck([c, a])])
    elif kind == "compound":
        m = CompoundCheck([a, CompoundCheck([b, CompoundCheck([c])])])
    elif kind == "nothing":
        m, want = merge_checks(ctx.pick("arguments", ([], None, [EmptyPreCheck()], EmptyPreCheck()))), []
    elif kind == "hints":
        ok = {h: bool(ctx.bool(f"supports {h}")) for h in (HintType.LinearJoinOrder, HintType.Cardinality, JO.HashJoin)}
        db.hinting = lambda: types.SimpleNamespace(supports_hint=lambda h: ok[h])
        m = merge_checks([SupportedHintCheck(HintType.LinearJoinOrder), SupportedHintCheck([HintType.Cardinality]), SupportedHintCheck([JO.HashJoin, HintType.Cardinality])])
        r = m.check_supported_database_system(db)
        ctx.reach(kind)
        ctx.check(r.passed == all(ok.values()) and m.check_supported_query(Q[0]).passed, "every required hint has to be supported", key=str(ok))
        ctx.check(set(r.failure_reason) == {h for h in ok if not ok[h]}, "missing hints are reported", key=str(ok))
        for x in (None, db):
            o = outcome(lambda: r.ensure_all_passed(x))
            ctx.check(o[0] == ("ok" if r.passed else "state" if x is None else "system"), "failures are raised", key=f"{ok}/{x is None}")
        return
    else:
        qs, ds = [bool(ctx.bool(f"query {i}")) for i in range(2)], [bool(ctx.bool(f"database {i}")) for i in range(2)]
        why = ctx.pick("reason", ("", "x", ["x", "y"], []))
        f = lambda ok: lambda _: PreCheckResult(ok, "" if ok else why)
        m = merge_checks([CustomCheck(query_check=f(qs[0]), db_check=f(ds[0])), CustomCheck(query_check=f(qs[1])), CustomCheck(db_check=f(ds[1]))])
        ctx.reach(kind)
        ctx.check(m.check_supported_query(Q[0]).passed == all(qs) and m.check_supported_database_system(db).passed == all(ds), "all custom checks are evaluated", key=f"{qs}{ds}{why}")
        return
    ctx.reach(kind)
    for what, r, ctx_, fail in (("query 0", m.check_supported_query(Q[0]), Q[0], "query"), ("database x", m.check_supported_database_system(db), db, "system")):
        bad = [x.name for x in want if not x.verdict(what)]
        key = f"{kind}/{what}/{bad}"
        ctx.check(r.passed == (not bad), "passes if and only if all checks pass", key=key)
        reasons = [r.failure_reason] if isinstance(r.failure_reason, str) else list(r.failure_reason)
        ctx.check({x for x in reasons if x} == {f"{x} {what.split()[0]}" for x in bad}, "the failures of all checks are reported", key=key)
        o = outcome(lambda: r.ensure_all_passed(ctx_))
        ctx.check(o == (("ok", None) if not bad else (fail, ctx_)), "failures are raised with their context", key=key)
        ctx.check(outcome(lambda: r.ensure_all_passed())[0] == ("ok" if not bad else "state"), "failures are raised without context", key=key)


# ---------------------------------------------------------------- histories of pipelines
class World:
    def __init__(self, ctx):
        self.ctx, self.memo, self.log = ctx, {}, []
        self.dbs = {x: make_db(x) for x in "01"}

    def check(self, name):
        return Check(self.ctx, name, self.memo)

    def stage(self, base, name, *methods, result=None):
        return stage(base, name, self.check(name), self.log, result, methods)

    def accepts(self, names, what):
        return all(self.check(n).verdict(what) for n in names)


def run_history(ctx, w, n, actions, apply, model, finals):
    key = []
    for i in range(n):
        a = ctx.pick(f"action{i}", actions)
        if i and a == key[-1]:
            raise PathAbort()  # repetition of the same action
        key.append(a)
        got, exp = outcome(lambda: apply(a)), model(a)
        ctx.check(got[0] == exp, "configuration fails exactly if a pre-check does not accept the database", key="/".join(key))
    f = ctx.pick("final", finals)
    return f, "/".join(key + [f])


def integrated(n):
    def body(ctx):
        w = World(ctx)
        algs = {x: w.stage(CompleteOptimizationAlgorithm, x, "optimize_query", result=("plan", x)) for x in "AB"}
        p = IntegratedOptimizationPipeline(w.dbs["0"])
        st = {"db": "0", "alg": None, "built": False}

        def apply(a):
            if a in algs:
                p.use(algs[a])
            elif a in w.dbs:
                p.target_db = w.dbs[a]
            else:
                p.build()

        def model(a):
            if a in algs:
                st.update(alg=a, built=False)
            elif a in w.dbs:
                st.update(db=a, built=False)
            elif st["alg"] is None:
                return "state"
            elif not w.accepts([st["alg"]], f"database {st['db']}"):
                return "system"
            else:
                st["built"] = True
            return "ok"
        f, key = run_history(ctx, w, n, ("A", "B", "0", "1", "build"), apply, model, ("plan", "query"))
        db = w.dbs[st["db"]]
        ctx.check(p.target_database() is db and [s.describe()["name"] for s in p.stages()] == ([st["alg"]] if st["alg"] else []), "the configuration is used", key=key)
        got = outcome(lambda: p.query_execution_plan(Q[0]) if f == "plan" else p.optimize_query(Q[0]))
        if not st["built"]:
            exp = "state"
        else:
            exp = "ok" if w.accepts([st["alg"]], "query 0") else "query"
        ctx.check(got[0] == exp, "queries are optimized exactly if the pipeline is built and the pre-checks accept the query", key=key)
        ctx.reach(exp)
        if got[0] == "ok":
            ctx.check([(x[0], x[1], x[2]) for x in w.log] == [(st["alg"], "optimize_query", (Q[0],))], "the selected algorithm optimizes the query once", key=key)
            if f == "plan":
                ctx.check(got[1] == ("plan", st["alg"]), "the plan is returned unchanged", key=key)
            else:
                ctx.check(got[1] == ("hinted", 1) and [x[:3] for x in db.log] == [("hints", Q[0], ("plan", st["alg"]))], "the plan is enforced by the target database", key=key)
        else:
            ctx.check(not w.log and not db.log, "unsupported queries do not reach the algorithm", key=key)
    return body


def multi(n, card):
    def body(ctx):
        w = World(ctx)
        pbase = CardinalityEstimator if card else ParameterGeneration
        # every stage has two variants
        J = {x: w.stage(JoinOrderOptimization, x, "optimize_join_order", result=("order", x)) for x in ("J", "J2")}
        O = {x: w.stage(PhysicalOperatorSelection, x, "select_physical_operators", result=("ops", x)) for x in ("O",)}
        P = {x: w.stage(pbase, x, "generate_plan_parameters", result=("params", x)) for x in ("P",)}
        p = MultiStageOptimizationPipeline(w.dbs["0"])
        st = {"db": "0", "J": None, "O": None, "P": None, "C": None, "built": False}

        def apply(a):
            s = J.get(a) or O.get(a) or P.get(a)
            if s:
                p.use(s)
            elif a in ("C", "C2"):
                p.setup_query_support_check(w.check(a))
            elif a in w.dbs:
                p.target_db = w.dbs[a]
            else:
                p.build()

        def active():
            return [x for x in (st["J"], st["O"], st["P"], st["C"]) if x]

        def model(a):
            if a in w.dbs:
                st.update(db=a, built=False)
            elif a != "build":
                st.update({a[0]: a, "built": False})
            elif not w.accepts(active(), f"database {st['db']}"):
                return "system"
            else:
                st["built"] = True
            return "ok"
        f, key = run_history(ctx, w, n, ("J", "J2", "O", "P", "C", "C2", "1", "build"), apply, model, ("query",) if n > 3 else ("query", "plan"))
        db = w.dbs[st["db"]]
        ctx.check(p.target_database() is db and {s.describe()["name"] for s in p.stages()} == {x for x in (st["J"], st["O"], st["P"]) if x}, "the configuration is used", key=key)
        if not st["built"] and len(w.memo) > 4:
            raise PathAbort()
        got = outcome(lambda: p.optimize_query(Q[0]) if f == "query" else p.query_execution_plan(Q[0]))
        exp = "state" if not st["built"] else "ok" if w.accepts(active(), "query 0") else "query"
        ctx.check(got[0] == exp, "queries are optimized exactly if the pipeline is built and the pre-checks accept the query", key=key)
        ctx.reach(exp)
        if got[0] != "ok":
            ctx.check(not w.log and not db.log, "unsupported queries do not reach the stages", key=key)
            return
        order = ("order", st["J"]) if st["J"] else None
        e = []
        if st["J"]:
            e.append((st["J"], "optimize_join_order", (Q[0],), {}))
        if st["O"]:
            e.append((st["O"], "select_physical_operators", (Q[0], order), {}))
        hinted = db.log[0]
        kw = hinted[3]
        ops = ("ops", st["O"]) if st["O"] else kw["physical_operators"]
        ctx.check(bool(st["O"]) or ops is None or (isinstance(ops, PhysicalOperatorAssignment) and not ops.scan_operators and not ops.join_operators), "missing stages do not assign operators", key=key)
        if st["P"]:
            if card:
                e.append(("P", "initialize", (db, Q[0]), {}))
            e.append(("P", "generate_plan_parameters", None, {}))
            if card:
                e.append(("P", "cleanup", (), {}))
        ctx.check([x[:2] for x in w.log] == [x[:2] for x in e], "the stages run in order", key=key)
        for x, y in zip(w.log, e):
            if x[1] == "generate_plan_parameters":
                ctx.check(x[2][:2] == (Q[0], order) and (x[2][2] == ops or not st["O"]), "stages receive the results of the previous stages", key=key)
            else:
                ctx.check(x[2] == y[2], "stages receive the results of the previous stages", key=key)
        ctx.check(hinted[1] == Q[0] and hinted[2] is None and kw["join_order"] == order and kw["physical_operators"] == ops, "the results are enforced unchanged", key=key)
        pp = kw["plan_parameters"]
        ctx.check(pp == ("params", "P") if st["P"] else pp is None or (isinstance(pp, PlanParameterization) and not pp.cardinalities), "the parameters are enforced unchanged", key=key)
        if f == "query":
            ctx.check(got[1] == ("hinted", 1) and len(db.log) == 1, "the hinted query is returned", key=key)
        else:
            ctx.check(got[1] == ("native plan", ("hinted", 1)) and len(db.log) == 2, "the plan of the hinted query is returned", key=key)
    return body


def textbook(n):
    def body(ctx):
        w = World(ctx)
        E = {x: w.stage(PlanEnumerator, x, "generate_execution_plan", result=("plan", x)) for x in ("E", "E2")}
        M = {x: w.stage(CostModel, x, "estimate_cost") for x in ("M",)}
        K = {x: w.stage(CardinalityEstimator, x, "calculate_estimate") for x in ("K", "K2")}
        p = TextBookOptimizationPipeline(w.dbs["0"])
        p.use(E["E"]).use(M["M"]).use(K["K"])
        st = {"E": "E", "M": "M", "K": "K", "built": False}

        def apply(a):
            if a == "build":
                p.build()
            else:
                p.use(E.get(a) or M.get(a) or K.get(a))

        def model(a):
            if a != "build":
                st.update({a[0]: a, "built": False})
            elif not w.accepts([st["E"], st["M"], st["K"]], "database 0"):
                return "system"
            else:
                st["built"] = True
            return "ok"
        f, key = run_history(ctx, w, n, ("E", "E2", "K2", "M", "build"), apply, model, ("plan", "query"))
        got = outcome(lambda: p.query_execution_plan(Q[0]) if f == "plan" else p.optimize_query(Q[0]))
        act = [st["E"], st["M"], st["K"]]
        exp = "state" if not st["built"] else "ok" if w.accepts(act, "query 0") else "query"
        ctx.check(got[0] == exp, "queries are optimized exactly if the pipeline is built and the pre-checks accept the query", key=key)
        ctx.check({s.describe()["name"] for s in p.stages()} == set(act), "the configuration is used", key=key)
        ctx.reach(exp)
        if got[0] != "ok":
            ctx.check(not w.log, "unsupported queries do not reach the stages", key=key)
            return
        calls = [x for x in w.log if x[1] == "generate_execution_plan"]
        ctx.check(len(calls) == 1 and calls[0][0] == st["E"] and calls[0][2] == (Q[0],) and calls[0][3] == {"cardinality_estimator": K[st["K"]], "cost_model": M["M"]}, "the enumerator receives the selected stages", key=key)
        if f == "plan":
            ctx.check(got[1] == ("plan", st["E"]), "the plan is returned unchanged", key=key)
        else:
            ctx.check(got[1] == ("hinted", 1) and w.dbs["0"].log[0][:3] == ("hints", Q[0], ("plan", st["E"])), "the plan is enforced by the target database", key=key)
    return body


def incremental(n):
    def body(ctx):
        w = World(ctx)
        A = {x: w.stage(CompleteOptimizationAlgorithm, x, "optimize_query", result=("plan", x)) for x in ("A", "A2")}
        S = {x: w.stage(IncrementalOptimizationStep, x, "optimize_query", result=("plan", x)) for x in ("S", "T")}
        p = IncrementalOptimizationPipeline(w.dbs["0"])
        st = {"db": "0", "A": None, "steps": []}

        def apply(a):
            if a == "1":
                p.target_db = w.dbs["1"]
            elif a == "none":
                p.initial_plan_generator = None
            else:
                p.use(A.get(a) or S.get(a))

        def model(a):
            now = [x for x in [st["A"]] + st["steps"] if x]
            if a == "none":
                st["A"] = None
            elif a == "1":
                if not w.accepts(now, "database 1"):
                    return "system"
                st["db"] = "1"
            elif not w.accepts([x for x in now if not (a in A and x in A)] + [a], f"database {st['db']}"):
                return "system"
            elif a in A:
                st["A"] = a
            else:
                st["steps"].append(a)
            return "ok"
        f, key = run_history(ctx, w, n, ("A", "A2", "S", "T", "1", "none"), apply, model, ("plan", "query"))
        db = w.dbs[st["db"]]
        act = [x for x in [st["A"]] + st["steps"] if x]
        ctx.check(p.target_database() is db and [s.describe()["name"] for s in p.stages()] == act, "the configuration is used", key=key)
        got = outcome(lambda: p.query_execution_plan(Q[0]) if f == "plan" else p.optimize_query(Q[0]))
        exp = "ok" if w.accepts(act, "query 0") else "query"
        ctx.check(got[0] == exp, "queries are optimized exactly if the pre-checks accept them", key=key)
        ctx.reach(exp)
        if got[0] != "ok":
            ctx.check(not w.log and not db.log, "unsupported queries do not reach the stages", key=key)
            return
        cur = ("plan", st["A"]) if st["A"] else ("native plan", Q[0])
        e = [(st["A"], (Q[0],))] if st["A"] else []
        for s in st["steps"]:
            e.append((s, (Q[0], cur)))
            cur = ("plan", s)
        ctx.check([(x[0], x[2]) for x in w.log] == e, "each step receives the plan of the previous step", key=key)
        if f == "plan":
            ctx.check(got[1] == cur, "the last plan is returned unchanged", key=key)
        else:
            ctx.check(db.log[-1][:3] == ("hints", Q[0], cur), "the last plan is enforced", key=key)
    return body


def emulated(ctx):
    """single stages as complete algorithms"""
    w = World(ctx)
    db = w.dbs["0"]
    kind = ctx.pick("kind", ("order", "operators", "parameters"))
    base, m, arg, none = {"order": (JoinOrderOptimization, "optimize_join_order", "join_order", ()), "operators": (PhysicalOperatorSelection, "select_physical_operators", "physical_operators", (None,)),
                          "parameters": (ParameterGeneration, "generate_plan_parameters", "plan_parameters", (None, None))}[kind]
    s = w.stage(base, "S", m, result=("result", kind))
    alg = as_complete_algorithm(s, database=db)
    p = IntegratedOptimizationPipeline(db).use(alg)
    got = outcome(p.build)
    ctx.check((got[0] == "ok") == w.accepts(["S"], "database 0"), "pre-checks of the stage apply", key=kind)
    if got[0] != "ok":
        return
    got = outcome(lambda: p.query_execution_plan(Q[0]))
    ctx.check(got[0] == ("ok" if w.accepts(["S"], "query 0") else "query"), "pre-checks of the stage apply", key=kind)
    if got[0] == "ok":
        ctx.reach(kind)
        ctx.check([x[:3] for x in w.log] == [("S", m, (Q[0], *none))], "the stage is called once", key=kind)
        kw = db.log[0][3]
        ctx.check(kw[arg] == ("result", kind) and all(v is None for k, v in kw.items() if k != arg) and got[1] == ("native plan", ("hinted", 1)), "the native optimizer completes the plan", key=kind)


# ---------------------------------------------------------------- training
KINDS = {"data": ("fit_database", "database_fit_completed"), "workload": ("fit_workload", "workload_fit_completed"), "samples": ("fit_samples", "sample_fit_completed"), "feedback": ("learn_from_feedback", None)}


def training(ctx):
    kind = ctx.pick("kind", tuple(KINDS))
    fit, done = KINDS[kind]
    log = []
    pipe = ctx.pick("pipeline", ("multi", "textbook", "incremental", "integrated"))
    bases = {"multi": (JoinOrderOptimization, PhysicalOperatorSelection, ParameterGeneration), "textbook": (PlanEnumerator, CostModel, CardinalityEstimator), "incremental": (CompleteOptimizationAlgorithm, IncrementalOptimizationStep, IncrementalOptimizationStep),
             "integrated": (CompleteOptimizationAlgorithm,)}[pipe]
    stages, need, fitted = [], [], []
    for i, b in enumerate(bases):
        ns = {}
        n = bool(ctx.bool(f"stage {i} requires training"))
        f = n and done is not None and bool(ctx.bool(f"stage {i} is trained"))
        if n:
            ns[fit] = lambda self, *a, _i=i, **k: log.append((_i, a, k)) or ("metrics", _i)
            if done:
                ns[done] = lambda self, _f=f: _f
            if kind == "samples":
                ns["sample_spec"] = lambda self, _i=i: ("spec", _i)
        cls = type(f"Stage{i}", (b,), ns)
        cls.__abstractmethods__ = frozenset()
        stages.append(cls())
        need.append(n)
        fitted.append(f)
    db = make_db("0")
    p = {"multi": MultiStageOptimizationPipeline, "textbook": TextBookOptimizationPipeline, "incremental": IncrementalOptimizationPipeline, "integrated": IntegratedOptimizationPipeline}[pipe](db)
    for s in stages:
        p.use(s)
    key = f"{kind}/{pipe}/{need}/{fitted}"
    todo = [i for i in range(len(stages)) if need[i] and not fitted[i]]
    if kind == "data":
        req, m = p.requires_data_training(), p.train_on_database(db)
        args = {i: ((db,), {}) for i in todo}
    elif kind == "workload":
        req, m = p.requires_workload_training(), p.train_on_workload("workload", db)
        args = {i: (("workload", db), {}) for i in todo}
    elif kind == "samples":
        req = p.requires_sample_training()
        ctx.check(p.sample_fit_completed() == (not todo), "the training state is reported", key=key)
        repo = bool(ctx.bool("repository"))
        have = [bool(ctx.bool(f"samples for stage {i}")) for i in todo] if repo else []
        import postbound._pipelines as pl

        class Repo(pl.TrainingDataRepository):
            def __init__(self):
                pass

            def retrieve_merged(self, spec):
                i = spec[1]
                return ("samples", i) if have[todo.index(i)] else None
        try:
            m = p.train_on_samples(Repo() if repo else "samples")
            ctx.check(all(have), "missing training data is reported", key=key)
        except ValueError:
            ctx.check(not all(have), "training data suffices", key=key)
            ctx.reach("missing")
            return
        args = {i: ((("samples", i) if repo else "samples",), {}) for i in todo}
    else:
        req, m = p.requires_online_training(), p.learn_from_feedback(Q[0], "rows", exec_time=1.5)
        args = {i: ((Q[0], "rows"), {"exec_time": 1.5}) for i in todo}
    ctx.check(req == any(need), "the need for training is reported", key=key)
    ctx.check(sorted(x[0] for x in log) == todo and all(args[i] == (a, k) for i, a, k in log), "exactly the stages which require training are trained, once", key=key)
    ctx.check(dict(m) == {f"Stage{i}": ("metrics", i) for i in todo}, "metrics are reported by stage", key=key)
    ctx.reach(kind)


def complete_methods(ctx):
    """stages have to implement all methods for training or none of them"""
    groups = (("fit_database", "database_fit_completed"), ("fit_workload", "workload_fit_completed"), ("fit_samples", "sample_spec", "sample_fit_completed"))
    g = groups[ctx.choose("group", 3)]
    ns = {m: (lambda self, *a: None) for m in g if bool(ctx.bool(m))}
    inherit = bool(ctx.bool("inherited"))
    cls = type("Stage", (OptimizationStage,), ns)
    if inherit:
        cls = type("Child", (cls,), {})
    try:
        cls()
        ok = True
    except NotImplementedError:
        ok = False
    ctx.check(ok == (len(ns) in (0, len(g))), "incomplete stages are rejected", key=f"{g}/{sorted(ns)}")
    ctx.reach("ok" if ok else "rejected")


# ---------------------------------------------------------------- checks of queries
JOINS = {"implicit": "r, s WHERE {p}", "inner": "r JOIN s ON {p}", "left": "r LEFT JOIN s ON {p}", "full": "r FULL JOIN s ON {p}", "inner of subquery": "r JOIN (SELECT * FROM s JOIN t ON s.c = t.c) AS s ON {p}", "outer in subquery": "r JOIN (SELECT s.a, s.b FROM s LEFT JOIN t ON s.c = t.c) AS s ON {p}",
         "nested": "(r JOIN u ON r.d = u.d) RIGHT JOIN s ON {p}", "natural": "r NATURAL JOIN s", "mixed": "r JOIN s ON {p}, u, t WHERE u.d = t.d", "function": "r, s, generate_series(1, 3) AS g WHERE {p}", "values": "r, (VALUES (1, 2), (3, 4)) AS s(a, b) WHERE {p}"}
PREDS = {"equi": "r.a = s.a", "two": "r.a = s.a AND r.b = s.b", "less": "r.a < s.a", "nested": "r.a + 1 = s.a", "or": "(r.a = s.a OR r.b = s.b)", "between": "r.a BETWEEN s.a AND s.b", "mixed": "r.a = s.a AND r.b <> s.b", "three": "r.a = s.a + r.b", "not": "NOT r.a = s.a"}
EXTRA = {"none": None, "filter": "r.x > 4", "in": "r.x IN (SELECT v.x FROM v)", "exists": "EXISTS (SELECT 1 FROM v WHERE v.x = r.x)", "scalar": "r.x = (SELECT max(v.x) FROM v)", "dependent scalar": "r.x = (SELECT max(v.x) FROM v WHERE v.y = r.y)"}


def prechecks(ctx):
    j, p, e = ctx.pick("join", tuple(JOINS)), ctx.pick("predicate", tuple(PREDS)), ctx.pick("extra", tuple(EXTRA))
    if j in ("function", "values", "natural", "mixed") and (p not in ("equi", "less") or e not in ("none", "exists")):
        raise PathAbort()
    cte = ctx.bool("cte") if j == "implicit" and p == "equi" else False
    fr = JOINS[j].format(p=PREDS[p])
    sql = f"SELECT * FROM {fr}"
    if EXTRA[e]:
        sql += (" AND " if "WHERE" in sql.split("JOIN")[-1] and j in ("implicit", "mixed", "function", "values") else " WHERE ") + EXTRA[e]
    if cte:
        sql = "WITH w AS (SELECT * FROM v) " + sql.replace("FROM r, s", "FROM r, s, w").replace("WHERE", "WHERE w.a = r.a AND", 1)
    q = parse_query(sql, accept_set_query=False)
    key = sql
    # joins are stated in the FROM clause or in the WHERE clause
    ok = lambda c: c.check_supported_query(q).passed
    ctx.check(ok(ImplicitQueryPreCheck()) == (j in ("implicit",)) or j in ("function", "values"), "implicit queries", key=key)
    ctx.check(ok(InnerJoinPreCheck()) == (j not in ("left", "full", "nested", "outer in subquery")), "inner joins only", key=key)
    ctx.check(ok(SubqueryPreCheck()) == (e in ("none", "filter") and not j.endswith("subquery")), "no subqueries", key=key)
    ctx.check(ok(DependentSubqueryPreCheck()) == (e not in ("exists", "dependent scalar")), "no dependent subqueries", key=key)
    ctx.check(ok(VirtualTablesPreCheck()) == (j not in ("function", "values") and not j.endswith("subquery") and not cte), "no virtual tables", key=key)
    ctx.check(ok(SetOperationsPreCheck()), "no set operations", key=key)
    if e in ("none", "filter") and not j.endswith("subquery") and j != "natural":
        eq = p in ("equi", "two") or (j in ("function", "values") and False)
        ctx.check(ok(EquiJoinPreCheck()) == eq, "equi joins only", key=key)
        ctx.check(ok(EquiJoinPreCheck(allow_nesting=True)) == (eq or p == "nested"), "equi joins with expressions", key=key)
    ctx.reach(j)


def set_checks(ctx):
    ops = ctx.pick("operation", ("UNION", "UNION ALL", "EXCEPT", "INTERSECT"))
    l, r = ctx.pick("left", ("r", "r JOIN s ON r.a = s.a", "r LEFT JOIN s ON r.a = s.a")), ctx.pick("right", ("r", "r LEFT JOIN s ON r.a = s.a"))
    q = parse_query(f"SELECT r.a FROM {l} {ops} SELECT r.a FROM {r}")
    res = SetOperationsPreCheck().check_supported_query(q)
    ctx.check(not res.passed and outcome(lambda: res.ensure_all_passed(q)) == ("query", q), "set operations are rejected", key=str(q))
    ctx.check(InnerJoinPreCheck().check_supported_query(q).passed == ("LEFT" not in l and "LEFT" not in r), "inner joins only", key=str(q))
    ctx.reach("done")


# ---------------------------------------------------------------- native stages
def native_plan(ctx, shape, tabs=("r", "s", "t")):
    card = lambda n: Cardinality(ctx.real(f"rows {n}", 0, 1000))
    scan = lambda t, op: QueryPlan(op.name, operator=op, base_table=TableReference(t), estimated_cardinality=card(t), estimated_cost=ctx.real(f"cost {t}", 0, 1000))
    l, m, r = scan("r", SO.SequentialScan), scan("s", SO.IndexScan), scan("t", SO.BitmapScan)
    a = QueryPlan("join", operator=JO.HashJoin, children=[l, QueryPlan("Hash", children=[m])], estimated_cardinality=card("rs"), estimated_cost=1.0)
    b = QueryPlan("join", operator=JO.NestedLoopJoin, children=[a, r] if shape == "left" else [r, a], estimated_cardinality=card("rst"), estimated_cost=2.0)
    return QueryPlan("Aggregate", children=[b], estimated_cardinality=Cardinality(1), estimated_cost=3.0)


def native_stages(ctx):
    shape = ctx.pick("shape", ("left", "right"))
    plan = native_plan(ctx, shape)
    q = parse_query("SELECT count(*) FROM r, s, t WHERE r.a = s.a AND s.b = t.b", accept_set_query=False)
    db = make_db("0")
    o = types.SimpleNamespace(query_plan=lambda query: db.log.append(("plan", query)) or plan)
    db.optimizer = lambda: o
    kind = ctx.pick("kind", ("order", "operators", "operators given", "parameters", "parameters given", "plan"))
    R = lambda *x: frozenset(TableReference(y) for y in x)
    given = object()
    tree = JoinTree.join(JoinTree.scan(TableReference("r")), JoinTree.scan(TableReference("s")))
    key = f"{shape}/{kind}"
    if kind == "order":
        t = native.NativeJoinOrderOptimizer(db).optimize_join_order(q)
        d = lambda t: t.base_table.identifier() if t.is_scan() else f"({d(t.outer_child)}{d(t.inner_child)})"
        ctx.check(d(t) == ("((rs)t)" if shape == "left" else "(t(rs))"), "the native join order", key=key)
        ctx.check(db.log == [("plan", q)], "the query is planned once", key=key)
    elif kind.startswith("operators"):
        a = native.NativePhysicalOperatorSelection(db).select_physical_operators(q, tree if kind.endswith("given") else None)
        ctx.check({k: v.operator for k, v in a.scan_operators.items()} == {TableReference("r"): SO.SequentialScan, TableReference("s"): SO.IndexScan, TableReference("t"): SO.BitmapScan}, "the native scan operators", key=key)
        ctx.check({k: v.operator for k, v in a.join_operators.items()} == {R("r", "s"): JO.HashJoin, R("r", "s", "t"): JO.NestedLoopJoin}, "the native join operators", key=key)
        if kind.endswith("given"):
            ctx.check(db.log[0][0] == "hints" and db.log[0][1] == q and db.log[0][3]["join_order"] is tree and db.log[1] == ("plan", ("hinted", 1)), "operators depend on the join order", key=key)
    elif kind.startswith("parameters"):
        ops = PhysicalOperatorAssignment()
        ops.set_join_operator(JO.SortMergeJoin, R("r", "s"))
        a = native.NativePlanParameterization(db).generate_plan_parameters(q, tree if kind.endswith("given") else None, ops if kind.endswith("given") else None)
        if a is None:
            ctx.check(False, "parameters are provided", key=key)
            return
        want = {R(*n.replace("rst", "rst")): n for n in ("r", "s", "t", "rs")}
        for k, n in want.items():
            ctx.check(k in a.cardinalities, "the native cardinalities", key=key + n)
            node = next(x for x in nodes(plan) if x.operator and x.tables() == set(k))
            ctx.check(a.cardinalities[k] == node.estimated_cardinality, "the native cardinalities", key=key + n)
        if kind.endswith("given"):
            ctx.check(db.log[0][3]["join_order"] is tree and db.log[0][3]["physical_operators"] is ops, "parameters depend on the plan", key=key)
    else:
        ctx.check(native.NativeOptimizer(db).optimize_query(q) is plan, "the native plan", key=key)
    ctx.reach(kind)


def nodes(p):
    return [p] + [x for c in p.children for x in nodes(c)]


def native_costs(ctx):
    """costs of (partial) plans are those that the database system estimates for them"""
    from postbound.db import DatabaseServerError
    q = parse_query("SELECT r.x FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND r.f > 1", accept_set_query=False)
    kind = ctx.pick("kind", ("full", "join", "scan", "index", "materialize", "memoize"))
    fail, strict = bool(ctx.bool("fails")), bool(ctx.bool("strict"))
    cost = ctx.real("cost", 0, 1000)
    db = make_db("pg", _PG)
    seen = []
    scan = lambda t, op=SO.SequentialScan: QueryPlan(op.name, operator=op, base_table=TableReference(t), estimated_cardinality=Cardinality(5.0))
    rs = QueryPlan("join", operator=JO.HashJoin, children=[scan("r"), scan("s")], estimated_cardinality=Cardinality(7.0))
    full = QueryPlan("join", operator=JO.NestedLoopJoin, children=[rs, scan("t")], estimated_cardinality=Cardinality(9.0))
    plan = {"full": full, "join": rs, "scan": scan("r"), "index": scan("r", SO.IndexScan), "materialize": QueryPlan("mat", operator=IO.Materialize, children=[rs]), "memoize": QueryPlan("memo", operator=IO.Memoize, children=[scan("t", SO.IndexScan)], lookup_key=next(iter(q.predicates().joins_between(TableReference("s"), TableReference("t")).iterexpressions())) if 0 else None)}[kind]
    if kind == "memoize":
        from postbound.qal import ColumnExpression
        from postbound import ColumnReference
        plan = QueryPlan("memo", operator=IO.Memoize, children=[scan("t", SO.IndexScan)], lookup_key=ColumnExpression(ColumnReference("b", TableReference("t"))))

    def hints(query, p=None, **kw):
        seen.append((query, p))
        return ("hinted", len(seen))

    def estimate(query):
        if fail:
            raise DatabaseServerError("no")
        return cost

    def explain(query):
        if fail:
            raise DatabaseServerError("no")
        p = seen[-1][1]
        if isinstance(p.operator, JO) and kind in ("materialize", "memoize"):
            rebuild = lambda n: QueryPlan(n.operator, operator=n.operator, base_table=n.base_table, children=[rebuild(c) for c in n.children], estimated_cost=cost if n.operator == plan.operator else 1.0)
            return QueryPlan("Aggregate", children=[rebuild(p)], estimated_cost=2.0)
        return p
    db.hinting = lambda: types.SimpleNamespace(generate_hints=hints)
    db.optimizer = lambda: types.SimpleNamespace(cost_estimate=estimate, query_plan=explain)
    m = native.NativeCostModel(raise_on_error=strict)
    m.initialize(db, q)
    key = f"{kind}/{fail}/{strict}"
    try:
        got = m.estimate_cost(q, plan)
    except DatabaseServerError:
        got = None
    ctx.reach(kind)
    if fail:
        if kind not in ("materialize", "memoize"):
            ctx.check((got is None) == strict, "errors are raised if requested", key=key)
        ctx.check(got is None or got == float("inf"), "plans that cannot be estimated have infinite costs", key=key)
        return
    if got is None:
        ctx.check(False, "plans are estimated", key=key)
        return
    ctx.check(got == cost, "the costs of the database system", key=key)
    sq, sp = seen[0]
    ts = {t.identifier() for t in sq.tables()}
    if kind in ("full", "join", "scan", "index"):
        ctx.check(ts == {t.identifier() for t in plan.tables()} == {t.identifier() for t in sp.tables()} and sp.operator == plan.operator, "the costs of the requested part of the query", key=key)
        ctx.check(("r.f > 1" in str(sq)) == ("r" in ts), "the filters apply", key=key)
    else:
        ctx.check(plan.operator in [n.operator for n in nodes(sp)] and {t.identifier() for t in plan.tables()} < ts == {t.identifier() for t in sp.tables()}, "the consumer of the intermediate is part of the plan", key=key)


def harnesses(tier):
    t = tier == "thorough"
    F = ["OptimizationPreCheck", "CompoundCheck", "merge_checks", "PreCheckResult", "IntegratedOptimizationPipeline", "MultiStageOptimizationPipeline", "TextBookOptimizationPipeline", "IncrementalOptimizationPipeline", "OptimizationPipeline.train_on_*", "OptimizationStage", "InnerJoinPreCheck",
         "EquiJoinPreCheck", "Native*"]
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [H("merging", merging, "13 ways to combine up to 3 checks; all answers", ("one", "nested", "hints", "custom", "nothing")),
            H("integrated", integrated(5 if t else 4), f"all sequences of {5 if t else 4} actions; all answers of the pre-checks", ("ok", "query", "state")),
            H("multi", multi(4 if t else 3, False), f"all sequences of {4 if t else 3} actions", ("ok", "query", "state")),
            H("multi-cards", multi(4, True), "all sequences of 4 actions", ("ok", "query", "state")),
            H("textbook", textbook(4 if t else 3), "all sequences of 3 actions", ("ok", "query", "state")),
            H("incremental", incremental(4 if t else 3), "all sequences of 3 actions", ("ok", "query")),
            H("emulated", emulated, "3 kinds of stages", ("order", "operators", "parameters")),
            H("training", training, "4 kinds of training x 4 pipelines x all combinations of requirements", tuple(KINDS) + ("missing",)),
            H("methods", complete_methods, "all subsets of methods", ("ok", "rejected")),
            H("prechecks", prechecks, "11 FROM clauses x 9 join predicates x 6 further conditions", tuple(JOINS)),
            H("sets", set_checks, "4 set operations", ("done",)),
            H("native", native_stages, "2 plans with arbitrary cardinalities", ("order", "operators", "parameters", "plan")),
            H("native-costs", native_costs, "6 kinds of plans; all costs", ("full", "join", "scan", "index", "materialize", "memoize"))]
