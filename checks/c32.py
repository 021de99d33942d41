"""C32: the benchmark executes every query of the workload exactly as often, and in the way, it is told to, and reports exactly what happened."""
import json
import math
import os
import shutil
import tempfile
import types
import warnings

from vx.engine import Harness, PathAbort
from vx.sym import And, SymFloat, SymInt, is_nan

import pandas as pd
import postbound.bench as bench
from postbound import parse_query, transform
from postbound._pipelines import IntegratedOptimizationPipeline, MultiStageOptimizationPipeline, OptimizationPipeline, TextBookOptimizationPipeline
from postbound._stages import CompleteOptimizationAlgorithm, CostModel, IncrementalOptimizationStep, JoinOrderOptimization, ParameterGeneration, PhysicalOperatorSelection, PlanEnumerator
from postbound.bench import QueryPreparation, execute_workload, prepare_export, sort_results
from postbound.db import Database, DatabasePool
from postbound.workloads import Workload

LEVEL = "model_checking"
ASSUMPTIONS = ["the database system, the clock and the optimization pipeline are stand-ins with arbitrary outcomes and times", "timeouts are reported with the timeout as execution time", "the preparation of queries does not fail"]
warnings.simplefilter("ignore")
Q = {f"q{i}": parse_query(f"SELECT r.a, r.b FROM r, s WHERE r.a = s.a AND r.b = {i}", accept_set_query=False) for i in (1, 2, 10)}
OPT = {k: parse_query(f"SELECT r.a, r.b FROM s, r WHERE r.a = s.a AND r.b = {k[1:]}", accept_set_query=False) for k in Q}
LABEL = {v: k for d in (Q, OPT) for k, v in d.items()}
RESULTS = [[(1,)], [(1, "x"), (2, "y")], [], [("a",), ("b",)], [(None,)], [(3, 4)]]
SIMPLE = [1, [(1, "x"), (2, "y")], [], ["a", "b"], None, (3, 4)]


class Oops(Exception):
    pass


class _Db(Database):
    def __repr__(self):
        return "db"

    def describe(self):
        self.log.append(("describe",))
        return {"executions": self.count}

    def execute_query(self, query, *, cache_enabled=None, raw=False, timeout=None):
        self.log.append(("execute", query, cache_enabled, raw))
        if isinstance(query, str):
            return []
        return self.run()

    def run(self):
        i = self.count
        self.count += 1
        o = self.outcome(i)
        self.now += self.duration(i)
        if o == "error":
            raise Oops(f"execution {i}")
        return None if o == "timeout" else RESULTS[i % len(RESULTS)]


class _TimeoutDb(_Db):
    def execute_with_timeout(self, query, *, timeout=60.0):
        self.log.append(("timeout", query, timeout))
        return self.run()


class _WatchDb(_TimeoutDb):
    def time_query(self, query, *, timeout=None):
        raise AssertionError

    def last_query_runtime(self):
        return self.watch(self.count - 1)


class _WarmDb(_Db):
    def prewarm_tables(self, tables=None, *more, **kw):
        self.log.append(("prewarm", frozenset(t.identifier() for t in tables)))


for c in (_Db, _TimeoutDb, _WatchDb, _WarmDb):
    c.__abstractmethods__ = frozenset()


def make_db(cls, outcome=lambda i: "ok", duration=lambda i: 10**9, watch=None):
    db = object.__new__(cls)
    db.log, db.count, db.now, db.outcome, db.duration, db.watch = [], 0, 0, outcome, duration, watch
    return db


class Pipeline(OptimizationPipeline):
    def __init__(self, db, online, outcome, duration):
        self.db, self.online, self.outcome, self.duration, self.log, self.count = db, online, outcome, duration, [], 0

    def query_execution_plan(self, query):
        raise AssertionError

    def optimize_query(self, query):
        i = self.count
        self.count += 1
        self.db.now += self.duration(i)
        self.log.append(("optimize", query))
        if not self.outcome(i):
            raise Oops(f"optimization {i}")
        return OPT[LABEL[query]]

    def stages(self):
        return []

    def target_database(self):
        return self.db

    def requires_online_training(self):
        return self.online

    def learn_from_feedback(self, query, result_set, *, exec_time):
        self.log.append(("learn", query, result_set, exec_time))
        return {}

    def describe(self):
        return {"name": "pipeline"}


class _Box:
    """Keeps symbolic numbers out of the reach of pandas, which would replace them by their (meaningless) machine representation."""

    def __init__(self, v):
        self.v = v


class _Frames:
    def __init__(self):
        self.used = False

    def box(self, data):
        self.used = True
        one = lambda v: _Box(v) if isinstance(v, (SymFloat, SymInt)) else v
        if isinstance(data, dict):
            return {k: [one(v) for v in vs] if isinstance(vs, (list, tuple)) else one(vs) for k, vs in data.items()}
        if isinstance(data, (list, tuple)):
            return [self.box(row) if isinstance(row, dict) else one(row) for row in data]
        return data

    def __call__(self, data=None, *args, **kw):
        return pd.DataFrame(self.box(data), *args, **kw)

    def from_dict(self, data, *args, **kw):
        return pd.DataFrame.from_dict(self.box(data), *args, **kw)

    def from_records(self, data, *args, **kw):
        return pd.DataFrame.from_records(self.box(data), *args, **kw)

    def __getattr__(self, name):
        return getattr(pd.DataFrame, name)


class _Pandas:
    def __init__(self):
        self.DataFrame = _Frames()

    def __getattr__(self, name):
        return getattr(pd, name)


def clocked(db, f, boxed=None):
    saved = bench.time, bench.pd
    bench.time = types.SimpleNamespace(perf_counter_ns=lambda: db.now)
    if boxed is not None:
        bench.pd = boxed
    try:
        return f()
    finally:
        bench.time, bench.pd = saved


def nan(x):
    return isinstance(x, float) and is_nan(x)


def same(a, b):
    if nan(b):
        return nan(a)
    if b is None:
        return a is None or nan(a)
    return a is b or a == b


# ---------------------------------------------------------------- control flow
def simulate(labels, wreps, qreps, mode, action, opt, exe, opt_time, exec_time, prep):
    """rows, executed queries, callbacks, feedback and the final error of a benchmark"""
    rows, executed, callbacks, feedback, iterations, o, x = [], [], [], [], [], 0, 0
    pipeline = mode in ("pipeline", "learning")
    for w in range(1, wreps + 1):
        for label in labels:
            query, t_opt = Q[label], math.nan
            if pipeline:
                ok = opt(o)
                o += 1
                if not ok:
                    if action == "raise":
                        return rows, executed, callbacks, feedback, iterations, f"optimization {o - 1}"
                    if action == "log":
                        rows += [dict(label=label, workload_repetition=w, query_repetition=r, status="optimization-error", query_result=None, exec_time=math.nan, failure_reason=f"optimization {o - 1}", optimization_time=math.nan, optimized_query=None, db_config={}) for r in range(1, qreps + 1)]
                    continue
                query, t_opt = OPT[label], opt_time(o - 1)
            learned = []
            for r in range(1, qreps + 1):
                i, x = x, x + 1
                final = prep(query)
                executed.append(final)
                s = exe(i)
                if s == "error" and action == "raise":
                    return rows, executed, callbacks, feedback, iterations, f"execution {i}"
                if s == "error" and action == "ignore":
                    continue
                res = dict(label=label, workload_repetition=w, query_repetition=r, status={"error": "execution-error"}.get(s, s), query_result=SIMPLE[i % len(SIMPLE)] if s == "ok" else None, exec_time=math.nan if s == "error" else 30.0 if s == "timeout" else exec_time(i),
                           failure_reason=f"execution {i}" if s == "error" else "", optimization_time=t_opt, optimized_query=OPT[label] if pipeline else None, db_config={"executions": i})
                rows.append(res)
                if s != "error":
                    callbacks.append((final, s, res["query_result"], t_opt, res["exec_time"]))
                if s == "ok":
                    learned.append((final, RESULTS[i % len(RESULTS)], exec_time(i)))
            if mode == "learning":
                feedback += learned
        iterations.append(w)
    return rows, executed, callbacks, feedback, iterations, None


MODES = ("plain", "timeout", "stopwatch", "stopwatch with timeout", "pipeline", "learning", "prepared")


def control(big):
    def body(ctx):
        mode = ctx.pick("mode", MODES)
        action = ctx.pick("error action", ("log", "ignore", "raise", "default"))
        wreps, qreps = ctx.pick("repetitions", ((1, 1), (1, 2), (2, 1)) + (((1, 3), (2, 2)) if big and mode not in ("learning",) else ()))
        labels = ["q1", "q2"] if not big or wreps * qreps > 2 else ["q1", "q2", "q10"]
        timeouts = mode in ("timeout", "learning", "stopwatch with timeout")
        kinds = ("ok", "timeout", "error") if timeouts else ("ok", "error")
        memo = {}

        def draw(k, f):
            if k not in memo:
                memo[k] = f()
            return memo[k]
        exe = lambda i: draw(("exec", i), lambda: ctx.pick(f"execution {i}", kinds))
        opt = lambda i: draw(("opt", i), lambda: bool(ctx.bool(f"optimization {i}")))
        t_opt = lambda i: draw(("t_opt", i), lambda: ctx.int(f"optimization time {i}", 0, 10**12))
        t_exec = lambda i: draw(("t_exec", i), lambda: ctx.int(f"execution time {i}", 0, 10**12))
        watch = lambda i: draw(("watch", i), lambda: ctx.real(f"stopwatch {i}", 0, 1000))
        db = make_db(_WatchDb if mode.startswith("stopwatch") else _TimeoutDb, exe, t_exec, watch)
        pipe = Pipeline(db, mode == "learning", opt, t_opt) if mode in ("pipeline", "learning") else None
        w = Workload({l: Q[l] for l in reversed(labels)}, "w")
        called, reps, boxed = [], [], _Pandas() if ctx.symbolic else None
        kw = {} if action == "default" else {"error_action": action}
        if timeouts:
            kw["timeout"] = 30.0
        if mode == "prepared":
            kw["query_preparation"] = QueryPreparation(projection="count_star") if bool(ctx.bool("object")) else {"projection": "count_star"}
        act = "log" if action == "default" else action
        try:
            df = clocked(db, lambda: execute_workload(w, pipe or db, workload_repetitions=wreps, per_query_repetitions=qreps, exec_callback=called.append, repetition_callback=reps.append, **kw), boxed)
            err = None
        except Oops as e:
            df, err = None, str(e)
        prep = transform.as_count_star_query if mode == "prepared" else lambda q: q
        rows, executed, callbacks, feedback, iterations, e_err = simulate(labels, wreps, qreps, mode, act, opt, exe, lambda i: t_opt(i) / 10**9, (lambda i: watch(i)) if mode.startswith("stopwatch") else lambda i: t_exec(i) / 10**9, prep)
        key = f"{mode}/{action}/{wreps}/{qreps}/{sorted((k, v) for k, v in memo.items() if k[0] in ('exec', 'opt'))}"
        ctx.reach(mode)
        ctx.check(err == e_err, "errors are raised only if requested", key=key)
        ran = [x for x in db.log if x[0] in ("execute", "timeout")]
        ctx.check([x[1] for x in ran] == executed, "every query is executed in order, as often as requested", key=key)
        ctx.check(all((x[0] == "timeout" and x[2] == 30.0) if timeouts else (x[0] == "execute" and x[2] is False and x[3] is True) for x in ran), "queries are executed without cache and with the timeout", key=key)
        if pipe:
            f = [x for x in pipe.log if x[0] == "learn"]
            ctx.check([x[1:3] for x in f] == [x[:2] for x in feedback] or err is not None, "valid executions are provided as feedback", key=key)
            if err is None:
                for a, b in zip(f, feedback):
                    ctx.check(close(a[3], 1000 * b[2]), "feedback contains the execution time in milliseconds", key=key)
        ctx.check(len(called) == len(callbacks) and all(c.query == b[0] and c.status == b[1] and same(c.query_result, b[2]) for c, b in zip(called, callbacks)), "callbacks receive the executed queries and their results", key=key)
        ctx.check(reps == iterations, "repetition callbacks", key=key)
        for c, b in zip(called, callbacks):
            ctx.check(close(c.execution_time, b[4]), "callbacks receive the execution time", key=key)
            ctx.check(close(c.optimization_time, b[3]), "callbacks receive the optimization time", key=key)
        if err is not None:
            return
        ctx.check(len(df) == len(rows), "one row per execution", key=key)
        recs = df.to_dict("records")
        for n, (got, want) in enumerate(zip(recs, rows)):
            for c in ("label", "workload_repetition", "query_repetition", "status", "query_result", "failure_reason", "optimized_query", "db_config"):
                ctx.check(same(got[c], want[c]), f"column {c}", key=key)
            ctx.check(got["query"] == Q[want["label"]], "column query", key=key)
            for c in ("exec_time", "optimization_time"):
                if boxed is None or boxed.DataFrame.used:
                    ctx.check(close(got[c], want[c]), f"column {c}", key=key)
            ctx.check(same(got["optimization_pipeline"], pipe), "column optimization_pipeline", key=key)
            ctx.check(got["exec_index"] == n + 1, "column exec_index", key=key)
    return body


def close(a, b):
    a = a.v if isinstance(a, _Box) else a
    if nan(b):
        return nan(a)
    if nan(a):
        return False
    d = a - b
    return And(d <= 1e-6, d >= -1e-6)


# ---------------------------------------------------------------- preparation
def preparation(ctx):
    proj = ctx.pick("projection", ("none", "star", "*", "count_star", "count(*)", "deprecated"))
    out = ctx.pick("output", ("default", "explain", "analyze", "explain_analyze", "deprecated explain", "deprecated analyze"))
    warm, stmts = bool(ctx.bool("prewarm")), ctx.pick("statements", ((), ("SET a = 1", "SET b = 2")))
    can = bool(ctx.bool("supports prewarming"))
    kw = dict(prewarm=warm, preparatory_statements=list(stmts))
    kw.update({"count_star": True} if proj == "deprecated" else {"projection": proj})
    kw.update({"deprecated explain": {"explain": True}, "deprecated analyze": {"analyze": True}}.get(out, {"output": out}))
    db = make_db(_WarmDb if can else _Db)
    df = clocked(db, lambda: execute_workload([Q["q1"]], db, query_preparation=kw if bool(ctx.bool("dict")) else QueryPreparation(**kw), per_query_repetitions=2))
    want = {"none": "SELECT r.a, r.b", "star": "SELECT *", "*": "SELECT *"}.get(proj, "SELECT COUNT(*)")
    e = {"default": "", "explain": "EXPLAIN", "deprecated explain": "EXPLAIN"}.get(out, "EXPLAIN ANALYZE")
    key = f"{proj}/{out}/{warm}/{stmts}/{can}"
    once = ([("prewarm", frozenset("rs"))] if warm and can and e != "EXPLAIN" else []) + [("execute", s) for s in stmts] + [("describe",), ("execute", None)]
    log = [x for x in db.log]
    got = [(x[0], None if x[0] == "execute" and not isinstance(x[1], str) else x[1]) if len(x) > 1 else x for x in log]
    while got and got[0] == ("describe",) and len(got) > 2 * len(once):
        got = got[1:]
    ctx.reach(out)
    ctx.check(got == once * 2, "tables are prewarmed and statements executed before each execution, and the configuration is determined afterwards", key=key)
    ctx.check(all(x[2] is False for x in log if x[0] == "execute"), "nothing is cached", key=key)
    for x in log:
        if x[0] == "execute" and not isinstance(x[1], str):
            sql = " ".join(str(x[1]).upper().split())
            ctx.check(want.upper() in sql.replace("R.A,R.B", "R.A, R.B") and sql.startswith(e.split()[0] if e else "SELECT") and ("ANALYZE" in sql.split("SELECT")[0]) == (e == "EXPLAIN ANALYZE"), "the query is prepared as requested", key=key)
            q = x[1]
            ctx.check({str(p) for p in [q.where_clause.predicate]} == {str(Q["q1"].where_clause.predicate)} and q.tables() == Q["q1"].tables(), "nothing else changes", key=key)
    ctx.check(list(df["query"]) == [Q["q1"]] * 2 and list(df["query_repetition"]) == [1, 2], "the input query is reported", key=key)


# ---------------------------------------------------------------- output
def output(ctx):
    fmt = ctx.pick("format", ("csv", "json", "parquet"))
    mode = ctx.pick("mode", ("plain", "pipeline"))
    action = ctx.pick("error action", ("log", "ignore"))
    runs = 1 + ctx.choose("earlier benchmarks", 2)
    if runs == 2 and mode == "pipeline" and fmt != "csv":
        raise PathAbort()
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "sub", "out." + fmt)
        expect = []
        for n in range(runs):
            exe = {}
            first = bool(n == 0 and runs == 2)
            draw = lambda i: exe.setdefault(i, "ok" if first else ctx.pick(f"execution {n} {i}", ("ok", "error")))
            opts = {}
            o = lambda i: opts.setdefault(i, True if first else bool(ctx.bool(f"optimization {n} {i}")))
            db = make_db(_Db, draw, lambda i: (i + 1) * 125 * 10**6)
            if fmt == "parquet":
                db.run = _same_type.__get__(db)
            pipe = Pipeline(db, False, o, lambda i: 10**9) if mode == "pipeline" else None
            df = clocked(db, lambda: execute_workload(Workload({l: Q[l] for l in ("q1", "q2")}, "w"), pipe or db, per_query_repetitions=2 if mode == "plain" else 1, workload_repetitions=1 if mode == "plain" else 2, error_action=action, progressive_output=path, name=f"run {n}"))
            expect += df.to_dict("records")
            key = f"{fmt}/{mode}/{action}/{runs}/{n}/{sorted(exe.items())}/{sorted(opts.items())}"
            log = json.load(open(os.path.join(d, "sub", "experiment_log.json")))
            ctx.check([(x["experiment"], x["status"]) for x in log] == [(f"run {i}", "completed") for i in range(n + 1)], "benchmarks are logged", key=key)
        ctx.reach(fmt)
        if not expect:
            ctx.check(not os.path.exists(path), "nothing is written", key=key)
            return
        got = {"csv": lambda: pd.read_csv(path, keep_default_na=True), "json": lambda: pd.read_json(path, orient="records", dtype=False, keep_default_dates=False), "parquet": lambda: pd.read_parquet(path)}[fmt]()
        ctx.check(len(got) == len(expect), "all results are written", key=key)
        for a, b in zip(got.to_dict("records"), expect):
            for c in ("label", "workload_repetition", "query_repetition", "status", "exec_index"):
                ctx.check(a[c] == b[c], f"column {c} is written", key=key)
            for c in ("exec_time", "optimization_time"):
                ctx.check((a[c] is None or math.isnan(a[c])) if math.isnan(b[c]) else abs(a[c] - b[c]) < 1e-6, f"column {c} is written", key=key)
            ctx.check((a["failure_reason"] if isinstance(a["failure_reason"], str) else "") == b["failure_reason"], "column failure_reason is written", key=key)
            ctx.check(result_of(a["query_result"]) == result_of(b["query_result"]), "column query_result is written", key=key)
            ctx.check(load(a["db_config"]) == b["db_config"], "column db_config is written", key=key)
            ctx.check("WHERE" in str(a["query"]) and b["query"] is not None and str(b["query"].where_clause.predicate)[-6:] in str(a["query"]), "column query is written", key=key)
    finally:
        shutil.rmtree(d)


def _same_type(self):
    i = self.count
    self.count += 1
    o = self.outcome(i)
    self.now += self.duration(i)
    if o == "error":
        raise Oops(f"execution {i}")
    return [(i, 1), (i, 2)]


def load(x):
    return json.loads(x) if isinstance(x, str) else x


def result_of(x):
    """results after decoding"""
    if isinstance(x, str):
        try:
            x = json.loads(x)
        except ValueError:
            pass
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return None
    return json.dumps(x) if not isinstance(x, (int, float)) else float(x)


def export(ctx):
    """values are exported as JSON no matter where they occur"""
    vals = [ctx.pick(f"value {i}", (1, None, [1, 2], "x", {"a": 1}, (1, "b"), Q["q1"])) for i in range(3)]
    df = pd.DataFrame({"label": ["a", "b", "c"], "v": pd.Series(vals, dtype=object), "n": [1, 2, 3]})
    res = prepare_export(df)
    structured = any(isinstance(v, (list, dict, tuple)) or v is Q["q1"] for v in vals)
    key = str(vals)
    ctx.reach("structured" if structured else "plain")
    ctx.check(all(a is b or a == b for a, b in zip(df["v"], vals)), "the results are not changed", key=key)
    ctx.check(list(res["label"]) == ["a", "b", "c"] and list(res["n"]) == [1, 2, 3], "other columns are exported unchanged", key=key)
    for a, b in zip(res["v"], vals):
        if isinstance(b, (list, dict, tuple)):
            ctx.check(isinstance(a, str) and json.loads(a) == (list(b) if isinstance(b, tuple) else b), "structured results are exported as JSON", key=key)
        elif b is Q["q1"]:
            ctx.check(isinstance(a, str) and "r.b" in a, "queries are exported as text", key=key)
        else:
            ctx.check(a == b or (b is None and (a is None or a == "null" or a != a)) or (structured and json.loads(a) == b), "plain results are exported unchanged", key=key)
    ctx.check(len(prepare_export(pd.DataFrame())) == 0, "no results", key=key)


# ---------------------------------------------------------------- experiment log
def experiment_log(ctx):
    d = tempfile.mkdtemp()
    try:
        want = []
        for n in range(3):
            ok = bool(ctx.bool(f"benchmark {n} succeeds"))
            name = ctx.pick(f"name {n}", ("x", "y")) if n else "x"
            db = make_db(_Db, lambda i: "ok" if ok else "error")
            try:
                clocked(db, lambda: execute_workload(Workload({"q1": Q["q1"]}, "w"), db, name=name, error_action="raise", progressive_output=os.path.join(d, f"{n}.csv")))
                ctx.check(ok, "errors are raised", key=str(n))
            except Oops:
                ctx.check(not ok, "errors are raised", key=str(n))
            want.append((name, "completed" if ok else "failed"))
            log = json.load(open(os.path.join(d, "experiment_log.json")))
            ctx.check([(x["experiment"], x["status"]) for x in log] == want and all(x["end_time"] for x in log), "the log contains all benchmarks and their state", key=str(want))
            ctx.check(all(("error" in x) == (s == "failed") for x, (_, s) in zip(log, want)), "errors are logged", key=str(want))
        ctx.reach("done")
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- training and targets
def training(ctx):
    need = {k: bool(ctx.bool(f"needs {k}")) for k in ("data", "workload", "samples")}
    fitted, given = bool(ctx.bool("samples fitted")), bool(ctx.bool("samples given"))
    db = make_db(_Db)
    log = []
    p = Pipeline(db, False, lambda i: True, lambda i: 1)
    p.requires_data_training = lambda: need["data"]
    p.requires_workload_training = lambda: need["workload"]
    p.requires_sample_training = lambda: need["samples"]
    p.sample_fit_completed = lambda: fitted
    p.train_on_database = lambda d_: log.append(("data", d_))
    p.train_on_workload = lambda w, d_: log.append(("workload", sorted(w.labels()), d_))
    p.train_on_samples = lambda s: log.append(("samples", s))
    key = f"{need}/{fitted}/{given}"
    try:
        df = clocked(db, lambda: execute_workload(Workload({"q1": Q["q1"]}), p, **({"training_data": "samples"} if given else {})))
        ok = True
    except ValueError:
        ok = False
    ctx.reach("ok" if ok else "missing")
    ctx.check(ok == (not need["samples"] or fitted or given), "missing training data is reported", key=key)
    want = ([("data", db)] if need["data"] else []) + ([("workload", ["q1"], db)] if need["workload"] else []) + ([("samples", "samples")] if need["samples"] and given else [])
    ctx.check(log == want, "the pipeline is trained as required", key=key)
    ctx.check((db.count == 1) == ok and (not ok or len(df) == 1), "queries are executed after the training", key=key)


STAGES = {CompleteOptimizationAlgorithm: IntegratedOptimizationPipeline, JoinOrderOptimization: MultiStageOptimizationPipeline, PhysicalOperatorSelection: MultiStageOptimizationPipeline, ParameterGeneration: MultiStageOptimizationPipeline, PlanEnumerator: TextBookOptimizationPipeline, CostModel: TextBookOptimizationPipeline, IncrementalOptimizationStep: None}


def targets(ctx):
    """single stages are expanded into pipelines for the current database"""
    base = ctx.pick("stage", tuple(STAGES))
    wl = ctx.pick("workload", ("list", "workload", "generator"))
    db = make_db(_Db)
    db.hinting = lambda: types.SimpleNamespace(generate_hints=lambda query, *a, **k: query, supports_hint=lambda h: True)
    db.optimizer = lambda: types.SimpleNamespace(query_plan=lambda q: "plan")
    calls = []
    cls = type("Stage", (base,), {"describe": lambda self: {}, **{m: (lambda self, *a, **k: calls.append(a)) for m in ("optimize_query", "optimize_join_order", "select_physical_operators", "generate_plan_parameters")}})
    cls.__abstractmethods__ = frozenset()
    pool = DatabasePool.get_instance()
    saved = dict(pool._pool)
    pool._pool.clear()
    pool._pool["x"] = db
    queries = [Q["q2"], Q["q1"]]
    w = {"list": queries, "workload": Workload({"b": Q["q2"], "c": Q["q1"]}), "generator": (q for q in queries)}[wl]
    try:
        if base in (PlanEnumerator, CostModel):
            p = bench._wrap_optimization_stage(cls())
            ctx.check(type(p) is STAGES[base] and p.target_database() is db and len(p.stages()) >= 1, "stages are expanded", key=str(base))
            ctx.reach("pipeline")
            return
        try:
            df = clocked(db, lambda: execute_workload(w, cls()))
        except TypeError:
            ctx.check(STAGES[base] is None, "stages are expanded", key=str(base))
            ctx.reach("rejected")
            return
    finally:
        pool._pool.clear()
        pool._pool.update(saved)
    ctx.reach("executed")
    ctx.check(STAGES[base] is not None and [x[1] for x in db.log if x[0] == "execute"] == queries, "all queries are executed in order", key=f"{base}/{wl}")
    ctx.check([c[0] for c in calls] == queries, "the stage optimizes all queries", key=f"{base}/{wl}")
    ctx.check(list(df["query"]) == queries and all(type(p) is STAGES[base] for p in df["optimization_pipeline"]) and list(df["status"]) == ["ok"] * 2, "the pipeline is reported", key=f"{base}/{wl}")


def shuffle(ctx):
    """each repetition executes the whole workload in a new order"""
    import random
    labels = ("q1", "q2", "q10")
    db = make_db(_Db)
    perms = []

    def sample(pop, k=None):
        pop = list(pop)
        out = []
        while pop:
            out.append(pop.pop(ctx.choose(f"draw {len(perms)}/{len(out)}", len(pop))))
        perms.append(out)
        return out
    saved = random.sample
    random.sample = sample
    try:
        df = clocked(db, lambda: execute_workload(Workload({l: Q[l] for l in labels}), db, shuffled=True, workload_repetitions=2))
    finally:
        random.sample = saved
    got = list(df["label"])
    key = str(perms)
    ctx.reach("done")
    ctx.check(sorted(got[:3]) == sorted(labels) and sorted(got[3:]) == sorted(labels) and [LABEL[x[1]] for x in db.log if x[0] == "execute"] == got, "each repetition executes all queries once", key=key)
    ctx.check([Q[l] for l in got] == list(df["query"]) and list(df["workload_repetition"]) == [1] * 3 + [2] * 3 and list(df["exec_index"]) == [1, 2, 3, 4, 5, 6], "labels belong to their queries", key=key)
    if len(perms) == 2:
        ctx.check(got[:3] == perms[0] and got[3:] == perms[1], "each repetition uses its own order", key=key)
    s = sort_results(df.sample(frac=1, random_state=3))
    ctx.check(list(s["label"]) == ["q1", "q1", "q2", "q2", "q10", "q10"] and all(a < b for a, b in zip(list(s["exec_index"])[::2], list(s["exec_index"])[1::2])), "results are sorted naturally", key=key)


def harnesses(tier):
    t = tier == "thorough"
    F = ["execute_workload", "_workload_ctl_loop", "_exec_ctl_loop", "_execute_query", "_optimize_query", "_ResultSample", "_ExecutionResults", "QueryPreparation", "prepare_export", "sort_results", "_init_benchmark_log", "_wrap_optimization_stage"]
    H = lambda n, b, bounds, reach=(): Harness(n, b, functions=F, bounds=bounds, must_reach=list(reach))
    return [H("control", control(t), "2-3 queries, up to 4 executions; all outcomes and times; 7 modes x 4 error actions", MODES),
            H("preparation", preparation, "6 projections x 6 outputs x prewarming x statements", ("explain", "analyze", "default")),
            H("output", output, "3 formats; all outcomes of 4 executions; up to 2 benchmarks", ("csv", "json", "parquet")),
            H("export", export, "3 rows of 7 kinds of values", ("structured", "plain")),
            H("log", experiment_log, "3 benchmarks", ("done",)),
            H("training", training, "all requirements", ("ok", "missing")),
            H("targets", targets, "7 kinds of stages x 3 kinds of workloads", ("executed", "rejected", "pipeline")),
            H("shuffle", shuffle, "all orders of 3 queries, twice", ("done",))]
