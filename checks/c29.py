"""C29: cardinality estimators provide the cardinality of exactly the requested intermediates, from the declared source."""
import itertools
import math
import os
import shutil
import tempfile
import types
import warnings

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Or, Shadow

import pandas as pd
import postbound._core as core
import postbound._hints as hints
import postbound._stages as stages
import postbound.opt._cardinalities as cards
from postbound import TableReference, parse_query, util
from postbound._core import Cardinality
from postbound._hints import JoinTree
from postbound._stages import CardinalityEstimator
from postbound.opt import CardinalityDistortion, PreciseCardinalities, PreComputedCardinalities
from postbound.opt.native import NativeCardinalityEstimator
from postbound.validation import EmptyPreCheck
from postbound.workloads import Workload

LEVEL = "model_checking"
ASSUMPTIONS = ["true and estimated cardinalities are arbitrary non-negative integers (stored ones are 0, 7 or unknown)", "queries are implicit and contain no subqueries", "no other process changes the lookup table"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, hints: NS, stages: NS, cards: NS})
warnings.simplefilter("ignore")

T = {x: TableReference(x) for x in "rstu"}
P = {"rs": "r.a = s.a", "st": "s.b = t.b", "ru": "r.c = u.c", "tu": "t.d < u.d", "r": "r.f > 4", "s": "s.f IN (1, 2)", "rt": "r.e = t.e"}
EDGES = {"chain": ("rs", "st"), "cross": ("rs",), "star": ("rs", "rt", "ru"), "cycle": ("rs", "st", "tu", "ru"), "single": ()}
POST = {"plain": "SELECT * FROM {f}", "count": "SELECT count(*) FROM {f}", "group": "SELECT r.g, max(r.h) FROM {f} GROUP BY r.g", "having": "SELECT r.g FROM {f} GROUP BY r.g HAVING count(*) > 2", "limit": "SELECT r.g FROM {f} LIMIT 3", "order": "SELECT r.g FROM {f} ORDER BY r.g LIMIT 2 OFFSET 1",
        "distinct": "SELECT DISTINCT r.g FROM {f}", "minimum": "SELECT min(r.g), min(r.h) FROM {f} ORDER BY min(r.g)"}


def query(graph, post="plain", filters=("r",), ntab=None):
    tabs = {"chain": "rst", "cross": "rst", "star": "rstu", "cycle": "rstu", "single": "r"}[graph]
    conds = [P[x] for x in EDGES[graph] + tuple(filters)]
    f = ", ".join(tabs) + (" WHERE " + " AND ".join(conds) if conds else "")
    return parse_query(POST[post].format(f=f), accept_set_query=False), tabs


def connected(tabs, edges):
    tabs = set(tabs)
    seen, todo = set(), [min(tabs)]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [y for e in edges if x in e for y in e if y in tabs]
    return seen == tabs


def subsets(tabs):
    return ["".join(c) for n in range(1, len(tabs) + 1) for c in itertools.combinations(tabs, n)]


def key_of(tables):
    return "".join(sorted(t.identifier() for t in tables))


def describe(q):
    """what a query computes"""
    where = [] if q.where_clause is None else [q.where_clause.predicate] if not hasattr(q.where_clause.predicate, "children") or not list(q.where_clause.predicate.children) else list(q.where_clause.predicate.children)
    if q.where_clause is not None and getattr(q.where_clause.predicate, "operation", None) is not None and str(getattr(q.where_clause.predicate.operation, "name", "")).lower() not in ("and",):
        where = [q.where_clause.predicate]
    rest = sorted(type(c).__name__ for c in q.clauses() if type(c).__name__ not in ("Select", "ImplicitFromClause", "From", "Where"))
    return ("".join(sorted(t.identifier() for t in q.tables())), tuple(sorted(str(p) for p in where)), str(q.select_clause).upper().strip(), tuple(rest))


def expected(tabs, graph, filters, projection):
    conds = sorted(P[x] for x in EDGES[graph] + tuple(filters) if set(x) <= set(tabs))
    return ("".join(sorted(tabs)), tuple(conds), projection, ())


class Db:
    """a database whose cardinalities are symbolic and depend on the query and the current state of the data"""

    def __init__(self, ctx, values=None):
        self.ctx, self.log, self.state, self.memo, self.values = ctx, [], 0, {}, values

    def card(self, kind, q):
        k = (kind, self.state, describe(q))
        self.log.append((kind, describe(q)))
        if k not in self.memo:
            self.memo[k] = self.values(kind, k) if self.values else self.ctx.int(f"{kind} {self.state} {len(self.memo)}", 0, 10**6)
        return self.memo[k]

    def execute_query(self, q, **kw):
        return self.card("true", q)

    def optimizer(self):
        return types.SimpleNamespace(cardinality_estimate=lambda q: Cardinality(self.card("estimate", q)))

    def describe(self):
        return {}


COUNT, STAR = "SELECT COUNT(*)", "SELECT *"


def tree(shape):
    return JoinTree.scan(T[shape]) if isinstance(shape, str) else JoinTree.join(tree(shape[0]), tree(shape[1]))


TREES = {"chain": [(("r", "s"), "t"), ("r", ("t", "s")), (("r", "t"), "s"), ("r", "s")], "cross": [(("r", "s"), "t"), (("r", "t"), "s")], "star": [((("r", "s"), "t"), "u"), (("r", "s"), ("t", "u"))], "cycle": [(("r", "s"), ("t", "u")), ("u", ("t", ("s", "r")))], "single": ["r"]}


def leaves(s):
    return s if isinstance(s, str) else leaves(s[0]) + leaves(s[1])


def nodes(s):
    return ["".join(sorted(leaves(s)))] + ([] if isinstance(s, str) else nodes(s[0]) + nodes(s[1]))


# ---------------------------------------------------------------- all estimates of a query
def intermediates(ctx):
    graph = ctx.pick("graph", tuple(EDGES))
    cross = bool(ctx.bool("cross products"))
    q, tabs = query(graph)
    val, special = {}, {}
    full = subsets(tabs)
    odd = ctx.pick("special estimate", (None, *full))
    how = ctx.pick("special value", ("unknown", "infinite")) if odd else None
    asked = []

    class Est(CardinalityEstimator):
        def calculate_estimate(self, q_, inter):
            k = key_of(util.enlist(inter) if not isinstance(inter, (set, frozenset)) else inter)
            asked.append((q_, k))
            if k == odd:
                return Cardinality.unknown() if how == "unknown" else Cardinality.infinite()
            if k not in val:
                val[k] = Cardinality(ctx.int(f"card {k}", 0, 10**6))
            return val[k]

        def describe(self):
            return {}
    e = Est(allow_cross_products=cross)
    shape = ctx.pick("join order", (None, *range(len(TREES[graph]))))
    if shape is None:
        want = [k for k in full if cross or connected(k, EDGES[graph])]
        res = e.estimate_cardinalities(q) if bool(ctx.bool("direct")) else e.generate_plan_parameters(q, None, None)
        gen = [key_of(x) for x in e.generate_intermediates(q)]
        ctx.check(sorted(gen) == sorted(want), "all intermediates are generated once", key=f"{graph}/{cross}")
    else:
        want = nodes(TREES[graph][shape])
        res = e.generate_plan_parameters(q, tree(TREES[graph][shape]), None)
    key = f"{graph}/{cross}/{shape}/{odd}"
    ctx.reach("all" if shape is None else "join order")
    got = {key_of(k): v for k, v in res.cardinalities.items()}
    ctx.check(len(got) == len(res.cardinalities) and set(got) == set(want) - ({odd} if how == "unknown" else set()), "exactly the intermediates have a cardinality", key=key)
    ctx.check(all(x is q for x, _ in asked), "estimates are for the query", key=key)
    for k, v in got.items():
        if k == odd:
            ctx.check(v.isinf(), "cardinalities are the estimates", key=key + k)
        else:
            ctx.check(k in val and And(v.is_valid(), v.value == val[k].value), "cardinalities are the estimates", key=key + k)
    ctx.check(not res.parallel_workers and not res.system_settings, "nothing else is set", key=key)


# ---------------------------------------------------------------- estimates by a database system
def database(ctx):
    graph, post = ctx.pick("graph", ("chain", "cycle", "cross", "single")), ctx.pick("query", tuple(POST))
    q, tabs = query(graph, post, ("r", "s") if "s" in {"chain": "s", "cycle": "s", "cross": "s"}.get(graph, "") else ("r",))
    filters = ("r", "s") if graph != "single" else ("r",)
    kind = ctx.pick("estimator", ("precise", "native", "live actual", "live estimated", "distorted"))
    inter = ctx.pick("intermediate", tuple(subsets(tabs)))
    db = Db(ctx, None if not kind.startswith("live") else lambda *a: 7)
    arg = T[inter] if len(inter) == 1 and bool(ctx.bool("plain table")) else [T[x] for x in inter] if bool(ctx.bool("list")) else frozenset(T[x] for x in inter)
    ctx.reach(kind)
    proj = COUNT if kind in ("precise", "live actual") else STAR
    if kind == "precise":
        e = PreciseCardinalities(db)
    elif kind == "native":
        e = NativeCardinalityEstimator(db) if bool(ctx.bool("database given")) else NativeCardinalityEstimator()
        e.initialize(db, q)
    elif kind == "distorted":
        e = CardinalityDistortion(NativeCardinalityEstimator(), 1.0)
        e.initialize(db, q)
    else:
        d = tempfile.mkdtemp()
        try:
            write(d, [])
            e = PreComputedCardinalities(WL({"1": q}), os.path.join(d, "x.csv"), live_fallback=True, live_db=db, live_fallback_style=kind.split()[1], save_live_fallback_results=False)
        finally:
            shutil.rmtree(d)
    c = e.calculate_estimate(q, arg)
    key = f"{graph}/{post}/{kind}/{inter}"
    want = (("true" if proj == COUNT else "estimate"), expected(inter, graph, filters, proj))
    ctx.check(db.log == [want], "the database system computes the requested intermediate", key=key)
    ctx.check(isinstance(c, Cardinality) and And(c.is_valid(), c.value == list(db.memo.values())[0]), "the cardinality of the database system", key=key)


def WL(queries):
    return Workload(queries, "w")


# ---------------------------------------------------------------- caching
def caching(n):
    def body(ctx):
        enabled = bool(ctx.bool("cache"))
        qs = [query("chain", "plain", f)[0] for f in (("r",), ("s",))]
        db = Db(ctx)
        e = PreciseCardinalities(db, enable_cache=enabled) if enabled or bool(ctx.bool("explicit")) else PreciseCardinalities(db)
        last, key = {}, str(enabled)
        for i in range(n):
            a = ctx.pick(f"action{i}", ("rs of 0", "rs of 1", "st of 0", "st of 1", "shift", "reset"))
            key += "/" + a
            if a == "shift":
                db.state += 1
            elif a == "reset":
                e.reset_cache()
                last = {}
            else:
                inter, j = a.split(" of ")
                before = len(db.log)
                c = e.calculate_estimate(qs[int(j)], [T[x] for x in inter])
                d = expected(inter, "chain", ("r", "s")[int(j)], COUNT)
                cached = enabled and d in last
                ctx.check(len(db.log) == before + (0 if cached else 1), "cached cardinalities are not computed again, all others are", key=key)
                want = last[d] if cached else db.memo.get(("true", db.state, d))
                ctx.check(want is not None and And(c.is_valid(), c.value == want), "the cardinality is that of the intermediate", key=key)
                last[d] = want
        ctx.reach("enabled" if enabled else "disabled")
    return body


# ---------------------------------------------------------------- lookup tables
COLS = ("label", "tables", "cardinality")


def write(d, rows, cols=COLS, extra=False):
    df = pd.DataFrame([[l, util.to_json([T[x] for x in i]), c] + (["q", "f", 1] if extra else []) for l, i, c in rows], columns=list(cols) + (["query", "query_fragment", "other"] if extra else []))
    df.to_csv(os.path.join(d, "x.csv"), index=False)


def lookup(n, labels_=(("1a", "1b"), ("1", "2"), ("01", "1"))):
    def body(ctx):
        special = ctx.pick("special", ("none", "columns", "more columns", *range(1, len(labels_))))
        labels = labels_[special if isinstance(special, int) else 0]
        qs = {l: query("chain", "count", (f,))[0] for l, f in zip(labels, ("r", "s"))}
        cols = ("id", "joins", "rows") if special == "columns" else COLS
        stored = {}
        base = {(labels[0], "rs"): 0, (labels[0], "r"): 7, (labels[1], "rs"): 12, (labels[1], "rst"): 10**9}
        drop = ctx.pick("missing", (None, 0, 2) if special == "none" else (None, 2))
        for i, (k, v) in enumerate(base.items()):
            if i != drop:
                stored[k] = v
        live = ctx.pick("live", (None, "actual", "estimated"))
        default = ctx.pick("default", (None, 0, "unknown", 5)) if live is None else None
        strict = bool(ctx.bool("errors")) if live is None else True
        save = bool(ctx.bool("save")) if live else False
        extra = special == "more columns"
        draws = []

        def value(kind, k):
            v = 100 + len(draws) if kind == "true" or draws else ctx.pick("estimated", (0, 101, math.nan))
            draws.append(v)
            return v
        db = Db(ctx, value)
        d = tempfile.mkdtemp()
        try:
            write(d, [(l, i, v) for (l, i), v in stored.items()], cols, extra)
            path = os.path.join(d, "x.csv")
            kw = dict(label_col=cols[0], tables_col=cols[1], cardinality_col=cols[2])
            before = open(path).read()
            dflt = None if default is None else Cardinality.unknown() if default == "unknown" else Cardinality(default)
            opt = dict(live_fallback=True, live_db=db, live_fallback_style=live, save_live_fallback_results=save) if live else dict(error_on_missing_card=strict, default_cardinality=dflt)
            e = PreComputedCardinalities(WL(qs), path, **kw, **opt)
            key = f"{labels}/{drop}/{live}/{default}/{strict}/{save}"
            for i in range(n):
                l, inter = labels[ctx.choose(f"query {i}", 2)], ctx.pick(f"intermediate {i}", ("rs", "st", "rst") if n < 3 else ("rs", "st"))
                key += f"/{l}:{inter}"
                log = len(db.log)
                tabs = [T[x] for x in (inter if i % 2 else reversed(inter))]
                try:
                    c = e.calculate_estimate(qs[l], tabs)
                except ValueError:
                    c = None
                k = (l, inter)
                if k in stored:
                    want = stored[k]
                    ctx.check(len(db.log) == log, "stored cardinalities are not computed again", key=key)
                elif live:
                    d_ = expected(inter, "chain", ("r", "s")[labels.index(l)], COUNT if live == "actual" else STAR)
                    ctx.check(db.log[log:] == [("true" if live == "actual" else "estimate", d_)], "missing cardinalities are computed by the database system", key=key)
                    want = db.memo.get(("true" if live == "actual" else "estimate", 0, d_))
                    if save:
                        stored[k] = want
                elif default is not None:
                    want = math.nan if default == "unknown" else default
                else:
                    want = None if strict else math.nan
                ctx.reach("missing" if want is None else "stored" if k in stored else "fallback")
                ok = c is None if want is None else isinstance(c, Cardinality) and (c.isnan() if math.isnan(want) else c.is_valid() and c.value == want)
                ctx.check(ok, "the cardinality of the intermediate", key=key)
            if not save:
                ctx.check(open(path).read() == before, "the lookup table is unchanged", key=key)
            # a new process reads the same cardinalities
            again = PreComputedCardinalities(WL(qs), path, **kw, error_on_missing_card=False, default_cardinality=Cardinality(-5))
            for l in labels:
                for inter in ("r", "rs", "st", "rst"):
                    c = again.calculate_estimate(qs[l], [T[x] for x in inter])
                    want = stored.get((l, inter), -5)
                    ctx.check(c.isnan() if math.isnan(want) else c.is_valid() and c.value == want, "stored cardinalities can be read again", key=f"{key}?{l}:{inter}")
            df = pd.read_csv(path)
            ctx.check(len(df) == len(stored) and list(df.columns) == list(cols) + (["query", "query_fragment", "other"] if extra else []), "the format of the lookup table is kept", key=key)
        finally:
            shutil.rmtree(d)
    return body


# ---------------------------------------------------------------- distortion
def distortion(ctx):
    how = ctx.pick("strategy", ("fixed", "random"))
    f = ctx.pick("factor", (0.5, 1.3, 1.0, 2.0, 0.125, 10.0))
    kind = ctx.pick("estimate", ("known", "unknown", "infinite"))
    n = ctx.int("card", 0, 10**6)
    calls, check, cross = [], EmptyPreCheck(), bool(ctx.bool("cross products"))

    class Est(CardinalityEstimator):
        def calculate_estimate(self, q_, inter):
            calls.append(("estimate", q_, inter))
            return Cardinality(n) if kind == "known" else Cardinality.unknown() if kind == "unknown" else Cardinality.infinite()

        def initialize(self, *a):
            calls.append(("initialize", *a))

        def cleanup(self):
            calls.append(("cleanup",))

        def pre_check(self):
            return check

        def describe(self):
            return {}
    rnd = types.SimpleNamespace(uniform=lambda a, b: ctx.real("draw", min(a, b), max(a, b)), random=lambda: ctx.real("draw", 0, 1))
    saved = cards.random
    cards.random = rnd
    try:
        q, _ = query("chain")
        e = CardinalityDistortion(Est(allow_cross_products=cross), f, distortion_strategy=how)
        ctx.check(e.allow_cross_products == cross and e.pre_check() is check, "the requirements of the estimator apply", key="x")
        e.initialize("db", q)
        r = e.calculate_estimate(q, [T["r"], T["s"]])
        e.cleanup()
    finally:
        cards.random = saved
    key = f"{how}/{f}/{kind}"
    ctx.reach(kind)
    ctx.check(calls == [("initialize", "db", q), ("estimate", q, [T["r"], T["s"]]), ("cleanup",)], "the estimator is used as usual", key=key)
    ctx.check(isinstance(r, Cardinality), "estimates are cardinalities", key=key)
    if kind != "known":
        ctx.check(not r.is_valid(), "unknown estimates stay unknown", key=key)
        return
    ctx.check(r.is_valid(), "estimates are known", key=key)
    v = r.value
    lo, hi = (f, f) if how == "fixed" else (min(f, 1.0), max(f, 1.0))
    ctx.check(And(2 * v >= 2 * lo * n - 1, 2 * v <= 2 * hi * n + 1), "the error is the distortion factor, or (random) at most the distortion factor", key=key)


def harnesses(tier):
    t = tier == "thorough"
    F = ["CardinalityEstimator.generate_intermediates", "CardinalityEstimator.estimate_cardinalities", "CardinalityEstimator.generate_plan_parameters", "PreciseCardinalities", "PreComputedCardinalities", "CardinalityDistortion", "NativeCardinalityEstimator"]
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [H("intermediates", intermediates, "5 join graphs of up to 4 tables; all cardinalities, one of them unknown or infinite; all orders or one of 11 join orders", ("all", "join order")),
            H("database", database, "4 join graphs x 8 kinds of queries x all intermediates x 5 estimators", ("precise", "native", "live actual", "live estimated", "distorted")),
            H("caching", caching(5 if t else 4), f"all sequences of {5 if t else 4} actions; all cardinalities at all times", ("enabled", "disabled")),
            H("lookup", lookup(2), "lookup tables of up to 4 entries, 2 lookups, all options", ("missing", "stored", "fallback")),
            *([H("lookup-long", lookup(3, (("1a", "1b"),)), "3 lookups", ("missing", "stored", "fallback"))] if t else []),
            H("distortion", distortion, "all cardinalities; 6 factors; all draws", ("known", "unknown", "infinite"))]
