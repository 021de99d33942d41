"""C27: UES computes complete join orders without cross products, chooses the lowest bounds, and its bounds hold."""
import itertools
import warnings

import z3

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Not, Shadow, SymInt, bterm

from checks.c24 import first_min
from checks.c25 import norm, split
import postbound._core as core
import postbound.opt.ues as ues
from postbound import TableReference, parse_query
from postbound._core import Cardinality, ColumnReference, JoinOperator
from postbound._stages import CardinalityEstimator
from postbound.opt import JoinGraph
from postbound.opt.ues import (BaseTableEstimator, JoinEstimator, LinearJoinTreePolicy, MaxFrequencyStats, NativeCardinalityEstimator, PreciseCardinalityEstimator, UESBoundEstimator,
                               UESJoinOrderOptimizer, UESOperatorSelection, UESSubqueryPolicy)

LEVEL = "model_checking"
ASSUMPTIONS = ["implicit queries with binary equijoins (the UES pre-check); primary keys are unique and never NULL",
               "statistics are exact or too large: base table estimates are not smaller than the number of rows, frequencies not smaller than the number of rows with the same value",
               "the structure of join orders is checked with arbitrary bounds per join predicate, the bounds with the most frequent values of small tables"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, ues: NS | {"min": first_min}})
F = ["UESJoinOrderOptimizer.optimize_join_order", "_default_ues_optimizer", "_star_query_optimizer", "_binary_join_optimization", "_insert_pk_joins", "UESBoundEstimator", "MaxFrequencyStats",
     "StatsContainer.trigger_frequency_update", "UESSubqueryPolicy.generate_subquery_for"]
warnings.simplefilter("ignore")

GRAPHS = {
    "pair": ("SELECT * FROM r, s WHERE r.a = s.a AND r.c > 1", [("r.a", "s.a")]),
    "two": ("SELECT * FROM r, s WHERE r.a = s.a AND s.b = r.b", [("r.a", "s.a"), ("s.b", "r.b")]),
    "chain": ("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b", [("r.a", "s.a"), ("s.b", "t.b")]),
    "same": ("SELECT * FROM r, s, t WHERE r.a = s.a AND t.a = s.a", [("r.a", "s.a"), ("t.a", "s.a")]),
    "triangle": ("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND t.a = r.b", [("r.a", "s.a"), ("s.b", "t.b"), ("t.a", "r.b")]),
    "self": ("SELECT * FROM r AS x, r AS y, s WHERE x.a = y.b AND y.a = s.a", [("x.a", "y.b"), ("y.a", "s.a")]),
    "star": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND r.b = t.a AND r.c = u.a", [("r.a", "s.a"), ("r.b", "t.a"), ("r.c", "u.a")]),
    "chain4": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.a AND t.b = u.a", [("r.a", "s.a"), ("s.b", "t.a"), ("t.b", "u.a")]),
    "cycle": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.a AND t.b = u.a AND u.b = r.b", [("r.a", "s.a"), ("s.b", "t.a"), ("t.b", "u.a"), ("u.b", "r.b")]),
    "hub": ("SELECT * FROM r, s, t, u WHERE s.a = r.a AND t.a = r.a AND u.a = r.a", [("s.a", "r.a"), ("t.a", "r.a"), ("u.a", "r.a")]),
    "parts": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND t.a = u.a AND t.b = 1", [("r.a", "s.a"), ("t.a", "u.a")]),
    "alone": ("SELECT * FROM r, s, t WHERE r.a = s.a AND t.a > 1", [("r.a", "s.a")]),
    "cross": ("SELECT * FROM r, s", []),
    "single": ("SELECT * FROM r WHERE r.a = 1", []),
}
QUERIES = {k: parse_query(v[0], accept_set_query=False) for k, v in GRAPHS.items()}


class Schema:
    def __init__(self, kinds):
        self.kinds = kinds

    def is_primary_key(self, column):
        return self.kinds[column.table.full_name, column.name] == "primary"

    def has_secondary_index(self, column):
        return self.kinds[column.table.full_name, column.name] == "secondary"


class Stats:
    """most common values, distinct values and rows as in the catalogs"""
    cache_enabled = True

    def __init__(self, freqs=None, rows=None, distinct=None):
        self.freqs, self.rows, self.distinct, self.asked = freqs, rows or {}, distinct or {}, []

    def most_common_values(self, column, *, k=10, emulated=None, cache_enabled=None):
        f = self.freqs[column.table.full_name, column.name]
        return [] if f is None else [("v", f), ("w", 1)][:k]

    def total_rows(self, table, *, emulated=None, cache_enabled=None):
        self.asked.append((table.identifier(), emulated))
        return self.rows[table.full_name]

    def num_distinct(self, column, *, emulated=None, cache_enabled=None):
        return self.distinct[column.table.full_name, column.name]

    distinct_values = num_distinct


class Hinting:
    def __init__(self, ops):
        self.ops = ops

    def supports_hint(self, op):
        return op in self.ops


class Optimizer:
    def __init__(self, answers):
        self.answers, self.asked = answers, []

    def cardinality_estimate(self, query):
        self.asked.append(str(query))
        return self.answers


class Database:
    def __init__(self, kinds=None, stats=None, ops=(), answer=None):
        self.a, self.b, self.c, self.d = Schema(kinds or {}), stats or Stats(), Hinting(ops), Optimizer(answer)
        self.asked = []

    schema = lambda self: self.a
    statistics = lambda self: self.b
    hinting = lambda self: self.c
    optimizer = lambda self: self.d
    describe = lambda self: {}

    def execute_query(self, query, *, cache_enabled=None, **kw):
        self.asked.append((str(query), cache_enabled))
        return self.d.answers


class Base(BaseTableEstimator):
    def __init__(self, rows):
        super().__init__("rows")
        self.rows = rows

    def setup_for_query(self, query):
        self.query = query

    def estimate_for(self, table):
        return Cardinality(self.rows[table.identifier()])

    def estimate_total_rows(self, table):
        return self.estimate_for(table)

    def describe(self):
        return {}


class Bounds(JoinEstimator):
    """an arbitrary bound for every join predicate"""

    def __init__(self, bound):
        super().__init__("bounds")
        self.bound = bound

    def setup_for_query(self, query):
        self.query = query

    def estimate_for(self, join_edge, join_graph):
        return Cardinality(self.bound(join_edge))

    def describe(self):
        return {}


def spell(name):
    return {t.identifier(): t for t in QUERIES[name].tables()}


def between(es, xs, ys):
    return [e for e in es if (e[0][0] in xs and e[1][0] in ys) or (e[1][0] in xs and e[0][0] in ys)]


def text(e):
    return " = ".join(sorted(e))


def ids(tree):
    return "".join(sorted(t.identifier() for t in tree.tables()))


def draw(tree):
    return tree.base_table.identifier() if tree.is_scan() else f"({draw(tree.outer_child)}{draw(tree.inner_child)})"


def parts_of(es, xs):
    out, rest = [], set(xs)
    while rest:
        seen, todo = set(), [min(rest)]
        while todo:
            x = todo.pop()
            seen.add(x)
            todo += [y for y in xs if y not in seen and between(es, [x], [y])]
        out.append("".join(sorted(seen)))
        rest -= seen
    return sorted(out)


def valid(ctx, name, tree, key):
    """every table once and no needless cross products"""
    es, tabs = GRAPHS[name][1], spell(name)
    ctx.check(tree is not None and sorted(t.identifier() for t in tree.itertables()) == sorted(tabs), "the join order contains every table once", key=key)
    cross = [j for j in tree.iterjoins() if not between(es, ids(j.outer_child), ids(j.inner_child))]
    ps = parts_of(es, tabs)
    ctx.check(len(cross) == len(ps) - 1, "no cross products within connected parts", key=key)
    ctx.check(all(ids(n) in ps for j in cross for n in [j.inner_child]), "cross products join complete parts", key=key)
    return ps


def setup(ctx, name, kinds, special=None):
    tabs = spell(name)
    cols = sorted({c for e in GRAPHS[name][1] for c in e})
    keys = list(dict.fromkeys((tabs[c[0]].full_name, c[2:]) for c in cols))
    ks = {k: ctx.pick("".join(k), kinds) for k in keys}
    return tabs, {c: ks[tabs[c[0]].full_name, c[2:]] for c in cols}, ks


# ---------------------------------------------------------------- structure and choices for arbitrary bounds
def orders(name, kinds, policies=("ues", "linear"), eager=(False, True)):
    es = GRAPHS[name][1]

    def body(ctx):
        tabs, cols, ks = setup(ctx, name, kinds)
        pol, eag = ctx.pick("policy", policies), ctx.pick("eager", eager)
        rows = {x: ctx.int(f"rows {x}", 0, 10 ** 6) for x in tabs}
        K = {}

        def bound(p):
            k = "&".join(sorted(norm(x) for x in split(p)))
            if k not in K:
                K[k] = ctx.int("bound " + k, 0, 10 ** 6)
            return K[k]
        key = f"{name}/{''.join(k[0] for k in ks.values())}/{pol}{eag}"
        stats = MaxFrequencyStats(Stats({k: 1 for k in ks}))
        opt = UESJoinOrderOptimizer(base_table_estimation=Base(rows), join_estimation=Bounds(bound), subquery_policy=LinearJoinTreePolicy() if pol == "linear" else UESSubqueryPolicy(),
                                    stats_container=stats, pull_eager_pk_tables=eag, database=Database(ks))
        tree = opt.optimize_join_order(QUERIES[name])
        key += "/" + draw(tree)
        ctx.reach("done")
        ps = valid(ctx, name, tree, key)
        if pol == "linear" and len(ps) == 1:
            ctx.check(tree.is_linear(), "the linear policy produces linear join orders", key=key)
        for n in tree.iterjoins():
            e = between(es, ids(n.outer_child), ids(n.inner_child))
            if e:
                us = [K[k] for k in K if any(text(x) in k.split("&") for x in e)]
                ctx.check(any_eq(n.annotation, us), "a join is annotated with the bound of one of its predicates", key=key)
            else:
                ctx.check(n.annotation == n.outer_child.annotation * n.inner_child.annotation, "a cross product is annotated with its size", key=key)
        leaves = [n for n in tree.iternodes() if n.is_scan()]
        first = leaves[0]
        for n in leaves:
            if n is not first or len(ps) > 1:
                if not any(n is f for f in firsts(tree, ps)):
                    ctx.check(n.annotation == rows[n.base_table.identifier()], "base tables are annotated with their estimates", key=key)
        if len(ps) > 1:
            subs = roots(tree, ps)
            for a, b in zip(subs, subs[1:]):
                ctx.check(a.annotation <= b.annotation, "smaller parts come first in cross products", key=key)
            return
        if len(tabs) < 3:
            return
        # greedy choices
        g = JoinGraph(QUERIES[name], Schema(ks))
        nm = g.contains_free_n_m_joins()
        if nm:
            cand = {}
            for p in g.available_n_m_join_paths(both_directions_on_initial=True):
                t = p.target_table
                cand[t.identifier()] = [rows[t.identifier()]] + [bound(q.join_condition) for q in g.available_pk_fk_joins_for(t)]
            f = first.base_table.identifier()
            ctx.check(f in cand, "the first table takes part in an n:m join", key=key)
            mine = cand[f]
            for o, ys in cand.items():
                if o != f:
                    for y in ys:
                        ctx.check(any_le(mine, y), "the first table has the lowest bound", key=key)
        if all(k == "none" for k in ks.values()) or not nm:
            ctx.reach("greedy")
            seen = ""
            spine = []
            n = tree
            while n.is_join():
                spine.insert(0, n)
                n = n.outer_child
            seen = n.base_table.identifier()
            for i, j in enumerate(spine):
                new = ids(j.inner_child)
                mine = [u for k, u in K.items() if any(text(x) in k.split("&") for x in between(es, seen, new))]
                for y in tabs:
                    if y not in seen and y != new:
                        for x in (seen if i or nm else tabs):
                            for e in between(es, [x], [y]):
                                us = [u for k, u in K.items() if text(e) in k.split("&")]
                                for u in us:
                                    ctx.check(any_le(mine, u), "the join with the lowest bound comes next", key=key)
                seen += new
    return Harness(f"orders_{name}", body, shadow=SH, functions=F, must_reach=("done",), bounds={"graph": name, "kinds of columns": len(kinds), "rows and bounds": "arbitrary up to 10^6", "policies": list(policies), "eager": list(eager)})


def any_eq(x, us):
    from vx.sym import Or
    return Or(False, *[x == u for u in us])


def any_le(xs, y):
    from vx.sym import Or
    return Or(False, *[x <= y for x in xs])


def roots(tree, ps):
    if ids(tree) in ps:
        return [tree]
    return roots(tree.outer_child, ps) + roots(tree.inner_child, ps)


def firsts(tree, ps):
    out = []
    for r in roots(tree, ps):
        while r.is_join():
            r = r.outer_child
        out.append(r)
    return out


# ---------------------------------------------------------------- bounds hold
def bounds(name, kinds, rows, freqs, policies=("ues", "linear"), eager=(False,)):
    es = GRAPHS[name][1]

    def body(ctx):
        tabs, cols, ks = setup(ctx, name, kinds)
        full = {t.full_name for t in tabs.values()}
        n = {x: ctx.pick(f"rows {x}", rows) for x in sorted(full)}
        fr = {}
        for k, kind in ks.items():
            fr[k] = 1 if kind == "primary" else min(n[k[0]], ctx.pick("freq " + "".join(k), freqs)) if len(freqs) > 1 else min(n[k[0]], freqs[0])
        pol, eag = ctx.pick("policy", policies), ctx.pick("eager", eager)
        key = f"{name}/{''.join(k[0] for k in ks.values())}/{list(n.values())}{list(fr.values())}/{pol}{eag}"
        opt = UESJoinOrderOptimizer(base_table_estimation=Base({x: n[t.full_name] for x, t in tabs.items()}), subquery_policy=LinearJoinTreePolicy() if pol == "linear" else UESSubqueryPolicy(),
                                    stats_container=MaxFrequencyStats(Stats(fr)), pull_eager_pk_tables=eag, database=Database(ks))
        tree = opt.optimize_join_order(QUERIES[name])
        ctx.reach("done")
        data = {}
        for (t, c), f in fr.items():
            data[t, c] = col = [ctx.int(f"{t}{c}{i}", 0, 6) for i in range(n[t])]
            for sub in itertools.combinations(col, f + 1):
                ctx.assume(Not(And(*[a == b for a, b in zip(sub, sub[1:])])))
        for j in [x for x in tree.iternodes()]:
            ts = ids(j)
            use = [e for e in es if e[0][0] in ts and e[1][0] in ts]
            conds = []
            for rows_ in itertools.product(*[range(n[tabs[x].full_name]) for x in ts]):
                at = dict(zip(ts, rows_))
                conds.append(And(True, *[data[tabs[l[0]].full_name, l[2:]][at[l[0]]] == data[tabs[r[0]].full_name, r[2:]][at[r[0]]] for l, r in use]))
            bound = j.annotation
            what = "the bound of a join is not smaller than its result" if j.is_join() else "the bound of a table is not smaller than the table"
            k2 = f"{key}/{draw(tree)} {ts}"
            b = int(float(bound))
            if len(conds) <= b:
                ctx.check(True, what, key=k2)
            else:
                ctx.check(SymInt(z3.Sum([z3.If(bterm(c), 1, 0) for c in conds])) <= b, what, key=k2)
    return Harness(f"bounds_{name}", body, functions=F, must_reach=("done",), bounds={"graph": name, "kinds of columns": len(kinds), "rows": list(rows), "frequencies": list(freqs), "values": "arbitrary"})


# ---------------------------------------------------------------- formulas
def formula(ctx):
    name = ctx.pick("graph", ("pair", "two"))
    tabs, cols, ks = setup(ctx, name, ("primary", "secondary", "none"))
    rows = {x: ctx.int(f"rows {x}", 0, 10 ** 6) for x in tabs}
    fr = {k: ctx.pick("freq " + "".join(k), (1, 3) if name == "two" else (1, 2, 7, 1000)) for k in ks}
    st = MaxFrequencyStats(Stats(fr))
    q = QUERIES[name]
    st.setup_for_query(q, Base(rows))
    est = UESBoundEstimator()
    est.setup_for_query(q)
    est.setup_for_stats(st)
    g = JoinGraph(q, Schema(ks))
    own = ctx.choose("own bound", 2)
    if own:
        st.upper_bounds[tabs["s"]] = Cardinality(ctx.int("bound s", 0, 10 ** 6))
    got = est.estimate_for(q.predicates().joins_between(tabs["r"], tabs["s"]), g)
    key = f"{name}/{ks}{fr}{own}"
    br, bs = rows["r"], st.upper_bounds[tabs["s"]].value if own else rows["s"]
    hit = False
    cands = []
    for l, r in GRAPHS[name][1]:
        a, b = (l, r) if l[0] == "r" else (r, l)
        fa, fb = fr[a[0], a[2:]], fr[b[0], b[2:]]
        pk = lambda f, p: any(ks[x[0], x[2:]] != "none" and ks[y[0], y[2:]] == "primary" for e in GRAPHS[name][1] for x, y in (e, e[::-1]) if x[0] == f and y[0] == p)
        if pk("r", "s"):
            cands.append(fa * rows["s"])
        elif pk("s", "r"):
            cands.append(fb * rows["r"])
        else:
            cands.append(first_min(br * fb, bs * fa))
    v = got.value if not isinstance(got.value, Cardinality) else got.value.value
    ctx.check(v == first_min(cands), "the bound of a join is that of its most selective predicate", key=key)
    ctx.reach("done")


FORMULA = Harness("formula", formula, shadow=SH, functions=["UESBoundEstimator.estimate_for", "_estimate_pk_fk_join", "_estimate_n_m_join"], must_reach=("done",), bounds={"rows": "arbitrary up to 10^6", "frequencies": 4})


def base(ctx):
    """estimates of base tables ask for the right rows"""
    which = ctx.pick("estimator", ("native", "precise", "wrapped"))
    q = parse_query("SELECT * FROM r, s AS x, t WHERE r.a = x.a AND r.b = t.b AND x.c > 1 AND x.b IN (1, 2) AND t.a = 1", accept_set_query=False)
    tabs = {t.identifier(): t for t in q.tables()}
    ans = ctx.int("answer", 0, 10 ** 9)
    total = {x: ctx.int("total " + x, 0, 10 ** 9) for x in "rst"}
    db = Database(stats=Stats(rows=total), answer=ans)
    calls = []

    class Est(CardinalityEstimator):
        def initialize(self, d, query):
            self.q = query
            calls.append(("init", d is db, str(query)))

        def cleanup(self):
            self.q = None
            calls.append(("clean",))

        def calculate_estimate(self, query, inter):
            calls.append(("estimate", self.q is query, str(query), inter))
            return Cardinality(ans)

        def describe(self):
            return {}
    est = {"native": lambda: NativeCardinalityEstimator(db), "precise": lambda: PreciseCardinalityEstimator(db),
           "wrapped": lambda: UESJoinOrderOptimizer(base_table_estimation=Est(), database=db).base_table_estimation}[which]()
    est.setup_for_query(q)
    exp = {"r": [], "x": ["x.b IN (1, 2)", "x.c > 1"], "t": ["t.a = 1"]}
    x = ctx.pick("table", sorted(tabs))
    t = tabs[x]
    val = lambda c: c.value if isinstance(c, Cardinality) else c
    got = est.estimate_for(t)
    asked = db.d.asked if which == "native" else [a for a, _ in db.asked]
    ctx.reach(which)
    if which == "wrapped":
        ctx.check(val(got) == ans and calls == [("init", True, str(q)), ("estimate", True, str(q), t)], "estimates for base tables belong to the query", key=x)
        calls.clear()
        got = est.estimate_total_rows(t)
        star = calls[2][2]
        p = parse_query(star)
        ctx.check(val(got) == ans and [c[0] for c in calls] == ["clean", "init", "estimate", "clean", "init"] and calls[1][2] == star and calls[2][1] and calls[4][2] == str(q), "total rows use a query over the table", key=x)
        ctx.check([u for u in p.tables()] == [t] and p.where_clause is None and p.is_implicit() and p.select_clause.is_star(), "total rows have no filters", key=x)
        return
    if which == "native" and not exp[x]:
        ctx.check(not asked and val(got) == total[t.full_name], "unfiltered tables have all their rows", key=x)
    else:
        ctx.check(len(asked) == 1 and val(got) == ans, "the database is asked once", key=x)
        p = parse_query(asked[0])
        ctx.check(list(p.tables()) == [t] and sorted(str(f) for f in (split(p.where_clause.predicate) if p.where_clause else [])) == exp[x], "the filters of the table are used", key=x)
        ctx.check(str(p.select_clause) == ("SELECT COUNT(*)" if which == "precise" else "SELECT *"), "the right result is asked for", key=x)
    n = len(db.b.asked)
    ctx.check(val(est.estimate_total_rows(t)) == total[t.full_name] and db.b.asked[n:] == [(x, which == "native")], "total rows of the table", key=x)


BASE = Harness("base", base, shadow=SH, functions=["NativeCardinalityEstimator", "PreciseCardinalityEstimator", "_CardinalityEstimatorWrapper"], must_reach=("native", "precise", "wrapped"), bounds={"tables": 3})


def settings(ctx):
    """frequencies without statistics, operator selection, simple queries"""
    kind = ctx.pick("what", ("uniform", "operators", "single", "cross"))
    if kind == "uniform":
        n, d = ctx.int("rows", 0, 10 ** 6), ctx.pick("distinct", (1, 2, 10, None))
        none = ctx.choose("unknown rows", 2)
        q = QUERIES["pair"]
        known = ctx.int("frequency", 1, 10 ** 6)
        st = MaxFrequencyStats(Stats({("r", "a"): None, ("s", "a"): known}, {"r": None if none else n}, {("r", "a"): d}))
        st.setup_for_query(q, Base({"r": 1, "s": 2}))
        tabs = {t.identifier(): t for t in q.tables()}
        got = st.attribute_frequencies[ColumnReference("a", tabs["r"])]
        ctx.check(got * (d or 1) == (1 if none else n) and st.attribute_frequencies[ColumnReference("a", tabs["s"])] == known, "frequencies without statistics are uniform", key=f"{d}{none}")
        ctx.check({t.identifier(): v.value for t, v in st.base_table_estimates.items()} == {"r": 1, "s": 2}, "base table estimates", key="base")
    elif kind == "operators":
        has = ctx.choose("supported", 2)
        a = UESOperatorSelection(Database(ops=[JoinOperator.NestedLoopJoin] if has else [])).select_physical_operators(QUERIES["pair"], None)
        ctx.check(a.global_settings == ({JoinOperator.NestedLoopJoin: False} if has else {}) and not a.join_operators and not a.scan_operators, "UES forbids nested loop joins", key=str(has))
    else:
        opt = UESJoinOrderOptimizer(base_table_estimation=Base({"r": 3, "s": 5}), stats_container=MaxFrequencyStats(Stats({})), database=Database({}))
        tree = opt.optimize_join_order(QUERIES[kind])
        if kind == "single":
            ctx.check(tree is None, "queries without joins have no join order", key=kind)
        else:
            valid(ctx, kind, tree, kind)
            ctx.check(tree.annotation == Cardinality(15), "a cross product is annotated with its size", key=kind)
    ctx.reach(kind)


SETTINGS = Harness("settings", settings, shadow=SH, functions=["MaxFrequencyStats._uniform_frequency", "UESOperatorSelection"], must_reach=("uniform", "operators", "single", "cross"), bounds={"rows": "arbitrary"})


def harnesses(tier):
    full = tier == "thorough"
    A, PS, N = ("primary", "secondary", "none"), ("primary", "secondary"), ("none",)
    out = [FORMULA, BASE, SETTINGS]
    out += [orders(n, A) for n in ("pair", "chain", "same")] + [orders(n, PS) for n in ("two", "triangle", "self", "alone", "parts")]
    out += [orders(n, PS, ("ues",), (False, True) if full else (False,)) for n in ("chain4", "hub", "cycle", "star")]
    out += [bounds(n, PS + N, (1, 3), (1, 3)) for n in ("pair", "two")] + [bounds(n, PS, (1, 3), (1, 2)) for n in ("chain", "same", "self")]
    return out
