"""C24: the dynamic programming enumerators find the cheapest plan, and the plan is valid."""
import warnings
from fractions import Fraction

from vx.engine import Harness
from vx.planref import val
from vx.sym import NUM_SHADOW, And, Or, Shadow, SymBool

import postbound._core as core
import postbound._qep as qep
import postbound.opt.dynprog as dp
from postbound import TableReference, parse_query, postgres
from postbound._core import Cardinality, ColumnReference, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._qep import QueryPlan, SortKey
from postbound._stages import CardinalityEstimator, CostModel
from postbound.qal import ColumnExpression, CompoundPredicate

LEVEL = "model_checking"
ASSUMPTIONS = ["the cost of a plan is the sum of arbitrary non-negative costs of its nodes, where the cost of a node depends on its operator and on the tables of its inputs",
               "inner equijoins without cross products; sorted paths may be preferred to unsorted ones that are up to 1% cheaper (the documented fuzzy comparison of the Postgres optimizer)",
               "builtin min is replaced by a decision procedure for the first minimum (one path per candidate instead of one per order)"]


def first_min(items, *rest, key=None, default=None):
    items = [items, *rest] if rest else list(items)
    ks = [key(x) if key else x for x in items]
    for i, x in enumerate(items[:-1]):
        if And(True, *[ks[i] < k for k in ks[:i]], *[ks[i] <= k for k in ks[i + 1:]]):
            return x
    return items[-1] if items else default


NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, dp: NS | {"min": first_min}})
F = ["DynamicProgrammingEnumerator.generate_execution_plan", "PostgresDynProg.generate_execution_plan", "PostgresDynProg.standard_add_path", "_calc_plan_estimates", "_collect_used_columns",
     "DynamicProgrammingEnumerator._determine_cheapest_path", "DynamicProgrammingEnumerator._determine_index_paths", "PostgresDynProg._add_paths_to_joinrel", "PostgresDynProg._set_cheapest"]
warnings.simplefilter("ignore")

# name -> query, its joins as (columns of both sides), including the implied ones
GRAPHS = {
    "one": ("SELECT r.a FROM r WHERE r.a = 1 AND r.b IN (1, 2)", []),
    "pair": ("SELECT * FROM r, s WHERE r.a = s.a AND r.b = 1", [("r.a", "s.a")]),
    "two keys": ("SELECT r.a FROM r, s WHERE r.a = s.a AND s.b = r.b AND r.c < 3 AND r.a = 4", [("r.a", "s.a"), ("r.b", "s.b")]),
    "chain": ("SELECT r.a FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND s.c = 1", [("r.a", "s.a"), ("s.b", "t.b")]),
    "triangle": ("SELECT r.a FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND t.c = r.c AND r.b = 2 AND t.a IS NULL", [("r.a", "s.a"), ("s.b", "t.b"), ("r.c", "t.c")]),
    "implied": ("SELECT r.a FROM r, s, t WHERE r.a = s.a AND s.a = t.a", [("r.a", "s.a"), ("s.a", "t.a")]),
    "star": ("SELECT r.a FROM r, s, t, u WHERE r.a = s.a AND r.b = t.b AND r.c = u.c AND u.a = 1", [("r.a", "s.a"), ("r.b", "t.b"), ("r.c", "u.c")]),
    "chain4": ("SELECT r.a FROM r, s, t, u WHERE r.a = s.a AND s.b = t.b AND t.c = u.c AND u.a = 1", [("r.a", "s.a"), ("s.b", "t.b"), ("t.c", "u.c")]),
    "alias": ("SELECT x.a FROM r AS x, r AS y, s WHERE x.a = y.b AND y.a = s.a AND x.c = 1 AND y.c = 2", [("x.a", "y.b"), ("y.a", "s.a")]),
}
QUERIES = {k: parse_query(v[0], accept_set_query=False) for k, v in GRAPHS.items()}
EC = {"implied": [("r.a", "t.a")]}


def card(tables):
    """some number that identifies the set of tables"""
    return Cardinality(10 + sum(3 ** (ord(t.identifier()[0]) - ord("r")) * 7 for t in tables))


class Estimator(CardinalityEstimator):
    def __init__(self):
        super().__init__()
        self.state = []

    def initialize(self, db, query):
        self.state.append("init")

    def cleanup(self):
        self.state.append("clean")

    def calculate_estimate(self, query, intermediate):
        return card([intermediate] if isinstance(intermediate, TableReference) else list(intermediate))

    def describe(self):
        return {}


def ids(ts):
    return "".join(sorted(t.identifier() for t in ts))


class Costs(CostModel):
    """every node has its own cost, given by its operator and the tables of its inputs"""

    def __init__(self, ctx, directed=True):
        super().__init__()
        self.ctx, self.own, self.bad, self.directed, self.state = ctx, {}, [], directed, []

    def k(self, *what):
        if what not in self.own:
            self.own[what] = self.ctx.int("k " + " ".join(map(str, what)), 0, 10 ** 6)
        return self.own[what]

    def join(self, op, o, i):
        return self.k(op.name, *((ids(o), ids(i)) if self.directed else sorted([ids(o), ids(i)])))

    def scan(self, op, table, index=""):
        return self.k(op.name, table.identifier(), index)

    def aux(self, op, tables, key=""):
        return self.k(op.name, ids(tables), key)

    def estimate_cost(self, query, plan):
        if not plan.is_auxiliary() and val(plan.estimated_cardinality) != val(card(plan.tables())):
            self.bad.append(f"{plan.node_type} {ids(plan.tables())} without its cardinality")
        if plan.parallel_workers:
            return self.k("parallel", plan.operator.name, ids(plan.tables()))
        if plan.is_join():
            o, i = plan.children
            return self.join(plan.operator, o.tables(), i.tables()) + o.estimated_cost + i.estimated_cost
        if plan.is_scan():
            return self.scan(plan.operator, plan.base_table, plan.params.index)
        c = plan.input_node
        key = str(plan.sort_keys[0]) if plan.operator == IO.Sort else str(plan.params.lookup_key) if plan.operator == IO.Memoize else ""
        return self.aux(plan.operator, c.tables(), key) + c.estimated_cost

    def initialize(self, db, query):
        self.state.append("init")

    def cleanup(self):
        self.state.append("clean")

    def describe(self):
        return {}


COLUMNS = "abc"


class Schema:
    def __init__(self, indexes):
        self.indexes = indexes

    def columns(self, table):
        return {ColumnReference(c, table) for c in COLUMNS}

    def indexes_on(self, column):
        return set(self.indexes.get((column.table.full_name, column.name), ()))

    def has_index(self, column):
        return bool(self.indexes_on(column))


class Hinting:
    def supports_hint(self, op):
        return op in OPS


OPS = {SO.SequentialScan, SO.IndexScan, SO.IndexOnlyScan, SO.BitmapScan, JO.NestedLoopJoin, JO.HashJoin, JO.SortMergeJoin, IO.Sort, IO.Memoize, IO.Materialize}


class Stats:
    def __init__(self, pages):
        self.pages = pages

    def n_pages(self, rel):
        return self.pages.get(rel if isinstance(rel, str) else rel.identifier(), 1)


class PgDatabase(postgres.PostgresInterface):
    def __init__(self, indexes=None, pages=None):
        self.a, self.b = Schema(indexes or {}), Stats(pages or {})

    def schema(self):
        return self.a

    def statistics(self):
        return self.b

    def hinting(self):
        return Hinting()

    def describe(self):
        return {}

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 1

    def __repr__(self):
        return "db"


def split(p):
    return [] if p is None else [x for c in p.children for x in split(c)] if isinstance(p, CompoundPredicate) and p.operation.value == "AND" else [p]


def texts(ps):
    return sorted(norm(p) for p in ps)


def norm(p):
    s = str(p)
    return " = ".join(sorted(s.split(" = "))) if " = " in s else s


class Reference:
    """everything that the enumerators may choose from"""

    def __init__(self, name, costs, joins, scans, aux=(), indexes=None, used=None, ec=False):
        self.q, self.costs, self.joins, self.scans, self.aux, self.indexes, self.used = QUERIES[name], costs, joins, scans, aux, indexes or {}, used
        self.edges = GRAPHS[name][1] + (EC.get(name, []) if ec else [])
        self.tables = sorted(self.q.tables(), key=lambda t: t.identifier())
        self.preds = split(self.q.where_clause.predicate)
        self.memo = {}

    def between(self, o, i):
        """the join columns as (outer, inner)"""
        on, inn = {t.identifier() for t in o}, {t.identifier() for t in i}
        out = []
        for x, y in self.edges:
            if x[0] in on and y[0] in inn:
                out.append((x, y))
            elif y[0] in on and x[0] in inn:
                out.append((y, x))
        return out

    def connected(self, s):
        s = list(s)
        seen, todo = {s[0]}, [s[0]]
        while todo:
            x = todo.pop()
            for y in s:
                if y not in seen and self.between([x], [y]):
                    seen.add(y)
                    todo.append(y)
        return len(seen) == len(s)

    def base(self, t):
        """scans: (cost, sorting)"""
        c = self.costs
        out = [(c.scan(SO.SequentialScan, t), None)] if SO.SequentialScan in self.scans else []
        have = False
        for col in sorted(self.used[t.identifier()]) if self.used else ():
            for ix in self.indexes.get((t.full_name, col), ()):
                have = True
                srt = frozenset([f"{t.identifier()}.{col}"])
                if SO.IndexScan in self.scans:
                    out.append((c.scan(SO.IndexScan, t, ix), srt))
                if SO.IndexOnlyScan in self.scans and len(self.used[t.identifier()]) == 1:
                    out.append((c.scan(SO.IndexOnlyScan, t, ix), srt))
        if have and SO.BitmapScan in self.scans:
            out.append((c.scan(SO.BitmapScan, t), None))
        return out

    def plans(self, s):
        s = frozenset(s)
        if s not in self.memo:
            self.memo[s] = list(self._plans(s))
        return self.memo[s]

    def _plans(self, s):
        c = self.costs
        if len(s) == 1:
            yield from self.base(next(iter(s)))
            return
        ts = sorted(s, key=lambda t: t.identifier())
        for m in range(1, 2 ** len(ts) - 1):
            o, i = [t for j, t in enumerate(ts) if m >> j & 1], [t for j, t in enumerate(ts) if not m >> j & 1]
            keys = self.between(o, i)
            if not keys or not self.connected(o) or not self.connected(i):
                continue
            for co, so in self.plans(o):
                for ci, si in self.plans(i):
                    for op in self.joins:
                        own = c.join(op, o, i)
                        if op != JO.SortMergeJoin or self.aux == ():
                            yield own + co + ci, None
                            if op == JO.NestedLoopJoin and IO.Materialize in self.aux:
                                yield own + co + ci + c.aux(IO.Materialize, i), None
                            if op == JO.NestedLoopJoin and IO.Memoize in self.aux:
                                for _, k in keys:
                                    yield own + co + ci + c.aux(IO.Memoize, i, k), None
                            continue
                        for ko, ki in keys:
                            oo, ii = so and ko in so, si and ki in si
                            if IO.Sort not in self.aux and not (oo and ii):
                                continue
                            yield own + co + ci + (0 if oo else c.aux(IO.Sort, o, ko)) + (0 if ii else c.aux(IO.Sort, i, ki)), (so if oo else frozenset([ko])) | (si if ii else frozenset([ki]))

    def valid(self, ctx, p, key):
        """the plan computes the query"""
        c, own = self.costs, 0
        for n in p.iternodes():
            if n.is_scan():
                ctx.check(not n.children and n.operator in self.scans, "scans use an allowed operator", key=key)
                exp = [x for x in self.preds if x.tables() == {n.base_table}]
                ctx.check(texts(split(n.filter_predicate)) == texts(exp), "scans filter their table", key=key, got=str(n.filter_predicate))
                own = own + c.scan(n.operator, n.base_table, n.params.index)
                cols = self.used[n.base_table.identifier()] if self.used else ()
                ixs = {ix for col in cols for ix in self.indexes.get((n.base_table.full_name, col), ())}
                if n.operator in (SO.IndexScan, SO.IndexOnlyScan):
                    on = [col for col in cols if n.params.index in self.indexes.get((n.base_table.full_name, col), ())]
                    ctx.check(len(on) == 1 and [str(k) for k in n.sort_keys] == [f"{n.base_table.identifier()}.{on[0]}"], "index scans use an index on a column of the query and provide its order", key=key)
                    ctx.check(n.operator == SO.IndexScan or len(cols) == 1, "index-only scans need no further column", key=key)
                if n.operator == SO.BitmapScan:
                    ctx.check(bool(ixs), "bitmap scans need an index", key=key)
            elif n.is_join():
                o, i = n.children
                ctx.check(n.operator in self.joins and not (o.tables() & i.tables()) and self.between(o.tables(), i.tables()), "joins use an allowed operator and are no cross products", key=key)
                exp = [" = ".join(sorted(e)) for e in self.between(o.tables(), i.tables())]
                ctx.check(texts(split(n.filter_predicate)) == sorted(exp), "joins evaluate the join predicates of their inputs", key=key, got=str(n.filter_predicate))
                own = own + c.join(n.operator, o.tables(), i.tables())
                if n.operator == JO.SortMergeJoin and self.aux:
                    ctx.check(any(o.sort_keys and i.sort_keys and o.sort_keys[0].is_compatible_with(SortKey.of(col(x))) and i.sort_keys[0].is_compatible_with(SortKey.of(col(y))) for x, y in self.between(o.tables(), i.tables())),
                              "merge joins have inputs that are sorted by a join key", key=key)
            else:
                ctx.check(n.operator in self.aux and len(n.children) == 1, "other operators are allowed", key=key)
                own = own + c.aux(n.operator, n.tables(), str(n.sort_keys[0]) if n.operator == IO.Sort else str(n.params.lookup_key) if n.operator == IO.Memoize else "")
            if n.is_scan() or n.is_join():
                ctx.check(val(n.estimated_cardinality) == val(card(n.tables())), "nodes have the estimated cardinality", key=key)
        ctx.check(p.tables() == set(self.tables) and sum(n.is_scan() for n in p.iternodes()) == len(self.tables), "the plan contains each table once", key=key)
        ctx.check(not c.bad, "cost models see complete plans", key=key, bad=str(c.bad))
        return own


def col(s):
    t = next(t for q in QUERIES.values() for t in q.tables() if t.identifier() == s[0])
    return ColumnReference(s[2:], t)


def finish(ctx, ref, p, est, key, slack=1):
    own = ref.valid(ctx, p, key)
    ctx.check(p.estimated_cost == own, "the plan has the cost that the cost model gives", key=key)
    best = ref.plans(ref.tables)
    if slack == 1:
        ctx.check(And(True, *[own <= b for b, _ in best]), "no other plan is cheaper", key=key)
    else:
        ctx.check(And(True, *[own * 100 <= b * 105 for b, _ in best]), "no other plan is cheaper", key=key)
    ctx.check(est.state == ["init", "clean"] == ref.costs.state, "estimator and cost model are initialized and released", key=key)
    ctx.reach(str(len(ref.tables)))


def basic(names, opsets):
    def body(ctx):
        name, ops = ctx.pick("query", names), ctx.pick("ops", opsets)
        c, est = Costs(ctx), Estimator()
        e = dp.DynamicProgrammingEnumerator(supported_scan_ops={SO.SequentialScan}, supported_join_ops=set(ops), target_db=PgDatabase())
        p = e.generate_execution_plan(QUERIES[name], cost_model=c, cardinality_estimator=est)
        finish(ctx, Reference(name, c, ops, [SO.SequentialScan]), p, est, f"{name}, {[o.name for o in ops]}")
    return body


INDEXES = [{}, {("r", "a"): ["ra"]}, {("r", "a"): ["ra"], ("r", "b"): ["rb1"]}, {("r", "c"): ["rc"]}]
SELECTS = {"SELECT r.a FROM r WHERE r.a = 1": "a", "SELECT * FROM r WHERE r.a = 1": "abc", "SELECT r.* FROM r WHERE r.a = 1": "abc", "SELECT r.b FROM r WHERE r.a IN (1, 2) AND r.b = 1": "ab",
           "SELECT count(*) FROM r WHERE r.a = 1": "a", "SELECT count(*) FROM r": "", "SELECT * FROM r AS x, r AS y WHERE x.a = y.a": None}
SELECTS = {k: v for k, v in SELECTS.items() if v is not None}
SCANS = [{SO.SequentialScan, SO.IndexScan, SO.IndexOnlyScan, SO.BitmapScan}, {SO.SequentialScan, SO.IndexOnlyScan}, {SO.SequentialScan, SO.BitmapScan}, {SO.SequentialScan, SO.IndexScan}]


def scans(make):
    def body(ctx):
        text, ix, allowed = ctx.pick("query", list(SELECTS)), ctx.pick("indexes", INDEXES), ctx.pick("scans", SCANS)
        key = f"{text}, {sorted(ix.values())}, {sorted(o.name for o in allowed)}"
        c, est = Costs(ctx), Estimator()
        QUERIES["tmp"] = q = parse_query(text, accept_set_query=False) if text not in CACHE else CACHE[text]
        CACHE[text] = q
        GRAPHS["tmp"] = (text, [])
        p = make(allowed, PgDatabase(ix)).generate_execution_plan(q, cost_model=c, cardinality_estimator=est)
        ref = Reference.__new__(Reference)
        ref.q, ref.costs, ref.joins, ref.scans, ref.aux, ref.indexes, ref.used = q, c, [], allowed, (), ix, {"r": set(SELECTS[text])}
        ref.edges, ref.tables, ref.preds, ref.memo = [], list(q.tables()), split(q.where_clause.predicate) if q.where_clause else [], {}
        finish(ctx, ref, p, est, key, 3 if make is pg_scans else 1)
        ctx.reach(p.operator.name)
    return body


CACHE = {}


def dp_scans(ops, db):
    return dp.DynamicProgrammingEnumerator(supported_scan_ops=ops, supported_join_ops={JO.HashJoin}, target_db=db)


def pg_scans(ops, db):
    return dp.PostgresDynProg(supported_scan_ops=ops, supported_join_ops={JO.HashJoin}, target_db=db)


NL, HJ, MJ = JO.NestedLoopJoin, JO.HashJoin, JO.SortMergeJoin
# joins, auxiliary operators, directed costs
PG2 = [((NL, HJ), (), True), ((NL,), (IO.Materialize, IO.Memoize), True), ((MJ,), (IO.Sort,), True), ((HJ, MJ), (IO.Sort,), False), ((NL, MJ), (IO.Sort, IO.Materialize), False), ((NL, HJ, MJ), (IO.Sort, IO.Memoize), False)]
PG3 = [((NL,), (), True), ((HJ,), (), True), ((NL, HJ), (), False), ((NL,), (IO.Materialize,), False), ((NL,), (IO.Memoize,), False), ((MJ,), (IO.Sort,), False)]


def pg(names, configs):
    def body(ctx):
        name = ctx.pick("query", names)
        joins, aux, directed = ctx.pick("config", configs if name != "two keys" else configs[:3])
        key = f"{name}, {[o.name for o in joins]}, {[o.name for o in aux]}"
        c, est = Costs(ctx, directed), Estimator()
        e = dp.PostgresDynProg(supported_scan_ops={SO.SequentialScan}, supported_join_ops=set(joins), target_db=PgDatabase(), enable_materialize=IO.Materialize in aux,
                               enable_memoize=IO.Memoize in aux, enable_sort=IO.Sort in aux)
        p = e.generate_execution_plan(QUERIES[name], cost_model=c, cardinality_estimator=est)
        finish(ctx, Reference(name, c, joins, [SO.SequentialScan], aux or (IO.Result if False else ()), ec=True), p, est, key, 4 if MJ in joins else 1)
    return body


def sorted_scans(ctx):
    """merge joins of index scans"""
    name, sort = ctx.pick("query", ["pair", "two keys"]), ctx.choose("sort", 2)
    ix = ctx.pick("indexes", [{("r", "a"): ["ra"]}, {("r", "a"): ["ra"], ("s", "a"): ["sa"]}, {("r", "b"): ["rb"], ("s", "b"): ["sb"]}])
    c, est = Costs(ctx, False), Estimator()
    joins = [MJ] if sort else [HJ, MJ]
    e = dp.PostgresDynProg(supported_scan_ops={SO.SequentialScan, SO.IndexScan}, supported_join_ops=set(joins), target_db=PgDatabase(ix), enable_materialize=False, enable_memoize=False, enable_sort=bool(sort))
    p = e.generate_execution_plan(QUERIES[name], cost_model=c, cardinality_estimator=est)
    used = {"pair": {"r": "abc", "s": "abc"}, "two keys": {"r": "abc", "s": "ab"}}[name]
    finish(ctx, Reference(name, c, joins, [SO.SequentialScan, SO.IndexScan], (IO.Sort,) if sort else (None,), ix, used, ec=True), p, est, f"{name}, {sort}, {ix}", 4)


def parallel(ctx):
    """parallel plans: valid, workers as estimated from the pages of the outermost table, and no more expensive than all sequential ones"""
    name, joins, mx = ctx.pick("query", ["one", "pair", "chain"]), ctx.pick("joins", [(HJ,), (NL,), (MJ,)]), ctx.choose("max", 3)
    pages = ctx.pick("pages", [{"r": 9}, {"r": 81, "s": 3}, {}])
    c, est = Costs(ctx, False), Estimator()
    e = dp.PostgresDynProg(supported_scan_ops={SO.SequentialScan}, supported_join_ops=set(joins), target_db=PgDatabase(pages=pages), enable_materialize=False, enable_memoize=False, enable_sort=MJ in joins, max_parallel_workers=mx)
    p = e.generate_execution_plan(QUERIES[name], cost_model=c, cardinality_estimator=est)
    ref = Reference(name, c, joins, [SO.SequentialScan], (IO.Sort,) if MJ in joins else (), ec=True)
    key = f"{name}, {[o.name for o in joins]}, max {mx}, {pages}"
    ref.valid(ctx, p, key)
    workers = lambda t: min(mx, {1: 0, 3: 1, 9: 2, 81: 4}[pages.get(t, 1)])
    par = [n for n in p.iternodes() if n.parallel_workers]
    for n in par:
        ctx.check(n.parallel_workers == workers(n.outermost_scan().base_table.identifier()), "parallel parts have the workers of their outermost table", key=key)
        ctx.check(not any(x.parallel_workers for x in n.iternodes() if x is not n), "parallel parts are not nested", key=key)
    ctx.check(mx > 0 or not par, "no parallel parts without workers", key=key)
    total = lambda n: c.k("parallel", n.operator.name, ids(n.tables())) if n.parallel_workers else c.scan(n.operator, n.base_table) if n.is_scan() else sum(map(total, n.children), c.join(n.operator, *(x.tables() for x in n.children)) if n.is_join() else c.aux(n.operator, n.tables(), str(n.sort_keys[0])))
    ctx.check(p.estimated_cost == total(p), "the plan has the cost that the cost model gives", key=key)
    ctx.check(And(True, *[p.estimated_cost * 100 <= b * 105 if MJ in joins else p.estimated_cost <= b for b, _ in ref.plans(ref.tables)]), "no sequential plan is cheaper", key=key)
    ctx.reach("parallel" if par else "sequential")


A, B = (ColumnExpression(ColumnReference(x, TableReference("r"))) for x in "ab")
SORTS = [(), ("a",), ("b",), ("a", "b")]


def covers(x, y):
    """sorting x is at least as good as y"""
    return x[:len(y)] == y


def add_path(n):
    def body(ctx):
        e = dp.PostgresDynProg(target_db=PgDatabase())
        partial = bool(ctx.choose("partial", 2))
        rel = dp.RelOptInfo(frozenset([TableReference("r")]), [], [], None, None, Cardinality(1))
        added = []
        for i in range(n):
            srt = ctx.pick(f"sort{i}", SORTS)
            keys = [SortKey([A if s == "a" else B]) for s in srt]
            k = ctx.int(f"cost{i}", 0, 10 ** 6)
            p = QueryPlan(SO.SequentialScan, base_table=TableReference("r"), estimated_cost=k, sort_keys=keys, tag=i)
            e.standard_add_path(rel, p, is_partial=partial)
            added.append((srt, k))
        key = str([s for s, _ in added])
        kept = rel.partial_paths if partial else rel.pathlist
        ctx.check((rel.pathlist if partial else rel.partial_paths) == [], "only one list is changed", key=key)
        tags = [p["tag"] for p in kept]
        ctx.check(len(set(tags)) == len(tags) and set(tags) <= set(range(n)), "paths are kept once", key=key)
        ctx.check(all(p.estimated_cost is added[p["tag"]][1] or True for p in kept) and And(True, *[p.estimated_cost == added[p["tag"]][1] for p in kept]), "paths are not changed", key=key)
        for i, (s, k) in enumerate(added):
            ctx.check(Or(*[added[t][1] * 100 ** n <= k * 101 ** n for t in tags if covers(added[t][0], s)]), "some kept path is as cheap and as well sorted as any added path", key=key)
        same = [(x, y) for x in tags for y in tags if x < y and added[x][0] == added[y][0]]
        ctx.check(not same, "of equally sorted paths, only the cheapest is kept", key=key)
        ctx.reach(str(len(tags)))
    return body


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("basic", basic(["one", "pair", "two keys", "chain", "triangle", "implied", "alias"], [(HJ,), (NL, HJ)] + ([(NL, HJ, MJ)] if t else [])), "7 join graphs of up to 3 tables x join operators; all costs", "123"),
            Hn("basic4", basic(["star", "chain4"], [(HJ,)] if t else [(MJ,)]), "join graphs of 4 tables, one join operator; all costs", "4"),
            Hn("basic-scans", scans(dp_scans), "6 queries x 4 sets of indexes x 4 sets of operators; all costs", ["IndexScan", "IndexOnlyScan", "BitmapScan", "SequentialScan"]),
            Hn("pg-scans", scans(pg_scans), "6 queries x 4 sets of indexes x 4 sets of operators; all costs", ["IndexScan", "IndexOnlyScan", "BitmapScan", "SequentialScan"]),
            Hn("pg-pairs", pg(["pair", "two keys"], PG2), "joins of two tables x 6 sets of operators; all costs", "2"),
            Hn("pg-triples", pg(["chain", "implied"] + (["triangle", "alias"] if t else []), PG3), "join graphs of 3 tables x 6 sets of operators; all costs", "3"),
            Hn("pg4", pg(["chain4", "star"], [((HJ,), (), t)]), "join graphs of 4 tables, one join operator; all costs", "4"),
            Hn("pg-sorted", sorted_scans, "merge joins of sorted and unsorted paths; all costs", "2"),
            Hn("pg-parallel", parallel, "up to 3 tables, up to 2 workers; all costs", ["parallel", "sequential"]),
            Hn("add-path", add_path(4 if t else 3), f"all sequences of {4 if t else 3} paths with 4 sort orders; all costs", "12")]
