"""C26: exhaustive enumerators produce every join order, assignment and plan exactly once; random ones only produce valid results for every outcome of the random numbers."""
import contextlib
import itertools
import warnings

import networkx as nx

from vx.engine import Harness, PathAbort

import postbound.opt.randomized as rnd
import postbound.util.nx as unx
from postbound import TableReference, parse_query
from postbound._core import JoinOperator, ScanOperator
from postbound.opt.enumeration import ExhaustiveJoinOrderEnumerator, ExhaustiveOperatorEnumerator, ExhaustivePlanEnumerator
from postbound.validation import CrossProductPreCheck
from postbound.opt.randomized import (RandomJoinOrderGenerator, RandomJoinOrderOptimizer, RandomOperatorGenerator, RandomOperatorOptimizer, RandomPlanGenerator, RandomPlanOptimizer)

LEVEL = "model_checking"
ASSUMPTIONS = ["queries with binary equijoins; arbitrary join graphs of up to 4 tables", "every draw of the random number generator is an arbitrary (symbolic) number; a generator that eliminates duplicates is only followed for a few draws"]
SHAPES = ("bushy", "left-deep", "right-deep")
SCANS, JOINS = sorted(ScanOperator, key=str), sorted(JoinOperator, key=str)
warnings.simplefilter("ignore")
_CACHE = {}


def query_of(tabs, es, filters=()):
    k = (tuple(tabs), tuple(es), tuple(filters))
    if k not in _CACHE:
        preds = [f"{x}.{y} = {y}.{x}" for x, y in es] + [f"{x}.f > 1" for x in filters]
        _CACHE[k] = parse_query("SELECT * FROM " + ", ".join(tabs) + (" WHERE " + " AND ".join(preds) if preds else ""), accept_set_query=False)
    return _CACHE[k]


def graph(ctx, tabs):
    return [p for p in itertools.combinations(tabs, 2) if ctx.bool("edge " + "".join(p))]


def connected(xs, es):
    xs = set(xs)
    seen, todo = set(), [min(xs)]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [b if a == x else a for a, b in es if x in (a, b) and a in xs and b in xs]
    return seen == xs


def trees(xs, es, shape):
    """all join orders without cross products"""
    xs = sorted(xs)
    if len(xs) == 1:
        return [xs[0]]
    out = []
    for m in range(1, 2 ** len(xs) - 1):
        l = [x for i, x in enumerate(xs) if m >> i & 1]
        r = [x for x in xs if x not in l]
        if (shape == "left-deep" and len(r) > 1) or (shape == "right-deep" and len(l) > 1):
            continue
        if any((a in l) != (b in l) for a, b in es if a in xs and b in xs):
            out += [f"({a}{b})" for a in trees(l, es, shape) for b in trees(r, es, shape)]
    return out


def draw(tree):
    return tree.base_table.identifier() if tree.is_scan() else f"({draw(tree.outer_child)}{draw(tree.inner_child)})"


def names(t):
    return "".join(sorted(x for x in t if x.isalpha()))


class Hinting:
    def __init__(self, ok):
        self.ok = ok

    def supports_hint(self, op):
        return op in self.ok


class Db:
    def __init__(self, ok):
        self.h = Hinting(ok)

    hinting = lambda self: self.h


class Draws:
    """stands in for the module `random`: each draw is an arbitrary number"""

    def __init__(self, ctx, limit=40):
        self.ctx, self.left = ctx, limit

    def choice(self, xs):
        if not len(xs):
            raise IndexError("Cannot choose from an empty sequence")
        self.left -= 1
        if self.left < 0:
            raise PathAbort()
        return xs[self.ctx.int("draw", 0, len(xs) - 1).__index__()]

    def random(self):
        self.left -= 1
        if self.left < 0:
            raise PathAbort()
        r = self.ctx.real("draw", 0, 1)
        self.ctx.assume(r < 1)
        return r


@contextlib.contextmanager
def draws(ctx, limit=40):
    old = rnd.random, unx.random
    rnd.random = unx.random = Draws(ctx, limit)
    try:
        yield
    finally:
        rnd.random, unx.random = old


# ---------------------------------------------------------------- join orders
def orders(tabs, shapes=SHAPES):
    def body(ctx):
        es = graph(ctx, tabs)
        shape = ctx.pick("shape", shapes)
        flt = ctx.pick("filters", ("", "".join(tabs))) if len(tabs) < 4 else ""
        q = query_of(tabs, es, flt)
        key = f"{es}/{shape}/{flt}"
        gen = ExhaustiveJoinOrderEnumerator(shape)
        cross = not connected(tabs, es)
        ctx.check(q.contains_cross_product() == cross and CrossProductPreCheck().check_supported_query(q).passed == (not cross), "queries know their cross products", key=key)
        if not connected(tabs, es):
            ctx.reach("cross product")
            try:
                out = list(gen.all_join_orders_for(q))
            except ValueError:
                out = None
            ctx.check(out is None, "queries with cross products are rejected", key=key)
            return
        out = [draw(t) for t in gen.all_join_orders_for(q)]
        exp = trees(tabs, es, shape)
        ctx.reach("done")
        ctx.check(set(out) <= set(exp), "only valid join orders", key=key)
        ctx.check(set(exp) <= set(out), "every join order is enumerated", key=key)
        ctx.check(len(out) == len(set(out)), "no join order is repeated", key=key)
    return Harness(f"orders_{len(tabs)}", body, functions=["ExhaustiveJoinOrderEnumerator.all_join_orders_for", "_enumerate_join_graph", "nx_frontier_walks"], must_reach=("done",), bounds={"tables": len(tabs), "join graphs": "all"})


def random_orders(tabs, shapes=SHAPES, kinds=("generator", "base", "optimizer"), n=1):
    def body(ctx):
        es = graph(ctx, tabs)
        shape = ctx.pick("shape", shapes)
        q = query_of(tabs, es)
        kind = ctx.pick("kind", kinds)
        key = f"{es}/{shape}/{kind}"
        first = None
        with draws(ctx):
            if not connected(tabs, es):
                ctx.reach("cross product")
                try:
                    out = next(RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q))
                except ValueError:
                    out = None
                ctx.check(out is None, "queries with cross products are rejected", key=key)
                return
            if kind == "optimizer":
                out = RandomJoinOrderOptimizer(generator_args={"tree_structure": shape}).optimize_join_order(q)
            elif kind == "base":
                first = ctx.pick("first", tabs)
                out = next(RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q, base_table=TableReference(first)))
            else:
                out = next(RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q))
        ctx.reach("done")
        d = draw(out)
        ctx.check(d in trees(tabs, es, shape), "random join orders are valid", key=key + d)
        if first and len(tabs) > 1:
            at = d.index(first)
            if shape == "bushy":
                ctx.check((d[at - 1] == "(" and d[at + 1].isalpha()) or (d[at - 1].isalpha() and d[at - 2] == "("), "the first table takes part in the first join", key=key + d + first)
            else:
                ctx.check(first == next(x for x in (d if shape == "left-deep" else d[::-1]) if x.isalpha()), "the first table is joined first", key=key + d + first)
    return Harness(f"random_orders_{len(tabs)}", body, functions=["RandomJoinOrderGenerator.random_join_orders_for", "_sample_join_graph", "nx_random_walk", "RandomJoinOrderOptimizer"], must_reach=("done",),
                   bounds={"tables": len(tabs), "join graphs": "all", "draws": "arbitrary"})


def distinct(ctx):
    """elimination of duplicates"""
    shape = ctx.pick("shape", SHAPES)
    tabs = "rst"
    es = [("r", "s"), ("s", "t")]
    q = query_of(tabs, es)
    kind = ctx.pick("kind", ("orders", "operators", "plans"))
    n = 3 if kind != "plans" else 2
    db = Db([ScanOperator.SequentialScan, ScanOperator.IndexScan])
    with draws(ctx, {"bushy": 15, "left-deep": 10, "right-deep": 10}[shape] if kind == "orders" else 14 if kind == "plans" else 8):
        if kind == "orders":
            g = RandomJoinOrderGenerator(True, tree_structure=shape).random_join_orders_for(q)
            out = [draw(next(g)) for _ in range(n)]
        elif kind == "operators":
            q = query_of("rs", es[:1])
            tree = next(ExhaustiveJoinOrderEnumerator().all_join_orders_for(q))
            g = RandomOperatorGenerator(include_joins=False, eliminate_duplicates=True, database=db).random_operator_assignments_for(q, tree)
            out = [next(g) for _ in range(n)]
            out = [ops(a) for a in out]
        else:
            q = query_of("rs", es[:1])
            g = RandomPlanGenerator(eliminate_duplicates=True, join_order_args={"tree_structure": shape}, operator_args={"scan_operators": [ScanOperator.SequentialScan], "join_operators": [JoinOperator.HashJoin, JoinOperator.NestedLoopJoin]},
                                    database=Db([ScanOperator.SequentialScan, JoinOperator.HashJoin, JoinOperator.NestedLoopJoin])).random_plans_for(q)
            out = [plan(next(g)) for _ in range(n)]
    ctx.reach(kind)
    ctx.check(len(set(out)) == n, "duplicates are eliminated", key=f"{shape}/{kind}")


DISTINCT = Harness("distinct", distinct, functions=["RandomJoinOrderGenerator", "RandomOperatorGenerator", "RandomPlanGenerator"], must_reach=("orders", "operators", "plans"), bounds={"tables": 3, "results": 3, "draws": 15})


def simple(ctx):
    """queries with a single table, with or without predicates"""
    q = query_of("r", [], ctx.pick("filter", ("", "r")))
    shape = ctx.pick("shape", SHAPES)
    kind = ctx.pick("kind", ("exhaustive", "random", "base", "optimizer", "twice", "plans", "random plans"))
    db = Db(list(ScanOperator) + list(JoinOperator))
    key = f"{q}/{shape}/{kind}"
    with draws(ctx):
        if kind == "exhaustive":
            out = list(ExhaustiveJoinOrderEnumerator(shape).all_join_orders_for(q))
        elif kind == "optimizer":
            out = [RandomJoinOrderOptimizer(generator_args={"tree_structure": shape}).optimize_join_order(q)]
        elif kind == "twice":
            g = RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q)
            out = [next(g), next(g)][1:]
        elif kind == "plans":
            ps = list(ExhaustivePlanEnumerator(join_order_args={"tree_structure": shape}, operator_args={"database": db}).all_plans_for(q))
            ctx.check(sorted(plan(p) for p in ps) == sorted(f"{s.name}:r" for s in SCANS), "every plan is enumerated once", key=key)
            ctx.reach(kind)
            return
        elif kind == "random plans":
            p = plan(RandomPlanOptimizer(join_order_args={"tree_structure": shape}, database=db).optimize_query(q))
            ctx.check(p in [f"{s.name}:r" for s in SCANS], "random plans are valid", key=key)
            ctx.reach(kind)
            return
        else:
            out = [next(RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q, **({"base_table": TableReference("r")} if kind == "base" else {})))]
    ctx.reach(kind)
    ctx.check([draw(t) for t in out] == ["r"], "queries with one table have one join order", key=key)


SIMPLE = Harness("simple", simple, functions=["ExhaustiveJoinOrderEnumerator", "RandomJoinOrderGenerator"], must_reach=("exhaustive", "random", "base", "optimizer", "twice", "plans", "random plans"), bounds={"tables": 1})


# ---------------------------------------------------------------- operators
def ops(a):
    return (tuple(sorted((t.identifier(), x.operator.name) for t, x in a.scan_operators.items())), tuple(sorted(("".join(sorted(t.identifier() for t in ts)), x.operator.name) for ts, x in a.join_operators.items())),
            len(a.global_settings), len(a.intermediate_operators))


def operators(tabs, kinds=("all", "random", "optimizer")):
    es = list(zip(tabs, tabs[1:]))

    def body(ctx):
        shape = ctx.pick("shape", ("left-deep", "bushy"))
        q = query_of(tabs, es)
        tree = list(ExhaustiveJoinOrderEnumerator(shape).all_join_orders_for(q))[ctx.choose("tree", 2)]
        inc = ctx.pick("include", ("both", "scans", "joins"))
        kw = {"include_scans": inc != "joins", "include_joins": inc != "scans"}
        ok = [o for o in SCANS + JOINS if ctx.bool("supported " + o.name)]
        some = ctx.choose("allowed", 3)
        allowed = [None, [], SCANS[:2]][some], [None, JOINS[1:3], []][some]
        scans = [o for o in (allowed[0] or SCANS) if o in ok]
        joins = [o for o in (allowed[1] or JOINS) if o in ok]
        key = f"{draw(tree)}/{inc}/{[o.name for o in ok]}/{some}"
        kind = ctx.pick("kind", kinds)
        if kind == "all":
            gen = ExhaustiveOperatorEnumerator(allowed[0], allowed[1], database=Db(ok), **kw)
            out = [ops(a) for a in list(gen.all_operator_assignments_for(q, tree))]
        js = sorted({names(draw(j)) for j in tree.iterjoins()})
        ss = sorted(tabs)
        exp = set()
        for a in itertools.product(scans, repeat=len(ss)) if inc != "joins" else [None]:
            for b in itertools.product(joins, repeat=len(js)) if inc != "scans" else [None]:
                exp.add((tuple(sorted((x, o.name) for x, o in zip(ss, a))) if a is not None else (), tuple(sorted((x, o.name) for x, o in zip(js, b))) if b is not None else (), 0, 0))
        if kind == "all":
            ctx.check(set(out) <= exp, "only allowed operators are assigned", key=key)
            ctx.check(exp <= set(out), "every assignment is enumerated", key=key)
            ctx.check(len(out) == len(set(out)), "no assignment is repeated", key=key)
        else:
            if not exp:
                raise PathAbort()
            with draws(ctx):
                if kind == "random":
                    g = RandomOperatorGenerator(allowed[0], allowed[1], database=Db(ok), **kw)
                    out = next(g.random_operator_assignments_for(q, tree))
                    ctx.check(set(scans if kw["include_scans"] else []) | set(joins if kw["include_joins"] else []) <= g.necessary_hints() <= set(ok), "necessary hints are those of the allowed operators", key=key)
                else:
                    out = RandomOperatorOptimizer(generator_args={"scan_operators": allowed[0], "join_operators": allowed[1], "database": Db(ok), **kw}).select_physical_operators(q, tree)
            ctx.check(ops(out) in exp, "random assignments use allowed operators for every scan and join", key=key)
        ctx.reach(kind)
    return Harness(f"operators_{len(tabs)}", body, functions=["ExhaustiveOperatorEnumerator.all_operator_assignments_for", "RandomOperatorGenerator.random_operator_assignments_for", "RandomOperatorOptimizer"], must_reach=kinds,
                   bounds={"tables": len(tabs), "supported operators": "all subsets", "draws": "arbitrary"})


# ---------------------------------------------------------------- plans
def plan(p):
    if p.is_scan():
        return f"{p.operator.name}:{p.base_table.identifier()}"
    return f"({plan(p.outer_child)} {p.operator.name} {plan(p.inner_child)})"


def decorate(t, es, scans, joins):
    """all plans of a join order"""
    if t.isalpha():
        return [f"{s.name}:{t}" for s in scans]
    i, depth = 1, 0
    while True:
        depth += (t[i] == "(") - (t[i] == ")")
        i += 1
        if not depth:
            break
    return [f"({a} {j.name} {b})" for a in decorate(t[1:i], es, scans, joins) for j in joins for b in decorate(t[i:-1], es, scans, joins)]


def plans(ctx):
    tabs = ctx.pick("tables", ("rs", "rst"))
    es = graph(ctx, tabs)
    if not connected(tabs, es):
        raise PathAbort()
    q = query_of(tabs, es, "r")
    shape = ctx.pick("shape", SHAPES)
    scans = [o for o in SCANS[:2] if ctx.bool("supported " + o.name)]
    joins = [o for o in JOINS[:2] if ctx.bool("supported " + o.name)]
    exp = [p for t in trees(tabs, es, shape) for p in decorate(t, es, scans, joins)]
    kind = ctx.pick("kind", ("all", "random", "optimizer"))
    key = f"{tabs}{es}/{shape}/{[o.name for o in scans + joins]}/{kind}"
    if kind == "all":
        out = list(ExhaustivePlanEnumerator(join_order_args={"tree_structure": shape}, operator_args={"database": Db(scans + joins)}).all_plans_for(q))
        txt = [plan(p) for p in out]
        ctx.check(sorted(txt) == sorted(exp), "every plan is enumerated once", key=key)
    else:
        if not exp:
            raise PathAbort()
        with draws(ctx):
            if kind == "random":
                out = [next(RandomPlanGenerator(join_order_args={"tree_structure": shape}, database=Db(scans + joins)).random_plans_for(q))]
            else:
                out = [RandomPlanOptimizer(join_order_args={"tree_structure": shape}, database=Db(scans + joins)).optimize_query(q)]
        ctx.check(plan(out[0]) in exp, "random plans are valid", key=key)
    for p in out:
        for n in p.iternodes() if hasattr(p, "iternodes") else ():
            ts = {t.identifier() for t in n.tables()}
            f = str(n.filter_predicate or "")
            if n.is_scan():
                ctx.check(f == ("r.f > 1" if ts == {"r"} else ""), "scans evaluate the filters of the query", key=key)
            else:
                inner = {t.identifier() for t in n.inner_child.tables()}
                want = {f"{a}.{b} = {b}.{a}" for a, b in es if a in ts and b in ts and (a in inner) != (b in inner)}
                ctx.check(set(f.split(" AND ")) == want, "joins evaluate the predicates of the query", key=key + f)
    ctx.reach(kind)


PLANS = Harness("plans", plans, functions=["ExhaustivePlanEnumerator.all_plans_for", "RandomPlanGenerator.random_plans_for", "RandomPlanOptimizer"], must_reach=("all", "random", "optimizer"),
                bounds={"tables": 3, "join graphs": "all", "operators": "all subsets of 2 scans and 2 joins", "draws": "arbitrary"})


# ---------------------------------------------------------------- walks
def walks(ctx):
    n = ctx.pick("nodes", (1, 2, 3, 4))
    nodes = list("abcd")[:n]
    es = graph(ctx, nodes)
    g = nx.Graph()
    g.add_nodes_from(nodes)
    for x, y in es:
        g.add_edge(x, y, id=x + y)
    es = set(es)
    adj = lambda x, y: (x, y) in es or (y, x) in es
    kind = ctx.pick("kind", ("frontier", "random", "random from"))
    key = f"{n}{sorted(es)}/{kind}"

    def follow(w, step):
        seen = {w[0]}
        for y in w[1:]:
            free = [z for z in nodes if z not in seen and any(adj(x, z) for x in seen)]
            if y in seen or (free and y not in free):
                return False
            seen.add(y)
        return len(w) == n
    if kind == "frontier":
        out = list(unx.nx_frontier_walks(g))
        exp = []

        def extend(w, edges):
            if len(w) == n:
                exp.append((tuple(w), tuple(edges)))
                return
            free = [(x, z) for x in w for z in nodes if z not in w and adj(x, z)]
            for x, z in free:
                extend(w + [z], edges + ["".join(sorted(x + z))])
            if not free:
                for z in nodes:
                    if z not in w:
                        extend(w + [z], edges + [None])
        for x in nodes:
            extend([x], [])
        got = [(tuple(w.nodes()), tuple(d and d["id"] for _, d in w.path)) for w in out]
        ctx.check(sorted(got, key=str) == sorted(exp, key=str), "all frontier walks, each once", key=key)
        ctx.check(all(len(w) == n and w.final_node() == w.nodes()[-1] and w.start_node == w.nodes()[0] and list(w) == w.nodes() for w in out), "walks are consistent", key=key)
    else:
        start = ctx.pick("start", nodes) if kind == "random from" else None
        with draws(ctx):
            w = list(unx.nx_random_walk(g, starting_node=start) if start else unx.nx_random_walk(g))
        ctx.check(follow(w, None) and (start is None or w[0] == start), "random walks visit every node once and stay connected", key=key)
    ctx.reach(kind)


WALKS = Harness("walks", walks, functions=["nx_frontier_walks", "nx_random_walk", "GraphWalk"], must_reach=("frontier", "random", "random from"), bounds={"nodes": 4, "graphs": "all", "draws": "arbitrary"})


def harnesses(tier):
    full = tier == "thorough"
    out = [SIMPLE, DISTINCT, PLANS, WALKS, orders("rs"), orders("rst"), orders("rstu"), random_orders("rst"), operators("rs", ("all",) if not full else ("all", "random", "optimizer"))]
    out.append(random_orders("rstu") if full else random_orders("rstu", kinds=("generator",)))
    return out
