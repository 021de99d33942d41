"""C04: equality and hashing of query objects agree with each other and with the meaning."""
import copy

from vx import enum, qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness
from vx.sym import And, Iff, Implies, Not, Or, Shadow, SymBool, hash_term, sym_hash

import postbound._core as core
import postbound.qal._qal as Q
from postbound import qal

LEVEL = "model_checking"
ASSUMPTIONS = ["hash() of primitive values is an arbitrary function; tuple and frozenset hashes depend on the element hashes only",
               "semantics of queries as in vx/sqlsem.py (2 rows per table, 1 for joins of four tables and set operations)",
               "numbers compare by value: the constants 1 and 1.0 count as the same"]
SH = Shadow({core: {"hash": sym_hash}, Q: {"hash": sym_hash}})
F = ["postbound.qal.*Expression.__eq__/__hash__", "postbound.qal.*Predicate.__eq__/__hash__", "postbound.qal.<clauses>.__eq__/__hash__",
     "postbound.qal.<table sources>.__eq__/__hash__", "postbound.qal.SqlQuery.__eq__/__hash__", "postbound.qal.SetQuery.__eq__/__hash__",
     "postbound.qal.SimpleFilter/SimpleJoin.__eq__/__hash__"]
SECS = ["place", "pred", "pplace", "frm", "join3", "clauses", "group", "window", "cte", "set", "nest", "wide", "wide2", "spine", "expr", "reject", "bind"]
BLOCK = 24
_CACHE = {}


def corpus(sec):
    if sec not in _CACHE:
        out = []
        for t in enum.outputs(G.SECTIONS[sec]):
            try:
                out.append((t, K.parse(t, sec)))
            except Exception:
                if sec != "reject":
                    raise
        _CACHE[sec] = out
    return _CACHE[sec]


def pairs(sec, limit):
    def body(ctx):
        qs = corpus(sec)
        step = max(1, len(qs) // limit)
        rows = range(0, len(qs), step)
        blocks = -(-len(rows) // BLOCK)
        b = ctx.choose("block", blocks)
        for i in list(rows)[b * BLOCK:(b + 1) * BLOCK]:
            ti, qi = qs[i]
            again = K.parse(ti, sec)
            ctx.check(again == qi and qi == again and not (qi != again), "the same text gives equal queries", key=ti)
            ctx.check(hash(again) == hash(qi), "the same text gives equal hashes", key=ti)
            for c in (copy.copy(qi), copy.deepcopy(qi)):
                ctx.check(c == qi and hash(c) == hash(qi), "copies are equal", key=ti)
            for j in range(len(qs)):
                tj, qj = qs[j]
                if i == j:
                    continue
                if qi == qj or qj == qi:
                    ctx.check(qi == qj and qj == qi, "equality is symmetric", key=f"{ti} / {tj}")
                    ctx.check(hash(qi) == hash(qj), "equal queries hash alike", key=f"{ti} / {tj}")
                    ctx.reach("equal")
                    a, c = S.from_pg(ti), S.from_pg(tj)
                    if sec != "bind":
                        ctx.check(K.ctes_of(a) == K.ctes_of(c), "equal queries have the same CTEs", key=f"{ti} / {tj}")
                        ctx.check(S.equivalent(ctx, K.db_for(ctx, sec), a, c), "equal queries have the same meaning", key=f"{ti} / {tj}")
            ctx.reach("query")
    return body


def same_hash(ctx, a, b):
    return SymBool(hash_term(a) == hash_term(b)) if ctx.symbolic else hash(a) == hash(b)


def verdict(ctx, make, key, exact=True):
    """make(v) puts the constant v somewhere into an object"""
    x, y = ctx.int("x"), ctx.int("y")
    a, b = make(x), make(y)
    got = a == b
    if got:
        ctx.reach("equal")
        ctx.check(same_hash(ctx, a, b), "equal objects hash alike", key=key)
        if exact:
            ctx.check(x == y, "equal objects have equal parts", key=key)
    else:
        ctx.reach("different")
        ctx.check(x != y, "objects with equal parts are equal", key=key)
    ctx.check(Iff(b == a, got), "equality is symmetric", key=key)
    ctx.check(Iff(a != b, Not(got)), "!= is the negation", key=key)


def expressions(depth):
    def body(ctx):
        kinds = [ctx.pick(f"k{i}", B.KINDS) for i in range(depth)]
        pos = [ctx.choose(f"p{i}", 2) if k in B.TWO else 0 for i, k in enumerate(kinds)]

        def make(v):
            e = B.const(v)
            for k, p in zip(kinds, pos):
                e = B.node(k, e, p)
            return e
        # IN compares the values as a set: {x, 4} with x = 4 has one element
        exact = not any(k == "in" and p == 1 for k, p in zip(kinds, pos))
        verdict(ctx, make, "/".join(kinds), exact)
    return body


def const(v):
    return B.const(v)


def pred(v):
    return qal.BinaryPredicate(qal.LogicalOperator.Equal, B.cexp("r", "a"), const(v))


def sel(v, **kw):
    return B.select(const(v), **kw)


def src(t="r"):
    return qal.DirectTableSource(B.tab(t))


def with_clause(c):
    return qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a"))]), qal.ImplicitFromClause([src()]), c])


def from_(*s):
    return qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a"))]), qal.From(list(s))])


def on(v):
    return qal.BinaryPredicate(qal.LogicalOperator.Equal, B.cexp("s", "a"), const(v))


PLACES = {
    "select": lambda v: B.select(const(v)), "select2": lambda v: B.select([B.cexp("r", "a"), const(v)]),
    "distinct on": lambda v: qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a"))], distinct=[const(v)]), qal.ImplicitFromClause([src()])]),
    "where": lambda v: B.select(B.cexp("r", "a"), where=pred(v)),
    "where and": lambda v: B.select(B.cexp("r", "a"), where=qal.CompoundPredicate(qal.CompoundOperator.And, [on(1), pred(v)])),
    "where or": lambda v: B.select(B.cexp("r", "a"), where=qal.CompoundPredicate(qal.CompoundOperator.Or, [pred(v), on(1)])),
    "group": lambda v: with_clause(qal.GroupBy([B.cexp("r", "a"), const(v)])),
    "having": lambda v: qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a"))]), qal.ImplicitFromClause([src()]),
                                         qal.GroupBy([B.cexp("r", "a")]), qal.Having(pred(v))]),
    "order": lambda v: with_clause(qal.OrderBy([qal.OrderByExpression(const(v), True, None)])),
    "order2": lambda v: with_clause(qal.OrderBy([qal.OrderByExpression(B.cexp("r", "a")), qal.OrderByExpression(const(v))])),
    "limit": lambda v: with_clause(qal.Limit(limit=v)), "offset": lambda v: with_clause(qal.Limit(limit=1, offset=v)),
    "cte": lambda v: with_clause(qal.CommonTableExpression([qal.WithQuery(sel(v), "x")])),
    "cte2": lambda v: with_clause(qal.CommonTableExpression([qal.WithQuery(sel(1), "x"), qal.WithQuery(sel(v), "y")])),
    "cte values": lambda v: with_clause(qal.CommonTableExpression([qal.ValuesWithQuery([(const(1), const(v))], target_name="x", columns=["p", "q"])])),
    "from subquery": lambda v: from_(src(), qal.SubqueryTableSource(sel(v), "x")),
    "from lateral": lambda v: from_(src(), qal.SubqueryTableSource(sel(v), "x", lateral=True)),
    "from values": lambda v: from_(src(), qal.ValuesTableSource([(const(v), const(2))], alias="x", columns=["p", "q"])),
    "from function": lambda v: from_(src(), qal.FunctionTableSource(qal.FunctionExpression("generate_series", [const(1), const(v)]), alias="x")),
    "join on": lambda v: from_(qal.JoinTableSource(src(), src("s"), join_condition=on(v), join_type=qal.JoinType.InnerJoin)),
    "join subquery": lambda v: from_(qal.JoinTableSource(src(), qal.SubqueryTableSource(sel(v), "s"), join_condition=on(1), join_type=qal.JoinType.LeftJoin)),
    "set left": lambda v: qal.SetQuery(sel(v), sel(1), set_operation=qal.SetOperator.Union),
    "set right": lambda v: qal.SetQuery(sel(1), sel(v), set_operation=qal.SetOperator.Except),
    "set limit": lambda v: qal.SetQuery(sel(1), sel(2), set_operation=qal.SetOperator.UnionAll, limit_clause=qal.Limit(limit=v)),
    "set order": lambda v: qal.SetQuery(sel(1), sel(2), set_operation=qal.SetOperator.UnionAll, orderby_clause=qal.OrderBy([qal.OrderByExpression(const(v))])),
    "set cte": lambda v: qal.SetQuery(sel(1), sel(2), set_operation=qal.SetOperator.Intersect, cte_clause=qal.CommonTableExpression([qal.WithQuery(sel(v), "x")])),
    "union": lambda v: qal.UnionClause(sel(1), sel(v)), "union l": lambda v: qal.UnionClause(sel(v), sel(1)),
    "except": lambda v: qal.ExceptClause(sel(1), sel(v)), "except l": lambda v: qal.ExceptClause(sel(v), sel(1)),
    "intersect": lambda v: qal.IntersectClause(sel(1), sel(v)), "intersect l": lambda v: qal.IntersectClause(sel(v), sel(1)),
    "predicates": lambda v: qal.QueryPredicates(pred(v)),
    "filter view": lambda v: qal.SimpleFilter(pred(v)),
    "filter view between": lambda v: qal.SimpleFilter(qal.BetweenPredicate(B.cexp("r", "a"), (const(1), const(v)))),
}


def places(ctx):
    k = ctx.pick("place", list(PLACES))
    verdict(ctx, PLACES[k], k)


def T(name, alias="", schema=""):
    return B.tab(name, alias, schema)


def flags_list():
    """groups of objects that differ in one discrete part"""
    e, s = B.cexp("r", "a"), sel(1)
    lo, D = qal.LogicalOperator, qal.DirectTableSource
    P = qal.BinaryPredicate(lo.Equal, e, const(1))
    J = qal.BinaryPredicate(lo.Equal, e, B.cexp("s", "a"))
    agg = lambda f, **kw: qal.FunctionExpression(f, [e], **kw)
    jn = lambda t, **kw: qal.JoinTableSource(D(T("r")), D(T("s")), join_type=t, **({} if t == qal.JoinType.CrossJoin else dict(join_condition=J)))
    g = {
        "cte materialized": [qal.WithQuery(s, "x", materialized=m) for m in (None, True, False)] + [qal.WithQuery(s, "y")],
        "values cte": [qal.ValuesWithQuery([(const(1),)], target_name=n, columns=c, materialized=m) for n in "xy" for c in (["p"], ["q"], None)
                       for m in (None, True)],
        "cte clause": [qal.CommonTableExpression([qal.WithQuery(s, "x")], recursive=r) for r in (False, True)] +
                      [qal.CommonTableExpression([qal.WithQuery(s, "x"), qal.WithQuery(s, "y")]), qal.CommonTableExpression([qal.WithQuery(s, "y"), qal.WithQuery(s, "x")])],
        "lateral": [qal.SubqueryTableSource(s, n, lateral=l) for n in "xy" for l in (False, True)],
        "limit": [qal.Limit(limit=l, offset=o, fetch_direction=d) for l in (None, 0, 1) for o in (None, 0, 1) for d in ("first", "next", "last")
                  if l is not None or o is not None],
        "explain": [qal.Explain(a, f) for a in (False, True) for f in (None, "JSON", "XML")],
        "hint": [qal.Hint(p, h) for p in ("", "SET a = 1;", "SET b = 1;") for h in ("", "/*+ x */", "/*+ y */")],
        "order": [qal.OrderByExpression(e, a, n) for a in (None, True, False) for n in (None, True, False)],
        "select": [qal.Select([qal.BaseProjection(e, n)], distinct=d) for n in ("", "x") for d in (False, True, [e], [const(1)])] + [qal.Select.star()],
        "group": [qal.GroupBy([e], d) for d in (False, True)] + [qal.GroupBy([const(1)])],
        "join": [jn(t) for t in qal.JoinType if "Natural" not in t.name] + [qal.JoinTableSource(D(T("s")), D(T("r")), join_type=qal.JoinType.InnerJoin, join_condition=J)],
        "source": [D(T("r")), D(T("s")), D(T("r", "x")), D(T("r", schema="p")), qal.SubqueryTableSource(s, "r"), qal.ValuesTableSource([(const(1),)], alias="r", columns=["a"]),
                   qal.ValuesTableSource([(const(1),)], alias="r", columns=["b"]), qal.FunctionTableSource(agg("f"), alias="r"), qal.FunctionTableSource(agg("f"), alias="x")],
        "binary": [qal.BinaryPredicate(o, *ab) for o in (lo.Equal, lo.NotEqual, lo.Less, lo.Greater, lo.Like, lo.Is, lo.IsNot) for ab in ((e, const(1)), (const(1), e))],
        "compound": [qal.CompoundPredicate(o, c) for o in (qal.CompoundOperator.And, qal.CompoundOperator.Or) for c in ([P, J], [J, P], [P, J, P])] +
                    [qal.CompoundPredicate(qal.CompoundOperator.Not, P), P, J],
        "unary": [qal.UnaryPredicate(agg("f")), qal.UnaryPredicate(agg("g")), qal.UnaryPredicate(qal.SubqueryExpression(s), lo.Exists), qal.UnaryPredicate(P)],
        "math": [qal.MathExpression(o, *ab) for o in qal.MathOperator for ab in ((e, const(1)), (const(1), e))] + [qal.MathExpression(qal.MathOperator.Subtract, e),
                 qal.MathExpression(qal.MathOperator.Add, e, [const(1), const(2)]), qal.MathExpression(qal.MathOperator.Add, e, [const(2), const(1)])],
        "function": [agg(f, distinct=d, filter_where=w) for f in ("sum", "max") for d in (False, True) for w in (None, P, J)] + [qal.FunctionExpression("sum", []), qal.FunctionExpression("sum", [e, e])],
        "cast": [qal.CastExpression(e, t, type_params=p, array_type=a) for t in ("int", "text") for p in (None, [const(1)], [const(2)]) for a in (False, True)],
        "case": [qal.CaseExpression([(P, const(1))], simple_expr=x, else_expr=y) for x in (None, e) for y in (None, const(0), const(None))] + [qal.CaseExpression([(P, const(1)), (J, const(1))])],
        "array": [qal.ArrayExpression([e]), qal.ArrayExpression([e, e]), qal.ArrayAccessExpression(e, idx=const(1)), qal.ArrayAccessExpression(e, lower_idx=const(1)),
                  qal.ArrayAccessExpression(e, upper_idx=const(1)), qal.ArrayAccessExpression(e, lower_idx=const(1), upper_idx=const(1)), qal.FunctionExpression("array_get", [e, const(1)])],
        "window": [qal.WindowExpression(agg("sum"), partitioning=p, ordering=o, filter_condition=f) for p in (None, [e]) for o in (None, qal.OrderBy([qal.OrderByExpression(e)]))
                   for f in (None, P)],
        "quantifier": [qal.QuantifierExpression(qal.SubqueryExpression(s), quantifier=x) for x in qal.QuantifierOperator] + [qal.SubqueryExpression(s)],
        "star": [qal.StarExpression(), qal.StarExpression(from_table=T("r")), qal.StarExpression(from_table=T("s")), e],
        "constant": [const(v) for v in (None, True, False, 0, 1, "", "1", "a", 2.5)],
        "in": [qal.InPredicate(e, v) for v in ([const(1)], [const(2)], [const(1), const(3)], [qal.SubqueryExpression(s)])] + [qal.InPredicate(const(1), [e])],
        "between": [qal.BetweenPredicate(e, (const(a), const(b))) for a in (1, 2) for b in (1, 2)],
        "setop": [qal.SetQuery(a, b, set_operation=o) for o in qal.SetOperator for a, b in ((s, sel(2)), (sel(2), s))] +
                 [qal.UnionClause(s, sel(2), union_all=u) for u in (False, True)] + [qal.ExceptClause(s, sel(2)), qal.IntersectClause(s, sel(2))],
        "query": [s, with_clause(qal.Limit(limit=1)), with_clause(qal.Explain()), with_clause(qal.Hint("", "/*+ x */")), with_clause(qal.OrderBy([qal.OrderByExpression(e)])),
                  from_(D(T("r"))), from_(D(T("r")), D(T("s"))), from_(jn(qal.JoinType.InnerJoin)), B.select(e, where=P), B.select(e, frm=("r", "s"), where=J)],
    }
    return g


def flags(ctx):
    groups = flags_list()
    k = ctx.pick("group", sorted(groups))
    one, two = groups[k], flags_list()[k]
    for i, a in enumerate(one):
        for j, b in enumerate(two):
            ctx.check((a == b) is (i == j) and (b == a) is (i == j), "equal iff all parts are equal", key=f"{k} {i} {j}", a=str(a), b=str(b))
            if i == j:
                ctx.check(hash(a) == hash(b), "equal objects hash alike", key=f"{k} {i}")
    ctx.check(len(set(one) | set(two)) == len(one), "usable in sets", key=k)
    ctx.reach(k)


def in_lists(ctx):
    """IN compares its values as a set"""
    n, m = ctx.choose("n", 3) + 1, ctx.choose("m", 3) + 1
    xs, ys = [ctx.int(f"x{i}", 0, 9) for i in range(n)], [ctx.int(f"y{i}", 0, 9) for i in range(m)]
    a, b = (qal.InPredicate(B.cexp("r", "a"), [const(v) for v in vs]) for vs in (xs, ys))
    exp = And(*[Or(*[x == y for y in ys]) for x in xs], *[Or(*[x == y for x in xs]) for y in ys])
    got = a == b
    if got:
        ctx.reach("equal")
        ctx.check(exp, "equal IN predicates accept the same values", key="in")
        ctx.check(same_hash(ctx, a, b), "equal IN predicates hash alike", key="in hash")
    ctx.check(Iff(got, b == a), "equality is symmetric", key="in")
    if n == m:
        ctx.check(Implies(And(*[x == y for x, y in zip(xs, ys)]), got), "the same IN lists are equal", key="in")


def views(ctx):
    """simplified views are equal to what they wrap, with the same hash"""
    lo = qal.LogicalOperator
    x, y = ctx.int("x"), ctx.int("y")
    e = B.cexp("r", "a")
    mk = {"binary": lambda v: qal.BinaryPredicate(lo.Less, e, const(v)), "between": lambda v: qal.BetweenPredicate(e, (const(v), const(9))),
          "in": lambda v: qal.InPredicate(e, [const(v)]), "join": lambda v: qal.BinaryPredicate(lo.Equal, e, B.cexp("s", "a"))}
    k = ctx.pick("k", list(mk))
    wrap = qal.SimpleJoin if k == "join" else qal.SimpleFilter
    a, b = mk[k](x), mk[k](y)
    v, w = wrap(a), wrap(b)
    got = a == b
    ctx.check(Iff(v == w, got), "views are equal iff the predicates are", key=k)
    ctx.check(Iff(v == b, got), "view == predicate", key=k)
    ctx.check(Iff(b == v, got), "predicate == view", key=k)
    if got:
        ctx.check(And(same_hash(ctx, v, w), same_hash(ctx, v, b)), "equal views and predicates hash alike", key=k)
        ctx.reach("equal")
    ctx.check(v.unwrap() == a, "unwrap", key=k)


def harnesses(tier):
    deep = tier == "thorough"
    lim = 10 ** 6 if deep else 600
    hs = [Harness("pairs-" + s, pairs(s, lim), functions=F, must_reach=["query"],
                  bounds=f"every query of the section '{s}' (at most ~{lim} of them on the left) against every other one") for s in SECS]
    o = dict(shadow=SH, functions=F)
    return hs + [
        Harness("expressions", expressions(1), bounds=f"{len(B.KINDS)} kinds of nodes, both operand positions, an arbitrary constant in there", must_reach=["equal", "different"], **o),
        Harness("nested", expressions(3 if deep else 2), bounds="two nested nodes (three in the thorough tier)", must_reach=["equal", "different"], **o),
        Harness("places", places, bounds=f"an arbitrary constant at {len(PLACES)} places of queries and clauses", must_reach=["equal", "different"], **o),
        Harness("in_lists", in_lists, bounds="IN lists of 1-3 arbitrary values each", must_reach=["equal"], **o),
        Harness("views", views, bounds="four kinds of views over arbitrary constants", must_reach=["equal"], **o),
        Harness("flags", flags, bounds="groups of objects that differ in one discrete part", functions=F),
    ]
