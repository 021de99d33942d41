"""C13: query fragments and moving tables into subqueries."""
from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

from checks.c11 import B_count, B_star, agree, variant
from postbound import TableReference, qal, transform as T
from postbound.qal import BinaryPredicate, CompoundOperator as CO, CompoundPredicate, LogicalOperator as LO

LEVEL = "translation_validation"
ASSUMPTIONS = ["a fragment consists of exactly those parts whose tables are a subset of the requested ones (the documented rule, including its treatment of disjunctions)",
               "CTEs that the remaining CTEs need are kept", "semantics of SQL as in vx/sqlsem.py"]
F = ["postbound.transform.extract_query_fragment", "postbound.transform._get_predicate_fragment", "postbound.transform.move_into_subquery"]

PREDS = {
    "fr": lambda: BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1)),
    "fs": lambda: qal.InPredicate(B.cexp("s", "c"), [B.const(2), B.const(3)]),
    "ft": lambda: BinaryPredicate(LO.Less, B.cexp("t", "d"), B.const(4)),
    "rs": lambda: BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.cexp("s", "a")),
    "st": lambda: qal.BetweenPredicate(B.cexp("s", "c"), (B.const(0), B.cexp("t", "d"))),
    "none": lambda: BinaryPredicate(LO.Equal, B.const(1), B.const(2)),
    "ex": lambda: qal.UnaryPredicate(qal.SubqueryExpression(B.select(B.const(1), frm=("t",), where=BinaryPredicate(LO.Equal, B.cexp("t", "b"), B.cexp("r", "a")))), LO.Exists),
}
TABS = {"fr": {"r"}, "fs": {"s"}, "ft": {"t"}, "rs": {"r", "s"}, "st": {"s", "t"}, "none": set(), "ex": {"r", "t"}}


def tree(ctx, depth, n="p", leaves=tuple(PREDS)):
    """nested tuples (operator, children...) with names of predicates as leaves"""
    k = ctx.pick(n, ["leaf", "not", "and", "or", "and3", "or3"] if depth else ["leaf"])
    if k == "leaf":
        return ctx.pick(n + "l", list(leaves))
    x = tree(ctx, depth - 1, n + "0", leaves if depth < 2 else ("fr", "fs", "rs"))
    if k == "not":
        return ("not", x)
    y = ctx.pick(n + "1", ["fr", "fs", "st"])
    return (k[:3] if k[0] == "a" else "or", x, y) + (("ft",) if k[-1] == "3" else ())


def obj(t):
    if isinstance(t, str):
        return PREDS[t]()
    kids = [obj(k) for k in t[1:]]
    return CompoundPredicate(CO.Not, kids[0]) if t[0] == "not" else CompoundPredicate(CO.And if t[0] == "and" else CO.Or, kids)


def frag(t, tabs):
    if isinstance(t, str):
        return t if TABS[t] <= tabs else None
    kids = [k for k in (frag(k, tabs) for k in t[1:]) if k is not None]
    return None if not kids else kids[0] if len(kids) == 1 and t[0] != "not" else (t[0],) + tuple(kids)


SETS = [("r",), ("s",), ("t",), ("r", "s"), ("t", "s"), ("r", "t"), ("r", "s", "t")]


def base(frm, targets, *, distinct=False, where=None, group=None, having=None, order=None, limit=None, ctes=None):
    return qal.build_query([x for x in [
        qal.CommonTableExpression(ctes) if ctes else None,
        qal.Select(targets, distinct=distinct), qal.ImplicitFromClause([qal.DirectTableSource(t) for t in frm]),
        qal.Where(where) if where is not None else None, qal.GroupBy(group) if group else None, qal.Having(having) if having is not None else None,
        qal.OrderBy(order) if order else None, qal.Limit(limit=limit) if limit else None] if x is not None])


def predicates(depth):
    def body(ctx):
        t = tree(ctx, depth)
        q = B.select(B.cexp("r", "a"), frm=("r", "s", "t"), where=obj(t))
        names = ctx.pick("tables", SETS)
        key = f"{'/'.join(names)}: {q}"
        res = T.extract_query_fragment(q, [B.tab(x) for x in names], projection="star")
        f = frag(t, set(names))
        exp = base([B.tab(x) for x in ("r", "s", "t") if x in names], [qal.BaseProjection.star()], where=obj(f) if f is not None else None)
        agree(ctx, "set", S.from_qal(exp), S.from_qal(res), "the fragment has exactly the predicates over the tables", key)
        ctx.reach("where" if f is not None else "no where")
    return body


def clauses(ctx):
    """every other clause"""
    P = qal.BaseProjection
    proj = ctx.pick("proj", ["r", "rs", "r,s", "rs-sum,t", "count", "1", "t"])
    tg = {"r": [(P(B.cexp("r", "a")), "r")], "rs": [(P(qal.MathExpression(qal.MathOperator.Add, B.cexp("r", "a"), B.cexp("s", "c")), "v"), "rs")],
          "r,s": [(P(B.cexp("r", "a"), "x"), "r"), (P(B.cexp("s", "c")), "s")],
          "rs-sum,t": [(P(qal.FunctionExpression("max", [qal.MathExpression(qal.MathOperator.Add, B.cexp("r", "a"), B.cexp("s", "c"))]), "v"), "rs"),
                       (P(qal.FunctionExpression("min", [B.cexp("t", "d")])), "t")],
          "count": [(P(qal.FunctionExpression("count", [qal.StarExpression()])), "")], "1": [(P(B.const(1), "one"), ""), (P(B.cexp("t", "b")), "t")],
          "t": [(P(B.cexp("t", "d")), "t")]}[proj]
    agg = proj in ("rs-sum,t", "count")
    tail = ctx.pick("tail", ["none", "group", "group2"] if agg else ["none", "order", "order2", "limit"])
    both = qal.MathExpression(qal.MathOperator.Add, B.cexp("r", "b"), B.cexp("s", "c"))
    dist = ctx.pick("distinct", [False, True, "on"]) if not agg else False
    O = qal.OrderByExpression
    group = [(B.cexp("r", "a"), "r"), (B.cexp("s", "c"), "s")] if tail == "group" else [(both, "rs"), (B.cexp("t", "d"), "t")] if tail == "group2" else []
    order = [(O(B.cexp("s", "a"), False, True), "s"), (O(B.cexp("r", "b")), "r")] if tail in ("order", "limit") else [(O(both), "rs"), (O(B.cexp("s", "c")), "s"), (O(B.cexp("t", "d"), False), "t")] if tail == "order2" else []
    having = ("and", [(BinaryPredicate(LO.Greater, qal.FunctionExpression("max", [B.cexp("r", "b")]), B.const(1)), "r"),
                      (BinaryPredicate(LO.Less, qal.FunctionExpression("min", [B.cexp("s", "c")]), B.const(5)), "s")]) if tail == "group" else ("and", [(BinaryPredicate(LO.Greater, qal.FunctionExpression("max", [both]), B.const(1)), "rs"),
                                     (BinaryPredicate(LO.Less, qal.FunctionExpression("min", [B.cexp("s", "c")]), B.const(5)), "s")]) if tail == "group2" else None
    names = ctx.pick("tables", SETS)
    how = ctx.pick("projection", ["keep", "star", "*", "count_star"])
    sub = set(names)
    ok = lambda xs: [x for x, t in xs if set(t) <= sub]
    on = [(B.cexp("s", "a"), "s"), (B.cexp("r", "b"), "r"), (both, "rs")]

    def make(tabs, targets, distinct, g, h, o):
        return base([B.tab(x) for x in tabs], targets, distinct=distinct, where=PREDS["rs"]() if {"r", "s"} <= set(tabs) else None, group=g,
                    having=None if not h else h[0] if len(h) == 1 else CompoundPredicate(CO.And, h), order=o, limit=1 if tail == "limit" else None)
    q = make(("r", "s", "t"), [x for x, _ in tg], [x for x, _ in on] if dist == "on" else dist, [x for x, _ in group], [x for x, _ in having[1]] if having else None,
             [x for x, _ in order])
    keep = ok(tg)
    d = {"keep": (ok(on) if dist == "on" else dist)}.get(how, False)
    targets = {"keep": keep or [P.star()], "count_star": [P(qal.FunctionExpression("count", [qal.StarExpression()]))]}.get(how, [P.star()])
    exp = make([x for x in ("r", "s", "t") if x in sub], targets, d or False, ok(group), ok(having[1]) if having else None, ok(order))
    arg = [B.tab(x) for x in names]
    res = T.extract_query_fragment(q, arg[0] if len(arg) == 1 else arg, projection=how)
    key = f"{'/'.join(names)} {how}: {q}"
    e, g = S.from_qal(exp), S.from_qal(res)
    agree(ctx, "set", e, g, "the fragment has exactly the clauses over the tables", key)
    ctx.check(T.extract_query_fragment(q, [B.tab("nope")]) is None and T.extract_query_fragment(q, arg + [B.tab("nope")]) is None, "there is no fragment for unknown tables", key=key)
    ctx.reach("kept" if keep and how == "keep" else "other")


def nested(ctx):
    """set operations and CTEs"""
    how = ctx.pick("projection", ["keep", "star", "count_star"])
    form = ctx.pick("form", ["union", "same", "nested", "cte", "chain", "setcte"])
    names = ctx.pick("tables", [("r",), ("r", "s"), ("s",), ("x",), ("x", "r"), ("y", "x")])
    text, exps = {
        "union": ("SELECT r.a FROM r, t WHERE r.b = 1 AND t.d = 2 UNION SELECT s.a FROM s, t WHERE s.c = t.b AND s.a < 3 ORDER BY 1 LIMIT 2",
                  {("r", "s"): "SELECT {r.a} FROM r WHERE r.b = 1 UNION SELECT {s.a} FROM s WHERE s.a < 3 ORDER BY 1 LIMIT 2"}),
        "same": ("SELECT r.a FROM r, s WHERE r.b = 1 AND s.c = 2 EXCEPT SELECT s.a FROM r, s WHERE r.b = 3 AND s.c = 4",
                 {("r",): "SELECT {r.a} FROM r WHERE r.b = 1 EXCEPT SELECT {} FROM r WHERE r.b = 3", ("s",): "SELECT {} FROM s WHERE s.c = 2 EXCEPT SELECT {s.a} FROM s WHERE s.c = 4"}),
        "nested": ("SELECT r.a FROM r, s WHERE r.b = 1 INTERSECT (SELECT r.b FROM r, s WHERE s.a = 1 UNION ALL SELECT r.a FROM r, s WHERE r.a = 2)",
                   {("r",): "SELECT {r.a} FROM r WHERE r.b = 1 INTERSECT (SELECT {r.b} FROM r UNION ALL SELECT {r.a} FROM r WHERE r.a = 2)"}),
        "cte": ("WITH x AS (SELECT t.b AS z FROM t), w AS (SELECT t.d FROM t) SELECT x.z, r.a FROM x, r, w WHERE x.z = r.a AND r.b = 1 AND w.d = 3",
                {("x",): "WITH x AS (SELECT t.b AS z FROM t) SELECT {x.z} FROM x", ("x", "r"): "WITH x AS (SELECT t.b AS z FROM t) SELECT {x.z, r.a} FROM x, r WHERE x.z = r.a AND r.b = 1",
                 ("r",): "SELECT {r.a} FROM r WHERE r.b = 1"}),
        "chain": ("WITH y AS (SELECT t.b AS z FROM t), v AS (SELECT s.a FROM s), x AS (SELECT y.z FROM y WHERE y.z = 2) SELECT x.z, r.a FROM x, r, v WHERE x.z = r.a",
                  {("x",): "WITH y AS (SELECT t.b AS z FROM t), x AS (SELECT y.z FROM y WHERE y.z = 2) SELECT {x.z} FROM x",
                   ("x", "r"): "WITH y AS (SELECT t.b AS z FROM t), x AS (SELECT y.z FROM y WHERE y.z = 2) SELECT {x.z, r.a} FROM x, r WHERE x.z = r.a"}),
        "setcte": ("WITH x AS (SELECT t.b AS z FROM t), w AS (SELECT t.d FROM t) SELECT r.a FROM r, w UNION SELECT r.b FROM r, w WHERE w.d = 1",
                   {("r",): "SELECT {r.a} FROM r UNION SELECT {r.b} FROM r"}),
    }[form]
    q = K.parse(text)
    if names not in exps:
        if form in ("union", "same", "nested", "setcte") and not set(names) & {"x", "y"}:
            for side in (q.left_query, q.right_query):
                if not any(t.full_name in names for t in side.tables()):
                    ctx.check(T.extract_query_fragment(q, [t for t in q.tables() if t.identifier() in names]) is None, "no fragment if one side is empty", key=f"{names}: {text}")
        return
    arg = [t for t in q.tables() if t.identifier() in names]
    res = T.extract_query_fragment(q, arg, projection=how)
    import re
    et = re.sub(r"\{(.*?)\}", lambda m: {"keep": m.group(1) or "*", "star": "*", "count_star": "count(*)"}[how], exps[names])
    key = f"{'/'.join(names)} {how}: {text}"
    ctx.check(res is not None, "there is a fragment", key=key)
    ctx.check(K.ctes_of(S.from_pg(et)) == K.ctes_of(S.from_qal(res)), "exactly the required CTEs are kept", key=key, got=str(res))
    agree(ctx, "set", S.from_pg(et), S.from_qal(res), "the fragment covers all parts of the query", key)
    ctx.reach(form)


# ---------------------------------------------------------------- move_into_subquery
def move(depth):
    def body(ctx):
        t = tree(ctx, depth, leaves=("fr", "fs", "ft", "rs", "st", "none"))
        names = ctx.pick("tables", [("r", "s"), ("s", "t"), ("r", "t"), ("r", "s", "t")])
        P = qal.BaseProjection
        proj = ctx.pick("proj", ["cols", "expr", "count"])
        targets = {"cols": [P(B.cexp("r", "b"), "p"), P(B.cexp("t", "d"))], "expr": [P(qal.MathExpression(qal.MathOperator.Add, B.cexp("s", "c"), B.cexp("r", "b")), "v")],
                   "count": [P(qal.FunctionExpression("count", [qal.StarExpression()]))]}[proj]
        q = base([B.tab(x) for x in ("r", "s", "t")], targets, where=obj(t))
        key = f"{'/'.join(names)}: {q}"
        try:
            res = T.move_into_subquery(q, [B.tab(x) for x in names], ctx.pick("name", ["", "sq"]))
        except ValueError as e:
            ctx.reach("rejected")
            cols = [c for c in q.columns() if c.table.full_name in names]
            ctx.check(len({c.name for c in cols}) < len(cols) and "same name" in str(e), "only queries that export two columns of the same name are rejected", key=key, error=str(e))
            return
        ctx.reach("moved")
        subs = [f for f in res.from_clause.items if isinstance(f, qal.SubqueryTableSource)]
        ctx.check(len(subs) == 1 and {x.full_name for x in subs[0].query.tables()} == set(names), "exactly the tables are part of the subquery", key=key, got=str(res))
        ctx.check(sorted(x.table.full_name for x in res.from_clause.items if isinstance(x, qal.DirectTableSource)) == [x for x in ("r", "s", "t") if x not in names],
                  "all other tables stay where they are", key=key, got=str(res))
        db = K.db_for(ctx, "set")
        ctx.check(S.equivalent(ctx, db, S.from_qal(q), S.from_qal(res)), "the query keeps its meaning", key=key, got=str(res))
    return body


def moved_clauses(ctx):
    """explicit joins, grouping, ordering, DISTINCT, limits"""
    frm = ctx.pick("frm", ["r, s, t", "t, s, r", "r, s, t AS y"])
    where = ctx.pick("where", ["r.a = s.a", "r.a = s.a AND s.c = {}.b AND r.b = 1", "r.a = s.a AND (r.b = 1 OR s.c = 2)"]).format("y" if "AS y" in frm else "t")
    y = "y" if "AS y" in frm else "t"
    rest = ctx.pick("rest", [f"SELECT DISTINCT r.b, {y}.d FROM F WHERE W", f"SELECT r.b, max({y}.d) AS m FROM F WHERE W GROUP BY r.b HAVING min(s.c) > 1",
                             f"SELECT s.c, {y}.d FROM F WHERE W ORDER BY s.c DESC, {y}.d LIMIT 1", f"SELECT count(*) FROM F WHERE W", f"SELECT 1 AS one FROM F",
                             f"SELECT DISTINCT ON (s.c) s.c, r.b FROM F WHERE W ORDER BY s.c, r.b DESC"])
    q = K.parse(rest.replace("F WHERE", f"{frm} WHERE").replace("FROM F", f"FROM {frm}").replace("WHERE W", f"WHERE {where}"))
    names = ctx.pick("tables", [("r", "s"), ("s", y)])
    q = T.add_clause(q, qal.Hint("SET geqo = 'off';", "/*+ X */"))
    try:
        res = T.move_into_subquery(q, [t for t in q.tables() if t.identifier() in names])
    except ValueError as e:
        ctx.check("same name" in str(e), "rejected for a documented reason", key=str(q), error=str(e))
        return ctx.reach("rejected")
    ctx.reach("moved")
    ctx.check(res.hints == q.hints, "hints are kept", key=str(q))
    ctx.check(S.equivalent(ctx, K.db_for(ctx, "set"), S.from_qal(q), S.from_qal(res)), "the query keeps its meaning", key=str(q), got=str(res))


def rejected(ctx):
    bad = ctx.pick("bad", ["nofrom", "one", "virtual"])
    q = K.parse({"nofrom": "SELECT 1", "one": "SELECT r.b FROM r, s", "virtual": "SELECT r.b FROM r, s, (SELECT t.b FROM t) AS x"}[bad])
    try:
        T.move_into_subquery(q, [B.tab("r")] + ([B.tab("s")] if bad != "one" else []))
        done = True
    except ValueError:
        done = False
    ctx.check(not done, "unsupported queries are rejected", key=bad)


def harnesses(tier):
    t = tier == "thorough"
    one = "one symbolic row per table"
    return [Harness("predicates", predicates(2), functions=F, must_reach=["where", "no where"], bounds="predicate trees of depth 2, all subsets of three tables"),
            Harness("clauses", clauses, functions=F, must_reach=["kept", "other"], bounds="all clauses x projections x subsets of three tables; " + one),
            Harness("nested", nested, functions=F, must_reach=["union", "same", "nested", "cte", "chain", "setcte"], bounds="six set queries / CTEs"),
            Harness("move", move(2 if t else 1), functions=F, must_reach=["moved", "rejected"], bounds=f"predicate trees of depth {2 if t else 1} over three tables, all choices of tables; " + one),
            Harness("move-clauses", moved_clauses, functions=F, must_reach=["moved"], bounds="3 FROM x 3 WHERE x 6 combinations of clauses; " + one),
            Harness("move-rejects", rejected, functions=F, bounds="documented errors")]
