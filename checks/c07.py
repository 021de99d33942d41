"""C07: the text of a query object means what the object says."""
from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

LEVEL = "translation_validation"
ASSUMPTIONS = ["the reference reading of SQL text is libpg_query (pglast), the reference semantics is vx/sqlsem.py",
               "one unrolling of recursive CTEs; 2 rows per table (1 for set operations), every value and NULL symbolic"]
F = ["postbound.qal.SqlQuery.__str__", "postbound.qal.SqlQuery.stringify", "postbound.qal.SetQuery.stringify", "postbound.qal.*Expression.__str__",
     "postbound.qal.*Predicate.__str__", "postbound.qal.<clauses>.__str__", "postbound.qal.<table sources>.__str__"]


def rendered(ctx, q, sec, key=None):
    text = str(q)
    key = key or text
    ref, got = S.from_qal(q), S.from_pg(text)
    ctx.check(K.ctes_of(ref) == K.ctes_of(got), "CTE names and materialization", key=key)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, sec), ref, got), "same meaning", key=key, text=text)
    ctx.check(q.stringify(trailing_delimiter=False) + ";" == text, "the delimiter is only appended", key=key)
    ctx.reach("rendered")


def parsed(ctx, text, sec):
    try:
        q = K.parse(text, sec)
    except Exception:
        if sec != "reject":
            raise
        return
    rendered(ctx, q, sec, key=text)


def trees(depth):
    def body(ctx):
        q = B.select(B.tree(ctx, depth))
        try:
            K.db_for(ctx, "").run(S.from_qal(q))
        except S.Unsupported:  # e.g. nested aggregates: no valid SQL
            return ctx.reach("invalid")
        rendered(ctx, q, "")
    return body


def preds(depth):
    def body(ctx):
        q = B.select(B.cexp("r", "a"), where=B.pred(ctx, depth))
        rendered(ctx, q, "")
    return body


def joins(ctx):
    """explicit joins built through the API: all trees over three tables, all join types"""
    from postbound import qal
    t = [qal.DirectTableSource(B.tab(x)) for x in ("r", "s", "t")]
    on1 = qal.BinaryPredicate(qal.LogicalOperator.Equal, B.cexp("r", "a"), B.cexp("s", "a"))
    on2 = qal.BinaryPredicate(qal.LogicalOperator.Equal, B.cexp("s", "c"), B.cexp("t", "d"))
    types = [qal.JoinType.InnerJoin, qal.JoinType.LeftJoin, qal.JoinType.RightJoin, qal.JoinType.OuterJoin, qal.JoinType.CrossJoin]

    def j(l, r, ty, on):
        return qal.JoinTableSource(l, r, join_type=ty, join_condition=None if ty == qal.JoinType.CrossJoin else on)
    a, b = ctx.pick("t1", types), ctx.pick("t2", types)
    src = j(j(t[0], t[1], a, on1), t[2], b, on2) if ctx.choose("shape", 2) else j(t[0], j(t[1], t[2], b, on2), a, on1)
    q = qal.build_query([qal.Select([qal.BaseProjection(B.cexp(x, c), x + c) for x, c in (("r", "a"), ("s", "c"), ("t", "d"))]),
                         qal.ExplicitFromClause([src])])
    rendered(ctx, q, "")


def limits(ctx):
    """LIMIT / OFFSET / ORDER BY modifiers"""
    from postbound import qal
    lim, off = ctx.pick("limit", [None, 0, 1, 3]), ctx.pick("offset", [None, 0, 1])
    if lim is None and off is None:
        return
    d = ctx.pick("dir", ["first", "next"])
    asc, nf = ctx.pick("asc", [None, True, False]), ctx.pick("nulls", [None, True, False])
    q = qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a"))], distinct=ctx.pick("distinct", [False, True])),
                         qal.ImplicitFromClause([qal.DirectTableSource(B.tab("r"))]),
                         qal.OrderBy([qal.OrderByExpression(B.cexp("r", "a"), asc, nf)]),
                         qal.Limit(limit=lim, offset=off, fetch_direction=d)])
    rendered(ctx, q, "")


def prefix(ctx):
    """EXPLAIN and hint blocks"""
    from postbound import qal
    an, fmt = ctx.pick("analyze", [False, True]), ctx.pick("format", [None, "JSON", "XML"])
    ex = qal.Explain(an, fmt) if ctx.choose("explain", 2) else None
    hint = ctx.pick("hint", ["", "/*+ HashJoin(r s) */"])
    prep = ctx.pick("prep", ["", "SET geqo = 'off';", "SET a.b = 3; SET work_mem = '4MB';"])
    h = qal.Hint(prep, hint) if hint or prep else None
    setq = ctx.choose("set", 2)
    if setq:
        q = qal.SetQuery(B.select(B.cexp("r", "a")), B.select(B.cexp("s", "c"), frm=("s",)), set_operation=qal.SetOperator.UnionAll,
                         hints=h, explain_clause=ex)
    else:
        q = qal.build_query([c for c in [qal.Select([qal.BaseProjection(B.cexp("r", "a"))]),
                                         qal.ImplicitFromClause([qal.DirectTableSource(B.tab("r"))]), ex, h] if c])
    text = str(q)
    sets, expl = S.pg_meta(text)
    ctx.check(sets == (S.pg_meta(prep)[0] if prep else []), "SET statements are kept", key=text)
    ctx.check((expl is None) == (ex is None), "EXPLAIN is kept", key=text)
    if ex is not None:
        d = dict(expl)
        ctx.check(("analyze" in d) == an and (fmt or "").lower() in d.get("format", "") and ("format" in d) == bool(fmt), "EXPLAIN options are kept",
                  key=text, options=expl)
    ctx.check(hint in text, "hint block is kept", key=text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, "set"), S.from_qal(q), S.from_pg(text)), "same meaning", key=text)


SECS = ["expr", "arith", "place", "pred", "pplace", "bool", "spine", "frm", "join3", "join4", "clauses", "group", "window", "cte", "set", "nest", "bind", "reject", "wide", "wide2"]


def harnesses(tier):
    b = "contents of 2-row tables, all literal values and NULLs symbolic"
    hs = [K.section(s, parsed, bounds=b, functions=F, must_reach=["rendered"]) for s in SECS + (["bool3"] if tier == "thorough" else [])]
    d = 3 if tier == "thorough" else 2
    hs += [Harness("trees", trees(d), bounds=f"expression objects: every spine of {d} nested expression kinds ({len(B.KINDS)} kinds, both operand "
                   f"positions, {len(B.LEAVES)} leaves)", functions=F, must_reach=["rendered"]),
           Harness("predicates", preds(d), bounds=f"predicate objects: every spine of depth {d} (AND/OR/NOT, binary and ternary, wrapped, nested)", functions=F),
           Harness("joins", joins, bounds="both join trees over 3 tables, 25 combinations of join types", functions=F),
           Harness("limits", limits, bounds="limit, offset, fetch direction, sort direction, nulls first/last, distinct", functions=F),
           Harness("prefix", prefix, bounds="EXPLAIN options x hint block x SET statements, plain and set queries", functions=F)]
    return hs
