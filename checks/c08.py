"""C08: pretty printing a query does not change it."""
from checks import c07
from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

LEVEL = "translation_validation"
ASSUMPTIONS = c07.ASSUMPTIONS
F = ["postbound.qal.format_quick", "postbound.qal._formatter._quick_format_*", "postbound.qal._formatter._expression_prettifier",
     "postbound.qal._formatter._PostgresCastExpression"]


def formatted(ctx, q, sec, key=None):
    from postbound.qal import format_quick
    flavor = ctx.pick("flavor", ["vanilla", "postgres"])
    before = S.from_qal(q)
    text = format_quick(q, flavor=flavor)
    key = f"{flavor}: {key or q}"
    ref, got = S.from_qal(q), S.from_pg(text)
    ctx.check(repr(before.__dict__) == repr(ref.__dict__), "the query object is not modified", key=key)
    ctx.check(K.ctes_of(ref) == K.ctes_of(got), "CTE names and materialization", key=key, text=text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, sec), ref, got), "same meaning", key=key, text=text)
    ctx.check("".join(format_quick(q, flavor=flavor, trailing_semicolon=False).split()) + ";" == "".join(text.split()), "the delimiter is only appended", key=key)
    ctx.reach("formatted")


def parsed(ctx, text, sec):
    try:
        q = K.parse(text, sec)
    except Exception:
        if sec != "reject":
            raise
        return
    formatted(ctx, q, sec, key=text)


def trees(depth):
    def body(ctx):
        q = B.select(B.tree(ctx, depth))
        try:
            K.db_for(ctx, "").run(S.from_qal(q))
        except S.Unsupported:  # e.g. nested aggregates: no valid SQL
            return ctx.reach("invalid")
        formatted(ctx, q, "")
    return body


def preds(depth):
    def body(ctx):
        formatted(ctx, B.select(B.cexp("r", "a"), where=B.pred(ctx, depth)), "")
    return body


def prefix(ctx):
    """hints and EXPLAIN, hint block in front or inlined"""
    from postbound import qal
    an, fmt = ctx.pick("analyze", [False, True]), ctx.pick("format", [None, "JSON"])
    ex = qal.Explain(an, fmt) if ctx.choose("explain", 2) else None
    hint = ctx.pick("hint", ["", "/*+ HashJoin(r s) */", "/*+ HashJoin(r s)\n Rows(r s #5) */"])
    prep = ctx.pick("prep", ["", "SET geqo = 'off';", "SET a.b = 3; SET work_mem = '4MB';"])
    h = qal.Hint(prep, hint) if hint or prep else None
    kind = ctx.pick("kind", ["plain", "distinct", "set", "cte"])
    if kind == "set":
        q = qal.SetQuery(B.select(B.cexp("r", "a")), B.select(B.cexp("s", "c"), frm=("s",)), set_operation=qal.SetOperator.UnionAll,
                         hints=h, explain_clause=ex)
    else:
        q = qal.build_query([c for c in [qal.Select([qal.BaseProjection(B.cexp("r", "a"))], distinct=kind == "distinct"),
                                         qal.CommonTableExpression([qal.WithQuery(B.select(B.cexp("s", "c"), frm=("s",)), "z")]) if kind == "cte" else None,
                                         qal.ImplicitFromClause([qal.DirectTableSource(B.tab("r"))]), ex, h] if c])
    inline = ctx.pick("inline", [False, True])
    text = qal.format_quick(q, inline_hint_block=inline, flavor=ctx.pick("flavor", ["vanilla", "postgres"]))
    sets, expl = S.pg_meta(text)
    ctx.check(sets == (S.pg_meta(prep)[0] if prep else []), "SET statements are kept", key=text)
    ctx.check((expl is None) == (ex is None), "EXPLAIN is kept", key=text)
    if ex is not None:
        d = dict(expl)
        ctx.check(("analyze" in d) == an and (fmt or "").lower() in d.get("format", "") and ("format" in d) == bool(fmt), "EXPLAIN options are kept",
                  key=text, options=expl)
    ctx.check("".join(hint.split()) in "".join(text.split()), "hint block is kept", key=text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, "set"), S.from_qal(q), S.from_pg(text)), "same meaning", key=text)


def multiline(ctx):
    """string literals with line breaks"""
    lit = ctx.pick("literal", ["'x\n y'", "'a\n\nb'", "E'a\\nb'"])
    text = ctx.pick("place", ["SELECT r.a FROM r WHERE r.b = {}", "SELECT {} AS v FROM r", "SELECT r.a FROM r WHERE r.b IN (SELECT s.c FROM s WHERE s.a = {})",
                              "WITH x AS (SELECT s.c FROM s WHERE s.a = {}) SELECT x.c FROM x", "SELECT CASE WHEN r.a = {} THEN 1 ELSE 2 END FROM r",
                              "SELECT x.c FROM (SELECT s.c FROM s WHERE s.a = {}) AS x", "SELECT r.a FROM r WHERE r.b = {} AND (r.a = {} OR r.a = 2)",
                              "SELECT r.a FROM r JOIN s ON r.a = s.a AND s.c = {}", "SELECT r.a FROM r UNION SELECT s.a FROM s WHERE s.c = {}"]).replace("{}", lit)
    formatted(ctx, K.parse(text), "set", key=text)


SECS = ["expr", "place", "pred", "pplace", "bool", "spine", "frm", "join3", "join4", "clauses", "group", "window", "cte", "set", "nest", "bind", "reject", "wide", "wide2"]


def harnesses(tier):
    b = "both dialects; contents of 2-row tables, all literal values and NULLs symbolic"
    hs = [K.section(s, parsed, bounds=b, functions=F, must_reach=["formatted"]) for s in SECS
          + (["arith", "bool3"] if tier == "thorough" else [])]
    d = 2 if tier == "thorough" else 1
    hs += [Harness("trees", trees(d), bounds=f"expression objects: every spine of {d} nested expression kinds", functions=F, must_reach=["formatted"]),
           Harness("predicates", preds(d + 1), bounds=f"predicate objects: every spine of depth {d + 1}", functions=F),
           Harness("multiline", multiline, bounds="3 literals with line breaks in 9 places", functions=F, stop_early=False),
           Harness("prefix", prefix, bounds="EXPLAIN options x hint block (inlined or not) x SET statements, plain, DISTINCT, CTE and set queries", functions=F)]
    return hs
