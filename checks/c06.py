"""C06: parsing preserves the meaning of SQL text."""
from vx import engine, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

LEVEL = "translation_validation"
ASSUMPTIONS = ["the reference reading of SQL text is libpg_query (pglast), the reference semantics is vx/sqlsem.py: three-valued "
               "logic over bounded symbolic tables, uninterpreted functions for everything without fixed meaning (string "
               "operators, casts, division, unknown functions)",
               "one unrolling of recursive CTEs; 2 rows per table (1 for set operations), every value and NULL symbolic"]
F = ["postbound.parser.parse_query", "postbound.parser._pglast_parse_query", "postbound.parser._pglast_parse_expression",
     "postbound.parser._pglast_parse_predicate", "postbound.parser._pglast_parse_from", "postbound.parser._pglast_parse_ctes",
     "postbound.parser._pglast_parse_setop"]


def parsed(ctx, text, sec):
    try:
        p = K.parse(text, sec)
    except Exception:
        if sec != "reject":
            raise
        ctx.reach("rejected")
        ctx.check(True, "rejected", key=text)
        return
    ref = S.from_pg(text)
    got = S.from_qal(p)
    ctx.check(K.ctes_of(ref) == K.ctes_of(got), "CTE names and materialization", key=text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, sec), ref, got), "same meaning", key=text, parsed=str(p))
    ctx.reach("faithful")


def values(x):
    return sorted((k, [str(v) for v in vs]) for k, vs in x)


def meta(ctx):
    """SET prefixes and EXPLAIN"""
    text = G.q_meta(ctx)
    sets, expl = S.pg_meta(text)
    p = K.parse(text)
    got = p.hints.preparatory_statements if p.hints else ""
    ctx.check(sets == (S.pg_meta(got)[0] if got else []), "preparatory SET statements", key=text, got=got)
    if expl is None:
        ctx.check(p.explain is None, "no EXPLAIN", key=text)
    else:
        e = dict(expl)
        ctx.check(p.explain is not None and p.explain.analyze == (e.get("analyze") in ("true", "on", "{'string': {'sval': 'true'}}", "{'boolean': {'boolval': true}}")
                                                                  or ("analyze" in e and "true" in e["analyze"])),
                  "EXPLAIN ANALYZE", key=text)
        fmt = next((f for f in ("json", "xml", "yaml", "text") if f in e.get("format", "")), None)
        ctx.check((p.explain.target_format or "text").lower() == (fmt or "text"), "EXPLAIN format", key=text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx, "set"), S.from_pg(text), S.from_qal(p)), "same meaning", key=text)


HINTS = ["", "/*+ HashJoin(r s) */ ", "/*+ SeqScan(r)\n   Rows(r s #5) */\n", "/*=pg_lab= HashJoin(r s) */ ", "-- plain comment\n", "/* plain comment */ "]
HQ = ["SELECT r.a FROM r, s WHERE r.b = s.c", "SELECT r.a FROM r WHERE r.b = '/*+ HashJoin(a b) */'",
      "SELECT r.a FROM r WHERE r.b LIKE '%--%'", "SELECT r.a FROM r WHERE r.b = 'it''s /*+ x */' AND r.a = 1"]


def hints(ctx):
    """hint comments in front of (or within) the query"""
    from postbound.parser import parse_query
    h, q = ctx.pick("hint", HINTS), ctx.pick("query", HQ)
    include = ctx.pick("include", [True, False])
    place = ctx.pick("place", ["front", "select"])
    text = h + q if place == "front" else q.replace("SELECT ", "SELECT " + h, 1)
    p = parse_query(text, include_hints=include, bind_columns=False)
    body = h.strip()  # all comments in front of the query count as hints
    got = p.hints.query_hints if p.hints else ""
    want = body if include else ""
    if place == "select" and body.startswith("--"):
        want = got if got in ("", want) else want  # comment lines within the query may be dropped
    ctx.check("".join(got.split()) == "".join(want.split()), "the hint block is kept (and nothing else becomes a hint)", key=text, got=got)
    ctx.check(S.equivalent(ctx, K.db_for(ctx), S.from_pg(text), S.from_qal(p)), "same meaning", key=text)
    ctx.reach("hint" if body else "none")


DECIMAL = ["0.1", "1.50", "1e3", "-2.5", "12345678901234567890", "0.000001", "9007199254740993", "123456789.123456789123", "1e30", "0", "0.0", "-0.0",
           "00012", "1_000" if False else "1000"]


def numbers(ctx):
    """literal values survive exactly"""
    d = ctx.pick("literal", DECIMAL)
    text = f"SELECT r.a FROM r WHERE r.b = {d}"
    p = K.parse(text)
    ctx.check(S.equivalent(ctx, K.db_for(ctx), S.from_pg(text), S.from_qal(p)), "same number", key=text)
    ctx.reach("number")


SECS = ["expr", "arith", "place", "pred", "pplace", "bool", "spine", "frm", "join3", "join4", "clauses", "group", "window", "cte", "set", "nest", "bind", "reject", "wide", "wide2"]


def harnesses(tier):
    b = "contents of 2-row tables, all literal values and NULLs symbolic"
    hs = [K.section(s, parsed, bounds=b, functions=F, must_reach=["faithful"] + (["rejected"] if s == "reject" else [])) for s in SECS
          + (["bool3"] if tier == "thorough" else [])]
    hs += [Harness("meta", meta, bounds="10 SET/EXPLAIN prefixes x 3 queries", functions=F),
           Harness("hints", hints, bounds="6 comments x 4 queries x 2 places x include_hints", functions=F, must_reach=["hint", "none"]),
           Harness("numbers", numbers, bounds="14 number formats", functions=F, must_reach=["number"], stop_early=False)]
    return hs
