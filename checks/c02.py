"""C02: identifiers and string literals survive rendering as SQL text."""
import re
from collections.abc import Mapping

import pglast
import z3
from pglast import keywords as pgk
from vx import engine, rx
from vx.engine import Harness
from vx.sym import And, Iff, Implies, Not, Or, Shadow, SymBool, SymStr, detoken, lift_chars

import postbound as pb
import postbound._core as core
from postbound import qal
from postbound._core import ColumnReference, TableReference

LEVEL = "model_checking"
ASSUMPTIONS = [
    "lexical rules of PostgreSQL: an unquoted identifier is [a-z_][a-z0-9_$]* and no reserved word (RESERVED and TYPE_FUNC_NAME "
    "keywords of libpg_query); a quoted one is any text in double quotes with embedded double quotes doubled",
    "regular expressions and keyword sets inside postbound._core are evaluated by a term-level matcher built from the pattern",
    "code points 1..127 are symbolic, other code points come from a short list",
]
RESERVED = sorted(set(pgk.RESERVED_KEYWORDS) | set(pgk.TYPE_FUNC_NAME_KEYWORDS))
ALL = sorted(set(RESERVED) | set(pgk.COL_NAME_KEYWORDS) | set(pgk.UNRESERVED_KEYWORDS))


class WordSet(frozenset):
    """membership of symbolic words"""

    def __contains__(self, x):
        if isinstance(x, SymStr):
            return bool(Or(*[x == w for w in frozenset.__iter__(self) if isinstance(w, str) and len(w) == len(x)]))
        return frozenset.__contains__(self, x)


def shadow():
    m = {}
    for k, v in vars(core).items():
        if isinstance(v, re.Pattern):
            m[k] = rx.Pattern(v)
        elif isinstance(v, (frozenset, set)) and v and all(isinstance(x, str) for x in v):
            m[k] = WordSet(v)
        elif v is re:
            m[k] = rx.ReShim()
    return Shadow({core: m})


def lower_(c):
    return z3.And(c >= 97, c <= 122)


def unquoted_ok(cs):
    """cs lexes as one unquoted identifier that denotes itself"""
    start = z3.Or(lower_(cs[0]), cs[0] == 95)
    rest = [z3.Or(lower_(c), c == 95, c == 36, z3.And(c >= 48, c <= 57)) for c in cs[1:]]
    kw = [z3.And([c == ord(x) for c, x in zip(cs, k)]) for k in RESERVED if len(k) == len(cs)]
    return z3.And(start, *rest, z3.Not(z3.Or(kw)) if kw else z3.BoolVal(True))


def doubled(cs, q):
    """all ways the text between the delimiters decodes: [(guard, decoded characters)]"""
    if not cs:
        return [(z3.BoolVal(True), [])]
    out = [(z3.And(cs[0] != q, g), [cs[0]] + d) for g, d in doubled(cs[1:], q)]
    if len(cs) > 1:
        out += [(z3.And(cs[0] == q, cs[1] == q, g), [cs[0]] + d) for g, d in doubled(cs[2:], q)]
    return out


def quoted_is(cs, name, q):
    """the text cs is one quoted token that denotes name"""
    if len(cs) < 2:
        return z3.BoolVal(False)
    ways = [z3.And(g, *[x == y for x, y in zip(d, name)]) for g, d in doubled(cs[1:-1], q) if len(d) == len(name)]
    return z3.And(cs[0] == q, cs[-1] == q, z3.Or(ways) if ways else z3.BoolVal(False))


def denotes(text, name):
    """the SQL text is one identifier token denoting name"""
    t, n = lift_chars(detoken(text)), lift_chars(name)
    plain = z3.And(unquoted_ok(t), *[x == y for x, y in zip(t, n)]) if len(t) == len(n) and t else z3.BoolVal(False)
    return SymBool(z3.Or(plain, quoted_is(t, n, 34)))


SPECIAL = ["é", "ß", "ı", "名", "\u00a0", "\U0001F600"]


def name_of(ctx, n, name="n"):
    return ctx.str(name, n, lo=1, hi=127)


def wordchar(c):
    return z3.Or(lower_(c), z3.And(c >= 65, c <= 90), z3.And(c >= 48, c <= 57), c == 95, c == 36)


def quoting(maxlen, maxword):
    def body(ctx):
        kind = ctx.pick("kind", ["any", "word", "foreign"])
        if kind == "any":
            s = ctx.str("n", 1 + ctx.choose("len", maxlen), lo=1, hi=127)
        elif kind == "word":
            s = ctx.str("n", 1 + ctx.choose("len", maxword), wordchar, lo=1, hi=127)
        else:
            f = ctx.pick("foreign", SPECIAL)
            s = ctx.str("n", 1 + ctx.choose("len", 2), lo=1, hi=127)
            s = (s + f) if ctx.pick("after", [True, False]) else (f + s)
        got = core.quote(s)
        ctx.reach(kind)
        if not ctx.symbolic:
            ctx.check(pg_ident(got) == s, "rendered identifier denotes the name", key="quote", name=s, got=got)
            return
        ctx.check(denotes(got, s), "rendered identifier denotes the name", key="quote", name=s, got=detoken(got))
    return body


def pg_ident(text):
    """what PostgreSQL reads, for one identifier token"""
    try:
        n = pglast.parse_sql(f"SELECT 1 FROM {text}")[0].stmt.fromClause
    except Exception:
        return None
    if len(n) != 1 or n[0].schemaname or n[0].alias:
        return None
    return n[0].relname


def same_text(ctx, got, parts):
    """the text is the concatenation of the parts; a part (name,) is an identifier token"""
    if not ctx.symbolic:
        exp = "".join(p if isinstance(p, str) else ref_quote(p[0]) for p in parts)
        return got == exp or pg_tokens(got) == pg_tokens(exp)
    t = lift_chars(detoken(got))
    return SymBool(match_parts(t, parts))


def match_parts(t, parts):
    if not parts:
        return z3.BoolVal(len(t) == 0)
    p, rest = parts[0], parts[1:]
    if isinstance(p, str):
        if len(t) < len(p):
            return z3.BoolVal(False)
        return z3.And(*[c == ord(x) for c, x in zip(t, p)], match_parts(t[len(p):], rest))
    n = len(p[0])
    alts = []
    for k in range(n, min(2 * n + 2, len(t)) + 1):
        r = match_parts(t[k:], rest)
        if z3.is_false(z3.simplify(r)):
            continue
        alts.append(z3.And(denotes(SymStr.make(t[:k]), p[0]).t, r))
    return z3.Or(alts) if alts else z3.BoolVal(False)


def ref_quote(n):
    return '"' + n.replace('"', '""') + '"'


def pg_tokens(s):
    """token list with identifiers decoded"""
    out, i = [], 0
    while i < len(s):
        if s[i] == '"':
            j, cur = i + 1, ""
            while j < len(s):
                if s[j] == '"':
                    if s[j:j + 2] == '""':
                        cur, j = cur + '"', j + 2
                        continue
                    break
                cur, j = cur + s[j], j + 1
            out.append(("id", cur))
            i = j + 1
        elif re.match(r"[A-Za-z_]", s[i]):
            m = re.match(r"[A-Za-z_][A-Za-z0-9_$]*", s[i:]).group(0)
            out.append(("kw", m) if m.lower() in RESERVED else ("id", m.lower()))
            i += len(m)
        elif s[i].isspace():
            i += 1
        else:
            out.append((s[i],))
            i += 1
    return out


def references(ctx):
    """table and column references render the names they hold"""
    what = ctx.pick("what", ["table", "alias", "schema", "full", "col", "boundcol", "star"])
    ctx.reach(what)
    a, b, c = (name_of(ctx, 2, x) for x in "abc")
    if what == "table":
        got, exp = str(TableReference(a)), [(a,)]
    elif what == "alias":
        got, exp = str(TableReference(a, b)), [(a,), " AS ", (b,)]
    elif what == "schema":
        got, exp = str(TableReference(a, schema=b)), [(b,), ".", (a,)]
    elif what == "full":
        got, exp = str(TableReference(a, b, schema=c)), [(c,), ".", (a,), " AS ", (b,)]
    elif what == "col":
        got, exp = str(ColumnReference(a)), [(a,)]
    elif what == "boundcol":
        got, exp = str(ColumnReference(a, TableReference("some_table", b))), [(b,), ".", (a,)]
    else:
        got, exp = str(ColumnReference(a, TableReference(b))), [(b,), ".", (a,)]
    ctx.check(same_text(ctx, got, exp), "references render their names", key=what, got=detoken(got))


def literals(ctx):
    """string literals"""
    s = ctx.str("s", ctx.choose("len", 5), lo=1, hi=127)
    got = str(qal.StaticValueExpression(s))
    ctx.reach("literal")
    if not ctx.symbolic:
        ctx.check(pg_literal(got) == s, "string literal denotes the value", key="literal", got=got)
        return
    t = lift_chars(detoken(got))
    ctx.check(SymBool(quoted_is(t, lift_chars(s), 39)), "string literal denotes the value", key="literal", got=detoken(got))


def pg_literal(text):
    try:
        v = pglast.parse_sql(f"SELECT {text}")[0].stmt.targetList[0].val
        return v.val.sval
    except Exception:
        return None


FIELDS = ["table", "alias", "schema", "column", "target", "cte", "subquery", "order"]


def positions(ctx):
    """every keyword and every awkward name at every position of a query: pglast reads the name back"""
    word = ctx.pick("word", ALL + ["A", "Ab", "a b", 'a"b', '"', "1a", "a$", "$a", "é", "a.b", "a'b", "a--b", "a;b", "select from"])
    pos = ctx.pick("pos", FIELDS)
    ctx.reach(pos)
    q = build(pos, word)
    for how, text in (("str", str(q)), ("format", qal.format_quick(q))):
        try:
            got = read(pos, pglast.parse_sql(text)[0].stmt)
        except Exception as e:
            got = type(e).__name__
        ctx.check(got == word, "the name is read back", key=f"{how} {pos} {word}", text=text, got=got)


def build(pos, w):
    t = TableReference("t")
    src = qal.DirectTableSource
    sel = lambda *cols: qal.Select([qal.BaseProjection.column(c) for c in cols])
    if pos == "table":
        t = TableReference(w)
    elif pos == "alias":
        t = TableReference("t", w)
    elif pos == "schema":
        t = TableReference("t", schema=w)
    col = ColumnReference(w if pos == "column" else "c", t)
    kw = dict(select_clause=sel(col), from_clause=qal.ImplicitFromClause([src(t)]))
    if pos == "target":
        kw["select_clause"] = qal.Select([qal.BaseProjection(qal.ColumnExpression(col), w)])
    elif pos == "cte":
        inner = qal.ImplicitSqlQuery(**kw)
        tr = TableReference.create_virtual(w)
        return qal.ImplicitSqlQuery(select_clause=sel(ColumnReference("c", tr)), from_clause=qal.ImplicitFromClause([src(tr)]),
                                    cte_clause=qal.CommonTableExpression([qal.WithQuery(inner, w)]))
    elif pos == "subquery":
        inner = qal.ImplicitSqlQuery(**kw)
        tr = TableReference.create_virtual(w)
        return qal.build_query([sel(ColumnReference("c", tr)), qal.From([qal.SubqueryTableSource(inner, w)])])
    elif pos == "order":
        kw["orderby_clause"] = qal.OrderBy([qal.OrderByExpression(qal.ColumnExpression(ColumnReference(w, t)))])
    return qal.ImplicitSqlQuery(**kw)


def read(pos, stmt):
    f = stmt.fromClause[0]
    val = stmt.targetList[0].val
    name = lambda v: v.fields[-1].sval
    if pos == "table":
        assert name(val) and val.fields[0].sval == f.relname and f.alias is None
        return f.relname
    if pos == "alias":
        assert val.fields[0].sval == f.alias.aliasname
        return f.alias.aliasname
    if pos == "schema":
        return f.schemaname
    if pos == "column":
        return name(val)
    if pos == "target":
        return stmt.targetList[0].name
    if pos == "cte":
        assert val.fields[0].sval == f.relname
        return stmt.withClause.ctes[0].ctename if stmt.withClause.ctes[0].ctename == f.relname else None
    if pos == "subquery":
        assert val.fields[0].sval == f.alias.aliasname
        return f.alias.aliasname
    if pos == "order":
        return name(stmt.sortClause[0].node)


def harnesses(tier):
    deep = tier == "thorough"
    o = dict(shadow=shadow(), functions=["postbound._core.quote", "postbound._core.TableReference.__str__", "postbound._core.ColumnReference.__str__",
                                         "postbound.qal.StaticValueExpression.__str__"])
    n, w = (7, 20) if deep else (5, 18)
    return [
        Harness("quoting", quoting(n, w), bounds=f"every ASCII string of length 1..{n}, every string over [A-Za-z0-9_$] of length 1..{w}, "
                f"one character of {SPECIAL} next to up to 2 ASCII characters", must_reach=["any", "word", "foreign"], **o),
        Harness("references", references, bounds="names of 2 arbitrary ASCII characters", must_reach=["table", "full", "boundcol"], **o),
        Harness("literals", literals, bounds="every ASCII string of length 0..4", must_reach=["literal"], **o),
        Harness("positions", positions, bounds=f"{len(ALL)} PostgreSQL keywords and 14 awkward names at {len(FIELDS)} positions (enumerated)",
                must_reach=FIELDS, functions=["postbound.qal.ImplicitSqlQuery.__str__", "postbound.qal.format_quick"]),
    ]
