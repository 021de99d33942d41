"""C11: transformations change exactly what they are asked to change."""
import copy

from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

from postbound import qal, transform as T
from postbound.qal import BinaryPredicate, CompoundOperator as CO, CompoundPredicate, LogicalOperator as LO

LEVEL = "translation_validation"
ASSUMPTIONS = ["reference edits are made on an independent representation of the query (vx/sqlsem.py)", "semantics of SQL as in vx/sqlsem.py",
               "as documented: star/count transformations do not repair references to projection aliases; SELECT/FROM/WHERE/... cannot be added to set operations"]
F = ["postbound.transform.as_star_query", "as_count_star_query", "as_explain", "as_explain_analyze", "drop_hints", "add_clause", "drop_clause", "replace_clause",
     "flatten_and_predicate", "remove_predicate", "replace_predicate", "explicit_to_implicit", "expand_to_query", "postbound.qal.build_query"]


def agree(ctx, sec, exp, got, what, key):
    if repr(exp) == repr(got):
        ctx.check(True, what, key=key)
        return
    ctx.check(K.ctes_of(exp) == K.ctes_of(got), what + " (CTEs)", key=key)
    try:
        ok = S.equivalent(ctx, K.db_for(ctx, sec), exp, got)
    except S.Unsupported:
        ok = False
    ctx.check(ok, what, key=key)


def variant(q, **kw):
    r = copy.copy(q)
    r.__dict__ = dict(q.__dict__, **kw)
    return r


HINT = qal.Hint("SET geqo = 'off';", "/*+ HashJoin(r s) */")


def meta(q):
    return (str(q.hints) if q.hints else "", str(q.explain) if q.explain else "")


def clauses(ctx, text, sec):
    try:
        q = K.parse(text, sec)
    except Exception:
        if sec == "reject":
            return
        raise
    ref, before = S.from_qal(q), str(q)
    isset = isinstance(q, qal.SetQuery)
    base = meta(q)

    def case(name, res, exp, m=base):
        got = S.from_qal(res)
        agree(ctx, sec, exp, got, name, f"{name}: {text}")
        ctx.check(meta(res) == m, f"{name}: hints and EXPLAIN", key=f"{name}: {text}")
        ctx.reach(name)

    exh = T.add_clause(q, HINT)
    case("add_clause(Hint)", exh, ref, (str(HINT), base[1]))
    ex = T.as_explain(exh)
    case("as_explain", ex, ref, (str(HINT), str(qal.Explain.plan())))
    case("as_explain_analyze", T.as_explain_analyze(ex), ref, (str(HINT), str(qal.Explain.explain_analyze())))
    case("drop_hints", T.drop_hints(ex), ref, ("", str(qal.Explain.plan())))
    case("drop_hints(preparatory)", T.drop_hints(ex, preparatory_statements_only=True), ref, (str(qal.Hint("", "/*+ HashJoin(r s) */")), str(qal.Explain.plan())))
    case("drop_clause(Hint)", T.drop_clause(ex, [qal.Hint, qal.Explain.plan()]), ref, ("", ""))
    m2 = meta(ex)
    lim = qal.Limit(limit=1, offset=0)
    case("add_clause(Limit)", T.add_clause(ex, lim), variant(ref, limit=1, offset=0), m2)
    for kind, inst, gone in ((qal.Limit, q.limit_clause, dict(limit=None, offset=None)), (qal.OrderBy, q.orderby_clause, dict(order=[])),
                             (qal.CommonTableExpression, q.cte_clause, dict(ctes=[]))):
        case(f"drop_clause({kind.__name__})", T.drop_clause(ex, kind), variant(ref, **gone), m2)
        if inst is not None:
            case(f"drop_clause({kind.__name__} instance)", T.drop_clause(ex, inst), variant(ref, **gone), m2)
    case("replace_clause(Limit)", T.replace_clause(ex, lim), variant(ref, limit=1, offset=0) if q.limit_clause else ref, m2)
    expl = T.replace_clause(ex, [qal.Explain.explain_analyze(), qal.Hint("", "/*+ X() */")])
    case("replace_clause(Explain, Hint)", expl, ref, (str(qal.Hint("", "/*+ X() */")), str(qal.Explain.explain_analyze())))
    case("replace_clause() ignores what is not there", T.replace_clause(q, [c for c, x in ((HINT, q.hints), (lim, q.limit_clause)) if not x]), ref)
    ctx.check(str(q) == before, "the original is not modified", key=text)
    if isset:
        return
    star, count = T.as_star_query(ex), T.as_count_star_query(ex)
    case("as_star_query", star, variant(ref, targets=S.from_qal(B_star()).targets, distinct=S.from_qal(star).distinct), m2)
    case("as_count_star_query", count, variant(ref, targets=S.from_qal(B_count()).targets, distinct=S.from_qal(count).distinct), m2)
    for kind, inst, gone in ((qal.Where, q.where_clause, dict(where=None)), (qal.GroupBy, q.groupby_clause, dict(group=None)),
                             (qal.Having, q.having_clause, dict(having=None)), (qal.From, q.from_clause, dict(frm=[]))):
        case(f"drop_clause({kind.__name__})", T.drop_clause(ex, kind), variant(ref, **gone), m2)
        if inst is not None:
            case(f"drop_clause({kind.__name__} instance)", T.drop_clause(ex, [inst]), variant(ref, **gone), m2)
    p = BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1))
    pe = S.from_qal(B.select(B.const(1), where=p)).where
    case("replace_clause(Where)", T.replace_clause(ex, qal.Where(p)), variant(ref, where=pe) if q.where_clause else ref, m2)
    case("add_clause(Where)", T.add_clause(ex, [qal.Where(p), lim]), variant(ref, where=pe, limit=1, offset=0), m2)
    sel = qal.Select([qal.BaseProjection(B.const(1), "one")])
    case("replace_clause(Select)", T.replace_clause(ex, [sel, qal.Where(p)]), variant(ref, targets=S.from_qal(qal.build_query([sel])).targets, distinct=False,
                                                                                    where=pe if q.where_clause else None), m2)
    frm = qal.ImplicitFromClause([qal.DirectTableSource(B.tab("r")), qal.DirectTableSource(B.tab("s"))])
    rep = T.replace_clause(ex, frm)
    new = S.from_qal(B.select(B.const(1), frm=("r", "s"))).frm
    case("replace_clause(From)", rep, variant(ref, frm=new) if isinstance(q.from_clause, qal.ImplicitFromClause) or type(q.from_clause) is qal.From else ref, m2)
    if q.where_clause:
        agree(ctx, sec, ref, S.from_qal(T.replace_clause(q, qal.Where(T.flatten_and_predicate(q.where_clause.predicate)))), "flatten_and_predicate", f"flatten: {text}")


def B_star():
    return qal.build_query([qal.Select([qal.BaseProjection(qal.StarExpression())])])


def B_count():
    return qal.build_query([qal.Select([qal.BaseProjection(qal.FunctionExpression("count", [qal.StarExpression()]))])])


# ---------------------------------------------------------------- predicates
LEAVES = [lambda: BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1)), lambda: BinaryPredicate(LO.Less, B.cexp("r", "b"), B.cexp("s", "c")),
          lambda: qal.InPredicate(B.cexp("s", "a"), [B.const(2), B.const(3)]), lambda: BinaryPredicate(LO.Is, B.cexp("r", "b"), B.const(None)),
          lambda: qal.UnaryPredicate(qal.SubqueryExpression(B.select(B.const(1), frm=("t",), where=BinaryPredicate(LO.Equal, B.cexp("t", "b"), B.cexp("r", "a")))), LO.Exists)]


class N:
    """a predicate tree next to the predicate object"""

    def __init__(self, op, kids=(), leaf=None):
        self.op, self.kids, self.leaf = op, list(kids), leaf

    def obj(self):
        if self.op == "leaf":
            return LEAVES[self.leaf]() if isinstance(self.leaf, int) else self.leaf
        o = [k.obj() for k in self.kids]
        return CompoundPredicate(CO.Not, o[0]) if self.op == "not" else CompoundPredicate({"and": CO.And, "or": CO.Or}[self.op], o)

    def __eq__(self, o):
        return self.op == o.op and self.leaf == o.leaf and self.kids == o.kids

    def all(self):
        return [self] + [x for k in self.kids for x in k.all()]

    def without(self, t):
        if self == t:
            return None
        if self.op == "leaf":
            return self
        kids = [k for k in (k.without(t) for k in self.kids) if k is not None]
        return None if not kids else kids[0] if len(kids) == 1 and self.op != "not" else N(self.op, kids)

    def subst(self, t, n):
        return n if self == t else N(self.op, [k.subst(t, n) for k in self.kids], self.leaf)


def tree(ctx, depth, n="p", leaves=(0, 1, 2), free=True):
    k = ctx.pick(n, ["leaf", "not", "and", "or", "and3", "or3"] if depth else ["leaf"])
    if k == "leaf":
        return N("leaf", leaf=ctx.pick(n + "l", list(leaves)))
    x = tree(ctx, depth - 1, n + "0", leaves)
    if k == "not":
        return N("not", [x])
    kids = [x, tree(ctx, depth - 1 if free else 0, n + "1", leaves[:2], free)]
    return N(k[:3] if k[0] == "a" else "or", kids + [N("leaf", leaf=4)] if k[-1] == "3" else kids)


def wh(p, **kw):
    return B.select([B.cexp("r", "a"), B.cexp("s", "c")], frm=("r", "s"), where=p, **kw)


def samepred(ctx, a, b, what, key):
    qa, qb = S.from_qal(wh(a)), S.from_qal(wh(b))
    agree(ctx, "set", qa, qb, what, key)


def predicates(depth, free):
    def body(ctx):
        t = tree(ctx, depth, free=free)
        nodes = []
        for x in t.all() + [N("leaf", leaf=3)]:
            if x not in nodes:
                nodes.append(x)
        p = t.obj()
        f = T.flatten_and_predicate(p)
        samepred(ctx, p, f, "flatten_and_predicate keeps the meaning", str(p))
        flat = [f] if not (isinstance(f, CompoundPredicate) and f.operation == CO.And) else list(f.children)
        ctx.check(not any(isinstance(c, CompoundPredicate) and c.operation == CO.And for c in flat), "no conjunction is nested", key=str(p))
        x = nodes[ctx.choose("target", len(nodes))]
        key = f"{x.obj()} in {p}"
        exp, got = t.without(x), T.remove_predicate(p, x.obj())
        if exp is None:
            ctx.check(got is None, "nothing is left", key=key)
        else:
            ctx.check(got is not None, "the rest is left", key=key)
            samepred(ctx, exp.obj(), got, "remove_predicate drops exactly the predicate", key)
        for nw in (N("leaf", leaf=3), N("and", [N("leaf", leaf=3), N("leaf", leaf=0)]), N("not", [x])):
            exp = t.subst(x, nw)
            res = T.replace_predicate(wh(p, h=HINT), x.obj(), nw.obj())
            samepred(ctx, exp.obj(), res.where_clause.predicate, "replace_predicate swaps exactly the predicate", f"{key} by {nw.obj()}")
            ctx.check(res.hints is not None and len(res.clauses()) == 4, "replace_predicate keeps the other clauses", key=key)
        ctx.reach("none" if exp is None else "some")
    return body


def having(ctx):
    """replace_predicate in WHERE and HAVING"""
    c = qal.FunctionExpression("count", [qal.StarExpression()])
    hp = BinaryPredicate(LO.Greater, c, B.const(1))
    wp, kp = LEAVES[0](), BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1))
    w, h = ctx.pick("where", [None, wp, CompoundPredicate(CO.Not, wp)]), ctx.pick("having", [None, hp, kp, CompoundPredicate(CO.And, [hp, kp])])
    old = ctx.pick("old", [wp, hp, LEAVES[3]()])
    new = BinaryPredicate(LO.Less, B.cexp("r", "a"), B.const(5))
    sub = lambda p: None if p is None else new if p == old else CompoundPredicate(CO.Not, new) if isinstance(p, CompoundPredicate) and p.operation == CO.Not and p.children == old \
        else CompoundPredicate(CO.And, [new if x == old else x for x in p.children]) if isinstance(p, CompoundPredicate) and p.operation == CO.And else p
    make = lambda w, h: qal.build_query([qal.Select([qal.BaseProjection(B.cexp("r", "a")), qal.BaseProjection(c)]), qal.ImplicitFromClause([qal.DirectTableSource(B.tab("r"))]),
                                         qal.Where(w) if w is not None else None, qal.GroupBy([B.cexp("r", "a")]), qal.Having(h) if h is not None else None])
    q = make(w, h)
    agree(ctx, "", S.from_qal(make(sub(w), sub(h))), S.from_qal(T.replace_predicate(q, old, new)), "replace_predicate", str(q))


def single(ctx, text, sec):
    """expand_to_query, for every WHERE clause of a section"""
    try:
        q = K.parse(text, sec)
    except Exception:
        return
    if isinstance(q, qal.SetQuery) or not q.where_clause or q.cte_clause:
        return
    p = q.where_clause.predicate
    if not isinstance(q.from_clause, qal.ImplicitFromClause) or not p.tables():
        return
    e = T.expand_to_query(p)
    got, ref = S.from_qal(e), S.from_qal(q)
    names = [f[3] or f[2] for f in got.frm]
    ctx.check(got.targets == S.from_qal(B_star()).targets and set(t.identifier() for t in p.tables()) == set(names) and len(names) == len(set(names)), "expand_to_query selects from the tables of the predicate", key=text)
    ctx.check(repr(got.where) == repr(ref.where), "expand_to_query filters by the predicate", key=text)
    ctx.check(not got.order and got.group is None and got.having is None and got.limit is None and not got.ctes, "expand_to_query adds nothing else", key=text)
    ctx.reach("expanded")


def implicit(ctx, text, sec):
    try:
        q = K.parse(text, sec)
    except Exception:
        if sec == "reject":
            return
        raise
    if not isinstance(q, qal.ExplicitSqlQuery):
        return
    star = ctx.choose("star", 2)
    if star:
        q = T.as_star_query(q)
    q = T.add_clause(q, [HINT, qal.Explain.plan()])
    try:
        res = T.explicit_to_implicit(q)
    except ValueError:
        return ctx.reach("rejected")
    ref = S.from_qal(q)
    ctx.check(isinstance(res, qal.ImplicitSqlQuery), "the result is an implicit query", key=text)
    db = K.db_for(ctx, sec)
    ctx.check(S.equivalent(ctx, db, ref, S.from_qal(res)), "explicit_to_implicit keeps the meaning", key=text)
    ctx.check(meta(res) == meta(q), "explicit_to_implicit keeps hints and EXPLAIN", key=text)
    ctx.reach("converted")


def inner(ctx):
    """inner and cross joins in all shapes, with every optional clause"""
    j1, j2 = ctx.pick("j1", ["JOIN", "CROSS JOIN", "INNER JOIN"]), ctx.pick("j2", ["JOIN", "CROSS JOIN"])
    on1 = "" if j1 == "CROSS JOIN" else " ON " + ctx.pick("on1", ["r.a = s.a", "r.a = s.a AND (r.b = 1 AND s.c < 2)", "r.a < s.a OR r.b = 2"])
    on2 = "" if j2 == "CROSS JOIN" else " ON s.c = y.d"
    f = ctx.pick("shape", [f"r {j1} s{on1} {j2} t AS y{on2}", f"(r {j1} s{on1}) {j2} t AS y{on2}", f"r {j1} (s {j2} t AS y{on2}){on1}", f"r {j1} s{on1}"])
    w = ctx.pick("where", ["", " WHERE r.b = 3", " WHERE r.b = 3 OR s.c = 4"])
    rest = ctx.pick("rest", ["", " GROUP BY r.a HAVING count(*) > 1", " ORDER BY r.a DESC LIMIT 1"])
    proj = "*" if not rest else "r.a"
    cte = ctx.pick("cte", ["", "WITH x AS (SELECT u.a FROM u) "])
    return f"{cte}SELECT {proj} FROM {f}{w}{rest}"


def full(ctx):
    """every subset of all optional clauses"""
    o = lambda n, x: x if ctx.choose(n, 2) else ""
    g = ctx.choose("group", 3)
    return (o("cte", "WITH x AS (SELECT t.b AS z FROM t) ") + ("SELECT r.a, max(s.c) AS m" if g else f"SELECT {o('distinct', 'DISTINCT ')}r.a, s.c") + f" FROM r, s" + o("where", " WHERE r.a = s.a AND r.b < 2")
            + (" GROUP BY r.a" if g else "") + (" HAVING min(s.c) > 0" if g == 2 else "") + o("order", " ORDER BY r.a DESC") + o("limit", " LIMIT 5"))


def harnesses(tier):
    t = tier == "thorough"
    secs = ["expr", "place", "pred", "bool", "frm", "join3", "clauses", "group", "window", "cte", "set", "nest", "bind", "wide", "meta"] + (
        ["arith", "bool3", "pplace", "spine", "join4", "wide2"] if t else [])
    b = "reference edit of every clause; table contents and literals symbolic wherever the two representations differ"
    hs = [K.section(s, clauses, bounds=b, functions=F, must_reach=["as_explain"]) for s in secs]
    hs += [Harness("predicates", predicates(2, t), bounds=f"predicate trees of depth 2 ({'full' if t else 'one spine'}), every part removed / replaced; one symbolic row per table",
                   functions=F, must_reach=["some"]), Harness("having", having, bounds="WHERE x HAVING x target combinations", functions=F)]

    def sec2(name, s, body, gen=None, reach=()):
        h = K.section(s, body, bounds=b, functions=F, gen=gen, must_reach=list(reach))
        h.name = name
        return h
    hs += [sec2("full", "clauses", clauses, gen=full, reach=["as_explain"])]
    hs += [sec2(f"expand-{s}", s, single, reach=["expanded"]) for s in ["pred", "bool", "pplace"] + (["bool3", "spine"] if t else [])]
    hs += [sec2(f"implicit-{s}", s, implicit) for s in ["frm", "join3"] + (["join4"] if t else [])]
    hs += [sec2("implicit-inner", "frm3", implicit, gen=inner, reach=["converted"])]
    return hs
