"""C09: filters, joins and join graphs derived from the predicates of a query."""
import itertools
import warnings

from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

import postbound.qal._qal as qalmod
from postbound import ColumnReference, TableReference, qal
from postbound.qal import (BetweenPredicate, BinaryPredicate, CompoundOperator as CO, CompoundPredicate, InPredicate, LogicalOperator as LO,
                           NoJoinPredicateError, QueryPredicates, SimpleFilter, SimpleJoin, UnaryPredicate)

LEVEL = "model_checking"
ASSUMPTIONS = ["the documented join/filter rules of AbstractPredicate.is_join(); an OR mixing filters and joins contributes its filters to filters() and its "
               "joins to joins(), as documented, and is therefore excluded from the equivalence with the whole predicate",
               "table and column names are arbitrary but fixed-length atoms; semantics of SQL as in vx/sqlsem.py"]
F = ["postbound.qal.QueryPredicates.filters/joins/filters_for/joins_for/joins_between/joins_tables/join_graph/simplify/all_simple/and_/__iter__",
     "postbound.qal.*Predicate.is_join/join_partners/join_partners_of/joins_table/joins_tables/joins_columns/required_tables",
     "postbound.qal.SimpleFilter", "postbound.qal.SimpleJoin"]


# ---------------------------------------------------------------- decomposition keeps the meaning
def exists_t():
    return UnaryPredicate(qal.SubqueryExpression(B.select(B.const(1), frm=("t",), where=BinaryPredicate(LO.Equal, B.cexp("t", "b"), B.cexp("r", "a")))), LO.Exists)


LEAF = {
    "f": (False, lambda: BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1))),
    "g": (False, lambda: InPredicate(B.cexp("s", "c"), [B.const(2), B.const(3)])),
    "x": (False, exists_t),
    "j": (True, lambda: BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.cexp("s", "a"))),
    "k": (True, lambda: BetweenPredicate(B.cexp("r", "b"), (B.const(4), B.cexp("s", "c")))),
}


class Node:
    def __init__(self, op, kids, obj, join):
        self.op, self.kids, self.obj, self.join = op, kids, obj, join

    def mixed(self):
        below = any(k.mixed() for k in self.kids) if self.op == "and" else False
        return below or self.op == "or" and len({k.join for k in self.kids}) > 1


def mk(op, kids):
    o = [k.obj for k in kids]
    obj = CompoundPredicate(CO.Not, o[0]) if op == "not" else CompoundPredicate(CO.And if op == "and" else CO.Or, o)
    return Node(op, kids, obj, any(k.join for k in kids))


def leaf(ctx, n, kinds):
    k = ctx.pick(n, kinds)
    return Node("leaf", [], LEAF[k][1](), LEAF[k][0])


def tree(ctx, depth, n="p", full=False, kinds="fgxjk"):
    k = ctx.pick(n, ["leaf", "not", "and", "or", "and3", "or3"] if depth > 1 else (["leaf", "not", "and", "or"] if depth else ["leaf"]))
    if k == "leaf":
        return leaf(ctx, n + "l", kinds)
    x = tree(ctx, depth - 1, n + "0", full, kinds)
    if k == "not":
        return mk("not", [x])
    y = tree(ctx, depth - 1 if full else 0, n + "1", full, "fj" if depth > 1 and not full else kinds)
    kids = [x, y] if not k.endswith("3") else [y, x, leaf(ctx, n + "2", "gk")]
    return mk(k[:3] if k.startswith("and") else "or", kids)


def spec(node, join):
    """the documented selection of the filter (join) part"""
    if node.op == "and":
        return [p for k in node.kids for p in spec(k, join)]
    if node.op == "or":
        mine = [k.obj for k in node.kids if k.join == join]
        return [] if not mine else [mine[0] if len(mine) == 1 else CompoundPredicate(CO.Or, mine)]
    return [node.obj] if node.join == join else []


def where(ps):
    ps = list(ps)
    p = None if not ps else ps[0] if len(ps) == 1 else CompoundPredicate(CO.And, ps)
    return S.from_qal(B.select([B.cexp("r", "a"), B.cexp("s", "c")], frm=("r", "s"), where=p))


def same(ctx, a, b, what, key):
    if frozenset(a) == frozenset(b):
        return  # literally the same conjuncts
    db = K.db_for(ctx, rows=1)
    ctx.check(S.equivalent(ctx, db, where(a), where(b)), what, key=key)


def decompose(full):
    def body(ctx):
        t = tree(ctx, 2, full=full)
        p = QueryPredicates(t.obj)
        fs, js = list(p.filters()), list(p.joins())
        key = str(t.obj)
        ctx.reach("mixed" if t.mixed() else "pure")
        if not t.mixed():
            db = K.db_for(ctx, rows=1)
            ctx.check(S.equivalent(ctx, db, where(fs + js), where([t.obj])), "filters and joins together mean the same as the predicate", key=key)
        same(ctx, fs, spec(t, False), "filters() are the filter part", key)
        same(ctx, js, spec(t, True), "joins() are the join part", key)
        ctx.check(all(f.is_filter() and not f.is_join() for f in fs) and all(j.is_join() for j in js), "every part is on the right side", key=key)
        ctx.check(t.obj.is_join() == t.join and t.obj.is_filter() == (not t.join), "a compound is a join iff a part is", key=key)
        ctx.check(sorted(map(str, p)) == sorted(map(str, fs + js)), "iteration yields filters and joins", key=key)
        q = B.select(B.cexp("r", "a"), frm=("r", "s"), where=t.obj)
        ctx.check(frozenset(q.filters()) == frozenset(fs) and frozenset(q.joins()) == frozenset(js), "the query reports the same parts", key=key)
        for o in ("fgj" if full else "f"):
            other = LEAF[o][1]()
            for both in (p.and_(other), p.and_(QueryPredicates(other)), QueryPredicates(other).and_(p)):
                db = K.db_for(ctx, rows=1)
                ctx.check(S.equivalent(ctx, db, where([both.root]), where([t.obj, other])), "and_() is the conjunction", key=key)
        e = QueryPredicates.empty_predicate()
        ctx.check(e.is_empty() and not p.is_empty() and p.and_(e).root == t.obj and e.and_(p).root == t.obj and e.and_(t.obj).root == t.obj,
                  "the empty predicate is neutral", key=key)
    return body


# ---------------------------------------------------------------- what is a join, and between what
def fresh():
    """forget cached results that belong to other paths"""
    for c in vars(qalmod).values():
        for f in vars(c).values() if isinstance(c, type) else ():
            if hasattr(f, "cache_clear"):
                f.cache_clear()


class Slots:
    def __init__(self, ctx):
        self.ctx, self.n, self.used, self.samecol = ctx, 0, [], ctx.pick("samecol", [False, True])

    def col(self):
        t = TableReference(self.ctx.atom(f"t{self.n}"))
        c = ColumnReference("x" if self.samecol else f"c{self.n}", t)
        self.n += 1
        return c


def E(c):
    return qal.ColumnExpression(c)


def operand(ctx, n, slots, kinds):
    """(expression, columns, columns of subqueries)"""
    k = ctx.pick(n, kinds)
    if k == "const":
        return B.const(7), [], []
    c = slots.col()
    if k == "col":
        return E(c), [c], []
    if k == "math":
        return qal.MathExpression(qal.MathOperator.Add, qal.CastExpression(E(c), "integer"), B.const(7)), [c], []
    if k == "sub":
        s = B.select(qal.FunctionExpression("max", [B.cexp("x", "a")]), frm=("x",), where=BinaryPredicate(LO.Equal, B.cexp("x", "b"), E(c)))
        return qal.SubqueryExpression(s), [], [c]
    d = slots.col()
    if k == "udf":
        return qal.FunctionExpression("udf", [E(c), E(d)]), [c, d], []
    if k == "case":
        return qal.CaseExpression([(BinaryPredicate(LO.Equal, E(c), B.const(1)), E(d))], else_expr=B.const(0)), [c, d], []
    if k == "usub":
        s = qal.SubqueryExpression(B.select(qal.FunctionExpression("max", [B.cexp("x", "a")]), frm=("x",), where=BinaryPredicate(LO.Equal, B.cexp("x", "b"), E(d))))
        return qal.FunctionExpression("udf", [E(c), s]), [c], [d]
    raise KeyError(k)


def uniq(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out) and not any(x == y for y in out):
            out.append(x)
    return out


class Classes:
    """equality of tables and columns on this path, decided once per name"""

    def __init__(self):
        self.reps, self.memo = [], {}

    def tab(self, t):
        k = str.__str__(t.full_name)
        if k not in self.memo:
            for i, r in enumerate(self.reps):
                if r == t:
                    self.memo[k] = i
                    break
            else:
                self.memo[k] = len(self.reps)
                self.reps.append(t)
        return self.memo[k]

    def col(self, c):
        return (c.name, self.tab(c.table))

    def pair(self, a, b):
        return frozenset([self.col(a), self.col(b)])

    def pairs(self, cols):
        return {self.pair(a, b) for a, b in itertools.combinations(cols, 2) if self.tab(a.table) != self.tab(b.table)}

    def tabs(self, cols):
        return {self.tab(c.table) for c in cols}


def base(ctx, slots, n="b", small=False, full=False):
    """(predicate, groups of columns that are joined pairwise, all columns, columns of subqueries)"""
    k = ctx.pick(n, ["bin", "between", "in", "unary"] if not small else ["bin", "in"])
    ops = ["const", "col", "math", "sub", "udf", "case", "usub"]
    one = ["col"] if small else ["col", "const", "udf"]
    if k == "bin":
        (a, ca, sa), (b, cb, sb) = operand(ctx, n + "l", slots, one if small else ops), operand(ctx, n + "r", slots, ["col", "const"] if small else ops if full else ["const", "col", "udf"])
        op = LO.Equal if small else ctx.pick(n + "op", [LO.Equal, LO.Less]) if full else LO.Less
        return BinaryPredicate(op, a, b), [ca + cb], ca + cb, sa + sb
    if k == "between":
        (x, cx, sx), (a, ca, sa), (b, cb, sb) = (operand(ctx, n + i, slots, one + ["sub"] if full else {"x": one, "y": ["udf", "sub"], "z": ["col", "const"]}[i]) for i in "xyz")
        return BetweenPredicate(x, (a, b)), [cx + ca, cx + cb], cx + ca + cb, sx + sa + sb
    if k == "in":
        (x, cx, sx), (a, ca, sa), (b, cb, sb) = (operand(ctx, n + i, slots, ["col"] if small else one if full else {"x": one, "y": ["const", "col"], "z": ["udf"]}[i])
                                                    for i in "xyz")
        return InPredicate(x, [a, b]), [cx + ca, cx + cb], cx + ca + cb, sx + sa + sb
    if ctx.pick(n + "e", [False, True]):
        x, cx, sx = operand(ctx, n + "x", slots, ["sub"])
        return UnaryPredicate(x, LO.Exists), [cx], cx, sx
    x, cx, sx = operand(ctx, n + "x", slots, ["udf", "case", "usub"])
    return UnaryPredicate(x), [cx], cx, sx


def kinds(compound, full=False):
    def body(ctx):
        slots = Slots(ctx)
        fresh()
        shape = ctx.pick("shape", ["not", "and", "or"]) if compound else "base"
        p, groups, cols, subs = base(ctx, slots, small=compound, full=full)
        if shape == "not":
            p = CompoundPredicate(CO.Not, p)
        elif shape != "base":
            p2, g2, c2, s2 = base(ctx, slots, "d", small=True)
            p, groups, cols, subs = CompoundPredicate(CO.And if shape == "and" else CO.Or, [p, p2]), groups + g2, cols + c2, subs + s2
        cl = Classes()
        exp = {x for g in groups for x in cl.pairs(g)}
        tabs = cl.tabs(cols + subs)
        some = [cl.reps[i] for i in sorted(tabs)]
        key = shape + "/" + "".join("abcdefgh"[cl.tab(c.table)] for c in cols + subs)
        ctx.check(bool(p.is_join()) == bool(exp), "a predicate is a join iff it compares columns of different tables", key=key)
        ctx.check(p.is_filter() != p.is_join(), "every predicate is either a filter or a join", key=key)
        req = [cl.tab(t) for t in p.required_tables()]
        ctx.check(len(req) == len(set(req)) and set(req) == tabs, "required_tables() are the tables that the predicate needs", key=key)
        if not exp:
            ctx.reach("filter")
            for call in [p.join_partners] + [lambda: p.join_partners_of(t) for t in some[:1]]:
                try:
                    call()
                    ctx.check(False, "filters have no join partners", key=key)
                except NoJoinPredicateError:
                    pass
            ctx.check(not any(p.joins_table(t) for t in some), "a filter joins no table", key=key)
            return
        ctx.reach("join")
        got = list(p.join_partners())
        ctx.check(len(got) == len(exp) and {cl.pair(a, b) for a, b in got} == exp, "join_partners() are the pairs of joined columns", key=key)
        for a, b in got:
            ctx.check(not (b < a), "join partners are normalized", key=key)
        for t in some:
            i = cl.tab(t)
            mine = {c for x in exp if any(d[1] == i for d in x) for c in x if c[1] != i}
            part = [cl.col(c) for c in p.join_partners_of(t)]
            ctx.check(len(part) == len(mine) and set(part) == mine, "join_partners_of() are the columns joined with a table", key=key)
            ctx.check(bool(p.joins_table(t)) == bool(mine), "joins_table() iff the table is a partner", key=key)
        for a, b in got[:2]:
            ctx.check(p.joins_tables(a.table, b.table) and p.joins_tables(b.table, a.table) and p.joins_columns(a, b) and p.joins_columns(b, a),
                      "joined tables and columns are recognized", key=key)
        other = TableReference("zzz")
        ctx.check(not p.joins_table(other) and not p.joins_tables(some[0], other), "unrelated tables are not joined", key=key)
    return body


# ---------------------------------------------------------------- per-table views and the join graph
def flat(p):
    if p is None:
        return []
    if isinstance(p, CompoundPredicate) and p.operation == CO.And:
        return [x for c in p.children for x in flat(c)]
    return [p]


def sameset(a, b):
    a, b = uniq(a), uniq(b)
    return len(a) == len(b) and all(any(x == y for y in b) for x in a)


def conjunct(kind, slots, i):
    """(predicate, columns, columns that are joined with each other)"""
    if kind == "flt":
        c = slots.col()
        return BinaryPredicate(LO.Greater, E(c), B.const(i)), [c], []
    if kind in ("eq", "lt"):
        a, b = slots.col(), slots.col()
        return BinaryPredicate(LO.Equal if kind == "eq" else LO.Less, E(a), E(b)), [a, b], [a, b]
    if kind == "udf":
        cs = [slots.col() for _ in range(3)]
        return UnaryPredicate(qal.FunctionExpression("udf", [E(c) for c in cs])), cs, cs
    if kind == "orj":  # (a = b AND a < i) OR (a = b + 1)
        a, b = slots.col(), slots.col()
        p = CompoundPredicate(CO.Or, [CompoundPredicate(CO.And, [BinaryPredicate(LO.Equal, E(a), E(b)), BinaryPredicate(LO.Less, E(a), B.const(i))]),
                                      BinaryPredicate(LO.Equal, E(a), qal.MathExpression(qal.MathOperator.Add, E(b), B.const(1)))])
        return p, [a, b], [a, b]
    if kind == "orf":
        a, b = slots.col(), slots.col()
        p = CompoundPredicate(CO.Or, [BinaryPredicate(LO.Less, E(a), B.const(i)), BinaryPredicate(LO.Less, E(b), B.const(i))])
        return p, [a, b], []
    raise KeyError(kind)


def graph(combos):
    def body(ctx):
        slots = Slots(ctx)
        combo = ctx.pick("combo", combos)
        conj = [conjunct(k, slots, i) for i, k in enumerate(combo.split("+"))]
        root = conj[0][0] if len(conj) == 1 else CompoundPredicate(CO.And, [c[0] for c in conj])
        cl = Classes()
        allcols = [c for _, cs, _ in conj for c in cs]
        ids = sorted(cl.tabs(allcols))
        tabs = [cl.reps[i] for i in ids]
        key = combo + "/" + "".join("abcdefgh"[cl.tab(c.table)] for c in allcols)
        fresh()
        p = QueryPredicates(root)
        ctx.reach(f"{len(tabs)} tables")
        conj = [(q, cl.tabs(cs), {frozenset(c[1] for c in x) for x in cl.pairs(js)}) for q, cs, js in conj]
        joins = [(q, prs) for q, _, prs in conj if prs]
        filters = [(q, ts) for q, ts, prs in conj if not prs]

        def joined(i, j):
            return [q for q, prs in joins if frozenset((i, j)) in prs]

        def partners(q, i):
            return frozenset(j for r, prs in joins if r is q for x in prs if i in x for j in x if j != i)
        ctx.check(sameset(list(p.joins()), [q for q, _ in joins]), "joins() are the join predicates", key=key)
        ctx.check(sameset(list(p.filters()), [q for q, _ in filters]), "filters() are the filter predicates", key=key)
        for i, t in zip(ids, tabs):
            ctx.check(sameset(flat(p.filters_for(t)), [q for q, ts in filters if i in ts]), "filters_for() are the filters on a table", key=key)
            jf = list(p.joins_for(t))
            ctx.check(sameset([x for j in jf for x in flat(j)], [q for q, prs in joins if partners(q, i)]), "joins_for() are the joins of a table", key=key)
            parts = [{frozenset(cl.tab(c.table) for c in x.join_partners_of(t)) for x in flat(j)} for j in jf]
            ctx.check(all(len(x) == 1 for x in parts) and len({y for x in parts for y in x}) == len(jf), "every entry of joins_for() has its own partners", key=key)
        subs = [list(s) for n in range(1, len(ids) + 1) for s in itertools.combinations(ids, n)]
        for a, b in itertools.product(subs, repeat=2):
            if set(a) & set(b):
                continue
            exp = [q for x in a for y in b for q in joined(x, y)]
            ta, tb = [cl.reps[x] for x in a], [cl.reps[x] for x in b]
            for comp in ("map", "legacy", "graph"):
                got = p.joins_between(ta[0] if len(a) == 1 else ta, tb[0] if len(b) == 1 else tb, _computation=comp)
                ctx.check((got is None) == (not exp) and sameset(flat(got), exp), f"joins_between() is the conjunction of all joins between the tables ({comp})",
                          key=key, a=len(a), b=len(b))
        for s in subs:
            comp = [s[0]]
            for _ in s:
                comp += [t for t in s if t not in comp and any(joined(t, c) for c in comp)]
            ts = [cl.reps[x] for x in s]
            ctx.check(bool(p.joins_tables(ts)) == (len(comp) == len(s)), "joins_tables() iff the tables are connected by joins", key=key, tables=len(s))
            if len(s) > 1:
                ctx.check(bool(p.joins_tables(*ts)) == (len(comp) == len(s)), "joins_tables() with separate arguments", key=key)
        g = p.join_graph()
        ctx.check(sorted(cl.tab(t) for t in g.nodes) == ids, "the nodes of the join graph are the tables", key=key)
        for i, t in zip(ids, tabs):
            ctx.check(sameset(flat(g.nodes[t]["predicate"]), [q for q, ts in filters if i in ts]), "nodes carry the filters", key=key)
        for i, j in itertools.combinations(ids, 2):
            exp = joined(i, j)
            a, b = cl.reps[i], cl.reps[j]
            ctx.check(g.has_edge(a, b) == bool(exp), "edges of the join graph are the joined tables", key=key)
            if exp and g.has_edge(a, b):
                ctx.check(sameset(flat(g.edges[a, b]["predicate"]), exp), "edges carry all join predicates between the tables", key=key)
    return body


def aliases(ctx):
    """join graph with merged aliases"""
    combo = ctx.pick("combo", ["eq+lt+flt", "udf+flt", "orj+eq"])
    fresh()
    names = ["r", "s"]
    n = 0

    class Sl:
        def col(self):
            nonlocal n
            t = TableReference(names[ctx.choose(f"n{n}", 2)], ["a1", "a2"][ctx.choose(f"a{n}", 2)])
            t = TableReference(t.full_name, t.full_name + t.alias)
            n += 1
            return ColumnReference(f"c{n % 2}", t)
    conj = [conjunct(k, Sl(), i) for i, k in enumerate(combo.split("+"))]
    root = CompoundPredicate(CO.And, [c[0] for c in conj])
    key = str(root)
    p = QueryPredicates(root)
    g = p.join_graph(merge_aliases=True)
    tabs = {c.table for _, cs, _ in conj for c in cs}
    bases = {t.drop_alias() for t in tabs}
    ctx.check(set(g.nodes) == bases, "the nodes are the base tables", key=key)
    for t in bases:
        mine = {x for x in tabs if x.drop_alias() == t}
        d = g.nodes[t]["predicate"]
        ctx.check(set(d) == mine and all(sameset(flat(d[x]), flat(p.filters_for(x))) for x in mine), "nodes carry the filters of all aliases", key=key)
    edges = {}
    for q, _, js in conj:
        for a, b in {frozenset([a.table, b.table]) for a, b in itertools.combinations(js, 2) if a.table != b.table}:
            edges.setdefault(frozenset([a.drop_alias(), b.drop_alias()]), {}).setdefault(frozenset([a, b]), []).append(q)
    ctx.check({frozenset(e) for e in g.edges} == set(edges), "the edges are the joined base tables", key=key)
    for e in g.edges:
        d, exp = g.edges[e]["predicate"], edges.get(frozenset(e), {})
        ctx.check(set(d) == set(exp) and all(sameset(flat(d[k]), exp[k]) for k in exp), "edges carry the joins of all aliases", key=key)
    ctx.reach("graph")


# ---------------------------------------------------------------- simplified views
CMP = [LO.Equal, LO.NotEqual, LO.Less, LO.LessEqual, LO.Greater, LO.GreaterEqual, LO.Like, LO.NotLike, LO.Is, LO.IsNot]


def view_operand(ctx, n, t="r"):
    k = ctx.pick(n, ["col", "const", "null", "math", "func", "sub"])
    return k, {"col": lambda: B.cexp(t, "b"), "const": lambda: B.const(7), "null": lambda: B.const(None),
               "math": lambda: qal.MathExpression(qal.MathOperator.Add, B.cexp(t, "b"), B.const(1)),
               "func": lambda: qal.FunctionExpression("abs", [B.cexp(t, "b")]),
               "sub": lambda: qal.SubqueryExpression(B.select(qal.FunctionExpression("max", [B.cexp("t", "b")]), frm=("t",)))}[k]()


def views(ctx):
    k = ctx.pick("kind", ["bin", "between", "in", "unary", "not", "or"])
    static = {"const", "null"}
    if k == "bin":
        (ka, a), (kb, b) = view_operand(ctx, "a"), view_operand(ctx, "b")
        op = ctx.pick("op", CMP)
        ctx.assume(op not in (LO.Is, LO.IsNot) or kb == "null")
        p = BinaryPredicate(op, a, b)
        simple = ka == "col" and kb in static or kb == "col" and ka in static and op not in (LO.Like, LO.NotLike, LO.Is, LO.IsNot)
    elif k == "between":
        (ka, a), (kb, b), (kc, c) = view_operand(ctx, "a"), view_operand(ctx, "b"), view_operand(ctx, "c")
        p = BetweenPredicate(a, (b, c))
        simple = ka == "col" and kb in static and kc in static
    elif k == "in":
        (ka, a), (kb, b), (kc, c) = view_operand(ctx, "a"), view_operand(ctx, "b"), view_operand(ctx, "c")
        p = InPredicate(a, [b, c])
        simple = ka == "col" and kb in static and kc in static
    elif k == "unary":
        p, simple = UnaryPredicate(qal.FunctionExpression("ok", [B.cexp("r", "a")])), False
    else:
        x = BinaryPredicate(LO.Equal, B.cexp("r", "a"), B.const(1))
        p, simple = CompoundPredicate(CO.Not, x) if k == "not" else CompoundPredicate(CO.Or, [x, BinaryPredicate(LO.Less, B.cexp("r", "b"), B.const(1))]), False
    key = str(p)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        can = SimpleFilter.can_wrap(p)
    try:
        v = SimpleFilter.wrap(p)
    except ValueError:
        v = None
    alls = SimpleFilter.wrap_all([p, LEAF["f"][1]()])
    ctx.check(can == (v is not None) and len(alls) == 1 + can and SimpleFilter.can_wrap(LEAF["f"][1]()), "can_wrap, wrap and wrap_all agree", key=key)
    qp = QueryPredicates(CompoundPredicate(CO.And, [p, LEAF["f"][1](), LEAF["j"][1]()]))
    ctx.check(qp.all_simple() == can, "all_simple() iff every predicate can be simplified", key=key)
    if simple:
        ctx.check(can, "a comparison of a column with static values can be simplified", key=key)
    if not can:
        ctx.reach("complex")
        return
    ctx.reach("simple")
    ctx.check(v.unwrap() == p and v == p and hash(v) == hash(p) and str(v) == str(p), "the view stands for its predicate", key=key)
    ctx.check(v.is_filter() and not v.is_join() and v.columns() == p.columns(), "the view is a filter on its columns", key=key)
    if not simple:
        return
    ctx.check(v.columns() == {v.column}, "the view is on one column", key=key)
    match v:
        case SimpleFilter(c, o, val):
            ctx.check(c == v.column and o == v.operation and val == v.value, "views match as (column, operation, value)", key=key)
    c = qal.ColumnExpression(v.column)
    if v.operation == LO.Between:
        again = BetweenPredicate(c, (B.const(v.value[0]), B.const(v.value[1])))
    elif v.operation == LO.In:
        again = InPredicate(c, [B.const(x) for x in v.value])
    else:
        again = BinaryPredicate(v.operation, c, B.const(v.value))
    db = K.db_for(ctx, rows=1)
    ctx.check(S.equivalent(ctx, db, where([again]), where([p])), "column, operation and value describe the predicate", key=key)
    ctx.check({v} == set(SimpleFilter.wrap_all(QueryPredicates(p).filters())) and frozenset(QueryPredicates(v).filters()) == {v}, "a view can be used as predicate", key=key)


def joinviews(ctx):
    op = ctx.pick("op", CMP[:6])
    (ka, a), (kb, b) = view_operand(ctx, "a", ctx.pick("ta", ["r", "t"])), view_operand(ctx, "b", ctx.pick("tb", ["r", "t"]))
    if ctx.pick("cast", [False, True]):
        b = qal.CastExpression(b, "integer")
    p = BinaryPredicate(op, a, b)
    key = str(p)
    can = SimpleJoin.can_wrap(p)
    try:
        v = SimpleJoin.wrap(p)
    except ValueError:
        v = None
    exp = p.is_join() and op == LO.Equal and ka == kb == "col"
    ctx.check(can == (v is not None) == exp, "exactly the equi-joins of two columns can be simplified", key=key)
    ctx.check(len(SimpleJoin.wrap_all([p, LEAF["j"][1]()])) == 1 + exp, "wrap_all() skips the others", key=key)
    qp = QueryPredicates(CompoundPredicate(CO.And, [p, LEAF["j"][1](), LEAF["f"][1]()]))
    simple = qp.simplify()
    ctx.check(len(simple) == 2 + (can or SimpleFilter.can_wrap(p)) if str(p) not in (str(LEAF["j"][1]()),) else True, "simplify() keeps every simple predicate", key=key)
    if p.is_join():
        ctx.check(qp.all_simple() == exp, "all_simple() iff every predicate can be simplified", key=key)
    if not exp:
        ctx.reach("complex")
        return
    ctx.reach("simple")
    l, r = p.first_argument.column, (p.second_argument.casted_expression if isinstance(p.second_argument, qal.CastExpression) else p.second_argument).column
    ctx.check({v.lhs, v.rhs} == {l, r} and v.unwrap() == p and v == p and hash(v) == hash(p) and str(v) == str(p), "the view joins the two columns", key=key)
    ctx.check(v.is_join() and v.columns() == {l, r} and {frozenset(x) for x in v.join_partners()} == {frozenset((l, r))}, "the view is a join", key=key)
    ctx.check(v.joins(l) and v.joins(r.table) and v.partner_of(l) == r and v.partner_of(r) == l and v.partner_of(l.table) == r.table and v.partner_of(r.table) == l.table,
              "partner_of() is the other side", key=key)
    o = B.tab("zzz")
    ctx.check(not v.joins(o) and v.partner_of(o) is None, "unrelated tables have no partner", key=key)


def nopreds(ctx):
    p = QueryPredicates.empty_predicate()
    r, s = B.tab("r"), B.tab("s")
    ctx.check(list(p.filters()) == [] and list(p.joins()) == [] and p.filters_for(r) is None and list(p.joins_for(r)) == [] and p.joins_between(r, s) is None
              and not p.joins_tables(r, s) and len(p.join_graph()) == 0 and list(p.simplify()) == [] and p.all_simple() and list(p) == [],
              "no predicates: nothing is filtered or joined", key="empty")
    ctx.reach("empty")


COMBOS = ["eq", "eq+eq", "eq+lt+flt", "udf", "udf+eq", "orj+eq", "orf+eq", "flt+orf+flt", "udf+flt"]


def harnesses(tier):
    out = [
        Harness("decompose", decompose(False), functions=F, bounds="every AND/OR/NOT tree of depth 2 over 5 kinds of base predicates (one deep branch); all rows and literals",
                must_reach=["mixed", "pure"], stop_early=True),
        Harness("kinds", kinds(False), functions=F, bounds="all base predicates over at most 6 columns; every way in which their tables coincide",
                must_reach=["filter", "join"], stop_early=True),
        Harness("compounds", kinds(True), functions=F, bounds="AND, OR, NOT of two base predicates over at most 6 columns; every way in which their tables coincide",
                must_reach=["filter", "join"], stop_early=True),
        Harness("graph", graph(COMBOS), functions=F, bounds="conjunctions of up to 3 joins and filters over at most 5 columns; every way in which their tables coincide",
                must_reach=["1 tables", "4 tables"], stop_early=True),
        Harness("aliases", aliases, functions=F, bounds="3 joins and filters over 2 base tables with 2 aliases each", must_reach=["graph"], stop_early=True),
        Harness("views", views, functions=F, bounds="all base predicates with 6 kinds of operands; all values", must_reach=["simple", "complex"], stop_early=True),
        Harness("joinviews", joinviews, functions=F, bounds="all comparisons of 6 kinds of operands over 2 tables", must_reach=["simple", "complex"], stop_early=True),
        Harness("empty", nopreds, functions=F, bounds="the empty predicate", must_reach=["empty"]),
    ]
    if tier == "thorough":
        out += [Harness("kinds-deep", kinds(False, True), functions=F, bounds="as kinds, with every pair of operand kinds and operators", must_reach=["filter", "join"]),
                Harness("decompose-deep", decompose(True), functions=F, bounds="every AND/OR/NOT tree of depth 2 with two deep branches", must_reach=["pure"], stop_early=True),
                Harness("graph-deep", graph(["eq+eq+eq", "udf+udf", "udf+eq+flt", "orj+lt+eq"]), functions=F, bounds="conjunctions over 6 columns", must_reach=["4 tables"], stop_early=True)]
    return out
