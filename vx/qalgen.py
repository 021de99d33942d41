"""Query objects built through the constructors of the public API (shapes that the parser does not produce, too)."""
from __future__ import annotations


def _q():
    from postbound import qal
    return qal


def tab(name, alias="", schema=""):
    from postbound import TableReference
    return TableReference(name, alias, schema=schema)


def col(t, c):
    from postbound import ColumnReference
    return ColumnReference(c, tab(t) if isinstance(t, str) else t)


def cexp(t, c):
    return _q().ColumnExpression(col(t, c))


def const(v):
    return _q().StaticValueExpression(v)


def select(expr, *, frm=("r",), where=None, **kw):
    q = _q()
    exprs = expr if isinstance(expr, list) else [expr]
    return q.build_query([x for x in [
        q.Select([q.BaseProjection(e, f"v{i}") for i, e in enumerate(exprs)]),
        q.ImplicitFromClause([q.DirectTableSource(tab(t)) for t in frm]),
        q.Where(where) if where is not None else None] if x is not None] + list(kw.values()))


LEAVES = ["col", "int", "neg", "str", "float", "null", "colb"]
OPS1 = ["+", "-", "*", "/", "%", "||"]
KINDS = [f"m{o}" for o in OPS1] + [f"n{o}" for o in ("+", "-", "*", "||")] + [
    "u-", "func", "cast", "castp", "casta", "case", "scase", "array", "idx", "low", "up", "sub", "pred", "or", "and", "not", "in", "between",
    "exists", "filter", "agg", "win"]


def leaf(k):
    return {"col": lambda: cexp("r", "a"), "colb": lambda: cexp("r", "b"), "int": lambda: const(7), "neg": lambda: const(-3), "str": lambda: const("o'k"),
            "float": lambda: const(1.5), "null": lambda: const(None), "empty": lambda: const("")}[k]()


MOP = {"+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Modulo", "||": "Concatenate"}


def node(k, x, pos=0):
    """an expression of kind k with x as one of its operands (pos selects which)"""
    q = _q()
    o, p, r = cexp("r", "b"), const(4), cexp("r", "a")
    lo = q.LogicalOperator
    pair = (x, o) if pos == 0 else (o, x)
    if k[0] == "m" and k[1:] in MOP:
        return q.MathExpression(getattr(q.MathOperator, MOP[k[1:]]), *pair)
    if k[0] == "n" and k[1:] in MOP:
        return q.MathExpression(getattr(q.MathOperator, MOP[k[1:]]), pair[0], [pair[1], p])
    if k == "u-":
        return q.MathExpression(q.MathOperator.Subtract, x)
    if k == "func":
        return q.FunctionExpression("abs", [x])
    if k == "cast":
        return q.CastExpression(x, "text")
    if k == "castp":
        return q.CastExpression(x, "numeric", type_params=[const(4), const(2)])
    if k == "casta":
        return q.CastExpression(x, "int", array_type=True)
    if k == "case":
        c = q.BinaryPredicate(lo.Greater, *pair)
        return q.CaseExpression([(c, p)], else_expr=r) if pos == 0 else q.CaseExpression([(c, x), (c, o)], else_expr=x)
    if k == "scase":
        return q.CaseExpression([(pair[1], p)], simple_expr=pair[0])
    if k == "array":
        return q.ArrayExpression(list(pair))
    if k == "idx":
        return q.ArrayAccessExpression(pair[0], idx=pair[1])
    if k == "low":
        return q.ArrayAccessExpression(q.ArrayExpression([o]), lower_idx=x)
    if k == "up":
        return q.ArrayAccessExpression(q.ArrayExpression([o]), lower_idx=const(1), upper_idx=x)
    if k == "sub":
        return q.SubqueryExpression(select(q.FunctionExpression("max", [cexp("s", "c")]), frm=("s",),
                                           where=q.BinaryPredicate(lo.Equal, cexp("s", "a"), x)))
    if k == "pred":
        return q.BinaryPredicate(lo.Equal if pos == 0 else lo.Less, *pair)
    if k in ("or", "and"):
        c = q.BinaryPredicate(lo.Equal, *pair)
        d = q.BinaryPredicate(lo.Less, o, p)
        return q.CompoundPredicate(q.CompoundOperator.Or if k == "or" else q.CompoundOperator.And, [c, d] if pos == 0 else [d, c])
    if k == "not":
        return q.CompoundPredicate(q.CompoundOperator.Not, q.BinaryPredicate(lo.Like, *pair))
    if k == "in":
        return q.InPredicate(x, [o, p]) if pos == 0 else q.InPredicate(o, [x, p])
    if k == "between":
        return q.BetweenPredicate(x, (o, p)) if pos == 0 else q.BetweenPredicate(o, (x, x))
    if k == "exists":
        return q.UnaryPredicate(q.SubqueryExpression(select(const(1), frm=("s",), where=q.BinaryPredicate(lo.Equal, *pair))), lo.Exists)
    if k == "filter":
        return q.FunctionExpression("sum", [pair[0]], filter_where=q.BinaryPredicate(lo.Greater, pair[1], p))
    if k == "agg":
        return q.FunctionExpression("count", [x], distinct=True)
    if k == "win":
        f = q.FunctionExpression("sum", [r])
        if pos == 0:
            return q.WindowExpression(f, partitioning=[x], ordering=q.OrderBy([q.OrderByExpression(o, False, True)]))
        return q.WindowExpression(f, ordering=q.OrderBy([q.OrderByExpression(x, True, False)]),
                                  filter_condition=q.BinaryPredicate(lo.Greater, x, p))
    raise KeyError(k)


BOOL = ("pred", "or", "and", "not", "in", "between", "exists")
TWO = [f"m{o}" for o in OPS1] + [f"n{o}" for o in ("+", "-", "*", "||")] + ["case", "scase", "array", "idx", "pred", "or", "and", "not", "in",
                                                                         "between", "exists", "filter", "win"]


def tree(ctx, depth, name="k", kinds=KINDS):
    """all expression trees along one spine of the given depth"""
    k = ctx.pick(name, list(kinds) + (LEAVES if depth < 2 else []))
    if k in LEAVES:
        return leaf(k)
    x = tree(ctx, depth - 1, name + "x", kinds) if depth > 1 else leaf(ctx.pick(name + "l", LEAVES if len(name) == 1 else ["col", "neg", "str"]))
    return node(k, x, ctx.choose(name + "p", 2) if k in TWO else 0)


def pred(ctx, depth, name="p"):
    """predicate spines: comparison leaves and AND / OR / NOT, with nested conjunctions etc. left as built"""
    q = _q()
    k = ctx.pick(name, ["leaf", "not", "and", "or", "xand", "xor", "and3", "or3", "wrap"]) if depth else "leaf"
    n = ctx.pcount = getattr(ctx, "pcount", 0) + 1
    lo = q.LogicalOperator
    mk = [lambda: q.BinaryPredicate(lo.Equal, cexp("r", "a"), const(1)), lambda: q.InPredicate(cexp("r", "b"), [const(2), const(3)]),
          lambda: q.BinaryPredicate(lo.Is, cexp("r", "a"), const(None)), lambda: q.BetweenPredicate(cexp("r", "b"), (const(4), const(5))),
          lambda: q.UnaryPredicate(q.FunctionExpression("is_ok", [cexp("r", "a")]))]
    if k == "leaf":
        return mk[ctx.choose(name + "l", len(mk)) if depth == 0 else n % len(mk)]()
    C, O = q.CompoundPredicate, q.CompoundOperator
    sub = pred(ctx, depth - 1, name + "x")
    if k == "not":
        return C(O.Not, sub)
    if k == "wrap":
        return q.UnaryPredicate(sub)
    op = O.And if "and" in k else O.Or
    if k.endswith("3"):
        return C(op, [mk[0](), sub, mk[1]()])
    return C(op, [mk[n % len(mk)](), sub] if k[0] == "x" else [sub, mk[n % len(mk)]()])
