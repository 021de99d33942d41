"""C01: cardinality values behave like rounded, extended numbers."""
import math

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Iff, Implies, Not, Or, Shadow, SymFloat, SymInt

import postbound._core as core
from postbound._core import Cardinality

LEVEL = "model_checking"
ASSUMPTIONS = [
    "floats are modelled as exact extended reals (no rounding, no overflow); values outside the stated ranges and negative "
    "inputs are outside the bound",
    "builtins hash/float/int/divmod and module math are replaced by term-level versions inside postbound._core; hash() of "
    "primitive values is an arbitrary (uninterpreted) function",
    "** with a symbolic exponent is outside the encoding",
]
SH = Shadow({core: NUM_SHADOW})
F = ["Cardinality." + f for f in ("__init__", "__eq__", "__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__add__",
     "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__divmod__", "__rdivmod__",
     "__floordiv__", "__rfloordiv__", "__mod__", "__rmod__", "__float__", "__int__", "__bool__", "get", "value", "of")]
KINDS = ["fin", "inf", "nan"]


def raw(ctx, name, integral=None):
    """An int, a float or a special float."""
    k = ctx.pick(name + ".kind", ["int", "real", "inf", "nan"])
    ctx.reach(k)
    if k == "int":
        return ctx.int(name, 0, 10 ** 6)
    if k == "real":
        return ctx.real(name, 0, 10 ** 6)
    return math.inf if k == "inf" else math.nan


def isnan(x):
    if isinstance(x, SymFloat):
        return x.kind == "nan"
    return not isinstance(x, SymInt) and x != x


def isinf(x):
    if isinstance(x, SymFloat):
        return x.kind in ("inf", "-inf")
    return not isinstance(x, SymInt) and not isnan(x) and x in (math.inf, -math.inf)


def rounded(x):
    """Reference: what a cardinality for x has to hold."""
    return x if isnan(x) or isinf(x) else round(x)


def same_number(a, b):
    """a, b plain numbers: same extended value"""
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return a == b


def construct(ctx):
    x = raw(ctx, "x")
    c = Cardinality(x)
    ctx.check(c.isnan() == isnan(x), "unknown exactly for NaN")
    ctx.check(c.is_unknown() == isnan(x), "unknown exactly for NaN")
    ctx.check(c.isinf() == isinf(x), "infinite exactly for inf")
    ctx.check(c.is_valid() == (not isnan(x) and not isinf(x)), "valid exactly for finite values")
    ctx.check(Iff(bool(c), c.is_valid()), "truth value is validity")
    ctx.check(same_number(c.get(), rounded(x)), "get() is the rounded value")
    match c:
        case Cardinality(valid, val):
            ctx.check(valid == c.is_valid(), "pattern exposes validity")
            ctx.check(val == (rounded(x) if valid else -1), "pattern exposes value")
    if c.is_valid():
        ctx.check(c.value == round(x), "value is the rounded value")
        ctx.check(type(c).__int__(c) == round(x), "int() is the rounded value")
        ctx.check(And(c.value - x <= 0.5, x - c.value <= 0.5), "rounding is to the nearest integer")
        ctx.observe("value", c.value)
    else:
        try:
            c.value
            ctx.check(False, "invalid cardinality must not expose a value")
        except core.StateError:
            pass
    again = Cardinality.of(c)
    ctx.check(again == c, "of() keeps the value")
    ctx.check(Cardinality.of(x) == c, "of() of a number")
    ctx.check(same_number(c.__json__(), rounded(x)), "JSON value")
    ctx.check(Cardinality.unknown().isnan() and Cardinality.infinite().isinf(), "factories")


def operand(ctx, name):
    """(object handed to the code, reference number)"""
    x = raw(ctx, name)
    if ctx.pick(name + ".wrap", [True, False]):
        return Cardinality(x), rounded(x), True
    return x, x, False


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def compare(ctx):
    x = raw(ctx, "x")
    a, ra = Cardinality(x), rounded(x)
    b, rb, _ = operand(ctx, "y")
    op = ctx.pick("op", list(CMP))
    flip = ctx.pick("flip", [False, True])
    got = CMP[op](b, a) if flip else CMP[op](a, b)
    if isnan(ra) or isnan(rb):
        both = isnan(ra) and isnan(rb)
        exp = {"==": both, "!=": not both}.get(op, False)
    else:
        exp = CMP[op](rb, ra) if flip else CMP[op](ra, rb)
    ctx.observe("got", got)
    ctx.check(Iff(got, exp), "comparison agrees with the numbers", key=f"{op}", x=x, y=b, flip=flip)


def hashing(ctx):
    x = raw(ctx, "x")
    a = Cardinality(x)
    y = raw(ctx, "y")
    wrap = ctx.pick("wrap", [True, False])
    if not wrap and isnan(y):
        return  # every NaN float has its own hash
    b = Cardinality(y) if wrap else y
    if a == b:
        ctx.reach("equal")
        ctx.check(same_hash(ctx, a, b), "equal objects have equal hashes", key=f"wrap={wrap}", x=x, y=y)


def same_hash(ctx, a, b):
    if not ctx.symbolic:
        return hash(a) == hash(b)
    from vx.sym import SymBool, hash_term
    return SymBool(hash_term(a) == hash_term(b))


ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def arithmetic(ctx):
    x = raw(ctx, "x")
    a, ra = Cardinality(x), rounded(x)
    b, rb, wrapped = operand(ctx, "y")
    op = ctx.pick("op", list(ARITH))
    flip = (not wrapped) and ctx.pick("flip", [False, True])
    l, r, rl, rr = (b, a, rb, ra) if flip else (a, b, ra, rb)
    zero = op == "/" and not isnan(rr) and not isinf(rr) and rr == 0
    if zero:
        try:
            ARITH[op](l, r)
            ctx.check(False, "division by zero must be reported")
        except ZeroDivisionError:
            ctx.reach("div0")
        return
    got = ARITH[op](l, r)
    if not ctx.symbolic:
        rl, rr = float(rl), float(rr)
    exp = ARITH[op](rl, rr)
    ctx.check(isinstance(got, Cardinality), "arithmetic yields a cardinality")
    if isnan(rl) or isnan(rr):
        ctx.check(got.isnan(), "unknown is absorbing", key=op)
    ctx.check(same_number(got.get(), rounded(exp)) if not isinf(exp) or exp == math.inf else got.isinf(),
              "arithmetic agrees with the numbers", key=op, x=x, y=b)


DIVISORS = list(range(13)) + [97, 1000, 65536]


def division(ctx):
    """//, % and divmod on valid cardinalities and numbers are consistent with integer arithmetic."""
    x = ctx.int("x", 0, 10 ** 6)
    y = ctx.pick("y", DIVISORS)
    wrap = ctx.pick("wrap", [True, False])
    flip = (not wrap) and ctx.pick("flip", [False, True])
    if flip:
        x, y = y, x
    a = Cardinality(x)
    b = Cardinality(y) if wrap else y
    l, r, rl, rr = (b, a, y, x) if flip else (a, b, x, y)
    op = ctx.pick("op", ["//", "%", "divmod"])
    if rr == 0:
        try:
            (l // r) if op == "//" else (l % r) if op == "%" else divmod(l, r)
            ctx.check(False, "division by zero must be reported")
        except ZeroDivisionError:
            return
    if op == "//":
        got = l // r
        ctx.check(got == rl // rr, "floor division agrees with the numbers", key="//", got=got, x=x, y=y)
    elif op == "%":
        got = l % r
        ctx.check(got == rl % rr, "modulo agrees with the numbers", key="%", got=got, x=x, y=y)
    else:
        q, m = divmod(l, r)
        ctx.check(And(q == rl // rr, m == rl % rr), "divmod agrees with the numbers", key="divmod", x=x, y=y)


def division_special(ctx):
    x = raw(ctx, "x")
    y = raw(ctx, "y")
    wrap = ctx.pick("wrap", [True, False])
    a = Cardinality(x)
    b = Cardinality(y) if wrap else y
    if isnan(x) or isnan(y):
        got = a % b
        ctx.check(got.isnan(), "unknown is absorbing in modulo")
        if not wrap:
            got = b % a
            ctx.check(got.isnan(), "unknown is absorbing in reflected modulo")
        if not isnan(x) and not isinf(x) or isnan(x):
            q, m = divmod(a, b)
            ctx.check(isnan(q) and isnan(m), "unknown is absorbing in divmod")
        ctx.reach("nan")
    elif isinf(y) and not isinf(x):
        ctx.check((a % b) == rounded(x), "x % inf is x")
        ctx.reach("inf")


def order_laws(ctx):
    """< is a strict order over valid and infinite cardinalities, compatible with == and <=."""
    vs = [Cardinality(raw(ctx, n)) for n in "abc"]
    a, b, c = vs
    if any(v.isnan() for v in vs):
        return
    ctx.check(Not(a < a), "irreflexive")
    ctx.check(Implies(a < b, Not(b < a)), "asymmetric")
    ctx.check(Implies(And(a < b, b < c), a < c), "transitive")
    ctx.check(Or(a < b, b < a, a == b), "total")
    ctx.check(Iff(a < b, b > a), "< and > mirror")
    ctx.check(Iff(a <= b, Or(a < b, a == b)), "<= is < or ==")
    ctx.check(Iff(a >= b, b <= a), "<= and >= mirror")
    ctx.check(Iff(a == b, b == a), "== symmetric")
    ctx.check(Implies(And(a == b, b == c), a == c), "== transitive")


def harnesses(tier):
    o = dict(shadow=SH, functions=F)
    num = "operands: every int and every real in [0, 1e6], inf, NaN, each plain or wrapped"
    return [
        Harness("construct", construct, bounds=num, must_reach=["int", "real", "inf", "nan"], **o),
        Harness("compare", compare, bounds=num + "; 6 operators, both orders", must_reach=["nan", "inf"], **o),
        Harness("hashing", hashing, bounds=num + "; any hash function", must_reach=["equal"], **o),
        Harness("arithmetic", arithmetic, bounds=num + "; + - * /", must_reach=["div0"], **o),
        Harness("division", division, bounds=f"every dividend in [0, 1e6], divisors {DIVISORS}; // % divmod, either side wrapped", **o),
        Harness("division_special", division_special, bounds=num, must_reach=["nan", "inf"], **o),
        Harness("order_laws", order_laws, bounds="three cardinalities, " + num, **o),
    ]
