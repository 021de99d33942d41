"""Symbolic proxy values (z3 terms behind Python's operator protocol)."""
from __future__ import annotations

import enum
import math
from fractions import Fraction

import z3

from . import engine


def ctx():
    c = engine.CURRENT
    if c is None:
        raise RuntimeError("symbolic value used outside of a symbolic run")
    return c


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bterm(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == bterm(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t != bterm(o))
        return NotImplemented

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"SymBool({self.t})"


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def to_bool_term(x):
    """True/False if concrete (also after simplification), else a z3 Bool."""
    if isinstance(x, SymBool):
        x = x.t
    if z3.is_expr(x):
        s = z3.simplify(x)
        return True if z3.is_true(s) else False if z3.is_false(s) else s
    return bool(x)


def _anysym(xs):
    return any(isinstance(x, SymBool) or z3.is_expr(x) for x in xs)


def And(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if not _anysym(xs):
        return all(xs)
    return SymBool(z3.And([bterm(x) for x in xs]))


def Or(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if not _anysym(xs):
        return any(xs)
    return SymBool(z3.Or([bterm(x) for x in xs]))


def Not(x):
    return SymBool(z3.Not(bterm(x))) if _anysym([x]) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not _anysym([a, b]):
        return bool(a) == bool(b)
    return SymBool(bterm(a) == bterm(b))


# ------------------------------------------------------------------ hashing
class HashVal(int):
    """What the shadowed hash() returns: value 0 for C code, a term for the solver."""

    def __new__(cls, term):
        o = int.__new__(cls, 0)
        o.term = term
        return o

    def __repr__(self):
        return f"HashVal({self.term})"


_I = z3.IntSort()
_H_atom = z3.Function("H_str", _I, _I)
_H_num = z3.Function("H_num", z3.RealSort(), _I)
_H_fs = z3.Function("H_elem", _I, _I)
_H_set = z3.Function("H_set", _I, _I)
_CONST = {}


def _const(kind, key):
    k = (kind, key)
    if k not in _CONST:
        _CONST[k] = z3.Int(f"hc!{kind}!{len(_CONST)}")
    return _CONST[k]


def hash_term(x):
    if isinstance(x, SymAtom):
        return _H_atom(x.t)
    if isinstance(x, str) and not isinstance(x, enum.Enum):
        n = len(x)
        if not 0 < n <= 12:
            return _const("str", str(x))
        return z3.Function(f"H_text{n}", *([_I] * n), _I)(*lift_chars(x))
    if x is None:
        return _const("none", None)
    if isinstance(x, SymFloat):
        return _H_num(x.r) if x.kind == "fin" else _const("float", x.kind)
    if isinstance(x, SymInt):
        return _H_num(z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return _H_num(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (bool, int, float)) and not isinstance(x, enum.Enum):
        if isinstance(x, float) and not math.isfinite(x):
            return _const("float", {True: "nan"}.get(math.isnan(x), "inf" if x > 0 else "-inf"))
        return _H_num(z3.RealVal(str(Fraction(x))))
    if isinstance(x, tuple):
        f = z3.Function(f"H_tuple{len(x)}", *([_I] * len(x)), _I) if x else None
        return f(*[hash_term(e) for e in x]) if x else _const("tuple", ())
    if isinstance(x, frozenset):
        s = z3.Sum([_H_fs(hash_term(e)) for e in x]) if x else z3.IntVal(0)
        return _H_set(s)
    if isinstance(x, enum.Enum):
        # str/int mixin enums hash via their own __hash__
        v = type(x).__hash__(x)
        return v.term if isinstance(v, HashVal) else _const("enum", (type(x).__name__, x.name))
    if isinstance(x, type):
        return _const("type", x.__qualname__)
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    v = h(x)
    return v.term if isinstance(v, HashVal) else z3.IntVal(int(v))


def sym_hash(x):
    if isinstance(x, (list, dict, set)):
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    return HashVal(hash_term(x))


# ------------------------------------------------------------------ integers
def iterm(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def _isint(x):
    return isinstance(x, (int, SymBool, SymInt)) and not isinstance(x, HashVal)


import numbers  # noqa: E402


class SymInt:
    """Not an int subclass: float's C code would silently use the placeholder value.  isinstance(x, int) is answered by the
    shadowed ``int`` of the modules under test."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self  # noqa: E731

    def _bin(self, o, f, swap=False):
        if isinstance(o, float):
            a, b = SymFloat.finite(z3.ToReal(self.t)), lift_float(o)
            return f(b, a) if swap else f(a, b)
        if not _isint(o):
            return NotImplemented
        a, b = (iterm(o), self.t) if swap else (self.t, iterm(o))
        return SymInt(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return SymFloat.finite(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SymFloat.finite(z3.ToReal(self.t)) if not _isint(o) else \
            SymFloat.finite(z3.ToReal(iterm(o))) / SymFloat.finite(z3.ToReal(self.t))

    @staticmethod
    def _fdiv(a, b):
        c = ctx()
        if c.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # python: floor division; z3: Euclidean for positive divisors == floor
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return q, a - q * b

    def __floordiv__(self, o):
        if isinstance(o, float):
            return NotImplemented
        return SymInt(self._fdiv(self.t, iterm(o))[0])

    def __rfloordiv__(self, o):
        return SymInt(self._fdiv(iterm(o), self.t)[0])

    def __mod__(self, o):
        return SymInt(self._fdiv(self.t, iterm(o))[1])

    def __rmod__(self, o):
        return SymInt(self._fdiv(iterm(o), self.t)[1])

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t < 0, -self.t, self.t))

    def __pow__(self, e):
        e = int(e.__index__()) if isinstance(e, SymInt) else e
        if not isinstance(e, int) or e < 0:
            return NotImplemented
        r = z3.IntVal(1)
        for _ in range(e):
            r = r * self.t
        return SymInt(r)

    def _cmp(self, o, f):
        if isinstance(o, float):
            return f(SymFloat.finite(z3.ToReal(self.t)), lift_float(o))
        if not _isint(o):
            return NotImplemented
        return SymBool(f(self.t, iterm(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        return ctx().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __repr__(self):
        return f"SymInt({self.t})"

    def __str__(self):
        return f"\ue000{register_token(self)}\ue001"

    def __format__(self, spec):
        return str(self)


# ------------------------------------------------------------------ extended reals
def lift_float(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat.finite(z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return SymFloat.finite(z3.ToReal(iterm(x)))
    if isinstance(x, float):
        if math.isnan(x):
            return SymFloat.special("nan")
        if math.isinf(x):
            return SymFloat.special("inf" if x > 0 else "-inf")
    return SymFloat.finite(z3.RealVal(str(Fraction(x))))


class SymFloat(float):
    """Exact extended real: kind is concrete per path, the finite value is a z3 Real."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __new__(cls, kind, r):
        o = float.__new__(cls, float("nan"))
        o.kind, o.r = kind, r
        return o

    @staticmethod
    def finite(r):
        return SymFloat("fin", r)

    @staticmethod
    def special(kind):
        return SymFloat(kind, None)

    @property
    def sign_inf(self):
        return {"inf": 1, "-inf": -1}.get(self.kind, 0)

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float, SymBool, SymInt)) and not isinstance(o, HashVal)

    def _add(a, b):
        if "nan" in (a.kind, b.kind):
            return SymFloat.special("nan")
        if a.kind == "fin" and b.kind == "fin":
            return SymFloat.finite(a.r + b.r)
        s = a.sign_inf + b.sign_inf
        if a.sign_inf and b.sign_inf and s == 0:
            return SymFloat.special("nan")
        return SymFloat.special("inf" if s > 0 else "-inf")

    def __add__(self, o):
        return SymFloat._add(self, lift_float(o)) if self._ok(o) else NotImplemented

    __radd__ = __add__

    def __neg__(self):
        if self.kind == "fin":
            return SymFloat.finite(-self.r)
        return SymFloat.special({"nan": "nan", "inf": "-inf", "-inf": "inf"}[self.kind])

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == "fin":
            return SymFloat.finite(z3.If(self.r < 0, -self.r, self.r))
        return SymFloat.special("nan" if self.kind == "nan" else "inf")

    def __sub__(self, o):
        return SymFloat._add(self, -lift_float(o)) if self._ok(o) else NotImplemented

    def __rsub__(self, o):
        return SymFloat._add(lift_float(o), -self) if self._ok(o) else NotImplemented

    def _sgn(self):
        """concrete sign, forking if needed"""
        if self.kind != "fin":
            return self.sign_inf
        c = ctx()
        if c.branch(self.r > 0):
            return 1
        return -1 if c.branch(self.r < 0) else 0

    def _mul(a, b):
        if "nan" in (a.kind, b.kind):
            return SymFloat.special("nan")
        if a.kind == "fin" and b.kind == "fin":
            return SymFloat.finite(a.r * b.r)
        s = a._sgn() * b._sgn()
        return SymFloat.special("nan" if s == 0 else "inf" if s > 0 else "-inf")

    def __mul__(self, o):
        return SymFloat._mul(self, lift_float(o)) if self._ok(o) else NotImplemented

    __rmul__ = __mul__

    def _div(a, b):
        if b.kind == "fin" and ctx().branch(b.r == 0):
            raise ZeroDivisionError("float division by zero")
        if "nan" in (a.kind, b.kind):
            return SymFloat.special("nan")
        if b.kind != "fin":
            return SymFloat.special("nan") if a.kind != "fin" else SymFloat.finite(z3.RealVal(0))
        if a.kind != "fin":
            return SymFloat.special("inf" if a._sgn() * b._sgn() > 0 else "-inf")
        return SymFloat.finite(a.r / b.r)

    def __truediv__(self, o):
        return SymFloat._div(self, lift_float(o)) if self._ok(o) else NotImplemented

    def __rtruediv__(self, o):
        return SymFloat._div(lift_float(o), self) if self._ok(o) else NotImplemented

    def __floordiv__(self, o):
        if not self._ok(o):
            return NotImplemented
        q = self / o
        return SymFloat.finite(z3.ToReal(z3.ToInt(q.r))) if q.kind == "fin" else SymFloat.special("nan")

    def __mod__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = lift_float(o)
        q = self // o
        return self - q * o

    def __pow__(self, e):
        if isinstance(e, int) and not isinstance(e, SymInt) and e >= 0:
            r = lift_float(1)
            for _ in range(e):
                r = r * self
            return r
        return NotImplemented

    def _cmp(self, o, fin, inf):
        if not self._ok(o):
            return NotImplemented
        o = lift_float(o)
        if "nan" in (self.kind, o.kind):
            return None
        if self.kind == "fin" and o.kind == "fin":
            return SymBool(fin(self.r, o.r))
        return inf(self.sign_inf, o.sign_inf)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
        return False if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
        return False if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
        return False if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
        return False if r is None else r

    def __hash__(self):
        return 0

    def __bool__(self):
        if self.kind != "fin":
            return True
        return ctx().branch(self.r != 0)

    # rounding
    def _toint(self, t):
        return SymInt(t)

    def _need_fin(self):
        if self.kind == "nan":
            raise ValueError("cannot convert float NaN to integer")
        if self.kind != "fin":
            raise OverflowError("cannot convert float infinity to integer")

    def __floor__(self):
        self._need_fin()
        return SymInt(z3.ToInt(self.r))

    def __ceil__(self):
        self._need_fin()
        return SymInt(-z3.ToInt(-self.r))

    def __trunc__(self):
        self._need_fin()
        return SymInt(z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r)))

    __int__ = None

    def __round__(self, n=None):
        if n is not None and n != 0:
            if self.kind != "fin":
                return self
            s = 10 ** n
            i = SymFloat.finite(self.r * s).__round__()
            return SymFloat.finite(z3.ToReal(i.t) / s)
        self._need_fin()
        f = z3.ToInt(self.r)
        d = self.r - z3.ToReal(f)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, f % 2 != 0))
        v = SymInt(z3.If(up, f + 1, f))
        return v if n is None else SymFloat.finite(z3.ToReal(v.t))

    def is_integer(self):
        return SymBool(z3.IsInt(self.r)) if self.kind == "fin" else False

    def __repr__(self):
        return f"SymFloat({self.r if self.kind == 'fin' else self.kind})"

    def __str__(self):
        if self.kind != "fin":
            return self.kind
        return f"\ue000{register_token(self)}\ue001"

    def __format__(self, spec):
        return str(self)


TOKENS = {}


def register_token(v):
    key = f"{len(TOKENS)}"
    TOKENS[key] = v
    return key


def _floated(x):
    """value of objects that convert to a (possibly symbolic) float"""
    return x if isinstance(x, (int, float, SymInt, SymFloat)) or not hasattr(type(x), "__float__") else type(x).__float__(x)


def is_nan(x):
    x = _floated(x)
    if isinstance(x, SymFloat):
        return x.kind == "nan"
    if isinstance(x, SymInt):
        return False
    return math.isnan(x)


def is_inf(x):
    x = _floated(x)
    if isinstance(x, SymFloat):
        return x.kind in ("inf", "-inf")
    if isinstance(x, SymInt):
        return False
    return math.isinf(x)


class MathShim:
    """math module that understands the proxies."""

    isnan = staticmethod(is_nan)
    isinf = staticmethod(is_inf)

    @staticmethod
    def isfinite(x):
        return not is_nan(x) and not is_inf(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__()

    @staticmethod
    def floor(x):
        return x.__floor__()

    @staticmethod
    def isclose(a, b, **kw):
        return math.isclose(a, b, **kw) if not isinstance(a, SymFloat) and not isinstance(b, SymFloat) else a == b

    @staticmethod
    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def __getattr__(self, name):
        return getattr(math, name)


# ------------------------------------------------------------------ symbolic names (equality/order only)
class SymAtom(str):
    """A non-empty name of which only identity and order matter; distinct from every string literal in the code."""

    @staticmethod
    def make(t):
        o = str.__new__(SymAtom, f"\ue010{t}\ue011")
        o.t = t
        return o

    def __eq__(self, o):
        if isinstance(o, SymAtom):
            return SymBool(self.t == o.t)
        if isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else Not(r)

    def _cmp(self, o, f, g):
        if isinstance(o, SymAtom):
            return SymBool(f(self.t, o.t))
        if isinstance(o, str):
            return g(1, 0)  # literals ('') sort first
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    def __str__(self):
        return self

    def lower(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ evaluation under a model
def _num(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError(v)


def eval_under(m, v):
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SymInt):
        return _num(m, v.t)
    if isinstance(v, SymFloat):
        return float(_num(m, v.r)) if v.kind == "fin" else float(v.kind)
    if isinstance(v, SymAtom):
        return engine.atom_name(_num(m, v.t))
    if isinstance(v, SymStr):
        return "".join(chr(_num(m, c)) for c in v.chars)
    if isinstance(v, (list, tuple)):
        return [eval_under(m, x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((eval_under(m, x) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(eval_under(m, k)): eval_under(m, x) for k, x in v.items()}
    return v


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(b, (set, frozenset)):
        b = sorted(b, key=repr)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        b = {str(k): v for k, v in b.items()}
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return str(a) == str(b)


# ------------------------------------------------------------------ bounded symbolic strings
def lift_chars(s):
    if isinstance(s, SymStr):
        return s.chars
    return [z3.IntVal(ord(c)) for c in s]


class SymStr(str):
    """A string of concrete length over symbolic code points."""

    @staticmethod
    def make(chars):
        o = str.__new__(SymStr, "\ue020" * len(chars))
        o.chars = list(chars)
        return o

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        b = lift_chars(o)
        if len(b) != len(self.chars):
            return False
        return And(*[x == y for x, y in zip(self.chars, b)]) if b else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else Not(r)

    def __hash__(self):
        return 0

    def _lex(self, o, strict):
        a, b = self.chars, lift_chars(o)
        # lexicographic by code point
        res = z3.BoolVal(len(a) < len(b) or (not strict and len(a) == len(b)))
        for x, y in reversed(list(zip(a, b))):
            res = z3.If(x == y, res, x < y)
        return SymBool(res)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return Not(self._lex(o, False))

    def __ge__(self, o):
        return Not(self._lex(o, True))

    def __add__(self, o):
        return SymStr.make(self.chars + lift_chars(o))

    def __radd__(self, o):
        return SymStr.make(lift_chars(o) + self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.make(self.chars[i])
        return SymStr.make([self.chars[i]])

    def __iter__(self):
        return (SymStr.make([c]) for c in self.chars)

    def __contains__(self, o):
        b = lift_chars(o)
        n = len(b)
        return bool(Or(*[And(*[self.chars[i + j] == b[j] for j in range(n)]) for i in range(len(self.chars) - n + 1)])) if n else True

    def startswith(self, o, *_):
        if isinstance(o, tuple):
            return Or(*[self.startswith(x) for x in o])
        b = lift_chars(o)
        if len(b) > len(self.chars):
            return False
        return And(*[x == y for x, y in zip(self.chars, b)]) if b else True

    def endswith(self, o, *_):
        if isinstance(o, tuple):
            return Or(*[self.endswith(x) for x in o])
        b = lift_chars(o)
        if len(b) > len(self.chars):
            return False
        return And(*[x == y for x, y in zip(self.chars[len(self.chars) - len(b):], b)]) if b else True

    # the case tables cover the ASCII range; other characters are case-less (bound stated by the harness)
    def lower(self):
        return SymStr.make([z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in self.chars])

    casefold = lower

    def upper(self):
        return SymStr.make([z3.If(z3.And(c >= 97, c <= 122), c - 32, c) for c in self.chars])

    def islower(self):
        return And(Or(*[is_lower(c) for c in self.chars]), And(*[z3.Not(is_upper(c)) for c in self.chars]))

    def isupper(self):
        return And(Or(*[is_upper(c) for c in self.chars]), And(*[z3.Not(is_lower(c)) for c in self.chars]))

    def isdigit(self):
        return And(*[is_digit(c) for c in self.chars]) if self.chars else False

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return And(*[z3.Or(is_lower(c), is_upper(c)) for c in self.chars]) if self.chars else False

    def isalnum(self):
        return And(*[z3.Or(is_lower(c), is_upper(c), is_digit(c)) for c in self.chars]) if self.chars else False

    def isspace(self):
        return And(*[is_space(c) for c in self.chars]) if self.chars else False

    def isidentifier(self):
        if not self.chars:
            return False
        w = [z3.Or(is_lower(c), is_upper(c), c == 95) for c in self.chars]
        return And(w[0], *[z3.Or(x, is_digit(c)) for x, c in zip(w[1:], self.chars[1:])])

    def isascii(self):
        return And(*[c < 128 for c in self.chars]) if self.chars else True

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.chars) and self._in(self.chars[i], chars):
            i += 1
        return SymStr.make(self.chars[i:])

    def rstrip(self, chars=None):
        n = len(self.chars)
        while n > 0 and self._in(self.chars[n - 1], chars):
            n -= 1
        return SymStr.make(self.chars[:n])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    @staticmethod
    def _in(c, chars):
        t = is_space(c) if chars is None else z3.Or([c == ord(x) for x in chars])
        return ctx().branch(t)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.chars) - len(p)] if p and self.endswith(p) else self

    def find(self, sub, start=0, end=None):
        b = lift_chars(sub)
        n = len(self.chars) if end is None else min(end, len(self.chars))
        for i in range(start, n - len(b) + 1):
            if And(*[self.chars[i + j] == b[j] for j in range(len(b))]):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def replace(self, old, new, count=-1):
        o, n = lift_chars(old), lift_chars(new)
        out, i = [], 0
        while i < len(self.chars):
            if i + len(o) <= len(self.chars) and o and And(*[self.chars[i + j] == o[j] for j in range(len(o))]):
                out += n
                i += len(o)
            else:
                out.append(self.chars[i])
                i += 1
        return SymStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        parts, cur, i = [], [], 0
        if sep is None:
            for c in self.chars:
                if ctx().branch(is_space(c)):
                    if cur:
                        parts.append(SymStr.make(cur))
                    cur = []
                else:
                    cur = cur + [c]
            return parts + ([SymStr.make(cur)] if cur else [])
        s = lift_chars(sep)
        while i < len(self.chars):
            if maxsplit != 0 and i + len(s) <= len(self.chars) and And(*[self.chars[i + j] == s[j] for j in range(len(s))]):
                parts.append(SymStr.make(cur))
                cur = []
                i += len(s)
                maxsplit -= 1
            else:
                cur = cur + [self.chars[i]]
                i += 1
        return parts + [SymStr.make(cur)]

    def join(self, it):
        out, first = [], True
        for x in it:
            if not first:
                out += self.chars
            out += lift_chars(x)
            first = False
        return SymStr.make(out)

    def __str__(self):
        return self

    def __format__(self, spec):
        return f"\ue000{register_token(self)}\ue001"

    def __repr__(self):
        return f"SymStr[{len(self.chars)}]"

    def __deepcopy__(self, memo):
        return self

    def encode(self, *a):
        raise engine.Inconclusive("encode on a symbolic string")


def is_lower(c):
    return z3.And(c >= 97, c <= 122)


def is_upper(c):
    return z3.And(c >= 65, c <= 90)


def is_digit(c):
    return z3.And(c >= 48, c <= 57)


def is_space(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 31))


def detoken(s):
    """A plain string with embedded tokens (from f-strings) -> SymStr."""
    if isinstance(s, SymStr) or "\ue000" not in s:
        return s
    out, i = [], 0
    while i < len(s):
        if s[i] == "\ue000":
            j = s.index("\ue001", i)
            out += lift_chars(TOKENS[s[i + 1:j]])
            i = j + 1
        else:
            out.append(z3.IntVal(ord(s[i])))
            i += 1
    return SymStr.make(out)


# ------------------------------------------------------------------ shadowing of builtins inside the modules under test
class Shadow:
    """Temporarily overrides global names inside modules of the code under test (never the code itself)."""

    def __init__(self, mapping):
        self.mapping = mapping  # {module: {name: replacement}}
        self.saved = []

    def install(self):
        for mod, repl in self.mapping.items():
            for name, val in repl.items():
                self.saved.append((mod, name, mod.__dict__.get(name, Shadow)))
                mod.__dict__[name] = val

    def remove(self):
        while self.saved:
            mod, name, old = self.saved.pop()
            if old is Shadow:
                mod.__dict__.pop(name, None)
            else:
                mod.__dict__[name] = old


# ------------------------------------------------------------------ int/float/round/... as seen by the code under test
import builtins  # noqa: E402


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return lift_float(x)
        if isinstance(x, (int, float, str)):
            return builtins.float(x)
        f = getattr(type(x), "__float__", None)
        return f(x) if f else builtins.float(x)


class ShimFloat(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymFloat):
            return x.__trunc__()
        if isinstance(x, SymBool):
            return SymInt(iterm(x))
        if isinstance(x, (int, float, str)):
            return builtins.int(x, *a)
        f = getattr(type(x), "__int__", None)
        return f(x) if f else builtins.int(x, *a)


class ShimInt(metaclass=_IntMeta):
    pass


def sym_divmod(a, b):
    if isinstance(a, (SymInt, SymFloat)) or isinstance(b, (SymInt, SymFloat)):
        if isinstance(a, (int, float, SymInt)) and isinstance(b, (int, float, SymInt)):
            return sym_floordiv(a, b), sym_mod(a, b)
    return divmod(a, b)


def sym_floordiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = lift_float(a), lift_float(b)
        if b.kind == "fin" and ctx().branch(b.r == 0):
            raise ZeroDivisionError("float floor division by zero")
        if a.kind != "fin" or b.kind == "nan":
            return SymFloat.special("nan")
        if b.kind != "fin":
            # python: sign-dependent; x // inf is 0.0 or -1.0
            s = a._sgn() * b.sign_inf
            return lift_float(-1.0 if s < 0 else 0.0)
        return SymFloat.finite(z3.ToReal(z3.ToInt(a.r / b.r)))
    return SymInt(SymInt._fdiv(iterm(a), iterm(b))[0])


def sym_mod(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = lift_float(a), lift_float(b)
        if b.kind == "fin" and ctx().branch(b.r == 0):
            raise ZeroDivisionError("float modulo")
        if a.kind != "fin" or b.kind == "nan":
            return SymFloat.special("nan")
        if b.kind != "fin":
            s = a._sgn() * b.sign_inf
            return b if s < 0 else a
        q = z3.ToReal(z3.ToInt(a.r / b.r))
        return SymFloat.finite(a.r - q * b.r)
    return SymInt(SymInt._fdiv(iterm(a), iterm(b))[1])


SymFloat.__floordiv__ = lambda a, b: sym_floordiv(a, b) if SymFloat._ok(b) else NotImplemented
SymFloat.__rfloordiv__ = lambda a, b: sym_floordiv(b, a) if SymFloat._ok(b) else NotImplemented
SymFloat.__mod__ = lambda a, b: sym_mod(a, b) if SymFloat._ok(b) else NotImplemented
SymFloat.__rmod__ = lambda a, b: sym_mod(b, a) if SymFloat._ok(b) else NotImplemented
SymFloat.__divmod__ = lambda a, b: (a // b, a % b) if SymFloat._ok(b) else NotImplemented
SymFloat.__rdivmod__ = lambda a, b: (b // a, b % a) if SymFloat._ok(b) else NotImplemented
SymInt.__divmod__ = lambda a, b: (sym_floordiv(a, b), sym_mod(a, b)) if SymFloat._ok(b) else NotImplemented
SymInt.__rdivmod__ = lambda a, b: (sym_floordiv(b, a), sym_mod(b, a)) if SymFloat._ok(b) else NotImplemented
SymInt.__floordiv__ = lambda a, b: sym_floordiv(a, b) if SymFloat._ok(b) else NotImplemented
SymInt.__mod__ = lambda a, b: sym_mod(a, b) if SymFloat._ok(b) else NotImplemented
SymInt.__rfloordiv__ = lambda a, b: sym_floordiv(b, a) if SymFloat._ok(b) else NotImplemented
SymInt.__rmod__ = lambda a, b: sym_mod(b, a) if SymFloat._ok(b) else NotImplemented


def sym_pow(a, b):
    raise engine.Inconclusive("power with symbolic operands")


def _guard(cls, names):
    for n in names:
        def f(self, *a, _n=n):
            raise engine.Inconclusive(f"{cls.__name__}.{_n} is not modelled")
        setattr(cls, n, f)


_guard(SymInt, ["__and__", "__or__", "__xor__", "__lshift__", "__rshift__", "__rand__", "__ror__", "__invert__",
                "bit_length", "to_bytes", "__complex__"])
_guard(SymFloat, ["hex", "as_integer_ratio", "__rpow__"])

numbers.Integral.register(SymInt)


def sym_round(x, n=None):
    return x.__round__(n) if n is not None else x.__round__() if hasattr(type(x), "__round__") else round(x)


NUM_SHADOW = {"math": MathShim(), "float": ShimFloat, "int": ShimInt, "divmod": sym_divmod, "hash": sym_hash}
