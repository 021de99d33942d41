"""Regular expressions over symbolic strings of fixed length: the parsed pattern becomes a z3 term."""
import re
import re._constants as C
import re._parser as P

import z3

from .sym import SymBool, SymStr, lift_chars
from . import engine


def _cls(c, items, ignorecase):
    neg, ts = False, []
    for op, a in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            ts.append(_lit(c, a, ignorecase))
        elif op is C.RANGE:
            ts.append(_rng(c, a[0], a[1], ignorecase))
        elif op is C.CATEGORY:
            ts.append(_cat(c, a))
        else:
            raise engine.Inconclusive(f"character class {op}")
    t = z3.Or(ts) if ts else z3.BoolVal(False)
    return z3.Not(t) if neg else t


def _rng(c, lo, hi, ic):
    t = z3.And(c >= lo, c <= hi)
    if ic:
        t = z3.Or(t, z3.And(c >= 97, c <= 122, c - 32 >= lo, c - 32 <= hi), z3.And(c >= 65, c <= 90, c + 32 >= lo, c + 32 <= hi))
    return t


def _lit(c, a, ic):
    if ic and chr(a).isascii() and chr(a).isalpha():
        return z3.Or(c == ord(chr(a).lower()), c == ord(chr(a).upper()))
    return c == a


def _word(c):
    return z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90), z3.And(c >= 48, c <= 57), c == 95)


def _cat(c, a):
    digit = z3.And(c >= 48, c <= 57)
    space = z3.Or(c == 32, z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 31))
    return {C.CATEGORY_DIGIT: digit, C.CATEGORY_NOT_DIGIT: z3.Not(digit), C.CATEGORY_SPACE: space, C.CATEGORY_NOT_SPACE: z3.Not(space),
            C.CATEGORY_WORD: _word(c), C.CATEGORY_NOT_WORD: z3.Not(_word(c))}[a]


def ends(items, cs, i, flags):
    """{end position: condition} of matching items from position i (language view: any alternative may match)"""
    cur = {i: z3.BoolVal(True)}
    for op, a in items:
        nxt = {}
        for j, g in cur.items():
            for k, h in one(op, a, cs, j, flags).items():
                h = z3.And(g, h)
                nxt[k] = z3.Or(nxt[k], h) if k in nxt else h
        cur = {k: v for k, v in nxt.items() if not z3.is_false(z3.simplify(v))}
    return cur


def one(op, a, cs, i, flags):
    ic = bool(flags & re.I)
    c = cs[i] if i < len(cs) else None
    if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
        if c is None:
            return {}
        if op is C.LITERAL:
            return {i + 1: _lit(c, a, ic)}
        if op is C.NOT_LITERAL:
            return {i + 1: z3.Not(_lit(c, a, ic))}
        if op is C.ANY:
            return {i + 1: z3.BoolVal(True) if flags & re.S else c != 10}
        return {i + 1: _cls(c, a, ic)}
    if op is C.AT:
        n = len(cs)
        if a in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return {i: z3.BoolVal(i == 0) if not (flags & re.M and i > 0 and a is C.AT_BEGINNING) else cs[i - 1] == 10}
        if a is C.AT_END_STRING:
            return {i: z3.BoolVal(i == n)}
        if a is C.AT_END:
            if i == n:
                return {i: z3.BoolVal(True)}
            return {i: cs[i] == 10} if i == n - 1 or flags & re.M else {}
        if a in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            l = _word(cs[i - 1]) if i > 0 else z3.BoolVal(False)
            r = _word(cs[i]) if i < n else z3.BoolVal(False)
            return {i: z3.Xor(l, r) if a is C.AT_BOUNDARY else z3.Not(z3.Xor(l, r))}
        raise engine.Inconclusive(f"anchor {a}")
    if op is C.BRANCH:
        out = {}
        for alt in a[1]:
            for k, h in ends(alt, cs, i, flags).items():
                out[k] = z3.Or(out[k], h) if k in out else h
        return out
    if op is C.SUBPATTERN:
        return ends(a[3], cs, i, flags | a[1] & ~a[2])
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, body = a
        out, cur, n = {}, {i: z3.BoolVal(True)}, 0
        while cur:
            if n >= lo:
                for k, h in cur.items():
                    out[k] = z3.Or(out[k], h) if k in out else h
            if n >= hi or n > len(cs) + lo:
                break
            nxt = {}
            for j, g in cur.items():
                for k, h in ends(body, cs, j, flags).items():
                    if k == j and n >= lo:
                        continue
                    h = z3.And(g, h)
                    nxt[k] = z3.Or(nxt[k], h) if k in nxt else h
            cur, n = nxt, n + 1
        return out
    if op is C.ASSERT or op is C.ASSERT_NOT:
        direction, body = a
        if direction < 0:
            raise engine.Inconclusive("lookbehind")
        es = ends(body, cs, i, flags)
        t = z3.Or(list(es.values())) if es else z3.BoolVal(False)
        return {i: t if op is C.ASSERT else z3.Not(t)}
    raise engine.Inconclusive(f"regular expression {op}")


class Match:
    """only its truth matters"""

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return bool(SymBool(self.cond))


class Pattern:
    def __init__(self, p):
        self.real = p
        self.tree = P.parse(p.pattern, p.flags & ~re.U)

    def _cond(self, s, kind):
        cs = lift_chars(s)
        starts = range(len(cs) + 1) if kind == "search" else [0]
        out = []
        for i in starts:
            es = ends(list(self.tree), cs, i, self.real.flags)
            out += [h for k, h in es.items() if kind != "fullmatch" or k == len(cs)]
        c = z3.Or(out) if out else z3.BoolVal(False)
        return Match(c) if bool(SymBool(c)) else None

    def __getattr__(self, name):
        real = getattr(self.real, name)
        if name in ("match", "fullmatch", "search"):
            return lambda s, *a: self._cond(s, name) if isinstance(s, SymStr) else real(s, *a)
        return real


class ReShim:
    def __getattr__(self, name):
        return getattr(re, name)

    @staticmethod
    def compile(p, flags=0):
        return Pattern(re.compile(p, flags))

    @staticmethod
    def match(p, s, flags=0):
        return ReShim.compile(p, flags).match(s) if isinstance(s, SymStr) else re.match(p, s, flags)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return ReShim.compile(p, flags).fullmatch(s) if isinstance(s, SymStr) else re.fullmatch(p, s, flags)

    @staticmethod
    def search(p, s, flags=0):
        return ReShim.compile(p, flags).search(s) if isinstance(s, SymStr) else re.search(p, s, flags)
