"""decisions of an optimizer and an independent reader of the hint blocks that encode them"""
import math
import re
import warnings

from . import sym
from .planref import N, TABS, nan

from postbound._core import Cardinality, IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO
from postbound._hints import DirectionalJoinOperatorAssignment as DJ, JoinOperatorAssignment as JA, JoinTree, LogicalJoinTree, PhysicalOperatorAssignment as PA, PlanParameterization as PP, ScanOperatorAssignment as SA


def value(s):
    """the number that a piece of text denotes"""
    if s.startswith("\ue000"):
        return sym.TOKENS[s.strip("\ue000\ue001")]
    return int(s) if re.fullmatch(r"[0-9]+", s) else float(s)


def read(text, opening, closing="*/"):
    """name and arguments (words and nested lists) of each hint of a block"""
    text = text.strip()
    if not (text.startswith(opening) and text.endswith(closing)):
        return None
    toks = re.findall(r"[()]|,|=|'[^']*'|[^\s(),=]+", text[len(opening):-len(closing)])
    pos = 0

    def args():
        nonlocal pos
        assert toks[pos] == "("
        pos, res = pos + 1, []
        while toks[pos] != ")":
            if toks[pos] == "(":
                res.append(args())
            else:
                res.append(toks[pos])
                pos += 1
        pos += 1
        return res
    out = []
    while pos < len(toks):
        name = toks[pos]
        pos += 1
        out.append((name, args()))
    return out


def order_of(r):
    return r.table.identifier() if not r.kids else [order_of(k) for k in r.kids]


def skeleton(ctx, tabs, n="p"):
    if len(tabs) == 1:
        return N(SO.SequentialScan, table=tabs[0])
    k = 1 + ctx.choose(n, len(tabs) - 1)
    return N(JO.HashJoin, [skeleton(ctx, tabs[:k], n + "o"), skeleton(ctx, tabs[k:], n + "i")])


def tree_of(r, cls=JoinTree):
    return cls.scan(r.table) if not r.kids else cls.join(*(tree_of(k, cls) for k in r.kids))


def ids(r):
    return frozenset(t.identifier() for t in r.tables())


class Quiet:
    """records the warnings of a block"""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.log = self.cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.texts = [str(w.message) for w in self.log]
        return self.cm.__exit__(*a)


def same_map(got, exp):
    """equality of maps of (symbolic) numbers"""
    return sym.And(True, set(got) == set(exp), *(got[k] == exp[k] for k in exp if k in got))
