"""reference model of query plans"""
import copy
import math

from vx.sym import And, SymFloat, SymInt

from postbound import ColumnReference, TableReference
from postbound._core import Cardinality, JoinOperator as JO, ScanOperator as SO
from postbound._qep import QueryPlan

TABS = [TableReference(x) for x in "rstuvw"]
COLS = [ColumnReference("a", t) for t in TABS]


class N:
    """reference plan node"""

    def __init__(self, op, kids=(), table=None, name=None, sub=None):
        self.op, self.kids, self.table, self.name, self.sub = op, list(kids), table, name or op.name, sub
        self.est = self.cost = self.act = self.time = math.nan
        self.extra, self.pred, self.workers = {}, None, 0

    scan = property(lambda s: isinstance(s.op, SO))
    join = property(lambda s: isinstance(s.op, JO))

    def nodes(self, sub=False):
        return [self] + [x for k in self.kids for x in k.nodes(sub)] + (self.sub.nodes(sub) if sub and self.sub else [])

    def tables(self):
        return ({self.table} if self.table else set()) | {t for k in self.kids for t in k.tables()} | (self.sub.tables() if self.sub else set())

    def joins(self):
        return [n for n in self.nodes() if n.join]

    def branch(self):
        return self.scan or len(self.kids) == 1 and self.kids[0].branch()

    def real(self):
        kw = {} if not self.sub else {"subplan_root": self.sub.real(), "subplan_target_name": ""}
        ex = self.extra if not self.pred else {**self.extra, "filter_predicate": self.pred}
        return QueryPlan(self.op if self.op else self.name, children=[k.real() for k in self.kids], base_table=self.table, parallel_workers=self.workers or None,
                         estimated_cardinality=self.est if isinstance(self.est, Cardinality) else Cardinality(self.est), estimated_cost=self.cost,
                         actual_cardinality=self.act if isinstance(self.act, Cardinality) else Cardinality(self.act), execution_time=self.time, **kw, **ex)

    def map(self, f):
        r = copy.copy(self)
        r.kids, r.sub = [k.map(f) for k in self.kids], self.sub.map(f) if self.sub else None
        f(r)
        return r

    def key(self):
        return f"{self.name}({self.table or ''}{', '.join(k.key() for k in self.kids)}{' sub ' + self.sub.key() if self.sub else ''})"


def nan(v):
    return v.kind == "nan" if isinstance(v, SymFloat) else not isinstance(v, (SymInt, Cardinality)) and v != v


def val(v):
    """extended number of a Cardinality or number"""
    if isinstance(v, Cardinality):
        return math.nan if v.isnan() else math.inf if v.isinf() else v.value
    return v


def eqn(a, b):
    a, b = val(a), val(b)
    return nan(a) and nan(b) if nan(a) or nan(b) else a == b


def matches(p, r):
    c = [p.node_type == r.name and p.operator is r.op and p.base_table == r.table and p.get("tag") == r.extra.get("tag") and len(p.children) == len(r.kids) and (p.subplan is None) == (r.sub is None)
         and p.parallel_workers == r.workers and p.filter_predicate == r.pred,
         isinstance(p.estimated_cardinality, Cardinality) and isinstance(p.actual_cardinality, Cardinality),
         eqn(p.estimated_cardinality, r.est), eqn(p.estimated_cost, r.cost), eqn(p.actual_cardinality, r.act), eqn(p.execution_time, r.time),
         bool(p.is_analyze()) == (not nan(r.act) or not nan(r.time))]
    c += [matches(k, x) for k, x in zip(p.children, r.kids)] + ([matches(p.subplan.root, r.sub)] if p.subplan and r.sub else [])
    return And(True, *c)
