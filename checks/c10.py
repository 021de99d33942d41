"""C10: equivalence classes of equijoins and the predicates that follow from them."""
import itertools

from vx import qalgen as B, sqlcheck as K, sqlsem as S
from vx.engine import Harness

from checks.c09 import Classes, E, Slots, fresh
from postbound import qal, transform
from postbound.qal import (BetweenPredicate, BinaryPredicate, CompoundOperator as CO, CompoundPredicate, InPredicate, LogicalOperator as LO, UnaryPredicate)

LEVEL = "model_checking"
ASSUMPTIONS = ["only equality comparisons of two plain columns that hold for all rows (top-level conjuncts) imply further equalities",
               "table names are arbitrary but fixed-length atoms; semantics of SQL as in vx/sqlsem.py"]
F = ["postbound.qal.determine_join_equivalence_classes", "postbound.qal.generate_predicates_for_equivalence_classes", "postbound.transform.add_ec_predicates"]


def components(pairs):
    comps = []
    for p in pairs:
        hit = [c for c in comps if c & p]
        comps = [c for c in comps if not c & p] + [frozenset(p).union(*hit)]
    return set(comps)


# ---------------------------------------------------------------- classes over arbitrary tables
def other(kind, slots):
    """predicates that do not make their columns equal"""
    a, b = E(slots.col()), E(slots.col())
    plus = lambda x: qal.MathExpression(qal.MathOperator.Add, x, B.const(1))
    return {"lt": lambda: BinaryPredicate(LO.Less, a, b), "plus": lambda: BinaryPredicate(LO.Equal, plus(a), b), "rplus": lambda: BinaryPredicate(LO.Equal, a, plus(b)),
            "in": lambda: InPredicate(a, [b]), "between": lambda: BetweenPredicate(a, (b, b)), "filter": lambda: BinaryPredicate(LO.Equal, a, B.const(1)),
            "cast": lambda: BinaryPredicate(LO.Equal, qal.CastExpression(a, "int"), b),
            "like": lambda: BinaryPredicate(LO.Like, a, b), "udf": lambda: UnaryPredicate(qal.FunctionExpression("udf", [a, b])),
            "sub": lambda: BinaryPredicate(LO.Equal, a, qal.SubqueryExpression(B.select(qal.FunctionExpression("max", [b]), frm=("x",))))}[kind]()


def classes(n, kinds):
    def body(ctx):
        slots = Slots(ctx)
        fresh()
        m = ctx.choose("n", n + 1)
        cols = [(slots.col(), slots.col()) for _ in range(m)]
        preds = [BinaryPredicate(LO.Equal, E(a), E(b)) for a, b in cols]
        k = ctx.pick("other", kinds) if m < n else "none"
        if k != "none":
            preds.insert(ctx.choose("at", 2) * len(preds), other(k, slots))
        got = list(qal.determine_join_equivalence_classes(preds if ctx.choose("set", 2) == 0 else iter(preds)))
        cl = Classes()
        exp = components({frozenset([cl.col(a), cl.col(b)]) for a, b in cols if cl.tab(a.table) != cl.tab(b.table)})
        key = f"{m}{k}/" + "".join("abcdefghij"[cl.tab(c.table)] for ab in cols for c in ab)
        ctx.reach(f"{len(exp)} classes")
        ctx.check({frozenset(cl.col(c) for c in g) for g in got} == exp and len(got) == len(exp), "the classes are the columns connected by equalities", key=key)
        ctx.check(all(len({cl.col(c) for c in g}) == len(g) for g in got), "a class has no duplicates", key=key)
        fresh()
        made = list(qal.generate_predicates_for_equivalence_classes(set(got)))
        exp = {frozenset(p) for c in exp for p in itertools.combinations(c, 2)}
        ok = all(isinstance(p, BinaryPredicate) and p.operation == LO.Equal and isinstance(p.first_argument, qal.ColumnExpression)
                 and isinstance(p.second_argument, qal.ColumnExpression) for p in made)
        ctx.check(ok, "generated predicates compare columns", key=key)
        prs = [frozenset([cl.col(p.first_argument.column), cl.col(p.second_argument.column)]) for p in made]
        ctx.check(len(prs) == len(exp) and set(prs) == exp, "every pair of a class is compared exactly once", key=key)
    return body


# ---------------------------------------------------------------- queries keep their meaning
def eq(a, b):
    return BinaryPredicate(LO.Equal, a, b)


POOL = {
    "ra=sa": lambda: eq(B.cexp("r", "a"), B.cexp("s", "a")),
    "sa=tb": lambda: eq(B.cexp("s", "a"), B.cexp("t", "b")),
    "td=sc": lambda: eq(B.cexp("t", "d"), B.cexp("s", "c")),
    "rb=tb": lambda: eq(B.cexp("r", "b"), B.cexp("t", "b")),
    "ra=rb": lambda: eq(B.cexp("r", "a"), B.cexp("r", "b")),
    "ra<sa": lambda: BinaryPredicate(LO.Less, B.cexp("r", "a"), B.cexp("s", "a")),
    "ra+1=tb": lambda: eq(qal.MathExpression(qal.MathOperator.Add, B.cexp("r", "a"), B.const(1)), B.cexp("t", "b")),
    "sc=1": lambda: eq(B.cexp("s", "c"), B.const(1)),
    "in": lambda: InPredicate(B.cexp("r", "b"), [B.cexp("s", "c"), B.const(2)]),
    "not": lambda: CompoundPredicate(CO.Not, eq(B.cexp("r", "b"), B.cexp("s", "c"))),
    "or": lambda: CompoundPredicate(CO.Or, [eq(B.cexp("r", "b"), B.cexp("s", "c")), eq(B.cexp("r", "a"), B.const(1))]),
    "orj": lambda: CompoundPredicate(CO.Or, [eq(B.cexp("r", "b"), B.cexp("s", "c")), eq(B.cexp("r", "a"), B.cexp("t", "b"))]),
    "and": lambda: CompoundPredicate(CO.And, [eq(B.cexp("s", "a"), B.cexp("t", "b")), eq(B.cexp("r", "b"), B.cexp("s", "a"))]),
    "notand": lambda: CompoundPredicate(CO.Not, CompoundPredicate(CO.And, [eq(B.cexp("r", "a"), B.cexp("s", "c")), eq(B.cexp("r", "b"), B.cexp("s", "c"))])),
}


def flat(p):
    return [x for c in p.children for x in flat(c)] if isinstance(p, CompoundPredicate) and p.operation == CO.And else [p]


def add(n):
    def body(ctx):
        m = 1 + ctx.choose("n", n)
        names, i = [], 0
        pool = list(POOL)
        while len(names) < m:
            rest = pool[i:]
            if not rest:
                break
            k = ctx.choose(f"p{len(names)}", len(rest))
            names.append(rest[k])
            i += k + 1
        preds = [POOL[x]() for x in names]
        cond = preds[0] if len(preds) == 1 else CompoundPredicate(CO.And, preds)
        extra = {"none": {}, "all": dict(o=qal.OrderBy([qal.OrderByExpression(B.cexp("r", "a"))]), h=qal.Hint(query_hints="Foo(r)"), l=qal.Limit(limit=2))}
        q = B.select([B.cexp("r", "a"), B.cexp("s", "c"), B.cexp("t", "d")], frm=("r", "s", "t"), where=cond,
                     **extra[ctx.pick("extra", list(extra))])
        fresh()
        key = " & ".join(names)
        res = transform.add_ec_predicates(q)
        db = K.db_for(ctx, rows=1)
        ctx.check(S.equivalent(ctx, db, S.from_qal(q), S.from_qal(res)), "the query keeps its meaning", key=key)
        ctx.check([str(c) for c in res.clauses() if not isinstance(c, qal.Where)] == [str(c) for c in q.clauses() if not isinstance(c, qal.Where)],
                  "the other clauses stay as they are", key=key)
        pair = lambda p: frozenset(p.columns()) if isinstance(p, BinaryPredicate) and p.operation == LO.Equal and all(
            isinstance(x, qal.ColumnExpression) for x in (p.first_argument, p.second_argument)) else None
        have = [pair(p) for p in flat(res.where_clause.predicate) if pair(p)]
        given = [pair(p) for p in flat(cond) if pair(p)]
        want = {frozenset(x) for c in components({p for p in given if len({c.table for c in p}) > 1}) for x in itertools.combinations(c, 2)}
        ctx.reach("derived" if want - set(given) else "nothing new")
        ctx.check(want <= set(have), "all equalities that follow are part of the query", key=key)
        ctx.check(set(have) <= want | set(given), "no other equalities are added", key=key)
        nowhere = B.select(B.cexp("r", "a"))
        ctx.check(transform.add_ec_predicates(nowhere) == nowhere, "queries without predicates stay as they are", key=key)
    return body


def harnesses(tier):
    t = tier == "thorough"
    return [Harness("classes", classes(4 if t else 3, ["none", "plus", "lt", "in", "filter"] if not t else
                                       ["none", "lt", "plus", "rplus", "in", "between", "filter", "cast", "like", "udf", "sub"]), functions=F, must_reach=["0 classes", "1 classes", "2 classes"],
                    bounds=f"up to {4 if t else 3} equalities between columns of arbitrary tables (every way in which the tables coincide), mixed with one other predicate"),
            Harness("others", classes(2, ["none", "lt", "plus", "rplus", "in", "between", "filter", "cast", "like", "udf", "sub"]), functions=F,
                    bounds="one equality mixed with one of 10 other kinds of predicates"),
            Harness("add", add(4 if t else 3), functions=F, must_reach=["derived", "nothing new"],
                    bounds=f"conjunctions of up to {4 if t else 3} of {len(POOL)} predicates over three tables with one row of arbitrary content each")]
