"""C03: table and column references identify what they refer to."""
import copy
import json
import pickle

from vx.engine import Harness
from vx.sym import And, Iff, Implies, Not, Or, Shadow, SymBool, hash_term, sym_hash

import postbound._core as core
from postbound import util
from postbound._core import BoundColumnReference, ColumnReference, TableReference
from postbound.parser import load_column_json, load_table_json

LEVEL = "model_checking"
ASSUMPTIONS = ["identifiers are compared case-insensitively (ASCII letters) as documented for normalize()",
               "hash() of primitive values is an arbitrary function; tuple hashes depend on the element hashes only"]
SH = Shadow({core: {"hash": sym_hash}})
F = ["TableReference." + x for x in ("__eq__", "__hash__", "__lt__", "update", "with_alias", "drop_alias", "make_virtual", "identifier", "__json__")] + \
    ["ColumnReference." + x for x in ("__new__", "__eq__", "__hash__", "__lt__", "bind_to", "as_unbound", "belongs_to", "drop_table_alias", "__json__")] + \
    ["postbound.parser.load_table_json", "postbound.parser.load_column_json"]


def asciichar(c):
    return c < 128


def name(ctx, n, optional=False, length=2):
    k = ctx.choose(n + ".len", length + 1) if optional else ctx.choose(n + ".len", length) + 1
    return ctx.str(n, k, lo=1, hi=127) if k else ""


def table(ctx, n, length=1, schema=True):
    """(table, full name, alias, schema, virtual)"""
    full = name(ctx, n + ".full", True, length)
    alias = name(ctx, n + ".alias", not (len(full) == 0), length)
    sch = name(ctx, n + ".schema", True, length) if schema and len(full) else ""
    virt = ctx.pick(n + ".virtual", [False, True])
    return TableReference(full, alias, virtual=virt, schema=sch), full, alias, sch, virt


def low(s):
    return s.lower()


def same_hash(ctx, a, b):
    return SymBool(hash_term(a) == hash_term(b)) if ctx.symbolic else hash(a) == hash(b)


def table_eq(ctx):
    a, f1, a1, s1, _ = table(ctx, "a")
    b, f2, a2, s2, _ = table(ctx, "b")
    exp = And(low(f1) == low(f2), low(a1) == low(a2), low(s1) == low(s2))
    got = a == b
    ctx.check(Iff(got, exp), "tables are equal iff name, alias and schema agree", key="table ==")
    ctx.check(Iff(a != b, Not(got)), "!= is the negation", key="table !=")
    ctx.check(Iff(b == a, got), "symmetric", key="table == symmetric")
    if got:
        ctx.reach("equal")
        ctx.check(same_hash(ctx, a, b), "equal tables hash alike", key="table hash")
    i1, i2 = low(a1 or f1), low(a2 or f2)
    ctx.check(Implies(i1 < i2, a < b), "ordered by identifier", key="table <")
    ctx.check(Iff(Or(a < b, b < a), Not(got)), "< is total and excludes equality", key="table < total")
    ctx.check(Not(And(a < b, b < a)), "< is asymmetric", key="table < asymmetric")


def table_ops(ctx):
    t, f, a, s, v = table(ctx, "t", 2)
    ctx.check(And(t.full_name == f, t.alias == a, t.schema == s, t.virtual == v), "the parts are kept", key="parts")
    ctx.check(t.identifier() == (a if len(a) else f), "identifier is the alias, else the name", key="identifier")

    def has(x, f, a, s, v, what):
        ctx.check(And(x.full_name == f, x.alias == a, x.schema == s, x.virtual == v), what, key=what)
    if len(f):
        has(t.with_alias("n"), f, "n", s, v, "with_alias changes only the alias")
    if not v:
        has(t.drop_alias(), f, "", s, False, "drop_alias changes only the alias") if len(f) else None
    has(t.make_virtual(), f, a, s, True, "make_virtual changes only the flag")
    has(t.update(), f, a, s, v, "update() without arguments changes nothing")
    if len(f):
        has(t.update(alias="n"), f, "n", s, v, "update(alias) changes only the alias")
        has(t.update(schema="n"), f, a, "n", v, "update(schema) changes only the schema")
        has(t.update(schema=""), f, a, "", v, "update can remove the schema")
        has(t.update(alias=""), f, "", s, v, "update can remove the alias")
    has(t.update(virtual=not v), f, a, s, not v, "update(virtual) changes only the flag")
    has(t.update(full_name="n"), "n", a, s, v, "update(full_name) changes only the name")
    has(copy.copy(t), f, a, s, v, "copy")
    has(load_table_json(t.__json__()), f, a, s, v, "JSON")
    ctx.reach("ops")


def column(ctx, n, length=1):
    nm = name(ctx, n + ".name", False, length)
    if ctx.pick(n + ".bound", [False, True]):
        t = table(ctx, n, 1, schema=False)
        return ColumnReference(nm, t[0]), nm, t[0]
    return ColumnReference(nm), nm, None


def column_eq(ctx):
    a, n1, t1 = column(ctx, "a")
    b, n2, t2 = column(ctx, "b")
    sametab = (t1 is None and t2 is None) or (t1 is not None and t2 is not None and t1 == t2)
    got = a == b
    ctx.check(Iff(got, And(low(n1) == low(n2), sametab)), "columns are equal iff name and table agree", key="column ==")
    ctx.check(Iff(b == a, got), "symmetric", key="column == symmetric")
    if got:
        ctx.reach("equal")
        ctx.check(same_hash(ctx, a, b), "equal columns hash alike", key="column hash")
    ctx.check(Iff(Or(a < b, b < a), Not(got)), "< is total and excludes equality", key="column < total")
    ctx.check(Not(And(a < b, b < a)), "< is asymmetric", key="column < asymmetric")
    if sametab:
        ctx.check(Iff(a < b, low(n1) < low(n2)), "columns of one table are ordered by name", key="column <")
    elif t1 is not None and t2 is not None:
        ctx.check(Implies(t1 < t2, a < b), "columns are ordered by table", key="column < table")


def column_trans(ctx):
    """three columns over tables r, R, r AS x, s AS r, unbound"""
    tabs = [None, TableReference("r"), TableReference("R"), TableReference("s", "r"), TableReference("s"), TableReference("r", schema="x")]
    cs = [ColumnReference(ctx.str(n, 1, lo=65, hi=99), ctx.pick(n + "t", tabs)) for n in "abc"]
    a, b, c = cs
    ctx.check(Implies(And(a < b, b < c), a < c), "< is transitive", key="column < transitive")
    ctx.check(Implies(And(a == b, b == c), a == c), "== is transitive", key="column == transitive")
    ctx.check(Implies(And(a == b, b < c), a < c), "< respects ==", key="column < respects ==")
    ctx.check(len({a, b, c}) == len([x for i, x in enumerate(cs) if not any(x == y for y in cs[:i])]), "sets of columns", key="set")


def column_ops(ctx):
    c, n, t = column(ctx, "c", 2)
    ctx.check(c.name == n, "name is kept", key="name")
    ctx.check(c.is_bound() == (t is not None), "is_bound", key="is_bound")
    ctx.check(isinstance(c, BoundColumnReference) == (t is not None), "bound columns have the bound type", key="bound type")
    ctx.check(ColumnReference.assert_bound(c) == (t is not None), "assert_bound", key="assert_bound")
    other = TableReference("o", ctx.str("oa", 1, lo=65, hi=99))
    if t is not None:
        ctx.check(c.table == t, "table is kept", key="table")
        ctx.check(c.belongs_to(t), "belongs to its table", key="belongs_to")
        ctx.check(Iff(c.belongs_to(other), t == other), "does not belong to other tables", key="belongs_to other")
        if not t.virtual and len(t.full_name):
            d = c.drop_table_alias()
            ctx.check(And(d.name == n, d.table.full_name == t.full_name, d.table.alias == ""), "drop_table_alias", key="drop_table_alias")
    else:
        ctx.check(Not(c.belongs_to(other)), "unbound columns belong to no table", key="belongs_to none")
        ctx.check(c.drop_table_alias() == c, "drop_table_alias of unbound columns", key="drop_table_alias unbound")
    b = c.bind_to(other)
    ctx.check(And(b.name == n, b.table == other), "bind_to binds", key="bind_to")
    ctx.check(And(b.is_bound(), isinstance(b, BoundColumnReference)), "bind_to yields a bound column", key="bind_to type")
    u = c.as_unbound()
    ctx.check(And(u.name == n, not u.is_bound(), u == ColumnReference(n)), "as_unbound", key="as_unbound")
    for k, d in (("copy", copy.copy(c)), ("deepcopy", copy.deepcopy(c))):
        ctx.check(And(d == c, d.name == c.name), k, key=k)
        ctx.check(type(d) is type(c), k + " keeps the type", key=k + " type")
    ctx.reach("ops")


NAMES = ["a", "A", "a b", 'q"x', "é", "select"]


def serialized(ctx):
    """JSON text and pickles (concrete names: the C encoders see no terms)"""
    f, a, s = ctx.pick("f", NAMES), ctx.pick("a", ["", "x", "X y"]), ctx.pick("s", ["", "pub", "S 1"])
    v = ctx.pick("v", [False, True])
    t = TableReference(f, a, virtual=v, schema=s)
    for how, x in (("json", load_table_json(util.to_json(t))), ("jsondict", load_table_json(json.loads(util.to_json(t)))),
                   ("pickle", pickle.loads(pickle.dumps(t))), ("deepcopy", copy.deepcopy(t)), ("copy", copy.copy(t))):
        ctx.check((x.full_name, x.alias, x.schema, x.virtual) == (f, a, s, v), f"{how} of a table", key=f"table {how}")
        ctx.check(x == t and hash(x) == hash(t) and str(x) == str(t), f"{how} of a table: equal", key=f"table {how} eq")
    for c in (ColumnReference(f, t), ColumnReference(f)):
        for how, x in (("json", load_column_json(util.to_json(c))), ("pickle", pickle.loads(pickle.dumps(c))), ("deepcopy", copy.deepcopy(c))):
            ctx.check(x == c and hash(x) == hash(c) and str(x) == str(c) and x.name == c.name, f"{how} of a column", key=f"column {how}")
            ctx.check(type(x) is type(c), f"{how} of a column keeps its type", key=f"column {how} type")
            if c.table is not None:
                y = x.table
                ctx.check((y.full_name, y.alias, y.schema, y.virtual) == (f, a, s, v), f"{how} keeps the table", key=f"column {how} table")
    ctx.reach("serialized")


def harnesses(tier):
    n = "names: every ASCII string of length 0..1"
    o = dict(shadow=SH, functions=F)
    return [
        Harness("table_eq", table_eq, bounds=f"two tables; {n}, with or without alias and schema, virtual or not", must_reach=["equal"], **o),
        Harness("table_ops", table_ops, bounds="one table; names: every ASCII string of length 0..2", must_reach=["ops"], **o),
        Harness("column_eq", column_eq, bounds=f"two columns, bound or not; {n}", must_reach=["equal"], **o),
        Harness("column_trans", column_trans, bounds="three columns with one-letter names over six tables", **o),
        Harness("column_ops", column_ops, bounds="one column; names of length 1..2", must_reach=["ops"], **o),
        Harness("serialized", serialized, bounds="6 names x 3 aliases x 3 schemas (enumerated)", functions=F, must_reach=["serialized"]),
    ]
