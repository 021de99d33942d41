"""C15: join trees are faithful binary trees over tables."""
from vx import jsonx
from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Iff, Not, Shadow

import postbound._core as core
from postbound import JoinTree, TableReference
from postbound._core import Cardinality
from postbound.util import StateError
from postbound._hints import LogicalJoinTree
from postbound.opt._helpers import jointree_from_sequence, parse_nested_table_sequence, read_jointree_json

LEVEL = "model_checking"
ASSUMPTIONS = ["annotations are arbitrary integers (generic trees) or finite cardinalities (logical trees)", "each table occurs once in a join tree",
               "the order of nodes that iternodes()/iterjoins() promise is: everything from the outer input before everything from the inner input"]
SH = Shadow({core: NUM_SHADOW})
F = ["JoinTree." + x for x in ("scan", "join", "empty", "base_table", "outer_child", "inner_child", "children", "annotation", "is_empty", "is_join", "is_scan", "is_linear", "is_bushy",
     "is_base_join", "tables", "plan_depth", "lookup", "update_annotation", "join_with", "iternodes", "itertables", "iterjoins", "__json__", "__contains__", "__len__", "__eq__", "__hash__")] + [
    "LogicalJoinTree", "jointree_from_sequence", "read_jointree_json", "postbound.parser.load_table_json"]

TABS = [TableReference("r", "r1"), TableReference("r", "r2"), TableReference("s", schema="pub"), TableReference("s"), TableReference("T x"), TableReference.create_virtual("v")]


class Ref:
    def __init__(self, leaf=None, kids=(), ann=None):
        self.leaf, self.kids, self.ann = leaf, kids, ann

    def leaves(self):
        return [self.leaf] if not self.kids else [x for k in self.kids for x in k.leaves()]

    def nodes(self):
        return [self] + [x for k in self.kids for x in k.nodes()]

    def depth(self):
        return 1 + max([k.depth() for k in self.kids], default=0)

    def linear(self):
        return all(not n.kids or any(not k.kids for k in n.kids) for n in self.nodes())

    def struct(self):
        return str(self.leaf) if not self.kids else tuple(k.struct() for k in self.kids)


def shape(ctx, leaves, ann, n="s"):
    if len(leaves) == 1:
        return Ref(leaf=leaves[0], ann=ann())
    k = 1 + ctx.choose(n, len(leaves) - 1)
    return Ref(kids=(shape(ctx, leaves[:k], ann, n + "o"), shape(ctx, leaves[k:], ann, n + "i")), ann=ann())


def build(cls, r):
    return cls.scan(r.leaf, annotation=r.ann) if not r.kids else cls.join(build(cls, r.kids[0]), build(cls, r.kids[1]), annotation=r.ann)


def matches(cls, t, r):
    """t is exactly the tree r: types, structure and annotations"""
    if type(t) is not cls or t.is_empty() or bool(t.is_scan()) != (not r.kids) or t.is_join() == t.is_scan():
        return False
    ok = True if (t.annotation is None and r.ann is None) else t.annotation is not None and r.ann is not None and t.annotation == r.ann
    if not r.kids:
        return And(ok, t.base_table == r.leaf and t.base_table.virtual == r.leaf.virtual and tuple(t.children) == ())
    return And(ok, matches(cls, t.outer_child, r.kids[0]), matches(cls, t.inner_child, r.kids[1]),
               t.children[0] is t.outer_child and t.children[1] is t.inner_child and len(t.children) == 2)


def kinds(ctx):
    cls = ctx.pick("cls", [JoinTree, LogicalJoinTree])
    if cls is JoinTree:
        return cls, lambda: ctx.int("ann", 0, 1000)
    return cls, lambda: Cardinality(ctx.int("card", 0, 1000))


def structure(nmax):
    def body(ctx):
        cls, ann = kinds(ctx)
        n = 1 + ctx.choose("n", nmax)
        r = shape(ctx, TABS[:n], ann)
        t = build(cls, r)
        k = str(r.struct())
        ctx.check(matches(cls, t, r), "nodes, inputs and annotations", key=k)
        nodes = {frozenset(x.leaves()): x for x in r.nodes()}
        ctx.check(t.tables() == set(r.leaves()) and len(t) == n and bool(t), "tables", key=k)
        ctx.check(list(t.itertables()) == r.leaves(), "itertables lists outer tables first", key=k)
        ctx.check(t.plan_depth() == r.depth(), "depth", key=k)
        ctx.check(bool(t.is_linear()) == r.linear() and bool(t.is_bushy()) != r.linear(), "linear iff every join has a base table as input", key=k)
        ctx.check(bool(t.is_base_join()) == (n == 2), "base join iff both inputs are scans", key=k)
        for name, got, exp in (("iternodes", list(t.iternodes()), r.nodes()), ("iterjoins", list(t.iterjoins()), [x for x in r.nodes() if x.kids])):
            sets = [frozenset(x.tables()) for x in got]
            ctx.check(len(sets) == len(set(sets)) == len(exp) and set(sets) == {frozenset(x.leaves()) for x in exp}, f"{name} has every node once", key=k)
            for x, y in zip(got, sets):
                ctx.check(matches(cls, x, nodes[y]), f"{name} provides the nodes", key=k)
            for x in exp:
                if x.kids:
                    o, i = (set(q.leaves()) for q in x.kids)
                    last, first = [j for j, s in enumerate(sets) if s <= o], [j for j, s in enumerate(sets) if s <= i]
                    ctx.check(not last or not first or max(last) < min(first), f"{name}: outer nodes come first", key=k)
        if cls is LogicalJoinTree:
            ctx.check(t.cardinality == r.ann, "cardinality is the annotation", key=k)
        ctx.check(str(t).count("⋈") == n - 1, "str()", key=k)
        ctx.check(t.inspect().count("\n") + 1 == 2 * n - 1, "inspect() has a line per node", key=k)
        ctx.reach("linear" if r.linear() else "bushy")
    return body


def lookup(nmax):
    def body(ctx):
        cls, ann = kinds(ctx)
        n = 1 + ctx.choose("n", nmax)
        r = shape(ctx, TABS[:n], ann)
        t = build(cls, r)
        sub = [x for i, x in enumerate(TABS[:n]) if ctx.choose(f"m{i}", 2)] + ([TABS[-1]] if ctx.choose("foreign", 2) else [])
        if not sub:
            return
        k = f"{sub} in {r.struct()}"
        exp = [x for x in r.nodes() if set(x.leaves()) == set(sub)]
        forms = [list(sub), tuple(reversed(sub)), frozenset(sub)] + ([sub[0]] if len(sub) == 1 else [])
        for f in forms:
            got = t.lookup(f)
            ctx.check(got is None if not exp else got is not None and matches(cls, got, exp[0]), "lookup finds exactly the node of the tables", key=k)
            ctx.check((f in t) == bool(exp), "containment", key=k)
        ctx.reach("hit" if exp else "miss")
    return body


def fails(f):
    try:
        f()
        return False
    except StateError:
        return True


def updates(ctx):
    cls, ann = kinds(ctx)
    n = 1 + ctx.choose("n", 4)
    k = ctx.choose("m", 3)
    a = shape(ctx, TABS[:n], ann) if ctx.choose("empty", 3) else None
    t = build(cls, a) if a else cls.empty()
    if a:
        v = ann()
        u = t.update_annotation(v)
        ctx.check(matches(cls, u, Ref(a.leaf, a.kids, v)), "update_annotation replaces the annotation of the root", key=str(a.struct()))
        ctx.check(matches(cls, t, a), "update_annotation does not modify the tree", key=str(a.struct()))
        ctx.check(t == u and hash(t) == hash(u), "annotations do not influence equality", key=str(a.struct()))
    else:
        ctx.check(not t and len(t) == 0 and t.is_empty() and t.tables() == set() and t.plan_depth() == 0 and not list(t.iternodes()) + list(t.itertables()) + list(t.iterjoins()), "empty trees")
        ctx.check(type(t) is cls and all(fails(f) for f in (lambda: t.annotation, lambda: t.base_table, lambda: t.outer_child, lambda: t.inner_child, lambda: t.children, lambda: t.is_linear(),
                                                         lambda: t.update_annotation(1))), "empty trees have no parts")
    direction = ctx.pick("dir", ["default", "inner", "outer"])
    kw = {} if direction == "default" else {"partner_direction": direction}
    pk = ctx.pick("partner", ["table", "tree", "none"])
    jann, pann = ann() if ctx.choose("jann", 2) else None, ann() if pk == "table" and ctx.choose("pann", 2) else None
    if pk == "table":
        b = Ref(leaf=TABS[5], ann=pann)
        arg = TABS[5]
    elif pk == "tree":
        b = shape(ctx, TABS[4:5 + min(k, 1)], ann, "p")
        arg = build(cls, b)
    else:
        b, arg = None, cls.empty()
    if pann is not None:
        kw["partner_annotation"] = pann
    if jann is not None:
        kw["annotation"] = jann
    res = t.join_with(arg, **kw)
    key = f"{a and a.struct()} {direction} {b and b.struct()}"
    if a is None or b is None:
        exp = a or b
        ctx.check(matches(cls, res, exp) if exp else res.is_empty(), "joining with an empty tree is the other one", key=key)
    else:
        ctx.check(matches(cls, res, Ref(kids=(b, a) if direction == "outer" else (a, b), ann=jann)), "join_with puts the partner on the requested side", key=key)
        if a.kids:
            ctx.check(fails(lambda: t.base_table), "joins have no base table", key=key)
        else:
            ctx.check(fails(lambda: t.outer_child) and fails(lambda: t.inner_child), "scans have no inputs", key=key)
        ctx.check(matches(cls, t, a), "join_with does not modify the tree", key=key)
    ctx.reach(pk)


def equality(ctx):
    cls, ann = kinds(ctx)
    n = 1 + ctx.choose("n", 4)
    a, b = shape(ctx, TABS[:n], ann, "a"), shape(ctx, [TABS[:n], TABS[:n][::-1], TABS[1:n + 1]][ctx.choose("perm", 3)], ann, "b")
    x, y = build(cls, a), build(cls, b)
    same = a.struct() == b.struct()
    ctx.check((x == y) == same and (x != y) != same, "equal iff same structure over the same tables", key=f"{a.struct()} {b.struct()}")
    ctx.check(not same or hash(x) == hash(y), "equal trees have equal hashes", key=f"{a.struct()} {b.struct()}")
    ctx.check((x == cls.empty()) is False and cls.empty() == cls.empty(), "the empty tree")
    ctx.reach("same" if same else "different")


def json(nmax):
    def body(ctx):
        cls, ann = kinds(ctx)
        n = 1 + ctx.choose("n", nmax)
        none = cls is JoinTree and ctx.choose("none", 2)
        special = ctx.pick("special", [None, float("inf")]) if cls is LogicalJoinTree else None
        r = shape(ctx, TABS[:n], (lambda: None) if none else (lambda: Cardinality(special)) if special else ann)
        res = read_jointree_json(jsonx.roundtrip(ctx, build(cls, r)))
        ctx.check(matches(cls, res, r), "JSON round trip", key=str(r.struct()))
        ctx.check(res == build(cls, r), "JSON round trip yields an equal tree", key=str(r.struct()))
        ctx.reach(cls.__name__)
    return body


def sequence(nmax):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = shape(ctx, TABS[:n], lambda: None)
        nest = lambda x: x.leaf if not x.kids else [nest(k) for k in x.kids]
        js = lambda x: {"full_name": x.leaf.full_name, "alias": x.leaf.alias} if not x.kids else [js(k) for k in x.kids]
        ctx.check(matches(JoinTree, jointree_from_sequence(nest(r)), r), "nested sequence to join tree", key=str(r.struct()))
        if all(not t.schema and not t.virtual for t in TABS[:n]):
            ctx.check(parse_nested_table_sequence(js(r)) == nest(r), "nested sequence from JSON", key=str(r.struct()))
    return body


def harnesses(tier):
    t = tier == "thorough"
    H = lambda n, b, bounds, reach: Harness(n, b, shadow=SH, functions=F, bounds=bounds + "; symbolic annotations", must_reach=reach)
    return [H("structure", structure(6 if t else 5), f"all binary trees of up to {6 if t else 5} tables", ["linear", "bushy"]),
            H("lookup", lookup(5 if t else 4), f"all binary trees of up to {5 if t else 4} tables x all sets of tables", ["hit", "miss"]),
            H("updates", updates, "all binary trees of up to 4 tables x partners x directions", ["table", "tree", "none"]),
            H("equality", equality, "all pairs of trees of up to 4 tables, three orders of the tables", ["same", "different"]),
            H("json", json(5 if t else 4), "all binary trees", ["JoinTree", "LogicalJoinTree"]),
            H("sequence", sequence(6 if t else 5), "all binary trees", [])]
