"""C25: the join graph reflects the joins of the query, and what it says about keys holds for every intermediate result."""
import itertools
import warnings

from vx.engine import Harness
from vx.sym import And, Not

from postbound import ColumnReference, TableReference, parse_query
from postbound.opt import IndexInfo, JoinGraph, JoinPath
from postbound.qal import CompoundPredicate

LEVEL = "model_checking"
ASSUMPTIONS = ["every column of a join is a unique (primary) key, has a secondary index or no index; a primary key is unique and never NULL",
               "tables are joined one after the other and each one has a join predicate with the intermediate result (joining separate intermediate results is outside)"]
F = ["postbound.opt._joingraph.JoinGraph", "postbound.opt._joingraph.IndexInfo", "postbound.opt._joingraph.JoinPath", "postbound.util.nx.nx_bfs_tree"]
warnings.simplefilter("ignore")

# query, binary joins (left, right, is equality), joins of more tables
GRAPHS = {
    "pair": ("SELECT * FROM r, s WHERE r.a = s.a AND r.c > 1", [("r.a", "s.a", True)]),
    "two": ("SELECT * FROM r, s WHERE r.a = s.a AND s.b = r.b", [("r.a", "s.a", True), ("s.b", "r.b", True)]),
    "less": ("SELECT * FROM r, s, t WHERE r.a < s.a AND s.b = t.b", [("r.a", "s.a", False), ("s.b", "t.b", True)]),
    "chain": ("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b", [("r.a", "s.a", True), ("s.b", "t.b", True)]),
    "same": ("SELECT * FROM r, s, t WHERE r.a = s.a AND t.a = s.a", [("r.a", "s.a", True), ("t.a", "s.a", True)]),
    "triangle": ("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND t.a = r.b", [("r.a", "s.a", True), ("s.b", "t.b", True), ("t.a", "r.b", True)]),
    "self": ("SELECT * FROM r AS x, r AS y, s WHERE x.a = y.b AND y.a = s.a", [("x.a", "y.b", True), ("y.a", "s.a", True)]),
    "star": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND r.b = t.a AND r.c = u.a", [("r.a", "s.a", True), ("r.b", "t.a", True), ("r.c", "u.a", True)]),
    "chain4": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.a AND t.b = u.a", [("r.a", "s.a", True), ("s.b", "t.a", True), ("t.b", "u.a", True)]),
    "cycle": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.a = t.a AND t.b = u.a AND u.a = r.b",
              [("r.a", "s.a", True), ("s.a", "t.a", True), ("t.b", "u.a", True), ("u.a", "r.b", True)]),
    "hub": ("SELECT * FROM r, s, t, u WHERE s.a = r.a AND t.a = r.a AND u.a = r.a", [("s.a", "r.a", True), ("t.a", "r.a", True), ("u.a", "r.a", True)]),
    "sum": ("SELECT * FROM r, s, t WHERE r.a + s.a = t.c AND r.a = s.a AND s.b = t.b", [("r.a", "s.a", True), ("s.b", "t.b", True)]),
    "parts": ("SELECT * FROM r, s, t, u WHERE r.a = s.a AND t.a = u.a AND t.b = 1", [("r.a", "s.a", True), ("t.a", "u.a", True)]),
    "alone": ("SELECT * FROM r, s, t WHERE r.a = s.a AND t.a > 1", [("r.a", "s.a", True)]),
}
IMPLIED = {"same": [("r.a", "t.a", True)], "hub": [("s.a", "t.a", True), ("s.a", "u.a", True), ("t.a", "u.a", True)], "cycle": [("r.a", "t.a", True), ("t.b", "r.b", True)]}
QUERIES = {k: parse_query(v[0], accept_set_query=False) for k, v in GRAPHS.items()}
KINDS = ("primary", "secondary", "none")


def spell(name):
    return {t.identifier(): t for t in QUERIES[name].tables()}


class Schema:
    def __init__(self, kinds):
        self.kinds = kinds

    def is_primary_key(self, column):
        return self.kinds[column.table.full_name, column.name] == "primary"

    def has_secondary_index(self, column):
        return self.kinds[column.table.full_name, column.name] == "secondary"


def edges(name, ec=False):
    return GRAPHS[name][1] + (IMPLIED.get(name, []) if ec else [])


def setup(ctx, name, ec=False, kinds=KINDS, last=KINDS):
    tabs = spell(name)
    cols = sorted({c for l, r, _ in edges(name, ec) for c in (l, r)})
    keys = list(dict.fromkeys((tabs[c[0]].full_name, c[2:]) for c in cols))
    ks = {k: ctx.pick("".join(k), kinds if i < 4 else last) for i, k in enumerate(keys)}
    return tabs, {c: ks[tabs[c[0]].full_name, c[2:]] for c in cols}, JoinGraph(QUERIES[name], Schema(ks), include_predicate_equivalence_classes=ec)


def neighbours(es, x):
    return {b[0] if a[0] == x else a[0] for a, b, _ in es if x in (a[0], b[0])}


def orders(es, tabs, n=None, disconnected=False):
    out = [(t,) for t in sorted(tabs)]
    for _ in range((n or len(tabs)) - 1):
        out = [o + (t,) for o in out for t in sorted(tabs) if t not in o and (disconnected or neighbours(es, t) & set(o))]
    return out


def split(p):
    return [] if p is None else [x for c in p.children for x in split(c)] if isinstance(p, CompoundPredicate) and p.operation.value == "AND" else [p]


def norm(p):
    s = str(p)
    return " = ".join(sorted(s.split(" = "))) if " = " in s else s


def texts(ps):
    return sorted({norm(x) for p in ps for x in split(p)})


def expected(es, x, y):
    return sorted(" = ".join(sorted([a, b])) if eq else f"{a} < {b}" for a, b, eq in es if {a[0], b[0]} == {x, y})


def states(g, tabs):
    return {f"{x}.{i.column.name}": i for x in tabs for i in g[tabs[x]].index_info}


def key_of(i):
    return i.index_type + ("!" if i.is_invalid else "")


def advance(ctx, g, tabs, es, joined, t, explicit):
    if explicit and joined:
        p = sorted(neighbours(es, t) & set(joined))[0]
        g.mark_joined(tabs[t], g.join_predicates_between(tabs[t], tabs[p]).pop())
    else:
        g.mark_joined(tabs[t])


# ---------------------------------------------------------------- keys of intermediate results
def keys(name, rows, ec=False, last=KINDS, kinds=KINDS, explicit=(False, True)):
    es = edges(name, ec)

    def body(ctx):
        tabs, ks, g = setup(ctx, name, ec, kinds, last)
        order = ctx.pick("order", orders(es, tabs))
        exp = ctx.pick("predicate", explicit)
        key = f"{name}{ec}/{''.join(k[0] for k in ks.values())}/{''.join(order)}{exp}"
        data = {}

        def cell(x, i, c):
            k = tabs[x].full_name, i, c
            if k not in data:
                data[k] = ctx.int(f"{k[0]}{i}{c}", 0, 5)
            return data[k]
        for c, k in ks.items():
            if k == "primary":
                for i, j in itertools.combinations(range(rows), 2):
                    ctx.assume(Not(cell(c[0], i, c[2:]) == cell(c[0], j, c[2:])))
        inter, joined, fresh = [({}, True)], [], True
        for t in order:
            advance(ctx, g, tabs, es, joined, t, exp)
            joined.append(t)
            use = [e for e in es if {e[0][0], e[1][0]} <= set(joined) and t in (e[0][0], e[1][0])]
            nxt = []
            for asg, cond in inter:
                for i in range(rows):
                    a = asg | {t: i}
                    cs = [cell(l[0], a[l[0]], l[2:]) == cell(r[0], a[r[0]], r[2:]) if eq else cell(l[0], a[l[0]], l[2:]) < cell(r[0], a[r[0]], r[2:]) for l, r, eq in use]
                    nxt.append((a, And(cond, *cs)))
            inter = nxt
            now = states(g, tabs)
            for x in joined:
                valid = [c for c, i in now.items() if c[0] == x and i.is_primary()]
                if len(joined) > 1 and valid:
                    ctx.reach("a key stays valid")
                    pairs = [(p, q) for p, q in itertools.combinations(inter, 2) if p[0][x] == q[0][x]]
                    ctx.check(And(True, *[Not(And(p[1], q[1])) for p, q in pairs]),
                              f"a valid key is unique in the intermediate result", key=f"{key} {'/'.join(valid)}@{''.join(joined)}")
            for c, i in now.items():
                if c[0] not in joined or len(joined) == 1:
                    ctx.check(key_of(i) == ks[c], "the indexes of tables that are not part of an intermediate result are valid", key=f"{key} {c}@{''.join(joined)}")
        ctx.reach("done")
    return Harness(f"keys_{name.replace(' ', '_')}{'_implied' if ec else ''}", body, functions=F, must_reach=("done",),
                   bounds={"graph": name, "kinds of columns": f"{len(kinds)} (columns beyond the fourth: {len(last)})", "rows per table": rows, "orders": "all connected ones", "predicate": "given / inferred"})


# ---------------------------------------------------------------- key joins survive other key joins
def survive(name, ec=False, last=KINDS, kinds=KINDS):
    es = edges(name, ec)

    def body(ctx):
        tabs, ks, g = setup(ctx, name, ec, kinds, last)
        order = ctx.pick("order", orders(es, tabs))
        exp = ctx.pick("predicate", (False, True))
        joined = []
        inserted, aside, simple = set(), set(), True          # tables whose keys are duplicated, tables that were joined by their keys

        def ref(fk, pk):
            return any(eq and k[0] in "ps" and ks[o] == "primary" for l, r, eq in es for f, o in ((l, r), (r, l)) if f[0] == fk and o[0] == pk for k in [ks[f]]
                       if fk not in aside and (k == "secondary" or fk not in inserted))
        for t in order:
            partners = sorted(neighbours(es, t) & set(joined))
            if exp and partners:
                partners = partners[:1]
            for p in partners:
                to, fro = ref(t, p) and p not in inserted, ref(p, t)
                if not to and not fro:
                    simple = False
                if fro and not to:
                    inserted.add(t)
                    aside.add(t)
                if to and not fro:
                    inserted |= set(joined)
            advance(ctx, g, tabs, es, joined, t, exp)
            joined.append(t)
            if not simple:
                return
            for x in joined:
                for y in sorted(neighbours(es, x)):
                    if y not in joined:
                        ctx.reach("free partner")
                        key = f"{name}{ec}/{''.join(k[0] for k in ks.values())}/{''.join(joined)}{exp}/{x}{y}"
                        if x not in aside:
                            ctx.check(g.is_pk_fk_join(tabs[x], tabs[y]) == ref(x, y), "a join with the key of a free table is a key join", key=key)
                        if not ref(x, y) and x not in inserted:
                            ctx.check(g.is_pk_fk_join(tabs[y], tabs[x]) == ref(y, x), "keys that are still unique can be used", key=key)
    return Harness(f"survive_{name}{'_implied' if ec else ''}", body, functions=F, must_reach=("free partner",),
                   bounds={"graph": name, "kinds of columns": f"{len(kinds)} (columns beyond the fourth: {len(last)})", "orders": "all connected ones made of key joins"})


# ---------------------------------------------------------------- queries of the graph
def P(path):
    return path.start_table.identifier() + path.target_table.identifier(), tuple(texts([path.join_condition]))


def views(name, ec=False, last=KINDS, kinds=KINDS, disconnected=False):
    es = edges(name, ec)

    def body(ctx):
        tabs, ks, g = setup(ctx, name, ec, kinds, last)
        n = ctx.choose("joined", len(tabs) + 1)
        order = ctx.pick("order", orders(es, tabs, n, disconnected)) if n else ()
        joined = []
        for t in order:
            advance(ctx, g, tabs, es, joined, t, False)
            joined.append(t)
        how = ctx.pick("copy", ("none", "clone", "original"))
        if how != "none":
            other = g.clone()
            if how == "clone":
                g, other = other, g
            for t in sorted(set(tabs) - set(joined)):
                other.mark_joined(tabs[t])
            for t in sorted(tabs):
                for i in other[tabs[t]].index_info:
                    i.invalidate()
        key = f"{name}{ec}/{''.join(k[0] for k in ks.values())}/{''.join(order)}/{how}"
        ctx.reach(f"{len(order)} joined")
        free = {x: x not in joined for x in tabs}
        I = lambda ts: "".join(sorted(t.identifier() for t in ts))
        now = states(g, tabs)
        eq = lambda a, b, what: ctx.check(a == b, what, key=key)
        eq(({c: i.index_type for c, i in now.items()}), dict(ks), "every join column has its index information")
        eq((len(g), I(iter(g)), {x: g[tabs[x]].free for x in tabs}), (len(tabs), "".join(sorted(tabs)), free), "tables and their states")
        eq({x: g.is_free_table(tabs[x]) for x in tabs}, free, "free tables")
        eq((I(g.free_tables()), I(g.joined_tables()), g.count_consumed_tables(), g.contains_free_tables(), g.initial()),
           ("".join(sorted(x for x in tabs if free[x])), "".join(sorted(joined)), len(joined), len(joined) < len(tabs), not joined), "free and joined tables")
        pairs = sorted({tuple(sorted([l[0], r[0]])) for l, r, _ in es})
        eq(sorted(tuple(sorted([a.identifier(), b.identifier()])) for a, b in g.all_joins()), pairs, "all joins")
        seen, todo = set(), ["r" if "r" in tabs else "x"]
        while todo:
            x = todo.pop()
            seen.add(x)
            todo += [y for y in neighbours(es, x) if y not in seen]
        eq(g.contains_cross_products(), seen != set(tabs), "cross products")

        def pkfk(f, p):
            return any(e and now[a].is_indexed() and now[b].is_primary() for l, r, e in es for a, b in ((l, r), (r, l)) if a[0] == f and b[0] == p)
        nm = lambda x, y: (min(x, y), max(x, y)) in pairs and not pkfk(x, y) and not pkfk(y, x)
        avail = lambda x, y: (min(x, y), max(x, y)) in pairs and (not joined or free[x] != free[y])
        allp = [(x, y) for x in tabs for y in tabs if x != y]
        path = lambda x, y: (x + y, tuple(expected(es, x, y)))
        for m, ref in (("joins_tables", lambda x, y: (min(x, y), max(x, y)) in pairs), ("is_available_join", avail), ("is_pk_fk_join", pkfk), ("is_n_m_join", nm)):
            eq({(x, y): bool(getattr(g, m)(tabs[x], tabs[y])) for x, y in allp}, {(x, y): ref(x, y) for x, y in allp}, m)
        eq(g.contains_free_n_m_joins(), any(nm(x, y) and (free[x] or free[y]) for x, y in allp), "free n:m joins")
        for both in (False, True):
            direct = [(x, y) for x, y in allp if avail(x, y) and (not joined or free[y])]
            for m, ref in (("available_join_paths", lambda x, y: True), ("available_n_m_join_paths", nm)):
                got = sorted(P(p) for p in getattr(g, m)(both_directions_on_initial=both))
                exp = sorted(path(x, y) for x, y in direct if ref(x, y))
                if not joined and not both:
                    got, exp = sorted(("".join(sorted(a)), b) for a, b in got), sorted({("".join(sorted(a)), b) for a, b in exp})
                eq(got, exp, f"{m}")
        for x in tabs:
            eq(sorted(P(p) for p in g.available_join_paths_for(tabs[x])), sorted(path(x, y) for y in tabs if avail(x, y)), "available_join_paths_for")
            eq(sorted(P(p) for p in g.available_pk_fk_joins_for(tabs[x])), sorted(path(x, y) for y in tabs if pkfk(x, y) and (free[x] or free[y])), "available_pk_fk_joins_for")
            eq(I(g.join_partners_from(tabs[x], [t for z, t in tabs.items() if z != min(tabs)])), "".join(sorted(y for y in neighbours(es, x) if y != min(tabs))), "join_partners_from")
            # keys that are reached from x, level by level
            level, dist = 0, {x: 0}
            shell = [x]
            while shell:
                level += 1
                shell = sorted({y for a in shell for y in tabs if y not in dist and pkfk(a, y)})
                dist |= {y: level for y in shell}
            weight = {y: 10 - ord(y) % 7 for y in tabs}
            for order_by in (None, lambda t, e: weight[t.identifier()]):
                got = [P(p) for p in g.available_deep_pk_join_paths_for(tabs[x], order_by)]
                eq(sorted(p[0][1] for p in got), sorted(set(dist) - {x}), "every key table that can be reached occurs once")
                for i, (st, cond) in enumerate(got):
                    eq(cond, tuple(expected(es, *st)), "the path carries its join condition")
                    ctx.check(pkfk(*st) and (st[0] == x or st[0] in [p[0][1] for p in got[:i]]), "a path starts at a table that was reached before", key=key)
                eq([dist.get(p[0][1]) for p in got], sorted(dist.get(p[0][1], 0) for p in got), "nearer tables come first")
                if order_by:
                    for (a, _), (b, _) in zip(got, got[1:]):
                        if a[0] == b[0]:
                            ctx.check(weight[a[1]] < weight[b[1]], "the given order is used", key=key)
        for k in range(1, len(tabs)):
            for sub in itertools.combinations(sorted(tabs), k):
                rest = [x for x in tabs if x not in sub]
                cond = lambda xs, ys: sorted({e for x in xs for y in ys for e in expected(es, x, y)})
                eq(sorted(set(texts(g.join_predicates_between([tabs[x] for x in sub], {tabs[x] for x in rest})))), cond(sub, rest), "join predicates between two sets")
                eq(sorted(set(texts(g.join_predicates_between([tabs[x] for x in sub])))), cond(sub, sub), "join predicates within a set")
                if k == 1:
                    eq(texts(g.join_predicates_between(tabs[sub[0]], tabs[rest[0]])), expected(es, sub[0], rest[0]), "join predicates between two tables")
    return Harness(f"views_{name}{'_implied' if ec else ''}", body, functions=F, must_reach=("0 joined", f"{len(spell(name))} joined"),
                   bounds={"graph": name, "kinds of columns": f"{len(kinds)} (columns beyond the fourth: {len(last)})", "joined tables": f"0–{len(spell(name))} in all {'' if disconnected else 'connected '}orders", "copies": "none / the clone / the original"})


def parts(names):
    def body(ctx):
        name = ctx.pick("graph", names)
        ec = name in IMPLIED and ctx.choose("implied", 2) == 1
        es = edges(name, ec)
        tabs, ks, g = setup(ctx, name, ec, KINDS[:2], KINDS[:2])
        key = f"{name}{ec}/{''.join(k[0] for k in ks.values())}"
        comps = list(g.join_components())
        exp, rest = [], set(tabs)
        while rest:
            seen, todo = set(), [min(rest)]
            while todo:
                x = todo.pop()
                seen.add(x)
                todo += [y for y in neighbours(es, x) if y not in seen]
            exp.append("".join(sorted(seen)))
            rest -= seen
        ctx.reach(f"{len(exp)} parts")
        ctx.check(sorted("".join(sorted(t.identifier() for t in c)) for c in comps) == sorted(exp), "the components partition the tables", key=key)
        for c in comps:
            own = {t.identifier() for t in c}
            sub = [e for e in es if e[0][0] in own]
            ctx.check(not c.contains_cross_products() and c.initial(), "a component is connected", key=key)
            ctx.check(sorted(set(texts(c.join_predicates_between(list(c))))) == sorted({t for x in own for y in own for t in expected(sub, x, y)}), "a component has its joins", key=key)
            ctx.check({k: key_of(i) for k, i in states(c, {x: tabs[x] for x in own}).items()} == {k: v for k, v in ks.items() if k[0] in own}, "a component has its indexes", key=key)
            ctx.check({t.identifier() for t in c.query.tables()} == own, "a component has its part of the query", key=key)
    return Harness("components", body, functions=["postbound.opt._joingraph.JoinGraph.join_components"], must_reach=("1 parts", "2 parts"), bounds={"graphs": len(names), "kinds of columns": 2})


def small(ctx):
    a, b = TableReference("r"), TableReference("s", "x")
    ca, cb = ColumnReference("a", a), ColumnReference("b", b)
    ks, inv = [ctx.pick(f"k{i}", KINDS) for i in (0, 1)], [ctx.choose(f"i{i}", 2) == 1 for i in (0, 1)]
    make = {"primary": IndexInfo.primary_index, "secondary": IndexInfo.secondary_index, "none": IndexInfo.no_index}
    x, y = make[ks[0]](ca), make[ks[1]](cb)
    for i, v in zip((x, y), inv):
        if v:
            i.invalidate()
    key = f"{ks}{inv}"
    for i, k, v, c in ((x, ks[0], inv[0], ca), (y, ks[1], inv[1], cb)):
        ctx.check((i.column, i.index_type, i.is_invalid, i.is_primary(), i.is_secondary(), i.is_indexed()) == (c, k, v, k == "primary" and not v, k == "secondary" and not v, k != "none" and not v),
                  "kind and state of an index", key=key)
    ok = not any(inv) and "none" not in ks and "primary" in ks
    ctx.check(x.can_pk_fk_join(y) == ok and y.can_pk_fk_join(x) == ok, "key joins need a key and an index", key=key)
    p = JoinPath(a, b, None)
    f = p.flip_direction()
    ctx.check((f.start_table, f.target_table, f.flip_direction()) == (b, a, p), "flipped paths", key=key)
    ctx.check(p.tables() == (a, b) and p.spans_table(a) and p.spans_table(b) and not p.spans_table(TableReference("t")) and p != f, "tables of a path", key=key)
    ctx.reach("done")


SMALL = Harness("small", small, functions=["IndexInfo", "JoinPath"], must_reach=("done",), bounds={"kinds": 3, "states": 2})


def harnesses(tier):
    full = tier == "thorough"
    L, K2 = KINDS if full else ("secondary",), ("primary", "secondary")
    out = [SMALL, parts(["pair", "chain", "same", "hub", "cycle", "parts", "alone", "sum"])]
    out += [keys(n, 2, last=KINDS if full else ("primary",)) for n in ("pair", "two", "less", "chain", "same", "self", "triangle")]
    out += [keys("same", 2, ec=True), keys("sum", 2)]
    out += [keys(n, 2, kinds=K2, last=K2) for n in (("star", "chain4", "hub", "cycle") if full else ("chain4", "hub"))]
    out += [survive(n, last=KINDS if full else ("primary", "secondary")) for n in ("chain", "same", "triangle", "star", "chain4", "hub")]
    out += [views(n, last=L) for n in ("pair", "two", "less", "chain", "same", "self", "triangle", "sum")]
    out += [views("same", ec=True), views("alone", disconnected=True)]
    out += [views(n, kinds=K2, last=K2 if full else ("primary",)) for n in ("chain4", "hub", "cycle")] + [views("parts", kinds=K2, last=K2, disconnected=True)]
    if full:
        out += [keys("pair", 3), keys("chain", 3), views("star"), keys("hub", 2, ec=True, kinds=K2, last=K2), views("hub", ec=True, kinds=K2, last=K2)]
    return out
