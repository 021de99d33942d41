"""C12: renaming columns and tables, and replacing expressions."""
import copy

from vx import qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness

from checks.c11 import agree, meta, variant
from postbound import ColumnReference, TableReference, qal, transform as T

LEVEL = "translation_validation"
ASSUMPTIONS = ["the reference is a substitution on an independent representation of the query, and the original query on a database where the tables (columns) are "
               "renamed in the same way", "semantics of SQL as in vx/sqlsem.py", "renaming targets are not used in the query yet (other than for merge_tables)"]
F = ["postbound.transform.replace_expressions", "rename_columns_in_query", "rename_columns_in_clause", "rename_columns_in_expression", "rename_columns_in_predicate",
     "rename_table", "merge_tables", "postbound.transform._TableReferenceRenamer"]


# ---------------------------------------------------------------- reference edits
def walk(x, f):
    """rebuild a query representation bottom-up"""
    if isinstance(x, S.Q):
        r = copy.copy(x)
        r.__dict__ = {k: walk(v, f) for k, v in x.__dict__.items()}
        return f(r)
    if isinstance(x, dict):
        return f({k: walk(v, f) for k, v in x.items()})
    if isinstance(x, list):
        return [walk(v, f) for v in x]
    if isinstance(x, tuple):
        return f(tuple(walk(v, f) for v in x))
    return x


def with_columns(q, m):
    """m: {(table identifier, name): new name}"""
    def f(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "col":
            return ("col", x[1], m.get((x[1], x[2]), x[2]))
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "sub" and x[3]:
            return x[:3] + ([m.get((x[2], c), c) for c in x[3]],) + x[4:]
        if isinstance(x, dict) and "mat" in x and x["cols"]:
            return dict(x, cols=[m.get((x["name"], c), c) for c in x["cols"]])
        return x
    return walk(q, f)


def with_table(q, old, new, prefix=False, virtual=False):
    """old, new: (schema, name, alias)"""
    oid, nid = old[2] or old[1], new[2] or new[1]

    def f(x):
        if isinstance(x, tuple) and x and x[0] == "col" and len(x) == 3 and x[1] == oid:
            return ("col", nid, f"{oid}_{x[2]}" if prefix else x[2])
        if isinstance(x, tuple) and x and x[0] == "star" and x[1] == oid:
            return ("star", nid) + x[2:]
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "table" and x[1:4] == old:
            return ("table",) + new + (x[4],)
        if isinstance(x, tuple) and len(x) > 3 and x[0] in ("sub", "func") and isinstance(x[2], str) and x[2] == oid:
            cols = [f"{oid}_{c}" if prefix else c for c in x[3]]
            return x[:2] + (nid, cols) + x[4:]
        if isinstance(x, dict) and "mat" in x and x["name"] == oid and virtual:
            return dict(x, name=nid, cols=[f"{oid}_{c}" if prefix else c for c in x["cols"]])
        return x
    return walk(q, f)


def renamed(ctx, db, cat):
    """the same database content under a different catalog: cat = {new table: (old table, new columns)}"""
    d = S.Db(ctx, dict(G.CATALOG, **{k: c for k, (o, c) in cat.items()}), rows=db.rows)
    d.content, d.lits, d.undef, d.uf = dict(db.content), db.lits, db.undef, db.uf
    for k, (o, c) in cat.items():
        d.content[k] = S.Rel(list(c), db.table(o).rows)
    return d


def both(ctx, sec, q1, q2, cat, what, key):
    """q1 has the same result as q2 on the renamed database"""
    db = K.db_for(ctx, sec, rows=1)
    for t in G.CATALOG:
        db.table(t)
    r1 = db.run(q1)
    same = S.same_result(r1, renamed(ctx, db, cat).run(q2), False)
    ctx.check(same if same is False else S.SymBool(S.Or(same, *db.undef)), what, key=key)


def load(ctx, text, sec):
    try:
        return K.parse(text, sec)
    except Exception:
        if sec == "reject":
            return None
        raise


def cat_of(t):
    return f"{t.schema}.{t.full_name}" if t.schema else t.full_name


# ---------------------------------------------------------------- bodies
class Count:
    def __init__(self):
        self.n = 0

    def __call__(self, e):
        self.n += 1
        return e


def identity(ctx, text, sec):
    q = load(ctx, text, sec)
    if q is None:
        return
    q = T.add_clause(q, [qal.Hint("SET geqo = 'off';", "/*+ X() */"), qal.Explain.plan()])
    ref = S.from_qal(q)
    f = Count()
    for name, r in (("replace_expressions(identity)", T.replace_expressions(q, f)), ("rename_columns({})", T.rename_columns_in_query(q, {})),
                    ("rename_columns(unrelated)", T.rename_columns_in_query(q, {B.col("nope", "a"): B.col("nope", "b")})),
                    ("rename_table({})", T.rename_table(q, {})), ("rename_table(unrelated)", T.rename_table(q, B.tab("nope"), B.tab("nope2"))),
                    ("merge_tables([])", T.merge_tables(q, [], target=B.tab("nope2")))):
        agree(ctx, sec, ref, S.from_qal(r), name, f"{name}: {text}")
        ctx.check(meta(r) == meta(q) and type(r) is type(q), f"{name}: hints, EXPLAIN and the kind of query", key=f"{name}: {text}")
    ctx.check(f.n > 0, "expressions are visited", key=text)
    ctx.reach("same")


def ident(t):
    return t.identifier() if t is not None else ""


def bound(q):
    """columns by (table identifier, name), unless two different columns go by that name"""
    out = {}
    for c in q.columns():
        if c.table is not None:
            out.setdefault((ident(c.table), c.name), []).append(c)
    return {k: v[0] for k, v in out.items() if len(v) == 1}, out


def columns(ctx, text, sec):
    q = load(ctx, text, sec)
    if q is None:
        return
    ref, before = S.from_qal(q), str(q)
    good, _ = bound(q)
    if not good:
        return
    names = sorted(good)
    virtual = {ident(t) for t in q.tables() if t.virtual}
    for label, pick in [("all", names)] + [(k, [k]) for k in names]:
        m = {k: k[1] + "_x" for k in pick}
        ren = {good[k]: ColumnReference(m[k], good[k].table) for k in pick}
        res = T.rename_columns_in_query(q, ren)
        key = f"{label}: {text}"
        exp, got = with_columns(ref, m), S.from_qal(res)
        agree(ctx, sec, exp, got, "columns are renamed everywhere", key)
        ctx.reach("renamed")
    a, b = names[0], names[-1]
    if a != b and a[0] == b[0]:
        res = T.rename_columns_in_query(q, {good[a]: good[b], good[b]: good[a]})
        agree(ctx, sec, with_columns(ref, {a: b[1], b: a[1]}), S.from_qal(res), "columns are swapped", f"swap: {text}")
    ctx.check(str(q) == before, "the original is not modified", key=text)
    # semantics: rename a column of a base table in the database, too
    phys = {}
    for t in q.tables():
        if not t.virtual and cat_of(t) in G.CATALOG:
            phys.setdefault(cat_of(t), set()).add(ident(t))
    if "NATURAL" in text or "USING" in text or "*" in text:
        return
    for tab, ids in sorted(phys.items()):
        for c in G.CATALOG[tab]:
            mine = [k for k in good if k[1] == c and k[0] in ids]
            if not mine or any(k[1] == c and k[0] not in ids for k in names) or unqualified(ref, c) or ids & virtual:
                continue
            res = T.rename_columns_in_query(q, {good[k]: ColumnReference("zz", good[k].table) for k in mine})
            both(ctx, sec, ref, S.from_qal(res), {tab: (tab, ["zz" if x == c else x for x in G.CATALOG[tab]])}, "same result when the column is renamed in the database",
                 f"{tab}.{c}: {text}")
            ctx.reach("database")


def unqualified(q, c=None):
    hit = []

    def f(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "col" and not x[1] and (c is None or x[2] == c):
            hit.append(x)
        return x
    walk(q, f)
    return hit


def key3(t):
    return (t.schema or "", t.full_name, t.alias or "")


def tables(ctx, text, sec):
    q = load(ctx, text, sec)
    if q is None:
        return
    ref, before = S.from_qal(q), str(q)
    ids = [ident(t) for t in q.tables()]
    for t in sorted(q.tables(), key=str):
        if ids.count(ident(t)) > 1:
            continue
        key = f"{t!r}: {text}"
        if t.virtual:
            new = TableReference.create_virtual("v9")
            exp = with_table(ref, ("", "", ident(t)), ("", "", "v9"), virtual=True)
            exp = with_table(exp, ("", ident(t), ""), ("", "v9", ""), virtual=True)
            if t.full_name and t.alias:  # alias of a CTE
                exp = with_table(ref, key3(t), ("", "v9", ""))
            got = S.from_qal(T.rename_table(q, t, new))
            ok = repr(exp) == repr(got) or repr(norm_virtual(exp)) == repr(norm_virtual(got))
            if not ok:
                agree(ctx, sec, exp, got, "virtual tables are renamed everywhere", key)
            ctx.reach("virtual")
            continue
        for new in (TableReference("r9", t.alias), TableReference("r9", "al"), TableReference("r9", schema="new")):
            exp = with_table(ref, key3(t), key3(new))
            for form, res in (("pair", T.rename_table(q, t, new)), ("dict", T.rename_table(q, {t: new}))):
                got = S.from_qal(res)
                agree(ctx, sec, exp, got, "tables are renamed everywhere", f"{form}, {new!r}, {key}")
                ctx.check(t not in res.tables(), "the old table is gone", key=f"{form}, {new!r}, {key}")
        if cat_of(t) in G.CATALOG and not unqualified(ref) and not shares(q, t):
            new = TableReference("r9", t.alias or t.full_name)
            db = S.from_qal(T.rename_table(q, t, new))
            both(ctx, sec, ref, db, {"r9": (cat_of(t), G.CATALOG[cat_of(t)])}, "same result when the table is renamed in the database", key)
            ctx.reach("database")
        new = TableReference("r9")
        exp = with_table(ref, key3(t), key3(new), prefix=True)
        agree(ctx, sec, exp, S.from_qal(T.rename_table(q, t, new, prefix_column_names=True)), "columns are prefixed", f"prefix, {key}")
    ctx.check(str(q) == before, "the original is not modified", key=text)
    real = [t for t in sorted(q.tables(), key=str) if not t.virtual]
    if len(real) > 1 and len(set(ids)) == len(ids):
        exp, m = ref, {}
        for i, t in enumerate(real):
            m[t] = TableReference(f"n{i}")
            exp = with_table(exp, key3(t), key3(m[t]))
        got = S.from_qal(T.rename_table(q, m))
        agree(ctx, sec, exp, got, "many tables are renamed at once", f"many: {text}")
        ctx.reach("many")


def shares(q, t):
    """the name of the table is also used for something else"""
    return any(ident(o) == ident(t) for o in q.tables() if o != t)


def norm_virtual(q):
    def f(x):
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "table":
            return x[:1] + ("", x[3] or x[2], "", [])
        return x
    return walk(q, f)


def swap(ctx):
    """tables that are renamed simultaneously, in every clause"""
    frm = ctx.pick("frm", ["r, s", "r JOIN s ON r.a = s.a", "r, (s JOIN t ON s.a = t.b)", "s, r"])
    rest = ctx.pick("rest", [" WHERE r.b = s.c", " WHERE r.b = 1 ORDER BY s.c DESC", " WHERE r.a IN (SELECT t.b FROM t WHERE t.d = s.c)", ""])
    q = K.parse(f"SELECT r.b, s.c FROM {frm}{rest}")
    ren = {"swap": {B.tab("r"): B.tab("s"), B.tab("s"): B.tab("r")}, "chain": {B.tab("r"): B.tab("s", "x"), B.tab("s"): B.tab("y")}}[ctx.pick("ren", ["swap", "chain"])]
    m = {t.identifier(): key3(n) for t, n in ren.items()}

    def f(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "col" and x[1] in m:
            return ("col", m[x[1]][2] or m[x[1]][1], x[2])
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "table" and x[2] in m:
            return ("table",) + m[x[2]] + (x[4],)
        return x
    try:
        res = T.rename_table(q, ren)
    except ValueError as e:
        if "already present" in str(e) and ("JOIN" in frm):
            return ctx.reach("rejected")
        raise
    ctx.reach("renamed")
    exp, got = walk(S.from_qal(q), f), S.from_qal(res)
    ctx.check(sorted(map(repr, exp.frm)) == sorted(map(repr, got.frm)) and repr(variant(exp, frm=0)) == repr(variant(got, frm=0)),
              "tables are renamed at once", key=str(q), got=str(res))


def merge(ctx):
    """tables of a join are replaced by one table"""
    frm = ctx.pick("frm", ["r, s, t", "r, s", "s, t, r", "r, r AS x, s"])
    where = ctx.pick("where", ["r.a = s.a", "r.a = s.a AND r.b = 1 AND s.c = 2"]) + (ctx.pick("w2", ["", " AND s.c = t.d"]) if "t" in frm else "")
    tail = ctx.pick("tail", ["", " ORDER BY r.b, s.c", " GROUP BY r.b HAVING min(s.c) > 1"])
    proj = "r.b" if "GROUP" in tail else "r.b, s.c"
    q = K.parse(f"SELECT {proj} FROM {frm} WHERE {where}{tail}")
    target = TableReference("m", ctx.pick("alias", ["", "mm"]))
    res = T.merge_tables(q, [B.tab("r"), B.tab("s")], target=target)
    got, tid = S.from_qal(res), target.identifier()
    exp = with_table(with_table(S.from_qal(q), ("", "r", ""), key3(target)), ("", "s", ""), key3(target))
    key = str(q)
    want = []
    for f in exp.frm:
        if f not in want:
            want.append(f)
    ctx.check(sorted(map(repr, got.frm)) == sorted(map(repr, want)), "the merged table appears once, all other tables are kept", key=key, got=str(res))
    ctx.check(repr(variant(exp, frm=0)) == repr(variant(got, frm=0)), "columns belong to the merged table", key=key, got=str(res))


def replaced(ctx):
    """one expression of a clause is replaced"""
    old, new = B.cexp("r", "a"), qal.FunctionExpression("abs", [B.cexp("r", "b")])
    X = "{}"
    text = ctx.pick("q", ["SELECT {} AS v FROM r", "SELECT DISTINCT ON ({}) r.b FROM r ORDER BY {}", "SELECT r.b FROM r WHERE {} = 1 OR NOT ({} < 4)",
                          "SELECT r.b FROM r WHERE {} BETWEEN {} AND 7 AND {} IN (1, {})", "SELECT max(r.b) FROM r GROUP BY {} HAVING {} > 1",
                          "SELECT r.b FROM r ORDER BY {} DESC NULLS FIRST LIMIT 3", "SELECT r.b FROM r JOIN s ON {} = s.a", "SELECT s.c FROM s, LATERAL (SELECT {} AS z FROM r) AS x",
                          "WITH x AS (SELECT {} AS z FROM r) SELECT x.z FROM x", "SELECT {} AS v FROM r UNION ALL SELECT {} AS v FROM r WHERE r.b = 2"])
    q = K.parse(text.replace(X, "r.a"))
    res = T.replace_expressions(q, lambda e: new if e == old else e)
    exp = S.from_pg(text.replace(X, "abs(r.b)"))
    agree(ctx, "set", exp, S.from_qal(res), "exactly the expression is replaced", text)


def harnesses(tier):
    t = tier == "thorough"
    secs = ["expr", "place", "pred", "bool", "frm", "join3", "clauses", "group", "window", "cte", "set", "nest", "bind", "wide", "reject"] + (
        ["arith", "bool3", "pplace", "spine", "join4", "wide2"] if t else [])
    b = "every table and every column of the query is renamed; contents of one-row tables, literal values and NULLs symbolic"
    hs = []
    for name, body, reach in (("identity", identity, "same"), ("columns", columns, "renamed"), ("tables", tables, None)):
        for s in secs:
            h = K.section(s, body, bounds=b, functions=F, must_reach=[reach] if reach else [])
            h.name = f"{name}-{s}"
            hs.append(h)
    hs += [Harness("replaced", replaced, bounds="every clause that directly contains the expression", functions=F), Harness("swap", swap, bounds="two tables renamed at once, 4 FROM clauses", functions=F, must_reach=["renamed"]),
           Harness("merge", merge, bounds="4 FROM clauses x predicates x clauses", functions=F)]
    return hs
