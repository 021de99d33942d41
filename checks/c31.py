"""C31: workloads contain exactly the queries they were given, under the labels and in the order that was requested."""
import os
import random
import re
import shutil
import tempfile
import types
import warnings
import zipfile
from pathlib import Path

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Or, Shadow

import postbound.workloads as wl
from postbound import parse_query, util
from postbound.workloads import Workload, generate_workload, read_batch_workload, read_csv_workload, read_workload, wrap_workload

LEVEL = "model_checking"
ASSUMPTIONS = ["random.sample and random.shuffle provide arbitrary permutations", "downloads are stand-ins which fail at an arbitrary step or provide the archive",
               "labels are unique, and the names of query files are unique within a directory"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({wl: NS})
warnings.simplefilter("ignore")
DEEP = False


class Query:
    """A query is anything which is hashable: two queries are equal iff their (symbolic) contents are equal."""
    def __init__(self, content):
        self.content = content

    def __eq__(self, other):
        return isinstance(other, Query) and bool(self.content == other.content)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Query({self.content})"


class Dice:
    """Replaces the random module with choices of the solver."""
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def sample(self, population, k, **kw):
        pool, out = list(population), []
        if k > len(pool) or k < 0:
            raise ValueError("sample larger than population")
        for _ in range(int(k)):
            self.n += 1
            out.append(pool.pop(self.ctx.choose(f"random {self.n}", len(pool))))
        return out

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def choice(self, x):
        self.n += 1
        return x[self.ctx.choose(f"random {self.n}", len(x))]

    def Random(self, *a):
        return self

    SystemRandom = Random

    def __getattr__(self, name):
        return getattr(random, name)


def isort(xs):
    """insertion sort (forks over the possible orders)"""
    out = []
    for x in xs:
        i = len(out)
        while i and bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def has(labels, x):
    return any(bool(x == y) for y in labels)


def inspect(ctx, got, want, order, key, name="w", root=None):
    """want: list of (label, query), order: acceptable orders of the labels"""
    ctx.check(isinstance(got, Workload), "workloads remain workloads", key=key)
    labels = list(got.labels())
    ctx.check(len(labels) == len(want) and len(got) == len(want), "a workload contains exactly the requested queries", got=len(got), want=len(want), key=key)
    if order is not None:
        ctx.check(Or(*[And(*[a == b for a, b in zip(labels, o)]) for o in order]) if want else True, "queries are ordered as requested", labels=str(labels)[:100], key=key)
    want = list(want)
    lookup = lambda l: next(q for m, q in want if bool(m == l))
    for l in labels:
        ctx.check(has([m for m, _ in want], l), "there are no other labels", found=l, key=key)
    ctx.check(all(has(labels, m) for m, _ in want), "no query is lost", key=key)
    qs = [lookup(l) for l in labels]
    same = lambda xs, ys: len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))
    ctx.check(same(list(got.queries()), qs), "queries() are in the order of their labels", key=key)
    ents = list(got.entries())
    ctx.check(len(ents) == len(labels) and all(e[0] is l and e[1] is q for e, l, q in zip(ents, labels, qs)), "entries() are in the order of their labels", key=key)
    ctx.check(same(list(got), labels) and same(list(got.keys()), labels), "iteration follows the order of the labels", key=key)
    ctx.check(same(list(got.values()), qs), "values() are in the order of the labels", key=key)
    its = list(got.items())
    ctx.check(len(its) == len(labels) and all(e[0] is l and e[1] is q for e, l, q in zip(its, labels, qs)), "items() are in the order of the labels", key=key)
    h = got.head()
    ctx.check(h is None if not labels else h is not None and h[0] is labels[0] and h[1] is qs[0], "the head is the first query", key=key)
    for l, q in zip(labels, qs):
        ctx.check(got[l] is q and l in got, "labels provide their query", key=key)
        ctx.check(got[got.label_of(q)] == q, "label_of provides a label of the query", key=key)
    ctx.check(got.name == name, "the name is kept", name=got.name, key=key)
    if want:
        ctx.reach("queries")


def unknown(ctx, w, label, key):
    try:
        w[label]
    except KeyError:
        ctx.check(label not in w, "unknown labels are not contained", key=key)
        return
    ctx.check(False, "unknown labels are rejected", key=key)


OPS = ("same", "shuffle", "ordered", "first", "last", "pick_random", "with_labels", "filter_by", "relabel", "map", "transform", "plus", "minus", "and", "or", "minus labels", "and labels", "or dict")


def base(ctx, n):
    ls = [ctx.int(f"label {i}") for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ls[i] != ls[j])
    qs = [Query(ctx.int(f"query {i}", 0, 2)) for i in range(n)]
    return list(zip(ls, qs))


def operations(ctx):
    saved = wl.random
    wl.random = Dice(ctx)
    try:
        _operations(ctx)
    finally:
        wl.random = saved


def apply(ctx, w, have, shuffled, op, tag):
    """performs an operation. Provides the result, its contents and the acceptable orders"""
    ls = [l for l, _ in have]
    pick = lambda: [l for i, l in enumerate(ls) if bool(ctx.bool(f"{tag} selects {i}"))]
    cur = list(w.labels())
    of = dict_of(have)
    if op == "same":
        return w, have, [cur]
    if op == "shuffle":
        r = w.shuffle()
        return r, have, None
    if op == "ordered":
        return w.ordered(), have, [isort(ls)]
    if op in ("first", "last"):
        k = ctx.int(f"{tag} count", 0, len(ls) + 1)
        k = next(i for i in range(len(ls) + 2) if bool(k == i))
        sel = cur[:k] if op == "first" else cur[max(0, len(cur) - k):]
        return getattr(w, op)(k), [(l, of(l)) for l in sel], [sel, isort(sel)]
    if op == "pick_random":
        k = ctx.choose(f"{tag} count", len(ls) + 2)
        r = w.pick_random(k)
        sel = list(r.labels())
        ctx.check(len(sel) == min(k, len(ls)), "exactly the requested number of queries is selected", key=op)
        for i, l in enumerate(sel):
            ctx.check(has(ls, l) and not has(sel[:i], l), "random queries are selected at most once", key=op)
        return r, [(l, of(l)) for l in sel], [isort(sel)]
    if op == "with_labels":
        sel = pick()
        extra = [ctx.int(f"{tag} foreign label")] if bool(ctx.bool(f"{tag} foreign")) else []
        for e in extra:
            ctx.assume(And(*[e != l for l in ls]))
        return w.with_labels(iter(sel + extra)), [(l, of(l)) for l in sel], [isort(sel), [l for l in cur if has(sel, l)]]
    if op == "filter_by":
        t, c = ctx.int(f"{tag} threshold"), ctx.int(f"{tag} content", 0, 2)
        r = w.filter_by(lambda l, q: bool(l < t) or bool(q.content == c))
        sel = [l for l in ls if bool(l < t) or bool(of(l).content == c)]
        return r, [(l, of(l)) for l in sel], [isort(sel)]
    if op == "relabel":
        new = [ctx.int(f"{tag} new label {i}") for i in range(len(ls))]
        for i in range(len(new)):
            ctx.assume(And(*[new[i] != new[j] for j in range(i)]))
        m = lambda l, q: next(b for (a, p), b in zip(have, new) if bool(a == l) and p is q)
        return w.relabel(m), [(b, q) for (_, q), b in zip(have, new)], [isort(new)]
    if op in ("map", "transform"):
        done = {id(q): Query(q.content + 3) for _, q in have}
        if op == "map":
            args = []
            r = w.map(lambda q, x, y=None: args.append((x, y)) or done[id(q)], 1, y=2)
            ctx.check(all(a == (1, 2) for a in args), "arguments are forwarded", key=op)
            return r, [(l, done[id(q)]) for l, q in have], [isort(ls), cur]
        s = ctx.pick(f"{tag} sign", (1, -1))
        r = w.transform(lambda l, q, x, y=None: (s * l if (x, y) == (1, 2) else None, done[id(q)]), 1, y=2)
        return r, [(s * l, done[id(q)]) for l, q in have], [isort([s * l for l in ls])]
    # set operations
    k = ctx.choose(f"{tag} shared", len(ls) + 1)
    shared = ls[:k]
    extra = [ctx.int(f"{tag} other label")] if bool(ctx.bool(f"{tag} others")) else []
    for e in extra:
        ctx.assume(And(*[e != l for l in ls]))
    other = {l: Query(ctx.int(f"{tag} other query {i}", 0, 2) if tag == "operation" else 10 + i) for i, l in enumerate(shared + extra)}
    o = Workload(other, "other")
    keep = [l for l in ls if has(shared, l)]
    if op in ("plus", "or", "or dict"):
        r = w + o if op == "plus" else w | o if op == "or" else w | other
        new = have + [(e, other[e]) for e in extra]  # own queries are retained
        inspect(ctx, o, list(other.items()), [isort(list(other))], "other operand", name="other")
        return r, new, [isort([l for l, _ in new])]
    lab = "labels" in op
    if op.startswith("minus"):
        r = w - (iter(list(other)) if lab else o)
        sel = [l for l in ls if not has(shared, l)]
    else:
        r = w & (iter(list(other)) if lab else o)
        sel = keep
    return r, [(l, of(l)) for l in sel], [isort(sel)]


def dict_of(have):
    return lambda l: next(q for m, q in have if bool(m == l))


def _operations(ctx):
    op = ctx.pick("operation", OPS)
    ordered = op in ("same", "shuffle", "ordered", "first", "last", "pick_random")
    n = ctx.choose("queries", (4 if ordered else 3) + DEEP)
    have = base(ctx, n)
    root = ctx.pick("root", (None, Path("/some/where")))
    w = Workload(dict(have), "w", root)
    if op == "same":
        inspect(ctx, w, have, [isort([l for l, _ in have])], "new")
    shuffled = n > 1 and (ordered or op in ("with_labels", "filter_by", "map") or DEEP) and bool(ctx.bool("shuffle first"))
    if shuffled:
        s = w.shuffle()
        if op == "same":
            inspect(ctx, s, have, None, "shuffle")
            inspect(ctx, w, have, [isort([l for l, _ in have])], "shuffled workload")
        w = s
    before = list(w.labels())
    r, want, order = apply(ctx, w, have, shuffled, op, "operation")
    inspect(ctx, r, want, order, op)
    ctx.check(str(r).startswith("Workload: w (") and f"({len(want)} " in str(r), "the representation contains the number of queries", s=str(r), key=op)
    ctx.check(len(w.labels()) == n and all(a is b for a, b in zip(w.labels(), before)), "the original remains as it is", key=op)
    ctx.check(len(w.queries()) == n and all(w[l] is q for l, q in have), "the original remains as it is", key=op)
    x = ctx.int("unknown label")
    ctx.assume(And(*[x != l for l, _ in want]) if want else True)
    unknown(ctx, r, x, op)
    ctx.reach(op)


def sequences(ctx):
    """operations on the results of operations"""
    saved = wl.random
    wl.random = Dice(ctx)
    try:
        n = 3 if DEEP else 2
        have = base(ctx, n)
        have = [(l, Query(i)) for i, (l, _) in enumerate(have)]
        for i in range(n - 1):
            ctx.assume(have[i][0] < have[i + 1][0])  # the order of the dictionary does not matter here (see above)
        w = Workload(dict(reversed(have)), "w")
        ops = [("shuffle", "last", "plus", "minus", "transform", "pick_random"), ("shuffle", "ordered", "first", "last", "pick_random", "with_labels", "plus", "and", "map")]
        hist = []
        for i in range(2):
            op = ctx.pick(f"operation {i}", ops[i])
            hist.append(op)
            w, have, order = apply(ctx, w, have, "shuffle" in hist[:-1], op, f"operation {i}")
        inspect(ctx, w, have, order, op)
        ctx.reach(op)
    finally:
        wl.random = saved


# ------------------------------------------------------------------ natural order
def natural(s):
    return [(0, int(p), "") if p.isdigit() else (1, 0, p) for p in re.findall(r"\d+|\D+", s)]


SETS = (("1a", "1b", "2a", "10a", "10b", "3c"), ("q-1", "q-10", "q-2", "q-1-1", "r-1", "q-1-10"), ("1-a/q2", "1-a/q10", "1-b/q1", "10-a/q1", "2-a/q7", "q1"))


def natural_order(ctx):
    pool = list(ctx.pick("labels", SETS))
    n = 1 + ctx.choose("queries", 4 if DEEP else 3)
    ls = [pool.pop(ctx.choose(f"label {i}", len(pool))) for i in range(n)]
    have = [(l, Query(i)) for i, l in enumerate(ls)]
    w = Workload(dict(have), "w")
    inspect(ctx, w, have, [sorted(ls, key=natural)], "natural")
    pre = ctx.pick("prefix", ("", "1", "q", "q-1", "1-a/", "zz"))
    sel = [l for l in ls if l.startswith(pre)]
    inspect(ctx, w.with_prefix(pre), [(l, q) for l, q in have if l in sel], [sorted(sel, key=natural)], "prefix")
    try:
        w.with_prefix(1)
        ctx.check(False, "prefixes which cannot be checked are rejected", key="int")
    except ValueError:
        pass
    ctx.reach("done")


# ------------------------------------------------------------------ generated workloads
def generated(ctx):
    n = ctx.choose("queries", 5 if DEEP else 4)
    qs = [Query(ctx.int(f"query {i}", 0, 3)) for i in range(n)]
    how = ctx.pick("function", ("generate", "wrap", "labels"))
    arg = ctx.pick("queries are", (list, tuple, iter))(qs)
    name, root, expect = ctx.pick("name", (("w", None, "w"), ("", "/some/file.txt", "file"), ("", Path("/some/dir"), "dir"), ("", None, ""), ("w", "/some/file.txt", "w")))
    if how == "labels":
        pool = [Query(i) for i in range(3)]
        lab = {q: ctx.int(f"label {i}") for i, q in enumerate(pool)}
        vs = list(lab.values())
        ctx.assume(And(*[vs[i] != vs[j] for i in range(3) for j in range(i)]))
        foreign = any(bool(q.content == 3) for q in qs)
        try:
            w = generate_workload(arg, name=name, labels=lab, workload_root=root)
        except (KeyError, ValueError):
            ctx.check(foreign, "labels of queries are used", key="labels")
            ctx.reach("reject")
            return
        ctx.check(not foreign, "queries without a label are rejected", key="labels")
        want = []
        for q in qs:
            l = lab[q]
            if not any(bool(l == m) for m, _ in want):
                want.append((l, q))
        got = list(w.labels())
        ctx.check(len(got) == len(want) and all(has(got, l) for l, _ in want), "a workload contains exactly its queries", got=len(got), want=len(want), key="labels")
        for l, q in want:
            ctx.check(w[l] == q, "queries are available under their labels", key="labels")
        ctx.check(w.name == expect, "workloads are named as requested", key="labels")
        ctx.reach("labels")
        return
    w = generate_workload(arg, name=name, workload_root=root) if how == "generate" else wrap_workload(arg, name, root)
    inspect(ctx, w, [(i + 1, q) for i, q in enumerate(qs)], [list(range(1, n + 1))], how, name=expect)
    ctx.reach(how)


def benchmarks(ctx):
    """lists of queries are benchmarked as they are"""
    import postbound.bench as bench
    n = 1 + ctx.choose("queries", 3)
    qs = [Query(ctx.int(f"query {i}", 0, 2)) for i in range(n)]
    w = bench._wrap_workload(qs)
    inspect(ctx, w, [(i + 1, q) for i, q in enumerate(qs)], [list(range(1, n + 1))], "benchmark", name="")
    own = Workload({7: qs[0]}, "own")
    ctx.check(bench._wrap_workload(own) is own, "workloads are benchmarked as they are", key="own")
    ctx.reach("done")


# ------------------------------------------------------------------ files
TEXTS = {"plain": ("SELECT * FROM r WHERE r.a = {n}", "SELECT * FROM r WHERE r.a = {n}"),
         "lines": ("SELECT *\nFROM r, s\nWHERE r.a = s.b\n  AND r.c < {n};\n", "SELECT * FROM r, s WHERE r.a = s.b AND r.c < {n}"),
         "hints": ("/*+ Leading((r s)) */\nSELECT *\nFROM r, s\nWHERE r.a = s.b AND r.c < {n};\n", "/*+ Leading((r s)) */ SELECT * FROM r, s WHERE r.a = s.b AND r.c < {n}"),
         "literal": ("SELECT * FROM r\nWHERE r.a = 'x\ny\n\nz' AND r.b > {n}\n", "SELECT * FROM r WHERE r.a = 'x\ny\n\nz' AND r.b > {n}"),
         "comment": ("-- a query\nSELECT * FROM r -- from r\nWHERE r.a = {n}\n", "SELECT * FROM r WHERE r.a = {n}"),
         "umlaut": ("SELECT * FROM r WHERE r.a = '\u00e4\u00df' AND r.b > {n}\n", "SELECT * FROM r WHERE r.a = '\u00e4\u00df' AND r.b > {n}"),
         "broken": ("SELEKT something {n}", None), "empty": ("", None)}


def scratch(fn):
    def body(ctx):
        d = tempfile.mkdtemp()
        try:
            fn(ctx, Path(d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return body


def slots():
    return ["q1.sql", "q10.sql", "q2.sql", "sub/q1.sql", "sub/v1.2/q1.sql", "sub.b/q1.sql"]


def files(ctx, d):
    recurse = bool(ctx.bool("recurse"))
    func = "read_workload" if recurse else ctx.pick("function", ("read_workload", "Workload.read"))
    special = ctx.pick("special contents", tuple(TEXTS))
    failing = TEXTS[special][1] is None
    mode = ctx.pick("on_error", ("raise", "warn", "ignore")) if failing or DEEP else "raise"
    enc = ctx.pick("encoding", ("utf-8", "latin-1")) if special == "umlaut" or DEEP else "utf-8"
    prefix = ctx.pick("prefix", ("", "p/", "p")) if special == "plain" or DEEP else "p/"
    opts = {"include_hints": special != "hints" or bool(ctx.bool("include hints")), "verbose": special == "lines" and bool(ctx.bool("verbose"))}
    names = slots()
    where = ctx.pick("special file", (0, 3, 4)) if recurse else 0
    exists = {}
    for i, f in enumerate(names):
        exists[f] = True if i in (1, where) or not recurse and "/" in f else bool(ctx.bool(f"file {f} exists")) if i in (2, 3, 5) or DEEP else True
    want, bad = [], False
    for i, f in enumerate(names):
        if not exists[f]:
            continue
        t, ref = TEXTS[special if i == where else "plain"]
        p = d / f
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(t.format(n=i).encode(enc))
        if "/" in f and not recurse:
            continue
        if ref is None:
            bad = True
            continue
        if "/" in f or prefix == "" or func == "Workload.read":
            sep = "/" if "/" in f and prefix and not prefix.endswith("/") else ""
        else:
            sep = ""
        want.append((prefix + sep + f[:-4], t.format(n=i)))
    (d / "README.txt").write_text("not a query")
    (d / "q3.sql.bak").write_text("SELECT 1")
    key = func
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if func == "Workload.read":
                w = Workload.read(d, name="w", label_prefix=prefix, file_encoding=enc, bind_columns=False, on_error=mode, **opts)
            else:
                w = read_workload(str(d), "w", recurse_subdirectories=recurse, query_label_prefix=prefix, file_encoding=enc, bind_columns=False, on_error=mode, **opts)
    except ValueError as e:
        ctx.check(bad and mode == "raise", "valid queries are read", error=str(e)[:120], key=key)
        ctx.reach("error")
        return
    ctx.check(not (bad and mode == "raise"), "errors are raised if requested", key=key)
    if mode != "raise":
        n = sum("Could not parse" in str(x.message) for x in ws)
        ctx.check(n == (1 if bad and mode == "warn" else 0), "failed queries are warned about if requested", warnings=n, key=key)
        if bad:
            ctx.reach("skipped")
    got = list(w.labels())
    ctx.check(sorted(got) == sorted(l for l, _ in want), "each query file provides the query of its label", got=got, want=[l for l, _ in want], key=key)
    for l, ref in want:
        expect = parse_query(ref, bind_columns=False, include_hints=opts["include_hints"])
        ctx.check(w[l] == expect, "queries are read as they are stored", got=str(w[l]), want=str(expect), key=special)
        if special == "hints":
            ctx.check(str(w[l].hints) == str(expect.hints), "hints are read", key=special)
    ctx.check(got == sorted(got, key=natural), "queries are in natural order", got=got, key=key)
    ctx.check(list(w) == got and list(w.queries()) == [w[l] for l in got], "iteration follows the natural order", got=list(w), key=key)
    ctx.check(w.name == "w", "the name is used", key=key)
    ctx.reach(func)
    ctx.reach(special)


def batches(ctx, d):
    n = 1 + ctx.choose("lines", 4 if DEEP else 3)
    kinds = [ctx.pick(f"line {i}", ("query", "same", "empty", "blank", "broken") if i < 3 else ("query", "empty")) for i in range(n)]
    last = bool(ctx.bool("final newline"))
    enc = ctx.pick("encoding", ("utf-8", "latin-1"))
    text = {"same": "SELECT * FROM r WHERE r.a = '\u00e4'", "empty": "", "blank": "  ", "broken": "SELEKT 1"}
    lines = [text.get(k, f"SELECT * FROM s WHERE s.b > {i};") for i, k in enumerate(kinds)]
    f = d / "batch.txt"
    f.write_bytes(("\n".join(lines) + ("\n" if last else "")).encode(enc))
    name = ctx.pick("name", ("", "w"))
    try:
        w = read_batch_workload(str(f), name, file_encoding=enc)
    except Exception as e:
        ctx.check("broken" in kinds, "all lines are read", error=f"{type(e).__name__}: {e}"[:120], key="batch")
        ctx.reach("error")
        return
    ctx.check("broken" not in kinds, "invalid lines are rejected", key="batch")
    want = [parse_query(x) for x, k in zip(lines, kinds) if k in ("query", "same")]
    by_line = [i + 1 for i, k in enumerate(kinds) if k in ("query", "same")]
    ctx.check(list(w.queries()) == want, "batch workloads contain all queries in their order", got=[str(q) for q in w.queries()], want=[str(q) for q in want], key="batch")
    ctx.check(list(w.labels()) in (by_line, list(range(1, len(want) + 1))), "queries are numbered", got=list(w.labels()), key="batch")
    ctx.check(w.name == (name or "batch"), "workloads are named after their file", key="batch")
    ctx.reach("batch")


def tables(ctx, d):
    n = ctx.choose("rows", 4)
    kinds = [ctx.pick(f"row {i}", ("query", "same", "quoted")) for i in range(n)]
    text = {"same": "SELECT * FROM r", "quoted": "SELECT r.a, r.b FROM r WHERE r.c = 'x\ny\u00e4'"}
    rows = [text.get(k, f"SELECT * FROM s WHERE s.b > {i}") for i, k in enumerate(kinds)]
    labels = ctx.pick("labels", (None, "str", "int"))
    pool = {"str": ["q10", "q2", "q1"], "int": [10, 2, 1], None: [None] * 3}[labels]
    enc = ctx.pick("encoding", ("utf-8", "latin-1"))
    qcol, sep = ctx.pick("format", (("query", ","), ("sql", ","), ("query", ";")))
    quote = lambda x: '"' + str(x).replace('"', '""') + '"'
    f = d / "queries.csv"
    out = [sep.join(["other", "label", qcol])] + [sep.join([quote(i * 7), quote(pool[i]), quote(r)]) for i, r in enumerate(rows)]
    f.write_bytes("\n".join(out).encode(enc))
    args = {"sep": sep, "encoding": "ascii", "usecols": ["other"]} if sep == ";" else None
    copy = dict(args) if args else None
    w = read_csv_workload(ctx.pick("path", (str, Path))(f), ctx.pick("name", ("", "w")), query_column=qcol, label_column="label" if labels else None, file_encoding=enc, pd_args=args)
    ctx.check(args == copy, "arguments remain as they are", key="csv")
    want = [parse_query(x) for x in rows]
    ls = pool[:n] if labels else list(range(1, n + 1))
    ctx.check(sorted(w.labels(), key=str) == sorted(ls, key=str), "each row is a query of the workload", got=list(w.labels()), want=ls, key="csv")
    for l, q in zip(ls, want):
        ctx.check(w[l] == q, "queries are available under their labels", got=str(w[l]), want=str(q), key="csv")
    ctx.check(list(w.labels()) == sorted(ls, key=lambda x: natural(str(x))), "queries are in natural order", key="csv")
    ctx.check(w.name in ("queries", "w"), "workloads are named", key="csv")
    ctx.reach("csv")


# ------------------------------------------------------------------ predefined workloads
class Crash(Exception):
    pass


NAMES = {"job": ("job", "JOB"), "joblight": ("job-light", "JOB-light"), "job-complex": ("job-complex", "JOB-complex"), "stats": ("stats", "Stats"), "stack": ("stack", "Stack"), "ssb": ("ssb", "SSB")}


def predefined(ctx, d):
    """Any step of a download can fail. Later attempts never see an incomplete workload."""
    key = ctx.pick("workload", tuple(NAMES))
    folder, title = NAMES[key]
    nested = key == "stack"
    state = types.SimpleNamespace(step=0, fault=None)

    def step():
        state.step += 1
        if state.fault is not None and bool(state.fault == state.step):
            raise Crash()

    def urlretrieve(url, filename=None, *a, **kw):
        step()
        with zipfile.ZipFile(filename, "w") as z:
            for i in range(3):
                z.writestr(f"{folder}/{'t1/' if nested else ''}q{i}.sql", f"SELECT * FROM r WHERE r.a = {i}")
        if state.fault is not None and bool(state.fault == state.step + 1):
            with open(filename, "r+b") as h:
                h.truncate(10)
        step()
        return filename, None

    class Zip(zipfile.ZipFile):
        def extract(self, *a, **kw):
            step()
            return super().extract(*a, **kw)

        def extractall(self, path=None, members=None, pwd=None):
            for m in members or self.namelist():
                self.extract(m, path, pwd)
            step()

    def move(*a, **kw):
        step()
        r = shutil.move(*a, **kw)
        return r

    fake_shutil = types.SimpleNamespace(**{k: getattr(shutil, k) for k in dir(shutil) if not k.startswith("__")})
    fake_shutil.move = move
    fake_zip = types.SimpleNamespace(**{k: getattr(zipfile, k) for k in dir(zipfile) if not k.startswith("__")})
    fake_zip.ZipFile = Zip
    fake_url = types.SimpleNamespace(request=types.SimpleNamespace(urlretrieve=urlretrieve))
    new = {"pbdir": d, "shutil": fake_shutil, "zipfile": fake_zip, "urllib": fake_url}
    saved = {k: getattr(wl, k) for k in new}
    sources = dict(wl._WorkloadSources)
    if key not in ("ssb",):
        ctx.check(folder in sources, "predefined workloads have a source", key=key)
    present = bool(ctx.bool("placed manually"))
    if present:
        p = d / "workloads" / folder
        p.mkdir(parents=True)
        (p / "mine.sql").write_text("SELECT * FROM mine")
    for k, v in new.items():
        setattr(wl, k, v)
    try:
        for attempt in range(2):
            state.step, state.fault = 0, ctx.int(f"failing step {attempt}", 0, 9)
            try:
                w = wl.fetch_workload(key)
            except Crash:
                ctx.reach("crash")
                continue
            except zipfile.BadZipFile:
                ctx.reach("broken archive")
                continue
            except ValueError as e:
                ctx.check(key == "ssb" and not present, "workloads are fetched", error=str(e)[:100], key=key)
                ctx.check("insert the queries manually" in str(e), "workloads without a source have to be provided manually", error=str(e)[:100], key=key)
                ctx.reach("no source")
                continue
            _complete(ctx, w, present, nested, title, key)
        state.fault = None
        state.step = 0
        if key == "ssb" and not present:
            return
        w = wl.fetch_workload(key)
        _complete(ctx, w, present, nested, title, key)
        steps = state.step
        w = wl.fetch_workload(key)
        ctx.check(state.step == steps, "workloads are downloaded once", key=key)
        _complete(ctx, w, present, nested, title, key)
        ctx.reach("fetched")
    finally:
        for k, v in saved.items():
            setattr(wl, k, v)


def _complete(ctx, w, present, nested, title, key):
    want = ["mine"] if present else [f"{'t1/' if nested else ''}q{i}" for i in range(3)]
    ctx.check(list(w.labels()) == want, "predefined workloads are complete", got=list(w.labels()), want=want, key=key)
    for i, l in enumerate(want):
        ref = "SELECT * FROM mine" if present else f"SELECT * FROM r WHERE r.a = {i}"
        ctx.check(w[l] == parse_query(ref, bind_columns=False), "predefined workloads contain their queries", key=key)
    ctx.check(w.name == title, "predefined workloads are named", name=w.name, key=key)


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    W = "postbound.workloads.Workload."
    R = "postbound.workloads."
    return [
        Harness("operations", operations, shadow=SH, functions=[W + x for x in ("__init__", "queries", "labels", "entries", "head", "label_of", "with_labels", "first", "last", "pick_random", "filter_by", "relabel", "map", "transform", "shuffle", "ordered", "__add__", "__sub__", "__and__", "__or__", "__iter__")],
                bounds={"queries": 4 if DEEP else 3, "labels": "all integers", "operations": 2}, must_reach=list(OPS) + ["queries"]),
        Harness("sequences", sequences, shadow=SH, functions=[W + x for x in ("first", "last", "pick_random", "with_labels", "map", "transform", "shuffle", "ordered", "__add__", "__sub__", "__and__", "__or__")],
                bounds={"queries": 3 if DEEP else 2, "operations": 2, "labels": "all integers"}, must_reach=["shuffle", "first", "last", "plus", "and"]),
        Harness("natural_order", natural_order, shadow=SH, functions=[W + x for x in ("__init__", "with_prefix")], bounds={"queries": 4, "label sets": 3, "prefixes": 6}, must_reach=["done"]),
        Harness("generated", generated, shadow=SH, functions=[R + x for x in ("generate_workload", "wrap_workload")], bounds={"queries": 4 if DEEP else 3, "distinct queries": 4}, must_reach=["generate", "wrap", "labels", "reject"]),
        Harness("benchmarks", benchmarks, shadow=SH, functions=["postbound.bench._wrap_workload"], bounds={"queries": 3}, must_reach=["done"]),
        Harness("files", scratch(files), shadow=SH, functions=[R + "read_workload", W + "read"], bounds={"files": 6, "contents": len(TEXTS), "encodings": 2, "prefixes": 3}, must_reach=["read_workload", "Workload.read", "error", "skipped", "hints", "literal"]),
        Harness("batches", scratch(batches), shadow=SH, functions=[R + "read_batch_workload"], bounds={"lines": 4 if DEEP else 3, "encodings": 2}, must_reach=["batch", "error"]),
        Harness("tables", scratch(tables), shadow=SH, functions=[R + "read_csv_workload"], bounds={"rows": 3, "encodings": 2}, must_reach=["csv"]),
        Harness("predefined", scratch(predefined), shadow=SH, functions=[R + x for x in ("_fetch_workload", "fetch_workload", "job", "job_light", "job_complex", "ssb", "stack", "stats")], bounds={"workloads": 6, "attempts": 3, "failing steps": 9}, must_reach=["crash", "no source", "fetched"]),
    ]
