"""C33: training data provides exactly the requested features of exactly the available samples."""
import itertools
import json
import shutil
import tempfile
import warnings
from pathlib import Path

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Shadow, SymInt

import pandas as pd
import postbound.train._train as tr
from postbound import parse_query, util
from postbound.train import SpecViolations, TrainingData, TrainingDataRepository, TrainingSpec

LEVEL = "model_checking"
ASSUMPTIONS = ["values of samples are arbitrary integers; pandas moves, selects, renames, and concatenates columns of objects without looking at them"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({tr: NS})
warnings.simplefilter("ignore")
DEEP = False
FEATS = ("query", "runtime_ms", "cardinality", "custom")
# columns of the raw data: partially named as other features
RAW = {"same": {"query": "query", "runtime_ms": "runtime_ms", "cardinality": "cardinality", "custom": "custom"},
       "renamed": {"query": "sql", "runtime_ms": "rt", "cardinality": "card", "custom": "x"},
       "swapped": {"query": "query", "runtime_ms": "cardinality", "cardinality": "runtime_ms", "custom": "custom"},
       "shifted": {"query": "sql", "runtime_ms": "query", "cardinality": "runtime_ms", "custom": "cardinality"}}


def same(a, b):
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        return a == b
    return a is b or type(a) is type(b) and bool(a == b)


def column(values):
    s = pd.Series([None] * len(values), dtype=object)
    for i, v in enumerate(values):
        s.iat[i] = v
    return s


def dataset(ctx, tag, feats, naming, rows, extra=True, index=None):
    """provides the data and the values of the features"""
    values = {f: [ctx.int(f"{tag} {f} {i}") for i in range(rows)] for f in feats}
    cols = {RAW[naming][f]: values[f] for f in feats}
    if extra:
        cols = {"unused": [ctx.int(f"{tag} unused {i}") for i in range(rows)], **cols}
    df = pd.DataFrame({c: column(v) for c, v in cols.items()}, columns=list(cols))
    if index is not None:
        df.index = [index] * rows
    return TrainingData(df, source=Path("a.csv"), feature_map={f: RAW[naming][f] for f in feats}), values


def compare(ctx, df, feats, values, rows, msg, key):
    """the data frame consists of these features"""
    ctx.check(list(df.columns) == list(feats), msg + ": exactly the requested features in the requested order", got=list(df.columns), want=list(feats), key=key)
    ctx.check(len(df) == rows, msg + ": exactly the samples of the data set", got=len(df), want=rows, key=key)
    for c, f in enumerate(feats):
        got = [df.iat[i, c] for i in range(len(df))]
        ctx.check(And(*[same(a, b) for a, b in zip(got, values[f])]), msg + ": features have the values of their column", feature=f, key=key)


def rows_of(ctx, data, feats, values, rows, key):
    ctx.check(len(data) == rows, "the length is the number of samples", key=key)
    for i in range(rows):
        row = data[i]
        ctx.check(isinstance(row, list) and len(row) == len(feats) and And(*[same(a, values[f][i]) for a, f in zip(row, feats)]), "samples provide their features", key=key)
    its = list(data)
    ctx.check(len(its) == rows, "iteration provides each sample", got=len(its), key=key)
    for i, row in enumerate(its):
        ctx.check(And(*[same(a, values[f][i]) for a, f in zip(row, feats)]), "iteration provides the samples", key=key)


def ordered(ctx, tag, pool, least=1):
    """an arbitrary sequence of unique features"""
    pool, out = list(pool), []
    n = least + ctx.choose(f"{tag} features", len(pool) + 1 - least)
    for i in range(n):
        out.append(pool.pop(ctx.choose(f"{tag} feature {i}", len(pool))))
    return out


def specs(ctx):
    a = ordered(ctx, "provided", FEATS[:3])
    b = ordered(ctx, "required", FEATS[:3] if not DEEP else FEATS)
    how = ctx.pick("given as", ("list", "tuple", "args", "set", "keys"))
    make = {"list": lambda x: TrainingSpec(list(x)), "tuple": lambda x: TrainingSpec(tuple(x)), "args": lambda x: TrainingSpec(*x), "set": lambda x: TrainingSpec(set(x)), "keys": lambda x: TrainingSpec(dict.fromkeys(x).keys())}[how]
    p, r = make(a), make(b)
    if how != "set":
        ctx.check(list(p.features) == a and list(p) == a, "the order of features is kept", got=list(p), key=how)
    ctx.check(p.feature_set == set(a), "a specification contains its features", key=how)
    v = p.satisfies(r)
    missing = {f for f in b if f not in a}
    ctx.check(isinstance(v, SpecViolations) and set(v.missing_features) == missing, "violations are the missing features", got=set(v.missing_features), want=missing, key=how)
    ctx.check(bool(v) == (not missing) and v.contains_violations() == bool(missing), "specifications are satisfied iff no feature is missing", key=how)
    ctx.check(p.provides(b) == (not missing) and p.requires(tuple(b)) == (not missing), "features are provided iff all of them are available", key=how)
    for f in FEATS:
        ctx.check(p.provides(f) == (f in a) and p.requires(f) == (f in a), "single features are provided iff they are available", feature=f, key=how)
    ctx.check((p == r) == (set(a) == set(b)) and (p != r or hash(p) == hash(r)), "specifications are equal iff they have the same features", key=how)
    ctx.check(p != a and not p == "query", "specifications only equal specifications", key=how)
    for f in missing:
        ctx.check(f in str(v), "missing features are displayed", key=how)
    ctx.reach("violation" if missing else "satisfied")


def conform(ctx):
    naming = ctx.pick("columns", tuple(RAW))
    feats = ordered(ctx, "provided", FEATS[:3])
    rows = ctx.choose("samples", 3) if DEEP else 2 * ctx.choose("samples", 2)
    other = bool(ctx.bool("unused column and repeated index"))
    data, values = dataset(ctx, "data", feats, naming, rows, extra=other, index=7 if other else None)
    req = ordered(ctx, "required", FEATS[:3])
    before = data.samples.copy(deep=False)
    ctx.check(data.provides(feats) and data.satisfies(TrainingSpec(req)).missing_features == frozenset(set(req) - set(feats)), "data sets provide their features", key=naming)
    ctx.check(set(data.spec.feature_set) == set(feats) and dict(data.feature_map) == {f: RAW[naming][f] for f in feats}, "data sets describe their features", key=naming)
    spec = ctx.pick("requested by", (TrainingSpec, list))(req)
    fails = not set(req) <= set(feats)
    try:
        got = data.as_df(spec if isinstance(spec, TrainingSpec) else TrainingSpec(spec))
    except ValueError:
        ctx.check(fails, "available features are provided", key=naming)
        got = None
    ctx.check((got is None) == fails, "missing features are rejected", key=naming)
    try:
        sub = data.conform_to(spec)
    except ValueError:
        ctx.check(fails, "available features are provided", key=naming)
        ctx.reach("reject")
        sub = None
    ctx.check((sub is None) == fails, "missing features are rejected", key=naming)
    # the complete data set
    full = data.as_df()
    for f in feats:
        cols = [i for i, c in enumerate(full.columns) if c == f]
        ctx.check(len(cols) == 1, "all features are provided under their name", feature=f, got=list(full.columns), key=naming)
        ctx.check(And(*[same(full.iat[i, cols[0]], values[f][i]) for i in range(rows)]), "features have the values of their column", feature=f, key=naming)
    ctx.check(len(full) == rows, "all samples are provided", key=naming)
    rows_of(ctx, data, feats, values, rows, naming)
    if got is not None:
        compare(ctx, got, req, values, rows, "as_df", naming)
        ctx.check(list(sub.spec.features) == req, "the features of a data set are the requested ones in their order", got=list(sub.spec.features), want=req, key=naming)
        compare(ctx, sub.as_df(), req, values, rows, "conform_to", naming)
        compare(ctx, sub.as_df(TrainingSpec(req[::-1])), req[::-1], values, rows, "conform_to", naming)
        rows_of(ctx, sub, req, values, rows, naming)
        again = sub.conform_to(req[:1])
        compare(ctx, again.as_df(), req[:1], values, rows, "conform_to twice", naming)
        for f in feats:
            if f not in req:
                ctx.check(not sub.provides(f), "other features are not available any longer", key=naming)
        ctx.check(str(sub.source) == "a.csv", "the source is kept", key=naming)
        ctx.reach("conform")
    after = data.samples
    ctx.check(list(after.columns) == list(before.columns) and all(after.iat[i, j] is before.iat[i, j] for i in range(rows) for j in range(len(before.columns))), "the original data set remains as it is", key=naming)


def shared(ctx):
    """several features can be taken from the same column"""
    n = ctx.choose("samples", 3)
    vals = [ctx.int(f"value {i}") for i in range(n)]
    data = TrainingData(pd.DataFrame({"x": column(vals), "y": column(vals)}), feature_map={"cardinality": "x", "rows": "x", "y": "y"})
    req = ordered(ctx, "required", ("cardinality", "rows", "y"))
    values = {f: vals for f in ("cardinality", "rows", "y")}
    compare(ctx, data.as_df(TrainingSpec(req)), req, values, n, "as_df", "shared")
    sub = data.conform_to(req)
    compare(ctx, sub.as_df(TrainingSpec(req)), req, values, n, "conform_to", "shared")
    rows_of(ctx, sub, req, values, n, "shared")
    ctx.reach("done")


SETS = (("query", "cardinality"), ("cardinality", "query"), ("query", "runtime_ms"), ("query", "runtime_ms", "cardinality"), ("custom", "cardinality", "query"), ("cardinality",))


def merged(ctx):
    n = 1 + ctx.choose("data sets", 3)
    sets = []
    for i in range(n):
        feats = ctx.pick(f"features {i}", SETS if DEEP or n < 3 else (SETS[:1], SETS[1:5], SETS[1:3])[i])
        naming = ctx.pick(f"columns {i}", (("renamed", "swapped"), ("swapped", "same"), ("renamed",))[i])
        rows = ctx.choose(f"samples {i}", 3) if DEEP else (2, ctx.choose(f"samples {i}", 2) if n < 3 else 1, 1)[i]
        sets.append((feats, rows) + dataset(ctx, f"data {i}", feats, naming, rows))
    req = list(ctx.pick("required", (("query", "cardinality"), ("cardinality",), ("cardinality", "query"), ("runtime_ms", "query"))))
    how = ctx.pick("method", ("merge", "merged", "first", "all") + (("merge_with",) if n == 2 else ()))
    match = [s for s in sets if set(req) <= set(s[0])]
    spec = TrainingSpec(req)
    repo = TrainingDataRepository()
    for s in sets:
        r = repo.register(s[2])
        ctx.check(r is repo, "registration can be chained", key=how)
    total = lambda ss: {f: [v for s in ss for v in s[3][f]] for f in req}
    key = f"{how} {n}"
    if how == "merge":
        try:
            got = TrainingData.merge(iter([s[2] for s in sets]), according_to=spec)
        except ValueError:
            ctx.check(len(match) < n, "data sets which satisfy the specification can be merged", key=key)
            ctx.reach("reject")
            return
        ctx.check(len(match) == n, "data sets which do not satisfy the specification are rejected", key=key)
        whole(ctx, got, req, total(match), sum(s[1] for s in match), key)
    elif how == "merged":
        got = repo.retrieve_merged(spec)
        ctx.check((got is None) == (not match), "training data is available iff there is a data set for the specification", key=key)
        if got is not None:
            whole(ctx, got, req, total(match), sum(s[1] for s in match), key)
    elif how == "first":
        got = repo.retrieve_first(spec)
        ctx.check((got is None) == (not match), "training data is available iff there is a data set for the specification", key=key)
        if got is not None:
            whole(ctx, got, req, match[0][3], match[0][1], key)
    elif how == "all":
        got = repo.retrieve_all(spec)
        ctx.check(len(got) == len(match), "exactly the data sets which satisfy the specification are provided", key=key)
        for g, s in zip(got, match):
            compare(ctx, g.as_df(spec), req, s[3], s[1], "all", key)
    else:
        (fa, ra, a, va), (fb, rb, b, vb) = sets
        ok = set(fa) <= set(fb)
        try:
            got = a.merge_with(b)
        except ValueError:
            ctx.check(not ok, "compatible data sets can be merged", key=key)
            ctx.reach("reject")
            return
        ctx.check(ok, "incompatible data sets are rejected", key=key)
        ctx.check(list(got.spec.features) == list(fa), "the features of the first data set are used", key=key)
        vals = {f: va[f] + vb[f] for f in fa}
        compare(ctx, got.as_df(TrainingSpec(fa)), list(fa), vals, ra + rb, "merge_with", key)
        rows_of(ctx, got, list(fa), vals, ra + rb, key)
    for feats, rows, data, values in sets:
        compare(ctx, data.as_df(TrainingSpec(feats)), list(feats), values, rows, "the operands remain as they are", key)
    ctx.reach(how)


def whole(ctx, got, req, values, rows, key):
    ctx.check(list(got.spec.features) == req, "the features are the requested ones in their order", got=list(got.spec.features), want=req, key=key)
    compare(ctx, got.as_df(TrainingSpec(req)), req, values, rows, "merged", key)
    compare(ctx, got.as_df(), req, values, rows, "merged", key)
    rows_of(ctx, got, req, values, rows, key)


# ------------------------------------------------------------------ files
QUERIES = ("SELECT * FROM r WHERE r.a = 1", "SELECT count(*) FROM r, s WHERE r.a = s.b AND s.c = 'x''y \"z\" \u00e4'", "SELECT r.a AS \"B\" FROM r WHERE r.c LIKE '%,;\\%'")


def files(ctx):
    d = tempfile.mkdtemp()
    try:
        _files(ctx, Path(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Point:
    def __init__(self, x):
        self.x = x

    def __json__(self):
        return {"x": self.x}


def _files(ctx, d):
    fmt = ctx.pick("format", ("csv", "parquet", "json", "feather", "CSV"))
    n = 1 + ctx.choose("samples", 3)
    kinds = [ctx.pick(f"query {i}", range(3)) if i < 2 else 2 for i in range(n)]
    parsed = bool(ctx.bool("parsed queries"))
    qs = [parse_query(QUERIES[k]) for k in kinds]
    cards = [1000 * i + 7 for i in range(n)]
    rts = [0.5 + i for i in range(n)]
    notes = [ctx.pick(f"note {i}", ("plain", None, 'with "quotes", and \u00e4')) if i < 2 else "z" for i in range(n)]
    complex_ = [Point(i) if i % 2 == 0 else {"a": [i, None, "x"]} for i in range(n)]
    if not any(isinstance(x, str) for x in notes):
        notes[0] = "plain"
    df = pd.DataFrame({"query": qs if parsed else [str(q) for q in qs], "cardinality": cards, "runtime_ms": rts, "note": notes, "extra": complex_})
    before = {c: list(df[c]) for c in df.columns}
    path = d / "sub" / f"samples.{fmt}"
    util.write_df(df, ctx.pick("path", (str, Path))(path))
    ctx.check(all(len(df) == len(v) and all(a is b or a == b or (a != a and b != b) for a, b in zip(df[c], v)) for c, v in before.items()) and list(df.columns) == list(before), "the written data frame remains as it is", key=fmt)
    data = TrainingData.from_df(path if n % 2 else str(path))
    ctx.check(Path(data.source) == path, "the source is the file", key=fmt)
    ctx.check(list(data.spec.features) == list(before), "features are the columns of the file", got=list(data.spec.features), key=fmt)
    got = data.as_df()
    ctx.check(len(got) == n, "all samples are read", key=fmt)
    ctx.check(list(got["query"]) == qs, "queries are read as they were written", got=[str(q) for q in got["query"]], key=fmt)
    ctx.check(list(got["cardinality"]) == cards and list(got["runtime_ms"]) == rts, "numbers are read as they were written", key=fmt)
    ctx.check(all(a == b or (b is None and pd.isna(a)) for a, b in zip(got["note"], notes)), "texts are read as they were written", got=list(got["note"]), want=notes, key=fmt)
    plain = [x.__json__() if isinstance(x, Point) else x for x in complex_]
    decode = lambda x: json.loads(x) if isinstance(x, str) else x
    ctx.check([decode(x) for x in got["extra"]] == plain, "complex values are written as JSON", got=list(got["extra"]), key=fmt)
    # data frames can be used several times
    raw = pd.DataFrame({"query": [str(q) for q in qs], "cardinality": cards})
    one, two = TrainingData.from_df(raw, source="x.csv"), TrainingData.from_df(raw)
    ctx.check(list(one.as_df()["query"]) == qs and list(two.as_df()["query"]) == qs, "data frames can be used repeatedly", key="frame")
    ctx.check(list(raw["query"]) == [str(q) for q in qs], "data frames remain as they are", key="frame")
    ctx.check(one.source == Path("x.csv"), "the source is used", key="frame")
    ctx.reach(fmt)


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    S, D, R = "postbound.train.TrainingSpec.", "postbound.train.TrainingData.", "postbound.train.TrainingDataRepository."
    return [
        Harness("specs", specs, shadow=SH, functions=[S + x for x in ("__init__", "provides", "requires", "satisfies", "__eq__", "__hash__")] + ["postbound.train.SpecViolations"], bounds={"features": 4}, must_reach=["violation", "satisfied"]),
        Harness("conform", conform, shadow=SH, functions=[D + x for x in ("conform_to", "as_df", "satisfies", "provides", "__getitem__", "__iter__", "__len__")], bounds={"features": 3, "samples": 2, "names of columns": 4, "values": "all integers"}, must_reach=["conform", "reject"]),
        Harness("shared", shared, shadow=SH, functions=[D + x for x in ("conform_to", "as_df")], bounds={"features": 3, "samples": 2, "values": "all integers"}, must_reach=["done"]),
        Harness("merged", merged, shadow=SH, functions=[D + x for x in ("merge", "merge_with")] + [R + x for x in ("register", "retrieve_first", "retrieve_all", "retrieve_merged")], bounds={"data sets": 3, "features": 4, "samples": 4, "values": "all integers"}, must_reach=["merge", "merged", "first", "all", "merge_with", "reject"]),
        Harness("files", files, shadow=SH, functions=[D + "from_df", "postbound.util.read_df", "postbound.util.write_df"], bounds={"formats": 4, "samples": 3, "queries": 3}, must_reach=["csv", "parquet", "json", "feather"]),
    ]
