"""C21: the Postgres hint blocks (pg_hint_plan and pg_lab) encode exactly the given optimizer decisions."""
import math

from vx.engine import Harness
from vx.hintref import DJ, IO, JA, JO, N, PA, PP, Quiet, SA, SO, TABS, Cardinality, JoinTree, LogicalJoinTree, ids, order_of, read, same_map, skeleton, tree_of, value
from vx.planref import nan
from vx.sym import NUM_SHADOW, And, Not, Shadow

import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
import postbound.postgres as postgres
from postbound import ColumnReference, TableReference, parse_query, transform
from postbound._qep import QueryPlan
from postbound.qal import ColumnExpression, Explain, Limit

LEVEL = "model_checking"
ASSUMPTIONS = ["no server: the hint service is used without a connection; geqo_threshold is an arbitrary positive integer", "table identifiers are ordinary identifiers; cardinalities arbitrary non-negative integers, unknown or infinite; workers arbitrary positive integers",
               "an index scan may be hinted as index scan or as index-only scan", "the documentation of pg_hint_plan and pg_lab is the reference for the syntax and the meaning of the hints"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS, postgres: {k: v for k, v in NS.items()}})
F = ["PostgresHintService.generate_hints", "_generate_pghintplan_hints", "_generate_pglab_hints", "_generate_pglab_plan", "_walk_join_order", "_extract_plan_join_order", "PostgresExplainClause.__str__", "PostgresLimitClause.__str__", "operators_from_plan", "parameters_from_plan", "integrate_workers_from"]

TABLES = [TableReference("r"), TableReference("s", "x"), TableReference("t", "t2", schema="sch"), TableReference("u")]
QUERY = parse_query("SELECT * FROM r, s AS x, sch.t AS t2, u WHERE r.a = x.a AND x.b = t2.b AND t2.c = u.c")
SCANS = {SO.SequentialScan: {"SeqScan"}, SO.IndexScan: {"IndexScan", "IndexOnlyScan", "IdxScan"}, SO.IndexOnlyScan: {"IndexOnlyScan", "IdxScan"}, SO.BitmapScan: {"BitmapScan"}}
JOINS = {JO.NestedLoopJoin: {"NestLoop"}, JO.HashJoin: {"HashJoin"}, JO.SortMergeJoin: {"MergeJoin"}}
INTER = {"pg_hint_plan": {IO.Memoize: {"Memoize"}}, "pg_lab": {IO.Memoize: {"Memo"}, IO.Materialize: {"Material"}}}
SETTINGS = {JO.NestedLoopJoin: "enable_nestloop", JO.HashJoin: "enable_hashjoin", JO.SortMergeJoin: "enable_mergejoin", SO.SequentialScan: "enable_seqscan", SO.IndexScan: "enable_indexscan", SO.IndexOnlyScan: "enable_indexonlyscan",
            SO.BitmapScan: "enable_bitmapscan", IO.Memoize: "enable_memoize", IO.Materialize: "enable_material", IO.Sort: "enable_sort"}
SCAN_NAMES, JOIN_NAMES, INTER_NAMES = set().union(*SCANS.values()), set().union(*JOINS.values()), {"Memoize", "Memo", "Material"}
BACKENDS = ["pg_hint_plan", "pg_lab"]


class FakeServer:
    def __init__(self, threshold):
        self.config = {"geqo_threshold": threshold}


def service(backend, threshold=12):
    s = object.__new__(postgres.PostgresHintService)
    s._postgres_db = FakeServer(threshold)
    s.backend = backend
    return s


class Decoded:
    """what a hint block says"""

    def __init__(self, backend, hint):
        self.ops, self.cards, self.par, self.sets, self.config, self.order, self.errors, self.result = {}, {}, {}, {}, {}, None, [], None
        block = read(hint.query_hints, "/*+" if backend == "pg_hint_plan" else "/*=pg_lab=")
        if block is None:
            self.errors.append("no hint block")
            return
        lab = backend == "pg_lab"
        for name, args in block:
            tabs = frozenset(a for a in args if isinstance(a, str) and a[0] not in "#'")
            if name in SCAN_NAMES | JOIN_NAMES | INTER_NAMES:
                if lab and isinstance(args[-1], list):
                    if args[-1][:2] != ["workers", "="] or len(args[-1]) != 3:
                        self.errors.append(name)
                    else:
                        self.note(self.par, tabs, value(args[-1][2]))
                if len(tabs) != len([a for a in args if isinstance(a, str)]) or name in SCAN_NAMES and len(tabs) != 1 or name in JOIN_NAMES and len(tabs) < 2:
                    self.errors.append(f"{name}{args}")
                self.note(self.ops, (tabs, "inter" if name in INTER_NAMES else "op"), name)
            elif name == ("Card" if lab else "Rows"):
                if not (isinstance(args[-1], str) and args[-1].startswith("#")):
                    self.errors.append(f"{name}{args}")
                self.note(self.cards, tabs, value(args[-1][1:]))
            elif name == ("JoinOrder" if lab else "Leading"):
                if self.order is not None or len(args) != 1:
                    self.errors.append(f"{name}{args}")
                self.order = args[0]
            elif name == "Set" and (args[1] == "=" if lab else len(args) == 2):
                self.note(self.sets, args[0], args[-1].strip("'"))
            elif name == "Config" and lab and args[1] == "=" and len(args) == 3:
                self.note(self.config, args[0], args[2])
            elif name == "Parallel" and not lab and len(args) == 3 and args[2] == "hard":
                self.note(self.par, frozenset([args[0]]), value(args[1]))
            elif name == "Result" and lab and args[:2] == ["workers", "="]:
                self.result = value(args[2])
            else:
                self.errors.append(f"{name}{args}")

    def note(self, d, k, v):
        if k in d and not (d is self.cards):
            self.errors.append(f"duplicate {k}")
        d[k] = v


def on(v):
    return {"on": True, "true": True, "1": True, "off": False, "false": False, "0": False}.get(v.lower(), v)


def check_common(ctx, d, r, key, order, ops, cards, sets, exec_mode, backend, lab_plan=False):
    ctx.check(not d.errors, "the hints are well-formed and not contradictory", key=f"{key} {d.errors}")
    ctx.check(d.order == order, "the join order and its directions are enforced", key=key)
    ctx.check(set(d.ops) == set(ops) and all(d.ops[k] in ops[k] for k in ops), "exactly the operators are enforced for their intermediates", key=f"{key} {sorted((sorted(k[0]), v) for k, v in d.ops.items())}")
    ctx.check(same_map(d.cards, cards), "exactly the known cardinalities are enforced for their intermediates", key=key)
    ctx.check({k: on(v) for k, v in d.sets.items()} == sets, "exactly the settings are enforced", key=f"{key} {d.sets}")
    ctx.check(d.config == ({} if backend == "pg_hint_plan" else {"plan_mode": "full" if lab_plan else "anchored", **({"exec_mode": exec_mode} if exec_mode else {})}), "the configuration of the backend", key=f"{key} {d.config}")


def unchanged(ctx, q, key):
    ctx.check(q.hints is not None and transform.drop_hints(q) == QUERY, "the query is not changed otherwise", key=key)


def parts(nmax):
    """join orders, operators, intermediates and switches"""
    def body(ctx):
        backend = ctx.pick("backend", BACKENDS)
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABLES[:n])
        with_order, base, special = ctx.choose("order", 2), ctx.choose("base", 2), ctx.choose("special", len(r.nodes()))
        ops, exp, switches, unsupported = PA(), {}, {}, 0
        for i, x in enumerate(r.nodes()):
            op = None
            if i == special:
                op = ctx.pick("op", [None, *(SCANS if x.scan else JOINS)])
            elif base:
                op = SO.BitmapScan if x.scan else JO.NestedLoopJoin
            if op is None:
                continue
            exp[ids(x), "op"] = (SCANS if x.scan else JOINS)[op]
            ops.add(SA(op, x.table) if x.scan else JA(op, x.tables()) if i % 2 or i == special and ctx.choose("directed", 2) else DJ(op, inner=x.kids[1].tables(), outer=x.kids[0].tables()))
        k = ctx.choose("inter", 4)
        if k:
            x = r.nodes()[special]
            io = [IO.Memoize, IO.Materialize, IO.Sort][k - 1]
            ops.set_intermediate_operator(io, x.tables())
            if io in INTER[backend]:
                exp[ids(x), "inter"] = INTER[backend][io]
            else:
                unsupported = 1
        which = ctx.choose("switch", 3) if special == 0 and not k else 0
        if which:
            for i, (op, s) in enumerate(SETTINGS.items()):
                if i % 2 == which - 1:
                    ops.set(op, i % 4 > 1)
                    switches[s] = i % 4 > 1
        tree = [JoinTree, LogicalJoinTree][special % 2] if with_order else None
        kw = {} if tree is None else {"join_order": tree_of(r, tree)}
        if ops or not base:
            kw["physical_operators"] = ops
        key = f"{backend} {r.key()} {sorted(kw)}"
        geqo = ctx.int("geqo_threshold", 1, 100)
        with Quiet() as w:
            q = service(backend, geqo).generate_hints(QUERY, **kw)
        d = Decoded(backend, q.hints)
        if backend == "pg_hint_plan":
            big = geqo < 4
            ctx.check(("geqo" in d.sets) == big, "the genetic optimizer is disabled iff it would be used", key=key)
            if big:
                switches["geqo"] = False
        check_common(ctx, d, r, key, order_of(r) if with_order and n > 1 else None, exp, {}, switches, None, backend)
        ctx.check(not d.par and d.result is None and not q.hints.preparatory_statements, "nothing else is enforced", key=key)
        ctx.check(not unsupported or len(w.texts) > 0, "unsupported operators are reported", key=key)
        unchanged(ctx, q, key)
        ctx.reach(backend)
    return body


def params(ctx):
    """cardinalities, settings and modes"""
    backend = ctx.pick("backend", BACKENDS)
    pp, cards, sets = PP(), {}, {}
    spaces = [TABLES[:1], TABLES[:2], TABLES[1:4], TABLES]
    reported = False
    for i, s in enumerate(spaces):
        k = ctx.choose(f"k{i}", 4)
        if k == 0:
            continue
        v = [ctx.int(f"c{i}", 0, 10**12), math.nan, math.inf][k - 1]
        pp.add_cardinality(s, v)
        if k == 1:
            cards[frozenset(t.identifier() for t in s)] = v
        reported |= k == 3
    what = ctx.choose("settings", 3)
    if what:
        pp.set_system_settings(**{"work_mem": "1GB"} if what == 1 else {"jit": False, "work_mem": "64MB"})
    mode = ctx.pick("mode", [None, "sequential", "parallel"])
    if mode:
        pp.execution_mode = mode
    with Quiet() as w:
        q = service(backend).generate_hints(QUERY, plan_parameters=pp)
    d = Decoded(backend, q.hints)
    given = {k: v for k, v in (({"work_mem": "1GB"} if what == 1 else {"jit": "False", "work_mem": "64MB"}) if what else {}).items()}
    given = {k: on(v) for k, v in given.items()}
    key = f"{backend} {what} {mode}"
    check_common(ctx, d, None, key, None, {}, cards, given if backend == "pg_lab" else {}, mode, backend)
    prep = sorted(x.strip() for x in (q.hints.preparatory_statements or "").split(";") if x.strip())
    ctx.check(len(prep) == (len(given) if backend == "pg_hint_plan" else 0) and all(any(p.split()[-3:-1] == [k, "TO"] and p.startswith("SET ") and on(p.split()[-1].strip("'")) == v for p in prep) for k, v in (given.items() if prep else [])), "exactly the settings are enforced", key=f"{key} {prep}")
    ctx.check(not d.par and d.result is None, "nothing else is enforced", key=key)
    ctx.check(len(w.texts) > 0 or not (reported or mode and backend == "pg_hint_plan"), "unsupported parameters are reported", key=key)
    unchanged(ctx, q, key)
    ctx.reach(backend)


def workers(ctx):
    """at most one part of the plan is parallelized: the first one; scans come before joins, operators before parameters"""
    backend = ctx.pick("backend", BACKENDS)
    ops, pp, par = PA(), PP(), []
    scans = ctx.choose("scans", 3)
    for i in range(scans):
        w = ctx.int(f"w{i}", 1, 64)
        ops.add(SA(SO.IndexScan, TABLES[i], w))
        par.append(([TABLES[i]], w))
    joins = ctx.choose("joins", 3)
    for i in range(joins):
        w = ctx.int(f"j{i}", 1, 64)
        tabs = TABLES[:2 + i]
        ops.add(JA(JO.HashJoin, tabs, parallel_workers=w))
        par.append((tabs, w))
    plain = ctx.choose("plain", 2)
    if plain:
        ops.add(SA(SO.SequentialScan, TABLES[3]))
    where = ctx.choose("params", 4)
    if where:
        tabs = [TABLES[3:], TABLES[1:2], TABLES[:3]][where - 1]
        w = ctx.int("p", 1, 64)
        pp.set_workers(tabs, w)
        if backend == "pg_hint_plan":
            par.append((tabs, w))
        else:
            known = {1: plain, 2: scans > 1, 3: joins > 1}[where]
            if known:
                i = next((i for i, (t, _) in enumerate(par) if frozenset(t) == frozenset(tabs)), None)
                if i is not None:
                    par[i] = (tabs, w)
                else:  # the plain scan
                    par.insert(scans, (tabs, w))
    kw = {"physical_operators": ops} if ops else {}
    if where:
        kw["plan_parameters"] = pp
    ctx.assume(bool(kw))
    key = f"{backend} {scans} {joins} {plain} {where}"
    with Quiet() as wn:
        q = service(backend).generate_hints(QUERY, **kw)
    d = Decoded(backend, q.hints)
    exp = {}
    for i in range(scans):
        exp[frozenset([TABLES[i].identifier()]), "op"] = SCANS[SO.IndexScan]
    for i in range(joins):
        exp[frozenset(t.identifier() for t in TABLES[:2 + i]), "op"] = JOINS[JO.HashJoin]
    if plain:
        exp[frozenset([TABLES[3].identifier()]), "op"] = SCANS[SO.SequentialScan]
    check_common(ctx, d, None, key, None, exp, {}, {}, None, backend)
    first, count = None, 0
    for tabs, w in par:
        if w > 1:
            count += 1
            first = first or (tabs, w)
    if first is None:
        want = {}
    elif backend == "pg_lab":
        want = {frozenset(t.identifier() for t in first[0]): first[1]}
    else:
        want = {frozenset([t.identifier()]): first[1] for t in first[0]}
    ctx.check(same_map(d.par, want), "the first parallel part of the plan is parallelized, nothing else", key=f"{key} {sorted(map(sorted, d.par))}")
    ctx.check(d.result is None and (count < 2 or len(wn.texts) > 0), "additional workers are reported", key=key)
    unchanged(ctx, q, key)
    ctx.reach("parallel" if first else "sequential")


def plan(nmax):
    """entire plans with auxiliary nodes"""
    def body(ctx):
        backend = ctx.pick("backend", BACKENDS)
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABLES[:n])
        r.op = [JO.HashJoin, JO.NestedLoopJoin, JO.SortMergeJoin][ctx.choose("op", 3)] if n > 1 else list(SO)[ctx.choose("op", 4)]
        nodes = r.nodes()
        at, aux, w = ctx.choose("at", len(nodes)), ctx.choose("aux", 5), ctx.choose("workers", 3)
        act, unk = ctx.choose("actual", 2), ctx.choose("unknown", len(nodes) + 1)
        for i, x in enumerate(nodes):
            x.name = x.op.name
            x.est = math.nan if unk == i + 1 else ctx.int(f"e{i}", 0, 1000)
            x.act = ctx.int(f"m{i}", 0, 1000) if act else math.nan
        W = ctx.int("w", 2, 64) if w else 0
        if w == 1:
            nodes[at].workers = W

        def wrap(x, i=[0]):
            y = N(x.op, [wrap(k) for k in x.kids], table=x.table)
            y.est, y.act, y.workers = x.est, x.act, x.workers
            if x is nodes[at] and aux:
                z = N(None, [y], name="Gather") if aux in (1, 2) else N(IO.Memoize if aux == 3 else IO.Materialize, [y])
                z.est, z.act = x.est, x.act
                if w == 2:
                    z.workers = W
                if aux == 2:
                    z = N(None, [z], name="Aggregate")
                    z.est, z.act = 1, math.nan
                return z
            return y
        ctx.assume(w != 2 or aux)
        ctx.assume((aux != 2 or at == 0) and not (w == 2 and at == 0 and aux > 2))
        p = wrap(r)
        if ctx.choose("lookup", 2) and n > 1:
            x = p.nodes()[-1]
            x.extra = {"lookup_key": ColumnExpression(ColumnReference("a", TABLES[0]))}
        real = p.real()
        key = f"{backend} {p.key()} {at} {aux} {w} {act} {unk}"
        with Quiet():
            q = service(backend).generate_hints(QUERY, real)
        d = Decoded(backend, q.hints)
        exp, cards = {}, {}
        for x in reversed(p.nodes()):  # bottom-up
            if x.op is None:
                if backend == "pg_hint_plan" and ids(x) not in cards and not (nan(x.act) and nan(x.est)):
                    cards[ids(x)] = x.est if nan(x.act) else x.act
                continue
            known = INTER[backend] if isinstance(x.op, IO) else SCANS if x.scan else JOINS
            if x.op in known:
                exp[ids(x), "inter" if isinstance(x.op, IO) else "op"] = known[x.op]
            if not (nan(x.act) and nan(x.est)) and (x.op in known or backend == "pg_hint_plan"):
                cards.setdefault(ids(x), x.est if nan(x.act) else x.act)
        order = order_of(r)
        if n == 1 and d.order is None:
            order = None
        check_common(ctx, d, None, key, order, exp, cards, {}, None, backend, lab_plan=True)
        if not w:
            ctx.check(not d.par and d.result is None, "nothing is parallelized", key=key)
        elif backend == "pg_hint_plan":
            ctx.check(d.result is None and same_map(d.par, {frozenset([t]): W for t in ids(nodes[at])}), "the workers belong to the tables below the node", key=f"{key} {sorted(map(sorted, d.par))}")
        elif w == 2 and at == 0 and aux in (1, 2):
            ctx.check(d.result is not None and d.result == W and not d.par, "the entire plan is parallelized", key=key)
        else:
            ctx.check(d.result is None and same_map(d.par, {ids(nodes[at]): W}), "the workers belong to the node", key=f"{key} {sorted(map(sorted, d.par))}")
        unchanged(ctx, q, key)
        ctx.reach(backend)
    return body


def clauses(ctx):
    """EXPLAIN and LIMIT survive, contradictory calls and inactive backends are rejected"""
    backend = ctx.pick("backend", BACKENDS)
    lim = ctx.pick("limit", [None, Limit(limit=0), Limit(limit=5), Limit(offset=3), Limit(limit=0, offset=0), Limit(limit=2, offset=7)])
    ex = ctx.pick("explain", ["", "EXPLAIN ", "EXPLAIN ANALYZE "])
    q = parse_query(ex + "SELECT * FROM r, s AS x WHERE r.a = x.a ORDER BY r.a" )
    if lim is not None:
        q = transform.add_clause(q, lim)
    if ex and ctx.choose("noformat", 2):
        q = transform.replace_clause(q, Explain("ANALYZE" in ex))
    h = service(backend).generate_hints(q, join_order=tree_of(N(JO.HashJoin, [N(SO.SequentialScan, table=t) for t in TABLES[:2]])))
    ctx.check(bool(h.explain) == bool(ex) and (not ex or (h.explain.analyze == ("ANALYZE" in ex) and h.explain.target_format == q.explain.target_format)), "EXPLAIN is kept")
    if ex:
        t = str(h.explain)
        ctx.check(t.startswith("EXPLAIN (") and t.strip().endswith(")") and ("ANALYZE" in t) == ("ANALYZE" in ex) and ("FORMAT" not in t or f"FORMAT {q.explain.target_format or 'TEXT'}" in t), "EXPLAIN in Postgres syntax", key=t)
    want = () if lim is None else (lim.limit, lim.offset)
    ctx.check((h.limit_clause is None) == (lim is None) and (lim is None or (h.limit_clause.limit, h.limit_clause.offset) == want), "LIMIT is kept", key=str(want))
    words = [] if lim is None else (["LIMIT", str(lim.limit)] if lim.limit is not None else []) + (["OFFSET", str(lim.offset)] if lim.offset is not None else [])
    if lim is not None:
        ctx.check(limit_of(str(h.limit_clause).split()) == limit_of(words), "LIMIT in Postgres syntax", key=str(h.limit_clause))
    for text in (str(h), service(backend).format_query(h)):
        toks = text.replace(";", " ").split()
        i = toks.index("BY")
        ctx.check(limit_of(toks[i + 2:]) == limit_of(words), "LIMIT is kept in the text", key=f"{want} {toks[i + 2:]}")
        j = 2 if backend == "pg_hint_plan" else 2
        ctx.check(toks.count("/*+" if backend == "pg_hint_plan" else "/*=pg_lab=") == 1, "the text has the hint block")
    p = QueryPlan(SO.SequentialScan, base_table=TABLES[0])
    other = ctx.pick("other", [{"join_order": JoinTree.scan(TABLES[0])}, {"physical_operators": PA()}, {"plan_parameters": PP()}])
    try:
        service(backend).generate_hints(q, p, **other)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "entire plans and parts of them cannot be combined")


def limit_of(words):
    """(limit, offset) of a Postgres limit clause"""
    res, i = [None, None], 0
    while i < len(words):
        if words[i] == "LIMIT":
            res[0] = int(words[i + 1])
            i += 2
        elif words[i] == "OFFSET":
            res[1] = int(words[i + 1]) or None
            i += 3 if words[i + 2:i + 3] in (["ROWS"], ["ROW"]) else 2
        elif words[i] == "FETCH" and words[i + 1] in ("FIRST", "NEXT") and words[i + 3] in ("ROWS", "ROW") and words[i + 4] == "ONLY":
            res[0] = int(words[i + 2])
            i += 5
        else:
            return ("?", words[i:])
    return tuple(res)


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("parts", parts(4 if t else 3), f"all join orders of up to {4 if t else 3} tables x all operators at one node x base assignment x intermediates x switches; symbolic geqo threshold", BACKENDS),
            Hn("params", params, "four intermediates with known, unknown and infinite cardinalities, settings, modes", BACKENDS), Hn("workers", workers, "up to two scans and joins with workers, one worker parameter; symbolic workers", ["parallel", "sequential"]),
            Hn("plan", plan(4 if t else 3), f"all plans of up to {4 if t else 3} tables with up to two auxiliary nodes and workers at any node", BACKENDS), Hn("clauses", clauses, "all kinds of LIMIT and EXPLAIN")]
