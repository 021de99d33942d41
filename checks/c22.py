"""C22: the DuckDB (quack_lab) hint blocks encode exactly the given optimizer decisions."""
import math
import re

from vx.engine import Harness
from vx.hintref import DJ, IO, JA, JO, N, PA, PP, Quiet, SA, SO, TABS, Cardinality, JoinTree, LogicalJoinTree, ids, order_of, read, same_map, skeleton, tree_of, value
from vx.planref import nan
from vx.sym import NUM_SHADOW, Shadow

import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
import postbound.duckdb as duckdb
from postbound import TableReference, parse_query, transform
from postbound._qep import QueryPlan
from postbound.db import UnsupportedDatabaseFeatureError
from postbound.qal import Limit

LEVEL = "model_checking"
ASSUMPTIONS = ["the hint service is used without a connection; the quack_lab hint syntax documented in the code is the reference", "table identifiers are ordinary identifiers; cardinalities arbitrary non-negative integers, unknown or infinite", "execution modes are outside"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS, duckdb: NS})
F = ["DuckDBHintService.generate_hints", "_generate_join_order_hint", "_generate_operator_hints", "_generate_parameter_hints", "_add_hint_block", "HintParts.merge_with", "jointree_from_plan", "operators_from_plan", "parameters_from_plan"]

TABLES = [TableReference("r"), TableReference("s", "x"), TableReference("t", "t2", schema="sch"), TableReference("u")]
QUERY = parse_query("SELECT * FROM r, s AS x, sch.t AS t2, u WHERE r.a = x.a AND x.b = t2.b AND t2.c = u.c")
SCANS = {SO.SequentialScan: "SeqScan", SO.IndexScan: "IdxScan"}
JOINS = {JO.NestedLoopJoin: "NestLoop", JO.HashJoin: "HashJoin", JO.SortMergeJoin: "MergeJoin"}
SETTINGS = {JO.NestedLoopJoin: "enable_nestloop", JO.HashJoin: "enable_hashjoin", JO.SortMergeJoin: "enable_mergejoin", SO.SequentialScan: "enable_seqscan", SO.IndexScan: "enable_indexscan"}


class FakeDatabase:
    name = "DuckDB"
    system_name = "DuckDB"

    def database_system_name(self):
        return "DuckDB"

    def __str__(self):
        return "DuckDB"


def service():
    return duckdb.DuckDBHintService(FakeDatabase())


class Decoded:
    def __init__(self, q):
        self.order, self.ops, self.cards, self.sets, self.errors, self.prep = None, {}, {}, {}, [], {}
        if q.hints is None:
            return
        for line in (q.hints.preparatory_statements or "").split(";"):
            if line.strip():
                m = re.fullmatch(r"SET (\w+) (?:=|TO) (.+)", line.strip())
                if not m:
                    self.errors.append(line)
                else:
                    self.prep[m[1]] = m[2]
        block = read(q.hints.query_hints, "/*=quack_lab=") if q.hints.query_hints else []
        if block is None:
            self.errors.append("block")
            return
        for name, args in block:
            if name == "JoinOrder" and len(args) == 1 and self.order is None:
                self.order = args[0]
            elif name in (*SCANS.values(), *JOINS.values()) and len(set(args)) == len(args):
                self.note(self.ops, frozenset(args), name)
            elif name == "Card" and args[-1].startswith("#"):
                self.note(self.cards, frozenset(args[:-1]), value(args[-1][1:]))
            elif name == "Set" and args[1] == "=" and args[2] in ("'on'", "'off'") and len(args) == 3:
                self.note(self.sets, args[0], args[2] == "'on'")
            else:
                self.errors.append(f"{name}{args}")

    def note(self, d, k, v):
        if k in d:
            self.errors.append(f"duplicate {k}")
        d[k] = v


def check(ctx, q, order, ops, cards, sets, prep, key):
    d = Decoded(q)
    ctx.check(not d.errors, "the hints are well-formed and not contradictory", key=f"{key} {d.errors}")
    ctx.check(d.order == order, "the join order is enforced", key=key)
    ctx.check(d.ops == ops, "exactly the operators are enforced for their intermediates", key=f"{key} {sorted((sorted(k), v) for k, v in d.ops.items())}")
    ctx.check(same_map(d.cards, cards), "exactly the known cardinalities are enforced for their intermediates", key=key)
    ctx.check(d.sets == sets, "exactly the switches are set", key=f"{key} {d.sets}")
    ctx.check(d.prep == prep, "exactly the settings are made", key=f"{key} {d.prep}")
    ctx.check((transform.drop_hints(q) if q.hints else q) == QUERY, "the query is not changed otherwise", key=key)


def parts(nmax):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABLES[:n])
        with_order, base, special = ctx.choose("order", 2), ctx.choose("base", 2), ctx.choose("special", len(r.nodes()))
        ops, exp, sets, bad, prep, cards, kw = PA(), {}, {}, False, {}, {}, {}
        for i, x in enumerate(r.nodes()):
            op = ctx.pick("op", [None, *(SO if x.scan else JO)]) if i == special else (SO.IndexScan if x.scan else JO.NestedLoopJoin) if base else None
            if op is None:
                continue
            bad |= op not in SCANS and op not in JOINS
            exp[ids(x)] = SCANS.get(op) or JOINS.get(op)
            ops.add(SA(op, x.table) if x.scan else JA(op, x.tables()) if i % 2 else DJ(op, inner=x.kids[1].tables(), outer=x.kids[0].tables()))
        more = ctx.choose("more", 6)
        if more == 1:
            for i, (op, s) in enumerate(SETTINGS.items()):
                ops.set(op, bool(i % 2))
                sets[s] = bool(i % 2)
        elif more == 2:
            ops.set_intermediate_operator(IO.Memoize, r.tables())
            bad = True
        elif more == 3:
            ops.set(SO.BitmapScan, False)
            bad = True
        elif more >= 4:
            pp = PP()
            for i, x in enumerate(r.nodes()):
                v = ctx.int(f"c{i}", 0, 10**9) if i != special else [ctx.int(f"c{i}", 0, 10**9), math.nan, math.inf][ctx.choose("unknown", 3)]
                pp.add_cardinality(x.tables(), v)
                if i != special or not isinstance(v, float):
                    cards[ids(x)] = v
            if more == 5:
                pp.set_system_settings(memory_limit="1GB", threads=4, enable_object_cache=True)
                prep = {"memory_limit": "'1GB'", "threads": "4", "enable_object_cache": "True"}
                if ctx.choose("w", 2):
                    pp.set_workers([TABLES[0]], ctx.int("w", 1, 8))
                    bad = True
            kw["plan_parameters"] = pp
        if with_order:
            kw["join_order"] = tree_of(r, [JoinTree, LogicalJoinTree][special % 2])
        if ops or not base:
            kw["physical_operators"] = ops
        key = f"{r.key()} {sorted(kw)} {more}"
        try:
            q = service().generate_hints(QUERY, **kw)
        except UnsupportedDatabaseFeatureError:
            ctx.check(bad, "only unsupported decisions are rejected", key=key)
            ctx.reach("rejected")
            return
        ctx.check(not bad, "unsupported decisions are rejected", key=key)
        check(ctx, q, order_of(r) if with_order and n > 2 else None, exp, cards, sets, prep, key)
        ctx.reach("accepted")
    return body


def plan(nmax):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABLES[:n])
        nodes = r.nodes()
        special, unk, aux = ctx.choose("special", len(nodes)), ctx.choose("unknown", 3), ctx.choose("aux", 3)
        for i, x in enumerate(nodes):
            if i == special:
                x.op = ctx.pick("op", list(SCANS if x.scan else JOINS))
            x.name = x.op.name
            x.est = math.nan if unk == 1 and i == special else math.inf if unk == 2 and i == special else ctx.int(f"e{i}", 0, 1000)
            x.act = ctx.int(f"m{i}", 0, 1000) if aux else math.nan

        def wrap(x):
            y = N(x.op, [wrap(k) for k in x.kids], table=x.table)
            y.est, y.act = x.est, x.act
            if x is nodes[special] and aux == 2:
                y = N(None, [y], name="PROJECTION")
                y.est, y.act = x.est, x.act
            return y
        q = service().generate_hints(QUERY, wrap(r).real())
        exp = {ids(x): (SCANS if x.scan else JOINS)[x.op] for x in nodes}
        cards = {ids(x): x.est for i, x in enumerate(nodes) if not (unk and i == special)}
        check(ctx, q, order_of(r) if n > 2 else None, exp, cards, {}, {}, f"{r.key()} {special} {unk} {aux}")
    return body


def rejected(ctx):
    p = QueryPlan(SO.SequentialScan, base_table=TABLES[0])
    other = ctx.pick("other", [{"join_order": JoinTree.scan(TABLES[0])}, {"physical_operators": PA()}, {"plan_parameters": PP()}])
    try:
        service().generate_hints(QUERY, p, **other)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "entire plans and parts of them cannot be combined")
    lim = ctx.pick("limit", [Limit(limit=0), Limit(limit=5), Limit(offset=3), Limit(limit=2, offset=7)])
    h = service().generate_hints(transform.add_clause(QUERY, lim), **other)
    ctx.check((h.limit_clause.limit, h.limit_clause.offset) == (lim.limit, lim.offset), "LIMIT is kept")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("parts", parts(4 if t else 3), f"all join orders of up to {4 if t else 3} tables x all operators at one node x base assignment x switches, cardinalities, settings, unsupported parts", ["accepted", "rejected"]),
            Hn("plan", plan(4 if t else 3), f"all plans of up to {4 if t else 3} tables, unknown numbers and an auxiliary node at any node"), Hn("rejected", rejected, "contradictory calls, LIMIT clauses")]
