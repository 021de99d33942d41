"""C23: the MySQL hint blocks and query texts encode exactly the given decisions and queries."""
import math
import re
import warnings

import z3

from vx.engine import Harness
from vx.hintref import DJ, IO, JA, JO, N, PA, PP, SA, SO, JoinTree, LogicalJoinTree, ids, read, skeleton, tree_of
from vx.sym import NUM_SHADOW, And, Shadow, SymBool, detoken, lift_chars

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import postbound.mysql as mysql
import postbound._core as core
import postbound._hints as hints
import postbound._qep as qep
from postbound import TableReference, parse_query, transform
from postbound.db import UnsupportedDatabaseFeatureError
from postbound.qal import CastExpression, ColumnExpression, Explain, Limit, StaticValueExpression

LEVEL = "model_checking"
ASSUMPTIONS = ["the hint service is used without a connection; MySQL 8's documented hint and string literal syntax (default SQL mode) is the reference", "identifiers are ordinary identifiers; cardinality and worker hints are documented to be unsupported", "no array types"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, hints: NS, mysql: NS})
F = ["MysqlHintService.generate_hints", "MysqlHintService.format_query", "_generate_join_order_hint", "_generate_operator_hints", "_generate_prep_statements", "_escape_setting", "_MysqlStaticValueExpression.__str__", "_MysqlCastExpression.__str__", "_MysqlExplainClause.__str__"]

TABLES = [TableReference("r"), TableReference("s", "x"), TableReference("t", "t2", schema="sch"), TableReference("u")]
QUERY = parse_query("SELECT * FROM r, s AS x, sch.t AS t2, u WHERE r.a = x.a AND x.b = t2.b AND t2.c = u.c")
SCANS = {SO.SequentialScan: "NO_INDEX", SO.IndexScan: "INDEX", SO.IndexOnlyScan: "INDEX", SO.BitmapScan: "INDEX_MERGE"}
JOINS = {JO.NestedLoopJoin: "NO_BNL", JO.HashJoin: "BNL"}
warnings.simplefilter("ignore")


class FakeDatabase:
    name = system_name = "MySQL"

    def __init__(self, mode=""):
        self.mode = mode

    def server_mode(self):
        return self.mode


def service(mode=""):
    return mysql.MysqlHintService(FakeDatabase(mode))


class Decoded:
    def __init__(self, q):
        self.order, self.ops, self.sets, self.errors = None, {}, {}, []
        if q.hints is None:
            return
        for line in (q.hints.preparatory_statements or "").splitlines():
            m = re.fullmatch(r"SET ([@\w.]+) *= *(.+);", line.strip())
            if not m or m[1] in self.sets:
                self.errors.append(line)
            else:
                self.sets[m[1]] = m[2]
        block = read(q.hints.query_hints, "/*+") if q.hints.query_hints else []
        for name, args in block or []:
            words = args[::2]
            if any(a != "," for a in args[1::2]) or not words or len(set(words)) != len(words):
                self.errors.append(f"{name}{args}")
            elif name == "JOIN_ORDER" and self.order is None:
                self.order = words
            elif name in (*SCANS.values(), *JOINS.values()) and frozenset(words) not in self.ops:
                self.ops[frozenset(words)] = name
            else:
                self.errors.append(f"{name}{args}")
        if block is None:
            self.errors.append("block")


def linear(r):
    return all(not x.kids or any(not k.kids for k in x.kids) for x in r.nodes())


def hint(nmax):
    def body(ctx):
        n = 1 + ctx.choose("n", nmax)
        r = skeleton(ctx, TABLES[:n])
        base, special, how = ctx.choose("base", 2), ctx.choose("special", len(r.nodes())), ctx.choose("how", 3)
        ops, exp, kw, sets = PA(), {}, {}, {}
        for i, x in enumerate(r.nodes()):
            op = ctx.pick("op", [None, *(SCANS if x.scan else JOINS)]) if i == special else (SO.IndexScan if x.scan else JO.NestedLoopJoin) if base else None
            if how == 2:
                x.op = op = op or (SO.SequentialScan if x.scan else JO.HashJoin)
            x.name = x.op.name
            x.est = ctx.int(f"e{i}", 0, 1000)
            if op is None:
                continue
            exp[ids(x)] = SCANS.get(op) or JOINS.get(op)
            ops.add(SA(op, x.table) if x.scan else JA(op, x.tables()) if i % 2 else DJ(op, inner=x.kids[1].tables(), outer=x.kids[0].tables()))
        if how == 2:
            kw = {"plan": r.real()}
        else:
            more = ctx.choose("more", 4)
            if more % 2:
                v = bool(ctx.choose("switch", 2))
                ops.set(JO.HashJoin, v)
                sets["@@optimizer_switch"] = f"'block_nested_loop={'on' if v else 'off'}'"
            if more > 1:
                pp = PP()
                pp.set_system_settings(sort_buffer_size=1000, character_set_results="utf8")
                sets.update(sort_buffer_size="1000", character_set_results="'utf8'")
                kw["plan_parameters"] = pp
            if how:
                kw["join_order"] = tree_of(r, [JoinTree, LogicalJoinTree][special % 2])
            if ops or not base:
                kw["physical_operators"] = ops
        key = f"{r.key()} {sorted(kw)} {special}"
        try:
            q = service().generate_hints(QUERY, **kw)
        except UnsupportedDatabaseFeatureError:
            ctx.check(how > 0 and not linear(r), "only bushy join orders are rejected", key=key)
            ctx.reach("rejected")
            return
        d = Decoded(q)
        ctx.check(not d.errors, "the hints are well-formed and not contradictory", key=f"{key} {d.errors}")
        ctx.check(d.ops == exp, "exactly the operators are enforced for their intermediates", key=f"{key} {sorted((sorted(k), v) for k, v in d.ops.items())}")
        ctx.check({k: v.replace('"', "'") for k, v in d.sets.items()} == sets, "exactly the settings are made", key=f"{key} {d.sets}")
        if not how:
            ctx.check(d.order is None, "no join order is enforced", key=key)
        else:
            ctx.check(linear(r), "bushy join orders are rejected", key=key)
            order = d.order or []
            good = set(order) == set(ids(r)) and all(frozenset(order[:len(ids(x))]) == ids(x) for x in r.nodes() if x.kids)
            ctx.check(good or n == 1 and not order, "the enforced sequence of tables computes exactly the intermediates of the join tree", key=f"{key} {d.order}")
        ctx.check((transform.drop_hints(q) if q.hints else q) == QUERY, "the query is not changed otherwise", key=key)
        ctx.reach("accepted")
    return body




def strings(nmax):
    """string literals denote the same value"""
    def body(ctx):
        v = ctx.str("v", ctx.choose("len", nmax + 1), hi=0x2FF, lo=1)
        cs = lift_chars(detoken(str(mysql._MysqlStaticValueExpression(StaticValueExpression(v)))))
        eq = lambda c, ch: c.as_long() == ord(ch) if z3.is_int_value(c) else bool(SymBool(c == ord(ch)))
        ctx.check(len(cs) >= 2 and eq(cs[0], '"') and eq(cs[-1], '"'), "string literals are quoted")
        out, i, good = [], 1, True
        while i < len(cs) - 1:
            if eq(cs[i], '"'):
                good = good and i + 1 < len(cs) - 1 and eq(cs[i + 1], '"')
                i += 1
            elif eq(cs[i], "\\"):
                good = good and i + 1 < len(cs) - 1 and (eq(cs[i + 1], "\\") or eq(cs[i + 1], '"') or eq(cs[i + 1], "'"))
                i += 1
            if not good:
                break
            out.append(cs[i])
            i += 1
        want = lift_chars(v)
        ctx.check(good and len(out) == len(want) and And(True, *(SymBool(a == b) for a, b in zip(out, want))), "string literals denote their value", key=str(len(want)))
        ctx.reach("string")
    return body


SQL = ["SELECT r.a FROM r WHERE r.b = {}", "SELECT r.a + {} AS x FROM r WHERE r.b IN ({}, 7) GROUP BY r.a HAVING count(*) > {}", "WITH c AS (SELECT r.a FROM r WHERE r.b = {}) SELECT c.a FROM c WHERE c.a BETWEEN {} AND 100", "SELECT r.a FROM r WHERE r.b = (SELECT min(s.b) FROM s WHERE s.c = {}) OR lower(r.c) = {}"]
LITS = ["1", "2.5", "NULL", "TRUE", "FALSE", "'abc'", "'it''s'", "'say \"x\"'", "''", "-3"]
CASTS = [("text", ()), ("integer", ()), ("numeric", ("10", "2")), ("varchar", ("5",))]


def unquote(text):
    """rewrites MySQL literals to standard SQL"""
    def one(m):
        return m[0] if m[1] is None else "'" + re.sub(r"\\(.)", r"\1", m[1].replace('""', '"')).replace("'", "''") + "'"
    return re.sub(r"""'(?:[^']|'')*'|"((?:[^"\\]|""|\\.)*)\"""", one, text)


def texts(ctx):
    mode = ctx.pick("mode", ["", "ANSI_QUOTES"])
    lit = ctx.pick("lit", LITS)
    q = parse_query(ctx.pick("sql", SQL).replace("{}", lit))
    cast = ctx.choose("cast", len(CASTS) + 1)
    if cast:
        typ, params = CASTS[cast - 1]
        ps = f"({', '.join(params)})" if params else ""
        q = parse_query(f"SELECT CAST(r.a AS {typ}{ps}) FROM r WHERE CAST(r.b AS {typ}{ps}) = {lit}")
    ex = ctx.pick("explain", [None, Explain(False, "JSON"), Explain(True, "TREE"), Explain()])
    if ex:
        q = transform.add_clause(q, ex)
    lim = ctx.pick("limit", [None, Limit(limit=0), Limit(limit=5), Limit(limit=2, offset=7)]) if not cast else None
    if lim is not None:
        q = transform.add_clause(q, lim)
    text = service(mode).format_query(q)
    key = f"{mode} {lit} {cast} {ex} {lim}: {' '.join(text.split())}"
    body = text.strip().rstrip(";")
    if ex:
        m = re.match(r"EXPLAIN( ANALYZE)?( FORMAT ?= ?(\w+))?\s+(?=SELECT|WITH)", body)
        ctx.check(bool(m) and bool(m[1]) == bool(ex.analyze) and m[3] == ex.target_format, "EXPLAIN in MySQL syntax", key=key)
        body = body[m.end():] if m else body
    else:
        ctx.check(not body.startswith("EXPLAIN"), "EXPLAIN in MySQL syntax", key=key)
    m = re.search(r"\bLIMIT (\d+)(?:\s+OFFSET (\d+))?$", body)
    ctx.check(bool(m) == (lim is not None) and (lim is None or (int(m[1]), int(m[2] or 0)) == (lim.limit, lim.offset or 0)), "LIMIT in MySQL syntax", key=key)
    ctx.check("FETCH" not in body and "::" not in body, "MySQL syntax", key=key)
    plain = transform.drop_clause(q, Limit) if lim is not None else q
    if ex:
        plain = transform.drop_clause(plain, Explain)
    got = unquote(body[:m.start()] if m else body) if mode == "" else body[:m.start()] if m else body
    back = parse_query(got)
    ctx.check(back == parse_query(str(plain)), "the text denotes the query", key=key)
    ctx.reach("explain" if ex else "plain")


def harnesses(tier):
    t = tier == "thorough"
    Hn = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    return [Hn("hint", hint(4), f"all join orders of up to 4 tables x all supported operators at one node x base assignment x settings; entire plans", ["accepted", "rejected"]),
            Hn("strings", strings(4 if t else 3), f"all strings of up to {4 if t else 3} characters", ["string"]), Hn("texts", texts, "four queries and casts x literals x EXPLAIN x LIMIT x SQL mode", ["explain", "plain"])]
