"""A small SQL semantics over bounded symbolic tables.

Two front ends produce the same neutral tree: ``from_pg`` reads SQL text through Postgres' own grammar (pglast) and is
independent of the code under test; ``from_qal`` reads the query objects of the code under test through their public
accessors.  ``Db.run`` evaluates such a tree to a bag of rows whose presence and cells are z3 terms, ``same_result`` is the
formula "both bags are equal".
"""
from __future__ import annotations

import json
from fractions import Fraction

import pglast
import z3

from . import engine
from .sym import SymBool

T, F = z3.BoolVal(True), z3.BoolVal(False)
AGG = {"count", "sum", "min", "max", "avg", "every", "bool_and", "bool_or", "string_agg", "array_agg", "json_agg", "stddev",
       "variance", "corr", "bit_and", "bit_or"}


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ tree nodes
class E(tuple):
    """An expression node: E((kind, ...))."""
    __slots__ = ()


def e(kind, *a):
    return E((kind, *a))


class Q:
    """A query node."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.ctes, self.order, self.limit, self.offset = [], [], None, None
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Q({self.__dict__})"


def num_key(v):
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("num", Fraction(v))
    return ("num", Fraction(repr(v)) if isinstance(v, float) else Fraction(str(v)))


# ------------------------------------------------------------------ front end 1: SQL text via pglast
def _s(x):
    return x["String"]["sval"]


def from_pg(text, allow_many=False):
    data = json.loads(pglast.parser.parse_sql_json(text))
    stmts = [s["stmt"] for s in data["stmts"]]
    sel = [s for s in stmts if "VariableSetStmt" not in s]
    if len(sel) != 1:
        raise Unsupported(f"{len(sel)} statements")
    st = sel[0]
    if "ExplainStmt" in st:
        st = st["ExplainStmt"]["query"]
    return pg_query(st["SelectStmt"])


def pg_meta(text):
    """(set commands, explain options or None) of the text"""
    data = json.loads(pglast.parser.parse_sql_json(text))
    sets, expl = [], None
    for s in data["stmts"]:
        s = s["stmt"]
        if "VariableSetStmt" in s:
            v = s["VariableSetStmt"]
            sets.append((v["name"], [set_value(a) for a in v.get("args", [])]))
        if "ExplainStmt" in s:
            expl = sorted((o["DefElem"]["defname"].lower(), str(_strip(o["DefElem"].get("arg", True))).lower())
                          for o in s["ExplainStmt"].get("options", []))
    return sets, expl


def set_value(a):
    x = pg_expr(a)
    return str(x[2]) if x[0] == "const" else str(x)


def _strip(d):
    if isinstance(d, dict):
        return {k: _strip(v) for k, v in d.items() if k not in ("location", "stmt_len", "stmt_location")}
    if isinstance(d, list):
        return [_strip(x) for x in d]
    return d


def pg_query(s):
    q = None
    if s["op"] != "SETOP_NONE":
        q = Q("set", op=s["op"][6:].lower(), all=s.get("all", False), left=pg_query(s["larg"]), right=pg_query(s["rarg"]))
    elif "valuesLists" in s:
        q = Q("values", rows=[[pg_expr(x) for x in r["List"]["items"]] for r in s["valuesLists"]])
    else:
        d = s.get("distinctClause")
        q = Q("select", distinct=False if d is None else True if d == [{}] else [pg_expr(x) for x in d],
              targets=[(pg_expr(t["ResTarget"]["val"]), t["ResTarget"].get("name", "")) for t in s.get("targetList", [])],
              frm=[pg_from(f) for f in s.get("fromClause", [])],
              where=pg_expr(s["whereClause"]) if "whereClause" in s else None,
              group=[pg_expr(g) for g in s["groupClause"]] if "groupClause" in s else None,
              having=pg_expr(s["havingClause"]) if "havingClause" in s else None)
        if s.get("groupDistinct"):
            pass  # only meaningful with grouping sets
        if "lockingClause" in s or "windowClause" in s:
            raise Unsupported("locking / window clause")
    if "withClause" in s:
        q.ctes = [pg_cte(c["CommonTableExpr"], s["withClause"].get("recursive", False)) for c in s["withClause"]["ctes"]]
    q.order = [pg_sort(x["SortBy"]) for x in s.get("sortClause", [])]
    q.limit = pg_int(s.get("limitCount"))
    q.offset = pg_int(s.get("limitOffset"))
    if s.get("limitOption") == "LIMIT_OPTION_WITH_TIES":
        raise Unsupported("with ties")
    return q


def pg_cte(c, rec):
    return dict(name=c["ctename"], query=pg_query(c["ctequery"]["SelectStmt"]),
                cols=[_s(x) for x in c.get("aliascolnames", [])],
                mat={"CTEMaterializeAlways": True, "CTEMaterializeNever": False}.get(c.get("ctematerialized")), rec=rec)


def pg_int(x):
    if x is None:
        return None
    if "A_Const" in x and x["A_Const"].get("isnull"):
        return None
    if "A_Const" not in x or "ival" not in x["A_Const"]:
        raise Unsupported("limit expression")
    return x["A_Const"]["ival"].get("ival", 0)


def pg_sort(x):
    asc = {"SORTBY_ASC": True, "SORTBY_DESC": False, "SORTBY_DEFAULT": True}[x["sortby_dir"]]
    nf = {"SORTBY_NULLS_FIRST": True, "SORTBY_NULLS_LAST": False, "SORTBY_NULLS_DEFAULT": not asc}[x["sortby_nulls"]]
    return (pg_expr(x["node"]), asc, nf)


def _alias(d):
    a = d.get("alias")
    return (a["aliasname"], [_s(c) for c in a.get("colnames", [])]) if a else ("", [])


def pg_from(f):
    k = [x for x in f if x != "location"][0]
    d = f[k]
    if k == "RangeVar":
        a, cols = _alias(d)
        return ("table", d.get("schemaname", ""), d["relname"], a, cols)
    if k == "RangeSubselect":
        a, cols = _alias(d)
        return ("sub", pg_query(d["subquery"]["SelectStmt"]), a, cols, bool(d.get("lateral")))
    if k == "RangeFunction":
        a, cols = _alias(d)
        return ("func", pg_expr(d["functions"][0]["List"]["items"][0]), a, cols)
    if k == "JoinExpr":
        if "alias" in d:
            raise Unsupported("join alias")
        jt = {"JOIN_INNER": "inner", "JOIN_LEFT": "left", "JOIN_RIGHT": "right", "JOIN_FULL": "full"}[d["jointype"]]
        using = [_s(c) for c in d.get("usingClause", [])]
        if d.get("isNatural"):
            using = True
        return ("join", jt, pg_from(d["larg"]), pg_from(d["rarg"]), pg_expr(d["quals"]) if "quals" in d else None, using)
    raise Unsupported(k)


TYPE_ALIAS = {"bpchar": "char", "serial8": "bigserial", "int4": "integer", "int": "integer", "int2": "smallint",
              "int8": "bigint", "float4": "real", "float8": "double precision", "float": "double precision", "bool": "boolean",
              "decimal": "numeric", "varchar": "character varying", "character": "char", "timestamptz": "timestamp with time zone"}


def interval_fields(mask):
    fs = [f for f, b in (("year", 2), ("month", 1), ("day", 3), ("hour", 10), ("minute", 11), ("second", 12)) if mask >> b & 1]
    return fs[0] if len(fs) == 1 else f"{fs[0]} to {fs[-1]}"


def norm_type(names):
    if names[0] == "pg_catalog":
        names = names[1:]
    t = ".".join(names).lower()
    if t.startswith("interval "):
        return "interval:" + t[9:]
    return TYPE_ALIAS.get(t, t)


def pg_expr(x):
    k = [n for n in x if n != "location"][0]
    d = x[k]
    if k == "ColumnRef":
        fs = d["fields"]
        if "A_Star" in fs[-1]:
            return e("star", _s(fs[0]) if len(fs) == 2 else None)
        if len(fs) == 1:
            return e("col", None, _s(fs[0]))
        if len(fs) == 2:
            return e("col", _s(fs[0]), _s(fs[1]))
        raise Unsupported("column reference")
    if k == "A_Const":
        if d.get("isnull"):
            return e("null")
        if "ival" in d:
            return e("const", *num_key(d["ival"].get("ival", 0)))
        if "fval" in d:
            return e("const", "num", Fraction(d["fval"]["fval"]))
        if "sval" in d:
            return e("const", "str", d["sval"].get("sval", ""))
        if "boolval" in d:
            return e("const", "bool", d["boolval"].get("boolval", False))
        raise Unsupported(str(d))
    if k == "A_Expr":
        kind = d["kind"]
        op = _s(d["name"][-1])
        if kind == "AEXPR_OP":
            if "lexpr" not in d:
                return neg(pg_expr(d["rexpr"])) if op == "-" else e("op", op, pg_expr(d["rexpr"]))
            return e("op", "<>" if op == "!=" else op, pg_expr(d["lexpr"]), pg_expr(d["rexpr"]))
        if kind in ("AEXPR_LIKE", "AEXPR_ILIKE"):
            base = e("op", "~~" if kind == "AEXPR_LIKE" else "~~*", pg_expr(d["lexpr"]), pg_expr(d["rexpr"]))
            return e("not", base) if op.startswith("!") else base
        if kind in ("AEXPR_BETWEEN", "AEXPR_NOT_BETWEEN"):
            lo, hi = d["rexpr"]["List"]["items"]
            b = e("between", pg_expr(d["lexpr"]), pg_expr(lo), pg_expr(hi))
            return b if kind == "AEXPR_BETWEEN" else e("not", b)
        if kind == "AEXPR_IN":
            b = e("in", pg_expr(d["lexpr"]), [pg_expr(v) for v in d["rexpr"]["List"]["items"]])
            return b if op == "=" else e("not", b)
        if kind == "AEXPR_DISTINCT":
            return e("distinct", pg_expr(d["lexpr"]), pg_expr(d["rexpr"]))
        if kind == "AEXPR_NOT_DISTINCT":
            return e("not", e("distinct", pg_expr(d["lexpr"]), pg_expr(d["rexpr"])))
        if kind in ("AEXPR_OP_ANY", "AEXPR_OP_ALL"):
            return e("quantarr", "<>" if op == "!=" else op, kind[9:].lower(), pg_expr(d["lexpr"]), pg_expr(d["rexpr"]))
        raise Unsupported(kind)
    if k == "BoolExpr":
        args = [pg_expr(a) for a in d["args"]]
        return e("not", args[0]) if d["boolop"] == "NOT_EXPR" else e("and" if d["boolop"] == "AND_EXPR" else "or", args)
    if k == "NullTest":
        b = e("isnull", pg_expr(d["arg"]))
        return b if d["nulltesttype"] == "IS_NULL" else e("not", b)
    if k == "FuncCall":
        name = ".".join(_s(n) for n in d["funcname"]).lower()
        args = [e("star", None)] if d.get("agg_star") else [pg_expr(a) for a in d.get("args", [])]
        flt = pg_expr(d["agg_filter"]) if "agg_filter" in d else None
        if "agg_order" in d or "agg_within_group" in d or "func_variadic" in d:
            raise Unsupported("aggregate order")
        if "over" in d:
            w = d["over"]
            if "name" in w or w.get("frameOptions", 1058) != 1058:
                raise Unsupported("window frame")
            return e("window", name, args, bool(d.get("agg_distinct")), flt, [pg_expr(p) for p in w.get("partitionClause", [])],
                     [pg_sort(o["SortBy"]) for o in w.get("orderClause", [])])
        return e("func", name, args, bool(d.get("agg_distinct")), flt)
    if k == "CoalesceExpr":
        return e("func", "coalesce", [pg_expr(a) for a in d["args"]], False, None)
    if k == "TypeCast":
        tn = d["typeName"]
        t, mods = norm_type([_s(n) for n in tn["names"]]), [pg_expr(p) for p in tn.get("typmods", [])]
        if t == "interval" and mods and mods[0][2] != 0x7FFF:  # a bit mask of fields
            t, mods = "interval:" + interval_fields(int(mods[0][2])), mods[1:]
        elif t == "interval":
            mods = mods[1:]
        return e("cast", pg_expr(d["arg"]), t, mods, "arrayBounds" in tn)
    if k == "CaseExpr":
        return e("case", pg_expr(d["arg"]) if "arg" in d else None,
                 [(pg_expr(w["CaseWhen"]["expr"]), pg_expr(w["CaseWhen"]["result"])) for w in d["args"]],
                 pg_expr(d["defresult"]) if "defresult" in d else None)
    if k == "SubLink":
        sub = pg_query(d["subselect"]["SelectStmt"])
        t = d["subLinkType"]
        if t == "EXISTS_SUBLINK":
            return e("exists", sub)
        if t == "EXPR_SUBLINK":
            return e("sub", sub)
        if t == "ANY_SUBLINK" and "operName" not in d:
            return e("insub", pg_expr(d["testexpr"]), sub)
        if t in ("ANY_SUBLINK", "ALL_SUBLINK"):
            op = _s(d["operName"][0])
            return e("quant", "<>" if op == "!=" else op, t[:3].lower(), pg_expr(d["testexpr"]), sub)
        raise Unsupported(t)
    if k == "A_Indirection":
        a = pg_expr(d["arg"])
        for i in d["indirection"]:
            i = i["A_Indices"]
            if i.get("is_slice"):
                a = e("slice", a, pg_expr(i["lidx"]) if "lidx" in i else None, pg_expr(i["uidx"]) if "uidx" in i else None)
            else:
                a = e("index", a, pg_expr(i["uidx"]))
        return a
    if k == "A_ArrayExpr":
        return e("array", [pg_expr(a) for a in d.get("elements", [])])
    if k == "RowExpr":
        return e("row", [pg_expr(a) for a in d["args"]])
    if k == "BooleanTest":
        return e("booltest", d["booltesttype"], pg_expr(d["arg"]))
    raise Unsupported(k)


def neg(x):
    if x[0] == "const" and x[1] == "num":
        return e("const", "num", -x[2])
    return e("op", "-", x)


# ------------------------------------------------------------------ front end 2: objects of the code under test
def from_qal(q):
    from postbound import qal
    if isinstance(q, qal.SetQuery):
        op = q.set_operation.value
        r = Q("set", op=op.split()[0].lower(), all=op.endswith(" ALL"), left=from_qal(q.left_query), right=from_qal(q.right_query))
    else:
        sel = q.select_clause
        d = {"none": False, "all": True}.get(sel.distinct)
        r = Q("select", distinct=[q_expr(x) for x in sel.distinct_on] if d is None else d,
              targets=[(q_expr(t.expression), t.target_name or "") for t in sel.targets],
              frm=[q_from(f) for f in q.from_clause.items] if q.from_clause else [],
              where=q_expr(q.where_clause.predicate) if q.where_clause else None,
              group=[q_expr(g) for g in q.groupby_clause.group_columns] if q.groupby_clause else None,
              having=q_expr(q.having_clause.condition) if q.having_clause else None)
    if q.cte_clause:
        r.ctes = [q_cte(c, q.cte_clause.recursive) for c in q.cte_clause.queries]
    if q.orderby_clause:
        r.order = [q_sort(x) for x in q.orderby_clause.expressions]
    if q.limit_clause:
        r.limit = q.limit_clause.limit
        r.offset = q.limit_clause.offset
    return r


def q_cte(c, rec):
    from postbound import qal
    if isinstance(c, qal.ValuesWithQuery):
        return dict(name=c.target_name, query=Q("values", rows=[[q_expr(x) for x in r] for r in c.rows]),
                    cols=[x.name for x in c.cols], mat=c.materialized, rec=rec)
    return dict(name=c.target_name, query=from_qal(c.query), cols=[], mat=c.materialized, rec=rec)


def q_sort(x):
    asc = True if x.ascending is None else bool(x.ascending)
    nf = (not asc) if x.nulls_first is None else bool(x.nulls_first)
    return (q_expr(x.column), asc, nf)


def q_from(f):
    from postbound import qal
    if isinstance(f, qal.DirectTableSource):
        t = f.table
        if not t.full_name:
            return ("table", "", t.alias, "", [])
        return ("table", t.schema or "", t.full_name, t.alias or "", [])
    if isinstance(f, qal.SubqueryTableSource):
        return ("sub", from_qal(f.query), f.target_name or "", [], bool(f.lateral))
    if isinstance(f, qal.ValuesTableSource):
        return ("sub", Q("values", rows=[[q_expr(x) for x in r] for r in f.rows]), f.table.identifier() if f.table else "",
                [c.name for c in f.cols], False)
    if isinstance(f, qal.FunctionTableSource):
        return ("func", q_expr(f.function), f.target_name or "", [])
    if isinstance(f, qal.JoinTableSource):
        jt = {"InnerJoin": "inner", "OuterJoin": "full", "LeftJoin": "left", "RightJoin": "right", "CrossJoin": "inner",
              "NaturalInnerJoin": "inner", "NaturalOuterJoin": "full", "NaturalLeftJoin": "left",
              "NaturalRightJoin": "right"}[f.join_type.name]
        return ("join", jt, q_from(f.left), q_from(f.right), q_expr(f.join_condition) if f.join_condition else None,
                True if f.join_type.name.startswith("Natural") else [])
    raise Unsupported(str(type(f)))


def q_expr(x):
    from postbound import qal
    if isinstance(x, (qal.SimpleFilter, qal.SimpleJoin)):
        return q_expr(x.unwrap())
    if isinstance(x, qal.BinaryPredicate):
        a, op = q_expr(x.first_argument), x.operation.value
        if isinstance(x.second_argument, qal.QuantifierExpression):
            qe = x.second_argument
            if isinstance(qe.expression, qal.SubqueryExpression):
                return e("quant", op, qe.quantifier.value.lower(), a, from_qal(qe.expression.query))
            return e("quantarr", op, qe.quantifier.value.lower(), a, q_expr(qe.expression))
        b = q_expr(x.second_argument)
        if op in ("IS", "IS NOT"):
            n = b == e("null")
            if not n:
                kind = {("const", "bool", True): "TRUE", ("const", "bool", False): "FALSE"}[tuple(b)]
                return e("booltest", f"{op.replace(' ', '_')}_{kind}", a)
            return e("isnull", a) if op == "IS" else e("not", e("isnull", a))
        if "LIKE" in op:
            base = e("op", "~~*" if "ILIKE" in op else "~~", a, b)
            return e("not", base) if op.startswith("NOT") else base
        if op == "IS DISTINCT FROM":
            return e("distinct", a, b)
        if op == "IS NOT DISTINCT FROM":
            return e("not", e("distinct", a, b))
        return e("op", op, a, b)
    if isinstance(x, qal.BetweenPredicate):
        return e("between", q_expr(x.column), q_expr(x.interval_start), q_expr(x.interval_end))
    if isinstance(x, qal.InPredicate):
        if len(x.values) == 1 and isinstance(x.values[0], qal.SubqueryExpression):
            return e("insub", q_expr(x.column), from_qal(x.values[0].query))
        return e("in", q_expr(x.column), [q_expr(v) for v in x.values])
    if isinstance(x, qal.UnaryPredicate):
        if x.is_exists():
            return e("exists", from_qal(x.column.query))
        if x.operation is None:
            return q_expr(x.column)
        raise Unsupported(str(x))
    if isinstance(x, qal.CompoundPredicate):
        if x.operation.value == "NOT":
            c = x.children
            return e("not", q_expr(c if isinstance(c, qal.AbstractPredicate) else c[0]))
        return e(x.operation.value.lower(), [q_expr(c) for c in x.children])
    if isinstance(x, qal.ColumnExpression):
        c = x.column
        return e("col", c.table.identifier() if c.table else None, c.name)
    if isinstance(x, qal.StaticValueExpression):
        v = x.value
        if v is None:
            return e("null")
        if isinstance(v, str):
            return e("const", "str", v)
        return e("const", *num_key(v))
    if isinstance(x, qal.StarExpression):
        return e("star", x.from_table.identifier() if x.from_table else None)
    if isinstance(x, qal.CastExpression):
        return e("cast", q_expr(x.casted_expression), norm_type([x.target_type]), [q_expr(p) for p in x.type_params],
                 bool(x.array_type))
    if isinstance(x, qal.MathExpression):
        a = q_expr(x.first_arg)
        if x.second_arg is None:
            return neg(a) if x.operator.value == "-" else e("op", x.operator.value, a)
        rest = x.second_arg if isinstance(x.second_arg, (list, tuple)) else [x.second_arg]
        for b in rest:
            a = e("op", x.operator.value, a, q_expr(b))
        return a
    if isinstance(x, qal.ArrayAccessExpression):
        if x.index is not None:
            return e("index", q_expr(x.array), q_expr(x.index))
        return e("slice", q_expr(x.array), q_expr(x.lower_index) if x.lower_index is not None else None,
                 q_expr(x.upper_index) if x.upper_index is not None else None)
    if isinstance(x, qal.FunctionExpression):
        return e("func", x.function.lower(), [q_expr(a) for a in x.arguments], bool(x.distinct),
                 q_expr(x.filter_where) if x.filter_where else None)
    if isinstance(x, qal.ArrayExpression):
        return e("array", [q_expr(a) for a in x.elements])
    if isinstance(x, qal.SubqueryExpression):
        return e("sub", from_qal(x.query))
    if isinstance(x, qal.WindowExpression):
        f = x.window_function
        flt = x.filter_condition or f.filter_where
        return e("window", f.function.lower(), [q_expr(a) for a in f.arguments], bool(f.distinct), q_expr(flt) if flt else None,
                 [q_expr(p) for p in x.partitioning], [q_sort(o) for o in x.ordering.expressions] if x.ordering else [])
    if isinstance(x, qal.CaseExpression):
        return e("case", q_expr(x.simple_expression) if x.simple_expression is not None else None,
                 [(q_expr(c), q_expr(r)) for c, r in x.cases], q_expr(x.else_expression) if x.else_expression is not None else None)
    raise Unsupported(f"{type(x)}: {x}")


# ------------------------------------------------------------------ evaluation
class Val:
    __slots__ = ("n", "v")

    def __init__(self, n, v):
        self.n, self.v = n, v


NULL = Val(T, z3.IntVal(0))


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return F
    return T if not xs else xs[0] if len(xs) == 1 else z3.And(xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return T
    return F if not xs else xs[0] if len(xs) == 1 else z3.Or(xs)


def Not(x):
    return F if z3.is_true(x) else T if z3.is_false(x) else z3.Not(x)


def If(c, a, b):
    return a if z3.is_true(c) else b if z3.is_false(c) else z3.If(c, a, b)


def ite(c, a, b):
    return Val(If(c, a.n, b.n), If(c, a.v, b.v))


def bval(t, n=F):
    """boolean value (only meaningful where not null)"""
    return Val(n, If(And(t, Not(n)), z3.IntVal(1), z3.IntVal(0)))


def istrue(v):
    return And(Not(v.n), v.v != 0)


def isfalse(v):
    return And(Not(v.n), v.v == 0)


def norm(v):
    """payload normalised to 0 for NULL"""
    return If(v.n, z3.IntVal(0), v.v)


def same_val(a, b):
    """IS NOT DISTINCT FROM"""
    return Or(And(a.n, b.n), And(Not(a.n), Not(b.n), a.v == b.v))


def b2i(c):
    return If(c, z3.IntVal(1), z3.IntVal(0))


class Rel:
    def __init__(self, cols, rows, keys=None, order=(), limit=None, offset=None):
        self.cols, self.rows, self.keys, self.order, self.limit, self.offset = cols, rows, keys, list(order), limit, offset


class Scope:
    """tables in order: [(ident, cols, {col: Val})]"""

    def __init__(self, tables):
        self.tables = tables


class Env:
    def __init__(self, scopes=(), ctes=None, group=None, rows=None, gkeys=None):
        self.scopes = list(scopes)
        self.ctes = {} if ctes is None else ctes
        self.group = group  # list of (present, Env) when evaluating over a group
        self.rows = rows  # all rows (present, Env) for window functions
        self.me = None
        self.gkeys = gkeys

    def nest(self, scope):
        n = Env(self.scopes + [scope], self.ctes)
        return n


class Db:
    """Catalog with symbolic contents: tables = {(schema, name) or name: [columns]}"""

    def __init__(self, ctx, tables, rows=2, nullable=True):
        self.ctx, self.schema = ctx, tables
        self.rows, self.nullable = rows, nullable
        self.content = {}
        self.lits = {}
        self.undef = []
        self.lit_distinct = False
        self.uf = {}

    # --- inputs
    def table(self, key):
        if key not in self.content:
            cols = self.schema[key]
            out = []
            for i in range(self.rows):
                p = self._bool(f"{key}.{i}.present")
                vals = []
                for c in cols:
                    n = self._bool(f"{key}.{i}.{c}.null") if self.nullable else F
                    vals.append(Val(n, self._int(f"{key}.{i}.{c}")))
                out.append((p, vals))
            self.content[key] = Rel(list(cols), out)
        return self.content[key]

    def _bool(self, name):
        v = self.ctx.bool(name)
        return v.t if isinstance(v, SymBool) else z3.BoolVal(bool(v))

    def _int(self, name):
        v = self.ctx.int(name)
        return v.t if hasattr(v, "t") else z3.IntVal(int(v))

    def literal(self, kind, value):
        if kind == "bool":
            return z3.IntVal(1 if value else 0)
        k = (kind, value)
        if k not in self.lits:
            t = self._int(f"lit:{kind}:{value}")
            if self.lit_distinct:
                for (k2, v2), t2 in self.lits.items():
                    if k2 == kind:
                        self.ctx.assume(t != t2)
            self.lits[k] = t
        return self.lits[k]

    def func(self, name, arity, out=z3.IntSort()):
        return z3.Function(name, *([z3.IntSort()] * arity), out) if arity else z3.Const(name, out)

    def apply(self, name, args):
        """an uninterpreted SQL function: value and nullness depend on the arguments (incl. their nullness)"""
        a = []
        for x in args:
            a += [b2i(x.n), norm(x)]
        f = self.func(f"f!{name}!{len(args)}", len(a))
        g = self.func(f"n!{name}!{len(args)}", len(a), z3.BoolSort())
        return Val(g(*a) if a else g, f(*a) if a else f)

    # --- queries
    def run(self, q, env=None, top=True):
        env = env or Env()
        ctes = dict(env.ctes)
        env = Env(env.scopes, ctes)
        for c in q.ctes:
            if c["rec"] and c["query"].kind == "set" and c["query"].op == "union" and mentions(c["query"].right, c["name"]):
                sq = c["query"]
                base = self.run(sq.left, env, top=False)
                ctes[c["name"]] = rename(base, c["cols"])
                step = self.run(sq.right, env, top=False)
                rel = Rel(base.cols, base.rows + step.rows)
                if not sq.all:
                    rel = dedupe(rel)
            else:
                rel = self.run(c["query"], env, top=False)
            ctes[c["name"]] = rename(rel, c["cols"])
        if q.kind == "values":
            n = len(q.rows[0])
            rel = Rel([f"column{i + 1}" for i in range(n)], [(T, [self.expr(x, env) for x in r]) for r in q.rows])
            rel.keys = [[] for _ in rel.rows]
            return self.finish(q, rel, env, top)
        if q.kind == "set":
            a, b = self.run(q.left, env, top=False), self.run(q.right, env, top=False)
            rel = setop(q.op, q.all, a, b)
            return self.finish(q, rel, env, top)
        return self.select(q, env, top)

    def finish(self, q, rel, env, top):
        """ORDER BY / LIMIT of set operations and VALUES: keys can only be output columns"""
        keys = []
        for p, vals in rel.rows:
            sc = env.nest(Scope([("", rel.cols, dict(zip(rel.cols, vals)))]))
            keys.append([self.order_key(x, vals, rel.cols, sc) for x, _, _ in q.order])
        rel = Rel(rel.cols, rel.rows, keys, [(a, n) for _, a, n in q.order], q.limit, q.offset)
        return rel if top else apply_limit(rel)

    def order_key(self, x, vals, cols, env):
        if x[0] == "const" and x[1] == "num":
            i = int(x[2])
            if not 1 <= i <= len(vals):
                raise Unsupported("order position")
            return vals[i - 1]
        if x[0] == "col" and x[1] is None and x[2] in cols:
            return vals[cols.index(x[2])]
        return self.expr(x, env)

    def from_items(self, items, env):
        rows = [(T, [])]
        for it in items:
            nxt = []
            for p, tabs in rows:
                for p2, tabs2 in self.source(it, env, tabs):
                    nxt.append((And(p, p2), tabs + tabs2))
            rows = nxt
        return rows

    def source(self, it, env, left):
        """rows of a FROM item: [(present, [(ident, cols, row)])]; left = tables to the left (for LATERAL)"""
        k = it[0]
        if k == "table":
            _, schema, name, alias, cols = it
            if not schema and name in env.ctes:
                rel = env.ctes[name]
            else:
                key = self.resolve(schema, name)
                rel = self.table(key)
            rel = rename(rel, cols)
            ident = alias or name
            return [(p, [(ident, rel.cols, dict(zip(rel.cols, vals)))]) for p, vals in rel.rows]
        if k == "sub":
            _, q, alias, cols, lateral = it
            inner = env.nest(Scope(left)) if lateral else env
            rel = rename(self.run(q, inner, top=False), cols)
            return [(p, [(alias, rel.cols, dict(zip(rel.cols, vals)))]) for p, vals in rel.rows]
        if k == "func":
            _, fx, alias, cols = it
            inner = env.nest(Scope(left))
            name = alias or fx[1]
            args = [self.expr(a, inner) for a in fx[2]]
            out = []
            for i in range(2):
                v = self.apply(f"srf{i}!{fx[1]}", args)
                p = self.apply(f"srfp{i}!{fx[1]}", args)
                col = cols[0] if cols else name
                out.append((p.n, [(name, [col], {col: v})]))
            return out
        if k == "join":
            _, jt, l, r, cond, using = it
            L = self.source(l, env, left)
            out = []
            lm = [F] * len(L)
            lateral_r = self.is_lateral(r)
            R0 = None if lateral_r else self.source(r, env, left)
            rm = [F] * (len(R0) if R0 is not None else 0)
            for i, (p, lt) in enumerate(L):
                R = self.source(r, env, left + lt) if lateral_r else R0
                for j, (p2, rt) in enumerate(R):
                    c = T
                    if cond is not None:
                        c = istrue(self.expr(cond, env.nest(Scope(left + lt + rt))))
                    if using:
                        names = using if using is not True else [x for x in all_cols(lt) if x in all_cols(rt)]
                        for n in names:
                            a, b = find_col(lt, n), find_col(rt, n)
                            c = And(c, Not(a.n), Not(b.n), a.v == b.v)
                    m = And(p, p2, c)
                    out.append((m, lt + rt))
                    lm[i] = Or(lm[i], m)
                    if R0 is not None:
                        rm[j] = Or(rm[j], m)
            if jt in ("left", "full"):
                shape = R[0][1] if L else []
                for i, (p, lt) in enumerate(L):
                    out.append((And(p, Not(lm[i])), lt + nulls(shape)))
            if jt in ("right", "full"):
                if lateral_r:
                    raise Unsupported("lateral right join")
                shape = L[0][1]
                for j, (p2, rt) in enumerate(R0):
                    out.append((And(p2, Not(rm[j])), nulls(shape) + rt))
            if using:
                self.using_note = True
            return out
        raise Unsupported(k)

    def is_lateral(self, it):
        return it[0] == "sub" and it[4] or it[0] == "func" or it[0] == "join" and (self.is_lateral(it[2]) or self.is_lateral(it[3]))

    def resolve(self, schema, name):
        if schema:
            k = f"{schema}.{name}"
            if k in self.schema:
                return k
            if schema == "public" and name in self.schema:
                return name
            raise Unsupported(f"unknown table {schema}.{name}")
        if name not in self.schema:
            raise Unsupported(f"unknown table {name}")
        return name

    def select(self, q, env, top):
        rows = self.from_items(q.frm, env)
        envs = []
        for p, tabs in rows:
            en = env.nest(Scope(tabs))
            if q.where is not None:
                p = And(p, istrue(self.expr(q.where, en)))
            envs.append((p, en))
        idents = [t[0] for t in rows[0][1]] if rows else []
        if len(set(i for i in idents if i)) != len([i for i in idents if i]):
            raise Unsupported(f"duplicate table name {idents}")
        has_agg = any(contains_agg(t) for t, _ in q.targets) or (q.having is not None) or any(contains_agg(o[0]) for o in q.order)
        if q.group is not None or has_agg:
            if q.group is None:
                g0 = Env(env.scopes + [Scope(nulls(rows[0][1]))] if rows else env.scopes, env.ctes)
                g0.group = envs
                units = [(T, g0)]
            else:
                keys = []
                for p, en in envs:
                    ks = []
                    for g in q.group:
                        if g[0] == "const" and g[1] == "num":
                            g = q.targets[int(g[2]) - 1][0]
                        elif g[0] == "col" and g[1] is None and not self.has_col(en, g[2]):
                            g = next((t for t, a in q.targets if a == g[2]), g)
                        ks.append(self.expr(g, en))
                    keys.append(ks)
                units = []
                for i, (p, en) in enumerate(envs):
                    same = [And(*[same_val(a, b) for a, b in zip(keys[i], keys[j])]) for j in range(len(envs))]
                    rep = And(p, *[Not(And(envs[j][0], same[j])) for j in range(i)])
                    ge = Env(en.scopes, en.ctes)
                    ge.group = [(And(envs[j][0], same[j]), envs[j][1]) for j in range(len(envs))]
                    units.append((rep, ge))
            if q.having is not None:
                units = [(And(p, istrue(self.expr(q.having, en))), en) for p, en in units]
        else:
            units = envs
        for p, en in units:
            en.rows = units
        # projection
        cols, out, keys = None, [], []
        for p, en in units:
            en.me = p
            names, vals = [], []
            for t, alias in q.targets:
                if t[0] == "star":
                    for ident, tcols, row in en.scopes[-1].tables:
                        if t[1] is None or t[1] == ident:
                            for c in tcols:
                                names.append(c)
                                vals.append(row[c])
                else:
                    names.append(alias or default_name(t))
                    vals.append(self.expr(t, en))
            cols = names
            ks = [self.order_key(x, vals, names, en) if not (q.group is not None and False) else None for x, _, _ in q.order]
            out.append((p, vals))
            keys.append(ks)
        if cols is None:
            cols = [alias or default_name(t) for t, alias in q.targets]
        order = [(a, n) for _, a, n in q.order]
        if q.distinct is True:
            rel = dedupe(Rel(cols, out, keys), with_keys=True)
            out, keys = rel.rows, rel.keys
        elif q.distinct:
            don = [[self.order_key(x, vals, cols, en) for x in q.distinct] for (p, vals), (_, en) in zip(out, units)]
            res = []
            for i, (p, vals) in enumerate(out):
                ok = p
                for j, (p2, vals2) in enumerate(out):
                    if i == j:
                        continue
                    before = row_before(keys[j], vals2, keys[i], vals, order, j < i)
                    ok = And(ok, Not(And(p2, *[same_val(a, b) for a, b in zip(don[i], don[j])], before)))
                res.append((ok, vals))
            out = res
        rel = Rel(cols, out, keys, order, q.limit, q.offset)
        return rel if top else apply_limit(rel)

    def has_col(self, env, name):
        return any(name in cols for _, cols, _ in env.scopes[-1].tables)

    def column(self, env, tab, name):
        for sc in reversed(env.scopes):
            for ident, cols, row in sc.tables:
                if (tab is None or ident == tab) and name in row:
                    return row[name]
        raise Unsupported(f"column {tab}.{name} not found")

    # --- expressions
    def truth(self, x, env):
        return istrue(self.expr(x, env))

    def expr(self, x, env):
        k = x[0]
        if k == "col":
            return self.column(env, x[1], x[2])
        if k == "null":
            return NULL
        if k == "const":
            return Val(F, self.literal(x[1], x[2]))
        if k == "op":
            return self.op(x[1], [self.expr(a, env) for a in x[2:]])
        if k == "and":
            vs = [self.expr(a, env) for a in x[1]]
            f = Or(*[isfalse(v) for v in vs])
            t = And(*[istrue(v) for v in vs])
            return bval(t, And(Not(f), Not(t)))
        if k == "or":
            vs = [self.expr(a, env) for a in x[1]]
            t = Or(*[istrue(v) for v in vs])
            f = And(*[isfalse(v) for v in vs])
            return bval(t, And(Not(f), Not(t)))
        if k == "not":
            v = self.expr(x[1], env)
            return bval(v.v == 0, v.n)
        if k == "isnull":
            return bval(self.expr(x[1], env).n)
        if k == "booltest":
            v = self.expr(x[2], env)
            b = {"TRUE": istrue(v), "FALSE": isfalse(v), "UNKNOWN": v.n}[x[1].split("_")[-1]]
            return bval(Not(b) if "NOT" in x[1] else b)
        if k == "distinct":
            return bval(Not(same_val(self.expr(x[1], env), self.expr(x[2], env))))
        if k == "between":
            a, lo, hi = (self.expr(y, env) for y in x[1:4])
            return self.and2(self.op(">=", [a, lo]), self.op("<=", [a, hi]))
        if k == "in":
            a = self.expr(x[1], env)
            return self.any_([self.op("=", [a, self.expr(y, env)]) for y in x[2]])
        if k == "insub":
            return self.quant("=", "any", self.expr(x[1], env), x[2], env)
        if k == "quant":
            return self.quant(x[1], x[2], self.expr(x[3], env), x[4], env)
        if k == "quantarr":
            return self.apply(f"quantarr{x[1]}{x[2]}", [self.expr(x[3], env), self.expr(x[4], env)])
        if k == "exists":
            rel = self.run(x[1], env, top=False)
            return bval(Or(*[p for p, _ in rel.rows]))
        if k == "sub":
            rel = self.run(x[1], env, top=False)
            if len(rel.cols) != 1:
                raise Unsupported("subquery with several columns")
            r = NULL
            seen = []
            for p, vals in reversed(rel.rows):
                r = ite(p, vals[0], r)
                for q2, v2 in seen:
                    self.undef.append(And(p, q2, env.me if env.me is not None else T))
                seen.append((p, vals))
            return r
        if k == "cast":
            return self.apply(f"cast:{x[2]}:{x[4]}", [self.expr(x[1], env)] + [self.expr(p, env) for p in x[3]])
        if k == "case":
            r = self.expr(x[3], env) if x[3] is not None else NULL
            base = self.expr(x[1], env) if x[1] is not None else None
            for c, v in reversed(x[2]):
                cv = self.expr(c, env)
                cond = istrue(cv) if base is None else istrue(self.op("=", [base, cv]))
                r = ite(cond, self.expr(v, env), r)
            return r
        if k == "array":
            return self.apply("array", [self.expr(a, env) for a in x[1]])
        if k == "row":
            return self.apply("row", [self.expr(a, env) for a in x[1]])
        if k == "index":
            return self.apply("index", [self.expr(x[1], env), self.expr(x[2], env)])
        if k == "slice":
            a = [self.expr(y, env) for y in x[1:4] if y is not None]
            return self.apply(f"slice{x[2] is not None}{x[3] is not None}", a)
        if k == "func":
            return self.function(x, env)
        if k == "window":
            return self.window(x, env)
        if k == "star":
            return self.apply("star", [])
        raise Unsupported(k)

    def and2(self, a, b):
        f = Or(isfalse(a), isfalse(b))
        t = And(istrue(a), istrue(b))
        return bval(t, And(Not(f), Not(t)))

    def any_(self, vs):
        t = Or(*[istrue(v) for v in vs])
        f = And(*[isfalse(v) for v in vs])
        return bval(t, And(Not(f), Not(t)))

    def quant(self, op, q, a, sub, env):
        rel = self.run(sub, env, top=False)
        if len(rel.cols) != 1:
            raise Unsupported("subquery with several columns")
        rs = [(p, self.op(op, [a, vals[0]])) for p, vals in rel.rows]
        if q == "any":
            t = Or(*[And(p, istrue(v)) for p, v in rs])
            f = And(*[Or(Not(p), isfalse(v)) for p, v in rs])
        else:
            t = And(*[Or(Not(p), istrue(v)) for p, v in rs])
            f = Or(*[And(p, isfalse(v)) for p, v in rs])
        return bval(t, And(Not(f), Not(t)))

    def op(self, op, a):
        n = Or(*[v.n for v in a])
        if len(a) == 1:
            if op == "-":
                return Val(n, -a[0].v)
            if op == "+":
                return a[0]
            return self.apply(f"unary{op}", a)
        x, y = a[0].v, a[1].v
        if op in ("=", "<>", "<", "<=", ">", ">="):
            c = {"=": lambda: x == y, "<>": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
                 ">=": lambda: x >= y}[op]()
            return bval(c, n)
        if op == "+":
            return Val(n, x + y)
        if op == "-":
            return Val(n, x - y)
        if op == "*":
            return Val(n, x * y)
        if op in ("/", "%", "||"):
            return Val(n, self.func(f"op{op}", 2)(x, y))
        if op in ("~~", "~~*", "@>", "<@", "&&"):
            return bval(self.func(f"op{op}", 2, z3.BoolSort())(x, y), n)
        return self.apply(f"op{op}", a)

    def function(self, x, env):
        _, name, args, distinct, flt = x
        if name == "coalesce":
            r = NULL
            for a in reversed(args):
                v = self.expr(a, env)
                r = ite(v.n, r, v)
            return r
        if env.group is not None and is_agg(x):
            rows = []
            for p, en in env.group:
                if flt is not None:
                    p = And(p, istrue(self.expr(flt, en)))
                vals = [self.expr(a, en) for a in args if a[0] != "star"]
                rows.append((p, vals))
            return self.aggregate(name, rows, distinct)
        if is_agg(x):
            raise Unsupported(f"aggregate {name} outside of grouping")
        vs = [self.expr(a, env) for a in args]
        if flt is not None:
            vs.append(self.expr(flt, env))
            name += "!filter"
        return self.apply(f"func:{name}:{distinct}", vs)

    def aggregate(self, name, rows, distinct):
        if rows and not rows[0][1]:  # count(*)
            return Val(F, z3.Sum([b2i(p) for p, _ in rows]) if rows else z3.IntVal(0))
        live = [(And(p, *[Not(v.n) for v in vals[:1]]), vals) for p, vals in rows]
        if distinct:
            live = [(And(p, *[Not(And(live[j][0], *[same_val(a, b) for a, b in zip(vals, live[j][1])])) for j in range(i)]), vals)
                    for i, (p, vals) in enumerate(live)]
        cnt = z3.Sum([b2i(p) for p, _ in live]) if live else z3.IntVal(0)
        if name == "count":
            return Val(F, cnt)
        none = Not(Or(*[p for p, _ in live]))
        total = z3.Sum([If(p, vals[0].v, z3.IntVal(0)) for p, vals in live]) if live else z3.IntVal(0)
        if name == "sum":
            return Val(none, total)
        if name in ("min", "max"):
            r = None
            for p, vals in live:
                v = vals[0].v
                if r is None:
                    r = (p, v)
                else:
                    better = v < r[1] if name == "min" else v > r[1]
                    r = (Or(r[0], p), If(And(p, Or(Not(r[0]), better)), v, r[1]))
            return Val(none, r[1]) if r else NULL
        if name == "avg":
            return Val(none, self.func("avg", 2)(total, cnt))
        h = self.func(f"aggelem:{name}", 2 * len(rows[0][1]) if rows else 0)
        acc = z3.Sum([If(p, h(*[y for v in vals for y in (b2i(v.n), norm(v))]), z3.IntVal(0)) for p, vals in live])
        return Val(none, self.func(f"agg:{name}", 2)(acc, cnt))

    def window(self, x, env):
        _, name, args, distinct, flt, part, order = x
        if env.rows is None:
            raise Unsupported("window function outside of a select list")
        mine = [self.expr(p, env) for p in part]
        okeys = [self.expr(o[0], env) for o in order]
        sig = f"{name}:{[a[0] for a in args if a[0] == 'star']}:{distinct}:{[(a, n) for _, a, n in order]}:{flt is not None}"
        acc = []
        for p, en in env.rows:
            sub = Env(en.scopes, en.ctes, group=en.group)
            ks = [self.expr(o[0], sub) for o in order]
            vs = [self.expr(a, sub) for a in args if a[0] != "star"]
            ps = [self.expr(z, sub) for z in part]
            c = And(p, *[same_val(a, b) for a, b in zip(mine, ps)])
            if flt is not None:
                c = And(c, istrue(self.expr(flt, sub)))
            flat = [y for v in ks + vs for y in (b2i(v.n), norm(v))]
            h = self.func(f"winelem:{sig}", len(flat))
            acc.append(If(c, h(*flat) if flat else h, z3.IntVal(0)))
        own = [y for v in okeys + [self.expr(a, env) for a in args if a[0] != "star"] for y in (b2i(v.n), norm(v))]
        f = self.func(f"win:{sig}:{len(own)}", len(own) + 1)
        g = self.func(f"winnull:{sig}:{len(own)}", len(own) + 1, z3.BoolSort())
        a = own + [z3.Sum(acc) if acc else z3.IntVal(0)]
        return Val(g(*a), f(*a))


def is_agg(x):
    return x[0] == "func" and x[1] in AGG


def contains_agg(x):
    if isinstance(x, E):
        if is_agg(x):
            return True
        if x[0] in ("sub", "exists"):
            return False
        if x[0] == "window":
            return any(contains_agg(a) for a in x[2] + x[5] + [o[0] for o in x[6]])
        return any(contains_agg(y) for y in x[1:])
    if isinstance(x, (list, tuple)):
        return any(contains_agg(y) for y in x)
    return False


def mentions(q, name):
    def frm(f):
        if f[0] == "table":
            return f[2] == name
        if f[0] == "join":
            return frm(f[2]) or frm(f[3])
        return f[0] == "sub" and mentions(f[1], name)
    if q.kind == "set":
        return mentions(q.left, name) or mentions(q.right, name)
    return q.kind == "select" and any(frm(f) for f in q.frm)


def all_cols(tabs):
    return [c for _, cols, _ in tabs for c in cols]


def find_col(tabs, n):
    for _, cols, row in tabs:
        if n in row:
            return row[n]
    raise Unsupported(n)


def nulls(tabs):
    return [(i, cols, {c: NULL for c in cols}) for i, cols, _ in tabs]


def default_name(t):
    if t[0] == "col":
        return t[2]
    if t[0] == "func":
        return t[1].split(".")[-1]
    if t[0] == "window":
        return t[1]
    if t[0] == "case":
        return "case"
    if t[0] == "exists":
        return "exists"
    return "?column?"


def rename(rel, cols):
    if not cols:
        return rel
    return Rel(list(cols) + rel.cols[len(cols):], rel.rows)


def row_eq(a, b):
    return And(*[same_val(x, y) for x, y in zip(a, b)])


def dedupe(rel, with_keys=False):
    out = []
    for i, (p, v) in enumerate(rel.rows):
        k = rel.keys[i] if with_keys and rel.keys else []
        ok = And(p, *[Not(And(rel.rows[j][0], row_eq(v, rel.rows[j][1]),
                              row_eq(k, rel.keys[j]) if with_keys and rel.keys else T)) for j in range(i)])
        out.append((ok, v))
    return Rel(rel.cols, out, rel.keys)


def setop(op, all_, a, b):
    if len(a.cols) != len(b.cols):
        raise Unsupported("set operation arity")
    if op == "union":
        r = Rel(a.cols, a.rows + b.rows)
        return r if all_ else dedupe(r)
    if not all_:
        a = dedupe(a)
        out = []
        for p, v in a.rows:
            inb = Or(*[And(p2, row_eq(v, v2)) for p2, v2 in b.rows])
            out.append((And(p, inb if op == "intersect" else Not(inb)), v))
        return Rel(a.cols, out)
    out = []
    for i, (p, v) in enumerate(a.rows):
        rank = z3.Sum([b2i(And(a.rows[j][0], row_eq(v, a.rows[j][1]))) for j in range(i)] + [z3.IntVal(0)])
        cnt = z3.Sum([b2i(And(p2, row_eq(v, v2))) for p2, v2 in b.rows] + [z3.IntVal(0)])
        out.append((And(p, rank < cnt if op == "intersect" else rank >= cnt), v))
    return Rel(a.cols, out)


def key_before(a, b, asc, nf):
    lt = a.v < b.v if asc else a.v > b.v
    return Or(And(a.n, Not(b.n)) if nf else And(Not(a.n), b.n), And(Not(a.n), Not(b.n), lt))


def row_before(ka, va, kb, vb, order, tie):
    """row a sorts strictly before row b; ties are broken by the complete row, then by tie"""
    res = z3.BoolVal(bool(tie))
    items = [(x, y, asc, nf) for (x, y), (asc, nf) in zip(zip(ka, kb), order)] + [(x, y, True, False) for x, y in zip(va, vb)]
    for x, y, asc, nf in reversed(items):
        res = Or(key_before(x, y, asc, nf), And(same_val(x, y), res))
    return res


def apply_limit(rel):
    if rel.limit is None and not rel.offset:
        return Rel(rel.cols, rel.rows)
    keys = rel.keys or [[] for _ in rel.rows]
    out = []
    for i, (p, v) in enumerate(rel.rows):
        rank = z3.Sum([b2i(And(p2, row_before(keys[j], v2, keys[i], v, rel.order, j < i)))
                       for j, (p2, v2) in enumerate(rel.rows) if j != i] + [z3.IntVal(0)])
        lo = rel.offset or 0
        c = rank >= lo
        if rel.limit is not None:
            c = And(c, rank < lo + rel.limit)
        out.append((And(p, c), v))
    return Rel(rel.cols, out)


def same_result(a, b, names=True):
    """z3 formula (or bool): the two results are the same bag of rows in the same order / limit"""
    if len(a.cols) != len(b.cols) or (names and a.cols != b.cols):
        return False
    if a.order != b.order or a.limit != b.limit or (a.offset or 0) != (b.offset or 0):
        return False
    A = [(p, v + (a.keys[i] if a.keys and a.order else [])) for i, (p, v) in enumerate(a.rows)]
    B = [(p, v + (b.keys[i] if b.keys and b.order else [])) for i, (p, v) in enumerate(b.rows)]
    A = [(z3.simplify(p), v) for p, v in A]
    B = [(z3.simplify(p), v) for p, v in B]
    A = [x for x in A if not z3.is_false(x[0])]
    B = [x for x in B if not z3.is_false(x[0])]
    if len(A) == len(B):
        # position by position (usual case); complete, since the fall-back below covers the rest
        pos = And(*[And(p == p2, z3.Implies(p, row_eq(v, v2))) for (p, v), (p2, v2) in zip(A, B)])
        if engine.quick_valid(pos):
            return T
    cs = [z3.Sum([b2i(p) for p, _ in A] + [z3.IntVal(0)]) == z3.Sum([b2i(p) for p, _ in B] + [z3.IntVal(0)])]
    for p, v in A:
        na = z3.Sum([b2i(And(p2, row_eq(v, v2))) for p2, v2 in A] + [z3.IntVal(0)])
        nb = z3.Sum([b2i(And(p2, row_eq(v, v2))) for p2, v2 in B] + [z3.IntVal(0)])
        cs.append(Or(Not(p), na == nb))
    return And(*cs)


def equivalent(ctx, db, q1, q2, names=True):
    """Assertion: both query trees have the same result (where both are defined)."""
    r1 = db.run(q1)
    r2 = db.run(q2)
    s = same_result(r1, r2, names)
    if s is False:
        return False
    if db.undef:
        s = Or(s, *db.undef)
    return SymBool(s)
