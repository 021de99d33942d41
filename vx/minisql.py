"""A small SQL engine over tables with symbolic values: evaluates the catalog and statistics queries of the code under test."""
import re

from pglast import ast, enums, parse_sql

from .sym import SymBool, SymInt, SymFloat


class Unsupported(Exception):
    pass


class SqlError(Exception):
    """The server rejects the statement."""


class Table:
    def __init__(self, columns, rows):
        self.columns, self.rows = list(columns), [tuple(r) for r in rows]


def prepare(sql, placeholder, params):
    n = len(params)
    i = [0]

    def sub(m):
        i[0] += 1
        return f"${i[0]}"
    out = re.sub(re.escape(placeholder), sub, sql) if n else sql
    if n and i[0] != n:
        raise SqlError(f"the query has {i[0]} placeholders but {n} parameters were passed")
    return out


def truth(v):
    """SQL truth: NULL is not true."""
    if v is None:
        return False
    return bool(v)


def is_null(v):
    return v is None


def neg(v):
    return None if v is None else (~v if isinstance(v, SymBool) else not v)


class Engine:
    def __init__(self, tables, functions=None, casts=None):
        """tables: {"name" or "schema.name": Table}, functions: {name: f(args)}, casts: {type: f(value)}"""
        self.tables, self.functions, self.casts = tables, functions or {}, casts or {}

    def run(self, sql, params=(), placeholder="%s"):
        text = prepare(sql, placeholder, params)
        try:
            stmts = parse_sql(text)
        except Exception as e:
            raise SqlError(f"syntax error: {e}")
        if len(stmts) != 1 or not isinstance(stmts[0].stmt, ast.SelectStmt):
            raise Unsupported(sql)
        return self.select(stmts[0].stmt, params, None)

    # ---- queries
    def select(self, s, params, outer):
        if s.op != enums.SetOperation.SETOP_NONE:
            if s.op != enums.SetOperation.SETOP_UNION:
                raise Unsupported("set operation")
            res = []
            for r in self.select(s.larg, params, outer) + self.select(s.rarg, params, outer):
                if s.all or not any(self.same_row(r, x) for x in res):
                    res.append(r)
            return res
        envs = [[]]
        for f in s.fromClause or ():
            envs = [e + e2 for e in envs for e2 in self.source(f, params, outer)]
        envs = [Env(e, params, outer) for e in envs]
        if s.whereClause is not None:
            envs = [e for e in envs if truth(self.expr(s.whereClause, e))]
        aggregate = s.groupClause or any(self.has_aggregate(t.val) for t in s.targetList)
        if aggregate:
            groups = []
            for e in envs:
                key = [self.expr(g, e) for g in s.groupClause or ()]
                for k, members in groups:
                    if self.same_row(k, key):
                        members.append(e)
                        break
                else:
                    groups.append((key, [e]))
            if not s.groupClause and not groups:
                groups = [([], [])]
            units = [(g[1][0] if g[1] else Env([], params, outer), g[1]) for g in groups]
        else:
            units = [(e, None) for e in envs]
        out = []
        for e, members in units:
            row, names = [], []
            for t in s.targetList:
                if isinstance(t.val, ast.ColumnRef) and isinstance(t.val.fields[-1], ast.A_Star):
                    for _, cols, vals in e.sources:
                        row += vals
                        names += cols
                    continue
                row.append(self.expr(t.val, e, members))
                names.append(t.name or (t.val.fields[-1].sval if isinstance(t.val, ast.ColumnRef) else "?"))
            out.append((row, names, e, members))
        for k in reversed(s.sortClause or ()):
            desc = k.sortby_dir == enums.SortByDir.SORTBY_DESC
            last = (not desc) if k.sortby_nulls == enums.SortByNulls.SORTBY_NULLS_DEFAULT else k.sortby_nulls == enums.SortByNulls.SORTBY_NULLS_LAST
            keyed = [(self.sort_key(k.node, o), o) for o in out]
            out = [o for _, o in self.sort(keyed, desc, last)]
        rows = [tuple(o[0]) for o in out]
        if any(isinstance(v, Unnest) for r in rows for v in r):
            exp = []
            for r in rows:
                n = max(len(v.items) for v in r if isinstance(v, Unnest))
                for i in range(n):
                    exp.append(tuple((v.at(i) if isinstance(v, Unnest) else v) for v in r))
            rows = exp
        if s.distinctClause:
            res = []
            for r in rows:
                if not any(self.same_row(r, x) for x in res):
                    res.append(r)
            rows = res
        if s.limitCount is not None:
            rows = rows[:self.expr(s.limitCount, Env([], params, outer))]
        return rows

    def sort(self, keyed, desc, nulls_last):
        """A stable insertion sort (comparisons may fork)."""
        res = []
        for item in keyed:
            i = len(res)
            while i > 0 and self.before(item[0], res[i - 1][0], desc, nulls_last):
                i -= 1
            res.insert(i, item)
        return res

    def before(self, a, b, desc, nulls_last):
        if a is None or b is None:
            return (a is None and b is not None) != nulls_last if (a is None) != (b is None) else False
        return bool(a > b) if desc else bool(a < b)

    def sort_key(self, node, o):
        row, names, e, members = o
        if isinstance(node, ast.ColumnRef) and len(node.fields) == 1 and node.fields[0].sval in names:
            return row[names.index(node.fields[0].sval)]
        if isinstance(node, ast.A_Const):
            return row[node.val.ival - 1]
        return self.expr(node, e, members)

    def same_row(self, a, b):
        return all(((x is None) == (y is None)) and (x is None or self.eq(x, y)) for x, y in zip(a, b))

    @staticmethod
    def eq(x, y):
        r = x == y
        return bool(r)

    def source(self, f, params, outer):
        if isinstance(f, ast.RangeVar):
            name = (f.schemaname + "." if f.schemaname else "") + f.relname
            t = self.tables.get(name)
            if t is None:
                raise SqlError(f'relation "{name}" does not exist')
            alias = f.alias.aliasname if f.alias else f.relname
            return [[(alias, t.columns, list(r))] for r in t.rows]
        if isinstance(f, ast.RangeFunction):
            call = f.functions[0][0]
            name = ".".join(x.sval for x in call.funcname)
            t = self.tables.get(name + "()")
            if t is None:
                raise SqlError(f"function {name}() does not exist")
            alias = f.alias.aliasname if f.alias else name
            return [[(alias, t.columns, list(r))] for r in t.rows]
        if isinstance(f, ast.JoinExpr):
            if f.jointype not in (enums.JoinType.JOIN_INNER, enums.JoinType.JOIN_LEFT):
                raise Unsupported("join type")
            res = []
            right = self.source(f.rarg, params, outer)
            for left in self.source(f.larg, params, outer):
                hit = False
                for r in right:
                    e = left + r
                    if f.quals is None or truth(self.expr(f.quals, Env(e, params, outer))):
                        res.append(e)
                        hit = True
                if not hit and f.jointype == enums.JoinType.JOIN_LEFT:
                    if not right:
                        raise Unsupported("left join with an empty relation")
                    res.append(left + [(alias, cols, [None] * len(cols)) for alias, cols, _ in right[0]])
            return res
        if isinstance(f, ast.RangeSubselect):
            rows = self.select(f.subquery, params, outer)
            names = [t.name or (t.val.fields[-1].sval if isinstance(t.val, ast.ColumnRef) else "?") for t in f.subquery.targetList]
            return [[(f.alias.aliasname, names, list(r))] for r in rows]
        raise Unsupported(type(f).__name__)

    # ---- expressions
    AGG = {"count", "min", "max", "sum"}

    def has_aggregate(self, x):
        if isinstance(x, ast.FuncCall):
            return x.funcname[-1].sval in self.AGG or any(self.has_aggregate(a) for a in x.args or ())
        if isinstance(x, ast.A_Expr):
            return any(self.has_aggregate(a) for a in (x.lexpr, x.rexpr) if a is not None and not isinstance(a, tuple))
        if isinstance(x, ast.TypeCast):
            return self.has_aggregate(x.arg)
        return False

    def expr(self, x, e, members=None):
        if isinstance(x, ast.A_Const):
            if x.isnull:
                return None
            v = x.val
            return v.ival if isinstance(v, ast.Integer) else v.sval if isinstance(v, ast.String) else v.boolval if isinstance(v, ast.Boolean) else float(v.fval)
        if isinstance(x, ast.ParamRef):
            return e.params[x.number - 1]
        if isinstance(x, ast.ColumnRef):
            return e.lookup([f.sval for f in x.fields])
        if isinstance(x, ast.TypeCast):
            v = self.expr(x.arg, e, members)
            t = x.typeName.names[-1].sval
            if x.typeName.arrayBounds:
                t += "[]"
            if t not in self.casts:
                raise Unsupported(f"cast to {t}")
            return self.casts[t](v)
        if isinstance(x, ast.BoolExpr):
            if x.boolop == enums.BoolExprType.NOT_EXPR:
                return neg(self.expr(x.args[0], e, members))
            conj = x.boolop == enums.BoolExprType.AND_EXPR
            null = False
            for a in x.args:
                v = self.expr(a, e, members)
                if v is None:
                    null = True
                elif truth(v) != conj:
                    return not conj
            return None if null else conj
        if isinstance(x, ast.NullTest):
            v = is_null(self.expr(x.arg, e, members))
            return v if x.nulltesttype == enums.NullTestType.IS_NULL else not v
        if isinstance(x, ast.SubLink):
            rows = self.select(x.subselect, e.params, e)
            if x.subLinkType == enums.SubLinkType.EXISTS_SUBLINK:
                return bool(rows)
            if x.subLinkType == enums.SubLinkType.EXPR_SUBLINK:
                if len(rows) > 1:
                    raise SqlError("more than one row returned by a subquery used as an expression")
                return rows[0][0] if rows else None
            if x.subLinkType == enums.SubLinkType.ANY_SUBLINK and not x.operName:
                v = self.expr(x.testexpr, e, members)
                if v is None:
                    return None
                return True if any(r[0] is not None and self.eq(v, r[0]) for r in rows) else None if any(r[0] is None for r in rows) else False
            raise Unsupported("sublink")
        if isinstance(x, ast.A_Expr):
            return self.operator(x, e, members)
        if isinstance(x, ast.CoalesceExpr):
            for a in x.args:
                v = self.expr(a, e, members)
                if v is not None:
                    return v
            return None
        if isinstance(x, ast.FuncCall):
            return self.call(x, e, members)
        if isinstance(x, ast.A_Indirection) and isinstance(x.indirection[0], ast.A_Indices) and isinstance(x.arg, ast.ColumnRef):
            v, i = self.expr(x.arg, e, members), self.expr(x.indirection[0].uidx, e, members)
            if v is None or i is None:
                return None
            i -= 0 if x.arg.fields[-1].sval == "indkey" else 1  # int2vector starts at 0
            return v[i] if 0 <= i < len(v) else None
        if isinstance(x, ast.SQLValueFunction):
            return self.functions[x.op.name.lower().removeprefix("svfop_")]()
        raise Unsupported(type(x).__name__)

    def operator(self, x, e, members):
        op = x.name[-1].sval if x.name else ""
        K = enums.A_Expr_Kind
        left = self.expr(x.lexpr, e, members) if x.lexpr is not None else None
        if x.kind == K.AEXPR_IN:
            hit, null = False, left is None
            for a in x.rexpr:
                v = self.expr(a, e, members)
                if v is None or left is None:
                    null = True
                elif self.eq(left, v):
                    hit = True
            return None if null and not hit else hit == (op == "=")
        right = self.expr(x.rexpr, e, members)
        if x.kind == K.AEXPR_OP_ANY:
            if left is None or right is None:
                return None
            return any(self.eq(left, v) for v in right if v is not None)
        if x.kind in (K.AEXPR_LIKE, K.AEXPR_ILIKE):
            if left is None or right is None:
                return None
            pattern = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in str(right).replace("\\_", "\0")).replace("\0", "_").replace(re.escape("\0"), "_")
            return (re.fullmatch(pattern, left, re.S | (re.I if x.kind == K.AEXPR_ILIKE else 0)) is not None) == (not op.startswith("!"))
        if x.kind != K.AEXPR_OP:
            raise Unsupported(f"operator {x.kind}")
        if x.lexpr is None and op == "-":
            return None if right is None else -right
        if left is None or right is None:
            return None
        f = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
             "*": lambda a, b: Unnest([i * b for i in a.items]) if isinstance(a, Unnest) else a * b, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "/": lambda a, b: a / b}.get(op)
        if f is None:
            raise Unsupported(f"operator {op}")
        return f(left, right)

    def call(self, x, e, members):
        name = x.funcname[-1].sval
        if name in self.AGG:
            if members is None:
                raise SqlError("aggregate functions are not allowed here")
            if x.agg_star:
                return len(members)
            vals = [v for v in (self.expr(x.args[0], m) for m in members) if v is not None]
            if x.agg_distinct:
                res = []
                for v in vals:
                    if not any(self.eq(v, r) for r in res):
                        res.append(v)
                vals = res
            if name == "count":
                return len(vals)
            if not vals:
                return None
            best = vals[0]
            for v in vals[1:]:
                if name == "sum":
                    best = best + v
                elif bool(v < best if name == "min" else v > best):
                    best = v
            return best
        args = [self.expr(a, e, members) for a in x.args or ()]
        if name == "unnest":
            return Unnest(args[0] or [])
        if name in ("lower", "upper") and name not in self.functions:
            return None if args[0] is None else getattr(args[0], name)()
        if name in ("cardinality", "len", "array_length") and name not in self.functions:
            return None if args[0] is None else len(args[0])
        if name not in self.functions:
            raise SqlError(f"function {name} does not exist")
        return self.functions[name](*args)


class Unnest:
    def __init__(self, items):
        self.items = list(items)

    def at(self, i):
        return self.items[i] if i < len(self.items) else None


class Env:
    def __init__(self, sources, params, outer):
        self.sources, self.params, self.outer = sources, params, outer

    def lookup(self, path):
        name = path[-1]
        hits = [vals[cols.index(name)] for alias, cols, vals in self.sources if name in cols and (len(path) == 1 or alias == path[-2])]
        if len(hits) > 1:
            raise SqlError(f'column reference "{name}" is ambiguous')
        if hits:
            return hits[0]
        if self.outer is not None:
            return self.outer.lookup(path)
        raise SqlError(f'column "{".".join(path)}" does not exist')
