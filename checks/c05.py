"""C05: what a query says about itself: its tables, columns, subqueries, output columns, free tables, scalar-ness."""
import warnings

import z3

from vx import pgwalk as W, qalgen as B, sqlcheck as K, sqlgen as G, sqlsem as S
from vx.engine import Harness
from vx.sym import SymBool

LEVEL = "model_checking"
ASSUMPTIONS = ["SQL text is read by libpg_query (pglast); reference semantics of vx/sqlsem.py with 2 rows per table (1 for set operations and wide queries)",
               "star projections and natural joins count as references to every column"]
F = ["postbound.qal.SqlQuery.tables/columns/itercolumns/columns_of/subqueries/bound_tables/unbound_tables/is_dependent/is_scalar/output_columns/iterexpressions",
     "postbound.qal.SetQuery.<same>", "postbound.qal.<clauses, table sources, expressions, predicates>.tables/columns/itercolumns/iterchildren/iterexpressions",
     "postbound.qal.ExpressionCollector"]


def ident(t):
    """(schema, name, alias); virtual tables are only known by their name"""
    return (t.schema, t.full_name, t.alias) if t.full_name else ("", t.alias, "")


def colkey(c):
    return (c.table.identifier() if c.table else "", c.name)


class Variant(S.Db):
    """a second database: same presence of rows in the tables of keep_t, same values in the columns of keep_c, everything else is arbitrary"""

    def __init__(self, db, keep_t, keep_c):
        super().__init__(db.ctx, db.schema, rows=db.rows, nullable=db.nullable)
        self.lits = db.lits
        for key, rel in db.content.items():
            rows = []
            for i, (p, vals) in enumerate(rel.rows):
                p2 = p if keep_t(key) else self._bool(f"other.{key}.{i}.present")
                rows.append((p2, [v if keep_c(key, c) else S.Val(self._bool(f"other.{key}.{i}.{c}.null"), self._int(f"other.{key}.{i}.{c}"))
                                  for c, v in zip(rel.cols, vals)]))
            self.content[key] = S.Rel(list(rel.cols), rows)


def footprint(ctx, q, text, sec):
    """tables outside of tables() and columns outside of columns() do not influence the result"""
    if W.has_star(W.stmt(text)) or "NATURAL" in text:
        cols = None
    else:
        cols = {(c.table.full_name if c.table else None, c.name) for c in q.columns()}
    tabs = {(f"{t.schema}.{t.full_name}" if t.schema and t.schema != "public" else t.full_name) for t in q.tables()}
    db = K.db_for(ctx, sec)
    ref = S.from_pg(text)
    r1 = db.run(ref)

    def keep_c(key, c):
        n = key.split(".")[-1]
        return cols is None or (n, c) in cols or (None, c) in cols or ("", c) in cols
    db2 = Variant(db, lambda key: key in tabs, keep_c)
    r2 = db2.run(ref)
    same = S.same_result(r1, r2)
    undef = db.undef + db2.undef
    ctx.check(same if same is False else SymBool(S.Or(same, *undef)), "the result only depends on the reported tables and columns", key=text)
    return db, ref, r1


def syntax(ctx, q, text, root):
    """exactly the references of the text, in the order of the text"""
    vals = [c for c in W.value_columns(root)]
    refs = [(t.split(".")[-1], n) for _, t, n in W.columns(root)]
    got = [colkey(c) for c in q.itercolumns()]
    ctx.check(sorted(got) == sorted(refs + vals), "itercolumns() are the column references of the query", key=text, got=got, text=refs)
    ctx.check(set(q.itercolumns()) == set(q.columns()), "columns() are the distinct itercolumns()", key=text)
    ctx.check([x for x in got if x not in vals] == [x for x in refs if x not in vals], "itercolumns() are in textual order", key=text, got=got, text=refs)
    tabs = {t if t[1] else ("", t[2], "") for t in W.range_tables(root)}
    got = [ident(t) for t in q.tables()]
    for t in tabs:
        ctx.check(any(g == t or not t[2] and g == ("", t[1], "") for g in got), "every table of the FROM clauses is reported", key=text, table=t, got=got)
    quals = {t for t, _ in refs if t}
    names = {t[2] or t[1] for t in tabs}
    ctx.check({t.identifier() if not t.schema or t.alias else t.full_name for t in q.tables()} == names | quals, "no other table is reported", key=text,
              got=got, text=(names, quals))
    for t in [] if q.is_set_query() else q.tables():
        ctx.check(q.columns_of(t) == {c for c in q.columns() if c.table == t}, "columns_of() selects the columns of the table", key=text)
    # free tables
    bound = names | set(W.cte_names(root))
    ctx.check({(t.alias or t.full_name) for t in q.unbound_tables()} == quals - bound, "unbound_tables() are the qualifiers without a FROM item", key=text,
              got=q.unbound_tables(), text=(quals, bound))
    ctx.check(q.is_dependent() == bool(quals - bound), "is_dependent() iff there are unbound tables", key=text)
    ctx.check(not q.is_dependent() or q.unbound_tables(), "is_dependent() agrees with unbound_tables()", key=text)
    # sub-selects
    subs = {W.deparse(x) for x in W.direct_subqueries(root)}
    got = {W.deparse(W.stmt(s.stringify())) for s in q.subqueries()}
    ctx.check(subs == got, "subqueries() are the sub-selects of the query", key=text, got=got, text=subs)


def expressions(ctx, roots, text):
    """the expression tree is closed: children, tables, columns and iteration agree at every node"""
    from postbound import qal
    for root in roots:
        todo = [root]
        while todo:
            x = todo.pop()
            kids = list(x.iterchildren())
            todo += kids
            cols = list(x.itercolumns())
            ctx.check(set(cols) == set(x.columns()), "expression: columns() are the itercolumns()", key=text, expr=str(x))
            if isinstance(x, qal.ColumnExpression):
                ctx.check(cols == [x.column] and not kids, "expression: a column is its own column", key=text)
            elif isinstance(x, qal.SubqueryExpression):
                ctx.check(cols == list(x.query.itercolumns()) and x.tables() == x.query.tables(), "expression: subquery", key=text)
            else:
                ctx.check(sorted(map(str, cols)) == sorted(str(c) for k in kids for c in k.itercolumns()), "expression: columns of the children", key=text,
                          expr=str(x), kids=kids)
                extra = {x.from_table} if isinstance(x, qal.StarExpression) and x.from_table else set()
                ctx.check(x.tables() == extra.union(*[k.tables() for k in kids]), "expression: tables of the children", key=text, expr=str(x))
            ctx.check({c.table for c in cols if c.table} <= x.tables(), "expression: tables() cover columns()", key=text, expr=str(x))
        found = root.accept_visitor(qal.ExpressionCollector(lambda e: isinstance(e, (qal.ColumnExpression, qal.SubqueryExpression)), continue_after_match=True))
        cols = {e.column for e in found if isinstance(e, qal.ColumnExpression)}
        ctx.check(cols.union(*[e.query.columns() for e in found if isinstance(e, qal.SubqueryExpression)]) == root.columns(),
                  "ExpressionCollector finds every column and subquery", key=text)


def clauses(ctx, q, text):
    ctx.check(set(q.columns()).union(*[c.columns() for c in q.clauses()]) == set(q.columns()), "the clauses have no further columns", key=text)
    for c in q.clauses():
        ctx.check(set(c.columns()) == set(c.itercolumns()), "clause: columns() are the itercolumns()", key=text, clause=str(c))
        exprs = list(c.iterexpressions())
        cols = set().union(*[e.columns() for e in exprs]) if exprs else set()
        ctx.check(cols <= set(c.columns()), "clause: iterexpressions() stay within the clause", key=text, clause=str(c))
        if type(c).__name__ != "CommonTableExpression" and "VALUES" not in str(c):
            ctx.check(cols == set(c.columns()), "clause: iterexpressions() cover the columns", key=text, clause=str(c))
        expressions(ctx, exprs, text)


def output(ctx, q, root, text):
    from postbound import qal
    if W.has_star(root):
        return
    if q.is_set_query():
        ctx.check(len(q.output_columns()) == len(q.left_query.output_columns()), "output_columns(): one per projection", key=text)
        return
    want, n = [], 0
    for t in root.targetList:
        f = W._name(t.val.fields) if type(t.val).__name__ == "ColumnRef" else None
        if t.name:
            want.append(t.name)
        elif f:
            want.append(f[-1])
        else:
            n += 1
            want.append(f"column_{n}")
    got = q.output_columns()
    ctx.check([c.name for c in got] == want and all(c.table is None for c in got), "output_columns()", key=text, got=got, text=want)


def rows(rel, cap=2):
    """number of result rows (before a top-level LIMIT) as a term"""
    return z3.Sum([S.b2i(p) for p, _ in rel.rows] + [z3.IntVal(0)])


def query(ctx, q, text, sec):
    warnings.simplefilter("ignore")
    from postbound import qal
    rendered = q.stringify(trailing_delimiter=False)
    root = W.stmt(rendered)
    syntax(ctx, q, rendered, root)
    clauses(ctx, q, rendered)
    output(ctx, q, root, rendered)
    db, ref, res = footprint(ctx, q, rendered, sec)
    if q.is_scalar():
        ctx.check(len(res.cols) == 1, "scalar queries have one column", key=text)
        if res.limit is None and not res.offset:
            ctx.check(SymBool(S.Or(rows(res) == 1, *db.undef)), "scalar queries have exactly one row", key=text)
        else:
            ctx.check(res.limit != 0 and not res.offset, "scalar queries have exactly one row", key=text)
        ctx.reach("scalar")
    else:
        kinds = [type(t.expression).__name__ for t in q.select_clause.targets] if not q.is_set_query() else []
        plain = kinds == ["FunctionExpression"] and str(q.select_clause).split("(")[0] in ("SELECT sum", "SELECT count", "SELECT min", "SELECT max", "SELECT avg")
        ctx.check(not (plain and len(q.clauses()) <= 3 and q.where_clause is None and not q.limit_clause and not q.cte_clause and not q.groupby_clause
                       and not q.having_clause and not q.orderby_clause and not q.hints and not q.explain), "plain aggregates are scalar", key=text)
    ctx.check(q.is_ordered() == bool(root.sortClause), "is_ordered() iff there is an ORDER BY", key=text)
    q.predicates() if not q.is_set_query() else None
    for sub in q.subqueries():
        r = sub.stringify(trailing_delimiter=False)
        syntax(ctx, sub, r, W.stmt(r))
        ctx.reach("subquery")
    ctx.reach("query")


def parsed(ctx, text, sec):
    try:
        q = K.parse(text, sec)
    except Exception:
        if sec != "reject":
            raise
        return
    query(ctx, q, text, sec)


def trees(depth):
    def body(ctx):
        x = B.tree(ctx, depth)
        q = B.select(x)
        try:
            K.db_for(ctx, "").run(S.from_qal(q))
        except S.Unsupported:  # e.g. nested aggregates: no valid SQL
            return ctx.reach("invalid")
        query(ctx, q, str(q), "")
    return body


def preds(depth):
    def body(ctx):
        query(ctx, B.select(B.cexp("r", "a"), where=B.pred(ctx, depth)), "", "")
    return body


SECS = ["expr", "place", "pred", "pplace", "bool", "frm", "join3", "join4", "clauses", "group", "window", "cte", "set", "nest", "bind", "reject", "wide", "wide2"]


def harnesses(tier):
    b = "database contents (2 rows, all values and NULLs) symbolic"
    hs = [K.section(s, parsed, bounds=b, functions=F, must_reach=["query"]) for s in SECS + (["spine"] if tier == "thorough" else [])]
    d = 3 if tier == "thorough" else 2
    hs += [Harness("trees", trees(d), bounds=f"expression objects: every spine of {d} nested expression kinds", functions=F, must_reach=["query"]),
           Harness("predicates", preds(d), bounds=f"predicate objects: every spine of depth {d}", functions=F)]
    return hs
