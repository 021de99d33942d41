"""Purely syntactic facts about a SQL text, read off libpg_query's raw syntax tree (pglast)."""
from __future__ import annotations

import pglast
from pglast import ast as A
from pglast.stream import RawStream


def stmt(text):
    s = [x.stmt for x in pglast.parse_sql(text)]
    s = [x for x in s if not isinstance(x, A.VariableSetStmt)][-1]
    return s.query if isinstance(s, A.ExplainStmt) else s


def children(n):
    if isinstance(n, (tuple, list)):
        for x in n:
            yield from children(x)
    elif isinstance(n, A.Node):
        yield n


def nodes(n, stop=lambda x: False):
    """pre-order over all nodes below n (children of nodes for which stop() holds are skipped)"""
    for x in children(n):
        yield x
        if stop(x):
            continue
        for a in x:
            yield from nodes(getattr(x, a), stop)


def _name(f):
    return [x.sval if isinstance(x, A.String) else "*" for x in f]


def columns(node):
    """[(location, qualifier or '', name)] of all column references except stars"""
    out = []
    for x in nodes(node):
        if isinstance(x, A.ColumnRef):
            f = _name(x.fields)
            if f[-1] != "*":
                out.append((x.location, ".".join(f[:-1]), f[-1]))
    return sorted(out)


def value_columns(node):
    """the names given to the columns of VALUES lists"""
    out = []
    for x in nodes(node):
        if isinstance(x, A.RangeSubselect) and x.subquery.valuesLists and x.alias:
            out += [(x.alias.aliasname, c.sval) for c in x.alias.colnames or ()]
        if isinstance(x, A.CommonTableExpr) and x.ctequery.valuesLists:
            out += [(x.ctename, c.sval) for c in x.aliascolnames or ()]
    return out


def range_tables(node):
    """(schema, name, alias) of everything in FROM clauses; virtual tables only have a name"""
    out = []
    for x in nodes(node):
        if isinstance(x, A.RangeVar):
            out.append((x.schemaname or "", x.relname, x.alias.aliasname if x.alias else ""))
        elif isinstance(x, (A.RangeSubselect, A.RangeFunction)) and x.alias:
            out.append(("", x.alias.aliasname, ""))
    return out


def cte_names(node):
    return [x.ctename for x in nodes(node) if isinstance(x, A.CommonTableExpr)]


def has_star(node):
    """stars which are not the argument of an aggregate"""
    return any(isinstance(x, A.ColumnRef) and _name(x.fields)[-1] == "*" for x in nodes(node))


def direct_subqueries(s):
    """the sub-SELECTs of a statement, without those within them and without CTEs"""
    out = []

    def go(n):
        for x in children(n):
            if isinstance(x, A.CommonTableExpr):
                continue
            if isinstance(x, A.SubLink):
                go(x.testexpr)
                out.append(x.subselect)
                continue
            if isinstance(x, A.RangeSubselect) and not x.subquery.valuesLists:
                out.append(x.subquery)
                continue
            for a in x:
                go(getattr(x, a))
    go(s)
    return out


def deparse(node):
    return RawStream()(node)
