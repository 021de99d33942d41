"""Shared pieces of the query checks: section harnesses, schema stub, structural side conditions."""
from __future__ import annotations

from . import engine, sqlgen as G, sqlsem as S


class _Col:
    def __init__(self, name):
        self.name = name


class SchemaStub:
    """The part of a database schema that column binding needs, over the catalog of the generators."""

    def columns(self, table):
        n = table if isinstance(table, str) else (f"{table.schema}.{table.full_name}" if table.schema else table.full_name)
        return [_Col(c) for c in G.CATALOG[n]]

    def lookup_column(self, column, candidate_tables):
        name = column if isinstance(column, str) else column.name
        for t in candidate_tables:
            if any(c.name == name for c in self.columns(t)):
                return t
        return None


def parse(text, sec=""):
    from postbound.parser import parse_query
    if sec == "bind":
        return parse_query(text, accept_set_query=True, bind_columns=True, db_schema=SchemaStub())
    return parse_query(text, accept_set_query=True, bind_columns=False)


def db_for(ctx, sec="", rows=None):
    return S.Db(ctx, G.CATALOG, rows=rows or (1 if sec in ("set", "join4", "wide") else 2))


def ctes_of(q):
    """(name, materialized) of all CTEs, outermost first"""
    out = [(c["name"], c["mat"]) for c in q.ctes]
    for c in q.ctes:
        out += ctes_of(c["query"])
    if q.kind == "set":
        out += ctes_of(q.left) + ctes_of(q.right)
    return out


def section(sec, body, *, bounds="", functions=(), gen=None, stop_early=True, **kw):
    """one harness per grammar section; body(ctx, text, sec)"""
    g = gen or G.SECTIONS[sec]

    def run(ctx):
        body(ctx, g(ctx), sec)
    return engine.Harness(sec, run, functions=functions, stop_early=stop_early,
                          bounds=f"every query of the section '{sec}' ({(G.SECTIONS.get(sec) or g).__doc__ or 'see vx/sqlgen.py'}); {bounds}", **kw)
