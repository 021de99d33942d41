"""C37: Postgres configurations, sessions and connections."""
import collections
import configparser
import copy
import json
import os
import pickle
import shutil
import tempfile
import tomllib
import types
import warnings
from pathlib import Path

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Shadow, SymFloat, SymInt, SymStr, TOKENS

import psycopg
import postbound._core as core
import postbound._qep as qep
import postbound.postgres as pg
from postbound import IntermediateOperator, JoinOperator, ScanOperator, TableReference
from postbound.db import DatabasePool

LEVEL = "model_checking"
ASSUMPTIONS = ["the Postgres server is a stand-in that executes SET and SHOW statements, pg_settings, pg_extension, pg_index lookups and pg_prewarm/pg_cooldown calls as documented",
               "standard_conforming_strings is on, i.e. only quotes need to be escaped in literals"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, pg: NS})
warnings.simplefilter("ignore")
DEEP = False
NAMES = ("work_mem", "geqo", "jit", "seed.x")


# ------------------------------------------------------------------ text with symbolic parts
def pieces(text):
    """Splits a text into its characters, numbers remain intact."""
    if isinstance(text, SymStr):
        return list(text)
    out, i, text = [], 0, str(text)
    while i < len(text):
        if text[i] == "\ue000":
            j = text.index("\ue001", i)
            v = TOKENS[text[i + 1:j]]
            out += list(v) if isinstance(v, SymStr) else [v]
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    return out


def is_char(x, c):
    return isinstance(x, str) and bool(x == c)


class Syntax(Exception):
    pass


class Scanner:
    def __init__(self, text):
        self.p, self.i = pieces(text), 0

    def peek(self, c):
        return self.i < len(self.p) and is_char(self.p[self.i], c)

    def eat(self, *chars):
        for c in "".join(chars):
            if not self.peek(c):
                raise Syntax(f"expected {c}")
            self.i += 1

    def skip(self, blanks=" \n"):
        while self.i < len(self.p) and any(self.peek(c) for c in blanks):
            self.i += 1

    def word(self, alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.$"):
        out = ""
        while self.i < len(self.p) and isinstance(self.p[self.i], str) and not isinstance(self.p[self.i], SymStr) and self.p[self.i] in alphabet:
            out += self.p[self.i]
            self.i += 1
        if not out:
            raise Syntax("expected a word")
        return out

    def done(self):
        return self.i >= len(self.p)

    def literal(self, escape=None):
        """A quoted value: a quote is written as two quotes (SQL), or escaped by a backslash (connection strings)."""
        self.eat("'")
        out = []
        while True:
            if self.done():
                raise Syntax("unterminated literal")
            x = self.p[self.i]
            self.i += 1
            if escape and is_char(x, escape):
                if self.done():
                    raise Syntax("unterminated literal")
                x = self.p[self.i]
                self.i += 1
            elif is_char(x, "'"):
                if escape or not self.peek("'"):
                    return out
                self.i += 1
            out.append(x)

    def statements(self):
        """SET <name> = <value>; ..."""
        res = []
        self.skip()
        while not self.done():
            if self.word().upper() != "SET":
                raise Syntax("expected SET")
            self.skip()
            name = self.word()
            self.skip()
            if self.peek("="):
                self.eat("=")
            elif self.word().upper() != "TO":
                raise Syntax("expected =")
            self.skip()
            res.append((name, self.literal() if self.peek("'") else list(self.word())))
            self.skip()
            if not self.done():
                self.eat(";")
            self.skip()
        return res


def conninfo(text):
    s, res = Scanner(text), {}
    s.skip()
    while not s.done():
        k = s.word()
        s.skip()
        s.eat("=")
        s.skip()
        res[k] = s.literal("\\") if s.peek("'") else list(s.word())
        s.skip()
    return res


def text_of(value):
    """What the server sees as the value."""
    if value is True or value is False:
        return list("on" if value else "off")
    return [value] if isinstance(value, (SymInt, SymFloat)) else list(value) if isinstance(value, str) else list(str(value))


def eq(a, b):
    """Equality of two value texts."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) != isinstance(y, str):
            return False
    return And(*[x == y for x, y in zip(a, b)]) if a else True


def any_value(ctx, tag, kinds=("int", "text", "on", "off", "real")):
    k = ctx.pick(f"kind {tag}", kinds)
    if k == "int":
        return ctx.int(tag, -1, 10**6)
    if k == "real":
        return ctx.real(tag, 0, 1)
    if k == "text":
        return ctx.str(tag, 2, lo=32, hi=126)
    return k == "on"


# ------------------------------------------------------------------ configurations
def configuration(ctx):
    n = ctx.choose("n", 3)
    model, args, kwargs = {}, [], {}
    for i in range(n):
        name, v = NAMES[i], any_value(ctx, f"v{i}", ("int", "text") if i == 0 and DEEP else ("int",))
        if i == 1 and ctx.choose("twice", 2) == 1:
            name = NAMES[0]
        model[name] = v
        if i == 0:
            args.append(pg.PostgresSetting(name, v))
        else:
            kwargs[name] = v
    cfg = pg.PostgresConfiguration.load(*args, **kwargs)
    verify(ctx, cfg, model, "load")
    for step in range(2):
        op = ctx.pick(f"op{step}", ["add", "remove", "update", "assign"] + (["get"] if step == 0 or DEEP else []))
        name = NAMES[ctx.choose(f"name{step}", 3 if DEEP else 2)]
        obj = ctx.pick(f"by{step}", ["setting", "name"] + (["keywords"] if op == "add" else [])) if op not in ("get",) else "name"
        v = any_value(ctx, f"w{step}", ("int", "text", "on", "off") if DEEP and step == 0 else ("int", "text", "on") if step == 0 and n < 2 and op != "get" else ("int",))
        old, old_model = cfg, dict(model)
        if op == "get":
            if name in model:
                s = cfg[name]
                ctx.check(isinstance(s, pg.PostgresSetting) and s.parameter == name, "a setting is obtained by its name", key="get")
                ctx.check(same_value(s.value, model[name]), "a setting has its value", key="get")
            else:
                try:
                    cfg[name]
                    ctx.check(False, "only settings of the configuration can be obtained", key="get")
                except KeyError:
                    pass
            continue
        if op == "add":
            model[name] = v
            other = NAMES[3]
            if obj == "keywords":
                model[other] = 1
                cfg = cfg.add(**{name: v, other: 1})
            else:
                cfg = cfg.add(pg.PostgresSetting(name, v)) if obj == "setting" else cfg.add(name, v)
        elif op == "remove":
            model.pop(name, None)
            cfg = cfg.remove(pg.PostgresSetting(name, v) if obj == "setting" else name)
        elif op == "update":
            model[name] = v
            cfg = cfg.update(pg.PostgresSetting(name, "outdated") if obj == "setting" else name, v)
        else:
            model[name] = v
            copied = copy.copy(cfg) if ctx.choose(f"copy{step}", 2) else copy.deepcopy(cfg)
            copied[name] = pg.PostgresSetting(name, v) if obj == "setting" else v
            cfg = copied
            old = cfg
            old_model = model
        verify(ctx, cfg, model, op)
        if op != "assign":
            verify(ctx, old, old_model, f"{op} (original)")
            ctx.check(cfg is not old, "the original configuration is not modified", key="immutable")
        ctx.reach(op)


def same_value(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def verify(ctx, cfg, model, op):
    ctx.check(list(cfg.parameters()) == list(model), "the configuration contains the expected parameters in their order", key=op, got=list(cfg.parameters()), want=list(model))
    ctx.check([s.parameter for s in cfg.settings] == list(model) and all(isinstance(s, pg.PostgresSetting) for s in cfg.settings), "the settings are in their order", key=op)
    for s in cfg.settings:
        ctx.check(same_value(s.value, model[s.parameter]), "the settings have the expected values", key=op)
    d = cfg.as_dict()
    ctx.check(list(d) == list(model), "the dictionary contains all settings", key=op)
    for k in model:
        ctx.check(type(d[k]) is type(model[k]) or isinstance(d[k], (SymInt, SymFloat, SymStr)), "the dictionary contains values", key=op, got=type(d[k]).__name__)
        ctx.check(same_value(d[k], model[k]), "the dictionary contains the values of the settings", key=op)
    d["foreign"] = 1
    ctx.check("foreign" not in cfg.parameters(), "changes of the dictionary do not affect the configuration", key=op)
    try:
        stmts = Scanner(str(cfg)).statements()
    except Syntax as e:
        ctx.check(False, "the text of the configuration consists of SET statements", key=op, error=str(e))
        return
    ctx.check([k for k, _ in stmts] == list(model), "the text of the configuration sets exactly its settings", key=op)
    for k, v in stmts:
        ctx.check(eq(v, text_of(model[k])), "the text of the configuration sets the values", key=op, param=k)


def strings(ctx):
    """Configurations and settings behave like their text, and can be copied."""
    pairs = {NAMES[i]: any_value(ctx, f"v{i}", ("on", "off", "int")) for i in range(ctx.choose("n", 3))}
    if ctx.symbolic:
        pairs = {k: 7 if isinstance(v, SymInt) else v for k, v in pairs.items()}
    cfg = pg.PostgresConfiguration.load(**pairs)
    text = "\n".join(f"SET {k} = '{''.join(text_of(v))}';" for k, v in pairs.items())
    i = ctx.int("i", -len(text) - 1, len(text)) if text else 0
    i = int(i) if not isinstance(i, SymInt) else i.__index__()
    ctx.check(str(cfg) == text and cfg == text and len(cfg) == len(text) and hash(cfg) == hash(text), "a configuration equals its text", key="eq")
    try:
        want = text[i]
    except IndexError:
        want = None
    try:
        got = cfg[i]
    except IndexError:
        got = None
    ctx.check(got == want, "integers index characters", key="index", got=str(got), want=want)
    ctx.check(str(cfg[0:i]) == text[0:i], "slices are substrings", key="slice")
    for f in (lambda s: s + "x", lambda s: "x" + s, lambda s: s.lower(), lambda s: s.strip(), lambda s: s.replace("SET", "set"), lambda s: s * 2, lambda s: s.upper(), lambda s: s.removeprefix("SET"), lambda s: s.ljust(100)):
        ctx.check(str(f(cfg)) == f(text), "string methods", key="methods")
    ctx.check(cfg.split() == text.split() and cfg.startswith("SET") == text.startswith("SET") and ("geqo" in cfg) == ("geqo" in text) and "".join(str(c) for c in cfg) == text, "string methods", key="methods")
    for c in (pickle.loads(pickle.dumps(cfg)), copy.copy(cfg), copy.deepcopy(cfg)):
        ctx.check(isinstance(c, pg.PostgresConfiguration) and c == cfg, "copies are equal", key="copy")
        verify(ctx, c, pairs, "copy")
    for s in cfg.settings:
        for c in (pickle.loads(pickle.dumps(s)), copy.copy(s), copy.deepcopy(s), s.update(s.value)):
            ctx.check(isinstance(c, pg.PostgresSetting) and c == s and c.parameter == s.parameter and c.value == s.value, "copies of settings are equal", key="copy")
        u = s.update("new")
        ctx.check(u.parameter == s.parameter and u.value == "new" and u == f"SET {s.parameter} = 'new';" and s.value == pairs[s.parameter], "settings are updated", key="update setting")
        match s:
            case pg.PostgresSetting(p, v):
                ctx.check(p == s.parameter and v == s.value, "settings can be matched", key="match")


# ------------------------------------------------------------------ server
RUNTIME = ("work_mem", "geqo", "recursive_worktable_factor", "enable_hashjoin", "random_page_cost", "plan_cache_mode")
FIXED = ("shared_buffers", "autovacuum", "autovacuum_vacuum_threshold", "max_worker_processes")
OTHER = ("port", "search_path")


class Server:
    def __init__(self, settings, extensions=(), indexes=None):
        self.settings, self.extensions, self.indexes = dict(settings), extensions, indexes or {}
        self.log, self.opened, self.calls = [], [], []

    def connect(self, conninfo="", **kw):
        c = Conn(self, conninfo)
        self.opened.append((conninfo, kw))
        return c

    def execute(self, sql, params=None):
        if not isinstance(sql, str):
            raise TypeError(f"cannot execute {type(sql).__name__}")
        if isinstance(sql, collections.UserString):
            raise TypeError("cannot execute")
        self.log.append(sql)
        up = " ".join(sql.strip().rstrip(";").upper().split())
        if not up:
            return None
        if up.startswith("SET "):
            for k, v in Scanner(sql).statements():
                if k not in self.settings:
                    raise psycopg.errors.UndefinedObject(f'unrecognized configuration parameter "{k}"')
                if k in FIXED or k == "port":
                    raise psycopg.errors.CantChangeRuntimeParam(f'parameter "{k}" cannot be changed now')
                self.settings[k] = v
            return None
        if up == "SELECT NAME, SETTING FROM PG_SETTINGS":
            return [(k, join(v)) for k, v in self.settings.items()]
        if up.startswith("SHOW "):
            name = up[5:].lower()
            if name not in self.settings:
                raise psycopg.errors.UndefinedObject(f'unrecognized configuration parameter "{name}"')
            return [(join(self.settings[name]),)]
        if up == "SELECT EXTNAME FROM PG_EXTENSION":
            return [(e,) for e in self.extensions]
        if up.startswith("SELECT VERSION()"):
            return [("PostgreSQL 16.2 on x86_64-pc-linux-gnu, compiled by gcc",)]
        if up.startswith("SELECT CURRENT_DATABASE()"):
            return [("mydb",)]
        if "FROM PG_INDEX" in up:
            return [(n, p) for n, p in self.indexes.get(params[0], [])]
        if up.startswith("SELECT PG_PREWARM(") or up.startswith("SELECT PG_COOLDOWN("):
            rest = sql.strip().rstrip(";")[len("SELECT "):]
            for call in rest.split("),"):
                call = call.strip().rstrip(")")
                f, arg = call.split("(")
                arg = arg.strip().strip("'")
                if arg not in self.indexes and arg not in {n for ix in self.indexes.values() for n, _ in ix}:
                    raise psycopg.errors.UndefinedTable(f'relation "{arg}" does not exist')
                self.calls.append((f.strip().lower(), arg))
            return [(1,) * len(self.calls)]
        raise psycopg.errors.SyntaxError(f"unexpected statement {sql[:80]}")


def join(v):
    """A value as the server reports it."""
    if len(v) == 1 and not isinstance(v[0], str):
        return str(v[0]) if not isinstance(v[0], (SymInt, SymFloat)) else str(v[0])
    if any(isinstance(x, SymStr) for x in v):
        out = SymStr.make([])
        for x in v:
            out = out + x
        return out
    return "".join(v)


class Conn:
    def __init__(self, server, conninfo):
        self.server, self.closed = server, False
        self.info = types.SimpleNamespace(backend_pid=4711, host="localhost", status=psycopg.pq.ConnStatus.OK)
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)

    def cursor(self):
        return Cursor(self)

    def cancel(self):
        pass

    def rollback(self):
        pass

    def close(self):
        self.closed = True
        self.info.status = psycopg.pq.ConnStatus.BAD


class Cursor:
    rowcount = -1

    def __init__(self, conn):
        self.conn, self.result = conn, None

    description = property(lambda self: None if self.result is None else ["c"])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def execute(self, sql, params=None):
        if self.conn.closed:
            raise psycopg.OperationalError("the connection is closed")
        self.result = self.conn.server.execute(sql, params)

    def fetchone(self):
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        return self.result[0] if self.result else None

    def fetchall(self):
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        return list(self.result)


class World:
    def __init__(self, server):
        self.server = server

    def __enter__(self):
        self.saved = psycopg.connect
        psycopg.connect = self.server.connect
        self.old, self.path = os.getcwd(), tempfile.mkdtemp(prefix="c37-")
        os.chdir(self.path)
        return self

    def __exit__(self, *a):
        psycopg.connect = self.saved
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)

    def database(self):
        db = pg.PostgresInterface("dbname=mydb")
        self.server.log.clear()
        return db


def initial(ctx):
    st = {k: list("0") for k in RUNTIME + FIXED + OTHER}
    st["work_mem"] = text_of(ctx.int("s0", 64, 10**6))
    st["random_page_cost"] = text_of(ctx.real("s1", 0, 10))
    st["plan_cache_mode"] = text_of(ctx.str("s2", 2, lo=32, hi=126))
    st["geqo"] = list("on")
    return st


def apply(ctx):
    """Settings are applied exactly, as far as they can be changed at runtime."""
    state = initial(ctx)
    s = Server(state)
    with World(s) as w:
        db = w.database()
        how = ctx.pick("how", ["configuration", "setting", "text"])
        names = RUNTIME[:3] + FIXED[:3] if how != "text" else RUNTIME[:3]
        want = {}
        for i in range(ctx.choose("n", 3) if how != "setting" else 1):
            n = names[ctx.choose(f"n{i}", len(names))]
            want[n] = any_value(ctx, f"v{i}", ("int", "text", "on", "off") if i == 0 else ("int",))
        cfg = pg.PostgresConfiguration.load(**want)
        before = str(cfg)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                db.apply_configuration(cfg if how == "configuration" else cfg.settings[0] if how == "setting" else str(cfg))
            except psycopg.Error as e:
                ctx.check(False, "settings can be applied", key="error", error=repr(e)[:100])
                return
            except Syntax as e:
                ctx.check(False, "settings are valid statements", key="syntax", error=str(e))
                return
        skipped = [n for n in want if n in FIXED]
        ctx.check((len(caught) > 0) == bool(skipped), "there is a warning if (and only if) settings are skipped", key="warning", skipped=skipped)
        for n in s.settings:
            if n in want and n in RUNTIME:
                ctx.check(eq(s.settings[n], text_of(want[n])), "the setting has the requested value", key="applied", param=n)
            else:
                ctx.check(eq(s.settings[n], state[n]), "other settings are not changed", key="others", param=n)
        if how == "configuration":
            ctx.check(list(cfg.parameters()) == list(want), "the configuration is not modified", key="unmodified")
        ctx.reach("skipped" if skipped else how)


def restore(ctx):
    """The current configuration contains all relevant settings, and restores them."""
    state = initial(ctx)
    s = Server(state)
    with World(s) as w:
        db = w.database()
        only = ctx.choose("only", 2) == 1
        cfg = db.current_configuration(runtime_changeable_only=only)
        ctx.check(sorted(cfg.parameters()) == sorted(RUNTIME + (() if only else FIXED)), "the current configuration consists of the relevant settings", key="parameters", got=sorted(cfg.parameters()))
        for p in cfg.settings:
            ctx.check(eq(pieces(p.value), state[p.parameter]), "the current configuration contains the current values", key="values", param=p.parameter)
        n = RUNTIME[ctx.choose("changed", len(RUNTIME))]
        s.settings[n] = text_of(any_value(ctx, "changed value", ("int", "off")))
        got = db.config[n]
        ctx.check(eq(pieces(got), s.settings[n]), "the current value of a setting", key="show")
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                db.apply_configuration(cfg)
            except (psycopg.Error, Syntax) as e:
                ctx.check(False, "the configuration can be restored", key="restore", error=repr(e)[:100])
                return
        ctx.check(bool(caught) == (not only), "there is a warning if (and only if) settings are skipped", key="warning")
        for k in state:
            ctx.check(eq(s.settings[k], state[k]), "the configuration is restored", key="restore", param=k)
        ctx.reach(f"only={only}")


OPS = {JoinOperator.NestedLoopJoin: "enable_nestloop", JoinOperator.HashJoin: "enable_hashjoin", JoinOperator.SortMergeJoin: "enable_mergejoin", ScanOperator.SequentialScan: "enable_seqscan",
       ScanOperator.IndexScan: "enable_indexscan", ScanOperator.IndexOnlyScan: "enable_indexonlyscan", ScanOperator.BitmapScan: "enable_bitmapscan",
       IntermediateOperator.Memoize: "enable_memoize", IntermediateOperator.Materialize: "enable_material", IntermediateOperator.Sort: "enable_sort", JoinOperator.IndexNestedLoopJoin: None}


def operators(ctx):
    ops = list(OPS)
    ons = {v: ctx.bool(f"on {i}") for i, v in enumerate(OPS.values()) if v}
    ons = {k: bool(v) if i < 2 else i % 2 == 0 for i, (k, v) in enumerate(ons.items())}
    state = {k: list("on" if v else "off") for k, v in ons.items()}
    s = Server(state)
    with World(s) as w:
        db = w.database()
        want = dict(ons)
        for step in range(2):
            op = ops[ctx.choose(f"op{step}", len(ops))]
            enabled = ctx.choose(f"enabled{step}", 2) == 1
            try:
                db.optimizer().configure_operator(op, enabled=enabled)
                ctx.check(OPS[op] is not None, "unsupported operators are rejected", key="reject")
                want[OPS[op]] = enabled
                ctx.reach("configured")
            except ValueError:
                ctx.check(OPS[op] is None, "supported operators can be configured", key="accept", op=str(op))
            for k, v in want.items():
                ctx.check("".join(s.settings[k]) == ("on" if v else "off"), "exactly the requested operators are enabled", key="state", param=k)


TABLES = {"t": TableReference("t", "t1"), "u": TableReference("u"), "v": TableReference.create_virtual("v")}


def buffers(ctx):
    """Prewarming and cooling reaches exactly the requested relations."""
    func = ctx.pick("func", ["prewarm", "cooldown"])
    ix = {"t": [("t_pkey", True), ("t_b", False)], "u": [("u_b", False)] if ctx.choose("u index", 2) else [("u_pkey", True), ("u_c", False), ("u_d", False)]}
    ext = {"prewarm": "pg_prewarm", "cooldown": "pg_temperature"}[func]
    available = bool(ctx.bool("available"))
    s = Server({}, ("plpgsql", ext) if available else ("plpgsql",), ix)
    with World(s) as w:
        db = w.database()
        sel = [n for n in TABLES if ctx.choose(f"use {n}", 2)]
        style = ctx.pick("style", ["list", "set", "single", "varargs", "mixed"] if len(sel) == 2 or DEEP else ["list"])
        flags = {k: bool(ctx.bool(k)) for k in ("exclude_table_pages", "include_primary_index", "include_secondary_indexes")}
        tabs = [TABLES[n] for n in sel]
        args = {"list": (tabs,), "set": (set(tabs),), "single": tuple(tabs[:1]), "varargs": tuple(tabs), "mixed": (tabs[:1], *tabs[1:])}[style]
        if style == "single":
            sel = sel[:1]
        if bool(ctx.bool("defaults")):
            flags, kw = {"exclude_table_pages": False, "include_primary_index": True, "include_secondary_indexes": True}, {}
        else:
            kw = dict(flags)
        try:
            getattr(db, f"{func}_tables")(*args, **kw)
        except Exception as e:
            ctx.check(type(e).__name__ == "StateError" and not available, "relations can be loaded if the extension is available", key=f"{func} error", error=repr(e)[:120])
            ctx.check(not s.calls, "nothing is done if the extension is not available", key="extension")
            ctx.reach("unavailable")
            return
        ctx.check(available, "the extension is required", key="extension")
        want = set()
        for n in sel:
            if n == "v":
                continue
            if not flags["exclude_table_pages"]:
                want.add(n)
            want |= {i for i, p in ix[n] if (flags["include_primary_index"] if p else flags["include_secondary_indexes"])}
        ctx.check(sorted(s.calls) == sorted(("pg_" + func, n) for n in want), "exactly the requested relations are processed", key=func, got=sorted(s.calls), want=sorted(want))
        ctx.reach(func)


# ------------------------------------------------------------------ connections
KEYS = {"dbname": "PGDATABASE", "host": "PGHOST", "port": "PGPORT", "user": "PGUSER", "password": "PGPASSWORD", "passfile": "PGPASSFILE"}


def write(path, kind, params):
    if kind == "json":
        Path(path).write_text(json.dumps(params))
    elif kind == "toml":
        Path(path).write_text("\n".join(f"{k} = {json.dumps(v)}" for k, v in params.items()))
    elif kind == "ini":
        Path(path).write_text("[connection]\n" + "\n".join(f"{k} = {v}" for k, v in params.items()) + "\n")


class Loaders:
    """Turns tokens of configuration files back into symbolic texts."""

    def __init__(self, values):
        self.values = values

    def convert(self, d):
        return {k: self.values.get(k, v) if isinstance(v, str) else v for k, v in d.items()}

    def __enter__(self):
        v = self

        class Parser(configparser.ConfigParser):
            def items(self, *a, **kw):
                res = super().items(*a, **kw)
                if not a:
                    return res
                out = []
                for k, x in res:
                    y = v.values.get(k, x)
                    if self._interpolation.__class__ is configparser.BasicInterpolation and "%" in y:
                        raise configparser.InterpolationSyntaxError(k, a[0], "'%' must be followed by '%' or '('")
                    out.append((k, y))
                return out

        self.saved = pg.json, pg.tomllib, pg.configparser
        pg.json = proxy(json, load=lambda f: v.convert(json.load(f)))
        pg.tomllib = proxy(tomllib, load=lambda f: v.convert(tomllib.load(f)))
        pg.configparser = proxy(configparser, ConfigParser=Parser)

    def __exit__(self, *a):
        pg.json, pg.tomllib, pg.configparser = self.saved


def proxy(mod, **kw):
    ns = types.SimpleNamespace(**{k: getattr(mod, k) for k in dir(mod) if not k.startswith("__")})
    for k, v in kw.items():
        setattr(ns, k, v)
    return ns


class environment:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.saved = {k: os.environ.pop(k, None) for k in KEYS.values()}
        self.os = pg.os
        env = self.env
        pg.os = proxy(os, getenv=lambda k, d=None: env.get(k, d), environ={**os.environ, **env})

    def __exit__(self, *a):
        pg.os = self.os
        for k, v in self.saved.items():
            if v is not None:
                os.environ[k] = v


def connections(ctx):
    """Connections use the parameters of the first available source."""
    pw = ctx.str("pw", 2, lo=33, hi=126)
    params = {"dbname": "imdb", "host": "h", "password": pw, "user": "me"}
    src = ctx.pick("source", ["string", "json", "toml", "ini", "plain file", "default file", "environment", "none", "missing file"])
    lower = ctx.choose("also", 2) == 1
    env = {}
    s = Server({})
    with World(s):
        kw = {}
        if src == "string":
            kw["connect_string"] = " dbname=imdb host=h\n" if ctx.choose("blanks", 2) else "dbname=imdb host=h"
            want = {"dbname": "imdb", "host": "h"}
        elif src in ("json", "toml", "ini"):
            name = f"cfg.{src.upper() if ctx.choose('upper', 2) else src}"
            if src == "ini":
                ctx.assume(And(pw[0] != ";", pw[0] != "#", pw != "%%"))
            else:
                params["port"] = 5432
            write(name, src, params if not ctx.symbolic else {**params, "password": "x"})
            kw["config_file"] = name if ctx.choose("path", 2) else Path(name)
            want = params
        elif src == "plain file":
            Path("conn").write_text("dbname=imdb host=h\n")
            kw["config_file"] = "conn"
            want = {"dbname": "imdb", "host": "h"}
        elif src == "missing file":
            kw["config_file"] = "nofile.json"
            want = None
        elif src == "default file":
            Path(".psycopg_connection").write_text("dbname=imdb host=h\n")
            want = {"dbname": "imdb", "host": "h"}
        elif src == "environment":
            env = {KEYS[k]: v for k, v in params.items()}
            want = params
        else:
            want = None
        if lower and src != "none":   # sources with lower precedence
            order = ["string", "file", "default file", "environment"]
            mine = {"json": "file", "toml": "file", "ini": "file", "plain file": "file", "missing file": "file"}.get(src, src)
            for o in order[order.index(mine) + 1:]:
                if o == "file":
                    Path("other").write_text("dbname=other")
                    kw["config_file"] = "other"
                elif o == "default file":
                    Path(".psycopg_connection").write_text("dbname=other")
                else:
                    env = {"PGDATABASE": "other"}
        enc = ctx.pick("encoding", [None, "LATIN1"])
        app = ctx.pick("application", [None, "tests"])
        if enc:
            kw["encoding"] = enc
        if app:
            kw["application_name"] = app
        DatabasePool.get_instance().clear()
        with environment(env), Loaders({"password": pw} if ctx.symbolic else {}), warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                db = pg.connect(name="c37", private=True, **kw)
            except ValueError as e:
                ctx.check(want is None, "the connection can be established", key=f"{src} error", error=repr(e)[:100])
                ctx.check(not s.opened, "there is no connection", key="none")
                ctx.reach("rejected")
                return
            except configparser.Error as e:
                ctx.check(False, "the configuration file can be read", key="ini syntax", error=repr(e)[:100])
                return
        ctx.check(want is not None, "a source is required", key="source")
        ctx.check(any("environment" in str(x.message) for x in caught) == (src == "environment"), "there is a warning for connections from the environment", key="warning")
        ctx.check(len(s.opened) == 1, "there is one connection", key="once")
        text, kws = s.opened[0]
        try:
            got = conninfo(text)
        except Syntax as e:
            ctx.check(False, "the connection string is valid", key="conninfo", error=str(e))
            return
        ctx.check(sorted(got) == sorted(want), "the connection uses exactly the given parameters", key="params", got=sorted(got), want=sorted(want))
        for k, v in want.items():
            ctx.check(eq(got[k], text_of(v)), "the connection uses the given values", key="values", param=k)
        ctx.check(kws.get("client_encoding") == (enc or "UTF8") and kws.get("application_name") == (app or "PostBOUND"), "encoding and application name are used", key="session")
        ctx.reach(src)


def malformed(ctx):
    """Configuration files that cannot be understood are rejected."""
    kind = ctx.pick("kind", ["two sections", "no section", "unknown"])
    s = Server({})
    with World(s), environment({}):
        name = "x.ini" if kind != "unknown" else "x.cfg"
        Path(name).write_text({"two sections": "[a]\ndbname = a\n[b]\ndbname = b\n", "no section": "\n", "unknown": "dbname=x"}[kind])
        try:
            pg.connect(name="c37", private=True, config_file=name)
            ctx.check(False, "malformed files are rejected", key="malformed")
        except ValueError:
            ctx.check(not s.opened, "malformed files are rejected", key="malformed")
    ctx.reach(kind)


F = "postgres."


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    return [
        Harness("configuration", configuration, shadow=SH, functions=[F + "PostgresConfiguration.*", F + "PostgresSetting.*"], bounds="up to 2 initial settings, 2 operations, arbitrary integers and 2-character texts", must_reach=("add", "remove", "update", "assign")),
        Harness("strings", strings, shadow=SH, functions=[F + "PostgresConfiguration (string operations)", F + "PostgresSetting (copies)"], bounds="up to 2 settings, every index"),
        Harness("apply", apply, shadow=SH, functions=[F + "PostgresInterface.apply_configuration"], bounds="up to 2 of 6 settings, arbitrary values", must_reach=("skipped", "configuration", "setting", "text")),
        Harness("restore", restore, shadow=SH, functions=[F + "PostgresInterface.current_configuration", F + "PostgresInterface.apply_configuration", F + "PostgresConfigInterface.__getitem__"], bounds="12 settings, arbitrary values", must_reach=("only=True", "only=False")),
        Harness("operators", operators, shadow=SH, functions=[F + "PostgresOptimizer.configure_operator"], bounds="2 changes, all operators", must_reach=("configured",)),
        Harness("buffers", buffers, shadow=SH, functions=[F + "PostgresInterface.prewarm_tables", F + "PostgresInterface.cooldown_tables", F + "PostgresInterface.has_extension"], bounds="up to 3 tables with 1-3 indexes", must_reach=("prewarm", "cooldown", "unavailable")),
        Harness("connections", connections, shadow=SH, functions=[F + "connect", F + "_read_connection_from_file", F + "_ini_config_reader"], bounds="passwords of two arbitrary ASCII characters", must_reach=("json", "toml", "ini", "plain file", "default file", "environment", "string", "rejected")),
        Harness("malformed", malformed, shadow=SH, functions=[F + "_ini_config_reader", F + "_read_connection_from_file"], bounds="3 kinds of malformed files", must_reach=("two sections", "no section", "unknown")),
    ]
