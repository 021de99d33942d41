"""C34: queries are executed exactly as requested: once, as written, with their settings, caching and timeouts, and their results are what the database system returned."""
import atexit
import collections
import concurrent.futures
import datetime as dt
import decimal
import json
import math
import os
import shutil
import tempfile
import types
import warnings
from pathlib import Path

from vx.engine import Harness
from vx.sym import NUM_SHADOW, And, Shadow, is_nan

import mysql.connector
import psycopg
import quacklab
import postbound._core as core
import postbound._qep as qep
import postbound.db._db as dbmod
import postbound.duckdb as duck
import postbound.mysql as my
import postbound.postgres as pg
from postbound import PlanParameterization, parse_query, transform
from postbound.db import Database, DatabasePool, DatabaseServerError, DatabaseUserError, simplify_result_set
from postbound.qal import Hint

LEVEL = "model_checking"
ASSUMPTIONS = ["database servers, connections, the clock, worker processes and thread pools are stand-ins that follow the documented behavior of psycopg, DuckDB and mysql.connector",
               "a worker process runs to its end before the main process looks at its messages; messages arrive at the (symbolic) time at which they were sent"]
NS = {k: v for k, v in NUM_SHADOW.items() if k != "hash"}
SH = Shadow({core: NS, qep: NS, pg: NS, duck: NS, my: NS, dbmod: NS})
warnings.simplefilter("ignore")
KINDS = ("postgres", "duckdb", "mysql")


def hinted(q, prep="SET a = 1;\nSET b = 2;", hint="/*+ hint */"):
    return transform.add_clause(q, Hint(prep, hint))


Q = {n: parse_query(f"SELECT r.a FROM r, s WHERE r.a = s.a AND r.b = {i}", accept_set_query=False) for i, n in enumerate("AB")}
QUERIES = {"plain": Q, "hinted": {n: hinted(q) for n, q in Q.items()}, "settings": {n: hinted(q, hint="") for n, q in Q.items()}, "hints": {n: hinted(q, prep="") for n, q in Q.items()}, "text": {n: f"SELECT {n}" for n in "AB"},
           "user string": {n: collections.UserString(f"SELECT {n}") for n in "AB"}, "mutation": {n: f"INSERT INTO {n} VALUES (1)" for n in "AB"}}
META = ("SELECT VERSION()", "SELECT CURRENT_DATABASE()", "SELECT DATABASE()", "SELECT @@SESSION.SQL_MODE", "SHOW ", "SELECT NAME, SETTING FROM PG_SETTINGS")


class Hang(Exception):
    pass


class Killed(BaseException):
    pass


class Server:
    """A database server. Every connection logs its statements here."""

    def __init__(self, kind, rows=None, plan=None):
        self.kind, self.rows, self.plan, self.log, self.n, self.now = kind, rows, plan, [], 0, 0
        self.duration, self.fail, self.conns, self.ops = (lambda i: 1000), (lambda sql: None), [], []

    def connect(self, *a, **kw):
        c = CONN[self.kind](self)
        self.conns.append(c)
        return c

    def answer(self, conn, sql):
        """The rows (or None, if there is no result set) of a statement."""
        if not isinstance(sql, str):
            sql = str(sql) if isinstance(sql, pg.PostgresConfiguration) else self.bad(sql)
        up = sql.strip().upper()
        for m in META:
            if up.startswith(m):
                return {"SELECT VERSION()": [("PostgreSQL 16.2 on x",)] if self.kind == "postgres" else [("8.0.30",)] if self.kind == "mysql" else [("v1.4.0",)], "SELECT @@SESSION.SQL_MODE": [("ANSI_QUOTES",)],
                        "SHOW ": [("on" if "ENABLE" in up else "4",)], "SELECT NAME, SETTING FROM PG_SETTINGS": [("work_mem", "64")]}.get(m, [("mydb",)])
        e = self.fail(sql)
        self.log.append((conn.pid, sql))
        if e is not None:
            raise e
        if up.startswith("SELECT PG_CANCEL_BACKEND"):
            return [(True,)]
        first, last = up.split(";")[0].strip(), [s.strip() for s in up.split(";") if s.strip()][-1:]
        relevant = first if self.kind != "duckdb" else (last or [""])[0]
        if relevant.startswith(("SET", "INSERT")):
            return [] if self.kind == "duckdb" else None
        self.now += self.duration(self.n)
        self.n += 1
        if "EXPLAIN" in relevant:
            return self.plan
        return self.rows(self.n - 1)

    def bad(self, sql):
        raise TypeError(f"cannot execute {type(sql)}")

    def statements(self, pid=None):
        return [s for p, s in self.log if pid is None or p == pid]


class Conn:
    def __init__(self, server):
        self.server, self.closed, self.pid = server, False, 100 + len(server.conns)
        self.result, self.description, self.rowcount, self.autocommit = None, None, -1, False
        self.info = types.SimpleNamespace(backend_pid=self.pid, host="localhost", status=psycopg.pq.ConnStatus.OK)
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)

    def run(self, sql):
        if self.closed:
            raise psycopg.OperationalError("the connection is closed") if self.server.kind == "postgres" else quacklab.ConnectionException("Connection Error: Connection already closed!")
        return self.server.answer(self, sql)

    def close(self):
        self.closed = True

    def cancel(self):
        pass

    def rollback(self):
        pass


class Cursor:
    def __init__(self, conn, buffered=True):
        self.conn, self.buffered, self.closed = conn, buffered, False
        self.result, self.unread = None, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def execute(self, sql, params=None):
        if self.closed:
            raise psycopg.InterfaceError("the cursor is closed") if self.conn.server.kind == "postgres" else mysql.connector.ProgrammingError("Cursor is not connected")
        if self.unread:
            raise mysql.connector.InternalError("Unread result found")
        self.result = None
        self.result = self.conn.run(sql)
        self.unread = self.result is not None and not self.buffered
        self.insert = str(sql).strip().upper().startswith("INSERT")

    description = property(lambda self: None if self.result is None else ["column"])
    with_rows = property(lambda self: self.result is not None)
    rowcount = property(lambda self: len(self.result) if self.result is not None else 1 if self.insert else -1)

    def fetchall(self):
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records") if self.conn.server.kind == "postgres" else mysql.connector.InterfaceError("No result set to fetch from")
        self.unread = False
        return list(self.result)

    def fetchone(self):
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        self.unread = False
        return self.result[0] if self.result else None


class PgConn(Conn):
    def cursor(self):
        return Cursor(self)


class MyConn(Conn):
    def cursor(self, buffered=False):
        return Cursor(self, buffered)

    def cmd_reset_connection(self):
        self.server.ops.append("reset")


class DuckConn(Conn):
    interrupted = False

    def execute(self, sql, params=None):
        self.result = self.run(sql)
        return self

    def fetchall(self):
        return list(self.result or [])

    def fetchone(self):
        return self.result[0] if self.result else None

    def cursor(self):
        return self.server.connect()

    def interrupt(self):
        self.server.ops.append("interrupt")


CONN = {"postgres": PgConn, "duckdb": DuckConn, "mysql": MyConn}
MOD = {"postgres": (psycopg, pg), "duckdb": (quacklab, duck), "mysql": (mysql.connector, my)}


class World:
    """Replaces connections, clock and exit handlers of a database system while it is active."""

    def __init__(self, server, **attrs):
        self.server, self.driver, self.module = server, *MOD[server.kind]
        self.attrs, self.handlers = attrs, []

    def __enter__(self):
        self.saved = (self.driver.connect, self.module.__dict__.get("time"), {k: self.module.__dict__[k] for k in self.attrs}, dbmod.atexit)
        self.driver.connect = self.server.connect
        if self.saved[1] is not None:
            self.module.time = types.SimpleNamespace(perf_counter_ns=lambda: self.server.now, sleep=lambda s: None, time=lambda: 0.0)
        for k, v in self.attrs.items():
            setattr(self.module, k, v)
        dbmod.atexit = types.SimpleNamespace(register=lambda f, *a: self.handlers.append((f, a)), unregister=lambda f: None)
        return self

    def __exit__(self, *a):
        self.driver.connect = self.saved[0]
        if self.saved[1] is not None:
            self.module.time = self.saved[1]
        for k, v in self.saved[2].items():
            setattr(self.module, k, v)
        dbmod.atexit = self.saved[3]

    def shutdown(self):
        """The interpreter exits."""
        for f, a in reversed(self.handlers):
            f(*a)

    def database(self, cache=False):
        kind = self.server.kind
        if kind == "postgres":
            db = pg.PostgresInterface("dbname=mydb", cache_enabled=cache)
        elif kind == "duckdb":
            db = duck.DuckDBInterface(Path("mydb"), cache_enabled=cache)
        else:
            db = my.MysqlInterface(my.MysqlConnectionArguments("u", "mydb"), cache_enabled=cache)
        self.server.log.clear()
        self.server.now = 0
        return db


class scratch:
    def __enter__(self):
        self.old, self.path = os.getcwd(), tempfile.mkdtemp(prefix="c34-")
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


def table(ctx, shape, tag):
    """A result set of a shape, all of its values are arbitrary."""
    if shape is None:
        return None
    n, m = shape
    return [tuple(ctx.int(f"{tag}_{i}_{j}", -5, 5) for j in range(m)) for i in range(n)]


def simple(rows):
    """What a result set looks like after its simplification."""
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


def same(a, b):
    """Equality of results, including their structure."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and And(*[same(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def sent(db, q):
    """The statements that execute a query, and the text under which it is cached."""
    if isinstance(q, (str, collections.UserString)):
        return [], str(q)
    prep, hint = (q.hints.preparatory_statements, q.hints.query_hints) if q.hints else ("", "")
    text = db.hinting().format_query(transform.drop_hints(q, preparatory_statements_only=True) if prep else q)
    return [prep] if prep else [], text if hint in text else "the hints are missing"


def lines(stmts):
    """Statements, regardless of how many of them are sent at once."""
    return [s.strip().rstrip(";") for st in stmts for s in (st.split(";\n") if st.startswith("SET") else [st])]


def execute(kind):
    def body(ctx):
        qk = ctx.pick("kind", [k for k in QUERIES if kind != "mysql" or k != "user string"])
        default = ctx.choose("default", 2) == 1
        shape = ctx.pick("shape", [(2, 2), (1, 1), (0, 1)]) if qk != "mutation" else (0, 0)
        rows = [table(ctx, shape, f"r{i}") for i in range(2)]
        names = ["A", ctx.pick("second", ["A", "B"])]
        dur = [ctx.int(f"d{i}", 0, 10**12) for i in range(2)]
        s = Server(kind, rows=lambda i: rows[i])
        s.duration = lambda i: dur[i]
        with scratch(), World(s) as w:
            db = w.database(default)
            ctx.check(is_nan(db.last_query_runtime()) if kind != "mysql" else True, "no query was executed yet", key="runtime")
            cached, log, runs = {}, [], 0
            for step, n in enumerate(names):
                q = QUERIES[qk][n]
                cache = ctx.pick(f"cache{step}", [None, True, False])
                raw = ctx.choose(f"raw{step}", 2) == 1
                got = db.execute_query(q, cache_enabled=cache, raw=raw)
                use = default if cache is None else cache
                prep, text = sent(db, q)
                log += prep
                if not (use and text in cached):
                    log.append(text)
                    rs = rows[runs] if qk != "mutation" else [] if kind == "duckdb" else None
                    if qk != "mutation":
                        if kind != "mysql":
                            ctx.check(db.last_query_runtime() == dur[runs] / 10**9, "the runtime is the runtime of the last query", key="runtime")
                        runs += 1
                    if use:
                        cached[text] = rs
                else:
                    ctx.reach("cached")
                    rs = cached[text]
                ctx.check(lines(s.statements()) == lines(log), "exactly the requested statements are executed", key="statements", got=str(s.statements()), want=str(log))
                ctx.check(same(got, rs if raw else simple(rs)), "the result is the result of the query", key="result", got=str(got), want=str(rs))
            ctx.reach(qk)
    return body


def shapes(ctx):
    shape = ctx.pick("shape", [None, (0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3), (3, 3)])
    rows = table(ctx, shape, "r")
    null = ctx.choose("null", 2) == 1
    if null and rows:
        rows[0] = (None,) + rows[0][1:]
    before = None if rows is None else list(rows)
    got = simplify_result_set(rows)
    ctx.check(same(got, simple(before)), "single columns and rows are unwrapped, everything else is left as-is", key="simplify", got=str(got))
    ctx.check(same(rows, before), "the result set is not changed", key="simplify")
    ctx.reach(str(shape))


ERRORS = {"server": (psycopg.errors.OutOfMemory("oom"), DatabaseServerError), "internal": (psycopg.InternalError("x"), DatabaseServerError), "syntax": (psycopg.errors.SyntaxError("s"), DatabaseUserError),
          "table": (psycopg.errors.UndefinedTable("t"), DatabaseUserError), "data": (psycopg.DataError("d"), DatabaseUserError)}


def errors(kind):
    def body(ctx):
        rows = [table(ctx, (2, 2), f"r{i}") for i in range(2)]
        s = Server(kind, rows=lambda i: rows[i])
        name = ctx.pick("error", list(ERRORS))
        err, expect = ERRORS[name] if kind == "postgres" else (quacklab.CatalogException("no") if kind == "duckdb" else mysql.connector.ProgrammingError("no"), Exception)
        at = ctx.choose("at", 2)
        calls = [0]

        def fail(sql):
            calls[0] += 1
            return err if calls[0] == at + 1 else None
        s.fail = fail
        with scratch(), World(s) as w:
            db = w.database(ctx.choose("default", 2) == 1)
            seen = []
            q = Q["A"] if ctx.choose("text", 2) else "SELECT A"
            for step in range(3):
                try:
                    seen.append(db.execute_query(q, raw=True))
                except expect as e:
                    seen.append("error")
                    ctx.check(kind != "postgres" or name in ERRORS and type(e) is expect, "errors are classified", key="error", got=repr(e))
            n = len(s.log)
            ctx.check([x for i, x in enumerate(seen) if x == "error"] == ["error"] * (1 if n > at else 0), "exactly the failing query fails", key="error", got=str(seen))
            ok = [x for x in seen if x != "error"]
            ctx.check(And(*[same(x, rows[min(i, len(rows) - 1)]) if not db.cache_enabled else same(x, rows[0]) for i, x in enumerate(ok)]), "failed queries are not cached", key="error")
            ctx.reach(name)
    return body


# timeouts of Postgres queries: a worker process and a pipe with messages


class Pipe:
    def __init__(self, server):
        self.server, self.messages, self.parent_open, self.worker_alive, self.now, self.ended = server, [], True, False, 0, 0

    def reader(self):
        return types.SimpleNamespace(recv=self.recv, poll=self.poll, close=lambda: None)

    def writer(self):
        def close():
            self.parent_open = False
        return types.SimpleNamespace(send=lambda m: self.messages.append((self.server.now, m)), close=close)

    def poll(self, timeout=0.0):
        at = self.messages[0][0] if self.messages else self.ended
        if not self.messages and self.parent_open:
            self.now += timeout * 10**9
            return False
        if at - self.now <= timeout * 10**9:
            return True
        self.now += timeout * 10**9
        return False

    def recv(self):
        if not self.messages:
            if self.parent_open:
                raise Hang
            raise EOFError
        at, m = self.messages.pop(0)
        if at > self.now:
            self.now = at
        return m


class Process:
    def __init__(self, world, *, target, args=(), kwargs=None, **kw):
        self.world, self.target, self.args, self.kwargs, self.state = world, target, args, kwargs or {}, "new"
        self.pid, self.exitcode = 4711, None

    def start(self):
        s = self.world.server
        self.state, self.first = "running", len(s.conns)
        try:
            self.target(*self.args, **self.kwargs)
        except Killed:
            pass
        self.world.pipe.ended = s.now
        s.ops.append(("worker", self.first))

    def terminate(self):
        self.world.server.ops.append("terminate")

    kill = terminate

    def join(self, timeout=None):
        self.state = "joined"

    def is_alive(self):
        return False

    def close(self):
        assert self.state == "joined"


def timeout_pg(ctx):
    shape = ctx.pick("shape", [(2, 2), (1, 1), (0, 1)])
    rows = table(ctx, shape, "r")
    s = Server("postgres", rows=lambda i: rows)
    d = ctx.int("d", 0, 10**6) * 10**6
    t = ctx.int("t", 1, 10**6)
    timeout = t / 1000
    ctx.assume(d != t * 10**6)
    qk = ctx.pick("kind", ["plain", "hinted", "settings", "text", "mutation"])
    q = QUERIES[qk]["A"]
    outcome = ctx.pick("outcome", ["ok", "server", "table", "prep", "connect", "killed", "killed early"])
    raw = ctx.choose("raw", 2) == 1
    api = ctx.pick("api", ["execute_query", "execute_with_timeout", "time_query"]) if not raw else "execute_query"
    s.duration = lambda i: d
    w = World(s)

    def pipe(duplex=True):
        w.pipe = Pipe(s)
        return w.pipe.reader(), w.pipe.writer()
    w.attrs["mp"] = types.SimpleNamespace(Pipe=pipe, Process=lambda **kw: Process(w, **kw))
    with scratch(), w:
        db = w.database(False)
        main = s.conns[0].pid

        def fail(sql):
            if sql.startswith("SET") and "a = 1" in sql and outcome == "prep":
                return psycopg.errors.UndefinedObject("unrecognized configuration parameter")
            if not sql.startswith(("SET", "SELECT pg_")):
                if outcome in ERRORS:
                    s.now += d
                    return ERRORS[outcome][0]
                if outcome == "killed":
                    s.now += d
                    raise Killed
            return None
        s.fail = fail
        connect = s.connect

        def connector(*a, **kw):
            if "Worker" in str(kw.get("application_name")):
                if outcome == "connect":
                    raise psycopg.OperationalError("too many clients")
                if outcome == "killed early":
                    raise Killed
            return connect(*a, **kw)
        psycopg.connect = connector
        prep, text = sent(db, q)
        late = bool(d > t * 10**6) and outcome in ("ok", "server", "table", "killed") + (("prep",) if not prep else ()) and qk != "mutation" or bool(d > t * 10**6) and qk == "mutation" and outcome in ("server", "table", "killed")
        fails = outcome in ("server", "table", "connect", "killed", "killed early") or outcome == "prep" and prep
        try:
            if api == "execute_query":
                got = db.execute_query(q, timeout=timeout, raw=raw, cache_enabled=False)
            elif api == "execute_with_timeout":
                got = db.execute_with_timeout(q, timeout=timeout)
            else:
                got = db.time_query(q, timeout=timeout)
            res = "ok" if got is not None or api != "execute_with_timeout" or qk == "mutation" and not late else "timeout"
        except TimeoutError:
            res = "timeout"
        except Hang:
            res = "hang"
        except Exception as e:
            res = e
        worker = [c.pid for c in s.conns if c.pid != main and s.statements(c.pid) and not any("pg_cancel" in x for x in s.statements(c.pid))]
        ctx.check(s.statements(main) == [], "the query is executed on its own connection", key="connection")
        cancels = [x for x in s.statements() if "pg_cancel_backend" in x]
        if late:
            ctx.check(res == "timeout", "queries that take too long are aborted", key="timeout", got=repr(res))
            ctx.check(len(cancels) == 1 and len(worker) == 1 and cancels[0] == f"SELECT pg_cancel_backend({worker[0]});", "the backend of the query is cancelled", key="cancel", got=str(cancels))
            ctx.check("terminate" in s.ops, "the worker is terminated", key="cancel")
            ctx.check(db.last_query_runtime() == timeout, "aborted queries took as long as their timeout", key="runtime")
            ctx.reach("timeout")
        elif fails:
            ctx.check(isinstance(res, Exception), "failed queries raise an error", key="failed", got=repr(res))
            if outcome in ERRORS:
                ctx.check(type(res) is ERRORS[outcome][1], "errors are classified", key="failed", got=repr(res))
            ctx.check(is_nan(db.last_query_runtime()), "failed queries have no runtime", key="runtime")
            ctx.reach("failed")
        else:
            ctx.check(res == "ok", "queries that are fast enough are successful", key="ok", got=repr(res))
            want = None if qk == "mutation" else rows
            ctx.check(lines(s.statements(worker[0])) == lines(["SET work_mem = '64'"] + prep + [text]), "the query is executed exactly once, after its settings", key="statements", got=str(s.statements(worker[0])))
            ctx.check(cancels == [] and "terminate" not in s.ops, "nothing is cancelled", key="cancel")
            if qk != "mutation":
                ctx.check(db.last_query_runtime() == d / 10**9, "the runtime is the runtime of the query", key="runtime")
            if api == "time_query":
                ctx.check(got == db.last_query_runtime(), "the runtime is returned", key="runtime")
            else:
                ctx.check(same(got, want if raw or api == "execute_with_timeout" else simple(want)), "the result is the result of the query", key="result", got=str(got))
            ctx.reach("ok")
        ctx.check(all(c.closed for c in s.conns if c.pid in worker) or outcome == "killed", "the connection of the worker is closed", key="connection")
        db.close()
        ctx.check(all(c.closed for c in s.conns) or outcome == "killed", "closing the database closes all connections", key="connection")
        ctx.reach(outcome)


def timeout_cache(ctx):
    """Timeouts and the query cache of Postgres."""
    rows = [table(ctx, ctx.pick("shape", [(2, 2), (1, 1)]), f"r{i}") for i in range(2)]
    s = Server("postgres", rows=lambda i: rows[i])
    w = World(s)

    def pipe(duplex=True):
        w.pipe = Pipe(s)
        return w.pipe.reader(), w.pipe.writer()
    w.attrs["mp"] = types.SimpleNamespace(Pipe=pipe, Process=lambda **kw: Process(w, **kw))
    with scratch(), w:
        default, cache = ctx.choose("default", 2) == 1, ctx.pick("cache", [None, True, False])
        raw = ctx.choose("raw", 2) == 1
        db = w.database(default)
        q = QUERIES[ctx.pick("kind", ["plain", "hinted", "text"])]["A"]
        first = db.execute_query(q, cache_enabled=True, raw=True)
        n = len(s.log)
        got = db.execute_query(q, cache_enabled=cache, raw=raw, timeout=10.0)
        use = default if cache is None else cache
        ctx.check((len(s.log) == n) == use, "the cache is used as requested", key="cache", got=str(s.log[n:]))
        want = first if use else rows[1]
        ctx.check(same(got, want if raw else simple(want)), "the result is the result of the query", key="cache", got=str(got))
        ctx.check(same(first, rows[0]), "the first result is the result of the query", key="cache")


class Futures:
    """A thread pool of one worker whose tasks take an arbitrary time."""

    TimeoutError = concurrent.futures.TimeoutError

    def __init__(self, server, finishes):
        self.server, self.finishes = server, finishes

    def ThreadPoolExecutor(self, **kw):
        return self

    def submit(self, f, *args):
        fut, srv = types.SimpleNamespace(state="running", error=None), self.server

        def finish():
            if fut.state == "running":
                try:
                    f(*args)
                except Exception as e:
                    fut.error = e
                fut.state = "done"

        def result(timeout=None):
            if fut.state == "running" and "interrupt" not in srv.ops and timeout is not None and srv.duration(srv.n) > timeout * 10**9:
                raise concurrent.futures.TimeoutError
            if fut.state == "running" and "interrupt" not in srv.ops and timeout is None and srv.late:
                raise Hang
            if fut.state == "running" and "interrupt" in srv.ops and not self.finishes:
                # the statement reaches the server, but it is aborted
                fail, srv.fail = srv.fail, lambda sql: quacklab.InterruptException("INTERRUPT Error: Interrupted!")
                finish()
                srv.fail = fail
            finish()
            if fut.error is not None:
                raise fut.error

        def exception(timeout=None):
            try:
                result(timeout)
            except quacklab.Error as e:
                return e
            return None
        fut.result, fut.exception, fut.done, fut.cancel = result, exception, lambda: fut.state == "done", lambda: False
        return fut

    def shutdown(self, *a, **kw):
        pass


def timeout_duck(ctx):
    shape = ctx.pick("shape", [(2, 2), (1, 1), (0, 1)])
    rows = [table(ctx, shape, f"r{i}") for i in range(2)]
    s = Server("duckdb", rows=lambda i: rows[i])
    d = ctx.int("d", 0, 10**6) * 10**6
    t = ctx.int("t", 1, 10**6)
    timeout = t / 1000
    ctx.assume(d != t * 10**6)
    qk = ctx.pick("kind", ["plain", "hinted", "settings", "text"])
    q = QUERIES[qk]["A"]
    finishes = ctx.choose("finishes", 2) == 1
    fails = ctx.choose("fails", 2) == 1
    s.duration = lambda i: d
    default = ctx.choose("default", 2) == 1
    cache = ctx.pick("cache", [None, True, False])
    raw = ctx.choose("raw", 2) == 1
    api = ctx.pick("api", ["execute_query", "execute_with_timeout", "time_query"]) if not raw and cache is None else "execute_query"
    with scratch(), World(s, concurrent=types.SimpleNamespace(futures=Futures(s, finishes))) as w:
        db = w.database(default)

        def fail(sql):
            if fails and "SELECT" in sql:
                s.now += d
                return quacklab.CatalogException("no such table")
        s.fail = fail
        late = s.late = bool(d > t * 10**6)
        prep, text = sent(db, q)
        try:
            if api == "execute_query":
                got = db.execute_query(q, timeout=timeout, raw=raw, cache_enabled=cache)
            elif api == "execute_with_timeout":
                got = db.execute_with_timeout(q, timeout=timeout)
            else:
                got = db.time_query(q, timeout=timeout)
            res = "ok" if got is not None or api != "execute_with_timeout" else "timeout"
        except TimeoutError:
            res = "timeout"
        except Exception as e:
            res = e
        if late:
            ctx.check(res == "timeout", "queries that take too long are aborted", key="timeout", got=repr(res))
            ctx.check("interrupt" in s.ops, "the query is interrupted", key="timeout")
            ctx.check(db.last_query_runtime() == math.inf, "aborted queries have no finite runtime", key="runtime")
            ctx.reach("timeout")
        elif fails:
            ctx.check(isinstance(res, quacklab.CatalogException), "failed queries raise their error", key="failed", got=repr(res))
            ctx.reach("failed")
            return
        else:
            ctx.check(res == "ok" and "interrupt" not in s.ops, "queries that are fast enough are successful", key="ok", got=repr(res))
            ctx.check(db.last_query_runtime() == d / 10**9, "the runtime is the runtime of the query", key="runtime")
            if api == "time_query":
                ctx.check(got == db.last_query_runtime(), "the runtime is returned", key="runtime")
            else:
                ctx.check(same(got, rows[0] if raw or api == "execute_with_timeout" else simple(rows[0])), "the result is the result of the query", key="result", got=str(got))
            ctx.reach("ok")
        joined = "\n".join(s.statements())
        ctx.check(joined.count("SELECT") == 1 and all(x in joined for x in lines(prep)) and joined.endswith(text), "the query is executed exactly once, after its settings", key="statements", got=joined)
        n, s.fail = len(s.log), lambda sql: None
        s.ops.clear()
        again = db.execute_query(q, raw=True, cache_enabled=True)
        use = api == "execute_query" and not late and (default if cache is None else cache)
        ctx.check(same(again, rows[0] if use else rows[0 if fails or late and not finishes else 1]), "only results are cached", key="cache", got=str(again))
        ctx.check(("SELECT" in "\n".join(s.statements()[n:])) == (not use), "cached queries are not executed", key="cache")



VALUES = [None, 1, -2.5, "x", True, decimal.Decimal("12.340"), dt.date(2020, 2, 29), dt.datetime(2021, 12, 31, 23, 59, 59, 5), dt.time(1, 2, 3), dt.timedelta(days=3, seconds=7, microseconds=11),
          {"Plan": {"Rows": 3}}, [1, 2, [3]], float("inf")]


def lifecycle(kind):
    """The query cache over its entire lifetime: reading, usage, resetting, (de-)activation and storage."""
    def body(ctx):
        rows = [[(i, 1), (i, 2)] for i in range(6)]
        value = ctx.choose("value", len(VALUES) + 2)
        if value <= len(VALUES):
            rows[0] = [] if value == len(VALUES) else [(VALUES[value], 1), (None, "y")]
        free = value > len(VALUES)
        s = Server(kind, rows=lambda i: rows[i])
        with scratch() as d, World(s) as w:
            db = w.database(False)
            name = db._query_cache_name()
            stored = free and ctx.choose("stored", 2) == 1
            texts = {n: sent(db, Q[n])[1] for n in "AB"}
            if stored:
                with open(name, "w") as f:
                    json.dump({texts["A"]: [[77, 78]]}, f)
            w.handlers.clear()
            enabled = ctx.choose("enabled", 2) == 1
            db = w.database(enabled)
            cache, loaded, runs = {}, False, 0

            def load():
                nonlocal loaded
                if not loaded and stored:
                    cache[texts["A"]] = [(77, 78)]
                loaded = True
            if enabled:
                load()
            for step in range(3):
                op = ctx.pick(f"op{step}", ["A", "A cached", "B cached", "reset", "enable", "disable"] if free else [["A cached"], ["A", "B cached"], ["disable", "A"]][step])
                if op == "reset":
                    db.reset_cache()
                    cache.clear()
                elif op in ("enable", "disable"):
                    enabled = op == "enable"
                    db.cache_enabled = enabled
                    ctx.check(db.cache_enabled == enabled, "caching is (de-)activated", key="enabled")
                    if enabled:
                        load()
                else:
                    use = enabled if op == "A" else True
                    if use:
                        load()
                    q, text = Q[op[0]], texts[op[0]]
                    n = len(s.log)
                    got = db.execute_query(q, raw=True, cache_enabled=None if op == "A" else True)
                    hit = use and text in cache
                    ctx.check((len(s.log) == n) == hit, "queries are executed exactly if they are not cached", key="cache", got=f"{op} {len(s.log) - n}")
                    if hit:
                        want = cache[text]
                        ctx.reach("hit")
                    else:
                        want = rows[runs]
                        runs += 1
                        if use:
                            cache[text] = want
                    ctx.check(list(got) == want and all(isinstance(r, tuple) for r in got), "results are what the database returned", key="result", got=str(got))
            w.shutdown()
            if not loaded:
                ctx.check(os.path.exists(name) == stored, "the cache is not touched, unless it is used", key="store")
            else:
                w.handlers.clear()
                again = w.database(True)
                for n, text in texts.items():
                    k = len(s.log)
                    rows[runs] = [("fresh", n)]
                    got = again.execute_query(Q[n], raw=True)
                    if text in cache:
                        ctx.check(list(got) == cache[text] and [list(map(type, r)) for r in got] == [list(map(type, r)) for r in cache[text]] and all(isinstance(r, tuple) for r in got), "cached results survive the session", key="store", got=str(got))
                        ctx.check(len(s.log) == k, "cached queries are not executed again", key="store")
                        ctx.reach("survived")
                    else:
                        ctx.check(list(got) == [("fresh", n)], "only cached results survive the session", key="store", got=str(got))
                        runs += 1
    return body


def plan_doc(kind, rows, cost):
    if kind == "postgres":
        return [([{"Plan": {"Node Type": "Seq Scan", "Relation Name": "r", "Alias": "r", "Plan Rows": rows, "Total Cost": cost, "Startup Cost": 0.0, "Actual Rows": rows + 1, "Actual Loops": 1, "Actual Total Time": 1.0}}],)]
    if kind == "duckdb":
        return [("physical_plan", json.dumps([{"name": "SEQ_SCAN", "children": [], "operator_cardinality": 5, "extra_info": {"Table": "r", "Type": "Sequential Scan", "Estimated Cardinality": "7"}}]))]
    return [(json.dumps({"query_block": {"select_id": 1, "cost_info": {"query_cost": "3.5"}, "table": {"table_name": "r", "access_type": "ALL", "rows_examined_per_scan": 7, "rows_produced_per_join": 7, "filtered": "100.00", "cost_info": {"read_cost": "3.0", "eval_cost": "0.5", "prefix_cost": "3.5"}}}}),)]


def num(x):
    while hasattr(x, "get"):
        x = x.get()
    return x


def optimizer(kind):
    def body(ctx):
        card, cost = ctx.int("card", 0, 10**6), ctx.int("cost", 0, 10**6)
        s = Server(kind, rows=lambda i: [(1,)], plan=plan_doc(kind, card, cost))
        base = parse_query("SELECT * FROM r WHERE r.a = 1", accept_set_query=False)
        qk = ctx.pick("kind", ["plain", "hinted", "settings", "explain", "text", "explained text"])
        q = {"plain": base, "hinted": hinted(base), "settings": hinted(base, hint=""), "explain": transform.as_explain(base), "text": "SELECT 1", "explained text": {"postgres": "EXPLAIN (FORMAT JSON) SELECT 1", "duckdb": "EXPLAIN (FORMAT JSON) SELECT 1", "mysql": "EXPLAIN FORMAT = JSON SELECT 1"}[kind]}[qk]
        call = ctx.pick("call", ["query_plan", "cardinality_estimate", "cost_estimate", "analyze_plan", "explain"])
        if kind == "duckdb" and call == "cost_estimate" or kind == "mysql" and call == "analyze_plan" or qk in ("text", "explained text") and call in ("analyze_plan", "explain"):
            call = "query_plan"
        with scratch(), World(s) as w:
            db = w.database(ctx.choose("cache", 2) == 1)
            opt = db.optimizer()
            ctx.check(opt is not None, "there is an optimizer", key="optimizer")
            params = None
            if call == "explain" and qk == "plain" and ctx.choose("params", 2):
                params = PlanParameterization()
                params.set_system_settings("work_mem", "1MB")
            expect = db.hinting().generate_hints(base, plan_parameters=params) if params is not None else q
            s.log.clear()
            for rnd in range(2):
                s.log.clear()
                res = db.explain(q, plan_params=params) if call == "explain" else getattr(opt, call)(q)
                prep, text = sent(db, expect)
                if isinstance(expect, str):
                    text = expect if "EXPLAIN" in expect else {"postgres": "EXPLAIN (FORMAT JSON) ", "duckdb": "EXPLAIN (FORMAT JSON) ", "mysql": "EXPLAIN FORMAT = JSON "}[kind] + expect
                else:
                    clean = transform.drop_hints(expect, preparatory_statements_only=True) if prep else expect
                    if kind == "mysql":
                        text = "EXPLAIN FORMAT = JSON " + db.hinting().format_query(transform.drop_clause(clean, type(clean.explain)) if clean.is_explain() else clean)
                    else:
                        text = db.hinting().format_query(transform.as_explain_analyze(clean) if call == "analyze_plan" else transform.as_explain(clean))
                full = "\n".join(s.statements())
                ctx.check(full.endswith(text) and full.count("EXPLAIN") == 1, "the plan of exactly the requested query is requested", key="explain", got=full, want=text)
                ctx.check(all(p in full and full.index(p) < full.index("EXPLAIN") for p in lines(prep)) and (prep or "SET" not in full.split("EXPLAIN")[0]), "settings are applied first", key="explain", got=full)
                ctx.check(kind == "duckdb" or len(s.statements()) == 1 + len(prep), "nothing else is executed", key="explain", got=str(s.statements()))
            if kind == "postgres":
                want_card, want_cost, act = card, cost, card + 1
            elif kind == "duckdb":
                want_card, want_cost, act = 7, None, 5
            else:
                want_card, want_cost, act = 7, 3.5, None
            if call == "cardinality_estimate":
                ctx.check(num(res) == want_card, "the estimate is the estimate of the system", key="estimate")
            elif call == "cost_estimate":
                ctx.check(num(res) == want_cost, "the cost is the cost of the system", key="estimate")
            else:
                ctx.check(num(res.estimated_cardinality) == want_card, "the plan is the plan of the system", key="plan")
                if want_cost is not None:
                    ctx.check(num(res.estimated_cost) == want_cost, "the plan is the plan of the system", key="plan")
                if call == "analyze_plan":
                    ctx.check(num(res.actual_cardinality) == act, "the plan has been analyzed", key="plan")
            ctx.reach(call)
    return body


def hints(kind):
    """Hints that are passed to the execution of a query."""
    def body(ctx):
        rows = table(ctx, (2, 2), "r")
        s = Server(kind, rows=lambda i: rows, plan=plan_doc(kind, 7, 3))
        base = parse_query("SELECT * FROM r WHERE r.a = 1", accept_set_query=False)
        given = {k: types.SimpleNamespace(name=k) if ctx.choose(k, 2) else None for k in ("plan", "join_order", "operators", "parameters")}
        with scratch(), World(s) as w:
            db = w.database(False)
            calls, service = [], type(db.hinting())

            def generate(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
                calls.append((query, plan, join_order, physical_operators, plan_parameters))
                return hinted(query)
            old, service.generate_hints = service.generate_hints, generate
            try:
                if kind == "postgres" and ctx.choose("execute", 2):
                    timeout = None
                    got = db.execute_query(base, plan=given["plan"], join_order=given["join_order"], physical_operators=given["operators"], plan_parameters=given["parameters"], raw=True)
                    ctx.check(same(got, rows), "the result is the result of the query", key="hints")
                    ctx.reach("execute")
                else:
                    got = db.explain(base, plan=given["plan"], join_order=given["join_order"], physical_ops=given["operators"], plan_params=given["parameters"])
                    ctx.check(num(got.estimated_cardinality) == 7, "the plan is the plan of the query", key="hints")
            finally:
                service.generate_hints = old
            any_given = any(v is not None for v in given.values())
            ctx.check(len(calls) == any_given and all(c[0] == base and c[1:] == tuple(given.values()) for c in calls), "hints are generated exactly as given", key="hints", got=str(calls))
            full = "\n".join(s.statements())
            ctx.check(("SET a = 1" in full) == any_given and ("/*+ hint */" in full) == any_given and full.count("SELECT") == 1, "the hinted query is used", key="hints", got=full)
    return body


def pool(ctx):
    """Sequences of connects. The pool contains exactly what was registered."""
    kind = ctx.pick("system", ["postgres", "duckdb", "mysql"])
    s = Server(kind, rows=lambda i: [(1,)])
    old, dbmod._DB_POOL = dbmod._DB_POOL, None
    try:
        with scratch(), World(s) as w:
            p = DatabasePool.get_instance()
            ctx.check(p.empty() and p.n_databases() == 0 and DatabasePool.get_instance() is p, "the pool is a singleton", key="pool")
            try:
                p.current_database()
                ctx.check(False, "there is no database yet", key="pool")
            except ValueError:
                pass
            want = {}
            for step in range(3):
                name, mode = ctx.pick(f"name{step}", ["x", "y"]), ctx.pick(f"mode{step}", ["default", "refresh", "private"] if kind != "mysql" else ["refresh", "private"])
                before = dict(want)
                closed = kind != "mysql" and name in want and mode == "default" and ctx.choose("closed", 2) == 1
                if closed:
                    want[name].close()
                    for c in s.conns:
                        c.info.status = psycopg.pq.ConnStatus.BAD
                if kind == "mysql":
                    db = my.connect(name=name, connection_args=my.MysqlConnectionArguments("u", "mydb"), private=mode == "private")
                else:
                    args = {"connect_string": "dbname=mydb"} if kind == "postgres" else {"db": "mydb"}
                    db = (pg if kind == "postgres" else duck).connect(name=name, refresh=mode == "refresh", private=mode == "private", **args)
                if name in before and mode == "default" or name in before and mode == "private" and db is before[name]:
                    ctx.check(db is before[name], "pooled connections are reused", key="reuse")
                    ctx.check(same(db.execute_query("SELECT 1", raw=True), [(1,)]), "connections work", key="reuse")
                    ctx.reach("reuse")
                else:
                    ctx.check(all(db is not x for x in before.values()), "new connections are new", key="refresh")
                    if mode != "private":
                        key = name
                        if kind == "mysql":
                            pass
                        elif name in want:
                            key = next(f"{name} - {i}" for i in range(2, 9) if f"{name} - {i}" not in want)
                            ctx.reach("suffix")
                        want[key] = db
                ctx.check(p.n_databases() == len(want) and all(k in p and p.retrieve_database(k) is v for k, v in want.items()), "the pool contains exactly the registered databases", key="pool", got=str(list(p._pool)), want=str(list(want)))
                try:
                    cur = dbmod.current_database()
                    ctx.check(len(want) == 1 and cur is next(iter(want.values())), "the current database is the only one", key="pool")
                except ValueError:
                    ctx.check(len(want) != 1, "the current database is the only one", key="pool")
                if want:
                    ctx.check(any(p.any_database() is v for v in want.values()), "any database is one of the pool", key="pool")
            p.clear()
            ctx.check(p.empty() and "x" not in p, "cleared pools are empty", key="pool")
            ctx.reach(kind)
    finally:
        dbmod._DB_POOL = old


def connections(kind):
    """Queries before and after connections have been reset or closed."""
    def body(ctx):
        rows = [table(ctx, (2, 2), f"r{i}") for i in range(4)]
        s = Server(kind, rows=lambda i: rows[i])
        with scratch(), World(s) as w:
            db = w.database(ctx.choose("default", 2) == 1)
            runs, cache = 0, {}
            for step in range(3):
                op = ctx.pick(f"op{step}", ["query", "cursor", "reset", "unread reset"])
                if op == "query":
                    got = db.execute_query(Q["A"], raw=True)
                    want = cache.get("A", rows[runs])
                    runs += "A" not in cache
                    if db.cache_enabled:
                        cache["A"] = want
                    ctx.check(same(got, want), "queries are executed on the current connection", key="result")
                elif op == "cursor":
                    cur = db.cursor()
                    cur.execute("SELECT x")
                    ctx.check(same(list(cur.fetchall()), rows[runs]), "cursors are connected", key="cursor")
                    runs += 1
                else:
                    if op == "unread reset":
                        db.cursor().execute("SELECT x")
                        runs += 1
                    if kind != "mysql" and ctx.choose(f"broken{step}", 2):
                        for c in s.conns:
                            c.closed = True
                    n = len(s.conns)
                    db.reset_connection()
                    ctx.check(len(s.conns) == n + 1 if kind != "mysql" else s.ops[-1:] == ["reset"], "the connection is renewed", key="reset")
                    ctx.check(kind == "mysql" or all(c.closed for c in s.conns[:n] if kind == "postgres" or c is s.conns[0]), "the old connection is closed", key="reset")
                    ctx.reach("reset")
                if runs > 2:
                    break
            db.database_name()
            db.database_system_version()
            ctx.reach(op)
    return body


class Pool:
    """A pool of workers, tasks end in an arbitrary order."""

    def __init__(self, ctx):
        self.ctx, self.n, self.init = ctx, 0, None

    def ThreadPoolExecutor(self, max_workers=None, initializer=None, initargs=(), **kw):
        self.workers = max_workers
        self.init = (initializer, initargs)
        initializer(*initargs)
        return self

    def submit(self, f, *args):
        fut = concurrent.futures.Future()
        try:
            fut.set_result(f(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    def as_completed(self, fs, timeout=None):
        fs = list(fs)
        while fs:
            i = self.ctx.choose(f"next{self.n}", len(fs))
            self.n += 1
            yield fs.pop(i)

    def shutdown(self, *a, **kw):
        self.workers = 0


def parallel(ctx):
    rows = [table(ctx, (1, 2), f"r{i}") for i in range(4)]
    s = Server("postgres", rows=lambda i: rows[i])
    futures = Pool(ctx)
    ns = types.SimpleNamespace(ThreadPoolExecutor=futures.ThreadPoolExecutor, as_completed=futures.as_completed, Future=concurrent.futures.Future, TimeoutError=concurrent.futures.TimeoutError)
    with World(s, concurrent=types.SimpleNamespace(futures=ns)) as w:
        limit = ctx.pick("timeout", [None, 5])
        ex = pg.ParallelQueryExecutor("dbname=mydb", n_threads=2, timeout=limit)
        ctx.check(len(s.conns) == 1 and s.conns[0].autocommit, "workers have their own connection", key="connection")
        s.log.clear()
        current, want, logs, seen = [None], {}, [], []
        s.fail = lambda sql: psycopg.errors.QueryCanceled("canceling statement due to statement timeout") if current[0] and not sql.startswith("SET") else None
        cb = ctx.choose("callback", 2) == 1
        fmt = types.SimpleNamespace(format_query=lambda q: pg.PostgresHintService.format_query(None, q))
        db = types.SimpleNamespace(hinting=lambda: fmt)
        rounds = ctx.pick("rounds", [(2,), (1, 1), (1, 2)])
        k = runs = 0
        for n in rounds:
            for _ in range(n):
                kind, name = ctx.pick(f"kind{k}", ["plain", "hinted", "text"]) if k == 0 else "plain", "AB"[k] if k < 2 else "A"
                q = QUERIES[kind][name] if k < 2 else "SELECT C"
                current[0] = limit is not None and ctx.choose(f"late{k}", 2) == 1
                ex.queue_query(q)
                prep, text = sent(db, q)
                logs += ([f"SET statement_timeout = '{limit}s';"] if limit else []) + prep + [text]
                want[str(q)] = (q, None if current[0] else rows[runs])
                runs += not current[0]
                k += 1
            ex.drain_queue(callback=(lambda q, r: seen.append((q, r))) if cb else None)
            ctx.check(lines(s.statements()) == lines(logs), "every query is executed once, with its settings", key="statements", got=str(s.statements()), want=str(logs))
            res = ex.result_set()
            ctx.check(len(res) == len(want) and all(q in res for q, _ in want.values()) and And(*[same(res[q], r) for q, r in want.values()]), "the results are complete", key="result", got=str(res))
            if cb:
                ctx.check(len(seen) == len(want) and And(*[same(r, want[str(q)][1]) for q, r in seen]) and len({str(q) for q, _ in seen}) == len(seen), "the callback gets every result once", key="callback", got=str(seen))
                ctx.reach("callback")
        ex.close()
        ctx.check(futures.workers == 0, "the pool is closed", key="close")
        ctx.reach(str(limit))


F = ["Database", "DatabasePool", "simplify_result_set", "PostgresInterface", "PostgresOptimizer", "TimeoutQueryExecutor", "ParallelQueryExecutor", "DuckDBInterface", "DuckDBOptimizer", "MysqlInterface", "MysqlOptimizer"]


def harnesses(tier):
    H = lambda n, b, bounds, reach=(): Harness(n, b, shadow=SH, functions=F, bounds=bounds, must_reach=list(reach))
    out = []
    for k in KINDS:
        out += [H(f"execute {k}", execute(k), "2 executions of 7 kinds of queries x all caching and result modes; 3 shapes of results with arbitrary values; all durations", ("cached",) + tuple(q for q in QUERIES if k != "mysql" or q != "user string")),
                H(f"errors {k}", errors(k), "3 executions, one of them fails; 5 kinds of errors"),
                H(f"cache {k}", lifecycle(k), "all sequences of 3 operations x 13 types of values x stored caches", ("hit", "survived")),
                H(f"optimizer {k}", optimizer(k), "7 kinds of queries x 5 requests; all estimates"),
                H(f"hints {k}", hints(k), "all combinations of hints"),
                H(f"connections {k}", connections(k), "all sequences of 3 operations", ("reset",))]
    out += [H("simplify", shapes, "9 shapes of results with arbitrary values"),
            H("timeout postgres", timeout_pg, "5 kinds of queries x 3 APIs x 7 outcomes; all durations and timeouts in milliseconds", ("timeout", "failed", "ok")),
            H("timeout cache", timeout_cache, "4 kinds of queries x all caching and result modes"),
            H("timeout duckdb", timeout_duck, "4 kinds of queries x 3 APIs x 3 outcomes; all durations and timeouts in milliseconds", ("timeout", "failed", "ok")),
            H("pool", pool, "all sequences of 3 connects with 2 names and 3 modes", KINDS),
            H("parallel", parallel, "up to 3 queries, all orders of completion, all combinations of timeouts", ("callback",))]
    return out
