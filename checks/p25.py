"""P25: execution of queries with a time limit, explored over all schedules of the processes, sessions and connections involved."""
import atexit
import contextlib
import itertools
import math
import re
import threading
import types
import warnings

from choices import Scheduler
from interleave import Hang, Pipe, Process, Sim
from vlib import Check, sliced

warnings.simplefilter("ignore")
import psycopg  # noqa: E402
import quacklab  # noqa: E402

import postbound as pb  # noqa: E402
from postbound import duckdb as pbduck  # noqa: E402
from postbound import postgres as pbpg  # noqa: E402
from postbound import transform  # noqa: E402

ROWS = [(1, "x"), (2, None)]
ERRORS = {
    "internal": psycopg.InternalError,
    "operational": psycopg.errors.OutOfMemory,
    "programming": psycopg.errors.UndefinedTable,
    "data": psycopg.errors.DivisionByZero,
}
FIXED = {"shared_buffers": "16384", "autovacuum_naptime": "60", "some_extension.setting": "1"}
SETTINGS = {"work_mem": "4096", "enable_hashjoin": "on", "geqo": "on", "random_page_cost": "4", **FIXED}
LIMIT = 10.0


# ---------------------------------------------------------------- a Postgres server
class Session:
    def __init__(self, pid, client, app):
        self.pid, self.client, self.app = pid, client, app
        self.config = dict(SETTINGS)
        self.state, self.kind = "idle", None
        self.cancelled = self.terminated = self.closed = self.broken = False
        self.log = []
        self.at_query = None

    @property
    def runaway(self):
        return self.kind == "hang" and self.state in ("inflight", "running") and not (self.cancelled or self.terminated)


class Server:
    def __init__(self, sim, fault=None):
        self.sim, self.fault = sim, fault or ("none",)
        self.sessions = []
        self.statements = 0
        sim.on_spawn = lambda task: task.on_exit.append(lambda: self.left(task))
        if self.fault[0] == "worker-dies":
            sim.on_spawn = lambda task: (task.on_exit.append(lambda: self.left(task)), setattr(task, "die_at", self.fault[1]))

    def left(self, task):
        for s in self.sessions:
            if s.client is task:
                s.closed = True

    def by_worker(self):
        return self.sim.current is not self.sim.main

    def connect(self, *args, application_name="", **kwargs):
        self.sim.tick()
        if self.fault[0] == "no-connection" and self.by_worker():
            raise psycopg.OperationalError("connection failed")
        watchdog = not self.by_worker() and self.sessions
        if self.fault[0] == "server-gone" and watchdog and self.fault[1] > 0:
            self.fault = ("server-gone", self.fault[1] - 1)
        elif self.fault[0] == "server-gone" and watchdog:
            raise psycopg.OperationalError("connection failed")
        s = Session(100 + len(self.sessions), self.sim.current, application_name)
        s.encoding = kwargs.get("client_encoding", "UTF8")
        self.sessions.append(s)
        return Connection(self, s)

    def signal(self, pid, what):
        self.sim.point()
        for s in self.sessions:
            if s.pid == pid and not (s.closed and s.state == "idle"):
                if what == "terminate":
                    s.terminated = True
                elif s.state == "running":
                    s.cancelled = True
                return [(True,)]
        return [(False,)]


class Connection:
    def __init__(self, server, session):
        self.server, self.session = server, session
        self.autocommit, self.prepare_threshold, self.row_factory = False, None, None
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)
        self.info = types.SimpleNamespace(backend_pid=session.pid, host="localhost")

    @property
    def closed(self):
        return self.session.closed

    @property
    def broken(self):
        return self.session.terminated or self.session.broken

    def _use(self):
        self.server.sim.alive()
        if self.session.closed:
            raise psycopg.OperationalError("the connection is closed")
        if self.session.terminated or self.session.broken:
            raise psycopg.OperationalError("server closed the connection unexpectedly")

    def cursor(self, *a, **k):
        if self.session.closed:
            raise psycopg.OperationalError("the connection is closed")
        return Cursor(self)

    def execute(self, *a, **k):
        return self.cursor().execute(*a, **k)

    def rollback(self):
        self._use()

    commit = rollback

    def cancel(self):
        self.server.sim.alive()

    cancel_safe = cancel

    def close(self):
        self.server.sim.alive()
        self.session.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Cursor:
    def __init__(self, conn):
        self.connection, self.server, self.s = conn, conn.server, conn.session
        self.result, self.rowcount = None, -1

    def execute(self, query, params=None, **kw):
        text = str(query)
        if params:
            text = text % tuple(params)
        self.connection._use()
        sim, s, server = self.server.sim, self.s, self.server
        self.result, self.rowcount = None, -1
        if not server.by_worker() and server.fault[0] in ("watchdog-broken", "server-gone") and "backend(" in text and server.fault[-1] == 0:
            if server.fault[0] == "watchdog-broken":
                server.fault = ("none",)
            s.broken = True
            self.connection._use()
        if server.by_worker():
            server.statements += 1
            if server.fault[0] == "statement" and server.fault[1] == server.statements:
                raise ERRORS[server.fault[2]]("injected")
        s.log.append(text)
        up = text.strip().upper()
        m = re.search(r"pg_(cancel|terminate)_backend\s*\(\s*(\d+)", text)
        if m:
            self._rows(server.signal(int(m.group(2)), m.group(1)))
        elif "PG_SETTINGS" in up:
            self._rows(list(s.config.items()))
        elif up.startswith("SHOW"):
            self._rows([("on",)])
        elif up.startswith("SELECT VERSION()"):
            self._rows([("PostgreSQL 16.3 on x86_64",)])
        elif up.startswith("SET"):
            sim.tick()
            for name, value in re.findall(r"SET\s+(?:LOCAL\s+|SESSION\s+)?([\w.]+)\s*(?:=|TO)\s*'?([^';]*)'?;?", text, re.I):
                if name in FIXED and not name.startswith("some"):
                    raise psycopg.errors.CantChangeRuntimeParam(name)
                s.config[name] = value
        else:
            self._main(text)
        return self

    def _main(self, text):
        m = re.search(r"q_(\w+)", text)
        if m is None:  # some lookup in the catalog
            return self._rows([("1", "x", "y")])
        kind = m.group(1)
        sim, s = self.server.sim, self.s
        s.kind, s.at_query = kind, dict(s.config)
        if self.server.by_worker():
            s.state = "inflight"
            sim.point()
            self.connection._use()
            s.state = "running"
            sim.point((lambda: s.cancelled or s.terminated) if kind == "hang" else None)
            if s.terminated:
                raise psycopg.errors.AdminShutdown("terminating connection due to administrator command")
            s.state = "idle"
            if s.cancelled:
                s.cancelled = False
                raise psycopg.errors.QueryCanceled("canceling statement due to user request")
        if kind in ERRORS:
            raise ERRORS[kind](f"{kind} error")
        if kind in ("rows", "fetch", "unpicklable"):
            self._rows(list(ROWS))
        elif kind == "single":
            self._rows([(42,)])
        elif kind == "empty":
            self._rows([])
        elif kind != "norows":
            raise AssertionError(kind)

    def _rows(self, rows):
        self.result, self.rowcount = rows, len(rows)

    def fetchall(self):
        self.connection._use()
        if self.s.kind == "fetch" and self.s.at_query and self.result == ROWS:
            raise psycopg.OperationalError("connection lost")
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        rows, self.result = self.result, []
        return rows

    def fetchone(self):
        rows = self.fetchall()
        return rows[0] if rows else None

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.fetchall())


@contextlib.contextmanager
def world(choices, fault=None):
    sim = Sim(choices)
    server = Server(sim, fault)
    mp = pbpg.mp if hasattr(pbpg, "mp") else __import__("multiprocessing")
    saved = mp.Pipe, mp.Process, psycopg.connect, atexit.register

    def pipe(duplex=True):
        p = Pipe(sim)
        return p.recv, p.send

    mp.Pipe, mp.Process, psycopg.connect = pipe, lambda *a, **k: Process(sim, **k), server.connect
    atexit.register = lambda f, *a, **k: f
    try:
        yield sim, server
    finally:
        try:
            sim.stop()
        finally:
            mp.Pipe, mp.Process, psycopg.connect, atexit.register = saved


class Zero:
    """the default schedule: whoever runs continues, until it has to wait"""

    def pick(self, n):
        return 0


# ---------------------------------------------------------------- the queries
def parsed(text, prep="", hint=""):
    q = pb.parse_query(text, bind_columns=False)
    return transform.add_clause(q, pb.qal.Hint(prep, hint)) if prep or hint else q


def statement(kind, form):
    if kind == "norows":
        return "CREATE TABLE q_norows (a int)" if form != "user" else __import__("collections").UserString("CREATE TABLE q_norows (a int)")
    text = f"SELECT q_{kind}.a FROM q_{kind}"
    if form == "text":
        return text
    if form == "prep":
        return parsed(text, prep="SET enable_hashjoin = 'off';")
    if form == "hint":
        return parsed(text, prep="SET geqo = 'off';", hint=f"/*+ SeqScan(q_{kind}) */")
    return parsed(text)


def outcome(fn):
    try:
        return "value", fn()
    except TimeoutError as e:
        return "timeout", e
    except Hang:
        return "hang", None
    except KeyboardInterrupt:
        return "interrupted", None
    except Exception as e:
        return "error", e


def plain(kind, form, raw, api):
    """what happens without a time limit"""
    with world(Zero()) as (sim, server):
        db = pbpg.PostgresInterface("dbname=x")
        db.apply_configuration("SET work_mem = '9999';")
        n = len(server.sessions[0].log)
        res = outcome(lambda: db.execute_query(statement(kind, form), raw=raw or api != "query", cache_enabled=False))
        return res, server.sessions[0].log[n:], server.sessions[0].at_query


PLAIN = {}


def call(db, stmt, api, raw):
    if api == "query":
        return db.execute_query(stmt, timeout=LIMIT, raw=raw)
    if api == "timeout":
        return db.execute_with_timeout(stmt, timeout=LIMIT)
    return db.time_query(stmt, timeout=LIMIT)


def brief(x):
    return f"{type(x).__name__}: {str(x)[:90]}" if isinstance(x, BaseException) else repr(x)[:90]


def scenario(acc, kind, form, fault, api, raw, fine=False):
    name = f"{kind} {form} {api}{' raw' if raw else ''} fault={' '.join(map(str, fault))}"
    if kind != "hang":
        if (kind, form, raw, api) not in PLAIN:
            PLAIN[kind, form, raw, api] = plain(kind, form, raw, api)
        want, want_log, want_config = PLAIN[kind, form, raw, api]
    sched = Scheduler(80)
    while True:
        sched.trace = []
        with world(sched, fault) as (sim, server):
            sim.choices = Zero()
            db = pbpg.PostgresInterface("dbname=x", client_encoding="LATIN1")
            db.apply_configuration("SET work_mem = '9999';")
            if fault[0] == "interrupt":
                sim.main.raise_at = sim.main.steps + fault[1]
            sim.choices, sim.fine = sched, fine
            res, value = outcome(lambda: call(db, statement(kind, form), api, raw))
            sim.choices, sim.fine = Zero(), False
            sim.main.raise_at = None
            trace = [x[0] for x in sched.trace]
            acc.case((name, tuple(trace)), res)
            acc.step(len(trace))

            def bad(msg):
                acc.violate(f"{name}: {msg}", f"{name}: {msg} (schedule {trace}; outcome {res} {brief(value)})", {"scenario": name, "schedule": trace})

            expired = sim.clock >= LIMIT
            left = [p for p in getattr(sim, "procs", []) if p.task is not None and not p.task.finished]
            runaway = [s for s in server.sessions if s.runaway]
            benign = fault[0] in ("none", "watchdog-broken", "server-gone")
            none_reported = api == "timeout" and res == "value" and value is None
            timed_out = res == "timeout" or none_reported
            if res == "hang":
                bad("nobody can make progress any more")
            if left and res != "hang":
                bad("the worker process is still running")
            if runaway and fault[0] != "server-gone" and not (fault[0] == "interrupt" and res == "interrupted"):
                bad("the query continues to run on the server")
            if res not in ("hang", "interrupted"):
                if timed_out and not expired:
                    bad("a timeout is reported although the time limit has not passed")
                if expired and not timed_out and not (fault[0] == "server-gone" and res == "error"):
                    bad("no timeout is reported although the time limit has passed")
                if not expired and benign and kind != "hang" and not (fault[0] == "server-gone" and res == "error"):
                    if res != want[0]:
                        bad(f"expected {want[0]} {brief(want[1])}")
                    elif res == "error":
                        if type(value) is not type(want[1]):
                            bad(f"expected an error of type {type(want[1]).__name__}")
                    elif api == "time":
                        if not (isinstance(value, float) and value >= 0):
                            bad("expected a run time")
                    else:
                        exp = want[1] if api != "timeout" or want[1] is not None else []
                        if value != exp:
                            bad(f"expected the result {exp}")
                if not expired and not benign and res == "value" and fault[0] != "worker-dies" and fault[0] != "interrupt":
                    if fault[0] == "no-connection" or fault[1] <= server.statements:
                        bad("an error is swallowed")
                if res == "value" and not timed_out and api != "time" and kind != "hang" and value != (want[1] if api != "timeout" or want[1] is not None else []):
                    bad(f"expected the result {want[1]}")
                rt = db.last_query_runtime()
                if timed_out and not (rt == LIMIT or rt == math.inf):
                    bad(f"the run time of a query that timed out is {rt}")
                elif res == "value" and not timed_out and not (rt >= 0 and rt < math.inf):
                    bad(f"the run time is {rt}")
                elif res == "error" and not math.isnan(rt):
                    bad(f"the run time of a failed query is {rt}")
            for s in server.sessions[1:]:
                if s.at_query is not None and kind != "hang":
                    config = {k: v for k, v in s.at_query.items()}
                    if config != want_config:
                        bad(f"the settings of the worker are {config}, expected {want_config}")
                    if s.encoding != "LATIN1":
                        bad(f"the worker uses the encoding {s.encoding} instead of LATIN1")
                    if want_log and s.log[-len(want_log):] != want_log and benign:
                        bad(f"the statements of the worker are {s.log[-len(want_log):]}, expected {want_log}")
            if res != "hang" and not left:
                # afterwards everything works as before
                if fault[0] == "server-gone":
                    server.fault = ("none",)
                if fault[0] in ("worker-dies", "interrupt"):
                    sim.on_spawn = lambda task: task.on_exit.append(lambda: server.left(task))
                server.fault = ("none",)
                for s in server.sessions:
                    s.kind = None
                res2, value2 = outcome(lambda: call(db, statement("rows", "query"), "query", True))
                if (res2, value2) != ("value", ROWS):
                    bad(f"the next query fails: {res2} {brief(value2)}")
                sim.clock = 0.0
                res3, value3 = outcome(lambda: call(db, statement("hang", "query"), "query", True))
                if res3 != "timeout":
                    bad(f"the next timeout fails: {res3} {brief(value3)}")
                res4, value4 = outcome(lambda: db.execute_query(statement("single", "query")))
                if (res4, value4) != ("value", 42):
                    bad(f"the next plain query fails: {res4} {brief(value4)}")
                if [s for s in server.sessions if s.runaway] and not runaway:
                    bad("a later query continues to run on the server")
                db.close()
                if [s for s in server.sessions if not s.closed]:
                    bad(f"connections remain open: {[s.app for s in server.sessions if not s.closed]}")
        if not sched.backtrack():
            break


KINDS = ["rows", "single", "empty", "norows", "fetch", *ERRORS, "hang"]


def scenarios(thorough):
    for kind in KINDS:
        for form in ("text", "query", "prep", "hint", "user"):
            if form in ("query", "prep", "hint") and kind == "norows" or form == "user" and kind != "norows":
                continue
            for api, raw in (("query", False), ("query", True), ("timeout", True), ("time", True)):
                if not thorough and form != "text" and (api == "time" or form != "prep" and api == "timeout") and kind not in ("rows", "norows"):
                    continue
                yield kind, form, ("none",), api, raw
    for kind in ("rows", "hang", "programming", "norows"):
        for api in ("query", "timeout"):
            yield kind, "text" if kind == "norows" else "prep", ("no-connection",), api, True
            for k in range(1, 13):
                yield kind, "text" if kind == "norows" else "prep", ("worker-dies", k), api, True
                yield kind, "text" if kind == "norows" else "prep", ("interrupt", k), api, True
            for k in range(1, 6):
                for e in ERRORS:
                    yield kind, "text" if kind == "norows" else "prep", ("statement", k, e), api, True
            for k in (0, 1):
                yield kind, "text" if kind == "norows" else "prep", ("watchdog-broken", k), api, True
            for k in (0, 1, 2):
                yield kind, "text" if kind == "norows" else "prep", ("server-gone", k), api, True


def postgres(c):
    def fn(acc, i, n):
        for s in sliced(scenarios(c.thorough), i, n):
            scenario(acc, *s, fine=c.thorough)
    return fn



# ---------------------------------------------------------------- cached results
def cached(acc, i, n):
    for kind, form, enabled, raw in sliced(itertools.product(("rows", "single", "empty"), ("text", "query", "prep", "hint"), (True, False, None), (True, False)), i, n):
        with world(Zero()) as (sim, server):
            db = pbpg.PostgresInterface("dbname=x")
            stmt = statement(kind, form)
            want = outcome(lambda: db.execute_query(stmt, cache_enabled=True, raw=raw))
            got = outcome(lambda: db.execute_query(statement(kind, form), cache_enabled=enabled, raw=raw, timeout=LIMIT))
            acc.case((kind, form, enabled, raw), got[0])
            name = f"cached {kind} {form} enabled={enabled} raw={raw}"
            if got != want:
                acc.violate(name, f"{name}: {got} instead of {want}")
            again = outcome(lambda: db.execute_query(statement(kind, form), cache_enabled=True, raw=True))
            if again != outcome(lambda: db.execute_query(stmt, cache_enabled=False, raw=True)):
                acc.violate(name + " afterwards", f"{name}: afterwards {again}")
            hits = len(server.sessions) == 1
            if enabled and not hits:
                acc.violate(name + " hit", f"{name}: the cached result is not used")
            if enabled is False and hits:
                acc.violate(name + " miss", f"{name}: the query is not executed")


# ---------------------------------------------------------------- DuckDB: scripted connection
class Script:
    """one connection; every statement behaves as the script says"""

    def __init__(self):
        self.lock = threading.Condition()
        self.running = None
        self.interrupts = 0
        self.released = False
        self.result = None
        self.log = []

    def execute(self, query, *a, **k):
        text = str(query)
        self.log.append(text)
        m = re.search(r"q_(\w+)", text)
        kind = m.group(1) if m else "rows"
        self.result = None
        with self.lock:
            if kind not in ("rows", "empty", "single", "error"):
                # ends only if it is interrupted
                self.running, self.interrupts = kind, 0
                self.lock.notify_all()
                need = {"deaf": 2}.get(kind, 1)
                ok = self.lock.wait_for(lambda: self.interrupts >= need or self.released, 3)
                self.running = None
                self.stuck = not ok
                self.lock.notify_all()
                if kind in ("interrupted", "deaf"):
                    raise quacklab.InterruptException("INTERRUPT Error: Interrupted!")
                if kind == "latefail":
                    raise quacklab.BinderException("late failure")
        if kind == "error":
            raise quacklab.BinderException("failure")
        self.result = {"single": [(42,)], "empty": []}.get(kind, list(ROWS))
        return self

    def interrupt(self):
        with self.lock:
            self.interrupts += 1
            self.lock.notify_all()
            if self.running:
                # "late": the query finishes just before the interrupt reaches it, its thread goes on
                self.lock.wait_for(lambda: self.running is None, 0.02)

    def fetchall(self):
        if self.result is None:
            raise quacklab.InvalidInputException("no open result set")
        rows, self.result = self.result, []
        return rows

    def fetchone(self):
        return (self.fetchall() or [None])[0]

    def cursor(self):
        return self

    def close(self):
        self.released = True


def duck_case(acc, history):
    name = "DuckDB " + " ; ".join(" ".join(map(str, h)) for h in history)
    saved = pbduck.quacklab.connect
    script = Script()
    pbduck.quacklab.connect = lambda *a, **k: script
    try:
        db = pbduck.DuckDBInterface("x.db")
        for kind, api, form in history:
            q = f"SELECT q_{kind}.a FROM q_{kind}"
            stmt = q if form == "text" else parsed(q, prep="SET threads = 1;")
            slow = kind not in ("rows", "empty", "single", "error")
            limit = 0.01 if slow else 60.0
            script.log.clear()
            script.stuck = False
            fn = {
                "query": lambda: db.execute_query(stmt, timeout=limit, raw=True),
                "timeout": lambda: db.execute_with_timeout(stmt, timeout=limit),
                "time": lambda: db.time_query(stmt, timeout=limit),
                "plain": lambda: db.execute_query(stmt, raw=True),
            }[api]
            res, value = outcome(fn)
            if api == "timeout" and res == "value" and value is None:
                res = "timeout"

            def bad(msg):
                acc.violate(f"{name}: {msg}", f"{name}: {msg} (outcome {res} {brief(value)})")

            if slow and script.stuck:
                bad(f"{kind} {api}: waits although the time limit has passed")
            if slow and res != "timeout" and not (kind == "latefail" and res == "error"):
                bad(f"{kind} {api}: no timeout is reported")
            if kind == "error" and res != "error":
                bad(f"{kind} {api}: the error is lost")
            if not slow and kind != "error":
                want = {"single": [(42,)], "empty": []}.get(kind, ROWS)
                if res != "value" or (api != "time" and value != want) or (api == "time" and not 0 <= value < 60):
                    bad(f"{kind} {api}: expected {want}")
            rt = db.last_query_runtime()
            if res == "timeout" and not (rt == limit or rt == math.inf):
                bad(f"{kind} {api}: run time {rt} after a timeout")
            if res == "value" and not 0 <= rt < math.inf:
                bad(f"{kind} {api}: run time {rt}")
            want = ["SET threads = 1;"] if form == "prep" else []
            if [x.strip() for x in script.log[:-1]] != want or "SET" in script.log[-1]:
                bad(f"{kind} {api} {form}: executed {script.log}")
        acc.case(name, res)
        acc.step(len(history))
    finally:
        script.released = True
        pbduck.quacklab.connect = saved


def duck(c):
    def fn(acc, i, n):
        steps = [(k, a, f) for k in ("rows", "empty", "error", "interrupted", "late", "latefail", "deaf") for a in ("query", "timeout", "time") for f in ("text", "prep")]
        steps += [("single", "plain", "text")]
        light = [s for s in steps if s[2] == "text"]
        hist = itertools.chain(((s,) for s in steps), itertools.product(light, repeat=2), itertools.product(light, repeat=3) if c.thorough else ())
        for h in sliced(hist, i, n):
            duck_case(acc, h)
    return fn


def duck_real(acc, i, n):
    """the real engine: slow and fast queries in all orders"""
    slow = "SELECT count(*) FROM range(100000) a, range(100000) b WHERE (a.range * b.range) % 7 = 1"
    steps = {"slow": (slow, 0.2), "fast": ("SELECT 1, 2", 60.0), "bad": ("SELECT nope", 60.0), "plain": ("SELECT 3, 4", None)}
    for h in sliced(itertools.product(steps, repeat=2), i, n):
        db = pbduck.DuckDBInterface(":memory:")
        got = []
        for s in h:
            q, t = steps[s]
            r = outcome(lambda: db.execute_query(q, raw=True, timeout=t) if t is None or h[0] == s else db.execute_with_timeout(q, timeout=t))
            if r == ("value", None):
                r = ("timeout", None)
            got.append(r if r[0] == "value" else (r[0], None))
        want = [{"slow": ("timeout", None), "bad": ("error", None), "fast": ("value", [(1, 2)]), "plain": ("value", [(3, 4)])}[s] for s in h]
        acc.case(h, str(got))
        if got != want:
            acc.violate(f"DuckDB engine {h}", f"{h}: {got} instead of {want}")
        db.close()


# ---------------------------------------------------------------- parallel execution on Postgres
class Turn:
    """queries finish in the given order"""

    def __init__(self, order):
        self.order = list(order)
        self.lock = threading.Condition()

    def finish(self, k):
        with self.lock:
            if not self.lock.wait_for(lambda: self.order and self.order[0] == k, 20):
                raise AssertionError("schedule is not feasible")
            self.order.pop(0)
            self.lock.notify_all()


class ParallelConn:
    def __init__(self, turn, seen):
        self.turn, self.seen = turn, seen
        self.autocommit, self.closed = False, False
        self.timeout = None
        seen["connections"].append(self)

    def cursor(self, *a, **k):
        return ParallelCursor(self)

    def execute(self, *a, **k):
        return self.cursor().execute(*a, **k)

    def rollback(self):
        pass

    commit = cancel = rollback

    def close(self):
        self.closed = True


class ParallelCursor:
    def __init__(self, conn):
        self.conn, self.rows, self.rowcount = conn, None, -1

    def execute(self, query, *a, **k):
        text = str(query)
        m = re.search(r"statement_timeout\s*(?:=|TO)\s*'?(\w+)", text)
        if m:
            self.conn.timeout = m.group(1)
            return self
        k, kind = re.search(r"q(\d)_(\w+)", text).groups()
        self.conn.turn.finish(int(k))
        self.conn.seen["timeouts"].append(self.conn.timeout)
        if kind == "timeout":
            raise psycopg.errors.QueryCanceled("canceling statement due to statement timeout" + ("" if int(k) % 2 == 0 else "\nCONTEXT:  parallel worker"))
        if kind == "cancel":
            raise psycopg.errors.QueryCanceled("canceling statement due to user request")
        if kind == "error":
            raise psycopg.errors.UndefinedTable("no such table")
        self.rows = None if kind == "norows" else [] if kind == "empty" else [(int(k), kind)]
        self.rowcount = -1 if kind == "norows" else len(self.rows)
        return self

    def fetchall(self):
        if self.rows is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        return self.rows

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def parallel_case(acc, kinds, order, threads, form, limit):
    name = f"parallel {kinds} order={order} threads={threads} {form} limit={limit}"
    saved = psycopg.connect
    turn, seen = Turn(order), {"connections": [], "timeouts": []}
    psycopg.connect = lambda *a, **k: ParallelConn(turn, seen)
    try:
        ex = pbpg.ParallelQueryExecutor("dbname=x", threads, timeout=limit)
        queries = [f"SELECT q{k}_{kind}.a FROM q{k}_{kind}" for k, kind in enumerate(kinds)]
        if form == "query":
            queries = [pb.parse_query(q, bind_columns=False) for q in queries]
        for q in queries:
            ex.queue_query(q)
        called = []
        errors = []
        for _ in range(len(kinds) + 1):
            res, value = outcome(lambda: ex.drain_queue(20, callback=lambda q, r: called.append((q, r))))
            if res == "value":
                break
            errors.append(value)
            if not isinstance(value, psycopg.Error):
                acc.violate(f"{name}: error", f"{name}: drain_queue raises {brief(value)}")
            break
        results = dict(ex.result_set())
        ex.close()
        want = {}
        failing = [k for k in kinds if k in ("error", "cancel")]
        for k, kind in enumerate(kinds):
            if kind not in ("error", "cancel"):
                want[queries[k]] = None if kind == "timeout" else [] if kind in ("empty", "norows") else [(k, kind)]
        acc.case(name, f"{len(want)} {len(errors)}")
        acc.step(len(kinds))
        if failing and not errors:
            acc.violate(f"{name}: lost error", f"{name}: the error of a query is lost")
        if errors and not failing:
            acc.violate(f"{name}: fails", f"{name}: {brief(errors[0])}")
        if results != want and not failing:
            acc.violate(f"{name}: results", f"{name}: results {results}, expected {want}")
        if any(q not in want or want[q] != r for q, r in results.items()):
            acc.violate(f"{name}: wrong results", f"{name}: results {results}, expected at most {want}")
        if dict(called) != results or len(called) != len(results):
            acc.violate(f"{name}: callbacks", f"{name}: callbacks {called}, results {results}")
        if limit and any(t not in (f"{limit}s", f"{limit}000", f"{limit}000ms") for t in seen["timeouts"]):
            acc.violate(f"{name}: limit", f"{name}: limits {seen['timeouts']}")
        if not all(c.autocommit for c in seen["connections"]):
            acc.violate(f"{name}: autocommit", f"{name}: connections are not in autocommit mode")
    finally:
        psycopg.connect = saved


def parallel(c):
    def cases():
        for n in range(0, 5 if c.thorough else 4):
            for kinds in itertools.product(("rows", "empty", "timeout", "norows", "error", "cancel"), repeat=n):
                for threads in range(1, n + 2):
                    for order in itertools.permutations(range(n)):
                        # with t threads, the first t unfinished queries are active
                        left = list(range(n))
                        for k in order:
                            if k not in left[:threads]:
                                break
                            left.remove(k)
                        else:
                            yield kinds, order, threads, "query" if len(kinds) == 2 else "text", 5 if "timeout" in kinds else None

    def fn(acc, i, n):
        for case in sliced(cases(), i, n):
            parallel_case(acc, *case)
    return fn


def main(c):
    c.part("Postgres schedules", postgres(c))
    c.part("cached results", cached)
    c.part("DuckDB", duck(c))
    c.part("DuckDB engine", duck_real)
    c.part("parallel queries", parallel(c))
    c.finish()


main(Check("P25", "model_checking",
           "every (scenario, schedule) pair of the timeout executor; every history of DuckDB queries with scripted reactions to the interrupt; every order in "
           "which parallel queries end; all are non-trivial and distinct by scenario, schedule and history"))
