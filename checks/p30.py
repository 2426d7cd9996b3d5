"""P30: server settings, sessions, connection details, database values and data shifts are exactly what was asked for."""
import copy
import datetime
import itertools
import json
import os
import pickle
import re
import shutil
import tempfile
import warnings
from pathlib import Path
from unittest import mock

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import psycopg  # noqa: E402
import psycopg.adapt  # noqa: E402
import psycopg.conninfo  # noqa: E402

import postbound as pb  # noqa: E402
from postbound import ColumnReference, TableReference, mysql, postgres  # noqa: E402
from postbound.db import DatabasePool  # noqa: E402
from postbound.postgres import PostgresConfiguration, PostgresInterface, PostgresSetting, WorkloadShifter  # noqa: E402
from postbound.util import StateError  # noqa: E402

# -- the server ------------------------------------------------------------------------------------------------------------------
# the settings of Postgres 16 in the categories "resource consumption", "query planning" and "automatic vacuuming" (chapters 20.4, 20.7 and 20.10 of the manual)
SESSION = """temp_buffers work_mem hash_mem_multiplier maintenance_work_mem vacuum_buffer_usage_limit logical_decoding_work_mem max_stack_depth temp_file_limit vacuum_cost_delay vacuum_cost_page_hit
vacuum_cost_page_miss vacuum_cost_page_dirty vacuum_cost_limit backend_flush_after effective_io_concurrency maintenance_io_concurrency max_parallel_workers_per_gather max_parallel_maintenance_workers
max_parallel_workers parallel_leader_participation enable_async_append enable_bitmapscan enable_gathermerge enable_hashagg enable_hashjoin enable_incremental_sort enable_indexscan enable_indexonlyscan
enable_material enable_memoize enable_mergejoin enable_nestloop enable_parallel_append enable_parallel_hash enable_partition_pruning enable_partitionwise_join enable_partitionwise_aggregate
enable_presorted_aggregate enable_seqscan enable_sort enable_tidscan seq_page_cost random_page_cost cpu_tuple_cost cpu_index_tuple_cost cpu_operator_cost parallel_setup_cost parallel_tuple_cost
min_parallel_table_scan_size min_parallel_index_scan_size effective_cache_size jit_above_cost jit_inline_above_cost jit_optimize_above_cost geqo geqo_threshold geqo_effort geqo_pool_size geqo_generations
geqo_selection_bias geqo_seed default_statistics_target constraint_exclusion cursor_tuple_fraction from_collapse_limit jit join_collapse_limit plan_cache_mode recursive_worktable_factor""".split()
FIXED = """shared_buffers huge_pages huge_page_size max_prepared_transactions autovacuum_work_mem shared_memory_type dynamic_shared_memory_type min_dynamic_shared_memory max_files_per_process bgwriter_delay
bgwriter_lru_maxpages bgwriter_lru_multiplier bgwriter_flush_after max_worker_processes old_snapshot_threshold autovacuum autovacuum_max_workers autovacuum_naptime autovacuum_vacuum_threshold
autovacuum_vacuum_insert_threshold autovacuum_analyze_threshold autovacuum_vacuum_scale_factor autovacuum_vacuum_insert_scale_factor autovacuum_analyze_scale_factor autovacuum_freeze_max_age
autovacuum_multixact_freeze_max_age autovacuum_vacuum_cost_delay autovacuum_vacuum_cost_limit""".split()
OTHER = ["log_statement", "port", "search_path", "listen_addresses"]
SET = re.compile(r"\s*SET\s+(\w+)\s*(?:=|TO)\s*'((?:[^']|'')*)'\s*;?", re.I)


class Session:
    """one connection to the fake server; it knows just as much SQL as the interface needs"""
    log: list = []
    settings: dict = {}
    extensions: list = []
    indexes: dict = {}

    def __init__(self, conninfo="", **kwargs):
        self.conninfo, self.kwargs = conninfo, kwargs
        self.gucs = {g: f"{g}-default" for g in SESSION + FIXED + OTHER} | {"enable_pglab": "on"} | Session.settings
        self.adapters = psycopg.adapt.AdaptersMap(psycopg.adapters)
        self.closed, self.sent, self.rows, self.rowcount = False, [], None, -1
        self.pid = len(Session.log) + 100
        self.autocommit = False
        Session.log.append(self)

    @property
    def info(self):
        s = self

        class Info:
            backend_pid = s.pid
            status = psycopg.pq.ConnStatus.BAD if s.closed else psycopg.pq.ConnStatus.OK
        return Info

    def cursor(self):
        if self.closed:
            raise psycopg.OperationalError("the connection is closed")
        return self

    def execute(self, query, params=None):
        if self.closed:
            raise psycopg.OperationalError("the connection is closed")
        if not isinstance(query, str):
            raise TypeError(f"cannot execute {type(query)}")
        self.sent.append((str(query), params))
        text = str(query).strip()
        if m := re.fullmatch(r"SHOW (\w+);?", text, re.I):
            self.rows = [(self.gucs[m.group(1)],)]
        elif text.lower().startswith("select name, setting from pg_settings"):
            self.rows = sorted(self.gucs.items())
        elif "pg_extension" in text:
            self.rows = [(e,) for e in Session.extensions]
        elif "pg_index" in text:
            self.rows = list(Session.indexes.get(params[0], []))
        elif "current_database" in text.lower():
            self.rows = [("base",)]
        elif "version()" in text.lower():
            self.rows = [("PostgreSQL 16.2 on x86",)]
        elif text[:3].upper() == "SET":
            pos = 0
            changes = []
            while pos < len(text):
                m = SET.match(text, pos)
                if not m:
                    raise psycopg.errors.SyntaxError(f"syntax error at {text[pos:]!r}")
                name = m.group(1).lower()
                if name in FIXED or name in ("port", "listen_addresses"):
                    raise psycopg.errors.CantChangeRuntimeParam(name)
                if name not in self.gucs:
                    raise psycopg.errors.UndefinedObject(name)
                changes.append((name, m.group(2).replace("''", "'")))
                pos = m.end()
            self.gucs.update(changes)
            self.rows = None
        elif not text:
            self.rows = None
        else:
            self.rows = [(None,)]
        self.rowcount = -1 if self.rows is None else len(self.rows)
        return self

    def fetchall(self):
        return self.rows

    def fetchone(self):
        return self.rows[0]

    def close(self):
        pass

    def cancel_safe(self, *a, **kw):
        pass

    def cancel(self):
        pass

    def rollback(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class Connection(Session):
    """separates the cursor from the connection, as far as closing is concerned"""

    def cursor(self):
        if self.closed:
            raise psycopg.OperationalError("the connection is closed")
        s = self

        class Cursor:
            def __getattr__(self, name):
                return getattr(s, name)

            def close(self):
                pass
        return Cursor()

    def close(self):
        self.closed = True


class Server:
    """patches psycopg, so that every connection goes to the fake server"""

    def __init__(self, **settings):
        self.settings = settings

    def __enter__(self):
        Session.log, Session.settings = [], self.settings
        self.patch = mock.patch.object(psycopg, "connect", lambda conninfo="", **kw: Connection(conninfo, **kw))
        self.patch.start()
        return Session.log

    def __exit__(self, *exc):
        self.patch.stop()
        return False


# -- part 1: the configuration is an immutable ordered mapping (apart from item assignment) that doubles as its SQL text -----------

def shown(v):
    return "on" if v is True else "off" if v is False else str(v)


def text(model):
    return "\n".join(f"SET {k} = '{shown(v)}';" for k, v in model)


def put(model, *items):
    model = dict(model)
    model.update(items)
    return tuple(model.items())


def operations():
    vals = (True, "4MB")
    for n in ("geqo", "work_mem"):
        for v in vals:
            yield f"add({n!r}, {v!r})", lambda c, n=n, v=v: c.add(n, v), lambda m, n=n, v=v: put(m, (n, v))
            yield f"add(setting {n}={v!r})", lambda c, n=n, v=v: c.add(PostgresSetting(n, v)), lambda m, n=n, v=v: put(m, (n, v))
            yield f"add({n}={v!r})", lambda c, n=n, v=v: c.add(**{n: v}), lambda m, n=n, v=v: put(m, (n, v))
            yield f"update({n!r}, {v!r})", lambda c, n=n, v=v: c.update(n, v), lambda m, n=n, v=v: put(m, (n, v))
            yield f"update(setting {n}, {v!r})", lambda c, n=n, v=v: c.update(PostgresSetting(n, 7), v), lambda m, n=n, v=v: put(m, (n, v))
            yield f"[{n!r}] = {v!r}", lambda c, n=n, v=v: c.__setitem__(n, v) or c, lambda m, n=n, v=v: put(m, (n, v))
        yield f"[{n!r}] = setting", lambda c, n=n: c.__setitem__(n, PostgresSetting(n, 9)) or c, lambda m, n=n: put(m, (n, 9))
        yield f"remove({n!r})", lambda c, n=n: c.remove(n), lambda m, n=n: tuple(x for x in m if x[0] != n)
        yield f"remove(setting {n})", lambda c, n=n: c.remove(PostgresSetting(n, 1)), lambda m, n=n: tuple(x for x in m if x[0] != n)
    yield "add(jit=, geqo=)", lambda c: c.add(jit=0.5, geqo=False), lambda m: put(m, ("jit", 0.5), ("geqo", False))
    yield "load", lambda c: PostgresConfiguration.load(*c.settings, jit=1), lambda m: put(m, ("jit", 1))
    yield "rebuild", lambda c: PostgresConfiguration(s.update(s.value) for s in c.settings), lambda m: m
    yield "copy", copy.copy, lambda m: m
    yield "deepcopy", copy.deepcopy, lambda m: m
    yield "pickle", lambda c: pickle.loads(pickle.dumps(c)), lambda m: m


def looks(acc, c, model, hist):
    bad = []

    def see(what, f, want):
        try:
            got = f()
        except Exception as e:  # noqa: BLE001
            got = short(e)
        if got != want:
            bad.append((what, got, want))
    t = text(model)
    see("settings", lambda: [(type(s) is PostgresSetting, s.parameter, s.value, str(s)) for s in c.settings], [(True, k, v, f"SET {k} = '{shown(v)}';") for k, v in model])
    see("parameters", lambda: list(c.parameters()), [k for k, _ in model])
    see("as_dict", lambda: list(c.as_dict().items()), list(model))
    see("as_dict types", lambda: [type(v) for v in c.as_dict().values()], [type(v) for _, v in model])
    see("text", lambda: str(c), t)
    see("items", lambda: [(c[k].parameter, c[k].value) for k, _ in model], list(model))
    for what, f in (("length", len), ("upper", lambda s: str(s.upper())), ("characters", lambda s: [str(s[i]) for i in range(min(3, len(s)))]), ("slice", lambda s: str(s[1:5])), ("concatenation", lambda s: str(s + "x")),
                    ("reversed concatenation", lambda s: str("x" + s)), ("repetition", lambda s: str(s * 2)), ("lines", lambda s: list(s.splitlines())), ("containment", lambda s: "geqo" in s), ("prefix", lambda s: s.startswith("SET")),
                    ("replace", lambda s: str(s.replace("SET", "RESET"))), ("hash", hash), ("iteration", lambda s: [str(x) for x in s]), ("strip", lambda s: str(s.strip()))):
        see(what, lambda: f(c), f(t))
    see("equality", lambda: (c == t, c == t + "x", c == PostgresConfiguration(PostgresSetting(k, v) for k, v in model)), (True, False, True))
    see("missing item", lambda: [k in c.as_dict() for k in ("nope",)], [False])
    for what, got, want in bad:
        acc.violate(f"configuration after {hist[-1].split('(')[0].split(' ')[0].split('=')[0]}: {what}", f"{hist}: {str(got)[:200]} instead of {str(want)[:200]}")
    return not bad


def p_config(acc, idx, n, depth):
    ops = list(operations())
    for first in sliced([(nm, f, g) for nm, f, g in ops], idx, n):
        for rest in itertools.product(ops, repeat=depth - 1):
            c, model = PostgresConfiguration.load(PostgresSetting("jit", "off")), (("jit", "off"),)
            hist = []
            past = []
            for nm, f, g in (first,) + rest:
                hist.append(nm)
                acc.step()
                old, before = c, model
                try:
                    c = f(c)
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"configuration: {nm.split('(')[0]} raises {type(e).__name__}", f"{hist}: {short(e)}")
                    break
                model = g(model)
                if nm.startswith("["):
                    past = [p for p in past if p[0] is not c]
                else:
                    past.append((old, before))
                    if c is old:
                        acc.violate(f"configuration: {nm.split('(')[0]} returns the same object", str(hist))
                if not isinstance(c, PostgresConfiguration):
                    acc.violate(f"configuration: {nm.split('(')[0]} returns a {type(c).__name__}", str(hist))
                    break
            else:
                acc.case(tuple(hist), len(model))
                looks(acc, c, model, hist)
                for o, m in past:
                    if str(o) != text(m) or [(s.parameter, s.value) for s in o.settings] != list(m):
                        acc.violate(f"configuration: {hist[-1].split('(')[0]} modifies an older one", f"{hist}: {o!r}")


def p_setting(acc, idx, n):
    for v, w in sliced(list(itertools.product((True, False, "on", "4MB", 3, 0.5, "it's", "", "a, b", '"$user", public', "''"), repeat=2)), idx, n):
        for via in ("direct", "update", "copy", "pickle"):
            acc.case((via, repr(v), repr(w)), via)
            acc.step()
            try:
                s = PostgresSetting("search_path", v)
                if via == "update":
                    old, s = s, s.update(w)
                    if old.value != v or str(old) != str(PostgresSetting("search_path", v)):
                        acc.violate("setting: update modifies the original", f"{old}")
                elif via == "copy":
                    s = copy.deepcopy(copy.copy(s))
                elif via == "pickle":
                    s = pickle.loads(pickle.dumps(s))
                val = w if via == "update" else v
                ok = isinstance(s, PostgresSetting) and isinstance(s, str) and s.parameter == "search_path" and s.value == val and type(s.value) is type(val)
                with Server() as log:
                    db = PostgresInterface("dbname=x")
                    db.cursor().execute(s)
                    got = log[0].gucs["search_path"]
                match s:
                    case PostgresSetting(p, x):
                        ok = ok and (p, x) == ("search_path", val)
                    case _:
                        ok = False
                if not ok or got != shown(val):
                    acc.violate(f"setting ({via})", f"{s!r} for {val!r}: the server sets {got!r}")
            except Exception as e:  # noqa: BLE001
                acc.violate(f"setting ({via}): raises {type(e).__name__}", f"{v!r} {w!r}: {short(e)}")


# -- part 2: settings reach the server --------------------------------------------------------------------------------------------

def p_apply(acc, idx, n, size):
    pool = ["geqo", "work_mem", "enable_nestloop", "shared_buffers", "autovacuum", "log_statement"]
    jobs = [(k, names) for k in range(size + 1) for names in itertools.permutations(pool, k)] + [(1, (g,)) for g in SESSION + FIXED]
    for k, names in sliced(jobs, idx, n):
        for form in ("configuration", "setting", "text", "configuration text"):
            if k != 1 and form in ("setting", "text"):
                continue
            cfg = PostgresConfiguration([PostgresSetting(g, f"v{i}") for i, g in enumerate(names)])
            arg = {"configuration": cfg, "setting": cfg.settings[0] if names else None, "text": str(cfg.settings[0]) if names else "", "configuration text": str(cfg)}[form]
            acc.case((form, names), form)
            acc.step()
            with Server() as log:
                db = PostgresInterface("dbname=x")
                before = dict(log[0].gucs)
                raw = "text" in form
                want = dict(before)
                refused = False
                for i, g in enumerate(names):
                    if g in SESSION or (raw and g == "log_statement"):
                        want[g] = f"v{i}"
                    elif raw:
                        refused = True
                if refused:
                    want = before
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    try:
                        db.apply_configuration(arg)
                    except psycopg.Error as e:
                        if not refused:
                            acc.violate(f"apply_configuration({form}): raises {type(e).__name__}", f"{names}: {short(e)}")
                            continue
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"apply_configuration({form}): raises {type(e).__name__}", f"{names}: {short(e)}")
                        continue
                if log[0].gucs != want:
                    acc.violate(f"apply_configuration({form})", f"{names}: changes {[(g, v, want[g]) for g, v in log[0].gucs.items() if v != want[g]]}")
                skipped = [g for g in names if g not in SESSION]
                if not raw and bool(skipped) != bool(ws) or not raw and not all(g in " ".join(str(w.message) for w in ws) for g in skipped):
                    acc.violate(f"apply_configuration({form}): warning", f"{names}: {[str(w.message) for w in ws]}")
                for only in (False, True):
                    got = db.current_configuration(runtime_changeable_only=only)
                    expected = {g: v for g, v in log[0].gucs.items() if g in SESSION or (not only and g in FIXED)}
                    if not isinstance(got, PostgresConfiguration) or {s.parameter: s.value for s in got.settings} != expected:
                        diff = set({s.parameter: s.value for s in got.settings}.items()) ^ set(expected.items())
                        acc.violate(f"current_configuration({only})", f"{names}: differs in {sorted(diff)[:6]}")
                for g in names:
                    if db.config[g] != log[0].gucs[g]:
                        acc.violate("config[]", f"{g}: {db.config[g]}")
                # what was read can be transferred to another session
                snapshot = db.current_configuration(runtime_changeable_only=True)
                other = PostgresInterface("dbname=y")
                try:
                    other.apply_configuration(snapshot)
                    if any(log[1].gucs[g] != log[0].gucs[g] for g in SESSION) or any(log[1].gucs[g] != before[g] for g in FIXED + OTHER):
                        acc.violate("configuration transfer", f"{names}")
                except Exception as e:  # noqa: BLE001
                    acc.violate("configuration transfer: raises", f"{names}: {short(e)}")


# -- part 3: connections and the pool ----------------------------------------------------------------------------------------------

def p_pool(acc, idx, n, depth):
    names = ("a", "b")
    ops = [("connect", nm, r, p) for nm in names for r in (False, True) for p in (False, True)] + [("close", nm) for nm in names] + [("drop", nm) for nm in names] + [("reset", nm) for nm in names] + [("clear",)]
    for seq in sliced(list(itertools.product(ops, repeat=depth)), idx, n):
        acc.case(seq, "sequence")
        with Server() as log:
            pool = DatabasePool.get_instance()
            pool.clear()
            model, alive = {}, {}
            for i, op in enumerate(seq):
                acc.step()
                hist = seq[:i + 1]
                try:
                    if op[0] == "connect":
                        _, nm, refresh, private = op
                        n_before = len(log)
                        db = postgres.connect(name=nm, application_name=f"app{i}", connect_string=f" dbname={nm}{i} ", refresh=refresh, private=private, encoding="LATIN1", cache_enabled=bool(i % 2))
                        if nm in model and not refresh:
                            if db is not model[nm]:
                                acc.violate("connect: pooled connection not reused", str(hist))
                            if len(log) != n_before + (0 if alive[id(db)] else 1):
                                acc.violate("connect: sessions opened on reuse", f"{hist}: {len(log) - n_before}")
                        else:
                            if any(db is d for d in model.values()) or len(log) != n_before + 1 or log[-1].conninfo != f"dbname={nm}{i}" or db.connect_string != f"dbname={nm}{i}":
                                acc.violate("connect: not a new connection", f"{hist}: {[s.conninfo for s in log]}")
                            if log[-1].kwargs.get("application_name") != f"app{i}" or log[-1].kwargs.get("client_encoding") != "LATIN1" or db.cache_enabled != bool(i % 2) or db.database_system_name() != nm:
                                acc.violate("connect: parameters", f"{hist}: {log[-1].kwargs} {db.cache_enabled} {db.database_system_name()}")
                            if not private:
                                key, j = nm, 2
                                while key in model:
                                    key, j = f"{nm} - {j}", j + 1
                                model[key] = db
                        alive[id(db)] = True
                        if db.connection().closed or not db.connection().autocommit:
                            acc.violate("connect: provides an unusable session", str(hist))
                        if db.execute_query("SHOW geqo;") != "geqo-default":
                            acc.violate("connect: session does not answer", str(hist))
                        if not any("infinity" in str(v) for v in (dumped(db.connection(), datetime.date.max),)):
                            acc.violate("connect: value conversion is missing", str(hist))
                    elif op[0] == "close" and op[1] in model:
                        model[op[1]].close()
                        alive[id(model[op[1]])] = False
                        if not model[op[1]].connection().closed:
                            acc.violate("close: session remains open", str(hist))
                    elif op[0] == "drop" and op[1] in model:
                        model[op[1]].connection().closed = True
                        alive[id(model[op[1]])] = False
                    elif op[0] == "reset" and op[1] in model:
                        db, old = model[op[1]], model[op[1]].connection()
                        pid = db.reset_connection()
                        alive[id(db)] = True
                        if not old.closed or db.connection() is old or pid != db.connection().pid or db.backend_pid() != pid or log[-1].conninfo != old.conninfo or log[-1].kwargs != old.kwargs:
                            acc.violate("reset_connection", f"{hist}: {old.closed} {pid}")
                    elif op[0] == "clear":
                        pool.clear()
                        model = {}
                    state = (pool.n_databases(), pool.empty(), [k in pool for k in ("a", "b", "a - 2", "a - 3", "b - 2", "c")])
                    expected = (len(model), not model, [k in model for k in ("a", "b", "a - 2", "a - 3", "b - 2", "c")])
                    if state != expected or any(pool.retrieve_database(k) is not d for k, d in model.items()):
                        acc.violate("pool state", f"{hist}: {state} instead of {expected}")
                    for f, ok in ((pool.current_database, len(model) == 1), (pool.any_database, len(model) > 0), (pb.db.current_database, len(model) == 1)):
                        try:
                            d = f()
                            if not ok or d not in list(model.values()):
                                acc.violate(f"pool: {f.__name__}", f"{hist}: provides {d} for {model}")
                        except ValueError:
                            if ok:
                                acc.violate(f"pool: {f.__name__} raises", f"{hist}: {model}")
                    try:
                        pool.retrieve_database("c")
                        acc.violate("pool: unknown databases", str(hist))
                    except KeyError:
                        pass
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"{op[0]}: raises {type(e).__name__}", f"{hist}: {short(e)}")
                    break
            pool.clear()


# -- part 4: connection details -------------------------------------------------------------------------------------------------------

def write_config(path: Path, fmt, params, section):
    if fmt == "":
        path.write_text(psycopg.conninfo.make_conninfo("", **params) + "\n")
    elif fmt == ".json":
        path.write_text(json.dumps(params))
    elif fmt == ".toml":
        path.write_text("\n".join(f"{k} = {v}" if isinstance(v, int) else f"{k} = {json.dumps(v)}" for k, v in params.items()))
    else:
        path.write_text(f"[{section}]\n" + "\n".join(f"{k} = {v}" for k, v in params.items()))


def p_config_files(acc, idx, n):
    values = ["secret", "two words", "it's", "back\\slash", "50%", "%(user)s", "a=b", "p#q", "semi;colon", 'dou"ble', "\\'", "ümlaut"]
    sets = [{"dbname": "imdb"}, {"dbname": "imdb", "host": "localhost", "port": 5432}] + [{"dbname": "imdb", "user": "me", "password": v} for v in values] + [{"password": v, "dbname": w} for v in values for w in values[:4]]
    root = Path(tempfile.mkdtemp(prefix="p30-"))
    cwd = os.getcwd()
    try:
        for params, fmt, source in sliced(list(itertools.product(sets, ("", ".json", ".toml", ".ini", ".JSON", "env"), ("file", "path", "default"))), idx, n):
            if source == "default" and fmt not in ("", "env"):
                continue
            if fmt == "env" and source != "default":
                continue
            acc.case((repr(params), fmt, source), fmt)
            acc.step()
            work = Path(tempfile.mkdtemp(dir=root))
            os.chdir(work)
            want = {k: str(v) for k, v in params.items()}
            env = {}
            with mock.patch.dict(os.environ, {}):
                for k in list(os.environ):
                    if k.startswith("PG"):
                        del os.environ[k]
                try:
                    with Server() as log, warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        kw = {}
                        if fmt == "env":
                            env = {{"dbname": "PGDATABASE"}.get(k, f"PG{k.upper()}"): str(v) for k, v in params.items()}
                            os.environ.update(env)
                        else:
                            f = work / (".psycopg_connection" if source == "default" else f"conf{fmt}")
                            write_config(f, fmt.lower(), params, "database")
                            if source != "default":
                                kw["config_file"] = f if source == "path" else f.name
                        db = postgres.connect(name="x", private=True, **kw)
                        got = psycopg.conninfo.conninfo_to_dict(log[0].conninfo)
                        if got != want or db.connect_string != log[0].conninfo:
                            acc.violate(f"connection details ({fmt or 'plain'}): wrong", f"{params}: {log[0].conninfo!r}")
                        if (fmt == "env") != any("environment" in str(w.message) for w in ws):
                            acc.violate(f"connection details ({fmt or 'plain'}): warning", f"{params}: {[str(w.message) for w in ws]}")
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"connection details ({fmt or 'plain'}): raises {type(e).__name__}", f"{params}: {short(e)}")
            os.chdir(cwd)
            shutil.rmtree(work)
        # which of the sources applies
        for given, conf, default, environ in sliced(list(itertools.product((False, True), (None, "present", "missing", "malformed", "unknown"), (False, True), (False, True))), idx, n):
            acc.case(("precedence", given, conf, default, environ), "precedence")
            acc.step()
            work = Path(tempfile.mkdtemp(dir=root))
            os.chdir(work)
            with mock.patch.dict(os.environ, {}):
                for k in list(os.environ):
                    if k.startswith("PG"):
                        del os.environ[k]
                if environ:
                    os.environ["PGDATABASE"] = "environ"
                if default:
                    (work / ".psycopg_connection").write_text("dbname=default")
                kw = {"connect_string": "dbname=given"} if given else {}
                if conf:
                    kw["config_file"] = "c.ini" if conf != "unknown" else "c.xyz"
                if conf == "present":
                    (work / "c.ini").write_text("[x]\ndbname = conf\n")
                elif conf == "malformed":
                    (work / "c.ini").write_text("[x]\ndbname = conf\n[y]\ndbname = other\n")
                elif conf == "unknown":
                    (work / "c.xyz").write_text("dbname = conf")
                want = "given" if given else {"present": "conf"}.get(conf, "error") if conf else "default" if default else "environ" if environ else "error"
                try:
                    with Server() as log:
                        postgres.connect(name="x", private=True, **kw)
                        got = psycopg.conninfo.conninfo_to_dict(log[0].conninfo)
                    got = got.get("dbname") if len(got) == 1 else got
                except ValueError:
                    got = "error"
                except Exception as e:  # noqa: BLE001
                    got = short(e)
                if got != want:
                    acc.violate(f"connection source: {got} instead of {want}", f"given {given}, config {conf}, default {default}, environ {environ}")
            os.chdir(cwd)
            shutil.rmtree(work)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


# -- MySQL ----------------------------------------------------------------------------------------------------------------------------
class MyCursor:
    """rows have to be read before the next statement is sent, unless the cursor buffers them"""

    def __init__(self, cnx, buffered):
        self.cnx, self.buffered, self.open, self.rows = cnx, buffered, True, []

    def execute(self, query, *a, **k):
        if not self.open or not self.cnx.open:
            raise mysql.mysql.connector.errors.ProgrammingError("Cursor is not connected")
        if self.cnx.unread is not None and self.cnx.unread.rows and not self.cnx.unread.buffered:
            raise mysql.mysql.connector.errors.InternalError("Unread result found")
        self.rows = [("x",), ("y",), ("z",)] if "FROM t" in str(query) else [("ANSI",)]
        self.cnx.unread = self

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        out, self.rows = self.rows, []
        return out

    def close(self):
        if self.rows and not self.buffered:
            raise mysql.mysql.connector.errors.InternalError("Unread result found")
        self.open = False


class MyConnection:
    def __init__(self, **kw):
        self.kw, self.open, self.unread = kw, True, None

    def cursor(self, buffered=None, **kw):
        return MyCursor(self, bool(buffered))

    def cmd_reset_connection(self):
        if not self.open:
            raise mysql.mysql.connector.errors.OperationalError("MySQL Connection not available")
        self.unread = None

    def close(self):
        self.open = False


def p_mysql(acc, idx, n, depth):
    options = {"Password": (None, "secret", "50%", "%(user)s", "a=b"), "Host": (None, "db"), "Port": (None, "3307"), "UseUnicode": (None, "true", "no"), "Charset": (None, "latin1"), "AutoCommit": (None, "yes", "false"), "SqlMode": (None, "ANSI,TRADITIONAL")}
    names = {"Password": "password", "Host": "host", "Port": "port", "UseUnicode": "use_unicode", "Charset": "charset", "AutoCommit": "autocommit", "SqlMode": "sql_mode"}
    default = {"user": "u", "database": "d", "password": "", "host": "127.0.0.1", "port": 3306, "use_unicode": True, "charset": "utf8mb4", "autocommit": True, "sql_mode": "ANSI"}
    root = Path(tempfile.mkdtemp(prefix="p30-"))
    cwd = os.getcwd()
    os.chdir(root)
    made = []
    try:
        with mock.patch.object(mysql.mysql.connector, "connect", lambda **kw: made.append(MyConnection(**kw)) or made[-1]), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for vals in sliced(list(itertools.product(*options.values())), idx, n):
                acc.case(("MySQL details", vals), "MySQL details")
                acc.step()
                given = {k: v for k, v in zip(options, vals) if v is not None}
                (root / "my.config").write_text("[MYSQL]\nUser = u\nDatabase = d\n" + "".join(f"{k} = {v}\n" for k, v in given.items()))
                want = default | {names[k]: int(v) if k == "Port" else v in ("yes", "true") if v in ("yes", "true", "no", "false") else v for k, v in given.items()}
                try:
                    mysql.connect(config_file="my.config", private=True)
                    got = made[-1].kw | {"port": int(made[-1].kw["port"])}
                    if {k: got.get(k) for k in want} != want:
                        acc.violate("MySQL connection details", f"{given}: {got}")
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"MySQL connection details: raises {type(e).__name__} {'AutoCommit' in given}", f"{given}: {short(e)}")
            ops = ["query", "one", "mode", "reset", "other"]
            for h in sliced([h for k in range(1, depth + 2) for h in itertools.product(ops, repeat=k)], idx, n):
                acc.case(("MySQL session", h), "MySQL session")
                try:
                    pool = DatabasePool.get_instance()
                    pool.clear()
                    args = mysql.MysqlConnectionArguments("u", "d")
                    db = mysql.connect(connection_args=args, name="m", private=False)
                    if pool.retrieve_database("m") is not db:
                        acc.violate("MySQL session is not registered", h)
                    for op in h:
                        acc.step()
                        if op == "query" and db.execute_query("SELECT * FROM t") != ["x", "y", "z"]:
                            acc.violate("MySQL session: result", h)
                        elif op == "one":
                            cur = db.cursor()
                            cur.execute("SELECT * FROM t")
                            cur.fetchone()
                        elif op == "mode" and db.server_mode() != "ANSI":
                            acc.violate("MySQL session: mode", h)
                        elif op == "reset":
                            db.reset_connection()
                        elif op == "other":
                            mysql.connect(connection_args=args, name="o", private=True)
                    if pool.retrieve_database("m") is not db or "o" in list(getattr(pool, "_pool", {})):
                        acc.violate("MySQL session: pool", h)
                    db.close()
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"MySQL session: raises {type(e).__name__}", f"{h}: {short(e)}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


# -- part 4c: DuckDB connections (the real engine on a scratch file) ---------------------------------------------------------------

DUCK_OPS = ["insert", "query", "raw", "object", "prepared", "timed", "timeout", "quick", "error", "begin", "rollback", "commit", "reset", "reconnect", "close", "name", "version"]
SLOW = "SELECT count(*) FROM range(100000) a, range(100000) b WHERE (a.range * b.range) % 7 = 1"


def duck_play(db, h, acc, quacklab):
    rows, kept, open_tx, dead = [1], [1], False, False
    query = pb.parse_query("SELECT r.a FROM r ORDER BY r.a")
    lost = False  # after an error within a transaction only a rollback is possible
    for op in h:
        acc.step()
        if op in ("reset", "reconnect", "close"):
            {"reset": db.reset_connection, "reconnect": db.reconnect, "close": db.close}[op]()
            rows, open_tx, lost, dead = list(kept), False, False, op == "close"
            continue
        want, got = None, None
        simple = rows[0] if len(rows) == 1 else list(rows)
        tuples = [(r,) for r in rows]
        try:
            if op == "insert":
                want, got = 1, db.execute_query("INSERT INTO r SELECT max(a) + 1 FROM r")
                rows = rows + [rows[-1] + 1]
                kept = kept if open_tx else list(rows)
            elif op == "query":
                want, got = simple, db.execute_query("SELECT a FROM r ORDER BY a")
            elif op == "raw":
                want, got = tuples, db.execute_query("SELECT a FROM r ORDER BY a", raw=True)
            elif op == "object":
                want, got = simple, db.execute_query(query)
            elif op == "prepared":
                hinted = pb.transform.add_clause(query, pb.qal.Hint("SET threads = 3;", ""))
                want, got = (simple, 3), (db.execute_query(hinted), db.execute_query("SELECT current_setting('threads')"))
                if str(hinted) == str(query):
                    return "the hinted query lost its hint"
            elif op == "timed":
                t = db.time_query(query)
                want, got = True, 0 <= t < 600 and t == db.last_query_runtime()
            elif op == "quick":
                want, got = (tuples, simple), (db.execute_with_timeout(query, timeout=300), db.execute_query(query, timeout=300))
            elif op == "timeout":
                want = TimeoutError
                try:
                    got = db.execute_query(SLOW, timeout=0.02)
                except TimeoutError:
                    got = TimeoutError
                if not dead and not lost and db.last_query_runtime() != float("inf"):
                    return f"runtime after a timeout is {db.last_query_runtime()}"
                lost = open_tx
            elif op == "error":
                want = "error"
                db.execute_query("SELECT nope")
            elif op == "begin":
                db._cur.execute("BEGIN")
                if open_tx:
                    want = "error"
                open_tx = True
            elif op in ("rollback", "commit"):
                if not open_tx or lost and op == "commit":
                    want = "error"
                db._cur.execute(op)
                rows, open_tx, lost = list(kept) if op == "rollback" else rows, False, False
                kept = list(rows)
            elif op == "name":
                want, got = "scratch", db.database_name()
            elif op == "version":
                want, got = quacklab.__version__.split("-")[0].removeprefix("v"), str(db.database_system_version()).removeprefix("v")
                want, got = want.split(".")[:1], got.split(".")[:1]
        except quacklab.Error as e:
            got = "error"
            if op in ("rollback", "commit") and lost:
                rows, open_tx, lost = list(kept), False, False
            elif op == "error" or op == "begin":
                lost = lost or open_tx and not dead
            if dead or lost or want == "error":
                continue
            return f"{op} fails: {short(e)}"
        if dead and op != "timeout":
            return f"{op} works on a closed connection"
        if got != want and not dead and not lost:
            return f"{op}: {got!r} instead of {want!r}"
    return None


def p_duck(acc, idx, n, depth):
    import quacklab

    from postbound import duckdb

    root, cwd = Path(tempfile.mkdtemp(prefix="p30-")), os.getcwd()
    other = root / "elsewhere"  # the working directory must not matter
    other.mkdir()
    os.chdir(other)
    try:
        base = ["insert", "query", "object", "prepared", "timeout", "error", "begin", "rollback", "reset", "reconnect", "close"]
        hists = [h for k in (1, 2) for h in itertools.product(DUCK_OPS, repeat=k)] + [h for k in range(3, depth + 1) for h in itertools.product(base, repeat=k) if h[-1] not in ("reset", "close", "reconnect", "rollback", "begin")]
        for k, h in enumerate(hists):
            if k % n != idx:
                continue
            path = root / "scratch.duckdb"
            con = quacklab.connect(str(path))
            con.execute("CREATE TABLE r (a INTEGER)")
            con.execute("INSERT INTO r VALUES (1)")
            con.close()
            db = duckdb.connect(path, name="hist", private=True)
            try:
                out = duck_play(db, h, acc, quacklab)
            except Exception as e:  # noqa: BLE001
                out = f"raises {type(e).__name__}: {short(e)}"
            acc.case(("DuckDB", h), str(out))
            if out:
                acc.violate(f"DuckDB session: {out.split(':')[0]}", f"{h}: {out}")
            db.close()
            db._timeout_executor.shutdown()
            for f in [*root.iterdir(), *other.iterdir()]:
                if f != other:
                    f.unlink()
        # the pool: each connection is registered under its own key and usable
        ops = [("connect", x, r, p) for x in ("duckdb", "x") for r in (False, True) for p in (False, True)] + [("close", "duckdb"), ("close", "x")]
        for h in sliced([h for k in range(1, depth + 1) for h in itertools.product(ops, repeat=k)], idx, n):
            pool = DatabasePool.get_instance()
            pool.clear()
            want, made, out = {}, [], None
            for op in h:
                acc.step()
                if op[0] == "close":
                    if op[1] in want:
                        want[op[1]].close()
                    continue
                _, name, refresh, private = op
                known = [id(d) for d in made]
                try:
                    db = duckdb.connect(":memory:", name=name, refresh=refresh, private=private)
                except Exception as e:  # noqa: BLE001
                    out = f"connect raises {type(e).__name__}"
                    break
                made.append(db)
                if name in want and not refresh:
                    if db is not want[name]:
                        out = "the current connection is not re-used"
                elif id(db) in known:
                    out = "no new connection is established"
                elif not private:
                    key, i = name, 2
                    while key in want:
                        key, i = f"{name} - {i}", i + 1
                    want[key] = db
                if db.execute_query("SELECT 7") != 7:
                    out = "the connection is not usable"
                keys = {x: d for x, d in getattr(pool, "_pool", want).items()}
                if [d for d in keys.values()] != [d for d in want.values()] or any(keys.get(x) is not want[x] for x in ("duckdb", "x") if x in want):
                    out = "the pool does not contain exactly the registered connections"
                if any(not x.startswith(("duckdb", "x")) for x in keys):
                    out = "a connection is registered under a foreign name"
            acc.case(("DuckDB pool", h), str(out))
            if out:
                acc.violate(f"DuckDB pool: {out}", f"{h}: {out}")
            for db in made:
                db.close()
                db._timeout_executor.shutdown()
            pool.clear()
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


# -- part 5: values -------------------------------------------------------------------------------------------------------------------

class Context:
    def __init__(self, conn):
        self.adapters, self.connection = conn.adapters, None


def dumped(conn, obj):
    tx = psycopg.adapt.Transformer(Context(conn))
    return tx.dump_sequence([obj], [psycopg.adapt.PyFormat.AUTO])[0]


def p_values(acc):
    utc = datetime.timezone.utc
    ist = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
    oids = {"date": 1082, "timestamp": 1114, "timestamptz": 1184, "interval": 1186}
    with Server() as log:
        for fresh in range(2):
            db = PostgresInterface("dbname=x")
            if fresh:
                db.reset_connection()
            conn = db.connection()
            tx = psycopg.adapt.Transformer(Context(conn))
            cases = [
                ("date", b"infinity", datetime.date.max), ("date", b"-infinity", datetime.date.min), ("date", b"2024-02-29", datetime.date(2024, 2, 29)), ("date", b"10000-01-01", datetime.date.max),
                ("date", b"0001-01-02", datetime.date(1, 1, 2)), ("date", b"9999-12-30", datetime.date(9999, 12, 30)), ("date", b"294275-01-01", datetime.date.max),
                ("timestamp", b"infinity", datetime.datetime.max), ("timestamp", b"-infinity", datetime.datetime.min), ("timestamp", b"2024-02-29 10:11:12.5", datetime.datetime(2024, 2, 29, 10, 11, 12, 500000)),
                ("timestamp", b"10000-01-01 00:00:00", datetime.datetime.max), ("timestamp", b"9999-12-31 00:00:00", datetime.datetime(9999, 12, 31)), ("timestamp", b"0001-01-01 00:00:01", datetime.datetime(1, 1, 1, 0, 0, 1)),
                ("timestamptz", b"infinity", datetime.datetime.max.replace(tzinfo=utc)), ("timestamptz", b"-infinity", datetime.datetime.min.replace(tzinfo=utc)),
                ("timestamptz", b"2024-02-29 10:11:12+00", datetime.datetime(2024, 2, 29, 10, 11, 12, tzinfo=utc)), ("timestamptz", b"2024-02-29 10:11:12+05:30", datetime.datetime(2024, 2, 29, 10, 11, 12, tzinfo=ist)),
                ("timestamptz", b"10000-01-01 00:00:00+00", datetime.datetime.max.replace(tzinfo=utc)),
                ("interval", b"infinity", datetime.timedelta.max), ("interval", b"-infinity", datetime.timedelta.min),
            ]
            for typ, wire, val in cases:
                for direction in ("load", "dump", "round trip"):
                    if direction != "load" and (typ == "interval" or wire[:5] in (b"10000", b"29427")):
                        continue
                    acc.case((fresh, typ, wire, direction), typ)
                    acc.step()
                    kind = "infinity" if b"infinity" in wire else "too large" if wire[:5] in (b"10000", b"29427") else "ordinary"
                    try:
                        loader = tx.get_loader(oids[typ], psycopg.pq.Format.TEXT)
                        if direction == "load":
                            got = loader.load(wire)
                            if got != val or (getattr(got, "tzinfo", None) is None) != (getattr(val, "tzinfo", None) is None):
                                acc.violate(f"value load: {kind} {typ}", f"{wire}: {got!r} instead of {val!r}")
                        elif direction == "dump":
                            got = dumped(conn, val)
                            if kind == "infinity" and bytes(got) != wire:
                                acc.violate(f"value dump: {kind} {typ}", f"{val!r}: {bytes(got)}")
                        else:
                            got = loader.load(bytes(dumped(conn, val)))
                            if got != val:
                                acc.violate(f"value round trip: {kind} {typ}", f"{val!r}: {got!r}")
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"value {direction}: {kind} {typ} raises {type(e).__name__}", f"{wire}: {short(e)}")
            for typ, wire in (("date", b"yesterday"), ("timestamp", b"2024-99-01 00:00:00"), ("timestamptz", b"rubbish")):
                acc.case((fresh, typ, wire), "rubbish")
                try:
                    got = tx.get_loader(oids[typ], psycopg.pq.Format.TEXT).load(wire)
                    acc.violate(f"value load: rubbish {typ}", f"{wire}: {got!r}")
                except psycopg.Error:
                    pass
        del log


# -- part 6: warming up and cooling down ------------------------------------------------------------------------------------------------

def p_buffers(acc, idx, n):
    tabs = {"r": TableReference("r"), "s": TableReference("s", "x"), "t": TableReference("t"), "v": TableReference.create_virtual("v")}
    cat = {"r": [("r_pkey", True), ("r_a", False)], "s": [("s_pkey", True)], "t": [("t_a", False), ("t_b", False)]}
    jobs = list(itertools.product(("prewarm_tables", "cooldown_tables"), [c for k in range(4) for c in itertools.permutations(tabs, k)] + [("r", "r"), ("v", "v", "s")], ("list", "varargs", "set", "mixed"),
                                  (False, True), (False, True), (False, True), (False, True)))
    for fn, names, form, no_pages, primary, secondary, active in sliced(jobs, idx, n):
        if not active and (no_pages or form != "list"):
            continue
        acc.case((fn, names, form, no_pages, primary, secondary, active), fn)
        acc.step()
        ref = [tabs[x] for x in names]
        args = {"list": (ref,), "varargs": tuple(ref), "set": (frozenset(ref),), "mixed": (ref[:1], *ref[1:])}[form]
        want = {x for x in names if x != "v" and not no_pages} | {i for x in names for i, p in cat.get(x, []) if (primary if p else secondary)}
        call = "pg_" + fn.split("_")[0]
        with Server() as log:
            Session.extensions, Session.indexes = (["plpgsql", "pg_prewarm" if fn.startswith("pre") else "pg_temperature"] if active else ["plpgsql"]), cat
            db = PostgresInterface("dbname=x")
            try:
                getattr(db, fn)(*args, exclude_table_pages=no_pages, include_primary_index=primary, include_secondary_indexes=secondary)
                if not active:
                    acc.violate(f"{fn}: missing extension", f"{names}")
                sent = [re.findall(rf"{call}\('([^']+)'\)", q) for q, _ in log[0].sent]
                got = [x for s in sent for x in s]
                if set(got) != want or len(got) != len(set(got)):
                    acc.violate(f"{fn}", f"{names} {form} exclude {no_pages}, primary {primary}, secondary {secondary}: {got} instead of {sorted(want)}")
            except StateError as e:
                if active:
                    acc.violate(f"{fn}: raises StateError", f"{names}: {short(e)}")
            except Exception as e:  # noqa: BLE001
                acc.violate(f"{fn}: raises {type(e).__name__}", f"{names} {form}: {short(e)}")


# -- part 7: data shifts ------------------------------------------------------------------------------------------------------------------

class DuckServer:
    """a Postgres stand-in for the statements of the workload shifter; NULL is the largest value, as it is in Postgres"""

    db = None

    def __init__(self, rows, pk="id"):
        if DuckServer.db is None:
            import quacklab
            DuckServer.db = quacklab.connect(":memory:", config={"threads": 1})
            self.db.execute("SET default_null_order = 'nulls_last_on_asc_first_on_desc'")
            self.db.execute("CREATE SEQUENCE markers")
            self.db.execute("CREATE TABLE other (id INT, v INT)")
            self.db.execute("INSERT INTO other VALUES (1, 1), (2, 2)")
        self.pk = pk
        vals = ", ".join(f"({i}, {'NULL' if v is None else v})" for i, v in rows)
        self.db.execute(f"DROP TABLE IF EXISTS r_delete_marker; DROP TABLE IF EXISTS mk; CREATE OR REPLACE TABLE r ({pk or 'id'} INT, v INT);" + (f"INSERT INTO r VALUES {vals};" if rows else ""))
        self.vacuumed, self.autocommit = [], False

    def rows(self, table="r"):
        return sorted(self.db.execute(f"SELECT * FROM {table}").fetchall(), key=str)

    def schema(self):
        pk = self.pk

        class Schema:
            @staticmethod
            def primary_key_column(table):
                return ColumnReference(pk, TableReference(table) if isinstance(table, str) else table) if pk else None

            @staticmethod
            def datatype(column):
                return "integer"
        return Schema

    def statistics(self):
        s = self

        class Stats:
            @staticmethod
            def total_rows(table, *, emulated=None, cache_enabled=None):
                return s.db.execute(f"SELECT COUNT(*) FROM {table.full_name}").fetchone()[0]
        return Stats

    def obtain_new_local_connection(self):
        return self

    def cursor(self):
        return self

    def execute(self, q):
        if q.strip().upper().startswith("VACUUM"):
            self.vacuumed.append((q, self.autocommit))
            return
        q = re.sub(r"BERNOULLI \((\d+)\)", r"BERNOULLI (\1 PERCENT)", q).replace("BIGSERIAL PRIMARY KEY", "BIGINT DEFAULT nextval('markers')")
        self.db.execute(q)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def p_shift(acc, idx, n, size):
    vals = (None, 1, 2)
    data = [tuple((i + 1, v) for i, v in enumerate(vs)) for k in range(size + 1) for vs in itertools.product(vals, repeat=k)]
    amounts = [{"n_rows": k} for k in (1, 2, 3, 9)] + [{"row_pct": p} for p in (0.25, 0.5, 0.9)] + [{}, {"n_rows": 0}, {"n_rows": -1}, {"row_pct": 0.0}, {"row_pct": 1.0}, {"row_pct": 1.5}, {"n_rows": 1, "row_pct": 0.5}]
    for rows in sliced(data, idx, n):
        for amount in amounts:
            bad = len(amount) != 1 or amount.get("n_rows", 1) <= 0 or not 0 < amount.get("row_pct", 0.5) < 1
            cnt = None if bad else amount["n_rows"] if "n_rows" in amount else round(amount["row_pct"] * len(rows))
            for how in ["random"] + [("v", asc, nulls) for asc in (True, False) for nulls in (None, "first", "last")]:
                for pk, target in (("id", "text"), ("key", "reference"), (None, "text")):
                    if pk is None and (len(rows) > 1 or len(amount) != 1):
                        continue
                    if bad and len(rows) > 1:
                        continue
                    vac = len(rows) == 1
                    acc.case((rows, repr(amount), how, pk), how)
                    acc.step()
                    srv = DuckServer(rows, pk)
                    sh = WorkloadShifter(srv)
                    try:
                        if how == "random":
                            sh.remove_random("r" if target == "text" else TableReference("r"), **amount, vacuum=vac)
                        else:
                            col, asc, nulls = how
                            sh.remove_ordered(f"r.{col}" if target == "text" else ColumnReference(col, TableReference("r", "x")), **amount, ascending=asc, null_placement=nulls, vacuum=vac)
                    except ValueError as e:
                        if not bad and pk is not None:
                            acc.violate("shift: raises ValueError", f"{rows} {amount} {how}: {short(e)}")
                        elif srv.rows() != sorted(rows, key=str):
                            acc.violate("shift: refused, but rows are removed", f"{rows} {amount} {how}")
                        continue
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"shift: raises {type(e).__name__}", f"{rows} {amount} {how}: {short(e)}")
                        continue
                    if bad or pk is None:
                        acc.violate("shift: accepted", f"{amount} with key {pk}")
                        continue
                    left = srv.rows()
                    if how == "random":
                        ok = len(left) == max(0, len(rows) - cnt) and set(left) <= set(rows)
                    else:
                        _, asc, nulls = how
                        last = (nulls or ("last" if asc else "first")) == "last"
                        order = sorted(rows, key=lambda r: ((r[1] is None) == last, 0 if r[1] is None else r[1] if asc else -r[1], r[0]))
                        ok = left == sorted(order[cnt:], key=str)
                    if not ok:
                        acc.violate(f"shift: {'random' if how == 'random' else 'ordered'}", f"{rows} {amount} {how}: leaves {left}")
                    if srv.rows("other") != [(1, 1), (2, 2)] or bool(srv.vacuumed) != vac or any(not a for _, a in srv.vacuumed):
                        acc.violate("shift: side effects", f"{rows} {amount} {how}: {srv.rows('other')} {srv.vacuumed}")


def p_markers(acc, idx, n, depth):
    root = Path(tempfile.mkdtemp(prefix="p30-"))
    cwd = os.getcwd()
    os.chdir(root)
    try:
        ops = [("mark", 1.0), ("mark", 0.0), ("mark", 0.5), ("export",), ("import",), ("drop",), ("insert",), ("remove", False), ("remove", True)]
        for names in (({}, {}), ({"marker_table": "mk"}, {"marker_column": "mc"}), ({}, {"target_column": "v"})):
            kt, kc = names
            mt, col = kt.get("marker_table", "r_delete_marker"), kc.get("target_column", "id")
            pos = 0 if col == "id" else 1
            for seq in sliced(list(itertools.product(ops, repeat=depth)), idx, n):
                acc.case((repr(names), seq), "markers")
                rows = [(1, 10), (2, 20), (3, 10)]
                srv = DuckServer(rows)
                sh = WorkloadShifter(srv)
                marks, stored, nxt = None, None, 4
                for i, op in enumerate(seq):
                    acc.step()
                    hist = seq[:i + 1]
                    try:
                        if op[0] == "mark":
                            sh.generate_marker_table("r", op[1], **kt, **kc)
                            marks = [m for _, m in srv.rows(mt)]
                            all_ = [r[pos] for r in rows]
                            if op[1] == 1.0 and sorted(marks) != sorted(all_) or op[1] == 0.0 and marks or any(m not in all_ for m in marks):
                                acc.violate("markers: generated", f"{hist}: {marks} of {all_}")
                        elif op[0] == "export" and marks is not None:
                            sh.export_marker_table(target_table=None if kt else "r", **kt, out_file=str(root / "m.csv"))
                            stored = list(marks)
                        elif op[0] == "import" and stored is not None:
                            sh.import_marker_table(target_table="r", **kt, **kc, in_file=str(root / "m.csv"))
                            marks = list(stored)
                        elif op[0] == "drop" and marks is not None:
                            srv.db.execute(f"DROP TABLE {mt}")
                            marks = None
                        elif op[0] == "insert":
                            srv.db.execute(f"INSERT INTO r VALUES ({nxt}, 10)")
                            rows.append((nxt, 10))
                            nxt += 1
                        elif op[0] == "remove" and marks is not None:
                            sh.remove_marked("r", **kt, **kc, vacuum=op[1])
                            rows = [r for r in rows if r[pos] not in marks]
                            if bool(srv.vacuumed) != op[1]:
                                acc.violate("markers: vacuum", str(hist))
                            srv.vacuumed = []
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"markers: {op[0]} raises {type(e).__name__}", f"{hist} {names}: {short(e)}")
                        break
                    if srv.rows() != sorted(rows, key=str):
                        acc.violate(f"markers: rows after {op[0]}", f"{hist} {names}: {srv.rows()} instead of {rows}")
                        break
                    if marks is not None and sorted(m for _, m in srv.rows(mt)) != sorted(marks):
                        acc.violate(f"markers: markers after {op[0]}", f"{hist} {names}: {srv.rows(mt)} instead of {marks}")
                        break
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


def run(c: Check):
    t = c.thorough
    c.part("configurations", lambda acc, i, n: p_config(acc, i, n, 4 if t else 3))
    c.part("single settings", p_setting)
    c.part("applying settings", lambda acc, i, n: p_apply(acc, i, n, 4 if t else 3))
    c.part("sessions", lambda acc, i, n: p_pool(acc, i, n, 4 if t else 3))
    c.part("connection details", p_config_files)
    c.part("MySQL connections", lambda acc, i, n: p_mysql(acc, i, n, 4 if t else 3))
    c.part("DuckDB connections", lambda acc, i, n: p_duck(acc, i, n, 4 if t else 3))
    c.part("values", lambda acc, i, n: p_values(acc) if i == 0 else None)
    c.part("buffer contents", p_buffers)
    c.part("data shifts", lambda acc, i, n: p_shift(acc, i, n, 5 if t else 4))
    c.part("marker tables", lambda acc, i, n: p_markers(acc, i, n, 4 if t else 3))
    c.finish()


run(Check("P30", "model_checking",
          "every sequence of operations on configurations, sessions and marker tables up to a bounded length, every combination of settings, connection sources, warm-up requests and data shifts over small "
          "domains, against a scripted server; a case is distinct by its sequence of operations and arguments"))
