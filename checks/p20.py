"""P20: cached, emulated and looked-up database answers equal what the database answers itself."""
import atexit
import contextlib
import datetime
import itertools
import os
import re
import shutil
import tempfile
import types
import warnings
from pathlib import Path

import quacklab
from vlib import Check, short, sliced

import postbound as pb
from postbound import db as pbdb
from postbound import duckdb as pbduck
from postbound import mysql as pbmy
from postbound import postgres as pbpg
from postbound import qal
from postbound._core import BoundColumnReference, ColumnReference, TableReference

warnings.simplefilter("ignore")
REAL_CONNECT = quacklab.connect
KINDS = ("DuckDB", "Postgres")
CACHING = (*KINDS, "MySQL")


# ---------------------------------------------------------------- stand-ins for connections
class Cur:
    """forwards to an embedded database, counts the statements and understands both placeholder styles"""

    def __init__(self, world, con):
        self.world, self.con = world, con
        self.rowcount = -1
        self.canned = None
        self.connection = None

    def execute(self, query, parameters=None, **kw):
        query = str(query)
        self.world.statements.append(query)
        self.canned = None
        if self.world.kind == "MySQL" and (m := re.fullmatch(r"SELECT (VERSION\(\)|DATABASE\(\)|@@SESSION.SQL_MODE);?", query.strip().upper())):
            self.canned = [({"V": "8.0.36", "D": "shop", "@": "ANSI_QUOTES"}[m[1][0]],)]
        elif self.world.postgres and query.strip().upper().startswith("SELECT VERSION()"):
            self.canned = [("PostgreSQL 16.3 on x86_64",)]
        elif self.world.postgres and "pg_backend_pid" in query.lower():
            self.canned = [(4711,)]
        elif self.world.postgres and query.strip().upper().startswith("SHOW"):
            self.canned = [("on",)]
        if self.canned is not None:
            self.rowcount = 1
            return self
        if parameters is not None:
            self.con.execute(query.replace("%s", "?"), list(parameters))
        else:
            self.con.execute(query)
        if self.world.postgres and "data_type" in query.lower() and "information_schema" in query.lower():
            names = {"INTEGER": "integer", "VARCHAR": "character varying", "DATE": "date"}
            self.canned = [tuple(names.get(x, x) for x in row) for row in self.con.fetchall()]
        self.rowcount = 1 if query.strip().upper().startswith(("SELECT", "WITH", "EXPLAIN", "(")) else -1
        return self

    def fetchall(self):
        return self.canned if self.canned is not None else self.con.fetchall()

    def fetchone(self):
        return (self.canned[0] if self.canned else None) if self.canned is not None else self.con.fetchone()

    def cursor(self):
        return Cur(self.world, self.con.cursor())

    def close(self):
        pass

    def interrupt(self):
        self.con.interrupt()


class PgConnection:
    def __init__(self, world):
        self.world = world
        self.autocommit = False
        self.prepare_threshold = None
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)
        self.info = types.SimpleNamespace(backend_pid=4711)

    def cursor(self):
        return Cur(self.world, self.world.base.cursor())

    def close(self):
        pass

    def cancel(self):
        pass

    def rollback(self):
        pass


class MyConnection:
    def __init__(self, world):
        self.world = world

    def cursor(self, buffered=None, **k):
        return Cur(self.world, self.world.base.cursor())

    def close(self):
        pass

    def cmd_reset_connection(self):
        pass


class World:
    """an embedded database that outlives the interfaces that are opened on it"""

    def __init__(self, kind="DuckDB", setup=()):
        self.kind = kind
        self.postgres = kind == "Postgres"
        self.statements = []
        self.base = REAL_CONNECT(":memory:")
        for s in setup:
            self.base.execute(s)
        self.exits = []

    def direct(self, sql):
        return self.base.cursor().execute(sql).fetchall()

    @contextlib.contextmanager
    def patched(self):
        saved = (pbduck.quacklab.connect, pbpg.psycopg.connect, atexit.register, pbmy.mysql.connector.connect)
        pbmy.mysql.connector.connect = lambda *a, **k: MyConnection(self)
        pbduck.quacklab.connect = lambda *a, **k: Cur(self, self.base.cursor())
        pbpg.psycopg.connect = lambda *a, **k: PgConnection(self)
        atexit.register = lambda f, *a, **k: (self.exits.append((f, a, k)), f)[1]
        try:
            yield self
        finally:
            pbduck.quacklab.connect, pbpg.psycopg.connect, atexit.register, pbmy.mysql.connector.connect = saved

    def open(self, cache):
        if self.kind == "MySQL":
            return pbmy.MysqlInterface(pbmy.MysqlConnectionArguments("u", "shop"), cache_enabled=cache)
        if self.postgres:
            return pbpg.PostgresInterface("dbname=x", cache_enabled=cache)
        return pbduck.DuckDBInterface(Path("x.db"), cache_enabled=cache)

    def exit(self):
        """what happens at the end of the process"""
        while self.exits:
            f, a, k = self.exits.pop()
            f(*a, **k)

    def crash(self):
        self.exits.clear()

    def close(self):
        self.exits.clear()
        self.base.close()


@contextlib.contextmanager
def scratch():
    d, cwd = tempfile.mkdtemp(prefix="p20-"), os.getcwd()
    os.chdir(d)
    try:
        yield Path(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def wipe(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))


def simple(rs):
    if not rs:
        return []
    rs = list(rs)
    if len(rs[0]) == 1:
        rs = [r[0] for r in rs]
    return rs[0] if len(rs) == 1 else rs


def same(a, b):
    """equal values of equal types"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- A: the query cache as a state machine
QUERIES = ["SELECT count(*) FROM t", "SELECT t.a, t.d FROM t ORDER BY t.a", "SELECT t.a FROM t WHERE t.a > 100"]
SETUP = ["CREATE TABLE t (a INTEGER, d DATE)", "INSERT INTO t VALUES (1, DATE '2020-01-01'), (2, NULL)"]


def ops(deep):
    out = [("q", i, cache, raw) for i in (0, 1) for cache in (None, True, False) for raw in ((False,) if i == 0 else (True,))]
    out += [("q", 2, None, True), ("mut",), ("toggle", True), ("toggle", False), ("reset",)]
    out += [("exit", True), ("exit", False), ("crash", True)] + ([("crash", False)] if deep else [])
    return out


def histories(depth, deep):
    alphabet = ops(deep)
    for start in (True, False):
        for h in itertools.product(alphabet, repeat=depth):
            if h[-1][0] != "q":
                continue  # nothing is observed at the end
            if any(x[0] == y[0] == "toggle" for x, y in zip(h, h[1:])) or any(x[0] in ("reset", "mut") and x == y for x, y in zip(h, h[1:])):
                continue
            yield start, h


def play(acc, kind, start, history, d, as_object):
    wipe(d)
    w = World(kind, SETUP)
    queries = [pb.parse_query(q) if as_object else q for q in QUERIES]
    key = (kind, start, history, as_object)
    with w.patched():
        try:
            db = w.open(start)
            enabled = start
            known, persisted = {}, {}  # admissible answers in the cache of this process and on disk
            certain = set()  # queries that have to be in the cache of this process
            touched = start  # whether the cache of this process has been read from disk
            for op in history:
                if op[0] == "q":
                    _, i, cache, raw = op
                    fresh = w.direct(QUERIES[i])
                    effective = cache if cache is not None else enabled
                    n0 = len([s for s in w.statements if "FROM t" in s])
                    got = db.execute_query(queries[i], cache_enabled=cache, raw=raw)
                    n1 = len([s for s in w.statements if "FROM t" in s])
                    acc.step()
                    if effective and kind != "DuckDB" and not touched and not known:
                        touched = True
                        for k, v in persisted.items():
                            known.setdefault(k, []).extend(v)
                    pool = [fresh] + (known.get(i, []) if effective else [])
                    if not any(same(got, v if raw else simple(v)) for v in pool):
                        acc.violate(f"wrong answer [{kind}, caching {'on' if effective else 'off'}]", f"{key}: {got!r} instead of {[v if raw else simple(v) for v in pool]}")
                    if effective and i in certain and n1 != n0:
                        acc.violate(f"cached query is executed again [{kind}]", f"{key}")
                    if not effective and n1 == n0:
                        acc.violate(f"query is answered from the cache although caching is disabled [{kind}]", f"{key}")
                    if effective:
                        known.setdefault(i, []).append(fresh)
                        certain.add(i)
                elif op[0] == "mut":
                    w.base.cursor().execute("INSERT INTO t SELECT max(a) + 1, DATE '2021-01-01' FROM t")
                elif op[0] == "toggle":
                    db.cache_enabled = op[1]
                    enabled = op[1]
                    if op[1]:
                        touched = True
                        for k, v in persisted.items():
                            known.setdefault(k, []).extend(v)
                elif op[0] == "reset":
                    db.reset_cache()
                    known, certain = {}, set()
                else:
                    if op[0] == "exit":
                        w.exit()
                        persisted = {k: list(known.get(k, [])) + ([] if touched else persisted.get(k, [])) for k in {*known, *persisted}}
                        persisted = {k: v for k, v in persisted.items() if v}
                    else:
                        w.crash()
                    known, certain = {}, set()
                    db = w.open(op[1])
                    enabled = touched = op[1]
                    if op[1]:
                        known = {k: list(v) for k, v in persisted.items()}
            acc.case(key, f"{kind}: {len(w.statements)} statements")
        except Exception as e:
            acc.violate(f"operation fails {type(e).__name__} [{kind}]", f"{key}: {short(e)}")
        finally:
            w.close()


# ---------------------------------------------------------------- B: values that survive a restart
VALUES = [
    "1", "NULL", "TRUE", "1.5::DOUBLE", "'NaN'::DOUBLE", "'inf'::DOUBLE", "'-inf'::DOUBLE", "1.5::DECIMAL(5,2)", "170141183460469231731687303715884105727::HUGEINT",
    "'a'", "''", "'ä\"\\\n'''", "DATE '2020-02-29'", "DATE '0001-01-01'", "TIMESTAMP '2020-02-29 12:34:56.789012'", "TIMESTAMP '9999-12-31 23:59:59'", "TIME '12:34:56.789012'", "INTERVAL 3 DAY", "INTERVAL '1 day 2 hours 3 seconds'", "INTERVAL '-5 microseconds'",
    "TIMESTAMPTZ '2020-02-29 12:34:56+00'", "'\\x00\\xFF'::BLOB", "'123e4567-e89b-12d3-a456-426614174000'::UUID", "[1, 2]", "[DATE '2020-01-01', NULL]", "{'a': 1, 'b': 'x'}", "[[1], []]", "-0.0::DOUBLE", "1e300::DOUBLE", "123456789012345678901234567890.12::DECIMAL(38,2)",
]


def value_queries():
    for v in VALUES:
        yield f"SELECT {v} AS x"
        yield f"SELECT {v} AS x, 7 AS y"
        yield f"SELECT {v} AS x FROM (VALUES (1), (2)) AS s(i)"
        yield f"SELECT {v} AS x, s.i FROM (VALUES (1), (2)) AS s(i)"
    for v, u in itertools.permutations(VALUES[:16], 2):
        yield f"SELECT {v} AS x, {u} AS y"


def values(acc, i, n):
    with scratch() as d:
        for kind in CACHING:
            for q in sliced(list(value_queries()), i, n):
                wipe(d)
                w = World(kind)
                other = "SELECT 42 AS other, 'x' AS y"
                with w.patched():
                    try:
                        db = w.open(True)
                        db.execute_query(other)
                        fresh = db.execute_query(q, raw=True)
                        want = w.direct(q)
                        w.exit()
                        n0 = len(w.statements)
                        db = w.open(True)
                        for raw in (True, False):
                            acc.step()
                            got = db.execute_query(q, raw=raw)
                            if not same(got, want if raw else simple(want)) or not same(fresh, want):
                                acc.violate(f"answer changes by a restart [{kind}]", f"{q}: {got!r} instead of {want if raw else simple(want)!r}")
                        if db.execute_query(other) != (42, "x"):
                            acc.violate("other answer changes by a restart", f"{q}")
                        hit = not any("SELECT" in s and ("AS x" in s or "other" in s) for s in w.statements[n0:])
                        acc.case((kind, q), f"{kind} {'cached' if hit else 'executed again'}")
                        if not hit:
                            acc.violate(f"cache is lost by a restart [{kind}]", q)
                    except Exception as e:
                        acc.violate(f"query fails with caching {type(e).__name__} [{kind}]", f"{q}: {short(e)}")
                    finally:
                        w.close()


def torn(acc, i, n):
    """the process is killed while the cache is written: every prefix of the file"""
    with scratch() as d:
        for kind in CACHING:
            wipe(d)
            w = World(kind, SETUP)
            with w.patched():
                db = w.open(True)
                for q in QUERIES:
                    db.execute_query(q)
                w.exit()
                files = os.listdir(d)
                if not files:
                    acc.violate("cache is not stored", kind)
                    continue
                name = Path(d) / files[0]
                content = name.read_bytes()
                w.base.execute("INSERT INTO t VALUES (7, NULL)")
                for k in range(i, len(content), n):
                    wipe(d)
                    name.write_bytes(content[:k])
                    acc.step()
                    try:
                        db = w.open(True)
                        for q in QUERIES:
                            got, want = db.execute_query(q, raw=True), w.direct(q)
                            if not same(got, want):
                                acc.violate(f"incomplete cache file changes answers [{kind}]", f"first {k} bytes: {q}: {got} instead of {want}")
                        w.exit()
                        db = w.open(True)
                        if not all(same(db.execute_query(q, raw=True), w.direct(q)) for q in QUERIES):
                            acc.violate(f"incomplete cache file changes later answers [{kind}]", f"first {k} bytes")
                        w.exit()
                        acc.case((kind, k), "recovered")
                    except Exception as e:
                        w.crash()
                        acc.violate(f"incomplete cache file breaks the interface {type(e).__name__} [{kind}]", f"first {k} bytes: {short(e)}")
            w.close()


# ---------------------------------------------------------------- C: statistics
CELLS = {
    "INTEGER": [None, 0, 1, 2],
    "TEXT": [None, "a", "b"],
    "DATE": [None, datetime.date(2020, 1, 1), datetime.date(2021, 1, 1)],
}


def sqlval(v):
    return "NULL" if v is None else f"DATE '{v}'" if isinstance(v, datetime.date) else f"'{v}'" if isinstance(v, str) else str(v)


def tables_of(deep):
    for typ, cells in CELLS.items():
        for k in range(0, 5 if deep else 4):
            for rows in itertools.combinations_with_replacement(cells, k):
                yield typ, rows
        if typ == "INTEGER":
            yield from ((typ, r) for r in [(1, 1, 2, 2, 3, 3, 3), (5, 4, 3, 2, 1, 0), (1,) * 7, (None, None, 1, 2, 3), tuple(range(12))])


def statistics(acc, i, n, deep=False):
    for kind in KINDS:
        for typ, rows in sliced(list(tables_of(deep)), i, n):
            for schema in ("", "s2") if kind == "DuckDB" else ("",):
                full = f"{schema}.t" if schema else "t"
                with scratch():
                    w = World(kind, ["CREATE SCHEMA s2", "CREATE TABLE t (c VARCHAR)", "INSERT INTO t VALUES ('other'), ('other'), ('other')"] if schema else [])
                    w.base.execute(f"CREATE TABLE {full} (c {typ})")
                    if rows:
                        w.base.execute(f"INSERT INTO {full} VALUES " + ", ".join(f"({sqlval(v)})" for v in rows))
                    with w.patched():
                        try:
                            one_table(acc, w, kind, typ, list(rows), schema, full)
                        except Exception as e:
                            acc.violate(f"statistics fail {type(e).__name__} [{kind}]", f"{typ} {rows} {schema}: {short(e)}")
                    w.close()


def check_stats(bad, stats, table, col, rows, kw, k_values=(None, 1, 2, 10)):
    vals = [v for v in rows if v is not None]
    distinct = sorted(set(vals))
    got = stats.total_rows(table, **kw)
    if got != len(rows):
        bad("total rows", f"{got}")
    for f in (stats.num_distinct, stats.distinct_values):
        got = f(col, **kw)
        if got != len(distinct):
            bad("number of distinct values", f"{got}")
    got = stats.min_max(col, **kw)
    if tuple(got) != ((min(vals), max(vals)) if vals else (None, None)):
        bad("min/max", f"{got}")
    count = {v: vals.count(v) for v in distinct}
    nulls = len(rows) - len(vals)
    for k in k_values:
        got = list(stats.most_common_values(col, k=k, **kw))
        pools = [dict(count)] + ([{**count, None: nulls}] if nulls else [])
        ok = False
        for pool in pools:
            size = len(pool) if k is None else min(k, len(pool))
            freqs = sorted(pool.values(), reverse=True)[:size]
            ok |= [f for _, f in got] == freqs and len({v for v, _ in got}) == size and all(pool.get(v) == f for v, f in got)
        if not ok:
            bad("most common values", f"k={k}: {got}")
    for bins in (1, 2, 3, 5):
        h = stats.histogram(col, n_bins=bins, emulated=True, **{x: y for x, y in kw.items() if x != "emulated"})
        if not vals:
            if h is not None:
                bad("histogram of an empty column", f"{bins}: {h}")
            continue
        if h is None:
            bad("histogram is missing", f"{bins}")
            continue
        bounds, freqs = list(h.bounds), [f for _, f in h]
        if any(a >= b for a, b in zip(bounds, bounds[1:])) or h.lower != min(vals) or bounds[-1] != max(vals) or h.upper != max(vals):
            bad("histogram bounds", f"{bins}: {h}")
            continue
        prev, true = None, []
        for b in bounds:
            true.append(sum(1 for v in vals if (prev is None or v > prev) and v <= b))
            prev = b
        if freqs != true or h.n_rows != len(vals) or h.n_buckets != len(bounds):
            bad("histogram frequencies", f"{bins}: {h} instead of {true}")


def one_table(acc, w, kind, typ, rows, schema, full):
    db = w.open(False)
    stats = db.statistics()
    table = TableReference("t", schema=schema)
    col = ColumnReference("c", table)
    acc.case((kind, typ, tuple(rows), schema), f"{len(rows)} rows")

    def bad(sig, detail):
        acc.violate(f"{sig} [{kind} {typ}{' schema' if schema else ''}]", f"rows {rows}: {detail}")

    for kw in ({"emulated": True}, {"emulated": True, "cache_enabled": False}, {"emulated": True, "cache_enabled": True}, {"emulated": True}):
        acc.step()
        check_stats(bad, stats, table, col, rows, kw)
    stats.emulated = True
    check_stats(bad, stats, table, col, rows, {})
    # after a change of the data, uncached answers follow
    extra = {"INTEGER": 9, "TEXT": "z", "DATE": datetime.date(2030, 1, 1)}[typ]
    w.base.execute(f"INSERT INTO {full} VALUES ({sqlval(extra)}), ({sqlval(extra)})")
    acc.step()
    check_stats(bad, stats, table, col, rows + [extra] * 2, {"emulated": True, "cache_enabled": False})
    stats.cache_enabled = False
    check_stats(bad, stats, table, col, rows + [extra] * 2, {"emulated": True})
    stats.cache_enabled = None  # follows the database, which does not cache
    check_stats(bad, stats, table, col, rows + [extra] * 2, {})
    if kind == "DuckDB":
        stats.emulated = False
        if stats.total_rows(table) is None:
            bad("row count is not available", "native")
        for call in (stats.num_distinct, stats.min_max):
            if call(col) != call(col, emulated=True):
                bad("fallback differs from emulation", f"{call.__name__}: {call(col)}")
        stats.enable_emulation_fallback = False
        for call in (stats.num_distinct, stats.min_max, stats.most_common_values, stats.histogram):
            try:
                call(col, emulated=False)
                bad("unsupported statistics are reported without fallback", call.__name__)
            except pbdb.UnsupportedDatabaseFeatureError:
                pass
    for f in (stats.total_rows,):
        with contextlib.suppress(pb.VirtualTableError if hasattr(pb, "VirtualTableError") else qal.VirtualTableError):
            f(TableReference.create_virtual("t"), emulated=True)
            bad("statistics of virtual tables", f.__name__)


# ---------------------------------------------------------------- statistics from the catalogs of Postgres
CATALOGS = [
    "CREATE SCHEMA public", "CREATE SCHEMA s2",
    "CREATE TYPE regclass AS VARCHAR", "CREATE TYPE regnamespace AS VARCHAR",
    "CREATE TABLE pg_class (oid VARCHAR, relname VARCHAR, relnamespace VARCHAR, reltuples DOUBLE, relpages INTEGER)",
    "CREATE TABLE pg_stats (schemaname VARCHAR, tablename VARCHAR, attname VARCHAR, n_distinct DOUBLE, most_common_vals VARCHAR, most_common_freqs DOUBLE[], histogram_bounds VARCHAR)",
    "CREATE TABLE s2.t (c VARCHAR, d INTEGER)", "CREATE TABLE public.t (c INTEGER, d VARCHAR)", "CREATE TABLE public.u (c VARCHAR)",
]


def catalogs():
    for n_rows in (16, 160):
        for nd in (0, 4, -1, -0.25, -0.57, -0.29):
            yield n_rows, nd, (0, 5), (1, 7)
        for k in range(0, 4):
            for mcv in itertools.permutations((0, 2, 5, 9), k):
                for hist in ((), (1, 3, 7), (-2, 1, 4), (3, 4), (1, 1, 3, 7), (0, 3), (1, 3, 3)):
                    if not set(mcv) & set(hist) and n_rows == 16:
                        yield n_rows, 4, mcv, hist


def native(acc, i, n):
    def array(vals):
        return "NULL" if not vals else "'[" + ", ".join(str(v) for v in vals) + "]'"

    for n_rows, nd, mcv, hist in sliced(list(catalogs()), i, n):
        for schema in ("", "s2"):
            acc.case((n_rows, nd, mcv, hist, schema), f"{len(mcv)} values {len(hist)} bounds")
            ns, col = schema or "public", "d" if schema else "c"

            def bad(sig, detail):
                acc.violate(f"Postgres catalogs: {sig}{' in another schema' if schema else ''}", f"rows={n_rows} n_distinct={nd} mcv={mcv} bounds={hist}: {detail}")

            w = World("Postgres", CATALOGS)
            freqs = [2.0 ** -(x + 1) for x in range(len(mcv))]
            for rows in (("'t'", f"'{ns}'", n_rows), ("'u'", "'public'", 7)):
                w.base.execute(f"INSERT INTO pg_class VALUES ({rows[0]}, {rows[0]}, {rows[1]}, {rows[2]}, 3)")
            w.base.execute(f"INSERT INTO pg_stats VALUES ('{ns}', 't', '{col}', {nd}, {array(mcv)}, {freqs if freqs else 'NULL'}, {array(hist)})")
            for other in (("public" if schema else "s2", "t", col), (ns, "t", "c" if schema else "d"), (ns, "u", col)):
                w.base.execute(f"INSERT INTO pg_stats VALUES ('{other[0]}', '{other[1]}', '{other[2]}', 99, '[77]', [0.9], '[50, 60]')")
            ref = ColumnReference(col, TableReference("t", schema=schema))
            with scratch(), w.patched():
                try:
                    stats = w.open(False).statistics()
                    stats.emulated, stats.enable_emulation_fallback = False, False
                    one_catalog(acc, bad, stats, ref, n_rows, nd, dict(zip(mcv, (f * n_rows for f in freqs))), hist)
                except Exception as e:
                    bad(f"fails {type(e).__name__}", short(e))
            w.close()


def one_catalog(acc, bad, stats, ref, n_rows, nd, mcv, hist):
    acc.step()
    if stats.total_rows(ref.table) != n_rows:
        bad("row count", stats.total_rows(ref.table))
    want = nd if nd >= 0 else -nd * n_rows
    got = stats.distinct_values(ref)
    if got != want and not (nd < 0 and isinstance(got, int) and abs(got - want) <= 0.5):
        bad("distinct values", got)
    for k in (None, 1, 2, 10):
        got = list(stats.most_common_values(ref, k=k))
        if got != list(mcv.items())[:k]:
            bad("most common values", f"k={k}: {got}")
    h = stats.histogram(ref)
    if not hist:
        return
    if h is None:
        return bad("histogram is missing", "")
    bounds = list(h.bounds)
    values = set(mcv) | set(hist)
    if any(a >= b for a, b in zip(bounds, bounds[1:])) or set(bounds) not in (values, values - {min(values)}) or h.upper != max(values) or h.lower != min(values):
        bad("histogram bounds", f"{h.lower} {bounds}")
    elif any(f != mcv[b] for b, f in h if b in mcv and b != min(values)):
        bad("histogram frequencies", f"{list(h)}")
    elif any(f < 0 for _, f in h):
        bad("histogram frequencies", f"{list(h)}")


# ---------------------------------------------------------------- D: containers for statistics
def mcvs(acc, i, n, deep=False):
    for pairs in sliced([p for k in range(0, 4) for vals in itertools.combinations(["a", "b", "c", "d"], k) for p in itertools.product(*[[(v, f) for f in (1, 2, 5)] for v in vals])], i, n):
        for perm in itertools.permutations(pairs):
            acc.step()
            m = pbdb.MostCommonValues(perm)
            want = sorted(pairs, key=lambda p: (p[1], p[0]), reverse=True)
            detail = f"{perm}"
            acc.case(perm, str(len(perm)))

            def bad(sig, got):
                acc.violate(f"most common values: {sig}", f"{detail}: {got}")

            if list(m) != want or [m[x] for x in range(len(m))] != want or len(m) != len(want) or m.k != len(want) or bool(m) != bool(want):
                bad("not ordered by frequency", f"{list(m)}")
            if list(m.values) != [v for v, _ in want] or list(m.frequencies) != [f for _, f in want]:
                bad("values and frequencies", f"{m.values} {m.frequencies}")
            if (m.min_freq, m.max_freq) != ((want[-1][1], want[0][1]) if want else (0, 0)):
                bad("extreme frequencies", f"{m.min_freq} {m.max_freq}")
            for v in "abcde":
                f = dict(pairs).get(v)
                if (v in m) != (f is not None) or m.frequency_of(v) != f:
                    bad("frequency", f"{v}: {m.frequency_of(v)}")
                if m.frequency_of(v, default=17) != (f if f is not None else 17) or m.frequency_of(v, default=0) != (f or 0):
                    bad("default frequency", f"{v}: {m.frequency_of(v, default=17)}")
                if m.frequency_of(v, bound_missing=True) != (f if f is not None else (want[-1][1] if want else 0)):
                    bad("bounded frequency", f"{v}: {m.frequency_of(v, bound_missing=True)}")
            for k in range(0, 5):
                if list(m.top(k)) != want[:k] or list(m.below(k)) != want[k:]:
                    bad("top and below", f"{k}: {m.top(k)} {m.below(k)}")


def histograms(acc, i, n, deep=False):
    vals = [0, 2, 4, 8, 16]
    dates = [datetime.date(2020, 1, 1) + datetime.timedelta(days=x) for x in vals]
    texts = ["b", "d", "f", "h", "j"]
    cases = []
    for conv in (vals, dates, texts):
        for k in range(1, 4 if not deep else 5):
            for bs in itertools.combinations(range(1, 5), k):
                for fs in itertools.product((0, 1, 30, 100), repeat=k):
                    for low in range(0, bs[0] + 1):
                        cases.append((conv, bs, fs, low))
    for conv, bs, fs, low in sliced(cases, i, n):
        bounds, lower = [conv[b] for b in bs], conv[low]
        numeric = conv is not texts
        for strategy in ("bound", "approx-uni"):
            if strategy == "approx-uni" and not numeric:
                continue
            h = pbdb.Histogram(bounds, fs, lower=lower, bucket_interpolation=strategy)
            acc.case((conv[0], bs, fs, low, strategy), f"{len(bs)} buckets")
            detail = f"bounds={bounds} frequencies={fs} lower={lower} {strategy}"
            if h.n_rows != sum(fs) or h.lower != lower or h.upper != bounds[-1] or list(h) != list(zip(bounds, fs)) or len(h) != len(bs) or h.n_buckets != len(bs):
                acc.violate("histogram: attributes", detail)
            probes = vals + [-1, 1, 3, 5, 12, 20] if conv is vals else [conv[0] + datetime.timedelta(days=x) for x in (-1, 0, 1, 2, 3, 4, 5, 8, 12, 16, 20)] if conv is dates else list("abcdefghijk")
            for p in probes:
                acc.step()
                below = above = 0.0
                prev = lower
                for at, (b, f) in enumerate(zip(bounds, fs)):
                    if p >= b:
                        below += f
                    elif p < prev:
                        above += f
                    elif strategy == "bound":
                        if p > prev or (at == 0 and p == lower):
                            below += f
                        above += f
                    else:
                        frac = (p - prev) / (b - prev)
                        below += frac * f
                        above += (1 - frac) * f
                    prev = b
                for name, call, want in (("below", h.frequency_below, below), ("above", h.frequency_above, above)):
                    got = call(p)
                    if abs(got - want) > (1 if strategy == "approx-uni" else 0):
                        acc.violate(f"histogram: frequency {name} [{strategy}]", f"{detail}: {p}: {got} instead of {want}")


# ---------------------------------------------------------------- E: schema
class Generic:
    """the default implementation of the schema on an embedded database with standard-conforming catalogs"""

    def __init__(self, w):
        self.w = w
        w.base.execute("""CREATE VIEW std_ccu AS
            SELECT table_catalog, table_schema, table_name, column_name, constraint_catalog, constraint_schema, constraint_name FROM information_schema.constraint_column_usage WHERE constraint_type <> 'FOREIGN KEY'
            UNION ALL SELECT database_name, schema_name, referenced_table, unnest(referenced_column_names), database_name, schema_name, constraint_name FROM duckdb_constraints() WHERE constraint_type = 'FOREIGN KEY'""")

    def database_name(self):
        return "memory"

    def cursor(self):
        cur = Cur(self.w, self.w.base.cursor())
        run = cur.execute
        cur.execute = lambda q, p=None: run(q.replace("information_schema.constraint_column_usage", "main.std_ccu"), p)
        return cur


class GenericSchema(pbdb.DatabaseSchema):
    pass


def schemas():
    """(primary key of t1, further properties of t1, references of t2, properties of t2, schema)"""
    for pk in ((), ("a",), ("a", "b")):
        for uniq in ((), ("c",), ("b",)):
            if len(pk) == 2 and "b" in uniq:
                continue
            for notnull in ((), ("c",)):
                for index in ((), ("c",), ("b", "c")):
                    targets = [None] + ([("x", "a")] if pk == ("a",) else []) + [("x", u) for u in uniq] + ([("self", "a")] if pk == ("a",) else [])
                    if pk == ("a",) and uniq == ("b",):
                        targets.append(("both",))
                    for fk in targets:
                        for sch in ("", "s2"):
                            yield dict(pk=pk, uniq=uniq, notnull=notnull, index=index, fk=fk, schema=sch)


TYPES = {"a": "INTEGER", "b": "INTEGER", "c": "INTEGER", "x": "INTEGER", "y": "VARCHAR"}


def build(w, s):
    p = f"{s['schema']}." if s["schema"] else ""
    if s["schema"]:
        w.base.execute("CREATE SCHEMA s2")
        w.base.execute("CREATE TABLE main.t1 (zz DATE PRIMARY KEY)")  # same name, other schema
        w.base.execute("CREATE TABLE main.t2 (x DATE UNIQUE, zz DATE)")
    cons = []
    if s["pk"]:
        cons.append(f"PRIMARY KEY ({', '.join(s['pk'])})")
    cons += [f"UNIQUE ({u})" for u in s["uniq"]]
    cols = [f"{c} {TYPES[c]}" + (" NOT NULL" if c in s["notnull"] else "") for c in "abc"]
    w.base.execute(f"CREATE TABLE {p}t1 ({', '.join(cols + cons)})")
    fk = s["fk"]
    refs = {"x": set(), "y": set(), "x2": set()}
    cons = []
    if fk and fk[0] == "x":
        cons.append(f"FOREIGN KEY (x) REFERENCES {p}t1 ({fk[1]})")
        refs["x"].add(("t1", fk[1]))
    elif fk and fk[0] == "self":
        cons.append("UNIQUE (x2)")
        cons.append(f"FOREIGN KEY (x) REFERENCES {p}t1 (a)")
        refs["x"].add(("t1", "a"))
    elif fk:
        cons += [f"FOREIGN KEY (x) REFERENCES {p}t1 (a)", f"FOREIGN KEY (x2) REFERENCES {p}t1 (b)"]
        refs["x"].add(("t1", "a"))
        refs["x2"].add(("t1", "b"))
    w.base.execute(f"CREATE TABLE {p}t2 ({', '.join(['x INTEGER', 'y VARCHAR', 'x2 INTEGER'] + cons)})")
    for k, c in enumerate([s["index"]] if s["index"] else []):
        w.base.execute(f"CREATE INDEX idx{k} ON {p}t1 ({', '.join(c)})")
    if not s["schema"]:
        w.base.execute("CREATE VIEW v AS SELECT t1.a, t2.y FROM t1, t2")
    return refs


def schema_part(acc, i, n, deep=False):
    for kind in ("DuckDB", "Generic"):
        for s in sliced([s for s in schemas() if deep or (s["notnull"] and (s["index"] != ("c",) or not s["schema"]))], i, n):
            if kind == "Generic" and s["index"]:
                continue  # not visible in the standard catalogs
            w = World("DuckDB")
            with scratch(), w.patched():
                try:
                    refs = build(w, s)
                    schema = w.open(False).schema() if kind == "DuckDB" else GenericSchema(Generic(w), prep_placeholder="?")
                    one_schema(acc, kind, s, refs, schema)
                except Exception as e:
                    acc.violate(f"schema lookup fails {type(e).__name__} [{kind}]", f"{s}: {short(e)}")
            w.close()


def one_schema(acc, kind, s, refs, schema):
    acc.case((kind, str(s)), f"{kind}")

    def bad(sig, detail):
        acc.violate(f"{sig} [{kind}{' schema' if s['schema'] else ''}]", f"{s}: {detail}")

    T = {t: TableReference(t, schema=s["schema"]) for t in ("t1", "t2")}
    names = {"t1": ["a", "b", "c"], "t2": ["x", "y", "x2"]}
    B = {(t, c): BoundColumnReference(c, T[t]) for t in names for c in names[t]}
    visible = {t.full_name for t in schema.tables()} - {"std_ccu"}
    if not {"t1", "t2"} <= visible <= {"t1", "t2", "v"}:
        bad("tables", f"{visible}")
    if {t.full_name for t in schema} - {"std_ccu"} != visible or len([t for t in schema.tables()]) != len(schema):
        bad("iteration over tables", f"{list(schema)}")
    for t in names:
        acc.step()
        got = schema.columns(T[t])
        if [c.name for c in got] != names[t] or any(c.table != T[t] for c in got):
            bad("columns", f"{t}: {got}")
        if not s["schema"]:
            if [c.name for c in schema.columns(t)] != names[t]:
                bad("columns by name", f"{t}: {schema.columns(t)}")
            if schema.is_view(t) or schema.is_view(T[t]):
                bad("table is a view", t)
        pk = s["pk"] if t == "t1" else ()
        try:
            got = schema.primary_key_column(T[t])
            if len(pk) > 1 or got != (B[t, pk[0]] if pk else None):
                bad("primary key", f"{t}: {got}")
        except ValueError:
            if len(pk) < 2:
                bad("primary key", f"{t}: ValueError")
        for c in names[t]:
            acc.step()
            col = B[t, c]
            if schema.is_primary_key(col) != (c in pk):
                bad("is_primary_key", f"{t}.{c}: {schema.is_primary_key(col)}")
            indexed = t == "t1" and s["index"] == (c,)
            uniq = c in s["uniq"] if t == "t1" else (s["fk"] == ("self", "a") and c == "x2")
            fks = refs.get(c, set()) if t == "t2" else set()
            got = schema.has_secondary_index(col)
            if (indexed or uniq) != got and not (fks and got and kind == "Generic"):
                bad("has_secondary_index", f"{t}.{c}: {got}")
            if schema.has_index(col) != (schema.is_primary_key(col) or got):
                bad("has_index", f"{t}.{c}")
            if bool(schema.indexes_on(col)) != (schema.is_primary_key(col) or got):
                bad("indexes_on differs from has_index", f"{t}.{c}: {schema.indexes_on(col)}")
            got = {(r.table.full_name, r.name) for r in schema.foreign_keys_on(col)}
            if got != fks or any(r.table.schema != s["schema"] for r in schema.foreign_keys_on(col)):
                bad("foreign_keys_on", f"{t}.{c}: {schema.foreign_keys_on(col)}")
            if schema.datatype(col) != ("VARCHAR" if c == "y" else "INTEGER"):
                bad("datatype", f"{t}.{c}: {schema.datatype(col)}")
            null = not (t == "t1" and (c in s["notnull"] or c in pk))
            if schema.is_nullable(col) != null:
                bad("is_nullable", f"{t}.{c}: {schema.is_nullable(col)}")
            info = schema[col]
            if (info.column, info.table, info.nullable, info.primary_key, info.indexed) != (col, T[t], null, c in pk, schema.has_index(col)) or info.datatype != schema.datatype(col):
                bad("column information", f"{t}.{c}: {info}")
            if not s["schema"]:
                info2 = schema[f"{t}.{c}"]
                if info2 != info:
                    bad("column information by name", f"{t}.{c}: {info2}")
            for cand in itertools.permutations(T.values()):
                want = next((x for x in cand if c in names[x.full_name]), None)
                for arg in (c, ColumnReference(c), col):
                    got = schema.lookup_column(arg, cand)
                    if got != want:
                        bad("lookup_column", f"{arg!r} in {cand}: {got}")
    for arg in ("nope", ColumnReference("nope")):
        if schema.lookup_column(arg, T.values()) is not None:
            bad("lookup_column", "finds a missing column")
        try:
            schema.lookup_column(arg, T.values(), expect_match=True)
            bad("lookup_column", "does not report a missing column")
        except ValueError:
            pass
    if s["schema"]:
        info = schema[T["t2"]]
        if [c.column for c in info.columns] != [B["t2", c] for c in names["t2"]] or {(str(r.fk_col), r.referenced_col.name) for r in info.outgoing_foreign_keys} != {(str(B["t2", c]), x[1]) for c, fk in refs.items() for x in fk}:
            bad("table information", f"{info}")
        return
    if len(schema["v"].columns) != 2:
        bad("view information", "v")
    if not schema.is_view("v"):
        bad("view is a table", "v")
    # derived information
    pairs = {(B["t2", c], B[target]) for c, fk in refs.items() for target in fk}
    classes = []
    for x, y in sorted(pairs, key=str):
        hit = [k for k in classes if x in k or y in k]
        classes = [k for k in classes if k not in hit] + [set().union({x, y}, *hit)]
    got = [set(k) for k in schema.join_equivalence_classes()]
    if sorted(map(sorted, got)) != sorted(map(sorted, classes)):
        bad("join equivalence classes", f"{got}")
    keys = schema.join_equivalence_keys()
    if {k: set(v) for k, v in keys.items()} != {x: k for k in classes for x in k}:
        bad("join equivalence keys", f"{keys}")
    for missing in ("nope", "t1.nope", "nope.a", TableReference("nope"), ColumnReference("nope", T["t1"])):
        try:
            bad("missing object is found", f"{missing!r}: {schema[missing]}")
        except KeyError:
            pass
    g = schema.as_graph()
    edges = {(u.full_name, v.full_name): {(str(r.fk_col), str(r.referenced_col)) for r in d["foreign_keys"]} for u, v, d in g.edges(data=True)}
    want = {("t2", "t1"): {(str(x), str(y)) for x, y in pairs}} if pairs else {}
    if {t.full_name for t in g.nodes} - {"std_ccu"} != {"t1", "t2"} or edges != want:
        bad("schema graph", f"{list(g.nodes)} {edges}")
    for t in names:
        for key in (T[t], t):
            info = schema[key]
            outs = {(r.fk_col, r.referenced_col) for r in info.outgoing_foreign_keys}
            ins = {(r.fk_col, r.referenced_col) for r in info.incoming_foreign_keys}
            if info.table != T[t] or [c.column for c in info.columns] != [B[t, c] for c in names[t]] or outs != (pairs if t == "t2" else set()) or ins != (pairs if t == "t1" else set()) or info.primary_key != (B[t, s["pk"][0]] if t == "t1" and len(s["pk"]) == 1 else None):
                bad("table information", f"{key!r}: {info}")
            if list(info) != [B[t, c] for c in names[t]] or len(info) != 3 or any(info[c].column != B[t, c] or info[B[t, c]].column != B[t, c] for c in names[t]):
                bad("table information as mapping", f"{t}")


# ---------------------------------------------------------------- F: database pool
def pool(acc, i, n):
    P = pbdb.DatabasePool.get_instance()
    dbs = {"k1": object(), "k2": object()}
    ops_ = [("reg", k, v) for k in dbs for v in dbs] + [("clear",)]
    for depth in range(0, 5):
        for h in itertools.product(ops_, repeat=depth):
            P.clear()
            model = {}
            for op in h:
                acc.step()
                if op[0] == "reg":
                    P.register_database(op[1], dbs[op[2]])
                    model[op[1]] = dbs[op[2]]
                else:
                    P.clear()
                    model = {}
            acc.case(h, f"{len(model)} databases")
            ok = P.empty() == (not model) and P.n_databases() == len(model) and all((k in P) == (k in model) for k in dbs) and all(P.retrieve_database(k) is v for k, v in model.items())
            ok = ok and pbdb.DatabasePool.get_instance() is P
            try:
                got = P.current_database()
                ok = ok and len(model) == 1 and got is next(iter(model.values()))
            except ValueError:
                ok = ok and len(model) != 1
            try:
                ok = ok and P.any_database() in model.values()
            except ValueError:
                ok = ok and not model
            if not ok:
                acc.violate("database pool", f"{h}")
    P.clear()


def run(c):
    deep = c.thorough

    def cache(depth, extra=False):
        def fn(acc, i, n):
            with scratch() as d:
                for k, (start, h) in enumerate(histories(depth, extra)):
                    if k % n != i:
                        continue
                    for kind in CACHING if depth < 4 else KINDS:
                        play(acc, kind, start, h, d, as_object=k % 2 == 0)

        return fn

    for depth in range(1, 5 if deep else 4):
        c.part(f"query cache, histories of {depth} operations", cache(depth, deep))
    c.part("values in the cache", values)
    c.part("interrupted writing of the cache", torn)
    c.part("statistics", lambda acc, i, n: statistics(acc, i, n, deep))
    c.part("most common values", mcvs)
    c.part("histograms", lambda acc, i, n: histograms(acc, i, n, deep))
    c.part("statistics from Postgres catalogs", native)
    c.part("schema", lambda acc, i, n: schema_part(acc, i, n, deep))
    c.part("database pool", pool, parallel=False)


Check(
    "P20",
    "exhaustive-bounded",
    "all histories of up to 3 (4 thorough) queries, data changes, cache switches and resets, restarts and crashes on the DuckDB and Postgres interfaces; all result types; every prefix of the cache file; emulated statistics of all tables with up to 3 (4) rows, schema lookups for all combinations of constraints, all histories of the database pool; answers are compared with direct answers of an embedded database",
    ["the Postgres interface runs against an embedded database behind a stand-in for psycopg", "the end of a process is simulated by running the registered exit functions"],
).main(run)
