"""P22: query generators; every outcome of the random source is explored on small schemas in an embedded engine."""
import collections
import datetime
import fractions
import itertools
import os
import re
import shutil
import tempfile
import warnings
from pathlib import Path

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import random  # noqa: E402

import postbound as pb  # noqa: E402
from choices import Control, Cut, Scheduler  # noqa: E402
import pglast  # noqa: E402
from postbound import duckdb as pbduck  # noqa: E402
from postbound import qal  # noqa: E402
from postbound.experiments import ceb, querygen  # noqa: E402


# ------------------------------------------------------------------------------------------------ exploration
class Sched(Scheduler):
    """bounds also the calls that offer no alternative (a loop without choices has to end as well)"""

    def __init__(self, depth, max_calls=300):
        super().__init__(depth)
        self.max_calls, self.calls = max_calls, 0

    def pick(self, n):
        self.calls += 1
        if self.calls > self.max_calls:
            raise Cut()
        return super().pick(n)


class Rng:
    """numpy's generator, asked through the scheduler"""

    def __init__(self, sched):
        self.s = sched
        self.real = np.random.Generator(np.random.PCG64(1))

    def choice(self, a, size=None, replace=True, p=None, **kw):
        pop = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None and abs(sum(p) - 1) > 1e-6:
            raise ValueError("Probabilities do not sum to 1")
        left = [i for i in range(len(pop)) if p is None or p[i] > 0]
        k = 1 if size is None else int(np.prod(size))
        if not replace and k > len(left):
            raise ValueError("Fewer non-zero entries in p than size")
        out = []
        for _ in range(k):
            j = left[self.s.pick(len(left))]
            out.append(j)
            if not replace:
                left.remove(j)
        if size is None:
            return np.array(a)[out[0]] if not isinstance(a, (int, np.integer)) else out[0]
        return np.array([pop[j] for j in out]) if isinstance(a, (int, np.integer)) else np.array(a)[out]

    def __getattr__(self, name):
        return getattr(self.real, name)


def runs(fn, *, depth, max_runs, deviations=None):
    """every choice sequence (depth first), or every sequence with at most the given number of deviations from the first alternative (fewest deviations first)"""
    s = Sched(depth, 300 if depth <= 60 else 20000)
    saved = np.random.default_rng
    n = 0
    todo = collections.deque([((), 0)])
    while todo:
        prefix, used = todo.popleft()
        s.prefix, s.trace, s.calls = list(prefix), [], 0
        np.random.default_rng = lambda *a, **k: Rng(s)
        try:
            with Control(s):
                val = fn()
            kind = "ok"
        except Cut:
            kind, val = "cut", None
        except Exception as e:  # noqa: BLE001
            kind, val = "raise", e
        finally:
            np.random.default_rng = saved
        n += 1
        trace = [tuple(t) for t in s.trace]
        yield trace, kind, val
        if n >= max_runs:
            return
        if deviations is None or used < deviations:
            new = [(tuple(c for c, _ in trace[:pos]) + (j,), used + 1) for pos in range(len(prefix), len(trace)) for j in range(1, trace[pos][1])]
            if deviations is None:
                todo.extendleft(new)
            else:
                todo.extend(new)


# ------------------------------------------------------------------------------------------------ databases
A = ["create table a(id int primary key, v text, n int)", "insert into a values (1,'x',10),(2,'it''s',20),(3,NULL,NULL)"]
SCHEMAS = {
    "single": ["create table a(id int primary key, v text)", "insert into a values (1,'x'),(2,'')"],
    "chain": A + ["create table b(id int primary key, a_id int references a(id), w int)", "insert into b values (7,1,0)",
                  "create table c(b_id int references b(id), u text)", "insert into c values (7,'q'),(7,'p')"],
    "islands": A + ["create table b(a_id int references a(id))", "insert into b values (1),(2)", "create table c(k int)", "insert into c values (5),(6)"],
    "double": ["create table a(id int primary key)", "insert into a values (1),(2)",
               "create table b(x int references a(id), y int references a(id), z int)", "insert into b values (1,2,3),(2,1,4)"],
    "self": ["create table a(id int primary key, parent int references a(id))", "insert into a values (1,NULL)", "insert into a values (2,1)",
             "create table b(a_id int references a(id), t int)", "insert into b values (1,0)"],
    "types": ["create table t(i int, s text, d date, f float, r decimal(4,1), ts timestamp, g double, big bigint, bo boolean)",
              "insert into t values (0,'a%_''b','2020-01-02',0.1,1.5,'2020-01-02 03:04:05',0.1,9999999999,false),(-3,'','1999-12-31',2.5,-2.5,'2021-01-01 00:00:00',1e300,-1,true)"],
    "names": ["create table \"Big Table\"(\"order\" int, \"Mixed\" text, \"select\" int)", "insert into \"Big Table\" values (1,'x',2),(2,'y',3)"],
    "empty": ["create table a(id int primary key, v int)", "create table b(a_id int references a(id), w int)"],
    "star": ["create table f(a int, b int, c int)", "create table a(id int primary key)", "create table b(id int primary key)", "create table c(id int primary key)"],
}
SCHEMAS["star"] = ["create table a(id int primary key)", "create table b(id int primary key)", "create table c(id int primary key, p int)", "insert into a values (1)", "insert into b values (2)", "insert into c values (3,4)",
                   "create table f(a int references a(id), b int references b(id), c int references c(id), q int)", "insert into f values (1,2,3,9)"]
NUMERIC = ("int", "bigint", "smallint", "date", "double", "float", "real", "numeric", "decimal", "time", "hugeint")


class World:
    """an embedded database; answers of the engine are remembered since nothing changes the data"""

    def __init__(self, ddl, cache_graph=True):
        self.db = pbduck.connect(":memory:", private=True, refresh=True)
        cur = self.db.cursor()
        for stmt in ddl:
            cur.execute(stmt)
        self.cur = cur
        self.cols = {}
        for t, c, dt in cur.execute("select table_name, column_name, data_type from duckdb_columns() where not internal order by table_name, column_index").fetchall():
            self.cols.setdefault(t, {})[c] = dt.lower()
        self.fks, self.pks = [], set()
        for t, cc, rt, rc, kind in cur.execute("select table_name, constraint_column_names, referenced_table, referenced_column_names, constraint_type from duckdb_constraints()").fetchall():
            if kind == "FOREIGN KEY":
                self.fks.append((t, cc[0], rt, rc[0]))
            elif kind == "PRIMARY KEY":
                self.pks.add((t, cc[0]))
        self.rows = {t: cur.execute(f'select * from "{t}"').fetchall() for t in self.cols}
        self.graph = nx.Graph()
        self.graph.add_nodes_from(self.cols)
        self.graph.add_edges_from((t, rt) for t, _, rt, _ in self.fks if t != rt)
        s = self.db.schema()
        g = s.as_graph()
        s.as_graph = lambda: g.copy()
        for obj, names in ((s, ("is_primary_key", "foreign_keys_on", "datatype", "lookup_column", "has_secondary_index")), (self.db.statistics(), ("total_rows",)), (self.db, ("execute_query",))):
            for name in names:
                setattr(obj, name, self.remember(getattr(obj, name)))
        stats = self.db.statistics()
        self.db.statistics = lambda: stats
        self.checked = {}

    @staticmethod
    def remember(f):
        seen = {}

        def g(*a, **k):
            key = (repr(a), repr(sorted(k.items())))
            if key not in seen:
                seen[key] = f(*a, **k)
            v = seen[key]
            return list(v) if isinstance(v, list) else v
        return g

    def values(self, t, c):
        i = list(self.cols[t]).index(c)
        return [r[i] for r in self.rows[t]]

    def run(self, sql):
        if sql not in self.checked:
            try:
                self.checked[sql] = ("ok", self.cur.execute(sql).fetchall())
            except Exception as e:  # noqa: BLE001
                self.checked[sql] = ("error", short(e))
        return self.checked[sql]

    def const(self, lit, dtype):
        return self.run(f"select cast({lit} as {dtype})")


def settings(world, thorough):
    tabs = sorted(world.cols)
    igns = [frozenset()] + [frozenset([t]) for t in tabs[:2] if len(tabs) > 1]
    base = dict(count_star=False, ignore_tables=None, min_tables=None, max_tables=None, min_filters=None, max_filters=None, filter_key_columns=True, numeric_filters=False)
    tables = [(None, None), (1, 1), (2, 2), (None, 2), (2, None), (3, 3), (2, 1), (5, None)]
    filters = [(0, 0), (None, 1), (1, 1), (2, 2), (1, 2), (None, 0), (1, None), (2, 1), (len(world.cols[tabs[0]]), None)]
    for (mt, xt), (mf, xf), (fk, nf), ign in itertools.product(tables, filters, [(True, False), (False, False), (True, True), (False, True)], igns):
        unusual = [(mt, xt) not in tables[:3], (mf, xf) not in filters[1:4], (fk, nf) != (True, False), bool(ign)]
        if sum(unusual) > 1 and not thorough:
            continue
        yield dict(base, min_tables=mt, max_tables=xt, min_filters=mf, max_filters=xf, filter_key_columns=fk, numeric_filters=nf, ignore_tables=set(pb.TableReference(t) for t in ign) or None,
                   count_star=(mt, xt) == (1, 1) or (mf, xf) == (1, 1))


def allowed_columns(w, tables, cfg):
    out = []
    for t in tables:
        for c, dt in w.cols[t].items():
            if not cfg["filter_key_columns"] and ((t, c) in w.pks or any((t, c) == f[:2] for f in w.fks)):
                continue
            if cfg["numeric_filters"] and not dt.startswith(NUMERIC):
                continue
            out.append((t, c))
    return out


def satisfiable(w, cfg):
    ign = {t.full_name for t in cfg["ignore_tables"] or ()}
    tabs = [t for t in w.cols if t not in ign]
    lo, hi = cfg["min_tables"] or 1, cfg["max_tables"] if cfg["max_tables"] is not None else len(tabs)
    flo = cfg["min_filters"] or 0
    fhi = cfg["max_filters"] if cfg["max_filters"] is not None else 99
    if flo > fhi:
        return False
    for k in range(lo, min(hi, len(tabs)) + 1):
        for sub in itertools.combinations(tabs, k):
            if nx.is_connected(w.graph.subgraph(sub)):
                cols = [tc for tc in allowed_columns(w, sub, cfg) if any(v is not None for v in w.values(*tc))]
                if len(cols) >= flo:
                    return True
    return False


def conjuncts(pred):
    if isinstance(pred, qal.CompoundPredicate) and pred.operation == qal.CompoundOperator.And:
        return [x for c in pred.children for x in conjuncts(c)]
    return [pred]


def judge(w, cfg, q):
    """the first way in which a generated query violates its specification"""
    text = str(q)
    try:
        pglast.parse_sql(text)
    except pglast.parser.ParseError:
        return "not valid SQL"
    kind, res = w.run(text)
    if kind == "error":
        return f"engine rejects the query ({res})"
    star = re.match(r"\s*SELECT\s+(count\(\*\)|\*)\s", text, re.I)
    if not star or (star.group(1) != "*") != bool(cfg["count_star"]):
        return "wrong projection"
    # read the text back, so that the judgement does not depend on the query object
    p = pb.parse_query(text, bind_columns=False)
    names = sorted(t.full_name for t in p.tables())
    if len(names) != len(set(names)) or any(t not in w.cols for t in names):
        return "tables are not distinct tables of the schema"
    ign = {t.full_name for t in cfg["ignore_tables"] or ()}
    if ign & set(names):
        return "an ignored table is used"
    lo = cfg["min_tables"] or 1
    hi = cfg["max_tables"] if cfg["max_tables"] is not None else len(w.cols)
    if not lo <= len(names) <= hi:
        return f"{len(names)} tables for bounds [{lo}, {hi}]"
    joins, filters = set(), []
    linked = nx.Graph()
    linked.add_nodes_from(names)
    parts = conjuncts(p.where_clause.predicate) if p.where_clause else []
    for c in parts:
        if not isinstance(c, qal.BinaryPredicate):
            return "unexpected predicate"
        cols = [(x.table.full_name, x.name) for x in (e.column for e in (c.first_argument, c.second_argument) if isinstance(e, qal.ColumnExpression))]
        if len(cols) == 2:
            (t1, c1), (t2, c2) = cols
            if c.operation != qal.LogicalOperator.Equal or not ((t1, c1, t2, c2) in w.fks or (t2, c2, t1, c1) in w.fks):
                return "join predicate is not a foreign key"
            key = frozenset(cols)
            if key in joins:
                return "the same join predicate occurs twice"
            joins.add(key)
            linked.add_edge(t1, t2)
        else:
            filters.append((cols[0], c))
    if not nx.is_connected(linked):
        return "tables are not connected by join predicates"
    flo, fhi = cfg["min_filters"] or 0, cfg["max_filters"] if cfg["max_filters"] is not None else 99
    if not flo <= len(filters) <= fhi:
        return f"{len(filters)} filters for bounds [{flo}, {fhi}]"
    ok = allowed_columns(w, names, cfg)
    if len({f[0] for f in filters}) != len(filters):
        return "a column is filtered twice"
    for (t, c), pred in filters:
        if (t, c) not in ok:
            return "a column is filtered that must not be filtered"
        if pred.operation not in (qal.LogicalOperator.Equal, qal.LogicalOperator.NotEqual, qal.LogicalOperator.Greater, qal.LogicalOperator.Less, qal.LogicalOperator.GreaterEqual, qal.LogicalOperator.LessEqual):
            return "unexpected filter"
        m = re.match(r"^(.*?)\s*(=|<>|!=|>=|<=|>|<)\s*(.*)$", str(pred), re.S)
        kind, hit = w.run(f'select count(*) from "{t}" where "{c}" = {m.group(3)}')
        if kind == "error":
            return f"filter value cannot be compared with its column ({hit})"
        if hit[0][0] == 0:
            return "filter value does not occur in the column"
    return None


MAXRUNS = {False: 400, True: 6000}


def random_queries(acc, i, n, thorough):
    todo = []
    for name in SCHEMAS:
        todo += [(name, j) for j in range(len(list(settings(world(name), thorough))))]
    for name, j in sliced(todo, i, n):
        w = world(name)
        cfg = list(settings(w, thorough))[j]
        label = f"{name} {({k: v for k, v in cfg.items() if v})}"
        sat = satisfiable(w, cfg)
        found, cuts, judged = 0, 0, {}
        # all sequences with few deviations from the first alternative; requests that cannot be met may be retried forever
        budget = MAXRUNS[thorough] if sat else 4
        for trace, kind, val in runs(lambda: next(querygen.generate_query(w.db, **cfg)), depth=60, max_runs=budget, deviations=4 if thorough else 3):
            acc.step(len(trace))
            if kind == "cut":
                cuts += 1
                acc.case((label, tuple(trace)), outcome="bound reached")
                continue
            if kind == "raise":
                acc.case((label, tuple(trace)), outcome="rejected")
                if sat:
                    acc.violate(f"querygen: satisfiable request fails: {short(val)[:70]}", f"{label} choices {trace}")
                    break
                continue
            found += 1
            acc.case((label, tuple(trace)), outcome="query")
            text = str(val)
            if text not in judged:
                judged[text] = judge(w, cfg, val)
            if judged[text]:
                acc.violate(f"querygen: {judged[text][:90]}", f"{label} choices {trace}: {val}")
                break
        if sat and not found and cuts < budget:
            acc.violate("querygen: satisfiable request never produces a query", label)
        acc.count("configurations")
        acc.count("distinct queries", len(judged))


def successive(acc, i, n, thorough):
    """the generator keeps yielding queries that fulfil its request"""
    for name in sliced([s for s in SCHEMAS if s != "empty"], i, n):
        w = world(name)
        for cfg in (dict(max_tables=1, max_filters=1), dict(max_filters=0), dict(min_tables=1, max_tables=2, max_filters=1, ignore_tables={pb.TableReference("c")})):
            full = dict(count_star=False, ignore_tables=None, min_tables=None, max_tables=None, min_filters=None, max_filters=None, filter_key_columns=True, numeric_filters=False)
            full.update(cfg)
            if not satisfiable(w, full):
                continue
            for trace, kind, val in runs(lambda: list(itertools.islice(querygen.generate_query(w.db, **cfg), 2 if not thorough else 3)), depth=30, max_runs=MAXRUNS[thorough]):
                acc.step(len(trace))
                if kind == "raise":
                    acc.violate(f"querygen: satisfiable request fails: {short(val)[:70]}", f"{name} {cfg}")
                    break
                if kind == "cut":
                    continue
                acc.case((name, str(cfg), tuple(trace)), outcome="sequence")
                for q in val:
                    why = judge(w, full, q)
                    if why:
                        acc.violate(f"querygen: {why[:90]}", f"{name} {cfg} in a sequence {[str(x) for x in val]}")


WORLDS: dict = {}


def world(name) -> World:
    if name not in WORLDS:
        WORLDS[name] = World(SCHEMAS.get(name, CEB_DATA))
    return WORLDS[name]


# ------------------------------------------------------------------------------------------------ templates
CEB_DATA = [
    "create table title(id int, title text, year int, kind int, day date, score double)",
    "insert into title values (1,'x',1990,1,'2020-01-02',0.5),(2,'it''s',1990,2,'2020-01-02',1.5),(3,'x',2000,1,'2021-05-06',2.5),(4,'y%',2010,NULL,'2021-05-06',0.5)",
    "create table info(tid int, txt text)", "insert into info values (1,'x'),(2,'z'),(9,'y%')",
]


def T(base, aliases, *preds):
    return dict(base=base, aliases=aliases, preds=preds)


def Pr(name, keys, cols, types, kind, method="uniform", **kw):
    return dict(name=name, keys=keys, columns=cols, pred_type=types, type=kind, sampling_method=method, **kw)


TEMPLATES = {
    "list": T("SELECT * FROM title t WHERE t.year >= <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], [">="], "list", options=[1990, 2000, 1990])),
    "list brackets": T("SELECT * FROM title t WHERE t.year >= <<Y>>", {"t": "title"}, Pr("p", ["<<Y>>"], ["t.year"], [">="], "list", options=[1990, 2000])),
    "list weighted": T("SELECT * FROM title t WHERE t.year >= <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], [">="], "list", "weighted", options=[1990, 2000, 1990])),
    "list weights column": T("SELECT * FROM title t WHERE t.year >= <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], [">="], "list", "weighted", weights_column=2, options=[[1990, 3], [2000, 1]])),
    "list needless weights": T("SELECT * FROM title t WHERE t.year >= <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], [">="], "list", weights_column=1, options=[1990, 2000])),
    "in needless weights": T("SELECT * FROM title t WHERE t.year IN <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], ["IN"], "list", weights_column=2, options=[1990, 2000])),
    "list first weights": T("SELECT * FROM title t WHERE t.title = <<Y>>", {"t": "title"}, Pr("p", ["Y"], ["t.title"], ["="], "list", "weighted", weights_column=1, options=[[3, "x"], [1, "q"]])),
    "list pairs": T("SELECT * FROM title t WHERE t.year >= <<A>> AND t.year <= <<B>>", {"t": "title"}, Pr("p", ["A", "B"], ["t.year", "t.year"], [">=", "<="], "list", options=[[1, 2], [1, 3], [3, 4]])),
    "list text": T("SELECT * FROM title t WHERE t.title = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["="], "list", options=["x", "it's", "a;b", "", "y%"])),
    "list number for text": T("SELECT * FROM title t WHERE t.title = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["="], "list", options=[1, 2])),
    "list like": T("SELECT * FROM title t WHERE t.title LIKE <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["LIKE"], "list", options=["x", "it's"])),
    "list ilike": T("SELECT * FROM title t WHERE t.title ILIKE <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["ILIKE"], "list", options=["X"])),
    "list date": T("SELECT * FROM title t WHERE t.day = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.day"], ["="], "list", options=["2020-01-02", "2021-05-06"])),
    "list toml date": T("SELECT * FROM title t WHERE t.day = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.day"], ["="], "list", options=[datetime.date(2020, 1, 2)])),
    "list float": T("SELECT * FROM title t WHERE t.score = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.score"], ["="], "list", options=[0.5, 1.5])),
    "list zero": T("SELECT * FROM title t WHERE t.kind = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.kind"], ["="], "list", options=[0, 1])),
    "in list": T("SELECT * FROM title t WHERE t.kind IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.kind"], ["IN"], "list", options=[0, 1, 2, 1])),
    "in list bounds": T("SELECT * FROM title t WHERE t.kind IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.kind"], ["IN"], "list", options=[0, 1, 2], min_samples=2, max_samples=2)),
    "in list at most": T("SELECT * FROM title t WHERE t.title IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["IN"], "list", options=["x", "it's", "q"], max_samples=2)),
    "in list weighted": T("SELECT * FROM title t WHERE t.title IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["IN"], "list", "weighted", options=["x", "it's", "x"], min_samples=1, max_samples=5)),
    "in list weights": T("SELECT * FROM title t WHERE t.title IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["IN"], "list", "weighted", weights_column=2, options=[["x", 2], ["it's", 1]])),
    "in list first weights": T("SELECT * FROM title t WHERE t.kind IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.kind"], ["IN"], "list", "weighted", weights_column=1, options=[[2, 7], [1, 8]])),
    "in too few": T("SELECT * FROM title t WHERE t.kind IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.kind"], ["IN"], "list", options=[1], min_samples=2)),
    "sql": T("SELECT * FROM title t WHERE t.title = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["="], "sql", sql="SELECT title FROM title")),
    "sql weighted": T("SELECT * FROM title t WHERE t.title = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["="], "sql", "weighted", sql="SELECT title FROM title")),
    "sql weights": T("SELECT * FROM title t WHERE t.year = <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.year"], ["="], "sql", "weighted", weights_column=2, sql="SELECT year, count(*) FROM title GROUP BY year ORDER BY year")),
    "sql dates": T("SELECT * FROM title t WHERE t.day < <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.day"], ["<"], "sql", sql="SELECT day FROM title")),
    "sql in dates": T("SELECT * FROM title t WHERE t.day IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.day"], ["IN"], "sql", "weighted", sql="SELECT day FROM title")),
    "sql pair": T("SELECT * FROM title t WHERE t.year >= <<Y>> AND t.title = <<A>>", {"t": "title"}, Pr("p", ["Y", "A"], ["t.year", "t.title"], [">=", "="], "sql", sql="SELECT DISTINCT year, title FROM title")),
    "sql pair weights": T("SELECT * FROM title t WHERE t.year >= <<Y>> AND t.title = <<A>>", {"t": "title"}, Pr("p", ["Y", "A"], ["t.year", "t.title"], [">=", "="], "sql", "weighted", weights_column=2, sql="SELECT year, count(*), title FROM title GROUP BY year, title ORDER BY 1, 3")),
    "sql in": T("SELECT * FROM title t WHERE t.title IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.title"], ["IN"], "sql", "weighted", sql="SELECT title FROM title", max_samples=2)),
    "sql in uniform": T("SELECT * FROM title t WHERE t.year IN <<A>>", {"t": "title"}, Pr("p", ["A"], ["t.year"], ["IN"], "sql", sql="SELECT year FROM title", min_samples=2)),
    "no alias": T("SELECT * FROM title WHERE year >= <<Y>> AND title = <<A>>", {"title": ""}, Pr("p", ["Y"], ["year"], [">="], "list", options=[1990]), Pr("r", ["A"], ["title"], ["="], "list", options=["x"])),
    "mixed alias": T("SELECT * FROM title, info i WHERE i.txt = <<A>> AND day = <<D>>", {"title": "", "i": "info"}, Pr("p", ["A"], ["i.txt"], ["="], "list", options=["x"]), Pr("r", ["D"], ["day"], ["="], "list", options=["2020-01-02"])),
    "two aliases": T("SELECT * FROM title t1, title t2 WHERE t1.year = <<Y>> AND t2.title = <<A>> AND t1.year = <<Y>>", {"t1": "title", "t2": "title"}, Pr("p", ["Y"], ["t1.year"], ["="], "list", options=[1990, 2000]), Pr("r", ["A"], ["t2.title"], ["="], "list", options=["x", "y"])),
    "key prefixes": T("SELECT * FROM title t WHERE t.year >= <<Y>> AND t.year <= <<YY>>", {"t": "title"}, Pr("p", ["Y"], ["t.year"], [">="], "list", options=[1, 2]), Pr("r", ["YY"], ["t.year"], ["<="], "list", options=[3])),
    "dependent": T("SELECT * FROM title t WHERE t.year >= <<Y>> AND t.kind = <<K>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], [">="], "list", options=[1990, 2000, 1995]),
                   Pr("k", ["K"], ["t.kind"], ["="], "sql", "weighted", dependencies=["y"], sql="SELECT kind FROM title WHERE kind IS NOT NULL AND year >= <<Y>>")),
    "dependent listed first": T("SELECT * FROM title t WHERE t.year = <<Y>> AND t.title = <<A>>", {"t": "title"}, Pr("a", ["A"], ["t.title"], ["="], "sql", dependencies=["y"], sql="SELECT title FROM title WHERE year = <<Y>>"),
                                Pr("y", ["Y"], ["t.year"], ["="], "sql", sql="SELECT year FROM title")),
    "dependent redraw": T("SELECT * FROM title t WHERE t.year = <<Y>> AND t.kind = <<K>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["="], "list", options=[1990, 1234]),
                          Pr("k", ["K"], ["t.kind"], ["="], "sql", dependencies=["y"], sql="SELECT kind FROM title WHERE year = <<Y>>")),
    "dependent text": T("SELECT * FROM title t, info i WHERE t.title = <<A>> AND i.tid = <<I>>", {"t": "title", "i": "info"}, Pr("a", ["A"], ["t.title"], ["="], "sql", sql="SELECT title FROM title"),
                        Pr("i", ["I"], ["i.tid"], ["="], "sql", dependencies=["a"], sql="SELECT tid FROM info WHERE txt <> <<A>>")),
    "dependent in": T("SELECT * FROM title t WHERE t.year IN <<Y>> AND t.title = <<A>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["IN"], "list", options=[1990, 2000], max_samples=2),
                      Pr("a", ["A"], ["t.title"], ["="], "sql", dependencies=["y"], sql="SELECT title FROM title WHERE year IN <<Y>>")),
    "siblings redraw": T("SELECT * FROM title t WHERE t.year = <<Y>> AND t.kind = <<K>> AND t.title = <<A>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["="], "list", options=[2010, 1990]),
                         Pr("a", ["A"], ["t.title"], ["="], "sql", dependencies=["y"], sql="SELECT title FROM title WHERE year = <<Y>>"),
                         Pr("k", ["K"], ["t.kind"], ["="], "sql", dependencies=["y"], sql="SELECT kind FROM title WHERE kind IS NOT NULL AND year = <<Y>>")),
    "chain": T("SELECT * FROM title t WHERE t.year = <<Y>> AND t.kind = <<K>> AND t.title = <<A>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["="], "list", options=[2010, 1990]),
               Pr("k", ["K"], ["t.kind"], ["="], "sql", dependencies=["y"], sql="SELECT kind FROM title WHERE kind IS NOT NULL AND year = <<Y>>"),
               Pr("a", ["A"], ["t.title"], ["="], "sql", dependencies=["y", "k"], sql="SELECT title FROM title WHERE year = <<Y>> AND kind = <<K>>")),
    "dependent in needs two": T("SELECT * FROM title t WHERE t.year = <<Y>> AND t.title IN <<A>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["="], "list", options=[2010, 1990]),
                                Pr("a", ["A"], ["t.title"], ["IN"], "sql", dependencies=["y"], min_samples=2, sql="SELECT title FROM title WHERE year = <<Y>>")),
    "impossible": T("SELECT * FROM title t WHERE t.year = <<Y>>", {"t": "title"}, Pr("y", ["Y"], ["t.year"], ["="], "sql", sql="SELECT year FROM title WHERE year > 5000")),
}
UNSAT = {"in too few", "impossible"}


def toml(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, datetime.date):
        return v.isoformat()
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    return "[" + ", ".join(toml(x) for x in v) + "]"


def write_template(folder, label, t):
    lines = [f"title = {toml(label)}", "[base_sql]", f"sql = {toml(t['base'])}", "table_aliases = { " + ", ".join(f"{k} = {toml(v)}" for k, v in t["aliases"].items()) + " }"]
    for p in t["preds"]:
        lines += ["[[predicates]]"] + [f"{k} = {toml(v)}" for k, v in p.items()]
    Path(folder, label.replace(" ", "_") + ".toml").write_text("\n".join(lines) + "\n")


LIT = r"('(?:[^']|'')*'|[A-Za-z0-9_.+:-]+|\((?:'(?:[^']|'')*'|[^()'])*\))"


def bindings(template, text):
    """the text that was put in for every placeholder; None if the text is no instance of the template"""
    parts = re.split(r"<<(\w+)>>", template["base"])
    rx, seen = "", []
    for j, part in enumerate(parts):
        if j % 2 == 0:
            rx += re.escape(part)
        elif part in seen:
            rx += f"(?P={part})"
        else:
            seen.append(part)
            rx += f"(?P<{part}>{LIT})"
    m = re.fullmatch(rx, text.strip())
    return m.groupdict() if m else None


def candidates(w, t, p, bound):
    """value tuples of a predicate (with their weights), given the text of the placeholders it depends on"""
    ncols = len(p["keys"])
    if p["type"] == "list":
        rows = [tuple(o) if isinstance(o, list) else (o,) for o in p["options"]]
    else:
        sql = p["sql"]
        for k, v in bound.items():
            sql = sql.replace(f"<<{k}>>", v)
        kind, rows = w.run(sql)
        if kind == "error":
            return None
    weights = {}
    wc = p.get("weights_column") if p["sampling_method"] == "weighted" else None
    for r in rows:
        if wc is not None:
            weights[r[:wc - 1] + r[wc:]] = r[wc - 1]
        elif p["sampling_method"] == "weighted":
            weights[r] = weights.get(r, 0) + 1
        else:
            weights[r] = 1
    assert all(len(v) == ncols for v in weights)
    return weights


def plain(p):
    return [k.removeprefix("<<").removesuffix(">>") for k in p["keys"]]


def same_value(w, lit, value, dtype, pred):
    """does the literal denote the value, as a value of the column's type?"""
    if pred in ("LIKE", "ILIKE"):
        value = f"%{value}%"
    k1, a = w.const(lit, dtype)
    v = "NULL" if value is None else "'" + str(value).replace("'", "''") + "'"
    k2, b = w.const(v, dtype)
    return k1 == k2 == "ok" and a == b


def judge_template(w, t, text):
    """(problem, chosen values per predicate)"""
    bound = bindings(t, text)
    if bound is None:
        return "the query is not an instance of its template", None
    kind, res = w.run(text)
    if kind == "error":
        return f"engine rejects the query ({res[:60]})", None
    chosen = {}
    for p in t["preds"]:
        cand = candidates(w, t, p, bound)
        if cand is None:
            return f"dependent query of {p['name']} fails with the values that were put in", None
        dts = []
        for c in p["columns"]:
            tab, _, col = c.rpartition(".")
            real = [x for a, x in t["aliases"].items() if a == tab] or [a for a, x in t["aliases"].items() if not x and col in w.cols[a]]
            dts.append(w.cols[real[0]][col])
        lits = [bound[k] for k in plain(p)]
        if p["pred_type"] == ["IN"]:
            body = lits[0]
            if not (body.startswith("(") and body.endswith(")")):
                return "IN list without parentheses", None
            elems = re.findall(r"'(?:[^']|'')*'|[^,\s]+", body[1:-1])
            if not elems:
                return "empty IN list", None
            got = []
            for e in elems:
                m = [v for (v,) in cand if same_value(w, e, v, dts[0], "=")]
                if not m:
                    return "IN list contains a value that is no candidate", None
                got.append(m[0])
            if len(set(got)) != len(got):
                return "IN list contains a value twice", None
            lo, hi = p.get("min_samples", 1), p.get("max_samples", len(cand))
            if not lo <= len(got) <= hi:
                return f"IN list of {len(got)} values for bounds [{lo}, {hi}]", None
            chosen[p["name"]] = frozenset(got)
        else:
            m = [v for v in cand if all(same_value(w, lit, x, dt, pt) for lit, x, dt, pt in zip(lits, v, dts, p["pred_type"]))]
            if not m:
                return "value is no candidate of its predicate" + (" given the values it depends on" if p.get("dependencies") else ""), None
            chosen[p["name"]] = m[0]
    return None, chosen


def templates(acc, i, n, thorough):
    w = world("ceb")
    for name in sliced(list(TEMPLATES), i, n):
        t = TEMPLATES[name]
        folder = tempfile.mkdtemp(prefix="p22-")
        try:
            write_template(folder, name, t)
            seen, cuts = {}, 0
            dist, exact = {}, True
            for trace, kind, val in runs(lambda: ceb.generate_raw_workload(folder, queries_per_template=1, db_connection=w.db), depth=16, max_runs=4000 if not thorough else 40000):
                acc.step(len(trace))
                if kind == "cut":
                    cuts += 1
                    continue
                if kind == "raise":
                    acc.case((name, tuple(trace)), outcome="rejected")
                    if isinstance(val, ceb.SamplingError) and (name in UNSAT or "dependen" in name or name in ("chain", "siblings redraw")):
                        continue  # every attempt drew values without candidates
                    acc.violate(f"ceb: template fails: {short(val)[:70]}", f"{name} choices {trace}")
                    continue
                acc.case((name, tuple(trace)), outcome="query")
                if list(val) != [f"{name}-1"]:
                    acc.violate("ceb: wrong labels", f"{name}: {list(val)}")
                    continue
                why, chosen = judge_template(w, t, list(val.values())[0])
                if why:
                    acc.violate(f"ceb: {why}", f"{name} choices {trace}: {val}")
                    continue
                for p in t["preds"]:
                    seen.setdefault(p["name"], set()).add(chosen[p["name"]])
            if name in UNSAT:
                if seen:
                    acc.violate("ceb: unsatisfiable template produces a query", name)
                continue
            for p in t["preds"]:
                if p.get("dependencies"):
                    continue
                cand = candidates(w, t, p, {})
                if p["pred_type"] == ["IN"]:
                    vals = [v for (v,) in cand]
                    lo, hi = p.get("min_samples", 1), min(p.get("max_samples", len(vals)), len(vals))
                    want = {frozenset(c) for k in range(lo, hi + 1) for c in itertools.combinations(vals, k)}
                else:
                    want = set(cand)
                if "redraw" in name or name in ("chain", "dependent in needs two"):
                    want = {v for v in want if v in ((1990,),)}
                if seen and not want <= seen.get(p["name"], set()) and not cuts:
                    acc.violate("ceb: some candidate is never selected", f"{name} {p['name']}: {want - seen.get(p['name'], set())}")
            acc.count("templates")
        finally:
            shutil.rmtree(folder)


def workloads(acc, i, n, thorough):
    """numbers of queries, uniqueness and labels; at most one (thorough: two) deviations from the default choice"""
    w = world("ceb")
    sets = [("list",), ("list text",), ("list pairs", "in list"), ("list float", "no alias"), ("dependent redraw",), ("list brackets", "list weighted", "sql"), ("list toml date", "list ilike")]
    for names, k in sliced(list(itertools.product(sets, (1, 2, 3))), i, n):
        folder = tempfile.mkdtemp(prefix="p22-")
        out = tempfile.mkdtemp(prefix="p22-")
        try:
            for name in names:
                write_template(folder, name, TEMPLATES[name])
            Path(folder, "other.txt").write_text("no template")
            for fn, parsed in ((ceb.generate_raw_workload, False), (ceb.generate_workload, True)):
                for trace, kind, val in runs(lambda: fn(folder, queries_per_template=k, db_connection=w.db), depth=400, max_runs=60 if not thorough else 2000, deviations=1 if not thorough else 2):
                    acc.step(len(trace))
                    acc.case((names, k, parsed, tuple(trace)), outcome=kind)
                    if kind == "raise":
                        if not isinstance(val, ceb.SamplingError):
                            acc.violate(f"ceb workload: fails: {short(val)[:70]}", f"{names} {k} per template")
                        continue
                    if kind == "cut":
                        continue
                    texts = {label: (str(q) if parsed else q) for label, q in (val.entries() if parsed else val.items())}
                    if set(texts) != {f"{name}-{j}" for name in names for j in range(1, k + 1)}:
                        acc.violate("ceb workload: wrong number of queries or labels", f"{names} {k} per template: {sorted(texts)}")
                        continue
                    if len(set(texts.values())) != len(texts):
                        acc.violate("ceb workload: a query occurs twice", f"{names} {k} per template: {texts}")
                    for label, text in texts.items():
                        t = TEMPLATES[label.rsplit("-", 1)[0]]
                        if parsed:
                            if w.run(text)[0] == "error":
                                acc.violate("ceb workload: engine rejects a parsed query", f"{text}")
                            continue
                        why, _ = judge_template(w, t, text)
                        if why:
                            acc.violate(f"ceb workload: {why}", f"{names}: {text}")
                    ceb.persist_workload(out, val)
                    files = {f[:-4]: Path(out, f).read_text() for f in os.listdir(out)}
                    if set(files) != set(texts):
                        acc.violate("ceb workload: stored files differ from the labels", f"{sorted(files)}")
                    for label, text in files.items():
                        a, b = w.run(text), w.run(texts.get(label, "x"))
                        if a[0] == "error" or sorted(map(str, a[1])) != sorted(map(str, b[1])):
                            acc.violate("ceb workload: stored query differs", f"{text!r} {texts.get(label)!r}")
                    for f in os.listdir(out):
                        os.unlink(os.path.join(out, f))
        finally:
            shutil.rmtree(folder)
            shutil.rmtree(out)


def distribution(acc, i, n, thorough):
    """exact selection probabilities, from the complete choice trees"""
    w = world("ceb")
    for name in sliced([x for x, t in TEMPLATES.items() if len(t["preds"]) == 1 and t["preds"][0]["pred_type"] != ["IN"] and x not in UNSAT], i, n):
        t = TEMPLATES[name]
        p = t["preds"][0]
        folder = tempfile.mkdtemp(prefix="p22-")
        saved = random.choices
        try:
            write_template(folder, name, t)
            prob, pure = {}, [True]

            def choose(s, population, weights=None, *, cum_weights=None, k=1):
                pop = list(population)
                if cum_weights is not None:
                    weights = [c - (cum_weights[j - 1] if j else 0) for j, c in enumerate(cum_weights)]
                ws = [fractions.Fraction(x).limit_denominator(10**9) for x in (weights if weights is not None else [1] * len(pop))]
                out = []
                for _ in range(k):
                    j = s.pick(len(pop))
                    s.prob *= ws[j] / sum(ws) * (len(pop) if len(pop) > 1 else 1)
                    out.append(pop[j])
                return out

            s = Sched(20)
            while True:
                s.trace, s.calls, s.prob = [], 0, fractions.Fraction(1)
                val = None
                try:
                    with Control(s, floats=(0.25, 0.75)):
                        random.choices = lambda *a, **k: choose(s, *a, **k)
                        orig = random.random

                        def rnd():
                            pure[0] = False
                            return orig()
                        random.random = rnd
                        val = ceb.generate_raw_workload(folder, queries_per_template=1, db_connection=w.db)
                except (Cut, ceb.SamplingError):
                    pass
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"ceb: template fails: {short(e)[:70]}", name)
                    break
                pr = s.prob
                for _, m in s.trace:
                    pr /= m
                if val:
                    why, chosen = judge_template(w, t, list(val.values())[0])
                    if not why:
                        prob[chosen["p"]] = prob.get(chosen["p"], 0) + pr
                acc.step(len(s.trace))
                if not s.backtrack():
                    break
            acc.case(name, outcome="distribution")
            cand = candidates(w, t, p, {})
            total = sum(cand.values())
            want = {v: fractions.Fraction(x) / total for v, x in cand.items()}
            if pure[0] and abs(sum(prob.values()) - 1) < 1e-9 and prob and any(abs(prob.get(v, 0) - want[v]) > 1e-6 for v in want):
                acc.violate("ceb: values are not selected with the requested probabilities", f"{name}: {({str(k): str(v) for k, v in prob.items()})}, requested {({str(k): str(v) for k, v in want.items()})}")
        finally:
            random.choices = saved
            shutil.rmtree(folder)


def documented(acc, i, n):
    """the examples of the documentation"""
    w = World(["create table title(id int, title text, production_year int, kind_id int, phonetic_code text)", "insert into title values (1,'x',1999,1,'A1'),(2,'y',2011,2,'B2'),(3,'z',2012,1,'A1')",
               "create table kind_type(id int, kind text)", "insert into kind_type values (1,'m'),(2,'n')"])
    path = Path(os.environ.get("VERIF_REPO", "/repo"), "docs/source/advanced/ceb.rst")
    if not path.exists() or i:
        return
    blocks = re.findall(r"\.\. code-block:: toml\n((?:    .*\n|\n)+)", path.read_text())
    for b in blocks:
        body = "\n".join(x[4:] for x in b.split("\n") if not x.strip().startswith(":caption:"))
        folder = tempfile.mkdtemp(prefix="p22-")
        try:
            Path(folder, "t.toml").write_text(body)
            for trace, kind, val in runs(lambda: ceb.generate_workload(folder, queries_per_template=1, db_connection=w.db), depth=14, max_runs=300):
                acc.step(len(trace))
                acc.case((body, tuple(trace)), outcome=kind)
                if kind == "raise" and not isinstance(val, ceb.SamplingError):
                    acc.violate(f"ceb: documented example fails: {short(val)[:70]}", body[:80])
                    break
                if kind == "ok":
                    for _, q in val.entries():
                        if w.run(str(q))[0] == "error":
                            acc.violate("ceb: engine rejects the query of a documented example", str(q))
        finally:
            shutil.rmtree(folder)


def main(c):
    th = c.thorough
    c.part("random queries", lambda acc, i, n: random_queries(acc, i, n, th), slices=64)
    c.part("sequences of random queries", lambda acc, i, n: successive(acc, i, n, th))
    c.part("templates", lambda acc, i, n: templates(acc, i, n, th), slices=len(TEMPLATES))
    c.part("workloads", lambda acc, i, n: workloads(acc, i, n, th), slices=21)
    c.part("selection probabilities", lambda acc, i, n: distribution(acc, i, n, th))
    c.part("documented examples", documented)
    c.finish()


main(Check("P22", "model_checking",
           "all outcomes of the random source (choice trees up to the depth and size bounds) for all generator settings on ten small schemas, and for templates covering every "
           "documented feature; distinct by setting and choices", ["the embedded engine (DuckDB) evaluates candidate queries and literals"]))
