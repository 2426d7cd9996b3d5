"""P15: benchmark runs execute every query the requested number of times and record it."""
import contextlib
import io
import itertools
import json
import math
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import pandas as pd
from fakedb import FakeDatabase
from vlib import Check, short, sliced

import postbound as pb
from postbound import bench, qal
from postbound.workloads import Workload

warnings.simplefilter("ignore")
DBP = pb.db.DatabasePool


class Chooser:
    """depth-first enumeration of all sequences of faults"""

    def __init__(self):
        self.prefix, self.trace = [], []

    def pick(self, options):
        k = len(self.trace)
        v = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((v, len(options)))
        return options[v]

    def next(self):
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.prefix = [v for v, _ in t[:-1]] + [t[-1][0] + 1]
        self.trace = []
        return True


class Boom(Exception):
    pass


RESULTS = {
    "scalar": lambda k: [(k,)],
    "rows": lambda k: [(k, 1), (k, 2)],
    "mixed": lambda k: [[(k,)], [(k, 1), (k, 2)], [], [(k,), (k + 1,)], [("a,b\n\"c\"",)]][k % 5],
    "none": lambda k: [(None,)] if k % 2 else [(k,)],
}


def simple(rs):
    if not rs:
        return []
    if len(rs[0]) == 1:
        rs = [r[0] for r in rs]
    return rs[0] if len(rs) == 1 else rs


class DB(FakeDatabase):
    def __init__(self, world):
        self.w = world
        super().__init__("fake", lambda db, *ev: None)

    def describe(self):
        return {"system_name": "fake", "settings": list(self.w.settings)}

    def execute_query(self, query, *, cache_enabled=None, raw=False, timeout=None):
        w = self.w
        if isinstance(query, str):
            out = w.ch.pick(w.prep_outcomes)
            w.events.append(("prep", query, out))
            w.prepped += 1
            if out == "error":
                raise Boom("preparation failed")
            if out == "interrupt":
                raise KeyboardInterrupt()
            w.settings.append(query)
            return []
        return self._run(query, raw, None)

    def _run(self, query, raw, timeout):
        w = self.w
        out = w.ch.pick(w.outcomes if timeout else [o for o in w.outcomes if o != "timeout"])
        w.executions += 1
        k = w.executions
        w.events.append(("exec", query, out, k))
        if out == "error":
            w.last_error = Boom(f"failure {k}, with \"quotes\"\nand lines")
            raise w.last_error
        if out == "interrupt":
            raise KeyboardInterrupt()
        if out == "timeout":
            return None
        rs = RESULTS[w.results](k)
        return rs if raw else simple(rs)


class TimeoutDB(DB):
    def execute_with_timeout(self, query, *, timeout=60.0):
        return self._run(query, True, timeout)


class WatchDB(TimeoutDB):
    def time_query(self, query, *, timeout=None):
        raise NotImplementedError

    def last_query_runtime(self):
        return 100.0 + self.w.executions


class Pipeline(pb.OptimizationPipeline):
    def __init__(self, world, db, online):
        self.w, self.db, self.online = world, db, online

    def query_execution_plan(self, query):
        raise NotImplementedError

    def optimize_query(self, query):
        w = self.w
        out = w.ch.pick(w.opt_outcomes)
        w.events.append(("opt", query, out))
        if out == "error":
            w.last_error = Boom("optimization failed")
            raise w.last_error
        if out == "interrupt":
            raise KeyboardInterrupt()
        return pb.transform.add_clause(query, qal.Hint("", "/*+ Hinted(x) */"))

    def stages(self):
        return []

    def target_database(self):
        return self.db

    def requires_online_training(self):
        return self.online

    def learn_from_feedback(self, query, result_set, *, exec_time):
        self.w.feedback.append((str(query), result_set, exec_time))
        return {}

    def describe(self):
        return {"name": "pipeline"}


class World:
    pass


SQL = ["SELECT count(*) FROM r WHERE r.a = 1", "SELECT * FROM s WHERE s.b = 'x,y'", "SELECT count(*) FROM t"]
LABELS = ["1", "2b", "03"]


def isnone(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT


def one(acc, cfg, ch, scratch):
    """executes one benchmark under one sequence of faults and compares it with the reference"""
    W, Q, R = cfg["shape"]
    w = World()
    w.ch, w.events, w.settings, w.executions, w.feedback, w.prepped = ch, [], [], 0, [], 0
    w.outcomes = cfg["outcomes"]
    w.opt_outcomes = cfg.get("opt", ["ok"])
    w.prep_outcomes = cfg.get("prep_outcomes", ["ok"])
    w.results = cfg.get("results", "scalar")
    w.last_error = None
    db = {"timeout": TimeoutDB, "plain": DB, "watch": WatchDB}[cfg.get("db", "timeout")](w)
    queries = {lab: pb.parse_query(s) for lab, s in zip(LABELS[:Q], SQL)}
    originals = {lab: str(q) for lab, q in queries.items()}
    wl = Workload(dict(queries), name="wl")
    on = db if not cfg.get("optimizer") else Pipeline(w, db, cfg["optimizer"] == "online")
    called, reps = [], []

    def callback(res):
        called.append(res)
        if ch.pick(cfg.get("callback_outcomes", ["ok"])) == "error":
            w.last_error = Boom("callback failed")
            raise w.last_error

    ext = cfg.get("output")
    out = Path(scratch) / f"res.{ext}" if ext else None
    for f in os.listdir(scratch):
        os.unlink(os.path.join(scratch, f))
    prep = cfg.get("prep")
    kwargs = dict(
        name="exp",
        workload_repetitions=W,
        per_query_repetitions=R,
        shuffled=cfg.get("shuffled", False),
        query_preparation=prep,
        timeout=7.5 if cfg.get("db", "timeout") != "plain" and "timeout" in cfg["outcomes"] else None,
        exec_callback=callback if cfg.get("callback", True) else None,
        repetition_callback=reps.append,
        progressive_output=out,
        error_action=cfg["policy"],
    )
    df, raised = None, None
    lines = []
    if cfg.get("logger"):
        kwargs["logger"] = lines.append
    pool = DBP.get_instance()
    try:
        df = bench.execute_workload(wl, on, **kwargs)
    except (Exception, KeyboardInterrupt) as e:
        raised = e
    acc.step()
    desc = f"{cfg} faults={[v for v, _ in ch.trace]}"

    def bad(sig, detail):
        acc.violate(f"{sig} [{cfg['part']} {cfg['policy']} {ext or '-'}]", f"{desc}: {detail}; events={[e[:1] + e[2:] for e in w.events]}")

    # ------- reference: walk over the events in the order in which they have to happen
    ev = list(w.events)
    pos = 0
    rows = []  # of completed executions, as far as the policy retains them
    failed = None
    stop = False
    called_ref, feedback_ref, feedback_opt = [], [], []
    label_of = {}
    for lab, q in queries.items():
        label_of[q.tables().__iter__().__next__().full_name] = lab

    def lab_of(q):
        return label_of[next(iter(q.tables())).full_name]

    order_problem = None
    settings = []
    k = 0
    n_stmts = len((prep or {}).get("preparatory_statements", []))
    for rep in range(1, W + 1):
        todo = list(LABELS[:Q])
        while todo and not stop:
            # which query comes next?
            if pos >= len(ev):
                order_problem = f"repetition {rep}: {todo} were never executed"
                stop = True
                break
            first = next((e for e in ev[pos:] if e[0] != "prep"), None)
            lab = lab_of(first[1]) if first is not None else todo[0]
            if not cfg.get("shuffled"):
                lab = todo[0]
            elif lab not in todo:
                order_problem = f"repetition {rep}: query {lab} executed again, {todo} are missing"
                stop = True
                break
            todo.remove(lab)
            opt_text = None
            if cfg.get("optimizer"):
                e = ev[pos]
                pos += 1
                if e[0] != "opt" or str(e[1]) != originals[lab]:
                    order_problem = f"query {lab} was not optimized before execution: {e}"
                    stop = True
                    break
                if e[2] == "interrupt":
                    failed, stop = KeyboardInterrupt, True
                    break
                if e[2] == "error":
                    if cfg["policy"] == "raise":
                        failed, stop = "optimization failed", True
                        break
                    if cfg["policy"] == "log":
                        for r in range(1, R + 1):
                            rows.append(dict(label=lab, w=rep, r=r, status="optimization-error", result=None, reason="optimization failed", time="nan", opt=None, lost=True))
                    continue
                opt_text = "/*+ Hinted(x) */"
            fb = []
            done = 0
            for r in range(1, R + 1):
                prep_failed = None
                for _ in range(n_stmts):
                    if pos >= len(ev) or ev[pos][0] != "prep":
                        order_problem = f"query {lab}: preparatory statement is missing"
                        stop = True
                        break
                    e = ev[pos]
                    pos += 1
                    if e[2] == "ok":
                        settings.append(e[1])
                    else:
                        prep_failed = e[2]
                        break
                if stop:
                    break
                if prep_failed == "interrupt":
                    failed, stop = KeyboardInterrupt, True
                    break
                if prep_failed:
                    status, kk = "error", None
                else:
                    if pos >= len(ev):
                        order_problem = f"query {lab}, repetition {r} was never executed"
                        stop = True
                        break
                    e = ev[pos]
                    pos += 1
                    if e[0] != "exec" or lab_of(e[1]) != lab:
                        order_problem = f"expected execution {r} of {lab}, got {e[0]} {lab_of(e[1]) if e[0] != 'prep' else ''}"
                        stop = True
                        break
                    txt = str(e[1])
                    if ("Hinted" in txt) != bool(opt_text):
                        bad("wrong query executed", f"{txt}")
                    if prep and prep.get("output") == "explain" and not e[1].is_explain():
                        bad("query is not prepared", txt)
                    status, kk = e[2], e[3]
                if status == "interrupt":
                    failed, stop = KeyboardInterrupt, True
                    break
                if status == "error":
                    reason = f"failure {kk}" if kk else "preparation failed"
                    if cfg["policy"] == "raise":
                        failed, stop = reason, True
                        break
                    if cfg["policy"] == "ignore":
                        continue
                    done += 1
                    rows.append(dict(label=lab, w=rep, r=(r, done), status="execution-error", result=None, reason=reason, time="nan", opt=opt_text, settings=list(settings)))
                    called_ref.append((None, None))
                elif status == "timeout":
                    done += 1
                    rows.append(dict(label=lab, w=rep, r=(r, done), status="timeout", result=None, reason="", time=("timeout",), opt=opt_text, settings=list(settings)))
                    called_ref.append(("timeout", None))
                else:
                    done += 1
                    rs = RESULTS[w.results](kk)
                    t = 100.0 + kk if cfg.get("db") == "watch" else None
                    rows.append(dict(label=lab, w=rep, r=(r, done), status="ok", result=simple(rs), reason="", time=t, opt=opt_text, settings=list(settings)))
                    called_ref.append(("ok", simple(rs)))
                    fb.append((str(e[1]), rs, t))
                if status in ("ok", "timeout") and kwargs["exec_callback"] and len(called) and called[-1] is not None and w.last_error is not None and "callback" in str(w.last_error) and pos == len(ev):
                    failed, stop = "callback failed", True
                    break
            if stop:
                feedback_opt = fb
                break
            feedback_ref += fb
    if order_problem:
        if raised is not None and not isinstance(raised, (Boom, KeyboardInterrupt)):
            bad(f"run is aborted {type(raised).__name__}", short(raised))
        elif raised is not None:
            bad(f"run is aborted {str(raised)[:20]}", f"{order_problem}; {short(raised)}")
        else:
            bad("not executed as requested", order_problem)
        return
    if not stop and pos < len(ev):
        bad("more executions than requested", f"{len(ev) - pos} additional events")
        return
    if failed is None and raised is not None:
        bad(f"run fails {type(raised).__name__}", short(raised))
        return
    if failed is not None:
        if raised is None:
            bad("error is swallowed", f"expected {failed}")
            return
        if (failed is KeyboardInterrupt) != isinstance(raised, KeyboardInterrupt) or (failed is not KeyboardInterrupt and str(failed) not in str(raised)):
            bad("wrong error", f"expected {failed}, got {short(raised)}")
    acc.case(desc, f"{cfg['policy']}: {len(rows)} rows, {'raised' if raised is not None else 'completed'}")
    # ------- data frame
    if df is not None:
        compare(bad, "frame", rows, df, queries, cfg, w)
        if reps != list(range(1, W + 1)):
            bad("repetition callback", f"{reps}")
        for lab, q in queries.items():
            if str(q) != originals[lab]:
                bad("input query is modified", str(q))
        if len(df):
            try:
                export = bench.prepare_export(df)
            except Exception as e:
                bad("export", f"cannot be prepared: {short(e)}")
            else:
                cells = [(col, v) for col in export.columns for v in export[col]]
                for col, v in cells:
                    if isinstance(v, (list, tuple, dict, set)) or type(v).__module__.startswith(("postbound", "__main__")):
                        bad("export", f"column {col} contains the object {v!r}")
                if len(export) != len(rows):
                    bad("export", f"{len(export)} rows")
    # ------- progressive output
    if out is not None:
        if not out.exists():
            if rows:
                bad("progressive output is missing", f"{len(rows)} rows expected")
        else:
            try:
                got = pd.read_csv(out, dtype={"label": str}, keep_default_na=False) if ext == "csv" else pd.read_parquet(out) if ext == "parquet" else pd.DataFrame(json.loads(out.read_text()))
            except Exception as e:
                bad("progressive output is corrupted", short(e))
            else:
                compare(bad, "file", rows, got, queries, cfg, w, file=True)
        try:
            log = json.loads((Path(scratch) / "experiment_log.json").read_text())
            st = log[-1]["status"]
            want = {"completed"} if raised is None else {"failed"} if not isinstance(raised, KeyboardInterrupt) else {"running", "failed"}
            if len(log) != 1 or st not in want or (st != "running") != bool(log[-1]["end_time"]):
                bad("experiment log", f"{st} end={log[-1]['end_time']}, expected {want}")
        except Exception as e:
            bad("experiment log is corrupted", short(e))
    # ------- callbacks
    if kwargs["exec_callback"]:
        got = [(r.status, r.query_result if not isnone(r.query_result) else None) for r in called if r is not None and r.status in ("ok", "timeout")]
        want = [(s, r) for s, r in called_ref if s is not None]
        if [(s, r if r != [] else None) for s, r in got] != [(s, r if r != [] else None) for s, r in want]:
            bad("execution callback", f"{got} instead of {want}")
    if cfg.get("optimizer") == "online":
        got = w.feedback
        ok = len(feedback_ref) <= len(got) <= len(feedback_ref) + len(feedback_opt)
        for g, x in zip(got, feedback_ref + feedback_opt):
            if g[0] != x[0] or g[1] != x[1] or not (0 <= g[2] < math.inf) or (x[2] is not None and abs(g[2] - 1000 * x[2]) > 1e-6):
                ok = False
        if not ok:
            bad("online feedback", f"{got} instead of {feedback_ref}")
    if lines and len(lines) != len([e for e in w.events if e[0] == "opt"] or {(e[1]) for e in w.events}):
        pass


def compare(bad, what, rows, df, queries, cfg, w, file=False):
    if len(df) != len(rows):
        bad(f"{what}: wrong number of rows", f"{len(df)} rows for {len(rows)} executions")
        return
    if not rows:
        return
    idx = list(df["exec_index"])
    consecutive = True
    if any(b <= a for a, b in zip(idx, idx[1:])) or (consecutive and [int(x) for x in idx] != list(range(1, len(rows) + 1))):
        bad(f"{what}: execution index", f"{idx}")
    last = None
    for i, (want, (_, got)) in enumerate(zip(rows, df.iterrows())):
        for col, val in (("label", want["label"]), ("workload_repetition", want["w"]), ("status", want["status"])):
            if got[col] != val:
                bad(f"{what}: wrong {col}", f"row {i}: {got[col]!r} instead of {val!r}")
        r = want["r"] if isinstance(want["r"], tuple) else (want["r"],)
        if got["query_repetition"] not in r:
            bad(f"{what}: wrong query repetition", f"row {i}: {got['query_repetition']} instead of {r}")
        fr = got["failure_reason"]
        if want["reason"] not in str(fr) or (not want["reason"] and not isnone(fr) and fr != ""):
            bad(f"{what}: wrong failure reason", f"row {i}: {fr!r} instead of {want['reason']!r}")
        t = got["exec_time"]
        t = math.nan if t in (None, "") else float(t)
        ok = math.isnan(t) if want["time"] == "nan" else t in (7.5, math.inf) if isinstance(want["time"], tuple) else t == want["time"] if want["time"] is not None else 0 <= t < math.inf
        if not ok:
            bad(f"{what}: wrong execution time", f"row {i}: {t}")
        res = got["query_result"]
        if not file:
            if want["result"] is None or want["status"] != "ok":
                if not isnone(res):
                    bad("frame: result of a failed execution", f"row {i} {want['status']}: {res!r}")
            elif not (res == want["result"] or (isnone(res) and isnone(want["result"]))):
                bad("frame: wrong result", f"row {i}: {res!r} instead of {want['result']!r}")
            if got["query"] != queries[want["label"]] or str(got["query"]) != str(queries[want["label"]]):
                bad("frame: wrong query", f"row {i}: {got['query']}")
            oq = got["optimized_query"]
            if bool(want["opt"]) != (not isnone(oq)) or (want["opt"] and want["opt"] not in str(oq)):
                bad("frame: wrong optimized query", f"row {i}: {oq}")
            if want["opt"] and not (got["optimization_time"] >= 0):
                bad("frame: wrong optimization time", f"row {i}: {got['optimization_time']}")
            if not cfg.get("optimizer") and not math.isnan(got["optimization_time"]):
                bad("frame: wrong optimization time", f"row {i}: {got['optimization_time']}")
            if "settings" in want and got["db_config"].get("settings") != want["settings"]:
                bad("frame: configuration is not the one of the execution", f"row {i}: {got['db_config']} instead of {want['settings']}")
            ts = got["timestamp"]
            if not want.get("lost"):
                if isnone(ts) or (last is not None and ts < last):
                    bad("frame: wrong timestamp", f"row {i}: {ts}")
                last = ts
        else:
            pl = got["optimization_pipeline"]
            if isinstance(pl, str) and pl:
                with contextlib.suppress(ValueError):
                    pl = json.loads(pl)
            if bool(cfg.get("optimizer")) != (isinstance(pl, dict) and pl.get("name") == "pipeline"):
                bad("file: wrong optimization pipeline", f"row {i}: {pl!r}")
            text = "" if isnone(res) else str(res)
            v = want["result"]
            if want["status"] == "ok":
                forms = {str(v), json.dumps(v), json.dumps(v).replace(" ", ""), "" if v is None else str(v)}
                if isinstance(v, int):
                    forms |= {f"{v}.0"}
                if isinstance(v, list):
                    forms |= {json.dumps([list(x) if isinstance(x, tuple) else x for x in v]), str([list(x) if isinstance(x, tuple) else x for x in v])}
                if text not in forms:
                    bad("file: wrong result", f"row {i}: {text!r} instead of {v!r}")
            elif text not in ("", "null", "None", "nan"):
                bad("file: result of a failed execution", f"row {i}: {text!r}")


def explore(acc, cfg, scratch):
    ch = Chooser()
    while True:
        one(acc, cfg, ch, scratch)
        if not ch.next():
            return


@contextlib.contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix="p15-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


# ---- query preparation ----
QRY = "SELECT r.a, r.b FROM r, s WHERE r.a = s.b ORDER BY r.a"


class PrepDB(FakeDatabase):
    def __init__(self):
        self.events = []
        super().__init__("prep", lambda db, *ev: None)

    def execute_query(self, query, *, cache_enabled=None, raw=False, timeout=None):
        self.events.append(("execute", query, cache_enabled))
        return []


class WarmDB(PrepDB):
    def prewarm_tables(self, tables=None, *more, exclude_table_pages=False, include_primary_index=True, include_secondary_indexes=True):
        self.events.append(("prewarm", frozenset(tables), more))

    def cooldown_tables(self, *a, **kw):
        raise NotImplementedError


def preparation_options():
    flags = [None, False, True]
    for proj in ("none", "star", "*", "count_star", "count(*)"):
        for output in ("default", "explain", "analyze", "explain_analyze"):
            for explain, analyze, count in itertools.product(flags, repeat=3):
                for prewarm in (False, True):
                    for stmts in (None, [], ["SET a = 1"], ["SET a = 1", "SET b = 2", "SET a = 1"]):
                        yield {"projection": proj, "output": output, "explain": explain, "analyze": analyze, "count_star": count, "prewarm": prewarm, "preparatory_statements": stmts}


def preparation(acc, i, n):
    hinted = pb.transform.add_clause(pb.parse_query(QRY), qal.Hint("", "/*+ Hinted(r s) */"))
    for k, opts in enumerate(sliced(list(preparation_options()), i, n)):
        proj = "count" if opts["count_star"] or opts["projection"].startswith("count") else {"*": "star"}.get(opts["projection"], opts["projection"])
        out = "analyze" if opts["analyze"] else "explain" if opts["explain"] else opts["output"]
        acc.case(str(opts), proj + out)
        given = {key: v for key, v in opts.items() if v is not None}
        for again in (False, True):
            for mk in (PrepDB, WarmDB, None):
                for query in (pb.parse_query(QRY), hinted):
                    acc.step()
                    db = mk() if mk else None
                    before = str(query)
                    prep = bench.QueryPreparation(**given)
                    if again:  # the description can be used to repeat the experiment
                        prep = bench.QueryPreparation(**json.loads(pb.util.to_json(prep)))
                    got = prep.prepare_query(query, on=db)

                    def bad(sig, detail):
                        acc.violate(f"preparation {sig}", f"{given} on {mk.__name__ if mk else None}{' restored' if again else ''}: {detail}")

                    if str(query) != before:
                        bad("changes its input", str(query))
                    want_exp = {"default": None, "explain": (True, False)}.get(out, (True, True))
                    exp = got.explain
                    if (exp is None) != (want_exp is None) or (exp is not None and bool(exp.analyze) != want_exp[1]):
                        bad("output", f"EXPLAIN clause {exp}")
                    select = str(got.select_clause).upper().replace(" ", "")
                    want_sel = {"none": "SELECTR.A,R.B", "star": "SELECT*", "count": "SELECTCOUNT(*)"}[proj]
                    if select != want_sel:
                        bad("projection", f"{got.select_clause}")
                    if str(got.from_clause) != str(query.from_clause) or str(got.where_clause) != str(query.where_clause):
                        bad("changes the query", str(got))
                    if str(got.hints) != str(query.hints):
                        bad("hints", f"{got.hints}")
                    if proj != "count" and str(got.orderby_clause) != str(query.orderby_clause):
                        bad("ordering", str(got))
                    if db is None:
                        continue
                    events = [("execute", x, False) for x in opts["preparatory_statements"] or []]
                    if opts["prewarm"] and out != "explain" and mk is WarmDB:
                        events.insert(0, ("prewarm", frozenset(query.tables()), ()))
                    if db.events != events:
                        bad("side effects", f"{db.events} instead of {events}")
    if i == 0:
        for proj in ("all", "count", "", "STAR"):
            acc.step()
            acc.case(proj)
            try:
                got = bench.QueryPreparation(projection=proj).prepare_query(hinted)
                acc.violate("preparation accepts unknown projections", f"{proj!r}: {got}")
            except ValueError:
                pass


# ---- optimization stages in place of pipelines ----
class Stages:
    """optimization stages which follow scripted decisions and record how they are used"""

    def __init__(self, calls):
        from postbound import JoinTree, PhysicalOperatorAssignment, PlanParameterization

        def joins(query):
            tabs = sorted(query.tables(), key=str)
            tree = JoinTree.scan(tabs[0])
            for t in tabs[1:]:
                tree = tree.join_with(t)
            return tree

        def plan(query):
            tabs = sorted(query.tables(), key=str)
            p = pb.QueryPlan(pb.ScanOperator.SequentialScan, base_table=tabs[0], estimated_cardinality=pb.Cardinality(1))
            for t in tabs[1:]:
                p = pb.QueryPlan(pb.JoinOperator.HashJoin, children=[p, pb.QueryPlan(pb.ScanOperator.SequentialScan, base_table=t)])
            return p

        class Order(pb.JoinOrderOptimization):
            def optimize_join_order(self, query):
                calls.append(("order", str(query)))
                return joins(query)

            def describe(self):
                return {"name": "order"}

        class Operators(pb.PhysicalOperatorSelection):
            def select_physical_operators(self, query, join_order):
                calls.append(("operators", str(query)))
                a = PhysicalOperatorAssignment()
                for t in sorted(query.tables(), key=str):
                    a.set_scan_operator(pb.ScanOperator.SequentialScan, t)
                return a

            def describe(self):
                return {"name": "operators"}

        class Params(pb.ParameterGeneration):
            def generate_plan_parameters(self, query, join_order, operator_assignment):
                calls.append(("params", str(query)))
                p = PlanParameterization()
                p.add_cardinality(sorted(query.tables(), key=str), 42)
                return p

            def describe(self):
                return {"name": "params"}

        class Cards(pb.CardinalityEstimator):
            def calculate_estimate(self, query, intermediate):
                return pb.Cardinality(7)

            def generate_plan_parameters(self, query, join_order, operator_assignment):
                calls.append(("cards", str(query)))
                return super().generate_plan_parameters(query, join_order, operator_assignment)

            def describe(self):
                return {"name": "cards"}

        class Complete(pb.CompleteOptimizationAlgorithm):
            def optimize_query(self, query):
                calls.append(("complete", str(query)))
                return plan(query)

            def describe(self):
                return {"name": "complete"}

        class Enum(pb.PlanEnumerator):
            def generate_execution_plan(self, query, *, cost_model, cardinality_estimator):
                calls.append(("enum", str(query)))
                return plan(query)

            def describe(self):
                return {"name": "enum"}

        class Step(pb.IncrementalOptimizationStep):
            def optimize_query(self, query, current_plan):
                return current_plan

            def describe(self):
                return {"name": "step"}

        self.all = {"order": Order, "operators": Operators, "params": Params, "cards": Cards, "complete": Complete, "enum": Enum, "step": Step}


class StageDB(FakeDatabase):
    """hints are plain comments, all executions are recorded"""

    def __init__(self, name, calls):
        self.calls = calls

        def log(db, *ev):
            if ev[0] == "hints":
                calls.append(("hints", name, str(ev[1]), ev[2], dict(ev[3])))
                return pb.transform.add_clause(ev[1], qal.Hint("", f"/*+ Hinted by {name} */"))
            if ev[0] == "execute":
                calls.append(("execute", name, str(ev[1])))
                return [(1,)]
            return None

        super().__init__(name, log)


def stage_workloads(acc, i, n):
    qs = ["SELECT count(*) FROM r, s WHERE r.a = s.b", "SELECT count(*) FROM t", "SELECT count(*) FROM r, s, t WHERE r.a = s.b AND s.b = t.c"]
    kinds = ["order", "operators", "params", "cards", "complete", "enum", "step"]
    pool = DBP.get_instance()
    cases = [(kind, cur, reps, qreps, qset, mk) for kind in kinds for cur in (0, 1, 2) for reps, qreps in ((1, 1), (2, 1), (1, 2)) for qset in ((0,), (1, 0), (2, 1, 0)) for mk in ("list", "workload")]
    for kind, cur, reps, qreps, qset, mk in sliced(cases, i, n):
        acc.step()
        acc.case((kind, cur, reps, qreps, qset, mk))
        calls = []
        pool.clear()
        dbs = [StageDB(f"db{k}", calls) for k in range(cur)]
        for db in dbs:
            pool.register_database(db.name, db)
        sel = dbs[-1] if dbs else None
        try:
            stage = Stages(calls).all[kind]()
            sqls = [pb.parse_query(qs[k]) for k in qset]
            wl = sqls if mk == "list" else Workload({f"q{k}": q for k, q in enumerate(sqls)})
            try:
                df = bench.execute_workload(wl, stage, workload_repetitions=reps, per_query_repetitions=qreps, error_action="raise")
            except ValueError as e:
                if cur == 1 or calls:
                    acc.violate(f"stages cannot be used for benchmarks {kind}", short(e))
                continue
            except TypeError as e:
                if kind != "step":
                    acc.violate(f"stages cannot be used for benchmarks {kind}", short(e))
                continue
            except Exception as e:
                acc.violate(f"stages cannot be used for benchmarks {kind}", short(e))
                continue
            if cur != 1:
                acc.violate("the database of the benchmark is ambiguous", f"{cur} databases: {calls}")
                continue
            if kind == "step":
                acc.violate("unsupported stages are accepted", kind)
                continue
            want = []
            for _ in range(reps):
                for q in sqls:
                    want.append((kind, str(q)))
                    want.append(("hints", sel.name, str(q)))
                    want += [("execute", sel.name)] * qreps
            got = [x for x in calls]
            if kind == "cards":
                got = [x for k, x in enumerate(got) if x[0] != "cards" or k == 0 or got[k - 1] != x]
            flat = [x[:2] if x[0] == "execute" else x[:3] if x[0] == "hints" else x for x in got]
            if flat != want:
                acc.violate(f"stages in benchmarks {kind}", f"{mk} {qset} {reps}x{qreps}: {flat} instead of {want}")
            for x in got:
                if x[0] == "execute" and f"Hinted by {sel.name}" not in x[2]:
                    acc.violate("the optimized query is not executed", f"{kind}: {x[2]}")
                if x[0] == "hints":
                    part = {"order": "join_order", "operators": "physical_operators", "params": "plan_parameters", "cards": "plan_parameters"}.get(kind)
                    info = {key: v for key, v in x[4].items() if v}
                    if part and part not in info:
                        acc.violate(f"the decisions of the stage are not enforced {kind}", f"{x[2]}: {info}")
                    if not part and x[3] is None:
                        acc.violate(f"the decisions of the stage are not enforced {kind}", f"{x[2]}: no plan")
            if len(df) != len(sqls) * reps * qreps or set(df["status"]) != {"ok"}:
                acc.violate("rows of optimized workloads", f"{kind}: {len(df)} rows, {set(df['status'])}")
            for v in df["optimized_query"]:
                if f"Hinted by {sel.name}" not in str(v):
                    acc.violate("optimized queries are not recorded", f"{kind}: {v}")
        finally:
            pool.clear()


# ---- training ----
class TrainedPipeline(Pipeline):
    def __init__(self, world, db, needs, completed, log):
        super().__init__(world, db, False)
        self.needs, self.completed, self.log = needs, completed, log

    def requires_data_training(self):
        return "data" in self.needs

    def requires_workload_training(self):
        return "workload" in self.needs

    def requires_sample_training(self):
        return "samples" in self.needs

    def sample_fit_completed(self):
        return self.completed

    def train_on_database(self, database):
        self.log.append(("data", database))
        return {}

    def train_on_workload(self, queries, database):
        self.log.append(("workload", tuple(str(q) for q in queries.queries()), database))
        return {}

    def train_on_samples(self, samples):
        self.log.append(("samples", samples))
        return {}

    def optimize_query(self, query):
        self.log.append(("optimize", str(query)))
        return super().optimize_query(query)


def training(acc, i, n):
    subsets = [s for k in range(4) for s in itertools.combinations(("data", "workload", "samples"), k)]
    for needs, completed, given, reps, shuffled in sliced(list(itertools.product(subsets, (False, True), (False, True), (1, 2), (False, True))), i, n):
        acc.step()
        acc.case((needs, completed, given, reps, shuffled))
        w = World()
        w.ch, w.events, w.settings, w.executions, w.feedback, w.prepped = Chooser(), [], [], 0, [], 0
        w.outcomes, w.results, w.prep_outcomes, w.opt_outcomes = ["ok"], "scalar", ["ok"], ["ok"]
        db, log = DB(w), []
        pipe = TrainedPipeline(w, db, needs, completed, log)
        data = object()
        qs = [pb.parse_query(x) for x in SQL]
        must_fail = "samples" in needs and not given and not completed
        try:
            bench.execute_workload(qs, pipe, training_data=data if given else None, workload_repetitions=reps, shuffled=shuffled)
        except ValueError as e:
            if not must_fail:
                acc.violate("training rejected", f"{needs} {completed} {given}: {short(e)}")
            elif w.executions or any(x[0] == "optimize" for x in log):
                acc.violate("queries are executed before the training is complete", f"{log}")
            continue
        except Exception as e:
            acc.violate("training fails", f"{needs} {completed} {given}: {short(e)}")
            continue
        if must_fail:
            acc.violate("missing training data is accepted", f"{needs}: {log}")
            continue
        want = ([("data", db)] if "data" in needs else []) + ([("workload", tuple(str(q) for q in qs), db)] if "workload" in needs else []) + ([("samples", data)] if "samples" in needs and given else [])
        got = log[: len(log) - sum(1 for x in log if x[0] == "optimize")]
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            acc.violate("training", f"{needs} {completed} {given}: {log} instead of {want}")
        if w.executions != reps * len(qs) or sum(1 for x in log if x[0] == "optimize") != reps * len(qs):
            acc.violate("executions after the training", f"{w.executions}")


# ---- progress messages ----
def progress(acc, i, n):
    for reps, qreps, count, kind, outs in sliced(list(itertools.product((0, 1, 2, 3), (1, 2), (0, 1, 2, 3), ("custom", "tqdm"), (["ok"], ["ok", "error"]))), i, n):
        ch = Chooser()
        while True:
            acc.step()
            w = World()
            w.ch, w.events, w.settings, w.executions, w.feedback, w.prepped = ch, [], [], 0, [], 0
            w.outcomes, w.results, w.prep_outcomes = outs, "scalar", ["ok"]
            msgs = []
            qs = [pb.parse_query(x) for x in SQL[:count]]
            wl = Workload({lab: q for lab, q in zip(LABELS, qs)})
            acc.case((reps, qreps, count, kind, tuple(v for v, _ in ch.trace)))
            try:
                with contextlib.redirect_stderr(io.StringIO()) as err:
                    df = bench.execute_workload(wl, DB(w), workload_repetitions=reps, per_query_repetitions=qreps, logger=msgs.append if kind == "custom" else "tqdm")
                if len(df) != reps * qreps * count:
                    acc.violate("progress messages change the results", f"{kind} {reps}x{qreps}x{count}: {len(df)}")
                if kind == "custom":
                    want = [(lab, f"{k + 1}/{reps}") for k in range(reps) for lab in [x for x, _ in wl.entries()]]
                    ok = len(msgs) in (len(want), len(want) * qreps)
                    per = len(msgs) // max(1, len(want))
                    for k, m in enumerate(msgs):
                        if not ok or want[k // per][0] not in m.split() or want[k // per][1] not in m:
                            ok = False
                    if not ok:
                        acc.violate("progress messages", f"{reps}x{qreps}: {msgs} for {want}")
            except Exception as e:
                acc.violate(f"progress {kind}", f"{reps}x{qreps}x{count}: {short(e)}")
            if sum(n for _, n in ch.trace) > 14 or not ch.next():
                break


# ---- sorted results ----
def sorting(acc, i, n):
    labels = ["10a", "1a", "2b", "1b"]
    nat = {"1a": 0, "1b": 1, "2b": 2, "10a": 3}
    deep = [p for k in range(5) for p in itertools.product(labels, repeat=k)]
    for labs in sliced(deep, i, n):
        for idx in itertools.permutations([1, 2, 10, 11][: len(labs)]):
            rows = list(zip(labs, idx, range(len(labs))))
            df = pd.DataFrame(rows, columns=["label", "exec_index", "row"])
            acc.case((labs, idx))
            for cols in (None, "label", "exec_index", ["label", "exec_index"], ("exec_index", "label"), ("label",)):
                acc.step()
                keys = {"label": lambda r: nat[r[0]], "exec_index": lambda r: r[1]}
                names = ["label", "exec_index"] if cols is None else [cols] if isinstance(cols, str) else list(cols)
                try:
                    got = bench.sort_results(df) if cols is None else bench.sort_results(df, cols)
                except Exception as e:
                    acc.violate(f"results cannot be sorted by {cols}", short(e))
                    continue
                out = [tuple(x) for x in got.itertuples(index=False)]
                key = [tuple(keys[c](r) for c in names) for r in out]
                if key != sorted(key) or sorted(out) != sorted(rows):
                    acc.violate(f"results are not sorted by {cols}", f"{rows}: {out}")
                if [tuple(x) for x in df.itertuples(index=False)] != rows:
                    acc.violate("sorting changes the original results", f"{rows}")


# ---- exported results ----
def export(acc, i, n):
    vals = [1, "x", None, [1, 2], (3, 4), {"a": [1]}, pb.parse_query("SELECT r.a FROM r"), [("a", 1)], float("inf")]
    for k in range(1, 4):
        for combo in sliced(list(itertools.product(range(len(vals)), repeat=k)), i, n):
            acc.step()
            col = [vals[v] for v in combo]
            acc.case(combo)
            df = pd.DataFrame({"label": [str(x) for x in range(k)], "v": pd.Series(col, dtype=object)})
            try:
                got = bench.prepare_export(df)
            except Exception as e:
                acc.violate("results cannot be exported", f"{col}: {short(e)}")
                continue
            if any(a is not b for a, b in zip(df["v"], col)):
                acc.violate("exporting changes the results", f"{col}")
            if list(got["label"]) != list(df["label"]):
                acc.violate("exporting changes other columns", f"{col}")
            for src, dst in zip(col, got["v"]):
                if isinstance(src, (list, tuple, dict)):
                    try:
                        ok = json.loads(dst) == json.loads(json.dumps(src))
                    except Exception:
                        ok = False
                    if not ok:
                        acc.violate("exported values", f"{src!r}: {dst!r}")


def run(c):
    deep = c.thorough
    shapes = [(1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1), (1, 2, 2), (2, 2, 1), (1, 1, 3), (1, 3, 1)] + ([(2, 1, 2), (2, 2, 2)] if deep else [])
    policies = ["log", "raise", "ignore"]

    def part(name, cfgs):
        cfgs = [{**x, "part": name} for x in cfgs]

        def fn(acc, i, n):
            with scratch_dir() as d:
                for cfg in sliced(cfgs, i, n):
                    explore(acc, cfg, d)

        c.part(name, fn, slices=None)

    ALL = ["ok", "error", "timeout", "interrupt"]
    part("execution faults", [dict(shape=s, policy=p, outcomes=ALL if s != (2, 2, 2) else ["ok", "error", "timeout"], db=db) for s in shapes for p in policies for db in ("timeout", "watch")] + [dict(shape=s, policy=p, outcomes=["ok", "error", "interrupt"], db="plain", callback=False) for s in shapes for p in policies])
    small = [s for s in shapes if s[0] * s[1] * s[2] <= (4 if deep else 3)]
    part("optimization faults", [dict(shape=s, policy=p, outcomes=["ok", "error", "timeout"], opt=["ok", "error", "interrupt"], optimizer=o, db="watch") for s in (small if not deep else shapes[:8]) for p in policies for o in ("opt", "online")])
    part("progressive output", [dict(shape=s, policy=p, outcomes=ALL, output=o, db="watch", results=r, callback=False) for s in small for p in policies for o in ("csv", "parquet", "json") for r in ("scalar", "mixed", "none")])
    part("progressive output of optimized queries", [dict(shape=s, policy=p, outcomes=["ok", "error"], opt=["ok", "error", "interrupt"], optimizer="opt", output=o, db="watch") for s in ((1, 1, 2), (1, 2, 1), (2, 1, 1)) + (((1, 2, 2),) if deep else ()) for p in policies for o in ("csv", "parquet", "json")])
    preps = [dict(output="explain"), dict(projection="count_star"), dict(preparatory_statements=["SET a = 1"]), dict(preparatory_statements=["SET a = 1", "SET b = 2"], output="explain")]
    part("query preparation", [dict(shape=s, policy=p, outcomes=["ok", "error"], prep=x, prep_outcomes=["ok", "error", "interrupt"], optimizer=o) for s in ((1, 1, 1), (1, 2, 1), (1, 1, 2)) for p in policies for x in preps for o in (None, "online")])
    part("callbacks", [dict(shape=s, policy=p, outcomes=["ok", "error", "timeout"], callback_outcomes=["ok", "error"], output="csv") for s in small for p in policies])
    part("shuffled", [dict(shape=s, policy=p, outcomes=["ok", "error"], shuffled=True) for s in ((1, 3, 1), (2, 2, 1), (1, 2, 2)) for p in policies])

    # appending to existing results
    def appended(acc, i, n):
        with scratch_dir() as d:
            for ext in ("csv", "parquet", "json"):
                for runs in (2, 3):
                    out = Path(d) / f"res.{ext}"
                    for f in os.listdir(d):
                        os.unlink(os.path.join(d, f))
                    w = World()
                    w.ch, w.events, w.settings, w.executions, w.feedback, w.prepped = Chooser(), [], [], 0, [], 0
                    w.outcomes, w.results, w.prep_outcomes = ["ok"], "scalar", ["ok"]
                    db = DB(w)
                    acc.step()
                    try:
                        for k in range(runs):
                            bench.execute_workload([pb.parse_query(x) for x in SQL], db, name=f"exp{k}" if k else "a very long name of the first experiment", progressive_output=out)
                        got = pd.read_csv(out) if ext == "csv" else pd.read_parquet(out) if ext == "parquet" else pd.DataFrame(json.loads(out.read_text()))
                        acc.case((ext, runs), str(len(got)))
                        if [str(x) for x in got["label"]] != ["1", "2", "3"] * runs or [int(x) for x in got["query_result"]] != list(range(1, 3 * runs + 1)):
                            acc.violate(f"results are not appended {ext}", f"{runs} runs: {list(got['label'])}, {list(got['query_result'])}")
                        log = json.loads((Path(d) / "experiment_log.json").read_text())
                        if [x["status"] for x in log] != ["completed"] * runs:
                            acc.violate("experiment log", f"{[x['status'] for x in log]}")
                    except Exception as e:
                        acc.violate(f"results cannot be appended {ext}", short(e))

    c.part("appending to existing results", appended, parallel=False)

    def empty(acc, i, n):
        w = World()
        w.ch, w.events, w.settings, w.executions, w.feedback, w.prepped = Chooser(), [], [], 0, [], 0
        w.outcomes, w.results, w.prep_outcomes = ["ok"], "scalar", ["ok"]
        for kw, qs in (({}, []), ({"workload_repetitions": 0}, SQL), ({"per_query_repetitions": 0}, SQL)):
            acc.step()
            try:
                df = bench.execute_workload([pb.parse_query(x) for x in qs], DB(w), **kw)
                acc.case(str(kw), str(len(df)))
                if len(df) or w.executions:
                    acc.violate("nothing to execute", f"{kw}: {len(df)} rows")
            except Exception as e:
                acc.violate(f"nothing to execute {kw}", short(e))

    c.part("nothing to execute", empty, parallel=False)
    c.part("query preparation options", preparation)
    c.part("optimization stages", stage_workloads)
    c.part("training", training)
    c.part("progress messages", progress)
    c.part("sorted results", sorting)
    c.part("exported results", export)


Check(
    "P15",
    "exhaustive-bounded",
    "every sequence of outcomes (result, error, time-out, interruption) of the executions, optimizations, preparations and callbacks of benchmark runs with at most 4 executions (8 thorough), for all error policies, shapes of repetitions, optimizers and output formats; the data frame, the progressive output, the experiment log, callbacks and online feedback are compared with a reference run",
    ["the database and the optimization pipeline are stand-ins with scripted outcomes", "HDF output is not explored (PyTables is not installed)"],
).main(run)
