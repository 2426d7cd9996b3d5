"""P17: cardinality estimators report the value their source defines, for every history of requests."""
import csv
import itertools
import json
import math
import os
import resource
import shutil
import signal
import tempfile

import choices
import joinspace
from fakedb import FakeDatabase
from vlib import Check, short, sliced

import postbound as pb
import quacklab
from postbound import opt
from postbound._core import Cardinality, TableReference
from postbound.opt.native import NativeCardinalityEstimator
from postbound.workloads import Workload

SCRATCH = tempfile.mkdtemp(prefix="p17")

# -- reference data and truth ---------------------------------------------------------------------------------------------------

COLS = ("a", "b")
BASE = {
    "r": [(1, 1), (1, 2), (2, None)],
    "s": [(1, 1), (2, 2), (2, 1)],
    "t": [(1, None), (2, 2)],
}

# table alias -> base table; predicates are (aliases, text, evaluator)


def _cmp(op, x, y):
    if x is None or y is None:
        return False
    return {"=": x == y, "<": x < y, ">": x > y, "<>": x != y}[op]


def join(a, ca, op, b, cb):
    return ((a, b), f"{a}.{ca} {op} {b}.{cb}", lambda row: _cmp(op, row[a][COLS.index(ca)], row[b][COLS.index(cb)]))


def filt(a, ca, op, v):
    return ((a,), f"{a}.{ca} {op} {v}", lambda row: _cmp(op, row[a][COLS.index(ca)], v))


def isnull(a, ca, neg=False):
    return ((a,), f"{a}.{ca} IS {'NOT ' if neg else ''}NULL", lambda row: (row[a][COLS.index(ca)] is None) != neg)


def either(a, ca, vs):
    return ((a,), "(" + " OR ".join(f"{a}.{ca} = {v}" for v in vs) + ")", lambda row: row[a][COLS.index(ca)] in vs)


class Q:
    def __init__(self, tables, preds, select="*", tail="", explicit=False):
        self.tables = tables  # (alias, base)
        self.preds = preds
        frm = ", ".join(b if a == b else f"{b} AS {a}" for a, b in tables)
        self.sql = f"SELECT {select} FROM {frm}" + (" WHERE " + " AND ".join(p[1] for p in preds) if preds else "") + tail
        self.query = pb.parse_query(self.sql, bind_columns=False)
        self.refs = {a: TableReference(b, a if a != b else "") for a, b in tables}

    def intermediates(self):
        al = [a for a, _ in self.tables]
        return [c for k in range(1, len(al) + 1) for c in itertools.combinations(al, k)]

    def tabs(self, inter):
        return [self.refs[a] for a in inter]

    def truth(self, inter, data):
        base = dict(self.tables)
        n = 0
        relevant = [p for p in self.preds if set(p[0]) <= set(inter)]
        for combo in itertools.product(*(data[base[a]] for a in inter)):
            row = dict(zip(inter, combo))
            n += all(p[2](row) for p in relevant)
        return n


RST = (("r", "r"), ("s", "s"), ("t", "t"))


def queries():
    j_rs, j_st = join("r", "a", "=", "s", "a"), join("s", "b", "=", "t", "b")
    out = [
        Q((("r", "r"),), []),
        Q((("r", "r"),), [filt("r", "a", "=", 1)]),
        Q((("x", "r"),), [isnull("x", "b")]),
        Q((("r", "r"), ("s", "s")), [j_rs]),
        Q((("r", "r"), ("s", "s")), [j_rs, filt("r", "b", ">", 1)]),
        Q((("r", "r"), ("s", "s")), [j_rs, join("r", "b", "<", "s", "b")]),
        Q((("r", "r"), ("s", "s")), []),
        Q((("x", "r"), ("y", "r")), [join("x", "a", "=", "y", "a"), filt("x", "b", "=", 1)]),
        Q((("x", "r"), ("y", "r")), [join("x", "a", "=", "y", "a"), filt("y", "b", "=", 1)]),
        Q((("y", "s"), ("r", "r")), [join("y", "a", "<>", "r", "a")]),
        Q(RST, [j_rs, j_st]),
        Q(RST, [j_rs, j_st, filt("t", "a", "=", 2), either("r", "a", (1, 2))]),
        Q(RST, [j_rs, j_st, join("r", "b", "=", "t", "a")]),
        Q(RST, [j_rs, isnull("t", "b", True)]),
    ]
    shapes = [
        ("COUNT(*)", ""), ("MIN(r.a)", ""), ("r.a", " ORDER BY r.a"), ("r.a, COUNT(*)", " GROUP BY r.a"),
        ("r.a, COUNT(*)", " GROUP BY r.a HAVING COUNT(*) > 1"), ("*", " LIMIT 1"), ("*", " LIMIT 1 OFFSET 1"),
        ("DISTINCT r.a", ""), ("DISTINCT ON (r.a) r.b", ""), ("COUNT(DISTINCT r.a)", ""), ("r.a", " ORDER BY r.a LIMIT 1"),
        ("*", " FETCH FIRST 1 ROWS ONLY"),
    ]
    for sel, tail in shapes:
        for tabs, preds in (((("r", "r"),), [filt("r", "a", "=", 1)]), ((("r", "r"), ("s", "s")), [j_rs])):
            out.append(Q(tabs, preds, sel, tail))
    return out


class Duck(FakeDatabase):
    """an embedded engine; estimates are exact counts plus 1000 so that they can be told apart"""

    def __init__(self, data):
        self.con = quacklab.connect(":memory:")
        self.data = {}
        for t in data:
            self.con.execute(f"CREATE TABLE {t} (a INTEGER, b INTEGER)")
        self.requests = 0
        super().__init__("duck", self._answer)
        self.set(data)

    def set(self, data):
        for t, rows in data.items():
            if self.data.get(t) == rows:
                continue
            self.con.execute(f"DELETE FROM {t}")
            for row in rows:
                self.con.execute(f"INSERT INTO {t} VALUES (?, ?)", row)
            self.data[t] = list(rows)

    def _answer(self, _db, what, query, *_):
        self.requests += 1
        if what == "execute":
            rows = self.con.execute(str(query)).fetchall()
            if len(rows) == 1 and len(rows[0]) == 1:
                return rows[0][0]
            return rows
        if what == "card":
            text = str(query).rstrip().rstrip(";")
            return Cardinality(1000 + len(self.con.execute(text).fetchall()))
        raise AssertionError(what)


def call(fn):
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001 - outcome of the code under test
        return ("error", type(e).__name__, str(e)[:120])


def num(x):
    if not isinstance(x, Cardinality):
        return ("not a Cardinality", type(x).__name__, x)
    if math.isnan(x):
        return "unknown"
    return float(x)


# -- 1. exact cardinalities -----------------------------------------------------------------------------------------------------

def p_precise_values(acc, i, n):
    """every query, every intermediate, several ways of naming the intermediate, exact and native-estimate sources"""
    db = Duck(BASE)
    for qi, q in sliced(list(enumerate(queries())), i, n):
        for inter in q.intermediates():
            tabs = q.tabs(inter)
            want = q.truth(inter, BASE)
            forms = [("list", tabs), ("set", set(tabs)), ("frozenset", frozenset(tabs)), ("reversed tuple", tuple(reversed(tabs)))]
            if len(tabs) == 1:
                forms.append(("single table", tabs[0]))
            for fname, f in forms:
                for ename, est, off in (
                    ("exact", opt.PreciseCardinalities(db), 0), ("exact cached", opt.PreciseCardinalities(db, enable_cache=True), 0),
                    ("native", NativeCardinalityEstimator(db), 1000),
                ):
                    for rep in range(2):
                        arg = f
                        res = call(lambda: num(est.calculate_estimate(q.query, arg)))
                        acc.case((q.sql, inter, fname, ename))
                        acc.step()
                        if res != ("ok", float(want + off)):
                            acc.violate(f"value {ename}: {q.sql} {inter} as {fname}", f"got {res}, want {want + off}")


DATA_OPS = {
    "insert r": ("r", BASE["r"] + [(1, 1)]),
    "insert s": ("s", BASE["s"] + [(1, 1)]),
    "empty r": ("r", []),
    "reset r": ("r", BASE["r"]),
}


def p_precise_histories(acc, i, n):
    """all histories of requests, data changes and cache resets"""
    j = join("r", "a", "=", "s", "a")
    q1 = Q((("r", "r"), ("s", "s")), [j])
    q2 = Q((("r", "r"), ("s", "s")), [j, filt("r", "a", "=", 1)])
    q3 = Q((("r", "r"),), [], "COUNT(*)")
    q4 = Q((("r", "s"), ("s", "r")), [j])  # the same aliases, other tables
    qs = [q1, q2, q3, q4]
    reqs = [(0, ("r",)), (0, ("r", "s")), (1, ("r",)), (1, ("s", "r")), (2, ("r",)), (3, ("r",)), (3, ("r", "s"))]
    ops = [("req", r) for r in reqs] + [("data", "insert r"), ("data", "empty r"), ("data", "insert s"), ("clear", None)]
    depth = 5 if c.thorough else 4
    hists = list(itertools.product(range(len(ops)), repeat=depth))
    db = Duck(BASE)
    truth_memo = {}
    for h in sliced(hists, i, n):
        if ops[h[-1]][0] != "req":
            continue  # nothing is observed after the last step
        for cached in (False, True):
            state = dict(BASE)
            db.set(state)
            est = opt.PreciseCardinalities(db, enable_cache=cached)
            seen = {}  # request -> value since last reset
            for k in h:
                kind, arg = ops[k]
                acc.step()
                if kind == "data":
                    t, rows = DATA_OPS[arg]
                    state[t] = rows
                    db.set(state)
                    continue
                if kind == "clear":
                    est.reset_cache()
                    seen.clear()
                    continue
                q = qs[arg[0]]
                key = (arg, tuple(len(state[t]) for t in "rs"))
                if key not in truth_memo:
                    truth_memo[key] = float(q.truth(arg[1], state))
                now = truth_memo[key]
                got = call(lambda: num(est.calculate_estimate(q.query, q.tabs(arg[1]))))
                # the same rows are described by the same tables, and the predicates of the query on these tables
                sem = (frozenset((a, dict(q.tables)[a]) for a in arg[1]), frozenset(p[1] for p in q.preds if set(p[0]) <= set(arg[1])))
                if cached and arg in seen:
                    ok = {seen[arg]}
                elif cached and sem in seen:
                    ok = {seen[sem], now}
                else:
                    ok = {now}
                if got[0] != "ok" or got[1] not in ok:
                    acc.violate(f"history cached={cached} request {q.sql} {arg[1]}", f"history {[ops[x] for x in h]}: got {got}, want {sorted(ok)}")
                    break
                seen[arg] = got[1]
                seen.setdefault(sem, got[1])
            acc.case((h, cached))


# -- 2. stored values -----------------------------------------------------------------------------------------------------------

J = join("r", "a", "=", "s", "a")
WQ = {"q1": Q((("r", "r"), ("s", "s")), [J]), "q2": Q((("x", "r"), ("s", "s")), [join("x", "a", "=", "s", "a"), filt("x", "a", "=", 1)])}
WREQ = [("q1", ("r",)), ("q1", ("r", "s")), ("q2", ("x",)), ("q2", ("s",))]


def load(path, tcol):
    with open(path, newline="") as f:
        rows = list(csv.DictReader(f))
    out = []
    for r in rows:
        tabs = frozenset(tab_of(x) for x in json.loads(r[tcol]))
        out.append((r, tabs))
    return out


def tab_of(x):
    if isinstance(x, str):
        x = json.loads(x)
    return (x["full_name"], x.get("alias") or "")


def tab_json(q, inter):
    return json.dumps([{"full_name": dict(q.tables)[a], "alias": a if a != dict(q.tables)[a] else ""} for a in inter])


def tab_key(q, inter):
    return frozenset((dict(q.tables)[a], a if a != dict(q.tables)[a] else "") for a in inter)


def write_table(path, entries, cols, extra, labels=None):
    label, tabs, card = cols
    names = [label] + (["query"] if extra else []) + [tabs] + (["query_fragment", "runtime"] if extra else []) + [card]
    with open(path, "w", newline="") as f:
        w = csv.DictWriter(f, names)
        w.writeheader()
        for (lab, inter), v in entries:
            q = WQ[lab]
            row = {label: labels[lab] if labels else lab, tabs: tab_json(q, inter), card: v}
            if extra:
                row.update({"query": q.sql, "query_fragment": "-", "runtime": "0.5"})
            w.writerow(row)


CONFIGS = [
    dict(),
    dict(error_on_missing_card=False),
    dict(default_cardinality=Cardinality(7)),
    dict(default_cardinality=Cardinality(0)),
    dict(default_cardinality=Cardinality.unknown()),
    dict(default_cardinality=Cardinality(7), live_fallback=True),
    dict(live_fallback=True),
    dict(live_fallback=True, live_fallback_style="actual"),
    dict(live_fallback=True, live_fallback_style="actual", save_live_fallback_results=False),
    dict(live_fallback=True, save_live_fallback_results=False, error_on_missing_card=False),
]

CONTENTS = {
    "empty": [],
    "one": [(WREQ[1], 41)],
    "alias": [(WREQ[2], 42), (WREQ[0], 40)],
    "duplicate": [(WREQ[0], 40), (WREQ[0], 44), (WREQ[3], 43)],
    "all": [(WREQ[0], 40), (WREQ[1], 41), (WREQ[2], 42), (WREQ[3], 0)],
}


LABELS = [("q1", "q2"), ("1", "2"), (1, 2), ("01", "1"), ("1", "10"), ("q", "Q")]


def p_stored(acc, i, n):
    """all contents x configurations x histories of requests, re-opening the file, data changes"""
    for labels in LABELS:
        stored_histories(acc, i, n, dict(zip(WQ, labels)))


def stored_histories(acc, i, n, labels):
    workload = Workload({labels[k]: q.query for k, q in WQ.items()}, name="w")
    plain = labels["q1"] == "q1"
    depth = 4 if c.thorough else 3
    ops = [("req", r) for r in WREQ] + [("reopen", None), ("data", None)]
    jobs = [(cn, k, cols, extra) for cn in CONTENTS for k in range(len(CONFIGS)) for cols, extra in ((("label", "tables", "cardinality"), False), (("label", "tables", "cardinality"), True), (("lbl", "tabs", "card"), False))]
    db = Duck(BASE)
    path = os.path.join(SCRATCH, f"cards{i}.csv")
    for cn, k, cols, extra in sliced(jobs, i, n):
        cfg = CONFIGS[k]
        for h in itertools.product(range(len(ops)), repeat=depth if (plain and cols[0] == "label" and not extra) or c.thorough else 2):
            if ops[h[-1]][0] != "req":
                continue
            state = dict(BASE)
            db.set(state)
            write_table(path, CONTENTS[cn], cols, extra, labels)
            original = open(path, "rb").read()
            stored = {}
            for key, v in CONTENTS[cn]:
                stored.setdefault(key, []).append(float(v))

            def fresh():
                return opt.PreComputedCardinalities(
                    workload, path, label_col=cols[0], tables_col=cols[1], cardinality_col=cols[2],
                    live_db=db if cfg.get("live_fallback") else None, **cfg)

            tag = f"stored {cn} config {k} cols {cols[0]} extra={extra} labels {labels}"
            res = call(fresh)
            if res[0] != "ok":
                acc.violate(f"{tag} open", f"{res}")
                break
            est = res[1]
            bad = None
            for step, op in enumerate(h):
                kind, arg = ops[op]
                acc.step()
                if kind == "data":
                    state["r"] = BASE["r"] + [(1, 1)] * (step + 1)
                    db.set(state)
                    continue
                if kind == "reopen":
                    res = call(fresh)
                    if res[0] != "ok":
                        bad = f"cannot read the file again: {res}"
                        break
                    est = res[1]
                    continue
                q = WQ[arg[0]]
                got = call(lambda: num(est.calculate_estimate(q.query, q.tabs(arg[1]))))
                if len(stored.get(arg, ())) == 1:
                    want = ("ok", stored[arg][0])
                elif len(stored.get(arg, ())) > 1:
                    want = ("error", "ValueError")
                elif cfg.get("default_cardinality") is not None:
                    want = ("ok", num(cfg["default_cardinality"]))
                elif cfg.get("live_fallback"):
                    v = q.truth(arg[1], state) + (0 if cfg.get("live_fallback_style") == "actual" else 1000)
                    want = ("ok", float(v))
                    if cfg.get("save_live_fallback_results", True):
                        stored[arg] = [float(v)]
                elif cfg.get("error_on_missing_card", True):
                    want = ("error", "ValueError")
                else:
                    want = ("ok", "unknown")
                if got[:2] != want:
                    bad = f"request {arg}: got {got}, want {want}"
                    break
                # the file
                if cfg.get("live_fallback") and cfg.get("save_live_fallback_results", True) and cfg.get("default_cardinality") is None:
                    res = call(lambda: load(path, cols[1]))
                    if res[0] != "ok":
                        bad = f"file unreadable after {arg}: {res}"
                        break
                    have = sorted((r[cols[0]], sorted(t), float(r[cols[2]])) for r, t in res[1])
                    need = sorted((str(labels[lab]), sorted(tab_key(WQ[lab], inter)), v) for (lab, inter), vs in stored.items() for v in vs)
                    if have != need:
                        bad = f"file content after {arg}: {have}, want {need}"
                        break
                elif open(path, "rb").read() != original:
                    bad = f"file changed by {arg}"
                    break
            acc.case((cn, k, cols, extra, h, tuple(labels.values())))
            if bad:
                acc.violate(f"{tag}: {bad.split(':')[0]}", f"{bad}; history {[ops[x] for x in h]}")
                break


def p_faults(acc, i, n):
    """the disk fills up after every number of bytes while a fallback value is saved: the stored values survive"""
    workload = Workload({k: q.query for k, q in WQ.items()}, name="w")
    cols = ("label", "tables", "cardinality")
    d = os.path.join(SCRATCH, f"faults{i}")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "cards.csv")
    write_table(path, CONTENTS["alias"], cols, False)
    size = os.path.getsize(path)
    db = Duck(BASE)
    for limit in sliced(list(range(0, 6 * size)), i, n):
        write_table(path, CONTENTS["alias"], cols, False)
        est = opt.PreComputedCardinalities(workload, path, live_fallback=True, live_db=db, live_fallback_style="actual")
        q = WQ["q1"]
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            res = call(lambda: num(est.calculate_estimate(q.query, q.tabs(("r", "s")))))
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, old)
        acc.case(limit, outcome=res[0])
        acc.step()
        want = [("q1", [("r", "")], 40.0), ("q2", [("r", "x")], 42.0)]
        new = ("q1", [("r", ""), ("s", "")], float(q.truth(("r", "s"), BASE)))
        if res not in (("ok", new[2]),) and res[:2] != ("error", "OSError"):
            acc.violate("fault outcome", f"disk full after {limit} bytes: {res}")
        got = call(lambda: sorted((r["label"], sorted(t), float(r["cardinality"])) for r, t in load(path, "tables")))
        if got[0] != "ok" or got[1] not in (sorted(want), sorted(want + [new])):
            acc.violate("fault loses stored values", f"disk full after {limit} bytes: file holds {got}")
            continue
        fresh = call(lambda: num(opt.PreComputedCardinalities(workload, path).calculate_estimate(q.query, q.tabs(("r",)))))
        if fresh != ("ok", 40.0):
            acc.violate("fault makes lookups fail", f"disk full after {limit} bytes: later lookup {fresh}")
        extra = [x for x in os.listdir(d) if x != "cards.csv"]
        if extra:
            acc.count("leftover files", len(extra))
            for x in extra:
                os.unlink(os.path.join(d, x))


# -- 3. distortion --------------------------------------------------------------------------------------------------------------

class Fixed(pb.CardinalityEstimator):
    def __init__(self, values, cross=False):
        super().__init__(allow_cross_products=cross)
        self.values = values
        self.log = []

    def calculate_estimate(self, query, intermediate):
        tabs = [intermediate] if isinstance(intermediate, TableReference) else list(intermediate)
        return self.values[frozenset(t.identifier() for t in tabs)]

    def initialize(self, target_db, query):
        self.log.append(("init", target_db, query))

    def cleanup(self):
        self.log.append(("cleanup",))

    def describe(self):
        return {"name": "fixed"}


def p_distortion(acc, i, n):
    cards = [0, 1, 2, 3, 10, 1001, 123456789, 10**15, float("nan"), float("inf")]
    factors = [0.0, 0.1, 0.5, 1.0, 1.5, 2, 10, 1e6]
    q = WQ["q1"]
    tabs = q.tabs(("r", "s"))
    for card, f, strat in sliced(list(itertools.product(cards, factors, ("fixed", "random"))), i, n):
        val = Cardinality(card)
        inner = Fixed({frozenset(("r", "s")): val})
        est = opt.CardinalityDistortion(inner, f, distortion_strategy=strat)
        lo, hi = (f, f) if strat == "fixed" else (min(f, 1.0), max(f, 1.0))

        def run():
            return call(lambda: num(est.calculate_estimate(q.query, tabs)))

        outs = []
        if strat == "fixed":
            outs = [run(), run()]
        else:
            for r in (0.0, 0.25, 0.5, 0.999999):
                with choices.Control(choices.Scheduler(50), floats=(r,)):
                    outs.append(run())
        acc.case((card, f, strat), outcome=str(outs[0][0]))
        acc.step(len(outs))
        for o in outs:
            sig = f"distortion {strat} {card} x {f}"
            if math.isnan(card):
                ok = o == ("ok", "unknown")
            elif math.isinf(card):
                if not val.is_valid():
                    ok = o == ("ok", "unknown")
                else:
                    ok = o[0] == "ok" and (o[1] in (math.inf, "unknown") or o == ("ok", 0.0))
            else:
                ok = o[0] == "ok" and not isinstance(o[1], (tuple, str)) and card * lo - 0.5 - 1e-6 * abs(card * lo) <= o[1] <= card * hi + 0.5 + 1e-6 * abs(card * hi) and o[1] == int(o[1])
            if not ok:
                acc.violate(sig, f"got {o}, want between {card}*{lo} and {card}*{hi}")
    if i == 0:
        inner = Fixed({frozenset(("r", "s")): Cardinality(10)}, cross=True)
        est = opt.CardinalityDistortion(inner, 2)
        if not est.allow_cross_products:
            acc.violate("distortion cross products", "allow_cross_products of the wrapped estimator is lost")
        est.initialize("db", q.query)
        est.cleanup()
        acc.case("lifecycle")
        if inner.log != [("init", "db", q.query), ("cleanup",)]:
            acc.violate("distortion lifecycle", f"wrapped estimator saw {inner.log}")
        # the factor is not accumulated over nested wrappers or repetitions
        two = opt.CardinalityDistortion(opt.CardinalityDistortion(inner, 2), 3)
        for _ in range(3):
            v = num(two.calculate_estimate(q.query, tabs))
            acc.case("nested")
            if v != 60.0:
                acc.violate("distortion nested", f"10 x 2 x 3 = {v}")


# -- 4. parameterization of whole queries ----------------------------------------------------------------------------------------

def p_params(acc, i, n):
    """all join graphs: exactly the intermediates without cross products receive a value, each its own"""
    jobs = []
    for size in (1, 2, 3, 4):
        for edges in joinspace.graphs(size, connected=None):
            for cross in (False, True):
                jobs.append((size, edges, cross))
    for size, edges, cross in sliced(jobs, i, n):
        sql = joinspace.sql(size, edges, filters=(0,))
        query = pb.parse_query(sql, bind_columns=False)
        names = joinspace.NAMES[:size]
        subsets = [frozenset(x) for k in range(1, size + 1) for x in itertools.combinations(range(size), k)]
        connected = {s for s in subsets if len(s) == 1 or sub_connected(s, edges)}
        want_sets = set(subsets) if cross else connected
        values = {frozenset(names[x] for x in s): Cardinality(100 + k) for k, s in enumerate(subsets)}
        for unknown in [None] + subsets[:3]:
            vals = dict(values)
            if unknown is not None:
                vals[frozenset(names[x] for x in unknown)] = Cardinality.unknown()
            want = {frozenset(names[x] for x in s): vals[frozenset(names[x] for x in s)] for s in want_sets if s != unknown}
            for ename, est, factor in (("plain", Fixed(vals, cross), 1), ("distorted", opt.CardinalityDistortion(Fixed(vals, cross), 2), 2)):
                acc.case((sql, cross, unknown, ename))
                acc.step(len(want))
                gen = call(lambda: [frozenset(t.identifier() for t in s) for s in est.generate_intermediates(query)])
                if gen[0] != "ok" or len(gen[1]) != len(want_sets) or set(gen[1]) != {frozenset(names[x] for x in s) for s in want_sets}:
                    acc.violate(f"intermediates {sql} cross={cross}", f"got {gen}")
                for mname, fn in (("estimate_cardinalities", lambda: est.estimate_cardinalities(query)), ("generate_plan_parameters", lambda: est.generate_plan_parameters(query, None, None))):
                    res = call(lambda: {frozenset(t.identifier() for t in k): v for k, v in fn().cardinalities.items()})
                    if res[0] != "ok" or {k: float(v) for k, v in res[1].items()} != {k: float(v) * factor for k, v in want.items()}:
                        acc.violate(f"{mname} {ename} {sql} cross={cross} unknown={unknown}", f"got {res}, want {want}")
            if unknown is None and len(connected) == len(subsets) or (len(edges) == size - 1 and frozenset(range(size)) in connected):
                for tree in joinspace.all_trees(size, edges):
                    jt = build_tree(tree, names)
                    est = Fixed(vals, cross)
                    res = call(lambda: {frozenset(t.identifier() for t in k): float(v) for k, v in est.generate_plan_parameters(query, jt, None).cardinalities.items()})
                    sub = {frozenset(names[x] for x in joinspace.leaves(s)) for s in joinspace.subtrees(tree)}
                    w = {s: float(vals[s]) for s in sub if not math.isnan(vals[s])}
                    acc.case((sql, tree, unknown))
                    if res != ("ok", w):
                        acc.violate(f"join order parameters {sql} {tree}", f"got {res}, want {w}")


def build_tree(t, names):
    if isinstance(t, tuple):
        return pb.JoinTree.join(build_tree(t[0], names), build_tree(t[1], names))
    return pb.JoinTree.scan(TableReference(names[t]))


def sub_connected(s, edges):
    s = set(s)
    seen, todo = {min(s)}, [min(s)]
    while todo:
        x = todo.pop()
        for a, b in edges:
            for u, v in ((a, b), (b, a)):
                if u == x and v in s and v not in seen:
                    seen.add(v)
                    todo.append(v)
    return seen == s


def run(c):
    try:
        c.part("values", p_precise_values)
        c.part("histories", p_precise_histories)
        c.part("stored", p_stored)
        c.part("faults", p_faults)
        c.part("distortion", p_distortion)
        c.part("parameters", p_params)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    c.finish()


c = Check("P17", "model_checking",
          "every query of the bounded space x every intermediate x every way of naming it; every history of requests, data changes, cache resets and re-openings of the lookup file up to the stated length under every configuration; "
          "a full disk after every byte while a value is saved; every distortion; every join graph with up to 4 tables; against a nested-loop reference; distinct by input and history")
run(c)
