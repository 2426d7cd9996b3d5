"""P12: optimization pipelines apply exactly the stages that were configured."""
import functools
import itertools

from fakedb import FakeDatabase
from vlib import Check, short, sliced

import postbound as pb
from postbound import (CardinalityEstimator, CompleteOptimizationAlgorithm, CostModel, IncrementalOptimizationStep, JoinOrderOptimization,
                       ParameterGeneration, PhysicalOperatorSelection, PlanEnumerator)
from postbound import IncrementalOptimizationPipeline, IntegratedOptimizationPipeline, MultiStageOptimizationPipeline, TextBookOptimizationPipeline
from postbound._stages import OptimizationStage, as_complete_algorithm
from postbound.train import TrainingDataRepository
from postbound.util._errors import StateError
from postbound.validation import CompoundCheck, EmptyPreCheck, OptimizationPreCheck, PreCheckResult, UnsupportedQueryError, UnsupportedSystemError

Q = [pb.parse_query("SELECT * FROM r, s WHERE r.a = s.a", bind_columns=False), pb.parse_query("SELECT * FROM t WHERE t.b < 3", bind_columns=False)]
QN = {id(Q[0]): "q0", id(Q[1]): "q1"}


class StageError(RuntimeError):
    pass


class Tok:
    """an opaque optimization decision"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


LOG: list = []


def norm(x):
    if id(x) in QN:
        return QN[id(x)]
    if isinstance(x, Tok):
        return x.name
    if isinstance(x, FakeDatabase):
        return x.name
    if isinstance(x, OptimizationStage):
        return x.tag
    if x is None or isinstance(x, (pb.PhysicalOperatorAssignment, pb.PlanParameterization)):
        # an absent decision can be expressed as None or as an empty collection
        return "empty"
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    return x


def record(*event):
    e = tuple(norm(x) for x in event)
    LOG.append(e)
    return Tok(e)


class Req(OptimizationPreCheck):
    def __init__(self, name, bad_q=(), bad_db=(), bare=False):
        super().__init__(name)
        self.bad_q, self.bad_db, self.bare = bad_q, bad_db, bare

    def check_supported_query(self, query):
        return PreCheckResult.with_failure(self.name) if norm(query) in self.bad_q else PreCheckResult.with_all_passed()

    def check_supported_database_system(self, db):
        if db.name in self.bad_db:
            return PreCheckResult(False, [pb.HintType.LinearJoinOrder] if self.bare else self.name)
        return PreCheckResult.with_all_passed()

    def describe(self):
        return {"name": self.name}


class Spec:
    """mixin: a stage with a requirement that can fail for certain queries"""

    def setup(self, tag, bad_q=(), bad_db=(), fail_q=(), check="own", bare=False):
        self.tag = self.name = tag
        self.bad_q, self.bad_db, self.fail_q = bad_q, bad_db, fail_q
        self.check = {"own": Req(tag, bad_q, bad_db, bare), "empty": EmptyPreCheck(), "none": None,
                      "compound": CompoundCheck([Req(tag + "1", bad_q), Req(tag + "2", (), bad_db)])}[check]
        return self

    def pre_check(self):
        return self.check

    def act(self, query, *args):
        tok = record(self.tag, query, *args)
        if norm(query) in self.fail_q:
            raise StageError(self.tag)
        return tok

    def describe(self):
        return {"name": self.tag}


class J(Spec, JoinOrderOptimization):
    def optimize_join_order(self, query):
        return self.act(query)


class O(Spec, PhysicalOperatorSelection):
    def select_physical_operators(self, query, join_order):
        return self.act(query, join_order)


class P(Spec, ParameterGeneration):
    def generate_plan_parameters(self, query, join_order, operator_assignment):
        return self.act(query, join_order, operator_assignment)


class E(Spec, CardinalityEstimator):
    def calculate_estimate(self, query, intermediate):
        raise AssertionError("not reached")

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        record(self.tag + " init", target_db, query)

    def cleanup(self):
        super().cleanup()
        record(self.tag + " cleanup")

    def generate_plan_parameters(self, query, join_order, operator_assignment):
        assert self.target_db is not None
        return self.act(query, join_order, operator_assignment)


class A(Spec, CompleteOptimizationAlgorithm):
    def optimize_query(self, query):
        return self.act(query)


class S(Spec, IncrementalOptimizationStep):
    def optimize_query(self, query, current_plan):
        return self.act(query, current_plan)


class PE(Spec, PlanEnumerator):
    def generate_execution_plan(self, query, *, cost_model, cardinality_estimator):
        return self.act(query, cost_model, cardinality_estimator)


class CM(Spec, CostModel):
    def estimate_cost(self, query, plan):
        raise AssertionError("not reached")


VARIANTS = {
    "ok": dict(),
    "none": dict(check="empty"),
    "rejq": dict(bad_q=("q1",)),
    "rejdb": dict(bad_db=("d2",)),
    "hint": dict(bad_db=("d2",), bare=True),
    "both": dict(bad_q=("q1",), bad_db=("d2",), check="compound"),
    "fail": dict(fail_q=("q1",)),
}


def stage(cls, kind, variant):
    s = cls()
    return s.setup(f"{kind}-{variant}", **VARIANTS[variant])


def hints_event(db, q, jo="empty", ops="empty", params="empty"):
    return (db, "hints", q, "empty", (("join_order", jo), ("physical_operators", ops), ("plan_parameters", params)))


def outcome(f):
    del LOG[:]
    try:
        res = f()
        return ("ok", norm(res), list(LOG))
    except UnsupportedQueryError:
        return ("unsupported query", None, list(LOG))
    except UnsupportedSystemError:
        return ("unsupported system", None, list(LOG))
    except StateError:
        return ("state", None, list(LOG))
    except StageError as e:
        return ("stage failure", str(e), list(LOG))
    except Exception as e:  # noqa: BLE001
        return ("other", short(e), list(LOG))


def describe_ok(pipe):
    try:
        return isinstance(pipe.describe(), dict) and isinstance(str(pipe), str)
    except Exception:
        return False


def explore(acc, i, n, name, moves, depth, fresh):
    """runs all histories; moves are (label, action on the pipeline, step of the reference machine)"""
    for hist in sliced(itertools.product(range(len(moves)), repeat=depth), i, n):
        pipe, ref = fresh()
        labels = []
        for m in hist:
            label, action, step = moves[m]
            labels.append(label)
            got = outcome(lambda: action(pipe))
            want = step(ref)
            acc.step()
            if want is None:
                want = ("ok", None, [])
                got = (got[0], None, [e for e in got[2]])
            if got != want:
                acc.violate(f"{name} {' '.join(labels)}", f"the last operation yields {got} instead of {want}")
                break
        else:
            acc.case((name, hist), got[0], sample=f"{name}: {' '.join(labels)}")
            if not describe_ok(pipe):
                acc.violate(f"{name} describe {' '.join(labels)}", "description fails")


def rejects(checks, what, obj):
    return any(obj in getattr(s, what) for s in checks if s is not None)


# -- multi-stage pipelines ----------------------------------------------------------------------------------------------------

def ms_run(ref, q):
    """the reference: outcome of optimizing query q"""
    if not ref["built"]:
        return ("state", None, [])
    stages = [ref["J"], ref["O"], ref["P"], ref["K"]]
    if rejects(stages, "bad_q", q):
        return ("unsupported query", None, [])
    log, jo, ops, par = [], "empty", "empty", "empty"
    for slot in "JOP":
        s = ref[slot]
        if s is None:
            continue
        if isinstance(s, CardinalityEstimator):
            log.append((s.tag + " init", ref["db"], q))
        e = (s.tag, q, *{"J": (), "O": (jo,), "P": (jo, ops)}[slot])
        log.append(e)
        if q in s.fail_q:
            return ("stage failure", s.tag, log)
        if isinstance(s, CardinalityEstimator):
            log.append((s.tag + " cleanup",))
        if slot == "J":
            jo = e
        elif slot == "O":
            ops = e
        else:
            par = e
    h = hints_event(ref["db"], q, jo, ops, par)
    return ("ok", h, log + [h])


def drop_cleanup(r):
    """whether estimators are cleaned up after a failure is not specified"""
    if r[0] == "stage failure" and r[2] and r[2][-1][0].endswith(" cleanup"):
        return (r[0], r[1], r[2][:-1])
    return r


def multi_stage(acc, i, n, depth, kinds, label):
    dbs = {d: FakeDatabase(d, record) for d in ("d1", "d2")}
    pool = []
    for slot, cls, variant in kinds:
        pool.append((slot, stage(cls, slot if cls is not E else "E", variant)))
    moves = []
    for slot, s in pool:
        def use(ref, slot=slot, s=s):
            ref[slot], ref["built"] = s, False

        moves.append((f"use({s.tag})", lambda p, s=s: p.use(s), use))

    class UserCheck:
        tag, bad_q, bad_db = "K", ("q0",), ()

    def set_check(ref):
        ref["K"], ref["built"] = UserCheck, False

    def unset_check(ref):
        ref["K"], ref["built"] = None, False

    moves.append(("check(rejects q0)", lambda p: p.setup_query_support_check(Req("K", ("q0",))), set_check))
    moves.append(("check(empty)", lambda p: p.setup_query_support_check(EmptyPreCheck()), unset_check))

    def set_db(p, d):
        p.target_db = dbs[d]

    for d in ("d1", "d2"):
        def db(ref, d=d):
            ref["db"], ref["built"] = d, False

        moves.append((f"db={d}", lambda p, d=d: set_db(p, d), db))

    def build(ref):
        if rejects([ref[s] for s in "JOPK"], "bad_db", ref["db"]):
            return ("unsupported system", None, [])
        ref["built"] = True
        return None

    moves.append(("build", lambda p: p.build(), build))
    for k in (0, 1):
        moves.append((f"optimize(q{k})", lambda p, k=k: p.optimize_query(Q[k]), lambda ref, k=k: ms_run(ref, f"q{k}")))

    def plan(ref):
        r = ms_run(ref, "q1")
        if r[0] != "ok":
            return r
        e = (ref["db"], "native plan", r[1])
        return ("ok", e, r[2] + [e])

    moves.append(("plan(q1)", lambda p: p.query_execution_plan(Q[1]), plan))

    def fresh():
        return MultiStageOptimizationPipeline(dbs["d1"]), {"db": "d1", "J": None, "O": None, "P": None, "K": None, "built": False}

    explore_ms(acc, i, n, label, moves, depth, fresh)


def explore_ms(acc, i, n, name, moves, depth, fresh):
    for hist in sliced(itertools.product(range(len(moves)), repeat=depth), i, n):
        pipe, ref = fresh()
        labels = []
        for m in hist:
            label, action, step = moves[m]
            labels.append(label)
            got = drop_cleanup(outcome(lambda: action(pipe)))
            want = step(ref)
            acc.step()
            if want is None:
                want, got = ("ok", None, []), (got[0], None, got[2])
            if got != want:
                acc.violate(f"{name} {' '.join(labels)}", f"the last operation yields {got} instead of {want}")
                break
            configured = {ref[s].tag for s in "JOP" if ref[s] is not None}
            if {s.tag for s in pipe.stages()} != configured or norm(pipe.target_database()) != ref["db"]:
                acc.violate(f"{name} stages {' '.join(labels)}", f"stages are {pipe.stages()}, database is {pipe.target_database()}")
                break
        else:
            acc.case((name, hist), got[0], sample=f"{name}: {' '.join(labels)}")
            if not describe_ok(pipe):
                acc.violate(f"{name} describe {' '.join(labels)}", "description fails")


# -- integrated pipelines -----------------------------------------------------------------------------------------------------

def integrated(acc, i, n, depth):
    dbs = {d: FakeDatabase(d, record) for d in ("d1", "d2")}
    algs = [stage(A, "A", v) for v in ("ok", "rejq", "rejdb", "fail", "both", "none")]
    moves = []
    for s in algs:
        def use(ref, s=s):
            ref["A"], ref["built"] = s, False

        moves.append((f"use({s.tag})", lambda p, s=s: p.use(s), use))

    def set_db(p, d):
        p.target_db = dbs[d]

    for d in ("d1", "d2"):
        def db(ref, d=d):
            ref["db"], ref["built"] = d, False

        moves.append((f"db={d}", lambda p, d=d: set_db(p, d), db))

    def build(ref):
        if ref["A"] is None:
            return ("state", None, [])
        if ref["db"] in ref["A"].bad_db:
            return ("unsupported system", None, [])
        ref["built"] = True
        return None

    moves.append(("build", lambda p: p.build(), build))

    def plan(ref, q):
        if not ref["built"]:
            return ("state", None, [])
        a = ref["A"]
        if q in a.bad_q:
            return ("unsupported query", None, [])
        e = (a.tag, q)
        return ("stage failure", a.tag, [e]) if q in a.fail_q else ("ok", e, [e])

    def optimize(ref, q):
        r = plan(ref, q)
        if r[0] != "ok":
            return r
        h = (ref["db"], "hints", q, r[1], ())
        return ("ok", h, r[2] + [h])

    for k in (0, 1):
        moves.append((f"plan(q{k})", lambda p, k=k: p.query_execution_plan(Q[k]), lambda ref, k=k: plan(ref, f"q{k}")))
    moves.append(("optimize(q1)", lambda p: p.optimize_query(Q[1]), lambda ref: optimize(ref, "q1")))
    explore(acc, i, n, "integrated", moves, depth, lambda: (IntegratedOptimizationPipeline(dbs["d1"]), {"db": "d1", "A": None, "built": False}))


# -- textbook pipelines -------------------------------------------------------------------------------------------------------

def textbook(acc, i, n, depth):
    dbs = {d: FakeDatabase(d, record) for d in ("d1", "d2")}
    for dbname in ("d1", "d2"):
        moves = []
        for slot, cls, variants in (("PE", PE, ("ok", "rejq", "fail")), ("CM", CM, ("ok", "rejdb")), ("CE", E, ("ok", "both"))):
            for v in variants:
                s = stage(cls, slot, v)

                def use(ref, slot=slot, s=s):
                    ref[slot], ref["built"] = s, False

                moves.append((f"use({s.tag})", lambda p, s=s: p.use(s), use))

        def drop(ref):
            ref["CM"], ref["built"] = "missing", False

        moves.append(("cost model=None", lambda p: p.setup_cost_model(None), drop))

        def build(ref):
            if "missing" in (ref["PE"], ref["CM"], ref["CE"]):
                return ("state", None, [])
            if rejects([ref[s] for s in ("PE", "CM", "CE") if ref[s] != "default"], "bad_db", dbname):
                return ("unsupported system", None, [])
            ref["built"] = True
            return None

        moves.append(("build", lambda p: p.build(), build))

        def plan(ref, q):
            if not ref["built"]:
                return ("state", None, [])
            if rejects([ref[s] for s in ("PE", "CM", "CE") if ref[s] != "default"], "bad_q", q):
                return ("unsupported query", None, [])
            pe = ref["PE"]
            e = (pe.tag, q, "default CM" if ref["CM"] == "default" else ref["CM"].tag, "default CE" if ref["CE"] == "default" else ref["CE"].tag)
            return ("stage failure", pe.tag, [e]) if q in pe.fail_q else ("ok", e, [e])

        def optimize(ref, q):
            r = plan(ref, q)
            if r[0] != "ok":
                return r
            h = (dbname, "hints", q, r[1], ())
            return ("ok", h, r[2] + [h])

        for k in (0, 1):
            moves.append((f"plan(q{k})", lambda p, k=k: p.query_execution_plan(Q[k]), lambda ref, k=k: plan(ref, f"q{k}")))
        moves.append(("optimize(q1)", lambda p: p.optimize_query(Q[1]), lambda ref: optimize(ref, "q1")))
        first = stage(PE, "PE", "ok")

        def fresh():
            p = TextBookOptimizationPipeline(dbs[dbname]).use(first)
            for s in p.stages():
                if not hasattr(s, "tag"):
                    s.tag = "default CM" if isinstance(s, CostModel) else "default CE"
            return p, {"PE": first, "CM": "default", "CE": "default", "built": False}

        explore(acc, i, n, f"textbook {dbname}", moves, depth, fresh)


# -- incremental pipelines ----------------------------------------------------------------------------------------------------

def incremental(acc, i, n, depth):
    dbs = {d: FakeDatabase(d, record) for d in ("d1", "d2")}
    moves = []
    for v in ("ok", "rejq", "rejdb", "fail"):
        s = stage(A, "A", v)

        def use(ref, s=s):
            if ref["db"] in s.bad_db:
                return ("unsupported system", None, [])
            ref["A"] = s

        moves.append((f"use({s.tag})", lambda p, s=s: p.use(s), use))

    def drop(p):
        p.initial_plan_generator = None

    moves.append(("initial=None", drop, lambda ref: ref.update(A=None)))
    for v in ("ok", "rejq", "both", "fail"):
        s = stage(S, "S", v)

        def use(ref, s=s):
            if ref["db"] in s.bad_db:
                return ("unsupported system", None, [])
            ref["S"].append(s)

        moves.append((f"use({s.tag})", lambda p, s=s: p.use(s), use))

    def set_db(p, d):
        p.target_db = dbs[d]

    for d in ("d1", "d2"):
        def db(ref, d=d):
            if rejects([ref["A"], *ref["S"]], "bad_db", d):
                return ("unsupported system", None, [])
            ref["db"] = d

        moves.append((f"db={d}", lambda p, d=d: set_db(p, d), db))

    def plan(ref, q):
        if rejects([ref["A"], *ref["S"]], "bad_q", q):
            return ("unsupported query", None, [])
        log = []
        if ref["A"] is None:
            cur = (ref["db"], "native plan", q)
            log.append(cur)
        else:
            cur = (ref["A"].tag, q)
            log.append(cur)
            if q in ref["A"].fail_q:
                return ("stage failure", ref["A"].tag, log)
        for s in ref["S"]:
            cur = (s.tag, q, cur)
            log.append(cur)
            if q in s.fail_q:
                return ("stage failure", s.tag, log)
        return ("ok", cur, log)

    def optimize(ref, q):
        r = plan(ref, q)
        if r[0] != "ok":
            return r
        h = (ref["db"], "hints", q, r[1], ())
        return ("ok", h, r[2] + [h])

    for k in (0, 1):
        moves.append((f"plan(q{k})", lambda p, k=k: p.query_execution_plan(Q[k]), lambda ref, k=k: plan(ref, f"q{k}")))
    moves.append(("optimize(q1)", lambda p: p.optimize_query(Q[1]), lambda ref: optimize(ref, "q1")))
    explore(acc, i, n, "incremental", moves, depth, lambda: (IncrementalOptimizationPipeline(dbs["d1"]), {"db": "d1", "A": None, "S": []}))


# -- single stages as complete algorithms -------------------------------------------------------------------------------------

def emulated(acc, i, n):
    dbs = {d: FakeDatabase(d, record) for d in ("d1", "d2")}
    for (kind, cls), v, hist in sliced(itertools.product((("J", J), ("O", O), ("P", P), ("E", E)), VARIANTS, itertools.product((0, 1), repeat=3)), i, n):
        s = stage(cls, kind, v)
        alg = as_complete_algorithm(s, database=dbs["d1"])
        acc.case(("emulated", kind, v, hist), v)
        if (alg.pre_check() or EmptyPreCheck()) != (s.pre_check() or EmptyPreCheck()) or alg.describe() != s.describe():
            acc.violate(f"emulated {s.tag} check", "requirement or description are not those of the stage")
        for k in hist:
            q = f"q{k}"
            got = outcome(lambda: alg.optimize_query(Q[k]))
            e = (s.tag, q) if kind == "J" else (s.tag, q, "empty") if kind == "O" else (s.tag, q, "empty", "empty")
            log = [e] if kind != "E" else [(s.tag + " init", "d1", q), e, (s.tag + " cleanup",)]
            if q in s.fail_q:
                want = ("stage failure", s.tag, log[:-1] if kind == "E" else log)
            else:
                h = hints_event("d1", q, *[e if kind == x or (x == "P" and kind == "E") else "empty" for x in "JOP"])
                pl = ("d1", "native plan", h)
                want = ("ok", pl, log + [h, pl])
            acc.step()
            if drop_cleanup(got) != want:
                acc.violate(f"emulated {s.tag} {q}", f"{got} instead of {want}")
                break


# -- training -----------------------------------------------------------------------------------------------------------------

class Metrics(dict):
    pass


@functools.lru_cache(maxsize=None)
def make_trainable(base, caps):
    """a stage class with the given training capabilities"""
    body = {"__init__": lambda self: base.__init__(self)}

    def fit(kind):
        def f(self, *a, **k):
            LOG.append((self.tag, kind))
            self.completed.add(kind)
            return {kind: 1}

        return f

    if "db" in caps:
        body["fit_database"], body["database_fit_completed"] = fit("db"), lambda self: "db" in self.completed
    if "wl" in caps:
        body["fit_workload"], body["workload_fit_completed"] = fit("wl"), lambda self: "wl" in self.completed
    if "sample" in caps:
        body["fit_samples"], body["sample_fit_completed"] = fit("sample"), lambda self: "sample" in self.completed
        body["sample_spec"] = lambda self: ("spec", self.tag)
    if "online" in caps:
        body["learn_from_feedback"] = fit("online")
    return type("T", (base,), body)


class Repo(TrainingDataRepository):
    def __init__(self, missing=False):
        self.missing = missing

    def retrieve_merged(self, spec, **kw):
        LOG.append(("retrieve", spec))
        return None if self.missing else Tok("samples")


def training(acc, i, n, depth):
    allcaps = [c for r in range(5) for c in itertools.combinations(("db", "wl", "sample", "online"), r)]
    kinds = [("multi", J, O), ("integrated", A, None), ("textbook", PE, CM), ("incremental", A, S)]
    ops = ("db", "wl", "sample", "repo", "norepo", "online")
    d1 = FakeDatabase("d1", record)
    for (kind, c1, c2), caps1, caps2 in sliced(itertools.product(kinds, allcaps, allcaps), i, n):
        if c2 is None and caps2:
            continue
        for done in (set(), {"db"}, {"wl", "sample"}):
            for hist in itertools.product(ops, repeat=depth):
                stages = []
                for t, (c, caps) in enumerate(((c1, caps1), (c2, caps2))):
                    if c is None:
                        continue
                    s = make_trainable(c, caps)().setup(f"stage{t}")
                    s.completed = {k for k in done if k in caps}
                    s.caps = caps
                    stages.append(s)
                pipe = {"multi": MultiStageOptimizationPipeline, "integrated": IntegratedOptimizationPipeline, "textbook": TextBookOptimizationPipeline, "incremental": IncrementalOptimizationPipeline}[kind](d1)
                for s in stages:
                    pipe.use(s)
                acc.case(("train", kind, caps1, caps2, tuple(sorted(done)), hist), kind)
                sig = f"training {kind} {caps1} {caps2} completed {sorted(done)}"
                req = {"db": pipe.requires_data_training, "wl": pipe.requires_workload_training, "sample": pipe.requires_sample_training, "online": pipe.requires_online_training}
                for k, f in req.items():
                    if bool(f()) != any(k in s.caps for s in stages):
                        acc.violate(f"{sig} requires {k}", f"requirement for {k} is reported as {f()}")
                model = {s.tag: set(s.completed) for s in stages}
                for op in hist:
                    k = "sample" if op in ("repo", "norepo") else op
                    want = {s.tag for s in stages if k in s.caps and (k == "online" or k not in model[s.tag])}
                    f = {"db": lambda: pipe.train_on_database(d1), "wl": lambda: pipe.train_on_workload(None, d1), "sample": lambda: pipe.train_on_samples(Tok("samples")), "repo": lambda: pipe.train_on_samples(Repo()),
                         "norepo": lambda: pipe.train_on_samples(Repo(True)), "online": lambda: pipe.learn_from_feedback(Q[0], [], exec_time=1.0)}[op]
                    del LOG[:]
                    acc.step()
                    try:
                        res = ("ok", {name: list(m) for name, m in f().items()})
                    except ValueError:
                        res = ("missing", None)
                    except Exception as e:  # noqa: BLE001
                        res = ("other", short(e))
                    fits = [e for e in LOG if e[0] != "retrieve"]
                    if op == "norepo" and want:
                        if res[0] != "missing" or fits:
                            acc.violate(f"{sig} {hist} {op}", f"training without data yields {res}, {LOG}")
                            break
                        continue
                    if res != ("ok", {t: [k] for t in want}) or sorted(fits) != sorted((t, k) for t in want):
                        acc.violate(f"{sig} {hist} {op}", f"stages to train: {want}, result {res}, calls {LOG}")
                        break
                    if op == "repo" and {e[1] for e in LOG if e[0] == "retrieve"} != {("spec", t) for t in want}:
                        acc.violate(f"{sig} {hist} repo", f"wrong specifications: {LOG}")
                        break
                    for t in want:
                        model[t].add(k)
                    if bool(pipe.sample_fit_completed()) != all("sample" not in s.caps or "sample" in model[s.tag] for s in stages):
                        acc.violate(f"{sig} {hist} completed", "sample_fit_completed is wrong")
                        break
    if i == 0:
        groups = [("fit_database", "database_fit_completed"), ("fit_workload", "workload_fit_completed"), ("fit_samples", "sample_spec", "sample_fit_completed")]
        meths = [m for g in groups for m in g]
        for bits in range(2 ** len(meths)):
            have = {m for k, m in enumerate(meths) if bits >> k & 1}
            cls = type("Partial", (J,), {m: (lambda self, *a, **k: None) for m in have})
            incomplete = any(0 < len(have & set(g)) < len(g) for g in groups)
            acc.case(("partial", tuple(sorted(have))), incomplete)
            try:
                cls()
                ok = True
            except NotImplementedError:
                ok = False
            if ok == incomplete:
                acc.violate(f"stage methods {sorted(have)}", f"a stage with these training methods is {'accepted' if ok else 'rejected'}")


def run(c: Check):
    t = c.thorough
    d = 6 if t else 5
    c.part("multi-stage-a", lambda acc, i, n: multi_stage(acc, i, n, d, [("J", J, "ok"), ("J", J, "both"), ("O", O, "fail"), ("P", E, "rejq")], "multi-stage"))
    c.part("multi-stage-b", lambda acc, i, n: multi_stage(acc, i, n, d, [("J", J, "fail"), ("O", O, "rejdb"), ("O", O, "none"), ("P", P, "hint"), ("P", E, "fail")], "multi-stage"))
    c.part("integrated", lambda acc, i, n: integrated(acc, i, n, d))
    c.part("textbook", lambda acc, i, n: textbook(acc, i, n, d))
    c.part("incremental", lambda acc, i, n: incremental(acc, i, n, d))
    c.part("emulated", emulated)
    c.part("training", lambda acc, i, n: training(acc, i, n, 3 if t else 2))
    c.finish()


run(Check("P12", "model_checking",
          "every history of configuring, re-configuring, building and using each kind of pipeline up to the stated length, with stages that accept, reject a query, reject a database, or fail, "
          "in lock-step with a reference state machine which predicts the result, the calls of all stages with their arguments, and the hints; training histories for all capability combinations; a case is distinct by its history"))
