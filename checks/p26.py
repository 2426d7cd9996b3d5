"""P26: operator recommendations that are learned from observed plans are those that the recorded costs imply."""
import itertools
import json
import math
import tempfile
import warnings
from pathlib import Path

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import choices  # noqa: E402
import joinspace as js  # noqa: E402
from fakedb import FakeDatabase  # noqa: E402

import postbound as pb  # noqa: E402
from postbound import qal, transform, util  # noqa: E402
from postbound._core import IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO, TableReference  # noqa: E402
from postbound.opt import tonic  # noqa: E402
from postbound.parser import parse_query  # noqa: E402

NAMES = ["a", "b", "c", "d", "e"]


# ---------------------------------------------------------------- reference model
def depth(t):
    return 1 + max(depth(t[0]), depth(t[1])) if isinstance(t, tuple) else 0


def contexts(t, ident):
    """the position of every join in the synopsis: the sequence of inputs that lead to it"""
    ctx = {}

    def go(t, base):
        l, r = t
        if depth(r) < depth(l):
            l, r = r, l
        if not isinstance(r, tuple):
            x, y = sorted((l, r))
            path = base + (ident(x), ident(y))
        else:
            p = go(r, base)
            if not isinstance(l, tuple):
                path = p + (ident(l),)
            else:
                path = p + (frozenset(js.leaves(l)),)
                go(l, path + ("|",))
        ctx[frozenset(js.leaves(t))] = path
        return path

    go(t, ())
    return ctx


class Model:
    def __init__(self, gamma, aware):
        self.gamma, self.aware = gamma, aware
        self.costs = {}

    def ctx(self, q, t):
        return contexts(t, lambda i: (i, QUERIES[q][1].get(i) if self.aware else None))

    def integrate(self, q, t, ops, costs):
        for j, path in self.ctx(q, t).items():
            c = self.costs.setdefault(path, {})
            c[ops[j]] = costs[j] + self.gamma * c.get(ops[j], 0)

    def recommend(self, q, t):
        out = {}
        for j, path in self.ctx(q, t).items():
            c = self.costs.get(path, {})
            if len(c) > 1:
                m = min(c.values())
                out[j] = {o for o, v in c.items() if v <= m * (1 + 1e-12)}
        return out

    def unknown(self, q, t, allowed):
        return {j: frozenset(allowed) - self.costs.get(path, {}).keys() for j, path in self.ctx(q, t).items()}


# ---------------------------------------------------------------- plans and queries
def mk_query(n, filters, alias=""):
    ref = [(alias + x) if alias else x for x in NAMES[:n]]
    frm = ", ".join(f"{x} AS {r}" if alias else x for x, r in zip(NAMES, ref))
    preds = [f"{ref[i]}.k = {ref[j]}.k" for i, j in itertools.combinations(range(n), 2)]
    preds += [f.format(t=ref[i]) for i, f in filters.items()]
    q = parse_query(f"SELECT * FROM {frm} WHERE {' AND '.join(preds)}")
    return q, dict(filters), [TableReference(x, r if alias else "") for x, r in zip(NAMES, ref)]


F1, F2, F3, F4 = {0: "{t}.v = 1"}, {0: "{t}.v = 2"}, {1: "{t}.v = 1 AND {t}.w IN (1, 2)"}, {0: "{t}.v = 1", 2: "{t}.w LIKE 'x%'"}
QUERIES = [mk_query(3, {}), mk_query(3, F1), mk_query(3, F2), mk_query(3, F1, "z"), mk_query(3, F3), mk_query(3, F4, "z"), mk_query(4, {}), mk_query(4, F4), mk_query(5, {}), mk_query(5, F4, "z")]

AUX = ["none", "hash", "sort-both", "deep-inner", "deep-outer", "tall"]


def plan(q, t, ops, costs, aux="none", meas=False):
    tabs = QUERIES[q][2]

    def wrap(node, kinds):
        for k in kinds:
            node = pb.QueryPlan(k.value if k else "Hash", operator=k, children=[node], estimated_cost=node.estimated_cost + 0.5, estimated_cardinality=node.estimated_cardinality, **(dict(actual_cardinality=node.actual_cardinality) if meas else {}))
        return node

    def go(t):
        if not isinstance(t, tuple):
            kw = dict(actual_cardinality=t + 4) if meas else {}
            return pb.QueryPlan("Seq Scan", operator=SO.SequentialScan, base_table=tabs[t], estimated_cost=0.25, estimated_cardinality=t + 1, **kw)
        o, i = go(t[0]), go(t[1])
        j = frozenset(js.leaves(t))
        if aux == "hash":
            i = wrap(i, [None])
        elif aux == "sort-both":
            o, i = wrap(o, [IO.Sort]), wrap(i, [IO.Sort])
        elif aux == "deep-inner" and not isinstance(t[1], tuple):
            i = wrap(i, [IO.Sort, IO.Materialize, None, IO.Memoize])
        elif aux == "deep-outer" and not isinstance(t[0], tuple):
            o = wrap(o, [IO.Sort, IO.Materialize, None, IO.Memoize])
        elif aux == "tall":
            o = wrap(o, [IO.Sort, IO.Materialize] * 2)
        kw = dict(actual_cardinality=sum(js.leaves(t)) + 40) if meas else {}
        return pb.QueryPlan(ops[j].value, operator=ops[j], children=[o, i], estimated_cost=costs[j], estimated_cardinality=10 + len(j), **kw)

    top = go(t)
    return wrap(top, [None, IO.Sort]) if aux in ("hash", "tall") else top


def tree(q, t):
    tabs = QUERIES[q][2]
    go = lambda t: pb.JoinTree.join(go(t[0]), go(t[1])) if isinstance(t, tuple) else pb.JoinTree.scan(tabs[t])
    return go(t)


def to_idx(q, tables, strict=True):
    tabs = QUERIES[q][2]
    names = [t.full_name for t in tabs]
    return frozenset(tabs.index(t) if strict else names.index(t.full_name) for t in tables)


OPS = [JO.HashJoin, JO.NestedLoopJoin, JO.SortMergeJoin]


def check_model(acc, what, sel, model, probes, key, unknown=True):
    for q, t in probes:
        want = model.recommend(q, t)
        try:
            got = sel.select_physical_operators(QUERIES[q][0], tree(q, t))
        except Exception as e:  # noqa: BLE001
            acc.violate(f"{what}: no recommendation possible", f"{key} query {q} tree {t}: {short(e)}")
            continue
        if got.scan_operators or got.global_settings:
            acc.violate(f"{what}: additional decisions", f"{key} query {q} tree {t}: {got}")
        ops = {frozenset(j): a.operator for j, a in got.join_operators.items()}
        try:
            ops = {to_idx(q, j): o for j, o in ops.items()}
        except ValueError:
            acc.violate(f"{what}: recommendation for tables that the query does not contain", f"{key} query {q} tree {t}: {ops}")
            continue
        if set(ops) != set(want):
            sig = "missing" if set(want) - set(ops) else "unfounded"
            acc.violate(f"{what}: {sig} recommendation", f"{key} query {q} tree {t}: {ops} instead of {want}")
        elif any(ops[j] not in want[j] for j in ops):
            acc.violate(f"{what}: recommends an operator that is not the cheapest", f"{key} query {q} tree {t}: {ops} instead of {want}")
        if unknown:
            try:
                u = sel.qeps.detect_unknown_costs(QUERIES[q][0], tree(q, t), set(OPS))
                u = {to_idx(q, j, strict=False): frozenset(o) for j, o in u.items()}
            except Exception as e:  # noqa: BLE001
                acc.violate(f"{what}: unknown operators cannot be detected", f"{key} query {q} tree {t}: {short(e)}")
                continue
            w = model.unknown(q, t, OPS)
            if u != w:
                acc.violate(f"{what}: wrong unknown operators", f"{key} query {q} tree {t}: {u} instead of {w}")


def fresh(gamma, aware, db=None):
    return tonic.TonicOperatorSelection(aware, gamma, database=db or FakeDatabase("x", lambda *_: None))


def observe(sel, model, obs):
    q, t, ops, costs, aux = obs
    sel.integrate_cost(QUERIES[q][0], plan(q, t, ops, costs, aux))
    model.integrate(q, t, ops, costs)


def joinsets(t):
    return [frozenset(js.leaves(s)) for s in js.joins(t)]


# ---------------------------------------------------------------- histories
TREES3 = [((0, 1), 2), (2, (0, 1)), ((0, 2), 1), ((2, 1), 0)]


def obs_space(queries, trees, costs=((10, 10), (6, 25))):
    out = []
    for q, t in itertools.product(queries, trees):
        jl = joinsets(t)
        for o in itertools.product(OPS[:2], repeat=len(jl)):
            for c in costs:
                out.append((q, t, dict(zip(jl, o)), dict(zip(jl, c)), AUX[len(out) % len(AUX)]))
    return out


def name(obs):
    return [(q, t, {"".join(NAMES[i] for i in sorted(j)): o.name for j, o in ops.items()}, list(costs.values()), aux) for q, t, ops, costs, aux in obs]


def run_history(acc, what, hist, gamma, aware, probes, persist=None):
    sel, model = fresh(gamma, aware), Model(gamma, aware)
    key = f"gamma {gamma} filter-aware {aware} after {name(hist)}"
    acc.case((what, gamma, aware, str(name(hist))), "ok")
    for k, o in enumerate(hist):
        try:
            observe(sel, model, o)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"{what}: observation fails", f"{key}: {short(e)}")
            return
        acc.step(1)
        if persist is not None and k in persist:
            with tempfile.TemporaryDirectory() as d:
                f = Path(d) / "model.json"
                try:
                    f.write_text(util.to_json(sel))
                    sel2 = tonic.TonicOperatorSelection.load_model(str(f), FakeDatabase("x", lambda *_: None))
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"{what}: model cannot be loaded", f"{key}: {short(e)}")
                    return
                if (sel2.filter_aware, sel2.gamma) != (aware, gamma):
                    acc.violate(f"{what}: settings get lost", f"{key}: {sel2.describe()}")
                if json.loads(util.to_json(sel2)) and json_norm(json.loads(util.to_json(sel2))) != json_norm(json.loads(f.read_text())):
                    acc.violate(f"{what}: loaded model is different", key)
                sel = sel2
    check_model(acc, what, sel, model, probes, key)


def json_norm(x):
    if isinstance(x, dict):
        return tuple(sorted((k, json_norm(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ("list", tuple(sorted((json_norm(v) for v in x), key=repr)))
    return x


def histories(acc, i, n, deep):
    queries = [0, 1, 2, 3] if deep else [0, 1, 3]
    space = obs_space(queries, TREES3)
    probes = list(itertools.product(queries + [5], TREES3))
    for h in sliced(itertools.product(space, repeat=2), i, n):
        for aware in (False, True):
            run_history(acc, "two observations", h, 0.8, aware, probes)
    small = obs_space([1, 3] if not deep else [1, 2, 3], TREES3[:2] if not deep else TREES3[:3], costs=((10, 10), (6, 25)))
    for h in sliced(itertools.product(small, repeat=3), i, n):
        if h[0][3] == h[1][3] == h[2][3]:
            continue
        for gamma in (0, 0.5, 1) if deep else (0.5,):
            run_history(acc, "three observations", h, gamma, True, probes[:8])


def filters(acc, i, n, deep):
    """all pairs of queries with different filters: observations only count for the same filters"""
    space = obs_space([0, 1, 2, 3, 4, 5], TREES3[:3], costs=((10, 7),))
    probes = list(itertools.product([0, 1, 2, 3, 4, 5], TREES3))
    for h in sliced(itertools.product(space, repeat=2), i, n):
        run_history(acc, "filters", h, 0.8, True, probes)


# ---------------------------------------------------------------- all tree shapes
def shapes(acc, i, n, deep):
    four = js.all_shapes(4)
    five = js.all_shapes(5)
    jobs = [(6, t, aux, bits) for t in four for aux in AUX for bits in range(8)]
    jobs += [(7, t, aux, bits) for t in four for aux in AUX for bits in (range(8) if deep else (2, 5))]
    for k, t in enumerate(five):
        for aux in AUX if deep else (AUX[k % 6], AUX[(k + 3) % 6]):
            for bits in range(16) if deep else (5, 10):
                jobs.append((8 + k % 2, t, aux, bits))
    for q, t, aux, bits in sliced(jobs, i, n):
        jl = joinsets(t)
        a = {j: OPS[0] for j in jl}
        b = {j: OPS[1] for j in jl}
        ca = {j: 10 + k for k, j in enumerate(jl)}
        cb = {j: (5 if bits >> k & 1 else 20) + k for k, j in enumerate(jl)}
        run_history(acc, "tree shapes", [(q, t, a, ca, "none"), (q, t, b, cb, aux)], 0.8, q in (7, 9), [(q, t)])


def sharing(acc, i, n, deep):
    """observations of one join order are used for exactly those joins of another one that they belong to"""
    four = js.all_shapes(4)
    pick = four if deep else [t for t in four if sorted(js.leaves(t))[0] == js.leaves(t)[0] or not js.is_linear(t)]
    for t in sliced(pick, i, n):
        jl = joinsets(t)
        hist = [(6, t, {j: OPS[x] for j in jl}, {j: (10 + k) * (x + 1) ** (-1 if k % 2 else 1) for k, j in enumerate(jl)}, "hash" if x else "none") for x in (0, 1)]
        run_history(acc, "other join orders", hist, 0.8, False, [(6, x) for x in four])


# ---------------------------------------------------------------- persistence
def persistence(acc, i, n, deep):
    space = obs_space([0, 1, 3, 4, 5], TREES3[:3], costs=((10, 7), (6, 25)))
    probes = list(itertools.product([0, 1, 3, 4, 5], TREES3))
    pairs = itertools.product(space, repeat=2)
    step = 1 if deep else 7
    for k, h in enumerate(sliced((h for k, h in enumerate(pairs) if k % step == 0), i, n)):
        for aware in (False, True):
            run_history(acc, "saved models", h, 0.8, aware, probes, persist=[(0,), (1,), (0, 1)][k % 3])
    for k, t in enumerate(sliced(js.all_shapes(4) + (js.all_shapes(5) if deep else []), i, n)):
        jl = joinsets(t)
        nt = len(js.leaves(t))
        q = {4: (6, 7), 5: (8, 9)}[nt][k % 2]
        hist = [(q, t, {j: OPS[x] for j in jl}, {j: 3 + (x + m) % 3 for m, j in enumerate(jl)}, "none") for x in (0, 1, 2)]
        run_history(acc, "saved models of bushy plans", hist, 1, q in (7, 9), [(q, t)], persist=(1, 2))
    if i == 0:
        run_history(acc, "saved empty models", [], 0.8, False, probes)
        sel = fresh(0.3, True)
        with tempfile.TemporaryDirectory() as d:
            f = Path(d) / "m.json"
            f.write_text(util.to_json(sel))
            try:
                s2 = tonic.TonicOperatorSelection.load_model(str(f), FakeDatabase("x", lambda *_: None))
                acc.case(("empty", "load"), "ok")
                if (s2.gamma, s2.filter_aware) != (0.3, True):
                    acc.violate("saved empty models: settings get lost", str(s2.describe()))
                observe(s2, Model(0.3, True), space[0])
            except Exception as e:  # noqa: BLE001
                acc.violate("saved empty models: model cannot be loaded", short(e))
        sel, model = fresh(0.8, True), Model(0.8, True)
        for o in space[:20]:
            observe(sel, model, o)
        sel.reset()
        acc.case(("reset",), "ok")
        check_model(acc, "reset", sel, Model(0.8, True), probes, "after reset")


# ---------------------------------------------------------------- active exploration against a scripted database
class Script:
    """plans are a function of the hints in the query; costs are a function of (join, operator)"""

    def __init__(self, q, t):
        self.q, self.t = q, t
        self.hinted = {}
        self.runs = []
        self.problem = None
        self.db = FakeDatabase("x", self.call)

    def cost(self, j, op):
        return (3 + sum(1 << x for x in j) * 7 % 11) * (1 + OPS.index(op) * (1 if len(j) % 2 else -0.3))

    def key(self, query):
        return query.hints.query_hints if query.hints else None

    def mark(self, query, what):
        k = f"hint {len(self.hinted)}"
        self.hinted[k] = what
        return transform.add_clause(transform.drop_hints(query), qal.Hint("", k))

    def call(self, db, kind, *args):
        base = {j: OPS[0] for j in joinsets(self.t)}
        if kind == "hints":
            query, p, kw = args
            kw = dict(kw)
            if p is not None:
                cards = {to_idx(self.q, x.tables()): (float(x.estimated_cardinality), x.operator) for x in p.iternodes() if x.is_join() or x.is_scan()}
                return self.mark(query, ("plan", cards))
            ops = {to_idx(self.q, j): a.operator for j, a in kw["physical_operators"].join_operators.items()}
            if not kw.get("join_order"):
                self.problem = "hints without a join order"
            return self.mark(query, ("ops", ops))
        if kind in ("analyze", "native plan"):
            h = self.hinted.get(self.key(args[0]))
            meas = kind == "analyze"
            if h is None:
                return plan(self.q, self.t, base, {j: 1000 for j in base}, meas=meas)
            if h[0] == "ops":
                if kind == "native plan":
                    self.problem = "costs are not those for the true cardinalities"
                return plan(self.q, self.t, h[1], {j: 1000 for j in h[1]}, meas=meas)
            ops = {j: o for j, (_, o) in h[1].items() if len(j) > 1}
            for j, (c, _) in h[1].items():
                if c != (sum(j) + 40 if len(j) > 1 else min(j) + 4):
                    self.problem = f"cardinality {c} for {sorted(j)} is not the true one"
            self.runs.append(tuple(sorted((tuple(sorted(j)), o.name) for j, o in ops.items())))
            return plan(self.q, self.t, ops, {j: self.cost(j, o) for j, o in ops.items()}, "hash")
        raise NotImplementedError(kind)


def exploration(acc, i, n, deep):
    cases = [(0, t) for t in js.all_shapes(3)] + [(3, t) for t in js.all_shapes(3)]
    cases += [(6, t) for t in js.all_shapes(4) if deep or js.leaves(t)[0] == 0]
    for (q, t), native, allowed, unsupported, limit in sliced(itertools.product(cases, (False, True), (None, OPS[:2], OPS[1:]), (False, True), (None, 1000)), i, n):
        s = Script(q, t)
        s.db.hinting().unsupported = set(JO) - set(OPS) | ({JO.SortMergeJoin} if unsupported else set())
        sel = fresh(1, True, s.db)
        ops = [o for o in OPS if (allowed is None or o in allowed) and not (unsupported and o == JO.SortMergeJoin)]
        key = f"query {q} tree {t} native order {native} allowed {allowed} unsupported {unsupported} limit {limit}"
        acc.case(("explore", key), "ok")
        try:
            sel.explore_costs(QUERIES[q][0], None if native else tree(q, t), allowed_operators=allowed, max_combinations=limit)
        except Exception as e:  # noqa: BLE001
            acc.violate("exploration: fails", f"{key}: {short(e)}")
            continue
        acc.step(len(s.runs))
        if s.problem:
            acc.violate("exploration: " + s.problem.split(" for ")[0].rstrip("0123456789. "), f"{key}: {s.problem}")
        jl = joinsets(t)
        want = sorted(tuple(sorted((tuple(sorted(j)), o.name) for j, o in zip(jl, c))) for c in itertools.product(ops, repeat=len(jl)))
        if sorted(s.runs) != want:
            acc.violate("exploration: not every combination is measured once", f"{key}: {len(s.runs)} runs, {len(want)} combinations")
            continue
        model = Model(1, True)
        for c in itertools.product(ops, repeat=len(jl)):
            o = dict(zip(jl, c))
            model.integrate(q, t, o, {j: s.cost(j, x) for j, x in o.items()})
        check_model(acc, "exploration", sel, model, [(q, t)], key)
    # simulated feedback and native join orders
    for (q, t), empty in sliced(itertools.product(cases, (None, pb.JoinTree.empty())), i, n):
        s = Script(q, t)
        sel = fresh(0.8, True, s.db)
        model = Model(0.8, True)
        acc.case(("feedback", q, t, empty is None), "ok")
        jl = joinsets(t)
        base = {j: OPS[0] for j in jl}
        try:
            sel.simulate_feedback(QUERIES[q][0])
            model.integrate(q, t, base, {j: s.cost(j, OPS[0]) for j in jl})
            sel.integrate_cost(QUERIES[q][0])  # plan of the database
            model.integrate(q, t, base, {j: 1000 for j in jl})
            o2 = (q, t, {j: OPS[1] for j in jl}, {j: 700 + 40 * k for k, j in enumerate(jl)}, "none")
            observe(sel, model, o2)
            got = sel.select_physical_operators(QUERIES[q][0], empty)
        except Exception as e:  # noqa: BLE001
            acc.violate("feedback: fails", f"query {q} tree {t}: {short(e)}")
            continue
        if s.problem:
            acc.violate("feedback: " + s.problem.split(" for ")[0].rstrip("0123456789. "), f"query {q} tree {t}: {s.problem}")
        ops = {to_idx(q, j): a.operator for j, a in got.join_operators.items()}
        want = model.recommend(q, t)
        if set(ops) != set(want) or any(ops[j] not in want[j] for j in ops):
            acc.violate("feedback: wrong recommendation for the native join order", f"query {q} tree {t}: {ops} instead of {want}")
        check_model(acc, "feedback", sel, model, [(q, t)], f"feedback query {q} tree {t}")


def sampling(acc, i, n, deep):
    """all outcomes of the random choices when the number of combinations is limited"""
    if i:
        return
    t = ((0, 1), 2)
    for limit, allowed in [(1, OPS[:2]), (2, OPS[:2]), (3, OPS[:2])] + ([(2, OPS)] if deep else []):
        def once():
            s = Script(0, t)
            s.db.hinting().unsupported = set(JO) - set(OPS)
            sel = fresh(1, True, s.db)
            sel.explore_costs(QUERIES[0][0], tree(0, t), allowed_operators=allowed, max_combinations=limit)
            return s, sel

        for trace, kind, val in choices.explore(once, depth=40):
            acc.case(("sample", limit, len(allowed), tuple(trace)), kind)
            if kind != "ok":
                acc.violate("limited exploration: fails", f"limit {limit} choices {trace}: {val}")
                continue
            s, sel = val
            acc.step(len(s.runs))
            if not 1 <= len(s.runs) <= limit:
                acc.violate("limited exploration: limit is not respected", f"limit {limit} choices {trace}: {len(s.runs)} runs")
            if len(set(s.runs)) != len(s.runs):
                acc.violate("limited exploration: combination is measured repeatedly", f"limit {limit} choices {trace}: {s.runs}")
            model = Model(1, True)
            for r in s.runs:
                o = {frozenset(j): JO[x] for j, x in r}
                model.integrate(0, t, o, {j: s.cost(j, x) for j, x in o.items()})
            check_model(acc, "limited exploration", sel, model, [(0, t)], f"limit {limit} runs {s.runs}")


def run(c):
    d = c.thorough
    c.part("histories", lambda acc, i, n: histories(acc, i, n, d))
    c.part("filters", lambda acc, i, n: filters(acc, i, n, d))
    c.part("tree shapes", lambda acc, i, n: shapes(acc, i, n, d))
    c.part("other join orders", lambda acc, i, n: sharing(acc, i, n, d))
    c.part("persistence", lambda acc, i, n: persistence(acc, i, n, d))
    c.part("exploration", lambda acc, i, n: exploration(acc, i, n, d))
    c.part("limited exploration", lambda acc, i, n: sampling(acc, i, n, d), parallel=False)


Check("P26", "model_checking", "one case per observation history (sequence of observed plans) and model setting; every case compares the recommendations for all probed queries and join orders with a reference model").main(run)
