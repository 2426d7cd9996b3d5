"""P29: the native stages ask the target database for exactly the decision that they are responsible for and hand its answer on unchanged."""
import itertools
import math
import warnings
import zlib

import fakedb
import joinspace as js
from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import postbound as pb  # noqa: E402
from postbound import (Cardinality, ColumnReference, IntermediateOperator, JoinOperator, JoinTree, PhysicalOperatorAssignment, PlanParameterization, QueryPlan, ScanOperator,  # noqa: E402
                       TableReference)
from postbound import _qep, transform, util  # noqa: E402
from postbound.db import DatabasePool, DatabaseServerError, DatabaseUserError  # noqa: E402
from postbound.opt import native, noopt, presets, ues  # noqa: E402
from postbound.postgres import PostgresInterface  # noqa: E402
from postbound.qal import BinaryPredicate, ColumnExpression, FunctionExpression, Hint, SqlQuery  # noqa: E402

S, J, I = ScanOperator, JoinOperator, IntermediateOperator


# -- a scripted server -----------------------------------------------------------------------------------------------------------

def price(sig) -> float:
    return float(zlib.crc32(repr(sig).encode()) % 1000000 + 1)


def sig(p):
    return (p.operator.name if p.operator else p.node_type, p.base_table.identifier() if p.base_table else None, str(p.estimated_cardinality), tuple(sig(c) for c in p.children))


def rebuild(p, drop=False):
    """the server's version of a plan that was requested"""
    kids = [rebuild(c, drop) for c in p.children]
    if drop and p.operator in (I.Materialize, I.Memoize):
        return kids[0]
    out = QueryPlan(p.operator or p.node_type, base_table=p.base_table, children=kids, estimated_cardinality=p.estimated_cardinality)
    return out.with_estimates(cost=price(sig(out)))


def wrap(kind, p):
    out = QueryPlan(kind, children=[p], estimated_cardinality=p.estimated_cardinality)
    return out.with_estimates(cost=price(sig(out)))


class Server:
    def __init__(self, mode):
        self.mode, self.asked, self.calls = mode, {}, []

    def hints(self, query, plan):
        q = transform.add_clause(query, Hint("", f"/*{len(self.asked)}*/"))
        self.asked[f"/*{len(self.asked)}*/"] = (query, plan)
        return q

    def plan(self, query, what):
        source, plan = self.asked[query.hints.query_hints] if query.hints else (query, None)
        self.calls.append((what, source, plan))
        counting = str(query.select_clause).upper().startswith("SELECT COUNT(*)")
        if self.mode == "down":
            raise DatabaseServerError("server is down")
        if self.mode == "user":
            raise DatabaseUserError("not a valid query", "42601")
        if counting and query.orderby_clause:
            raise DatabaseUserError("column must appear in the GROUP BY clause", "42803")
        if plan.is_scan() and plan.operator in (S.IndexScan, S.IndexOnlyScan) and self.mode in ("index-count", "index-other"):
            if not counting:
                raise DatabaseServerError("could not apply hints")
            if self.mode == "index-other":
                plan = QueryPlan(S.SequentialScan, base_table=plan.base_table, estimated_cardinality=plan.estimated_cardinality)
        if self.mode == "extra" and len(plan.children) == 2:
            # more intermediate nodes than requested, other order of the inputs, gathered
            res = QueryPlan(plan.operator, children=[rebuild(plan.inner_child), wrap(I.Materialize, wrap(I.Memoize, rebuild(plan.outer_child)))])
            res = wrap("Gather", res)
        else:
            res = rebuild(plan, self.mode == "drop")
        if query.orderby_clause:
            res = wrap(I.Sort, res)
            res = res.with_estimates(cost=price((sig(res), str(query.orderby_clause))))
        if counting:
            res = wrap("Aggregate", res)
        return res


class Schema:
    def columns(self, table):
        return [ColumnReference(x, table) for x in ("a", "f", "c0", "c1", "c2", "c3")]


class Hints:
    def __init__(self, srv):
        self.srv = srv

    def generate_hints(self, query, plan=None, **kw):
        assert plan is not None and not kw
        return self.srv.hints(query, plan)


class Optimizer:
    def __init__(self, srv):
        self.srv = srv

    def query_plan(self, query):
        return self.srv.plan(query, "plan")

    def cost_estimate(self, query):
        return self.srv.plan(query, "cost").estimated_cost


class Pg(PostgresInterface):
    def __init__(self, srv):
        self.srv = srv

    def schema(self):
        return Schema()

    def hinting(self):
        return Hints(self.srv)

    def optimizer(self):
        return Optimizer(self.srv)

    def describe(self):
        return {"name": "scripted"}

    def __del__(self):
        pass


# -- reference -------------------------------------------------------------------------------------------------------------------

def build(t, ops, tabs, cards):
    """a plan for a tree of table indexes; ops and cards are iterators"""
    est, act = next(cards)
    kw = {"estimated_cardinality": Cardinality(est), **({"actual_cardinality": Cardinality(act)} if act is not None else {})}
    if not isinstance(t, tuple):
        return QueryPlan(next(ops)[0], base_table=tabs[t], **kw)
    op = next(ops)[1]
    return QueryPlan(op, children=[build(t[0], ops, tabs, cards), build(t[1], ops, tabs, cards)], **kw)


def want_plan(p):
    """the plan that must be requested: the same nodes, measured cardinalities replace estimates"""
    act = p.actual_cardinality
    card = p.estimated_cardinality if act is None or act.isnan() else act
    return (p.operator.name if p.operator else p.node_type, p.base_table.identifier() if p.base_table else None, str(card), tuple(want_plan(c) for c in p.children))


def got_plan(p):
    return (p.operator.name if p.operator else p.node_type, p.base_table.identifier() if p.base_table else None, str(p.estimated_cardinality), tuple(got_plan(c) for c in p.children))


def preds(q):
    return sorted(map(str, q.predicates().root.base_predicates())) if not q.predicates().is_empty() else []


def contained(q, tabs):
    return sorted(str(p) for p in q.predicates().root.base_predicates() if p.tables() <= tabs) if not q.predicates().is_empty() else []


def is_fragment(q, sub, tabs, projections):
    if {t.identifier() for t in sub.tables()} != {t.identifier() for t in tabs}:
        return f"query over {sorted(t.identifier() for t in sub.tables())} instead of {sorted(t.identifier() for t in tabs)}"
    if preds(sub) != contained(q, tabs):
        return f"predicates {preds(sub)} instead of {contained(q, tabs)}"
    if str(sub.select_clause) not in projections:
        return f"projection {sub.select_clause}"
    return ""


MODES = ("honour", "drop", "extra", "index-count", "index-other", "down", "user")
FAIL = ("down", "user")
OPSETS = [
    [(S.SequentialScan, J.HashJoin)] * 9,
    [(S.BitmapScan, J.NestedLoopJoin), (S.IndexScan, J.SortMergeJoin), (S.SequentialScan, J.HashJoin)] * 3,
    [(S.IndexScan, J.SortMergeJoin), (S.IndexOnlyScan, J.NestedLoopJoin)] * 5,
    [(S.IndexOnlyScan, J.NestedLoopJoin)] * 9,
]
CARDS = [[(10 * k + 3, None) for k in range(1, 12)], [(10 * k + 3, 7 * k) for k in range(1, 12)], [(10 * k + 3, 7 * k if k % 2 else None) for k in range(1, 12)]]


def judge(acc, label, q, plan, mode, strict, verbose, root, cost):
    """asks the real cost model and compares the answer and the request with the definition"""
    srv = Server(mode)
    cm = native.NativeCostModel(raise_on_error=strict, verbose=verbose)
    cm.initialize(Pg(srv), q)
    acc.step()
    head = f"{root} {mode}{' strict' if strict else ''}"
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            res = ("cost", cm.estimate_cost(q, plan))
        except (DatabaseServerError, DatabaseUserError):
            res = ("db-error", None)
        except ValueError:
            res = ("value-error", None)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"{head}: raises", f"{label}: {short(e)}")
            return
    warned = any(issubclass(w.category, native.CostEstimationWarning) for w in ws)
    want = cost(srv)
    acc.case((label, mode, strict, verbose), f"{root}: {want[0]}")
    if want[0] == "bad":
        acc.violate(f"{head}: request", f"{label}: {want[1]}")
        return
    if want[0] == "fail":
        want = ("db-error", None) if strict else ("cost", math.inf)
    if res != want:
        acc.violate(f"{head}: answer", f"{label}: {res} instead of {want}, calls {[(c[0], str(c[1])) for c in srv.calls]}")
    if warned and not verbose:
        acc.violate(f"{head}: warns without being asked to", f"{label}: {[str(w.message)[:80] for w in ws]}")


def queries(n, full):
    for edges in js.graphs(n, connected=True):
        for flt in ((), tuple(range(n))[:2]):
            for select in ("*", "count(*)", "r.a, s.a" if n > 1 else "r.f", "r.a")[: 4 if full else 3]:
                yield edges, js.sql(n, edges, filters=flt, select=select)


def plans(q, edges, n, full):
    trees = js.all_trees(n, edges)
    tabs = sorted(q.tables(), key=lambda t: t.identifier())
    order = {t.identifier(): t for t in tabs}
    tabs = [order[x] for x in js.NAMES[:n]]
    for t in sub_trees(trees, n):
        for ops in OPSETS:
            for cards in CARDS if full else CARDS[::2]:
                yield t, build(t, iter(ops), tabs, iter(cards)), tabs


def sub_trees(trees, n):
    """all cross product free trees over all connected subsets of tables"""
    seen = {}
    for t in trees:
        for s in list(js.subtrees(t)) + list(range(n)):
            seen.setdefault(repr(s), s)
    return list(seen.values())


def plain(srv, q, plan, tabs):
    root_index = plan.operator in (S.IndexScan, S.IndexOnlyScan)
    costs = [c for c in srv.calls if c[0] == "cost"]
    if len(costs) != 1:
        return ("bad", f"{len(costs)} cost requests")
    for what, sub, hinted in srv.calls:
        msg = is_fragment(q, sub, tabs, {str(q.select_clause), "SELECT *"} | ({str(sub.select_clause)} if "count" not in str(q.select_clause).lower() else set()) if what == "cost" else {"SELECT COUNT(*)", "SELECT count(*)"})
        if not msg and got_plan(hinted) != want_plan(plan):  # the requested plan is exactly the given one
            msg = f"hinted plan {got_plan(hinted)} instead of {want_plan(plan)}"
        if msg:
            return ("bad", msg)
    counting = str(costs[0][1].select_clause).upper() == "SELECT COUNT(*)"
    if srv.mode in FAIL:
        return ("fail", None)
    ref = rebuild(plan.with_actual_card())
    if root_index and srv.mode in ("index-count", "index-other"):
        if counting:  # the query is a count query already
            if srv.mode == "index-count":
                return ("cost", price(("Aggregate", None, str(ref.estimated_cardinality), (sig(ref),))))
            ref = rebuild(QueryPlan(S.SequentialScan, base_table=ref.base_table, estimated_cardinality=ref.estimated_cardinality))
            return ("cost", price(("Aggregate", None, str(ref.estimated_cardinality), (sig(ref),))))
        return ("cost", ref.estimated_cost) if srv.mode == "index-count" else ("fail", None)
    if srv.mode == "extra" and len(plan.children) == 2:
        hinted = costs[0][2]
        res = wrap("Gather", QueryPlan(hinted.operator, children=[rebuild(hinted.inner_child), wrap(I.Materialize, wrap(I.Memoize, rebuild(hinted.outer_child)))]))
    else:
        res = ref
    if counting:
        res = wrap("Aggregate", res)
    return ("cost", res.estimated_cost)


def topped(srv, q, plan, tabs, partners):
    if not partners:
        return ("bad", "request without a join partner") if srv.calls else ("fail", None)
    if len(srv.calls) != 1:
        return ("bad", f"{len(srv.calls)} requests")
    what, sub, hinted = srv.calls[0]
    if what != "plan" or hinted.operator != J.NestedLoopJoin or len(hinted.children) != 2:
        return ("bad", f"{what} of {hinted.node_type}")
    top = hinted.outer_child
    if not top.is_scan() or top.base_table not in partners or got_plan(hinted.inner_child) not in (want_plan(plan), got_plan(plan)):
        return ("bad", f"plan {got_plan(hinted)}")
    msg = is_fragment(q, sub, tabs | {top.base_table}, {"SELECT *"})
    if msg:
        return ("bad", msg)
    if srv.mode in FAIL or srv.mode == "drop":
        return ("fail", None)
    return ("cost", rebuild(hinted.inner_child).estimated_cost)


def sort(srv, q, plan, tabs, keys):
    """keys: the usable columns of each sort key"""
    if any(not k for k, _ in keys):
        return ("bad", "request without a sort column") if srv.calls else ("fail", None)
    inner = plan.input_node
    costs = [c for c in srv.calls if c[0] == "cost"]
    if len(costs) != 1:
        return ("bad", f"{len(costs)} cost requests")
    _, sub, hinted = costs[0]
    msg = is_fragment(q, sub, tabs, {"SELECT *"})
    if msg:
        return ("bad", msg)
    order = sub.orderby_clause.expressions if sub.orderby_clause else ()
    if len(order) != len(keys) or any(o.column not in {ColumnExpression(c) for c in k} or (o.ascending is not False) != asc for o, (k, asc) in zip(order, keys)):
        return ("bad", f"sorted by {sub.orderby_clause} instead of {[(list(map(str, k)), asc) for k, asc in keys]}")
    if got_plan(hinted) != want_plan(inner):
        return ("bad", f"hinted plan {got_plan(hinted)} instead of {want_plan(inner)}")
    index = inner.operator in (S.IndexScan, S.IndexOnlyScan)
    if srv.mode in FAIL or (index and srv.mode in ("index-count", "index-other")):
        return ("fail", None)
    if srv.mode == "extra" and len(inner.children) == 2:
        res = wrap("Gather", QueryPlan(hinted.operator, children=[rebuild(hinted.inner_child), wrap(I.Materialize, wrap(I.Memoize, rebuild(hinted.outer_child)))]))
    else:
        res = rebuild(hinted)
    return ("cost", price((sig(wrap(I.Sort, res)), str(sub.orderby_clause))))


def p_cost(acc, i, n, maxn, full):
    work = [(k, e, s) for k in range(1, maxn + 1) for e, s in queries(k, full)]
    for k, edges, text in sliced(work, i, n):
        q = pb.parse_query(text, bind_columns=False)
        partners_of = {x: {y for e in edges for y in e if x in e and y != x} for x in range(k)}
        for t, p, tabs in plans(q, edges, k, full):
            inside = js.leaves(t) if isinstance(t, tuple) else [t]
            mine = {tabs[x] for x in inside}
            whole = len(mine) == k
            for mode, strict in itertools.product(MODES, (False, True)):
                label = f"{text} / {sig(p)}"
                judge(acc, label, q, p, mode, strict, False, "plain", lambda srv: plain(srv, q, p, mine))
                if not full and mode in ("index-count", "index-other") and isinstance(t, tuple):
                    continue
                near = {tabs[y] for x in inside for y in partners_of[x] if y not in inside}
                mat = QueryPlan(I.Materialize, children=[p], estimated_cardinality=p.estimated_cardinality)
                judge(acc, label, q, mat, mode, strict, mode == "drop", "materialize", lambda srv: ("value-error", None) if whole else topped(srv, q, mat, mine, near))
                for x in inside:
                    key = ColumnReference("a", tabs[x])
                    memo = QueryPlan(I.Memoize, children=[p], lookup_key=ColumnExpression(key), estimated_cardinality=p.estimated_cardinality)
                    near_key = {tabs[y] for y in partners_of[x] if y not in inside}
                    judge(acc, f"{label} key {key}", q, memo, mode, strict, mode == "drop", "memoize", lambda srv: ("value-error", None) if whole else topped(srv, q, memo, mine, near_key))
                for bad, verdict in ((None, ("value-error", None)), (FunctionExpression("lower", [ColumnExpression(ColumnReference("a", tabs[inside[0]]))]), ("value-error", None) if whole else ("fail", None))):
                    memo = QueryPlan(I.Memoize, children=[p], lookup_key=bad, estimated_cardinality=p.estimated_cardinality)
                    judge(acc, f"{label} key {bad}", q, memo, mode, strict, False, "memoize without column", lambda srv: verdict)
                cols = [ColumnReference(c, tabs[x]) for x in range(k) for c in ("a", "f")]
                choices = [((c,), asc) for c in cols if c.table in mine for asc in (True, False)][: 8 if full else 4]
                choices += [((c, d), True) for c in cols for d in cols if c.table in mine and d.table not in mine][: 6 if full else 2]
                seqs = [(c,) for c in choices] + [(c, d) for c in choices[:3] for d in choices[-3:] if c != d]
                for seq in seqs:
                    srt = QueryPlan(I.Sort, children=[p], sort_keys=[_qep.SortKey.for_equivalence_class(cs, ascending=asc) for cs, asc in seq], estimated_cardinality=p.estimated_cardinality)
                    usable = [([c for c in cs if c.table in mine], asc) for cs, asc in seq]
                    judge(acc, f"{label} sort {[(list(map(str, cs)), asc) for cs, asc in seq]}", q, srt, mode, strict, False, "sort", lambda srv: sort(srv, q, srt, mine, usable))
                expr = FunctionExpression("lower", [ColumnExpression(cols[0])])
                srt = QueryPlan(I.Sort, children=[p], sort_keys=[_qep.SortKey.of(expr)], estimated_cardinality=p.estimated_cardinality)
                judge(acc, f"{label} sort expression", q, srt, mode, strict, False, "sort by expression", lambda srv: ("fail", None) if not srv.calls else sort(srv, q, srt, mine, [([expr], True)]))


# -- forwarding stages -----------------------------------------------------------------------------------------------------------

def tree_of(p):
    if p.is_scan():
        return (p.base_table, p.estimated_cardinality)
    if len(p.children) == 2:
        return (tree_of(p.children[0]), tree_of(p.children[1]), p.estimated_cardinality)
    return tree_of(p.children[0])


def tree_got(t):
    return (t.base_table, t.annotation) if t.is_scan() else (tree_got(t.outer_child), tree_got(t.inner_child), t.annotation)


def ops_of(p, out):
    for c in p.children:
        ops_of(c, out)
    key = frozenset(p.tables())
    if p.is_scan():
        out["scan", key] = p.operator
    elif len(p.children) == 2:
        out["join", key] = p.operator
    elif p.operator:
        out["other", key] = p.operator
    return out


def ops_got(a):
    out = {("scan", frozenset([t])): o.operator for t, o in a.scan_operators.items()}
    out |= {("join", frozenset(j)): o.operator for j, o in a.join_operators.items()}
    return out | {("other", frozenset(j)): o for j, o in a.intermediate_operators.items()}


def params_of(p, cards, workers):
    for c in p.children:
        params_of(c, cards, workers)
    cards[frozenset(p.tables())] = p.estimated_cardinality
    if p.params.parallel_workers:
        workers[frozenset(p.tables())] = p.params.parallel_workers
    return cards, workers


def server_plans(n, edges, tabs):
    for t in js.all_trees(n, edges):
        for ops in OPSETS:
            p = build(t, iter(ops), tabs, iter(CARDS[0]))
            yield p
            yield QueryPlan("Aggregate", children=[p], estimated_cardinality=Cardinality(1))
            yield QueryPlan("Gather", children=[p], estimated_cardinality=p.estimated_cardinality, parallel_workers=2)
            if len(p.children) == 2:
                for mid in (I.Materialize, I.Sort, I.Memoize, "Hash"):
                    kids = [p.children[0], QueryPlan(mid, children=[p.children[1]], estimated_cardinality=p.children[1].estimated_cardinality)]
                    yield QueryPlan(p.operator, children=kids, estimated_cardinality=p.estimated_cardinality)


def p_stages(acc, i, n, maxn):
    work = [(k, e) for k in range(1, maxn + 1) for e in js.graphs(k, connected=True)]
    for k, edges in sliced(work, i, n):
        q = pb.parse_query(js.sql(k, edges, filters=(0,)), bind_columns=False)
        order = {t.identifier(): t for t in q.tables()}
        tabs = [order[x] for x in js.NAMES[:k]]
        some_tree = JoinTree.scan(tabs[0])
        for t in tabs[1:]:
            some_tree = JoinTree.join(some_tree, JoinTree.scan(t))
        some_ops = PhysicalOperatorAssignment()
        some_ops.add(S.IndexScan, tabs[0])
        for plan in server_plans(k, edges, tabs):
            for jo, oa in itertools.product((None, some_tree), (None, PhysicalOperatorAssignment(), some_ops)):
                log = []

                def answer(db, *event):
                    log.append(event)
                    if event[0] == "hints":
                        return ("hinted", event)
                    return plan

                db = fakedb.FakeDatabase("d", answer)
                label = f"{q} {sig(plan)} order {jo is not None} operators {oa and bool(oa.scan_operators)}"
                acc.case(label, plan.node_type)

                def seen(must):
                    """the plan was requested once, for the query with the decisions that were made already"""
                    hints = [e for e in log if e[0] == "hints"]
                    asked = [e for e in log if e[0] == "native plan"]
                    if len(asked) != 1 or len(log) != len(hints) + 1:
                        return f"calls {[e[0] for e in log]}"
                    if not hints:
                        return "" if asked[0][1] is q and not must else f"decisions are not passed on: {must}"
                    if len(hints) > 1 or hints[0][1] is not q or hints[0][2] is not None or asked[0][1] != ("hinted", hints[0]):
                        return f"hints {hints}"
                    given = {a: v for a, v in dict(hints[0][3]).items() if v is not None and not (isinstance(v, PhysicalOperatorAssignment) and not v)}
                    return "" if given == must else f"hints for {given} instead of {must}"

                real_ops = {"physical_operators": oa} if oa else {}
                stages = [
                    ("join order", lambda: tree_got(native.NativeJoinOrderOptimizer(db).optimize_join_order(q)), tree_of(plan), {}),
                    ("operators", lambda: ops_got(native.NativePhysicalOperatorSelection(db).select_physical_operators(q, jo)), ops_of(plan, {}), {"join_order": jo} if jo else {}),
                    ("parameters", lambda: (lambda r: ({frozenset(a): b for a, b in r.cardinalities.items()}, {frozenset(a): b for a, b in r.parallel_workers.items()}))(
                        native.NativePlanParameterization(db).generate_plan_parameters(q, jo, oa)), params_of(plan, {}, {}), {**({"join_order": jo} if jo else {}), **real_ops}),
                    ("complete plan", lambda: native.NativeOptimizer(db).optimize_query(q), plan, {}),
                ]
                for what, f, want, must in stages:
                    del log[:]
                    acc.step()
                    try:
                        res = f()
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"{what}: raises", f"{label}: {short(e)}")
                        continue
                    if (res is not want) if what == "complete plan" else (res != want):
                        acc.violate(f"{what}: answer", f"{label}: {res} instead of {want}")
                    msg = seen(must)
                    if msg:
                        acc.violate(f"{what}: request", f"{label}: {msg}")
        # cardinality estimates of all intermediates, also disconnected ones
        for r in range(1, k + 1):
            for sub in itertools.combinations(tabs, r):
                args = [set(sub), list(sub), tuple(reversed(sub)), frozenset(sub)] + ([sub[0]] if r == 1 else [])
                for arg, init, select in itertools.product(args, (True, False), ("*", "count(*)", "r.a")):
                    q2 = pb.parse_query(js.sql(k, edges, filters=(0,), select=select), bind_columns=False)
                    log = []
                    db = fakedb.FakeDatabase("d", lambda d, *e: (log.append(e), Cardinality(4711))[1])
                    est = native.NativeCardinalityEstimator(None if init else db)
                    if init:
                        est.initialize(db, q2)
                    label = f"{q2} intermediate {[t.identifier() for t in sub]} {type(arg).__name__}"
                    acc.case((label, init), "estimate")
                    acc.step()
                    try:
                        res = est.calculate_estimate(q2, arg)
                    except Exception as e:  # noqa: BLE001
                        acc.violate("estimate: raises", f"{label}: {short(e)}")
                        continue
                    msg = f"calls {log}" if len(log) != 1 or log[0][0] != "card" else is_fragment(q2, log[0][1], set(sub), {"SELECT *"})
                    if res != 4711 or msg:
                        acc.violate("estimate", f"{label}: {res} {msg}")


# -- empty stages, presets -------------------------------------------------------------------------------------------------------

class Spec(presets.OptimizationSettings):
    def __init__(self, parts):
        self.parts = parts

    def query_pre_check(self):
        return self.parts.get("check")

    def build_join_order_optimizer(self):
        return self.parts.get("order")

    def build_physical_operator_selection(self):
        return self.parts.get("ops")

    def build_plan_parameterization(self):
        return self.parts.get("params")


def p_presets(acc, i, n):
    if i:
        return
    q = pb.parse_query("SELECT * FROM r, s WHERE r.a = s.a", bind_columns=False)
    tree = JoinTree.join(JoinTree.scan(TableReference("r")), JoinTree.scan(TableReference("s")))
    for jo, oa in itertools.product((None, tree), (None, PhysicalOperatorAssignment())):
        acc.case(("empty", jo is None, oa is None), "empty")
        if noopt.EmptyJoinOrderOptimizer().optimize_join_order(q) is not None or bool(noopt.EmptyPhysicalOperatorSelection().select_physical_operators(q, jo)):
            acc.violate("empty stage decides", "an empty stage must not make decisions")
        if noopt.EmptyParameterization().generate_plan_parameters(q, jo, oa) not in (None, PlanParameterization()):
            acc.violate("empty stage decides", "an empty parameterization must not make decisions")
    # pre-defined settings: all histories of loading two settings with any subset of stages
    names = ("check", "order", "ops", "params")
    subsets = [c for r in range(5) for c in itertools.combinations(names, r)]
    db = fakedb.FakeDatabase("d", lambda d, *e: None)
    make = {"check": lambda: pb.validation.CrossProductPreCheck(), "order": lambda: native.NativeJoinOrderOptimizer(db), "ops": lambda: native.NativePhysicalOperatorSelection(db),
            "params": lambda: native.NativePlanParameterization(db)}
    for hist in itertools.product(subsets, repeat=2):
        pipe = pb.MultiStageOptimizationPipeline(db)
        model = {}
        acc.case(("load", hist), "load")
        for stages in hist:
            parts = {s: make[s]() for s in stages}
            acc.step()
            if pipe.load_settings(Spec(parts)) is not pipe:
                acc.violate("load_settings: result", "does not return the pipeline")
            model |= parts
            got = {"check": pipe.pre_check, "order": pipe.join_order_enumerator, "ops": pipe.physical_operator_selection, "params": pipe.plan_parameterization}
            for s in names:
                want = model.get(s)
                if (got[s] is not want) if want is not None or s != "check" else False:
                    acc.violate(f"load_settings: {s}", f"{hist}: {got[s]} instead of {want}")
    pool = DatabasePool.get_instance()
    pool.clear()
    other = fakedb.FakeDatabase("pooled", lambda d, *e: None)
    stats = type("Stats", (), {"emulated": None, "cache_enabled": None})
    for x in (db, other):
        s = stats()
        x.statistics = lambda s=s: s
    pool.register_database("pooled", other)
    auto = pb.parser.auto_bind_columns
    for key, given in itertools.product(("ues", "UES", "Ues", "native", "NATIVE", "Native", "", "other", "ues2", "nativ"), (db, None)):
        acc.case(("fetch", key, given is None), "fetch")
        acc.step()
        want = {"ues": presets.UESOptimizationSettings, "native": presets.NativeOptimizationSettings}.get(key.lower())
        try:
            st = presets.fetch(key, database=given)
        except ValueError as e:
            if want:
                acc.violate(f"fetch({key}): raises", short(e))
            continue
        except Exception as e:  # noqa: BLE001
            acc.violate(f"fetch({key}): raises", short(e))
            continue
        if want is None or type(st) is not want:
            acc.violate(f"fetch({key})", f"provides {type(st)}")
            continue
        target = given if given is not None else other
        jo, ops = st.build_join_order_optimizer(), st.build_physical_operator_selection()
        if key.lower() == "native":
            if not isinstance(jo, native.NativeJoinOrderOptimizer) or not isinstance(ops, native.NativePhysicalOperatorSelection) or jo.db_instance is not target or ops.db_instance is not target:
                acc.violate("fetch(native): stages", f"database given {given is not None}: {type(jo).__name__} on {jo.db_instance}, {type(ops).__name__} on {ops.db_instance}")
        else:
            ok = isinstance(jo, ues.UESJoinOrderOptimizer) and isinstance(ops, ues.UESOperatorSelection) and jo.database is target and isinstance(jo.join_estimation, ues.UESBoundEstimator)
            ok = ok and isinstance(jo.subquery_policy, ues.UESSubqueryPolicy) and isinstance(jo.base_table_estimation, ues.NativeCardinalityEstimator) and st.query_pre_check() is ues.UESOptimizationPreCheck
            if not ok:
                acc.violate("fetch(ues): stages", f"database given {given is not None}: {vars(jo)}")
    for given in (db, None):
        target = given if given is not None else other
        target.cache_enabled = True
        st = target.statistics()
        st.emulated, st.cache_enabled, pb.parser.auto_bind_columns = False, False, False
        acc.case(("standard options", given is None), "options")
        presets.apply_standard_system_options(given)
        if target.cache_enabled or not st.emulated or not st.cache_enabled or not pb.parser.auto_bind_columns:
            acc.violate("standard options", f"{target.cache_enabled} {st.emulated} {st.cache_enabled} {pb.parser.auto_bind_columns}")
    pb.parser.auto_bind_columns = auto
    pool.clear()


def run(c: Check):
    t = c.thorough
    c.part("native costs", lambda acc, i, n: p_cost(acc, i, n, 4 if t else 3, t))
    c.part("native decisions", lambda acc, i, n: p_stages(acc, i, n, 4 if t else 3))
    c.part("presets", p_presets)
    c.finish()


run(Check("P29", "model_checking",
          "every plan over every connected part of every small query, with every kind of root operator, against a scripted database server in every mode of answering (as requested, without or with further "
          "nodes, refusing indexes, failing); a case is distinct by query, plan and mode"))
