"""P08: dynamic programming finds a valid plan of minimal cost (reference: exact minimum over an explicitly defined search space)."""
import itertools
import math

import dpspace as dp
import joinspace as js
from fakedb import FakeDatabase
from vlib import Check, sliced

import postbound as pb
from postbound import IntermediateOperator, JoinOperator, ScanOperator, transform
from postbound.opt.dynprog import DynamicProgrammingEnumerator, PostgresDynProg
from postbound.postgres import PostgresInterface

SCANS = {"seq": ScanOperator.SequentialScan, "idx": ScanOperator.IndexScan, "ixo": ScanOperator.IndexOnlyScan, "bmp": ScanOperator.BitmapScan}
JOINS = {"nl": JoinOperator.NestedLoopJoin, "hash": JoinOperator.HashJoin, "merge": JoinOperator.SortMergeJoin}
WORKERS = [(2, 81), (4, 1), (1, 0)]
FUZZ = 1.01  # Postgres considers costs within 1 percent to be the same if a path is better sorted


class Schema:
    def __init__(self, indexes, columns):
        self.indexes, self.cols = indexes, columns

    def indexes_on(self, column):
        return [f"idx_{column.table.identifier()}_{column.name}"] if str(column) in self.indexes else []

    def columns(self, table):
        return [pb.ColumnReference(c, table) for c in self.cols[table.identifier()]]

    def has_index(self, column, ignore_primary_key=False):
        return bool(self.indexes_on(column))


class Stats:
    def __init__(self, pages):
        self.pages = pages

    def n_pages(self, relation):
        return self.pages


class Db(FakeDatabase):
    def __init__(self, schema):
        super().__init__("db", lambda *a: None)
        self._s = schema

    def schema(self):
        return self._s


class Hinting:
    def supports_hint(self, op):
        return True


class Pg(PostgresInterface):
    """stands in for a Postgres database: everything the enumerator asks for, no server"""

    def __init__(self, schema, pages):
        self._s, self._p = schema, pages

    def schema(self):
        return self._s

    def statistics(self):
        return Stats(self._p)

    def hinting(self):
        return Hinting()

    def describe(self):
        return {}

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def __del__(self):
        pass

    def __repr__(self):
        return "pg"

    __str__ = __repr__


class Card(pb.CardinalityEstimator):
    def __init__(self):
        super().__init__()
        self.events = []

    def calculate_estimate(self, query, intermediate):
        ts = [intermediate] if isinstance(intermediate, pb.TableReference) else intermediate
        return pb.Cardinality(sum(10 ** "rstu".index(t.identifier()) for t in ts))

    def initialize(self, db, query):
        self.events.append("init")

    def cleanup(self):
        self.events.append("cleanup")

    def describe(self):
        return {}


class Cost(pb.CostModel):
    def __init__(self, own, parallel):
        super().__init__()
        self.own, self.parallel = own, parallel
        self.events = []

    def estimate_cost(self, query, plan):
        return sum((c.estimated_cost for c in plan.children), 0) + own_cost(plan, self.own, self.parallel)

    def initialize(self, db, query):
        self.events.append("init")

    def cleanup(self):
        self.events.append("cleanup")

    def describe(self):
        return {}


def own_cost(plan, own, parallel):
    workers = plan.parallel_workers
    if workers and parallel is not None:
        return parallel(to_tuple(plan, False))
    return own(to_tuple(plan, False))


INV = {v: k for k, v in SCANS.items()} | {v: k for k, v in JOINS.items()}


def leaf(plan):
    return dp.Leaf(frozenset(t.identifier() for t in plan.tables()))


def to_tuple(plan, deep=True):
    """a plan of the library in the notation of the reference (shallow: the children are opaque)"""
    sub = (lambda p: to_tuple(p)) if deep else leaf
    op = plan.operator
    if op in SCANS.values():
        name = INV[op]
        col = None
        if name in ("idx", "ixo"):
            _, t, c = plan.get("index", None).split("_") if plan.get("index", None) else plan.params.index.split("_")
            col = f"{t}.{c}"
        return ("scan", plan.base_table.identifier(), name, col)
    if op == IntermediateOperator.Sort:
        return ("sort", sub(plan.children[0]), key_of(plan))
    if op == IntermediateOperator.Materialize:
        return ("mat", sub(plan.children[0]))
    if op == IntermediateOperator.Memoize:
        return ("memo", sub(plan.children[0]), str(plan.params.lookup_key))
    o, i = plan.children
    name = INV[op]
    if name == "merge":
        ok, ik = (next(iter(x.sort_keys), None) if x.sort_keys else None for x in (o, i))
        if ok is None or ik is None:
            return ("merge", sub(o), sub(i), None, None)
        return ("merge", sub(o), sub(i), frozenset(map(str, ok.equivalence_class)), frozenset(map(str, ik.equivalence_class)))
    if name == "nl" and not deep and i.operator in (IntermediateOperator.Materialize, IntermediateOperator.Memoize):
        return ("nl", leaf(o), to_shallow_inner(i))
    return (name, sub(o), sub(i))


def to_shallow_inner(i):
    if i.operator == IntermediateOperator.Materialize:
        return ("mat", leaf(i.children[0]))
    return ("memo", leaf(i.children[0]), str(i.params.lookup_key))


def key_of(plan):
    (k,) = plan.sort_keys
    (c,) = k.equivalence_class
    return str(c)


def make_own(target, scheme):
    """own costs of the nodes, chosen such that the target plan becomes attractive in a particular way"""
    keys = {mkey(n) for n in dp.nodes(target)}
    top = mkey(target)
    n = len(dp.tables_of(target))

    def own(p):
        k = mkey(p)
        inside = k in keys
        if scheme == "cheap":
            return 1 if inside else 10
        if scheme == "only":
            return 1 if inside else math.inf
        if scheme == "sacrifice":  # the scans of the target are more expensive than all others, its joins are much cheaper
            if p[0] == "scan":
                return 10 if inside else 1
            return 1 if inside else 100
        if scheme == "top":  # all inputs of the target are more expensive than their alternatives
            if len(dp.tables_of(p)) == n and p[0] not in ("sort", "mat", "memo"):
                return 1 if k == top else 1000
            return 10 if inside else 1 if p[0] != "sort" else 200
        raise ValueError(scheme)

    return own


def mkey(p):
    """merge joins are told apart by their inputs only: the key classes grow with equivalences"""
    k = dp.node_key(p)
    return k[:3] if k[0] == "merge" else k


SCHEMES = ("cheap", "only", "sacrifice", "top")


def closure(preds):
    """all equality predicates that follow from the given ones"""
    classes = []
    for a, b in preds:
        hit = [c for c in classes if a in c or b in c]
        classes = [c for c in classes if c not in hit] + [set().union({a, b}, *hit)]
    return [(a, b) for c in classes for a, b in itertools.combinations(sorted(c), 2) if a.split(".")[0] != b.split(".")[0]]


FILTERS = {"r": "r.c = 1", "t": "t.c > 2"}


def graphs(full):
    yield "rs", [("r.a", "s.a")]
    yield "rs", [("r.a", "s.a"), ("r.b", "s.b")]
    yield "rst", [("r.a", "s.a"), ("s.b", "t.b")]
    yield "rst", [("r.a", "s.a"), ("s.a", "t.a")]
    yield "rst", [("r.a", "s.a"), ("s.b", "t.b"), ("r.d", "t.d")]
    if full:
        yield "rstu", [("r.a", "s.a"), ("s.b", "t.b"), ("t.d", "u.d")]
        yield "rstu", [("r.a", "s.a"), ("r.b", "t.b"), ("r.d", "u.d")]
        yield "rstu", [("r.a", "s.a"), ("s.a", "t.a"), ("t.a", "u.a")]


def sql(tables, preds, select, filtered):
    conds = [f"{a} = {b}" for a, b in preds] + ([FILTERS[t] for t in tables if t in FILTERS] if filtered else [])
    return f"SELECT {select} FROM {', '.join(tables)} WHERE {' AND '.join(conds)}"


COLS = {t: ["a", "b", "c", "d"] for t in "rstu"}


def used(tables, preds, select, filtered):
    out = {t: set() for t in tables}
    for p in preds:
        for c in p:
            out[c[0]].add(c)
    if filtered:
        for t in tables:
            if t in FILTERS:
                out[t].add(t + ".c")
    if select == "*":
        for t in tables:
            out[t] |= {f"{t}.{c}" for c in COLS[t]}
    elif select.endswith(".*"):
        out[select[0]] |= {f"{select[0]}.{c}" for c in COLS[select[0]]}
    return out


def validate(plan, q, space, cfg, cost, problems):
    """the plan is complete, executable and consistently annotated"""
    need = cfg["used"]

    def go(p, parent, inner):
        ts = {t.identifier() for t in p.tables()}
        if p.estimated_cardinality != sum(10 ** "rstu".index(t) for t in ts):
            problems.append(f"cardinality of {sorted(ts)} is {p.estimated_cardinality}")
        op = p.operator
        if op in SCANS.values():
            n = INV[op]
            if n not in space.scan_ops:
                problems.append(f"scan operator {n} is not allowed")
            t = p.base_table.identifier()
            if n in ("idx", "ixo"):
                c = to_tuple(p)[3]
                if c not in space.indexes or not c.startswith(t + "."):
                    problems.append(f"{n} of {t} uses the index of {c}")
                keys = [sorted(map(str, k.equivalence_class)) for k in p.sort_keys or ()]
                if keys != [[c]]:
                    problems.append(f"{n} on {c} is sorted by {keys}")
                if n == "ixo" and not need[t] <= {c}:
                    problems.append(f"index-only scan on {c} although {sorted(need[t])} are required")
            elif p.sort_keys:
                problems.append(f"{n} of {t} claims to be sorted")
            if n == "bmp" and not any(c.startswith(t + ".") for c in space.indexes):
                problems.append(f"bitmap scan of {t} without any index")
            want = FILTERS.get(t) if cfg["filtered"] else None
            if (str(p.filter_predicate) if p.filter_predicate is not None else None) != want:
                problems.append(f"filter of {t} is {p.filter_predicate}")
            return frozenset([t])
        if op in (IntermediateOperator.Sort, IntermediateOperator.Materialize, IntermediateOperator.Memoize):
            s = go(p.children[0], p, False)
            if op == IntermediateOperator.Sort and (parent is None or parent.operator != JoinOperator.SortMergeJoin):
                problems.append("sort without a merge join")
            if op != IntermediateOperator.Sort and not inner:
                problems.append(f"{op.name} is not the inner input of a nested-loop join")
            if op == IntermediateOperator.Materialize and not space.mat or op == IntermediateOperator.Memoize and not space.memo or op == IntermediateOperator.Sort and not space.sort:
                problems.append(f"{op.name} is not allowed")
            return s
        if op not in JOINS.values() or INV[op] not in space.joins:
            problems.append(f"operator {op} is not allowed")
            return frozenset(ts)
        o, i = p.children
        so, si = go(o, p, False), go(i, p, op == JoinOperator.NestedLoopJoin)
        if so & si:
            problems.append("tables are joined twice")
        keys = space.keys(so, si)
        if not keys:
            problems.append(f"cross product of {sorted(so)} and {sorted(si)}")
        cond = p.filter_predicate if p.filter_predicate is not None else p.get("join_condition", None)
        have = {frozenset(map(str, pr)) for pr in cond.join_partners()} if cond is not None else set()
        if have != {frozenset(k) for k in keys}:
            problems.append(f"join of {sorted(so)} and {sorted(si)} is based on {cond}")
        if op == JoinOperator.SortMergeJoin and space.orders:
            oks = set(map(str, o.sort_keys[0].equivalence_class)) if o.sort_keys else set()
            iks = set(map(str, i.sort_keys[0].equivalence_class)) if i.sort_keys else set()
            if not any(a in oks and b in iks for a, b in keys):
                problems.append(f"merge join of inputs that are sorted by {sorted(oks)} and {sorted(iks)}")
        if op != JoinOperator.SortMergeJoin and p.sort_keys:
            problems.append(f"{op.name} claims to be sorted")
        return so | si

    got = go(plan, None, False)
    if got != frozenset(space.tables):
        problems.append(f"plan covers {sorted(got)}")

    def recompute(p):
        c = cost.estimate_cost(None, p)
        if not math.isclose(c, p.estimated_cost):
            problems.append(f"estimated cost {p.estimated_cost} of {sorted(t.identifier() for t in p.tables())} should be {c}")
        for k in p.children:
            recompute(k)

    recompute(plan)


def explore(acc, enum_of, space, q, cfg, targets, schemes, name, slack, parallel=None):
    for target in targets:
        for scheme in schemes:
            own = make_own(target, scheme)
            best = space.minimum(own)
            cost, card = Cost(own, parallel and parallel(own)), Card()
            label = f"{name} {cfg['label']} {scheme} {show(target)}"
            try:
                plan = enum_of().generate_execution_plan(q, cost_model=cost, cardinality_estimator=card)
            except Exception as e:
                acc.violate(f"{name}-raises {type(e).__name__} {label}", f"{e} although there is a plan of cost {best}"[:300])
                continue
            acc.step()
            problems = []
            validate(plan, q, space, cfg, cost, problems)
            for p in problems[:2]:
                acc.violate(f"{name}-invalid {label}", f"{p}: {plan_text(plan)}")
            if cost.events != ["init", "cleanup"] or card.events != ["init", "cleanup"]:
                acc.violate(f"{name}-lifecycle {label}", f"cost model: {cost.events}, estimator: {card.events}")
            if not problems and plan.estimated_cost > best * slack + 1e-9:
                acc.violate(f"{name}-optimality {label}", f"cost {plan.estimated_cost} but there is a plan of cost {best}; found {plan_text(plan)}")
            acc.case(label, scheme)


def show(t):
    if t[0] == "scan":
        return f"{t[1]}:{t[2]}" + (f"({t[3]})" if t[3] else "")
    if t[0] in ("sort", "memo", "mat"):
        return f"{t[0]}[{show(t[1])}]"
    return f"({show(t[1])} {t[0]} {show(t[2])})"


def plan_text(p):
    try:
        return show(to_tuple(p))
    except Exception as e:
        return f"{p!r:.100} {e}"


def powerset(xs):
    xs = list(xs)
    return [tuple(c) for k in range(1, len(xs) + 1) for c in itertools.combinations(xs, k)]


def thin(plans, limit):
    """every plan if there are few, otherwise an evenly spread deterministic selection"""
    plans = list(plans)
    if len(plans) <= limit:
        return plans
    step = len(plans) / limit
    return [plans[int(k * step)] for k in range(limit)]


def configs(full):
    """operator sets and available indexes"""
    for tables, preds in graphs(full):
        jc = sorted({c for p in preds for c in p})
        index_sets = [(), tuple(jc), tuple(jc[:1]), tuple(jc[-1:])] + ([tuple(jc + ["r.c"])] if len(tables) == 2 else [])
        scan_sets = [("seq",), ("seq", "idx"), ("idx",), ("seq", "idx", "ixo", "bmp"), ("bmp", "seq")] if len(tables) == 2 else [("seq",), ("seq", "idx"), ("seq", "ixo", "bmp")]
        for scans in scan_sets:
            for idx in index_sets:
                if scans == ("seq",) and idx:
                    continue
                if scans == ("idx",) and len(idx) < len(jc):
                    continue
                yield tables, preds, scans, idx


def basic(c):
    def part(acc, i, n):
        work = []
        for tables, preds, scans, idx in configs(c.thorough):
            for joins in powerset(JOINS):
                for select, filtered in (("count(*)", False), ("count(*)", True), ("*", False), ("s.*", False)):
                    if len(tables) > 2 and (select != "count(*)" or filtered) and len(joins) != 2:
                        continue
                    work.append((tables, preds, scans, idx, joins, select, filtered))
        for tables, preds, scans, idx, joins, select, filtered in sliced(work, i, n):
            u = used(tables, preds, select, filtered)
            only = {t for t in tables if len(u[t]) <= 1}
            space = dp.Space(tables, preds, scans=scans, indexes=[x for x in idx if x in set().union(*u.values())], joins=joins, orders=False, only=only)
            q = pb.parse_query(sql(tables, preds, select, filtered), bind_columns=False)
            db = Db(Schema(set(idx), COLS))
            cfg = {"label": f"{sql(tables, preds, select, filtered)} scans={'+'.join(scans)} joins={'+'.join(joins)} idx={','.join(idx)}", "used": u, "filtered": filtered}
            mk = lambda: DynamicProgrammingEnumerator(supported_scan_ops={SCANS[s] for s in scans}, supported_join_ops={JOINS[j] for j in joins}, target_db=db)
            plans = [p for p, _ in space.all_plans()]
            if not plans:
                continue
            explore(acc, mk, space, q, cfg, thin(plans, 400 if c.thorough else 20), SCHEMES, "basic", 1.0)
            text = str(q)
            if str(q) != text:
                acc.violate(f"basic-mutates {cfg['label']}", "the query was changed")

    return part


def postgres(c, workers):
    def part(acc, i, n):
        work = []
        for tables, preds, scans, idx in configs(c.thorough and not workers):
            for joins in powerset(JOINS):
                for mat, memo, sort in itertools.product((False, True), repeat=3):
                    if (mat or memo) and "nl" not in joins or sort and "merge" not in joins:
                        continue
                    if len(tables) > 2 and (mat != memo or len(joins) == 2 and not sort or len(joins) == 2 and "merge" not in joins):
                        continue
                    if workers and len(tables) > 2 and (len(joins) < 3 or not sort or scans == ("seq",) or len(idx) == 1 or workers != WORKERS[0] and not c.thorough):
                        continue
                    if workers and not c.thorough and len(tables) == 2 and (len(joins) == 2 or mat != memo or len(idx) == 1):
                        continue
                    for select, filtered in (("count(*)", True), ("*", False)):
                        if len(tables) > 2 and select == "*":
                            continue
                        work.append((tables, preds, scans, idx, joins, mat, memo, sort, select, filtered))
        for tables, preds, scans, idx, joins, mat, memo, sort, select, filtered in sliced(work, i, n):
            u = used(tables, closure(preds), select, filtered)
            only = {t for t in tables if len(u[t]) <= 1}
            read = set().union(*used(tables, closure(preds), "count(*)", filtered).values())
            space = dp.Space(tables, closure(preds), scans=scans, indexes=[x for x in idx if x in read], joins=joins, mat=mat, memo=memo, sort=sort, only=only)
            plans = [p for p, _ in space.all_plans()]
            q = pb.parse_query(sql(tables, preds, select, filtered), bind_columns=False)
            cfg = {"label": f"{sql(tables, preds, select, filtered)} scans={'+'.join(scans)} joins={'+'.join(joins)} idx={','.join(idx)} mat={mat} memo={memo} sort={sort} w={workers}", "used": u, "filtered": filtered}
            db = Pg(Schema(set(idx), COLS), workers[1] if workers else 0)
            mk = lambda: PostgresDynProg(
                supported_scan_ops={SCANS[s] for s in scans}, supported_join_ops={JOINS[j] for j in joins}, enable_materialize=mat, enable_memoize=memo, enable_sort=sort,
                max_parallel_workers=workers[0] if workers else None, target_db=db)
            if not plans:
                try:
                    plan = mk().generate_execution_plan(q, cost_model=Cost(lambda p: 1, None), cardinality_estimator=Card())
                    acc.violate(f"postgres-impossible {cfg['label']}", f"there is no plan, but got {plan_text(plan)}")
                except Exception:
                    pass
                acc.case(cfg["label"], "impossible")
                continue
            limit = (200 if c.thorough else 8) if len(tables) > 2 else (400 if c.thorough else 16)
            schemes = SCHEMES
            par = (lambda own: lambda p: own(p) * 0.5) if workers else None
            explore(acc, mk, space, q, cfg, thin(plans, limit), schemes, "postgres", FUZZ ** (2 * len(tables)), par)

    return part


SETTINGS = {"enable_seqscan": "seq", "enable_indexscan": "idx", "enable_indexonlyscan": "ixo", "enable_bitmapscan": "bmp", "enable_nestloop": "nl", "enable_hashjoin": "hash", "enable_mergejoin": "merge",
            "enable_material": "mat", "enable_memoize": "memo", "enable_sort": "sort"}


def favoured(p, op):
    """whether the operator is part of the plans that have to win if the given operator is available"""
    inner = p[2][0] if p[0] == "nl" and isinstance(p[2], tuple) else None
    name = p[2] if p[0] == "scan" else p[0]
    return name == op or inner == op and op in ("mat", "memo") or op == "sort" and name in ("merge", "seq")


def inferred(acc, i, n):
    """an enumerator that reads its operators from the configuration of the server is the enumerator with exactly these operators"""
    tables, idx = "rs", ("r.a", "s.a")
    texts = ["SELECT count(*) FROM r, s WHERE r.a = s.a", "SELECT * FROM r, s WHERE r.a = s.a AND r.b = 1"]
    for values in sliced(list(itertools.product(("on", "off"), repeat=len(SETTINGS))), i, n):
        on = {op for op, v in zip(SETTINGS.values(), values) if v == "on"}
        for k, text in enumerate(texts):
            for workers in ("0", "2"):
                q = pb.parse_query(text, bind_columns=False)
                for cheap in [None, *SETTINGS.values()]:
                    if cheap is not None and (cheap not in on and k or workers == "2"):
                        continue
                    got = []
                    for infer in (True, False):
                        db = Pg(Schema(set(idx), COLS), 81)
                        db.config = dict(zip(SETTINGS, values)) | {"max_parallel_workers_per_gather": workers}
                        if infer:
                            e = PostgresDynProg(target_db=db)
                            e.infer_settings()
                        else:
                            e = PostgresDynProg(supported_scan_ops={o for x, o in SCANS.items() if x in on}, supported_join_ops={o for x, o in JOINS.items() if x in on}, enable_materialize="mat" in on,
                                                enable_memoize="memo" in on, enable_sort="sort" in on, max_parallel_workers=int(workers), target_db=db)
                        own = lambda p: 1 if favoured(p, cheap) else 1000
                        try:
                            plan = e.generate_execution_plan(q, cost_model=Cost(own, lambda p: own(p) * 0.5), cardinality_estimator=Card())
                            got.append(f"{plan_text(plan)} {[x.parallel_workers for x in [plan, *plan.children] if x.parallel_workers]}")
                        except Exception:
                            got.append("no plan")
                        acc.step()
                    acc.case((values, text, workers, cheap), got[1])
                    if got[0] != got[1]:
                        acc.violate(f"inferred settings {[o for o in SETTINGS.values() if o not in on]}", f"{text}, disabled: {[o for o in SETTINGS.values() if o not in on]}, cheap: {cheap}, workers: {workers}: {got[0]} instead of {got[1]}")


def impossible(acc, i, n):
    """disconnected queries have no plan without cross products: both the pre-check and the enumerator say so"""
    for tables in ("rs", "rst", "rstu"):
        for edges in js.graphs(len(tables), connected=False):
            conds = [f"{tables[a]}.a = {tables[b]}.a" for a, b in edges]
            q = pb.parse_query(f"SELECT * FROM {', '.join(tables)}" + (f" WHERE {' AND '.join(conds)}" if conds else ""), bind_columns=False)
            for name, mk in (("basic", lambda: DynamicProgrammingEnumerator(target_db=Db(Schema(set(), COLS)))), ("postgres", lambda: PostgresDynProg(target_db=Pg(Schema(set(), COLS), 0)))):
                e = mk()
                ok = e.pre_check().check_supported_query(q)
                if ok.passed:
                    acc.violate(f"{name}-precheck {q}", "accepts a query that consists of cross products")
                try:
                    p = e.generate_execution_plan(q, cost_model=Cost(lambda p: 1, None), cardinality_estimator=Card())
                    acc.violate(f"{name}-cross {q}", f"found {plan_text(p)}")
                except Exception:
                    pass
                acc.case((name, str(q)), "rejected")


def run(c):
    c.part("basic enumerator", basic(c))
    c.part("postgres enumerator", postgres(c, None))
    for w in WORKERS:
        c.part(f"parallel workers={w[0]} pages={w[1]}", postgres(c, w))
    c.part("settings of the server", inferred)
    c.part("no plan", impossible, parallel=False)


Check("P08", "model_checking", "every (query, configuration, target plan, cost scheme); distinct by all of them",
      ["costs are additive over the nodes of a plan", "the native cost model (which needs a server) is not explored"]).main(run)
