"""P09: random generators, explored over every outcome of the random source."""
import itertools

import joinspace as js
from choices import explore
from planspace import ALL_OPS, DB, describe, mk_tree, plan_sig, plan_space, structured, to_tuple
from vlib import Check, short, sliced

import postbound as pb
from postbound.opt import randomized as rd

SC, JO = list(pb.ScanOperator), list(pb.JoinOperator)


def first_leaf(t):
    return t if not isinstance(t, tuple) else first_leaf(t[0])


def base_ok(t, mode, b):
    """b is joined first: it belongs to a join of two base tables that opens its branch"""
    if mode == "bushy":
        return any(b in p and not isinstance(p[0], tuple) and not isinstance(p[1], tuple) for p in js.joins(t))
    ls = js.leaves(t)
    return (ls[0] if mode == "left-deep" else ls[-1]) == b


def first_k(gen, k):
    return tuple(itertools.islice(gen, k))


def judge(acc, ident, want, fn, conv, *, k=1, dedup=False, depth=40, replay=None):
    """explore all choice sequences of fn() (a tuple of k results); compare the reachable results with the reference"""
    reached, cuts = set(), 0
    for trace, kind, val in explore(fn, depth=depth, max_runs=400000):
        acc.step(len(trace) + 1)
        if kind == "cut":
            cuts += 1
            continue
        if kind == "raise":
            acc.case(ident, "raise")
            acc.violate(f"raise:{ident}", f"choices {trace}: {short(val)}", replay)
            return
        try:
            res = tuple(conv(v) for v in val)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"result:{ident}", f"choices {trace}: unusable result: {short(e)}", replay)
            return
        if len(res) != k:
            acc.violate(f"ended:{ident}", f"choices {trace}: generator ended after {len(res)} of {k} results", replay)
            return
        if dedup and len(set(res)) != k:
            acc.violate(f"dup:{ident}", f"choices {trace}: repeated result {res}", replay)
            return
        bad = [r for r in res if r not in want]
        if bad:
            acc.violate(f"invalid:{ident}", f"choices {trace}: invalid result {bad[0]}", replay)
            return
        reached.add(res)
    ref = set(itertools.permutations(want, k)) if dedup else set(itertools.product(want, repeat=k))
    acc.case(ident, f"k{k}{'d' if dedup else ''}:{min(len(ref), 99)}", ident)
    acc.count("runs_cut_at_depth_bound", cuts)
    if reached != ref:
        acc.violate(f"unreachable:{ident}", f"{len(ref - reached)} of {len(ref)} results cannot be produced, e.g. {list(ref - reached)[:1]}", replay)


def orders(acc, i, k):
    top = 5 if c.thorough else 4
    space = []
    for n in range(1, top + 1):
        for e in js.graphs(n):
            if n == 5 and len(e) > 6:
                continue
            for mode in ("bushy", "left-deep", "right-deep"):
                for b in [None] + list(range(n)):
                    if n == 5 and mode == "bushy" and b is not None:
                        continue
                    for kk in (1, 2, 3):
                        for dd in (False, True):
                            if kk == 1 and dd or kk > 1 and n > 3 or kk == 3 and (n > 2 or dd):
                                continue
                            if n == 1 and (kk > 1 and dd):
                                continue
                            if kk == 2 and dd and n == 3 and b is not None and not c.thorough:
                                continue
                            space.append((n, e, mode, b, kk, dd))
    for n, e, mode, b, kk, dd in sliced(space, i, k):
        text = js.sql(n, e)
        q = pb.parse_query(text)
        index = {js.NAMES[x]: x for x in range(n)}
        want = structured(js.all_trees(n, e), mode)
        if b is not None and n > 1:
            want = [t for t in want if base_ok(t, mode, b)]
        want = set(want)
        if dd and len(want) < kk:
            continue
        bt = pb.TableReference(js.NAMES[b]) if b is not None else None

        def fn():
            g = rd.RandomJoinOrderGenerator(dd, tree_structure=mode)
            gen = g.random_join_orders_for(q, base_table=bt) if bt is not None else g.random_join_orders_for(q)
            return first_k(gen, kk)

        depth = 60 if not dd else (12 if n <= 2 else 10)
        judge(acc, f"orders|{mode}|base={b}|k{kk}{'d' if dd else ''}|{text}", want, fn, lambda t: to_tuple(t, index), k=kk, dedup=dd, depth=depth, replay=text)


def long_walks(acc, i, k):
    """linear orders over six tables: every tree-shaped join graph up to isomorphism, plus cycles and cliques"""
    trees = [((0, 1), (1, 2), (2, 3), (3, 4), (4, 5)), ((0, 1), (0, 2), (0, 3), (0, 4), (0, 5)), ((0, 1), (0, 2), (0, 3), (0, 4), (4, 5)),
             ((0, 1), (0, 2), (0, 3), (2, 4), (3, 5)), ((0, 1), (0, 2), (0, 3), (3, 4), (3, 5)), ((0, 1), (0, 2), (0, 3), (3, 4), (4, 5))]
    more = [((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5)), ((0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (4, 5), (3, 5))]
    space = [(e, m, b) for e in trees + more for m in ("left-deep", "right-deep") for b in [None] + list(range(6))]
    for e, mode, b in sliced(space, i, k):
        text = js.sql(6, e)
        q = pb.parse_query(text)
        index = {js.NAMES[x]: x for x in range(6)}
        want = set()
        adj = js.make_adj(6, e)

        def grow(t, seen):
            if len(seen) == 6:
                want.add(t)
                return
            for x in set().union(*(adj[y] for y in seen)) - seen:
                grow((t, x) if mode == "left-deep" else (x, t), seen | {x})

        for s in range(6) if b is None else [b]:
            grow(s, frozenset([s]))
        bt = pb.TableReference(js.NAMES[b]) if b is not None else None

        def fn():
            return first_k(rd.RandomJoinOrderGenerator(False, tree_structure=mode).random_join_orders_for(q, base_table=bt), 1)

        judge(acc, f"long|{mode}|base={b}|{text}", want, fn, lambda t: to_tuple(t, index), depth=60, replay=text)


def limits(acc, i, k):
    """single tables with duplicate elimination end after one order; cross products are rejected; no tables yield nothing"""
    for mode in ("bushy", "left-deep", "right-deep"):
        g = rd.RandomJoinOrderGenerator(True, tree_structure=mode)
        got = first_k(g.random_join_orders_for(pb.parse_query("SELECT * FROM r")), 3)
        acc.case(("single", mode), "single")
        if len(got) != 1 or got[0].tables() != {pb.TableReference("r")}:
            acc.violate(f"single:{mode}", f"{len(got)} orders for a single table without duplicates: {got}")
        for n in (2, 3, 4):
            for e in js.graphs(n, False):
                for dd in (False, True):
                    text = js.sql(n, e)
                    q = pb.parse_query(text)
                    for trace, kind, val in explore(lambda: next(rd.RandomJoinOrderGenerator(dd, tree_structure=mode).random_join_orders_for(q)), depth=30):
                        acc.step()
                        if not (kind == "raise" and isinstance(val, ValueError)):
                            acc.violate(f"cross:{mode}:{dd}:{text}", f"cross product not rejected: {kind} {val}", text)
                            break
                    acc.case(("cross", mode, n, e, dd), "rejected")


def op_space(s, j, sup, inc_s, inc_j, t):
    es = [o for o in (s or SC) if o in sup]
    ej = [o for o in (j or JO) if o in sup]
    n = len(js.leaves(t))
    scan_part = [frozenset(zip(js.NAMES[:n], sel)) for sel in itertools.product(es, repeat=n)] if inc_s else [frozenset()]
    jsets = [frozenset(js.NAMES[x] for x in js.leaves(jn)) for jn in js.joins(t)]
    join_part = [frozenset(zip(jsets, sel)) for sel in itertools.product(ej, repeat=n - 1)] if inc_j else [frozenset()]
    return set(itertools.product(scan_part, join_part))


def op_configs():
    for s in (None, SC[:1], SC[1:3], SC[:3]):
        for j in (None, JO[:1], JO[1:3]):
            for si, sup in enumerate((ALL_OPS, [o for o in ALL_OPS if o not in (SC[1], JO[2])], SC[:2] + JO[:2])):
                for inc in ((True, True), (True, False), (False, True)):
                    yield s, j, si, sup, inc


def operators(acc, i, k):
    four, five = js.all_shapes(4), js.all_shapes(5)
    shapes = [0] + js.all_shapes(2) + js.all_shapes(3)[:4] + js.all_shapes(3)[-2:] + [four[0], next(t for t in four if not js.is_linear(t)), five[len(five) // 2]]
    space = [(t,) + x for t in shapes for x in op_configs()]
    for t, s, j, si, sup, (inc_s, inc_j) in sliced(space, i, k):
        want = op_space(s, j, sup, inc_s, inc_j, t)
        if len(want) > (4000 if c.thorough else 500) or (not want):
            continue
        n = len(js.leaves(t))
        q = pb.parse_query(js.sql(n, tuple(itertools.combinations(range(n), 2))))
        tree = mk_tree(t, [pb.TableReference(x) for x in js.NAMES[:n]])
        ident = f"ops|{t}|{[o.name for o in s] if s else '*'}|{[o.name for o in j] if j else '*'}|{si}|{inc_s}{inc_j}"
        for kk, dd in ((1, False), (1, True), (2, False), (2, True)):
            if kk == 2 and (len(want) > 16 or len(want) < 2):
                continue

            def fn():
                g = rd.RandomOperatorGenerator(s, j, include_scans=inc_s, include_joins=inc_j, eliminate_duplicates=dd, database=DB(sup))
                return first_k(g.random_operator_assignments_for(q, tree), kk)

            judge(acc, f"{ident}|k{kk}{dd}", want, fn, describe, k=kk, dedup=dd, depth=(6 * n if kk == 2 and dd else 40))
        g = rd.RandomOperatorGenerator(s, j, include_scans=inc_s, include_joins=inc_j, database=DB(sup))
        need = set(g.necessary_hints())
        used = {op for a in want for part in a for _, op in part}
        acc.case((ident, "hints"))
        if not used <= need:
            acc.violate(f"hints:{ident}", f"necessary_hints lacks {used - need}")


def plans(acc, i, k):
    space = []
    for n in range(1, 4):
        for e in js.graphs(n):
            for mode in ("bushy", "left-deep", "right-deep"):
                for s, j in ((SC[:1], JO[:1]), (SC[:2], JO[:2]), (SC[1:3], JO[:1]), (SC[:1], JO[:3])):
                    for f in ((), tuple(range(n))):
                        for kk, dd in ((1, False), (2, False), (2, True)):
                            space.append((n, e, mode, s, j, f, kk, dd))
    for n, e, mode, s, j, f, kk, dd in sliced(space, i, k):
        text = js.sql(n, e, filters=f)
        q = pb.parse_query(text)
        want = plan_space(structured(js.all_trees(n, e), mode), e, s, j, f)
        if kk == 2 and (len(want) > 24 or len(want) < 2) or len(want) > 1000 and not c.thorough:
            continue
        if kk == 2 and dd and n > 2 and len(want) > 12:
            continue

        def fn():
            g = rd.RandomPlanGenerator(eliminate_duplicates=dd, join_order_args=dict(tree_structure=mode), operator_args=dict(scan_operators=s, join_operators=j), database=DB(ALL_OPS))
            return first_k(g.random_plans_for(q), kk)

        judge(acc, f"plans|{mode}|{[o.name for o in s]}|{[o.name for o in j]}|k{kk}{dd}|{text}", want, fn, plan_sig, k=kk, dedup=dd, depth=(20 if dd else 60), replay=text)


def optimizers(acc, i, k):
    """the three optimizers: one decision per call, for several calls on one optimizer and alternating queries"""
    space = [(n, e, mode) for n in (1, 2, 3) for e in js.graphs(n) for mode in ("bushy", "left-deep", "right-deep")]
    other = pb.parse_query("SELECT * FROM v, w WHERE v.c5 = w.c4")
    for n, e, mode in sliced(space, i, k):
        text = js.sql(n, e)
        q = pb.parse_query(text)
        index = {js.NAMES[x]: x for x in range(n)}
        want = set(structured(js.all_trees(n, e), mode))
        for dd in (False, True):
            def fn():
                o = rd.RandomJoinOrderOptimizer(generator_args=dict(tree_structure=mode, eliminate_duplicates=dd))
                a = o.optimize_join_order(q)
                x = o.optimize_join_order(other)
                assert {t.identifier() for t in x.tables()} == {"v", "w"}
                return (a, o.optimize_join_order(q)) if n < 3 else (a,)

            judge(acc, f"opt-orders|{mode}|{dd}|{text}", want, fn, lambda t: to_tuple(t, index), k=2 if n < 3 else 1, replay=text)
        s, j = SC[:2], JO[:1]
        pw = plan_space(structured(js.all_trees(n, e), mode), e, s, j, ())

        def fp():
            o = rd.RandomPlanOptimizer(join_order_args=dict(tree_structure=mode), operator_args=dict(scan_operators=s, join_operators=j), database=DB(ALL_OPS))
            return (o.optimize_query(q),)

        judge(acc, f"opt-plans|{mode}|{text}", pw, fp, plan_sig, replay=text)
        for t in sorted(want, key=str)[:2]:
            tree = mk_tree(t, [pb.TableReference(x) for x in js.NAMES[:n]])

            def fo():
                o = rd.RandomOperatorOptimizer(generator_args=dict(scan_operators=s, join_operators=JO[:2], database=DB(ALL_OPS)))
                return (o.select_physical_operators(q, tree),)

            judge(acc, f"opt-ops|{t}|{text}", op_space(s, JO[:2], ALL_OPS, True, True, t), fo, describe, replay=text)


def prechecks(acc, i, k):
    yes, no = pb.parse_query("SELECT * FROM r, s WHERE r.c1 = s.c0"), pb.parse_query("SELECT * FROM r, s")
    o1 = rd.RandomJoinOrderOptimizer()
    for op in itertools.chain([None], SC, JO):
        sup = [o for o in ALL_OPS if o is not op]
        full, part = DB(ALL_OPS), DB(sup)
        o2 = rd.RandomOperatorOptimizer(generator_args=dict(database=full))
        o3 = rd.RandomPlanOptimizer(database=full)
        for name, chk, graph, hint in (("order", o1.pre_check(), True, False), ("ops", o2.pre_check(), False, True), ("plan", o3.pre_check(), True, True)):
            key = (name, op.name if op else None)
            acc.case(key, name)
            for q, ok in ((yes, True), (no, not graph)):
                if chk.check_supported_query(q).passed != ok:
                    acc.violate(f"precheck:{key}:{q}", f"pre-check verdict is not {ok}")
            ok = not hint or op is None
            if chk.check_supported_database_system(part).passed != ok:
                acc.violate(f"precheck-db:{key}", f"pre-check accepts a system without {op}" if not ok else "pre-check rejects a supported system")
        for o in (o1, o2, o3):
            acc.case()
            if not isinstance(o.describe(), dict):
                acc.violate("describe", f"{o}")


def run(c):
    c.part("join-orders", orders)
    c.part("long-walks", long_walks)
    c.part("limits", limits, parallel=False)
    c.part("operators", operators)
    c.part("plans", plans)
    c.part("optimizers", optimizers)
    c.part("pre-checks", prechecks, parallel=False)


c = Check(
    "P09", "model_checking",
    "every outcome sequence of the random source (choice tree, depth-bounded where duplicates are re-drawn) x all labelled join graphs x tree structures x base tables x operator restrictions; the first k results of each generator are compared with the complete reference space",
    ["the random source is Python's random module", "with duplicate elimination, runs that re-draw beyond the depth bound are cut (unfair schedules)"],
)
c.main(run)
