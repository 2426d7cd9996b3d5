"""P07: exhaustive enumeration of join orders, operators and plans is exactly the space it promises."""
import itertools

import joinspace as js
from vlib import Check, short, sliced

import postbound as pb
from postbound.opt import enumeration as en
from postbound.opt._joingraph import JoinGraph  # noqa: F401


class Hints:
    def __init__(self, ops):
        self.ops = ops

    def supports_hint(self, h):
        return h in self.ops


class DB:
    """stand-in for a database: only answers which hints are supported"""

    def __init__(self, ops):
        self._h = Hints(ops)

    def hinting(self):
        return self._h


ALL_OPS = list(pb.ScanOperator) + list(pb.JoinOperator) + list(pb.IntermediateOperator)


def to_tuple(tree, index):
    if tree.is_scan():
        return index[tree.base_table.identifier()]
    return (to_tuple(tree.outer_child, index), to_tuple(tree.inner_child, index))


def variants(n, thorough):
    yield "plain", dict()
    yield "filters", dict(filters=range(n))
    yield "aliases", dict(names=["R"] * 6, aliases=[f"r{i}" for i in range(6)])
    yield "multi", dict(multi=True)


def orders(acc, i, k):
    top = 5
    space = [(n, e, m, v) for n in range(1, top + 1) for e in js.graphs(n)
             for m in ("bushy", "left-deep", "right-deep") for v in variants(n, c.thorough)
             if (c.thorough or n < 5 or v[0] == "plain") and (v[0] != "multi" or e)
             and not (n == 5 and m == "bushy" and len(e) > 8 and not c.thorough and sum(a * 7 + b for a, b in e) % 4)]
    for n, edges, mode, (vname, vargs) in sliced(space, i, k):
        text = js.sql(n, edges, **vargs)
        q = pb.parse_query(text)
        al = vargs.get("aliases") or js.NAMES
        index = {al[x]: x for x in range(n)}
        want = js.all_trees(n, edges)
        if mode == "left-deep":
            want = [t for t in want if js.is_left_deep(t)]
        elif mode == "right-deep":
            want = [t for t in want if js.is_right_deep(t)]
        want = set(want)
        got = []
        key = (n, edges, mode, vname)
        try:
            for t in en.ExhaustiveJoinOrderEnumerator(tree_structure=mode).all_join_orders_for(q):
                got.append(to_tuple(t, index))
                acc.step()
                if len(got) > len(want) + 5:
                    break
        except Exception as e:
            acc.case(key, "raise")
            acc.violate(f"orders-raise:{mode}:{text}", short(e), text)
            continue
        acc.case(key, f"{mode}:{len(want)}", text)
        if len(got) != len(set(got)):
            dup = next(t for t in got if got.count(t) > 1)
            acc.violate(f"orders-dup:{mode}:{text}", f"join order {dup} produced more than once", text)
        if set(got) != want:
            acc.violate(f"orders-set:{mode}:{text}", f"missing {sorted(map(str, want - set(got)))[:3]} unexpected {sorted(map(str, set(got) - want))[:3]}", text)


def cross(acc, i, k):
    space = [(n, e, m) for n in range(2, 5) for e in js.graphs(n, False) for m in ("bushy", "left-deep", "right-deep")]
    for n, edges, mode in sliced(space, i, k):
        text = js.sql(n, edges)
        q = pb.parse_query(text)
        try:
            got = list(itertools.islice(en.ExhaustiveJoinOrderEnumerator(tree_structure=mode).all_join_orders_for(q), 3))
            acc.violate(f"cross:{mode}:{text}", f"query with cross product yielded {len(got)} orders instead of being rejected", text)
        except ValueError:
            pass
        except Exception as e:
            acc.violate(f"cross-raise:{mode}:{text}", short(e), text)
        acc.case(("x", n, edges, mode), "rejected")


def mk_tree(t, tabs):
    if not isinstance(t, tuple):
        return pb.JoinTree.scan(tabs[t])
    return pb.JoinTree.join(mk_tree(t[0], tabs), mk_tree(t[1], tabs))


def op_sets():
    sc, jo = list(pb.ScanOperator), list(pb.JoinOperator)
    s_sets = [None, sc[:1], sc[1:3], sc[:3]]
    j_sets = [None, jo[:1], jo[1:3], jo[:2]]
    supported = [ALL_OPS, [o for o in ALL_OPS if o not in (sc[1], jo[2])], sc[:2] + jo[:2]]
    return itertools.product(s_sets, j_sets, supported)


def describe(assignment, tree_tabs):
    return (
        frozenset((t.identifier(), a.operator) for t, a in assignment.scan_operators.items()),
        frozenset((frozenset(x.identifier() for x in j), a.operator) for j, a in assignment.join_operators.items()),
    )


def operators(acc, i, k):
    four, five = js.all_shapes(4), js.all_shapes(5)
    shapes = [0] + js.all_shapes(2) + js.all_shapes(3)[:4] + [four[0], four[-1], next(t for t in four if not js.is_linear(t)), five[0], five[len(five) // 2]]
    if c.thorough:
        shapes += js.all_shapes(3)[4:] + js.all_shapes(4)[::24]
    space = [(t, s, j, sup, inc) for t in shapes for s, j, sup in op_sets() for inc in ((True, True), (True, False), (False, True))]
    for t, s, j, sup, (inc_s, inc_j) in sliced(space, i, k):
        n = len(js.leaves(t))
        es = s if s else list(pb.ScanOperator)
        ej = j if j else list(pb.JoinOperator)
        es, ej = [o for o in es if o in sup], [o for o in ej if o in sup]
        njoin = n - 1
        total = (len(es) ** n if inc_s else 1) * (len(ej) ** njoin if inc_j else 1)
        if total > (20000 if c.thorough else 2500):
            continue
        tabs = [pb.TableReference(x) for x in js.NAMES[:n]]
        q = pb.parse_query(js.sql(n, tuple(itertools.combinations(range(n), 2))))
        tree = mk_tree(t, tabs)
        want = set()
        scan_part = [frozenset(zip([js.NAMES[x] for x in range(n)], sel)) for sel in itertools.product(es, repeat=n)] if inc_s else [frozenset()]
        join_sets = [frozenset(js.NAMES[x] for x in js.leaves(jn)) for jn in js.joins(t)]
        join_part = [frozenset(zip(join_sets, sel)) for sel in itertools.product(ej, repeat=njoin)] if inc_j else [frozenset()]
        want = set(itertools.product(scan_part, join_part))
        ident = f"{t}|{[o.name for o in es] if s else '*'}|{[o.name for o in ej] if j else '*'}|{len(sup)}|{inc_s}{inc_j}"
        try:
            e = en.ExhaustiveOperatorEnumerator(s, j, include_scans=inc_s, include_joins=inc_j, database=DB(sup))
            got = [describe(a, tabs) for a in e.all_operator_assignments_for(q, tree)]
        except Exception as ex:
            acc.case(ident, "raise")
            acc.violate(f"ops-raise:{ident}", short(ex), ident)
            continue
        acc.step(len(got))
        acc.case(ident, f"{inc_s}{inc_j}")
        if len(got) != len(set(got)):
            acc.violate(f"ops-dup:{ident}", "an assignment is produced more than once", ident)
        if set(got) != want:
            acc.violate(f"ops-set:{ident}", f"{len(set(got))} assignments, expected {len(want)}; e.g. missing {list(want - set(got))[:1]} unexpected {list(set(got) - want)[:1]}", ident)


def plan_sig(p):
    if p.is_scan():
        return (p.operator, p.base_table.identifier() if p.base_table else None, str(p.filter_predicate) if p.filter_predicate else None)
    ch = p.children
    return (p.operator, tuple(plan_sig(x) for x in ch), frozenset(map(str, p.filter_predicate.base_predicates())) if p.filter_predicate else None)


def plans(acc, i, k):
    sc, jo = list(pb.ScanOperator), list(pb.JoinOperator)
    space = []
    for n in range(1, 4):
        for e in js.graphs(n):
            for mode in ("bushy", "left-deep", "right-deep"):
                for s, j in ((sc[:1], jo[:1]), (sc[:2], jo[:2]), (sc[1:3], jo[:1]), (sc[:1], jo[:3])):
                    for f in ((), range(n)):
                        space.append((n, e, mode, s, j, tuple(f)))
    if c.thorough:
        for e in js.graphs(4):
            space.append((4, e, "bushy", sc[:1], jo[:2], (0, 2)))
    for n, edges, mode, s, j, f in sliced(space, i, k):
        text = js.sql(n, edges, filters=f)
        q = pb.parse_query(text)
        trees = js.all_trees(n, edges)
        if mode != "bushy":
            pick = js.is_left_deep if mode == "left-deep" else js.is_right_deep
            trees = [t for t in trees if pick(t)]
        want = {}

        def build(t):
            if not isinstance(t, tuple):
                for op in s:
                    yield (op, js.NAMES[t], f"{js.NAMES[t]}.f = {t}" if t in f else None)
                return
            between = frozenset(f"{js.NAMES[a]}.c{b} = {js.NAMES[b]}.c{a}" for a, b in edges
                                if (a in js.leaves(t[0]) and b in js.leaves(t[1])) or (b in js.leaves(t[0]) and a in js.leaves(t[1])))
            for op in j:
                for left in build(t[0]):
                    for right in build(t[1]):
                        yield (op, (left, right), between)

        want = {p for t in trees for p in build(t)}
        ident = f"{mode}|{len(s)}{s[0].name}|{len(j)}|{text}"
        try:
            gen = en.ExhaustivePlanEnumerator(join_order_args=dict(tree_structure=mode), operator_args=dict(scan_operators=s, join_operators=j, database=DB(ALL_OPS)))
            got = [plan_sig(p) for p in gen.all_plans_for(q)]
        except Exception as ex:
            acc.case(ident, "raise")
            acc.violate(f"plans-raise:{ident}", short(ex), text)
            continue
        acc.step(len(got))
        acc.case(ident, f"{mode}:{n}")
        if len(got) != len(set(got)):
            acc.violate(f"plans-dup:{ident}", "a plan is produced more than once", text)
        if set(got) != want:
            acc.violate(f"plans-set:{ident}", f"{len(set(got))} plans, expected {len(want)}; missing {list(want - set(got))[:1]} unexpected {list(set(got) - want)[:1]}", text)


def run(c):
    c.part("join-orders", orders)
    c.part("cross-products", cross)
    c.part("operators", operators)
    c.part("plans", plans)


c = Check(
    "P07", "model_checking",
    "all labelled connected join graphs of up to 5 tables x 3 tree structures x query variants; all operator subsets in the bound; one case per (graph, structure, variant)",
    ["the reference spaces are produced by an independent recursive definition over table sets", "only predicates between two tables form join graph edges"],
)
c.main(run)
