"""Reference spaces of plans and stand-in databases for the enumeration/generation checks."""
from __future__ import annotations

import joinspace as js

import postbound as pb


class Hints:
    def __init__(self, ops):
        self.ops = ops

    def supports_hint(self, h):
        return h in self.ops


class DB:
    """stand-in for a database: only answers which hints are supported"""

    name = "stand-in"

    def __init__(self, ops):
        self._h = Hints(ops)

    def hinting(self):
        return self._h


ALL_OPS = list(pb.ScanOperator) + list(pb.JoinOperator) + list(pb.IntermediateOperator)


def to_tuple(tree, index):
    if tree.is_scan():
        return index[tree.base_table.identifier()]
    return (to_tuple(tree.outer_child, index), to_tuple(tree.inner_child, index))


def mk_tree(t, tabs):
    if not isinstance(t, tuple):
        return pb.JoinTree.scan(tabs[t])
    return pb.JoinTree.join(mk_tree(t[0], tabs), mk_tree(t[1], tabs))


def describe(assignment):
    return (
        frozenset((t.identifier(), a.operator) for t, a in assignment.scan_operators.items()),
        frozenset((frozenset(x.identifier() for x in j), a.operator) for j, a in assignment.join_operators.items()),
    )


def plan_sig(p):
    if p.is_scan():
        return (p.operator, p.base_table.identifier() if p.base_table else None, str(p.filter_predicate) if p.filter_predicate else None)
    return (p.operator, tuple(plan_sig(x) for x in p.children), frozenset(map(str, p.filter_predicate.base_predicates())) if p.filter_predicate else None)


def structured(trees, mode):
    if mode == "left-deep":
        return [t for t in trees if js.is_left_deep(t)]
    if mode == "right-deep":
        return [t for t in trees if js.is_right_deep(t)]
    return trees


def plan_space(trees, edges, s, j, filtered):
    def build(t):
        if not isinstance(t, tuple):
            for op in s:
                yield (op, js.NAMES[t], f"{js.NAMES[t]}.f = {t}" if t in filtered else None)
            return
        l0, l1 = js.leaves(t[0]), js.leaves(t[1])
        between = frozenset(f"{js.NAMES[a]}.c{b} = {js.NAMES[b]}.c{a}" for a, b in edges if (a in l0 and b in l1) or (b in l0 and a in l1))
        for op in j:
            for left in build(t[0]):
                for right in build(t[1]):
                    yield (op, (left, right), between)

    return {p for t in trees for p in build(t)}
