"""Bounded spaces of join graphs, join trees and plans, built without the code under test."""
from __future__ import annotations

import itertools
from functools import lru_cache

NAMES = ["r", "s", "t", "u", "v", "w"]


def graphs(n: int, connected: bool | None = True):
    """all labelled graphs over tables 0..n-1 as sorted edge tuples"""
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(len(pairs) + 1):
        for edges in itertools.combinations(pairs, k):
            c = is_connected(n, edges)
            if connected is None or c == connected:
                yield edges


def is_connected(n, edges) -> bool:
    if n == 0:
        return True
    seen, todo = {0}, [0]
    while todo:
        x = todo.pop()
        for a, b in edges:
            for y in ((b,) if a == x else (a,) if b == x else ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


def sql(n: int, edges, *, filters=(), select="*", names=NAMES, aliases=None, multi=False) -> str:
    """edges become equi joins over one column per edge; filters: table indices with a filter"""
    al = aliases or names
    frm = ", ".join(f"{names[i]} AS {al[i]}" if al[i] != names[i] else names[i] for i in range(n))
    preds = []
    for a, b in edges:
        preds.append(f"{al[a]}.c{b} = {al[b]}.c{a}")
        if multi:
            preds.append(f"{al[a]}.d{b} = {al[b]}.d{a}")
    for i in filters:
        preds.append(f"{al[i]}.f = {i}")
    return f"SELECT {select} FROM {frm}" + (" WHERE " + " AND ".join(preds) if preds else "")


def make_adj(n, edges):
    adj = {i: set() for i in range(n)}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    return adj


def all_trees(n, edges):
    """all cross-product free ordered bushy trees: int leaves, (outer, inner) joins"""
    adj = make_adj(n, edges)

    @lru_cache(None)
    def trees(s: frozenset):
        if len(s) == 1:
            return tuple(s)
        out = []
        items = sorted(s)
        for k in range(1, len(items)):
            for left in itertools.combinations(items, k):
                ls, rs = frozenset(left), s - frozenset(left)
                if not any(adj[x] & rs for x in ls):
                    continue
                for lt in trees(ls):
                    for rt in trees(rs):
                        out.append((lt, rt))
        return tuple(out)

    return list(trees(frozenset(range(n))))


def leaves(t):
    return [t] if not isinstance(t, tuple) else leaves(t[0]) + leaves(t[1])


def is_left_deep(t):
    return not isinstance(t, tuple) or (not isinstance(t[1], tuple) and is_left_deep(t[0]))


def is_right_deep(t):
    return not isinstance(t, tuple) or (not isinstance(t[0], tuple) and is_right_deep(t[1]))


def is_linear(t):
    if not isinstance(t, tuple):
        return True
    a, b = t
    return (not isinstance(a, tuple) or not isinstance(b, tuple)) and is_linear(a) and is_linear(b)


def subtrees(t):
    if isinstance(t, tuple):
        yield from subtrees(t[0])
        yield from subtrees(t[1])
    yield t


def joins(t):
    return [s for s in subtrees(t) if isinstance(s, tuple)]


def all_shapes(n):
    """all ordered trees over leaves 0..n-1 (every permutation)"""
    return all_trees(n, tuple(itertools.combinations(range(n), 2)))
