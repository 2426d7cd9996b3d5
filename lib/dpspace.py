"""Reference search space of the dynamic programming enumerators: explicit plans, additive costs and the exact minimum.

Plans: ("scan", table, op, column) | ("sort", plan, column) | ("mat", plan) | ("memo", plan, column)
     | ("nl" | "hash", outer, inner) | ("merge", outer, inner, outer column, inner column)
Columns are strings "r.a"; the sort order of a plan is a set of equivalent columns.
"""
import itertools
import math


class Space:
    def __init__(self, tables, preds, *, scans, indexes, joins, mat=False, memo=False, sort=False, orders=True, only=()):
        """preds: pairs of columns (closed under equivalence if the enumerator does so); indexes: indexed columns;
        scans: subset of seq, idx, ixo, bmp; joins: subset of nl, hash, merge; only: tables that can use index-only scans"""
        self.tables, self.preds = tuple(tables), [tuple(p) for p in preds]
        self.scan_ops, self.indexes, self.joins = scans, indexes, joins
        self.mat, self.memo, self.sort, self.orders, self.only = mat, memo, sort, orders, only

    def keys(self, o, i):
        """join keys between two sets of tables, as (outer column, inner column)"""
        out = []
        for a, b in self.preds:
            ta, tb = a.split(".")[0], b.split(".")[0]
            if ta in o and tb in i:
                out.append((a, b))
            elif tb in o and ta in i:
                out.append((b, a))
        return out

    def splits(self, s):
        s = sorted(s)
        for k in range(1, len(s)):
            for o in itertools.combinations(s, k):
                o = frozenset(o)
                i = frozenset(s) - o
                if self.keys(o, i):
                    yield o, i

    def scans_of(self, t):
        out = []
        cols = [c for c in self.indexes if c.split(".")[0] == t]
        if "seq" in self.scan_ops:
            out.append((("scan", t, "seq", None), frozenset()))
        for c in cols:
            if "idx" in self.scan_ops:
                out.append((("scan", t, "idx", c), frozenset([c])))
            if "ixo" in self.scan_ops and t in self.only:
                out.append((("scan", t, "ixo", c), frozenset([c])))
        if cols and "bmp" in self.scan_ops:
            out.append((("scan", t, "bmp", None), frozenset()))
        return out

    def combine(self, o, i, outer, inner):
        """all joins of two plans (with their sort orders)"""
        (op, osort), (ip, isort) = outer, inner
        keys = self.keys(o, i)
        if "nl" in self.joins:
            yield ("nl", op, ip), frozenset()
            if self.mat:
                yield ("nl", op, ("mat", ip)), frozenset()
            if self.memo:
                for c in dict.fromkeys(k[1] for k in keys):
                    yield ("nl", op, ("memo", ip, c)), frozenset()
        if "hash" in self.joins:
            yield ("hash", op, ip), frozenset()
        if "merge" in self.joins:
            if not self.orders:
                yield ("merge", op, ip, None, None), frozenset()
                return
            for oc, ic in keys:
                l, r, ls, rs = op, ip, osort, isort
                if oc not in ls:
                    if not self.sort:
                        continue
                    l, ls = ("sort", op, oc), frozenset([oc])
                if ic not in rs:
                    if not self.sort:
                        continue
                    r, rs = ("sort", ip, ic), frozenset([ic])
                yield ("merge", l, r, oc, ic), ls | rs

    def all_plans(self, s=None, memo=None):
        memo = {} if memo is None else memo
        s = frozenset(self.tables if s is None else s)
        if s not in memo:
            if len(s) == 1:
                memo[s] = self.scans_of(next(iter(s)))
            else:
                memo[s] = [x for o, i in self.splits(s) for a in self.all_plans(o, memo) for b in self.all_plans(i, memo) for x in self.combine(o, i, a, b)]
        return memo[s]

    def minimum(self, own):
        """exact minimum over the space: the state of a partial plan is its tables and its sort order"""
        best = {}
        for k in range(1, len(self.tables) + 1):
            for s in itertools.combinations(sorted(self.tables), k):
                s = frozenset(s)
                cur = {}
                if k == 1:
                    for p, order in self.scans_of(next(iter(s))):
                        keep(cur, order, own(p))
                else:
                    for o, i in self.splits(s):
                        for osort, oc in best.get(o, {}).items():
                            for isort, ic in best.get(i, {}).items():
                                for p, order in self.combine(o, i, (Leaf(o), osort), (Leaf(i), isort)):
                                    keep(cur, order, oc + ic + glue(p, own))
                best[s] = cur
        return min(best[frozenset(self.tables)].values(), default=math.inf)


class Leaf:
    def __init__(self, tables):
        self.tables = tables


def keep(cur, order, cost):
    if cost < cur.get(order, math.inf):
        cur[order] = cost


def glue(p, own):
    """cost of all nodes of a plan above its leaves"""
    return 0 if isinstance(p, Leaf) else own(p) + sum(glue(c, own) for c in kids(p))


def kids(p):
    if isinstance(p, Leaf) or p[0] == "scan":
        return ()
    return (p[1],) if p[0] in ("sort", "mat", "memo") else (p[1], p[2])


def tables_of(p):
    if isinstance(p, Leaf):
        return p.tables
    if p[0] == "scan":
        return frozenset([p[1]])
    return frozenset().union(*(tables_of(c) for c in kids(p)))


def node_key(p):
    """what the own cost of a node depends on"""
    if p[0] == "scan":
        return p
    if p[0] in ("sort", "memo"):
        return (p[0], tables_of(p[1]), p[2])
    if p[0] == "mat":
        return (p[0], tables_of(p[1]))
    if p[0] == "nl":
        inner = "plain" if isinstance(p[2], Leaf) or p[2][0] not in ("mat", "memo") else p[2][0] + (p[2][2] if p[2][0] == "memo" else "")
        return ("nl", tables_of(p[1]), tables_of(p[2]), inner)
    if p[0] == "merge":
        return ("merge", tables_of(p[1]), tables_of(p[2]), p[3], p[4])
    return (p[0], tables_of(p[1]), tables_of(p[2]))


def nodes(p):
    yield p
    for c in kids(p):
        yield from nodes(c)


def total(p, own):
    return own(p) + sum(total(c, own) for c in kids(p))
