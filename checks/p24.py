"""P24: utility containers, graph helpers, JSON conversion and counters implement their abstract data type."""
import collections
import copy
import dataclasses
import datetime
import enum
import io
import itertools
import json
import math
import operator
import os
import pathlib
import shutil
import tempfile
import threading

import networkx as nx
import pandas as pd

import choices
import sched
from joinspace import graphs
from vlib import Check, short, sliced

from postbound import util
from postbound.util import collections as ucoll, dicts as udicts, misc, nx as unx, num, stats
from postbound.util.collections import Queue, SizedQueue
from postbound.util.dicts import CustomHashDict, DynamicDefaultDict, HashableDict, frozendict


def attempt(f, *a, **kw):
    try:
        return ("ok", f(*a, **kw))
    except Exception as e:
        return ("raise", type(e).__name__)


# -- 1. operation histories ---------------------------------------------------------------------------------------------------

def queue_ops():
    ops = [("enqueue", 1), ("enqueue", 2), ("push", 3), ("append", 1), ("extend", (2, 3)), ("extend", ()), ("pop", None)]
    return ops


def histories(acc, i, n, depth):
    for h in sliced(itertools.product(range(7), repeat=depth), i, n):
        ops = [queue_ops()[j] for j in h]
        for start in ((), (1, 2)):
            q, ref = Queue(start), list(start)
            acc.case(("queue", start, h), len(h))
            for op, arg in ops:
                acc.step()
                if op == "pop":
                    got, want = q.pop(), (ref.pop(0) if ref else None)
                elif op == "extend":
                    got, want = q.extend(arg), ref.extend(arg)
                else:
                    got, want = getattr(q, op)(arg), ref.append(arg)
                bad = (got != want or list(q) != ref or len(q) != len(ref) or bool(q) != bool(ref) or q.head() != (ref[0] if ref else None)
                       or q.peak() != (ref[0] if ref else None) or any((x in q) != (x in ref) for x in (1, 2, 3, 4)))
                if bad:
                    acc.violate(f"queue {start} {ops}", f"after {op}({arg}): {list(q)} instead of {ref}; returned {got!r} instead of {want!r}")
                    break
        for cap in (1, 2, 3):
            for start in ((), (1, 2), (1, 2, 3, 1)):
                q, ref = SizedQueue(cap, start), list(start)[-cap:]
                acc.case(("sized", cap, start, h), len(ref))
                for op, arg in ops:
                    acc.step()
                    if op == "pop":
                        got, want = q.pop(), (ref.pop(0) if ref else None)
                    elif op == "extend":
                        got, want = q.extend(arg), None
                        ref = (ref + list(arg))[-cap:]
                    else:
                        got, want = q.append(arg), None
                        ref = (ref + [arg])[-cap:]
                    if got != want or list(q) != ref or len(q) != len(ref) or q.head() != (ref[0] if ref else None) or any((x in q) != (x in ref) for x in (1, 2, 3, 4)):
                        acc.violate(f"sized queue {cap} {start} {ops}", f"after {op}({arg}): {list(q)} instead of {ref}; returned {got!r} instead of {want!r}")
                        break


DICTS = [dict(zip(ks, vs)) for r in range(4) for ks in itertools.permutations("abc", r) for vs in itertools.product((1, 2), repeat=r)]


def dict_histories(acc, i, n, depth):
    # an immutable dictionary rejects every modification and keeps its contents
    mutators = [
        ("set", lambda d: d.__setitem__("a", 9)), ("set new", lambda d: d.__setitem__("z", 9)), ("del", lambda d: d.__delitem__("a")),
        ("clear", lambda d: d.clear()), ("pop", lambda d: d.pop("a")), ("popitem", lambda d: d.popitem()), ("update", lambda d: d.update({"a": 9})),
        ("update kw", lambda d: d.update(q=3)), ("setdefault", lambda d: d.setdefault("q", 1)), ("ior", lambda d: operator.ior(d, {"q": 1})),
    ]
    for base in sliced(DICTS, i, n):
        for seq in itertools.product(range(len(mutators)), repeat=2):
            fd = frozendict(base)
            h = hash(fd)
            acc.case(("frozen", tuple(base.items()), seq), len(base))
            for m in seq:
                acc.step()
                name, f = mutators[m]
                res = attempt(f, fd)
                effect = dict(base)
                attempt(f, effect)
                if dict(fd) != base or list(fd) != list(base) or hash(fd) != h or len(fd) != len(base):
                    acc.violate(f"frozendict {base} {name}", f"frozendict was modified by {name}: {dict(fd)}")
                    break
                if res[0] == "ok" and effect != base:
                    acc.violate(f"frozendict {base} {name} accepted", f"{name} of a frozendict does not fail")
                    break
        for other in DICTS:
            acc.step()
            for cls in (frozendict, HashableDict):
                x, y = cls(base), cls(other)
                if (x == y) != (base == other):
                    acc.violate(f"{cls.__name__} eq {base} {other}", "equality is not equality of the contents")
                if base == other and hash(x) != hash(y):
                    acc.violate(f"{cls.__name__} hash {base} {other}", "equal dictionaries hash differently")
        for cls in (frozendict, HashableDict):
            d = copy.copy(cls(base))
            acc.step()
            if type(d) is not cls or dict(d) != base:
                acc.violate(f"{cls.__name__} copy {base}", f"copy is {d!r}")
        if base and list(base.items()) != list(frozendict(list(base.items())).items()):
            acc.violate(f"frozendict items {base}", "construction from items")
    # dictionaries with computed defaults and custom hashes
    for h in sliced(itertools.product(range(8), repeat=depth), i, n):
        calls = []
        d, ref = DynamicDefaultDict(lambda k: (calls.append(k), k * 10 + 5)[1]), {}
        acc.case(("default", h), len(set(h)))
        for op in h:
            acc.step()
            k = op % 2
            kind = ("get", "set", "del", "in")[op // 2]
            if kind == "get":
                want = ref.setdefault(k, k * 10 + 5)
                got = d[k]
            elif kind == "set":
                # explicitly stored values remain, even if they are falsy
                ref[k] = want = got = (0, 7)[k]
                d[k] = want
            elif kind == "del":
                want, got = attempt(ref.__delitem__, k), attempt(d.__delitem__, k)
            else:
                want, got = k in ref, k in d
            if got != want or dict(d) != ref or len(d) != len(ref):
                acc.violate(f"default dict {h}", f"after {kind} {k}: {dict(d)} instead of {ref}, got {got!r} instead of {want!r}")
                break
        d, ref = CustomHashDict(lambda k, mod: k % mod, mod=3), {}
        for op in h:
            acc.step()
            k = (op % 2) * 3 + 1 if op % 4 < 2 else 2
            kind = ("get", "set", "del", "in")[op // 2]
            if kind == "get":
                want, got = attempt(ref.__getitem__, k % 3), attempt(d.__getitem__, k)
            elif kind == "set":
                ref[k % 3] = want = got = op
                d[k] = op
            elif kind == "del":
                want, got = attempt(ref.__delitem__, k % 3), attempt(d.__delitem__, k)
            else:
                want, got = (k % 3 in ref, ref.get(k % 3, 99)), (k in d, d.get(k, 99))
            if got != want or len(d) != len(ref) or sorted(d.values()) != sorted(ref.values()):
                acc.violate(f"custom hash dict {h}", f"after {kind} {k}: {d.data} instead of {ref}, got {got!r} instead of {want!r}")
                break


# -- 2. collection functions --------------------------------------------------------------------------------------------------

def subseq(lst):
    return [tuple(x for b, x in zip(bits, lst) if b) for bits in itertools.product((0, 1), repeat=len(lst))]


def thaw(x):
    if isinstance(x, (HashableDict, dict)):
        return ("d", frozenset((k, thaw(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("t", tuple(thaw(e) for e in x))
    if isinstance(x, (set, frozenset)):
        return ("s", frozenset(x))
    return x


def collection_functions(acc, i, n, maxlen):
    lists = [list(x) for r in range(maxlen + 1) for x in itertools.product((1, 2, 3), repeat=r)]
    for lst in sliced(lists, i, n):
        def need(cond, what, detail=""):
            acc.step()
            if not cond:
                acc.violate(f"{what} {lst}", f"{what} of {lst} is wrong {detail}")

        acc.case(("list", tuple(lst)), len(lst))
        need(sorted(util.powerset(lst)) == sorted(subseq(lst)), "powerset")
        want = collections.Counter(frozenset([(x, p), (y, q)]) for (p, x), (q, y) in itertools.combinations(list(enumerate(lst)), 2))
        need(collections.Counter(tuple(sorted(p)) for p in ucoll.pairs(lst)) == collections.Counter(tuple(sorted(v for v, _ in k)) for k in want.elements()), "pairs")
        for size in range(1, len(lst) + 2):
            for step in (1, 2, 3):
                got = [list(w) for w in util.sliding_window(lst, size, step)]
                ref, start = [], 0
                while start + size <= len(lst):
                    ref.append(lst[start : start + size])
                    start += step
                need(got == ref, f"sliding_window {size} {step}", f"{got}")
        for cut in range(len(lst) + 1):
            nested = [lst[:cut], lst[cut:]]
            need(util.flatten(nested) == lst, "flatten", f"cut {cut}")
            need(util.flatten([*lst[:cut], lst[cut:]]) == lst, "flatten mixed", f"cut {cut}")
            need(util.flatten([*lst[:cut], tuple(lst[cut:]), "xy"]) == lst + ["xy"], "flatten strings", f"cut {cut}")
            need(util.set_union([lst[:cut], lst[cut:]]) == set(lst), "set_union", f"cut {cut}")
        a, b, c3 = set(lst[:1]), set(lst[1:2]), set(lst[2:])
        need(util.set_union([a, b, c3]) == set(lst) and a == set(lst[:1]), "set_union sets")
        for conv in (list, tuple, set, frozenset):
            obj = conv(lst)
            need(util.enlist(obj) is obj, f"enlist {conv.__name__}")
            one = util.simplify(obj)
            need((one == next(iter(obj))) if len(obj) == 1 else (one == obj), f"simplify {conv.__name__}")
            if obj:
                need(ucoll.get_any(obj) in obj, f"get_any {conv.__name__}")
        need(util.enlist(tuple(lst), enlist_tuples=True) == [tuple(lst)], "enlist_tuples")
        seen = []
        ucoll.foreach(lst, seen.append)
        need(seen == lst, "foreach")
        for obj in (lst, tuple(lst), set(lst), frozenset(lst), {k: list(lst) for k in lst}, [lst, {1: lst}], {1: {2: lst}}):
            h = attempt(ucoll.make_hashable, obj)
            need(h[0] == "ok" and attempt(hash, h[1])[0] == "ok" and thaw(h[1]) == thaw(obj), "make_hashable", f"{obj} -> {h}")
            need(h[0] == "ok" and hash(h[1]) == hash(ucoll.make_hashable(copy.deepcopy(obj))), "make_hashable hash")
        need(stats.jaccard(set(lst) | {1}, {1, 2}) == len((set(lst) | {1}) & {1, 2}) / len(set(lst) | {1, 2}), "jaccard")
        m = stats.score_matrix(lst, lambda x, y: 10 * x + y)
        need(m.shape == (len(lst), len(lst)) and all(m[r, s] == 10 * lst[r] + lst[s] for r in range(len(lst)) for s in range(len(lst))), "score_matrix")
    if i == 0:
        for x in ("abc", "", 5, None, 2.5, b"ab", {"k": 1}):
            acc.case(("scalar", x if not isinstance(x, dict) else "dict"), "scalar")
            if not isinstance(x, dict) and util.enlist(x) != [x]:
                acc.violate(f"enlist {x!r}", f"enlist wraps to {util.enlist(x)!r}")
            want = ("k", 1) if isinstance(x, dict) else x
            if util.simplify(x) != want:
                acc.violate(f"simplify {x!r}", f"simplify gives {util.simplify(x)!r}")
        cat = [1]
        for k in range(80):
            acc.case(("catalan", k), "catalan")
            if util.stats.catalan_number(k) != cat[k]:
                acc.violate(f"catalan {k}", f"catalan number {k} is {util.stats.catalan_number(k)} instead of {cat[k]}")
            cat.append(sum(cat[j] * cat[k - j] for j in range(k + 1)))
        for r in range(5):
            for t in itertools.product("aB ", repeat=r):
                s = "".join(t)
                acc.case(("trigram", s), "trigram")
                p = "  " + s.lower() + "  "
                if stats.trigrams(s) != [p[k] + p[k + 1] + p[k + 2] for k in range(len(p) - 2)]:
                    acc.violate(f"trigrams {s!r}", f"{stats.trigrams(s)}")
        for r in range(1, 4):
            for words in itertools.product(("Foo", "Ba", "X"), repeat=r):
                acc.case(("camel", words), "camel")
                if misc.camel_case2snake_case("".join(words)) != "_".join(w.lower() for w in words):
                    acc.violate(f"camel {words}", misc.camel_case2snake_case("".join(words)))


# -- 3. dictionary functions --------------------------------------------------------------------------------------------------

def dict_functions(acc, i, n):
    for a in sliced(DICTS, i, n):
        def need(cond, what, other=None):
            acc.step()
            if not cond:
                acc.violate(f"{what} {a} {other}", f"{what} of {a} and {other} is wrong")

        acc.case(("dict", tuple(a.items())), len(a))
        before = dict(a)
        for b in DICTS:
            bb = dict(b)
            need(udicts.difference(a, b) == {k: a[k] for k in a if k not in b}, "difference", b)
            need(udicts.intersection(a, b) == {k: a[k] for k in a if k in b}, "intersection", b)
            need(udicts.merge(a, b) == {**a, **b}, "merge", b)
            got = udicts.merge(a, b, updater=lambda k, x, y: (k, x, y))
            need(got == {k: ((k, a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))) for k in {**a, **b}}, "merge updater", b)
            need(udicts.aggregate([a, b]) == {k: [d[k] for d in (a, b) if k in d] for k in {**a, **b}}, "aggregate", b)
            need(a == before and b == bb, "arguments unchanged", b)
        need(attempt(udicts.key, a) == (("ok", list(a)[0]) if len(a) == 1 else ("raise", "ValueError")), "key")
        need(attempt(udicts.value, a) == (("ok", list(a.values())[0]) if len(a) == 1 else ("raise", "ValueError")), "value")
        need(udicts.update(a, lambda k, v: (k, v)) == {k: (k, v) for k, v in a.items()}, "update")
        inv = udicts.invert(a)
        need(set(inv) == set(a.values()) and all(a[k] == v for v, k in inv.items()), "invert")
        multi = {k: list(range(v)) for k, v in a.items()}
        need(udicts.explode(multi) == [(k, x) for k in a for x in multi[k]], "explode")
        need(udicts.generate_multi(udicts.explode(multi)) == {k: v for k, v in multi.items() if v}, "generate_multi")
        need(udicts.invert_multi(multi) == {x: [k for k in multi if x in multi[k]] for x in {x for v in multi.values() for x in v}}, "invert_multi")
        need(udicts.reduce_multi(multi, lambda k, vs: sum(vs)) == {k: sum(v) for k, v in multi.items()}, "reduce_multi")
        need(list(udicts.dict_to_numpy(a)) == [a[k] for k in sorted(a)], "dict_to_numpy")
        if a:
            need(a[udicts.argmin(a)] == min(a.values()), "argmin")
            need(a[udicts.argmax(a)] == max(a.values()), "argmax")
        need(udicts.hash_dict(a) == udicts.hash_dict(dict(reversed(list(a.items())))), "hash_dict order")
        for v in ([1], {1}, {"x": [1]}):
            need(udicts.hash_dict({**a, "v": v}) == udicts.hash_dict({"v": copy.deepcopy(v), **a}), "hash_dict containers")


# -- 4. graphs ----------------------------------------------------------------------------------------------------------------

def all_graphs(maxn):
    for m in range(1, maxn + 1):
        pairs = list(itertools.combinations(range(m), 2))
        for r in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, r):
                yield m, es


def make(m, es):
    g = nx.Graph()
    g.add_nodes_from(f"n{k}" for k in range(m))
    for a, b in es:
        g.add_edge(f"n{a}", f"n{b}", edge=frozenset((f"n{a}", f"n{b}")))
    return g


def ref_walks(g):
    """all frontier walks as sequences of (node, edge used to reach it)"""
    out = []

    def go(path):
        nodes = [p[0] for p in path]
        if len(nodes) == len(g):
            out.append(tuple(path))
            return
        nxt = [(v, frozenset((u, v))) for u in nodes for v in g.adj[u] if v not in nodes]
        if not nxt:
            nxt = [(v, None) for v in g if v not in nodes]
        for v, e in nxt:
            go(path + [(v, e)])

    for s in g:
        go([(s, None)])
    return collections.Counter(out)


def valid_random_walk(g, walk):
    if len(walk) != len(g) or set(walk) != set(g):
        return False
    for k in range(1, len(walk)):
        seen = set(walk[:k])
        frontier = {v for u in seen for v in g.adj[u]} - seen
        if frontier and walk[k] not in frontier:
            return False
    return True


def all_random_walks(g, starts):
    out = set()

    def go(path):
        if len(path) == len(g):
            out.add(tuple(path))
            return
        seen = set(path)
        frontier = {v for u in seen for v in g.adj[u]} - seen
        for v in frontier or set(g) - seen:
            go(path + [v])

    for s in starts:
        go([s])
    return out


def graph_functions(acc, i, n, maxn, maxrw):
    for m, es in sliced(all_graphs(maxn), i, n):
        g = make(m, es)
        sig = f"{m} nodes {es}"
        before = (sorted(g.nodes), sorted(map(sorted, g.edges)))
        # frontier walks
        got = collections.Counter()
        for w in unx.nx_frontier_walks(g):
            got[tuple([(w.start_node, None)] + [(v, (d["edge"] if d else None)) for v, d in w.path])] += 1
            acc.step()
            if w.nodes() != [w.start_node] + [v for v, _ in w.path] or len(w) != len(w.nodes()) or list(w) != w.nodes() or w.final_node() != w.nodes()[-1] or any(v not in w for v in w.nodes()) or "none" in w:
                acc.violate(f"walk accessors {sig}", f"{w}")
        want = ref_walks(g)
        acc.case(("walks", m, es), sum(want.values()), sample=sig)
        if got != want:
            acc.violate(f"frontier walks {sig}", f"missing {list((want - got))[:2]}, superfluous {list((got - want))[:2]}")
        # random walks: every random outcome
        if m <= maxrw:
            for start in [None, *g]:
                outs = set()
                for tr, kind, val in choices.explore(lambda: list(unx.nx_random_walk(g, starting_node=start)), depth=12):
                    acc.case(("rw", m, es, start, tuple(tr)), kind)
                    acc.step(len(tr))
                    if kind != "ok":
                        acc.violate(f"random walk {sig} from {start}", f"{kind} {val!r}")
                        continue
                    outs.add(tuple(val))
                    if not valid_random_walk(g, val) or (start is not None and val[0] != start):
                        acc.violate(f"random walk {sig} from {start}", f"{val} is not a walk of the graph", tr)
                ref = all_random_walks(g, [start] if start else list(g))
                if outs != ref:
                    acc.violate(f"random walk coverage {sig} from {start}", f"cannot produce {sorted(ref - outs)[:2]}")
        # breadth-first trees, for all conditions on nodes
        for start in g:
            dist = nx.single_source_shortest_path_length(g, start)
            for bits in range(2**m):
                ok = {f"n{k}" for k in range(m) if bits >> k & 1}
                for order in (None, lambda v, d: int(v[1:]), lambda v, d: -int(v[1:])):
                    res = list(unx.nx_bfs_tree(g, start, lambda v, d: v in ok, node_order=order))
                    nodes = [v for v, _ in res]
                    acc.case(("bfs", m, es, start, bits, bool(order)), len(res))
                    acc.step(len(res))
                    strict = nx.single_source_shortest_path_length(g.subgraph(ok | {start}), start)
                    loose = {v: k for v, k in dist.items() if v in ok}
                    err = None
                    if len(set(nodes)) != len(nodes) or start in nodes:
                        err = "a node is provided repeatedly or the start node is provided"
                    elif set(nodes) == set(strict) - {start}:
                        lv = [strict[v] for v in nodes]
                        if lv != sorted(lv):
                            err = "not in breadth-first order"
                        for k, (v, d) in enumerate(res):
                            parents = [u for u in d["edge"] if u != v]
                            if v not in d["edge"] or parents[0] not in [start, *nodes[:k]] or strict[parents[0]] != strict[v] - 1:
                                err = f"edge of {v} does not stem from its parent"
                        if order and not err:
                            pos = {start: -1, **{v: k for k, v in enumerate(nodes)}}
                            par = {v: pos[[u for u in d["edge"] if u != v][0]] for v, d in res}
                            key = [(strict[v], par[v], order(v, None)) for v in nodes]
                            if key != sorted(key):
                                err = "siblings are not in the requested order"
                    elif set(nodes) == set(loose) - {start}:
                        lv = [loose[v] for v in nodes]
                        if lv != sorted(lv):
                            err = "not in breadth-first order"
                    else:
                        err = f"provides {nodes}"
                    if err:
                        acc.violate(f"bfs {sig} from {start} where {sorted(ok)}", f"{err}: {nodes}")
        if before != (sorted(g.nodes), sorted(map(sorted, g.edges))):
            acc.violate(f"graph modified {sig}", "the graph was changed")
        if sorted(v for v, d in unx.nx_filter_nodes(g, lambda v, d: v != "n0")) != sorted(v for v in g if v != "n0"):
            acc.violate(f"filter nodes {sig}", "")
    # directed graphs
    for m in range(1, min(maxn, 3) + 1):
        arcs = [(a, b) for a in range(m) for b in range(m) if a != b]
        for bits in sliced(range(2 ** len(arcs)), i, n):
            g = nx.DiGraph()
            g.add_nodes_from(range(m))
            es = [a for k, a in enumerate(arcs) if bits >> k & 1]
            g.add_edges_from(es)
            acc.case(("digraph", m, bits), len(es))
            if sorted(unx.nx_sinks(g)) != [v for v in range(m) if all(a != v for a, _ in es)]:
                acc.violate(f"sinks {m} {es}", f"{unx.nx_sinks(g)}")
            if sorted(unx.nx_sources(g)) != [v for v in range(m) if all(b != v for _, b in es)]:
                acc.violate(f"sources {m} {es}", f"{unx.nx_sources(g)}")


def walk_objects(acc, i, n):
    W = unx.GraphWalk
    specs = [(s, tuple(p)) for s in "ab" for r in range(3) for p in itertools.product([("c", None), ("d", None), ("c", 1)], repeat=r)]
    for s, p in sliced(specs, i, n):
        for s2, p2 in specs:
            x, y = W(s), W(s2)
            for v, d in p:
                x0 = list(x.path)
                x = x.expand(v, d)
            for v, d in p2:
                y = y.expand(v, d)
            acc.case(("walk", s, p, s2, p2), x == y)
            if (x == y) != ((s, p) == (s2, p2)) or (x == y and hash(x) != hash(y)):
                acc.violate(f"walk equality {s}{p} {s2}{p2}", "equality or hash")
            if ([s] + [v for v, _ in p] == [s2] + [v for v, _ in p2]) and x.nodes_hash() != y.nodes_hash():
                acc.violate(f"walk nodes hash {s}{p} {s2}{p2}", "same nodes, other hash")
            y = W(s).expand("q")
            y.expand("r")
            if y.nodes() != [s, "q"]:
                acc.violate("walk expand modifies", "expand modifies the walk")


# -- 5. dependency graphs -----------------------------------------------------------------------------------------------------

def dependency_histories(acc, i, n, depth, tasks="abc"):
    # tasks which share their hash are still different tasks
    class T:
        def __init__(self, x):
            self.x = x

        def __hash__(self):
            return 1

        def __eq__(self, o):
            return isinstance(o, T) and o.x == self.x

        def __repr__(self):
            return self.x

    objs = {t: T(t) for t in tasks}
    moves = [(t, d) for t in tasks for r in range(3) for d in itertools.combinations([u for u in tasks if u != t], r)]
    for hist in sliced((h for r in range(depth + 1) for h in itertools.product(moves, repeat=r)), i, n):
        g, g2 = misc.DependencyGraph(), misc.DependencyGraph()
        deps: dict = {}
        for t, d in hist:
            acc.step()
            g.add_task(t, depends_on=list(d) if d else None)
            g2.add_task(objs[t], depends_on=[objs[u] for u in d])
            deps.setdefault(t, set()).update(d)
            for u in d:
                deps.setdefault(u, set())
        dg = nx.DiGraph([(u, t) for t in deps for u in deps[t]])
        dg.add_nodes_from(deps)
        acyclic = nx.is_directed_acyclic_graph(dg)
        acc.case(("deps", hist), acyclic)
        for name, order in (("distinct hashes", list(g)), ("same hashes", [o.x for o in g2]), ("second iteration", list(g))):
            if len(set(order)) != len(order):
                acc.violate(f"dependency graph {hist}", f"{name}: tasks repeated {order}")
            elif acyclic and set(order) != set(deps):
                acc.violate(f"dependency graph {hist}", f"{name}: tasks missing or superfluous in {order}")
            elif any(not deps[t] <= set(order[:k]) for k, t in enumerate(order)):
                acc.violate(f"dependency graph {hist}", f"{name}: a task precedes its dependency in {order}")


# -- 6. versions, JSON --------------------------------------------------------------------------------------------------------

def versions(acc, i, n):
    vs = [t for r in range(1, 4) for t in itertools.product((0, 1, 9, 10), repeat=r)]
    for a in sliced(vs, i, n):
        va = misc.Version(".".join(map(str, a)))
        for what, ok in (("list", misc.Version(list(a)) == va), ("string list", misc.Version([str(x) for x in a]) == va), ("self", va == va), ("wrap", misc.Version.wrap(va) == va),
                         ("components", tuple(va.components) == a), ("major", va.major == a[0]), ("minor", va.minor == (a[1] if len(a) > 1 else None)),
                         ("patch", va.patch == (a[2] if len(a) > 2 else None)), ("len", len(va) == len(a)), ("valid", misc.Version.is_valid(".".join(map(str, a)))),
                         ("formatted", va.formatted(prefix="p", suffix="s", separator="_") == "p" + "_".join(map(str, a)) + "s"), ("int", len(a) > 1 or misc.Version(a[0]) == va)):
            acc.step()
            if not ok:
                acc.violate(f"version {a} {what}", f"{va} {what}")
        for b in vs:
            s = ".".join(map(str, b))
            acc.case(("version", a, b), (a > b) - (a < b))
            for vb in (misc.Version(s), s, [str(x) for x in b]):
                got = (va < vb, va <= vb, va == vb, va != vb, va >= vb, va > vb)
                if got != (a < b, a <= b, a == b, a != b, a >= b, a > b):
                    acc.violate(f"version order {a} {b}", f"{va} vs {vb!r}: {got}")
    if i == 0:
        for bad in ("a", "", "1.x", "1..2", [], None, 1.5, "1.2-beta"):
            acc.case(("invalid version", repr(bad)), "invalid")
            if misc.Version.is_valid(bad) or misc.Version.wrap(bad) is not None or attempt(misc.Version, bad)[0] != "raise" or misc.Version("1") == bad:
                acc.violate(f"invalid version {bad!r}", "is accepted")


class Color(enum.Enum):
    RED = "red"


class Custom:
    def __json__(self):
        return {"custom": [1, frozenset({2})]}


@dataclasses.dataclass
class Data:
    x: int
    y: list


class IntColor(enum.IntEnum):
    ONE = 1


ATOMS = [(1, 1), (2.5, 2.5), ("s\"", "s\""), (None, None), (True, True), (Color.RED, "red"), (pathlib.Path("/a/b"), "/a/b"), (datetime.date(2020, 1, 2), "2020-01-02"),
         (datetime.datetime(2020, 1, 2, 3, 4, 5), "2020-01-02T03:04:05"), (datetime.time(1, 2), "01:02:00"), (datetime.timedelta(minutes=1), 60.0), (Custom(), {"custom": [1, [2]]}), (Data(1, [2]), {"x": 1, "y": [2]}),
         (frozenset({7}), [7]), (IntColor.ONE, 1)]


def json_conversion(acc, i, n, depth):
    level = list(ATOMS)
    everything = list(ATOMS)
    for _ in range(depth):
        new = []
        for (v, j) in level:
            new += [([v], [j]), ((v, 1), [j, 1]), ({"k": v}, {"k": j}), ({"k": 1, "l": [v, v]}, {"k": 1, "l": [j, j]})]
        everything += new
        level = new
    for v, j in sliced(everything, i, n):
        got = attempt(util.to_json, v)
        acc.case(("json", repr(j), repr(type(v))), got[0])
        if v is None:
            if got != ("ok", None):
                acc.violate("json None", f"{got}")
            continue
        if got[0] != "ok" or json.loads(got[1]) != j:
            acc.violate(f"json {j}", f"{got} instead of {j}")
            continue
        buf = io.StringIO()
        util.to_json_dump(v, buf)
        if buf.getvalue() != got[1]:
            acc.violate(f"json dump {j}", f"{buf.getvalue()} is not {got[1]}")


# -- 7. integers --------------------------------------------------------------------------------------------------------------

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "/": operator.truediv, "%": operator.mod, "**": operator.pow,
       "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift,
       "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}
UN = {"abs": abs, "-": operator.neg, "+": operator.pos, "~": operator.invert, "int": int, "ceil": math.ceil, "floor": math.floor, "round": round, "trunc": math.trunc, "bool": bool, "hash": hash, "str": None,
      "index": operator.index}


class Timeout(BaseException):
    pass


class GuardedLock:
    """single-threaded stand-in for a lock: waiting for itself is reported instead of waiting forever"""

    def __init__(self):
        self.held = False

    def acquire(self, *a, **k):
        if self.held:
            raise RuntimeError("deadlock")
        self.held = True
        return True

    def release(self):
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class GuardedRLock(GuardedLock):
    def acquire(self, *a, **k):
        return True

    __enter__ = acquire


class PatchedLock:
    """while active, counters receive controlled locks"""

    def __init__(self, cls, rcls):
        self.new = {"Lock": cls, "RLock": rcls}

    def __enter__(self):
        self.saved = [(m, k, getattr(m, k)) for m in (threading, num) for k in self.new if hasattr(m, k)]
        for m, k, _ in self.saved:
            setattr(m, k, self.new[k])

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def plain(x):
    return int(x) if isinstance(x, (num.AtomicInt, num.BoundedInt)) else x


def integers(acc, i, n):
    vals = [-3, -1, 0, 1, 2, 5]
    with PatchedLock(GuardedLock, GuardedRLock):
        for a, b in sliced(itertools.product(vals, vals), i, n):
            for opname, op in BIN.items():
                want = attempt(op, a, b)
                for kind, mk in (("atomic", num.AtomicInt), ("bounded", num.BoundedInt)):
                    for side in ("both", "left", "right", "same"):
                        if side == "same" and a != b:
                            continue
                        x = mk(a) if side != "right" else a
                        y = x if side == "same" else (mk(b) if side != "left" else b)
                        got = attempt(op, x, y)
                        got = (got[0], plain(got[1]))
                        acc.case((kind, opname, a, b, side), want[0])
                        w = want
                        if opname == "**" and b < 0:
                            continue  # no integer result
                        if got != w:
                            acc.violate(f"{kind} {a} {opname} {b} {side}", f"{got} instead of {w}")
                        if plain(x) != a or plain(y) != b:
                            acc.violate(f"{kind} {a} {opname} {b} {side} modified", "operands were changed")
        for a in sliced(vals, i, n):
            for opname, op in UN.items():
                for kind, mk in (("atomic", num.AtomicInt), ("bounded", num.BoundedInt)):
                    if op is None:
                        got, want = attempt(str, mk(a)), ("ok", str(a))
                    else:
                        got, want = attempt(op, mk(a)), ("ok", op(a))
                    acc.case((kind, opname, a), want)
                    if (got[0], plain(got[1])) != want:
                        acc.violate(f"{kind} {opname} {a}", f"{got} instead of {want}")
            # bounded arithmetic always stays within the bounds
            for lo, hi in itertools.product([None, -2, 0, 1], [None, 0, 2, 4]):
                made = attempt(num.BoundedInt, a, allowed_min=lo, allowed_max=hi)
                if lo is not None and hi is not None and lo > hi:
                    if made[0] == "ok":
                        acc.violate(f"bounds {lo} {hi}", "an empty range is accepted")
                    continue

                def clip(v):
                    v = v if lo is None else max(lo, v)
                    return v if hi is None else min(hi, v)

                x = made[1]
                for b in vals:
                    acc.case(("bounds", a, b, lo, hi), clip(a))
                    y = num.BoundedInt(a, allowed_min=lo, allowed_max=hi)
                    y.value = b
                    for what, got, want in (("value", x.value, clip(a)), ("assigned", y.value, clip(b)), ("+", int(x + b), clip(clip(a) + b)), ("*", int(x * b), clip(clip(a) * b)), ("neg", int(-x), clip(-clip(a)))):
                        if got != want:
                            acc.violate(f"bounds {what} {a} {b} {lo} {hi}", f"{got} instead of {want}")
        if i == 0:
            for s, want in (("1", True), ("1.5", True), ("-2e3", True), ("x", False), ("", False), (None, False), ("1a", False), (" 3 ", True)):
                acc.case(("number", s), want)
                if num.represents_number(s) != want:
                    acc.violate(f"represents_number {s!r}", "")


# operations of a shared counter: (name, callable on the counter, step of the sequential model: value -> (value, result))
COPS = {
    "inc": (lambda c: c.increment(), lambda v: (v + 1, None)),
    "inc2": (lambda c: c.increment(2), lambda v: (v + 2, None)),
    "get": (lambda c: c.value, lambda v: (v, v)),
    "reset": (lambda c: c.reset(), lambda v: (0, None)),
    "set5": (lambda c: setattr(c, "value", 5), lambda v: (5, None)),
    "eq1": (lambda c: c == 1, lambda v: (v, v == 1)),
    "int": (lambda c: int(c), lambda v: (v, v)),
    "add": (lambda c: int(c + 1), lambda v: (v, v + 1)),
}


def linearizable(progs, results, final):
    """is there an order of all operations, respecting the order of each thread, which explains all results?"""
    n = len(progs)

    def go(pos, v):
        if all(pos[t] == len(progs[t]) for t in range(n)):
            return v == final
        for t in range(n):
            if pos[t] < len(progs[t]):
                nv, r = COPS[progs[t][pos[t]]][1](v)
                if r == results[t][pos[t]] and go(pos[:t] + (pos[t] + 1,) + pos[t + 1 :], nv):
                    return True
        return False

    return go((0,) * n, 0)


def counters(acc, i, n, thorough):
    progs = [tuple(p) for p in itertools.combinations_with_replacement(list(itertools.product(COPS, repeat=1)) + [("inc", "get"), ("inc2", "get"), ("get", "inc")], 2)]
    progs += [(("inc",), ("inc",), ("get",)), (("inc",), ("inc2",), ("reset",)), (("inc",), ("inc",), ("inc",))]
    if thorough:
        two = list(itertools.product(("inc", "get", "reset", "set5"), repeat=2))
        progs += [tuple(p) for p in itertools.combinations_with_replacement(two, 2)]
    if True:
        for prog in sliced(progs, i, n):
            def mk():
                with PatchedLock(sched.CtlLock, sched.CtlRLock):
                    c = num.AtomicInt(0)
                res = [[] for _ in prog]

                def thread(t):
                    for op in prog[t]:
                        res[t].append(COPS[op][0](c))

                return [lambda t=t: thread(t) for t in range(len(prog))], (c, res)

            for (c, res), results, run in sched.explore(mk, bound=3 if thorough else 2, files=("util/num.py",)):
                acc.case(("counter", prog, tuple(map(tuple, run.trace))), tuple(map(tuple, res)))
                acc.step(len(run.trace))
                if run.deadlock:
                    acc.violate(f"counter {prog} deadlock", "threads wait for each other forever", [x[0] for x in run.trace])
                    break
                if any(r[0] != "ok" for r in results.values()) or len(results) != len(prog):
                    acc.violate(f"counter {prog} fails", f"{results}", [x[0] for x in run.trace])
                    break
                if not linearizable(prog, res, c._value if not hasattr(c._value, "_value") else int(c)):
                    acc.violate(f"counter {prog}", f"results {res} and final value {c} do not correspond to any order of the operations", [x[0] for x in run.trace])
                    break


# -- 8. data frames -----------------------------------------------------------------------------------------------------------

def frames(acc, i, n):
    cells = [("int", [1, 2]), ("float", [1.5, -2.0]), ("str", ["a,b", 'q"x']), ("dict", [{"a": 1}, {"b": [1, 2]}]), ("list", [[1], []]), ("mixed", ["a", 1]), ("bool", [True, False])]
    tmp = tempfile.mkdtemp(prefix="p24")
    try:
        for r in (1, 2, 3):
            for cols in sliced(itertools.combinations(cells, r), i, n):
                df = pd.DataFrame({k: pd.Series(v) for k, v in cols})
                orig = copy.deepcopy({k: list(v) for k, v in cols})
                for ext in (".csv", ".CSV"):
                    path = os.path.join(tmp, "sub", "-".join(k for k, _ in cols) + ext)
                    acc.case(("frame", tuple(k for k, _ in cols), ext), ext)
                    res = attempt(util.write_df, df, path)
                    if res[0] != "ok":
                        acc.violate(f"write_df {[k for k, _ in cols]}{ext}", f"{res}")
                        continue
                    if {k: list(df[k]) for k in df.columns} != orig:
                        acc.violate(f"write_df modifies {[k for k, _ in cols]}", f"the frame of the caller is now {df.to_dict()}")
                    back = util.read_df(path)
                    if list(back.columns) != list(orig):
                        acc.violate(f"read_df columns {list(orig)}", f"{list(back.columns)}")
                        continue
                    for k in orig:
                        got = list(back[k])
                        if k in ("dict", "list", "mixed"):
                            got = [json.loads(x) for x in got]
                        if got != orig[k]:
                            acc.violate(f"read_df {k}{ext}", f"{got} instead of {orig[k]}")
        if i == 0 and (attempt(util.read_df, "/x.foo")[0] != "raise" or attempt(util.write_df, pd.DataFrame(), os.path.join(tmp, "x.foo"))[0] != "raise"):
            acc.violate("unknown format", "is accepted")
    finally:
        shutil.rmtree(tmp)


def run(c: Check):
    t = c.thorough
    c.part("queues", lambda acc, i, n: histories(acc, i, n, 5 if t else 4))
    c.part("dictionaries", lambda acc, i, n: dict_histories(acc, i, n, 5 if t else 4))
    c.part("collections", lambda acc, i, n: collection_functions(acc, i, n, 6 if t else 4))
    c.part("dict-functions", dict_functions)
    c.part("graphs", lambda acc, i, n: graph_functions(acc, i, n, 5 if t else 4, 4))
    c.part("walk-objects", walk_objects)
    c.part("dependency-graphs", lambda acc, i, n: (dependency_histories(acc, i, n, 4 if t else 3), dependency_histories(acc, i, n, 3, "abcd") if t else None))
    c.part("versions", versions)
    c.part("json", lambda acc, i, n: json_conversion(acc, i, n, 3 if t else 2))
    c.part("integers", integers)
    c.part("counters", lambda acc, i, n: counters(acc, i, n, t))
    c.part("frames", frames)
    c.finish()


run(Check("P24", "model_checking",
          "every operation sequence (queues, dictionaries, dependency graphs), every small argument (collection, dictionary, JSON, version, integer functions), "
          "every graph up to the bound with every random outcome, and every interleaving of threads sharing a counter up to the preemption bound, against reference models; "
          "a case is distinct by its input, history or schedule"))
