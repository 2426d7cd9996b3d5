"""P19: pessimistic join ordering: complete join orders with valid bounds; the join graph reports its state exactly."""
import itertools
import math
import warnings
from functools import lru_cache

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import joinspace as js  # noqa: E402
from fakedb import FakeDatabase  # noqa: E402

import postbound as pb  # noqa: E402
from postbound import Cardinality  # noqa: E402
from postbound._core import JoinOperator as JO, TableReference  # noqa: E402
from postbound.opt import ues  # noqa: E402
from postbound.opt._joingraph import JoinGraph  # noqa: E402
from postbound.parser import parse_query  # noqa: E402

NAMES = "abcde"
KINDS = ["fp", "pf", "nm", "ss", "pp", "fpn", "pn"]


# ---------------------------------------------------------------- typed join graphs
def preds(i, j, kind, ref):
    a, b = ref[i], ref[j]
    return {
        "fp": [f"{a}.r{j} = {b}.id"],
        "pf": [f"{a}.id = {b}.r{i}"],
        "nm": [f"{a}.k = {b}.k"],
        "ss": [f"{a}.s = {b}.s"],
        "pp": [f"{a}.id = {b}.id"],
        "fpn": [f"{a}.r{j} = {b}.id", f"{a}.k = {b}.k"],
        "pn": [f"{a}.id = {b}.k"],
    }[kind]


def key_side(i, j, kind):
    """directed pairs (foreign key table, primary key table)"""
    return {"fp": {(i, j)}, "fpn": {(i, j)}, "pf": {(j, i)}, "pp": {(i, j), (j, i)}}.get(kind, set())


@lru_cache(None)
def build(n, edges, kinds, alias="", filters=()):
    ref = [(f"x{c}" if alias else c) for c in NAMES[:n]]
    frm = ", ".join(f"{c} AS {r}" if alias else c for c, r in zip(NAMES, ref))
    p = [x for (i, j), k in zip(edges, kinds) for x in preds(i, j, k, ref)] + [f"{ref[i]}.v = {v}" for i, v in filters]
    q = parse_query(f"SELECT * FROM {frm}" + (f" WHERE {' AND '.join(p)}" if p else ""))
    tabs = [TableReference(c, r if alias else "") for c, r in zip(NAMES, ref)]
    return q, tabs


class Schema:
    def is_primary_key(self, col):
        return col.name == "id"

    def has_secondary_index(self, col):
        return col.name[0] in "rs"


class Stats:
    cache_enabled = True

    def __init__(self, freq, rows, distinct=None, mcv=True):
        self.freq, self.rows, self.distinct, self.mcv = freq, rows, distinct, mcv

    def most_common_values(self, col, *, k=10, emulated=None, cache_enabled=None):
        # the frequencies of further values are irrelevant for the bound
        return [(f"v{j}", self.freq(col)) for j in range(k)] if self.mcv and self.freq(col) is not None else []

    def total_rows(self, table, *, emulated=None, cache_enabled=None):
        return self.rows(table)

    def num_distinct(self, col, *, emulated=None, cache_enabled=None):
        return self.distinct(col)


class Db(FakeDatabase):
    def __init__(self, stats, log=lambda *_: None):
        super().__init__("x", log)
        self._s = stats

    def schema(self):
        return Schema()

    def statistics(self):
        return self._s


class Base(ues.BaseTableEstimator):
    def __init__(self, cards):
        super().__init__("scripted")
        self.cards = cards
        self.query = None

    def setup_for_query(self, query):
        self.query = query

    def estimate_for(self, table):
        if self.query is None or table not in self.query.tables():
            raise RuntimeError("estimator used for a foreign table")
        return Cardinality(self.cards[NAMES.index(table.full_name)])

    def estimate_total_rows(self, table):
        return Cardinality(10 * self.cards[NAMES.index(table.full_name)])

    def describe(self):
        return {"name": "scripted"}


# ---------------------------------------------------------------- join graph histories
def idx(tabs, t):
    return tabs.index(t)


def path_set(tabs, paths):
    return sorted((tabs.index(p.start_table), tabs.index(p.target_table)) for p in paths)


def norm(pred):
    return frozenset(str(p) for p in (pred.base_predicates() if hasattr(pred, "base_predicates") else [pred]))


def inspect(acc, what, key, g, tabs, n, edges, kinds, joined, order):
    """compares all observations of the join graph with the reference state"""
    kind = dict(zip(edges, kinds))
    edge = lambda i, j: (min(i, j), max(i, j)) in kind
    ref = [t.identifier() for t in tabs]

    def eq(label, got, want):
        if got != want:
            acc.violate(f"{what}: {label}", f"{key} after {order}: {got} instead of {want}")

    eq("joined tables", {idx(tabs, t) for t in g.joined_tables()}, set(joined))
    eq("free tables", {idx(tabs, t) for t in g.free_tables()}, set(range(n)) - set(joined))
    eq("free flags", [g.is_free_table(t) for t in tabs], [i not in joined for i in range(n)])
    eq("free flags of the table infos", [g[t].free for t in tabs], [i not in joined for i in range(n)])
    eq("initial", g.initial(), not joined)
    eq("consumed tables", g.count_consumed_tables(), len(joined))
    eq("contains_free_tables", g.contains_free_tables(), len(joined) < n)
    eq("tables", ({idx(tabs, t) for t in g}, len(g)), (set(range(n)), n))
    eq("joins", sorted(tuple(sorted((idx(tabs, a), idx(tabs, b)))) for a, b in g.all_joins()), sorted(edges))
    eq("cross products", g.contains_cross_products(), not js.is_connected(n, edges))
    init = not joined
    avail = {(i, j) for i, j in edges if init or (i in joined) != (j in joined)}
    paths = [tuple(sorted(p)) for p in path_set(tabs, g.available_join_paths())]
    eq("available join paths", sorted(paths), sorted(avail))
    if not init:
        eq("direction of the available join paths", all(a in joined and b not in joined for a, b in path_set(tabs, g.available_join_paths())), True)
    both = path_set(tabs, g.available_join_paths(both_directions_on_initial=True))
    eq("available join paths in both directions", both, sorted([*avail, *((b, a) for a, b in avail)]) if init else sorted((a, b) if a in joined else (b, a) for a, b in avail))
    nm = {(i, j) for i, j in edges if g.is_n_m_join(tabs[i], tabs[j])}
    for i, j in itertools.permutations(range(n), 2):
        eq("joins_tables", g.joins_tables(tabs[i], tabs[j]), edge(i, j))
        eq("is_available_join", g.is_available_join(tabs[i], tabs[j]), (min(i, j), max(i, j)) in avail)
        pf, fp = g.is_pk_fk_join(tabs[i], tabs[j]), g.is_pk_fk_join(tabs[j], tabs[i])
        eq("n:m joins are those without a key", g.is_n_m_join(tabs[i], tabs[j]), edge(i, j) and not pf and not fp)
        initial_kind = edge(i, j) and (i, j) in key_side(min(i, j), max(i, j), kind[min(i, j), max(i, j)])
        if len(joined) <= 1 or (i not in joined and j not in joined):
            eq("kind of a join", pf, initial_kind)
        elif pf and not initial_kind:
            eq("key join without a key", pf, False)
        if pf and j in joined and any(x in joined and edge(x, j) and kind[min(x, j), max(x, j)] in ("fp", "pf") and (x, j) in key_side(min(x, j), max(x, j), kind[min(x, j), max(x, j)]) for x in range(n)):
            eq("key join over a key that was already consumed", pf, False)
        p = g.join_predicates_between(tabs[i], tabs[j])
        eq("join predicates between tables", len(p), 1 if edge(i, j) else 0)
        for x in p:
            got = frozenset(frozenset((c.table.identifier() + "." + c.name) for c in b.columns()) for b in x.base_predicates())
            want = frozenset(frozenset(s.split(" = ")) for s in preds(min(i, j), max(i, j), kind[min(i, j), max(i, j)], ref))
            eq("predicate of a join", got, want)
    eq("available n:m paths", sorted(tuple(sorted(p)) for p in path_set(tabs, g.available_n_m_join_paths())), sorted(avail & nm))
    # whether joins count that are neither available nor consumed is not specified
    lo, hi = bool(avail & nm), any(i not in joined or j not in joined for i, j in nm)
    eq("contains_free_n_m_joins", g.contains_free_n_m_joins() in (lo, hi), True)
    for i in range(n):
        eq("available join paths of a table", path_set(tabs, g.available_join_paths_for(tabs[i])), sorted((i, j) for j in range(n) if (min(i, j), max(i, j)) in avail))
        eq("key joins of a table", path_set(tabs, g.available_pk_fk_joins_for(tabs[i])), sorted((i, j) for j in range(n) if j != i and g.is_pk_fk_join(tabs[i], tabs[j]) and (i not in joined or j not in joined)))
        deep = path_set(tabs, g.available_deep_pk_join_paths_for(tabs[i]))
        reach, todo = set(), [i]
        while todo:
            x = todo.pop()
            for y in range(n):
                if y != i and y not in reach and edge(x, y) and g.is_pk_fk_join(tabs[x], tabs[y]):
                    reach.add(y)
                    todo.append(y)
        eq("deep key joins reach every table once", sorted(b for _, b in deep), sorted(reach))
        eq("deep key joins start at reached tables", all(a == i or a in reach for a, _ in deep), True)
        eq("join partners", {idx(tabs, t) for t in g.join_partners_from(tabs[i], tabs[: n - 1])}, {j for j in range(n - 1) if edge(i, j)})


def observe(g, tabs):
    n = len(tabs)
    return (
        frozenset(g.joined_tables()), frozenset(path_set(tabs, g.available_join_paths())),
        tuple(g.is_pk_fk_join(tabs[i], tabs[j]) for i, j in itertools.permutations(range(n), 2)),
        g.contains_free_n_m_joins(), g.contains_free_tables(),
    )


def typed_graphs(n, kinds, connected=None, cyclic=True):
    for edges in js.graphs(n, connected):
        edges = tuple(edges)
        if not cyclic and len(edges) >= n:
            continue
        for ks in itertools.product(kinds, repeat=len(edges)):
            yield edges, ks


def histories(acc, i, n, deep):
    space = [(2, e, k) for e, k in typed_graphs(2, KINDS)] + [(3, e, k) for e, k in typed_graphs(3, KINDS)]
    space += [(4, e, k) for e, k in typed_graphs(4, KINDS if deep else ["fp", "nm", "pp"], True, cyclic=False)]
    space += [(4, e, k) for e, k in typed_graphs(4, ["fp", "nm", "pf"], True) if len(e) == 4 and (deep or k.count("nm") == 1)]
    for m, e, k in sliced(space, i, n):
        alias = "x" if len(k) % 2 else ""
        q, tabs = build(m, e, k, alias)
        key = f"{e} {k}"
        for order in itertools.permutations(range(m)):
            if m == 4 and not deep and order[0] > order[-1]:
                continue
            g = JoinGraph(q, Schema())
            acc.case((m, e, k, order), "ok")
            try:
                prev = None
                for d in range(m + 1):
                    if d:
                        # every step is also tried on a copy first, which must not change the original
                        c = g.clone()
                        before = observe(g, tabs)
                        if observe(c, tabs) != before:
                            acc.violate("join graph: clone is different", f"{key} after {order[:d - 1]}")
                        c.mark_joined(tabs[order[d - 1]])
                        if observe(g, tabs) != before:
                            acc.violate("join graph: clone is not independent", f"{key} after {order[:d - 1]}")
                        after = observe(c, tabs)
                        g.mark_joined(tabs[order[d - 1]])
                        if observe(g, tabs)[:2] != after[:2]:
                            acc.violate("join graph: clone develops differently", f"{key} after {order[:d]}")
                        acc.step()
                    if d == 0 and order != tuple(range(m)):
                        continue
                    inspect(acc, "join graph", key, g, tabs, m, e, k, set(order[:d]), order[:d])
            except Exception as ex:  # noqa: BLE001
                acc.violate("join graph: operation fails", f"{key} order {order}: {short(ex)}")


def components(acc, i, n, deep):
    for m in (2, 3, 4):
        for e, k in sliced(typed_graphs(m, ["fp", "nm"] if m == 4 else ["fp", "nm", "pp"], None), i, n):
            if js.is_connected(m, e):
                continue
            q, tabs = build(m, e, k, "", ((0, 3), (m - 1, 7)))
            acc.case(("components", e, k), "ok")
            try:
                comps = list(JoinGraph(q, Schema()).join_components())
            except Exception as ex:  # noqa: BLE001
                acc.violate("components: fails", f"{e} {k}: {short(ex)}")
                continue
            want = {}
            import networkx as nx

            gr = nx.Graph()
            gr.add_nodes_from(range(m))
            gr.add_edges_from(e)
            got = {}
            for c in comps:
                got[frozenset(idx(tabs, t) for t in c)] = sorted(str(p) for p in c.query.predicates().root.base_predicates()) if c.query.predicates() else []
                if {idx(tabs, t) for t in c.query.tables()} != {idx(tabs, t) for t in c}:
                    acc.violate("components: query has other tables", f"{e} {k}: {c.query}")
            for comp in nx.connected_components(gr):
                tx = [p for (a, b), kk in zip(e, k) if a in comp for p in preds(a, b, kk, list(NAMES))] + [f"{NAMES[x]}.v = {v}" for x, v in ((0, 3), (m - 1, 7)) if x in comp]
                want[frozenset(comp)] = len(tx)
            if {s: len(v) for s, v in got.items()} != want:
                acc.violate("components: wrong components", f"{e} {k}: {got}")


def equivalence(acc, i, n, deep):
    """transitive join predicates are added on request: two tables are joined iff their columns are equal by transitivity"""
    for m in (3, 4):
        for e, k in sliced(typed_graphs(m, ["nm", "ss"], None), i, n):
            if not e:
                continue
            q, tabs = build(m, e, k)
            acc.case(("equivalence", e, k), "ok")
            try:
                g = JoinGraph(q, Schema(), include_predicate_equivalence_classes=True)
                c = g.clone()
            except Exception as ex:  # noqa: BLE001
                acc.violate("equivalence classes: fails", f"{e} {k}: {short(ex)}")
                continue
            import networkx as nx

            want = set()
            for kk in ("nm", "ss"):
                gr = nx.Graph([x for x, y in zip(e, k) if y == kk])
                for comp in nx.connected_components(gr):
                    want |= set(itertools.combinations(sorted(comp), 2))
            for label, x in (("graph", g), ("clone", c)):
                got = {tuple(sorted((idx(tabs, a), idx(tabs, b)))) for a, b in x.all_joins()}
                if got != want:
                    acc.violate(f"equivalence classes: joins of the {label}", f"{e} {k}: {got} instead of {want}")
                try:
                    for t in tabs:
                        x.mark_joined(t)
                        x.available_n_m_join_paths()
                except Exception as ex:  # noqa: BLE001
                    acc.violate(f"equivalence classes: {label} cannot be used", f"{e} {k}: {short(ex)}")


# ---------------------------------------------------------------- join orders
def check_order(acc, what, key, tree, q, tabs, n, edges):
    comp = {}
    for x in range(n):
        comp[x] = x
    for _ in range(n):
        for a, b in edges:
            comp[a] = comp[b] = min(comp[a], comp[b])
    if tree is None:
        acc.violate(f"{what}: no join order", key)
        return
    leaves = sorted(idx(tabs, x.base_table) for x in tree.iternodes() if x.is_scan())
    if leaves != list(range(n)):
        acc.violate(f"{what}: not every table is joined exactly once", f"{key}: {tree}")
        return
    crosses = 0
    for j in tree.iterjoins():
        o, i = ({idx(tabs, t) for t in x.tables()} for x in (j.outer_child, j.inner_child))
        linked = any((a in o and b in i) or (a in i and b in o) for a, b in edges)
        if not linked:
            crosses += 1
            if {comp[x] for x in o} & {comp[x] for x in i}:
                acc.violate(f"{what}: cross product between tables of the same component", f"{key}: {tree}")
            for side in (o, i):
                for x in side:
                    if any(comp[y] == comp[x] and y not in side for y in range(n)):
                        acc.violate(f"{what}: cross product of an incomplete component", f"{key}: {tree}")
        b = j.cardinality if hasattr(j, "cardinality") else None
        if b is None or math.isnan(float(b)) or math.isinf(float(b)) or float(b) < 0:
            acc.violate(f"{what}: join without a bound", f"{key}: {tree} has {b}")
    if crosses != len(set(comp.values())) - 1:
        acc.violate(f"{what}: number of cross products", f"{key}: {tree} has {crosses}")


STAT_SETS = {
    2: [(10, 20), (20, 10), (0, 5), (1, 1)],
    3: [(10, 20, 30), (30, 10, 20), (20, 30, 10), (30, 20, 10), (5, 5, 5), (0, 7, 2)],
    4: [(10, 20, 30, 40), (40, 10, 30, 20), (20, 40, 10, 30), (7, 7, 7, 7), (0, 3, 100, 9), (1000, 1, 1, 1000)],
    5: [(10, 20, 30, 40, 50), (50, 10, 40, 20, 30), (3, 3, 3, 3, 3)],
}
FREQS = [lambda c: 1 if c.name == "id" else 4, lambda c: 1 if c.name == "id" else 1 + (ord(c.table.full_name) * 7 + len(c.name) * 3) % 9, lambda c: 1 if c.name == "id" else 50]


def optimizer(cards, freq, policy, eager, mcv=True):
    stats = Stats(freq, lambda t: 100, lambda c: 100 if c.name == "id" else 20, mcv)
    return ues.UESJoinOrderOptimizer(base_table_estimation=Base(cards), subquery_policy=policy, pull_eager_pk_tables=eager, database=Db(stats))


def orders(acc, i, n, deep):
    jobs = []
    for m in (2, 3):
        for e, k in typed_graphs(m, KINDS, None):
            jobs += [(m, e, k, c, f, p, g) for c in STAT_SETS[m] for f in range(3) for p in (0, 1) for g in (False, True)]
    for e, k in typed_graphs(4, ["fp", "pf", "nm", "pp", "fpn"], True, cyclic=False):
        for c in STAT_SETS[4] if deep else STAT_SETS[4][:4]:
            jobs += [(4, e, k, c, f, p, g) for f in ((0, 1, 2) if deep else (1,)) for p, g in (((0, False), (0, True), (1, False), (1, True)) if deep else ((0, False), (1, True)))]
    for e, k in typed_graphs(4, ["fp", "pf", "nm"], None):
        if js.is_connected(4, e) and len(e) < 4:
            continue
        if len(e) > 4 and (not deep or "pf" in k):
            continue
        for c in STAT_SETS[4] if deep else STAT_SETS[4][1:3]:
            jobs += [(4, e, k, c, 1, 0, g) for g in (False, True)]
    trees5 = typed_graphs(5, ["fp", "pf", "nm"], True, cyclic=False)
    for x, (e, k) in enumerate(trees5):
        if deep or x % 2 == 0:
            jobs += [(5, e, k, c, 1, 0, g) for c in (STAT_SETS[5] if deep else STAT_SETS[5][1:2]) for g in ((False, True) if deep else (x % 4 == 0,))]
    for m, e, k, cards, f, p, g in sliced(jobs, i, n):
        q, tabs = build(m, e, k, "x" if (len(k) + p) % 2 else "")
        key = f"{e} {k} cards {cards} frequencies {f} {'linear' if p else 'ues'} policy eager {g}"
        acc.case((m, e, k, cards, f, p, g), "ok")
        try:
            tree = optimizer(cards, FREQS[f], ues.LinearJoinTreePolicy() if p else None, g, mcv=f != 2).optimize_join_order(q)
        except Exception as ex:  # noqa: BLE001
            acc.violate(f"join order: optimization fails ({type(ex).__name__})", f"{key}: {short(ex)}")
            continue
        check_order(acc, "join order", key, tree, q, tabs, m, e)
        if p and tree is not None and js.is_connected(m, e) and not tree.is_linear():
            acc.violate("join order: linear policy creates subqueries", f"{key}: {tree}")


# ---------------------------------------------------------------- bounds
def relation(table, rows, cols):
    return [dict(zip(cols, r)) for r in rows]


def freq_of(db, pos):
    def f(col):
        vals = [r[col.name] for r in db[pos[col.table.identifier()]] if r[col.name] is not None]
        return max((vals.count(v) for v in vals), default=None)

    return f


def two_tables(acc, i, n, deep):
    """all pairs of relations with up to three rows, with all edge kinds and filters"""
    vals = (0, 1, None) if deep else (0, 1)
    size = 3
    plain = [tuple(x) for s in range(size + 1) for x in itertools.combinations_with_replacement(list(itertools.product(vals, (0, 1))), s)]  # (join value, filter value)
    keys = [tuple((kk, v) for kk, v in zip(ks, vs)) for s in range(size + 1) for ks in itertools.combinations((0, 1, 2), s) for vs in itertools.product((0, 1), repeat=s)]
    two = [tuple(x) for s in range(3) for x in itertools.combinations_with_replacement(list(itertools.product((0, 1), (0, 1), (0, 1))), s)]  # (fk, k, v)
    two_keys = [tuple((kk, *v) for kk, v in zip(ks, vs)) for s in range(3) for ks in itertools.combinations((0, 1), s) for vs in itertools.product(itertools.product((0, 1), (0, 1)), repeat=s)]
    spaces = {"nm": (plain, plain, "k", "k"), "fp": (plain, keys, "r1", "id"), "pf": (keys, plain, "id", "r0"), "pp": (keys, keys, "id", "id"), "ss": (plain, plain, "s", "s")}
    for kind, (left, right, lc, rc) in spaces.items():
        for fl in ((), ((0, 1),), ((1, 1),), ((0, 1), (1, 1))):
            q, tabs = build(2, ((0, 1),), (kind,), "x" if fl else "", fl)
            pairs = itertools.product(left, right)
            for x, (a, b) in enumerate(sliced(pairs, i, n)):
                if kind == "ss" and x % 5:
                    continue
                db = [relation(0, a, (lc, "v")), relation(1, b, (rc, "v"))]
                check_bound(acc, f"bound of two tables ({kind})", q, tabs, db, dict(fl), lambda t0, t1: t0[lc] is not None and t0[lc] == t1[rc], key=(kind, fl, a, b))
    for fl in ((), ((0, 1), (1, 1))):
        q, tabs = build(2, ((0, 1),), ("fpn",), "", fl)
        for a, b in sliced(itertools.product(two, two_keys), i, n):
            db = [relation(0, a, ("r1", "k", "v")), relation(1, b, ("id", "k", "v"))]
            check_bound(acc, "bound of two tables (fpn)", q, tabs, db, dict(fl), lambda t0, t1: t0["r1"] == t1["id"] and t0["k"] == t1["k"], key=("fpn", fl, a, b))
    q, tabs = build(2, (), ())
    for a, b in sliced(itertools.product(range(4), repeat=2), i, n):
        check_bound(acc, "bound of a cross product", q, tabs, [[{"v": 0}] * a, [{"v": 0}] * b], {}, lambda t0, t1: True, key=("cross", a, b))


def check_bound(acc, what, q, tabs, db, filters, cond, key):
    filtered = [[r for r in rel if x not in filters or r["v"] == filters[x]] for x, rel in enumerate(db)]
    true = sum(1 for t0 in filtered[0] for t1 in filtered[1] if cond(t0, t1))
    pos = {t.identifier(): x for x, t in enumerate(tabs)}
    acc.case(key, f"{min(true, 4)}")
    opt = ues.UESJoinOrderOptimizer(
        base_table_estimation=Base([len(f) for f in filtered]),
        database=Db(Stats(freq_of(db, pos), lambda t: len(db[pos[t.identifier()]]), lambda c: len({r[c.name] for r in db[pos[c.table.identifier()]] if r[c.name] is not None}) or None)),
    )
    try:
        tree = opt.optimize_join_order(q)
        b = float(tree.cardinality)
    except Exception as ex:  # noqa: BLE001
        acc.violate(f"{what}: optimization fails", f"{key}: {short(ex)}")
        return
    if not b >= true:
        acc.violate(f"{what}: bound is too small", f"{key}: bound {b} for {true} rows")
    for leaf in tree.iternodes():
        if leaf.is_scan() and float(leaf.cardinality) < len(filtered[idx(tabs, leaf.base_table)]):
            acc.violate(f"{what}: bound of a base table is too small", f"{key}: {tree}")


def stars(acc, i, n, deep):
    """a fact table with two (three) dimensions: the bound of every join of the tree"""
    dims = [tuple(x for x in ks) for s in range(3) for ks in itertools.combinations((0, 1), s)]
    for nd in (2, 3) if deep else (2,):
        rows = list(itertools.product((0, 1, None) if deep and nd == 2 else (0, 1), repeat=nd))
        facts = [x for s in range(4 if nd == 2 else 3) for x in itertools.combinations_with_replacement(rows, s)]
        for swap in (False, True):
            # the fact table is the first or the last table
            f = nd if swap else 0
            ds = [x for x in range(nd + 1) if x != f]
            edges = tuple(tuple(sorted((f, d))) for d in ds)
            kinds = tuple("pf" if swap else "fp" for _ in ds)
            for fl in ((), ((ds[0], 1),), ((f, 1), (ds[-1], 1))):
                q, tabs = build(nd + 1, edges, kinds, "", fl)
                for fact, dim, bits in sliced(itertools.product(facts, itertools.product(dims, repeat=nd), (0, 1) if fl else (0,)), i, n):
                    db = [None] * (nd + 1)
                    db[f] = [dict({f"r{d}": v for d, v in zip(ds, r)}, id=x, v=(x + bits) % 2) for x, r in enumerate(fact)]
                    for d, ks in zip(ds, dim):
                        db[d] = [dict(id=kk, v=(kk + bits) % 2) for kk in ks]
                    filtered = [[r for r in rel if x not in dict(fl) or r["v"] == 1] for x, rel in enumerate(db)]
                    pos = {t.identifier(): x for x, t in enumerate(tabs)}
                    key = (nd, swap, fl, fact, dim, bits)
                    opt = ues.UESJoinOrderOptimizer(base_table_estimation=Base([len(x) for x in filtered]), database=Db(Stats(freq_of(db, pos), lambda t: len(db[pos[t.identifier()]]), lambda c: len(db[pos[c.table.identifier()]]) or None)))
                    try:
                        tree = opt.optimize_join_order(q)
                    except Exception as ex:  # noqa: BLE001
                        acc.violate("bound of a star: optimization fails", f"{key}: {short(ex)}")
                        continue
                    acc.case(key, len(filtered[f]))
                    check_order(acc, "star", str(key), tree, q, tabs, nd + 1, edges)
                    for j in tree.iterjoins():
                        ts = {idx(tabs, t) for t in j.tables()}
                        if f in ts:
                            true = sum(1 for r in filtered[f] if all(any(r[f"r{d}"] is not None and r[f"r{d}"] == s["id"] for s in filtered[d]) for d in ds if d in ts))
                            if float(j.cardinality) < true:
                                acc.violate("bound of a star: bound is too small", f"{key}: {tree} has {j.cardinality} for {true} rows")


# ---------------------------------------------------------------- base table estimates
def estimators(acc, i, n, deep):
    """the queries that the estimators ask are the filtered scans of the table"""
    if i:
        return
    flt = ["x.v = 1", "x.v IN (1, 2)", "x.v > 1 AND x.w = 3", "(x.v = 1 OR x.w = 2)", "x.w IS NULL", "NOT x.v = 1", "x.w LIKE 'a%'"]
    asked = []

    def log(db, kind, *a):
        asked.append((kind, str(a[0])))
        return 42

    for fs, alias in itertools.product([c for s in range(3) for c in itertools.combinations(flt, s)], (False, True)):
        r = "x" if alias else "a"
        sql = f"SELECT count(*) FROM a{' AS x' if alias else ''}, b WHERE {r}.id = b.k AND b.v = 5" + "".join(" AND " + f for f in fs).replace("x.", r + ".")
        q = parse_query(sql)
        t = TableReference("a", "x" if alias else "")
        stats = Stats(lambda c: 3, lambda t: 77)
        for name, cls, kind, head in (("native", ues.NativeCardinalityEstimator, "card", "*"), ("precise", ues.PreciseCardinalityEstimator, "execute", "count(*)")):
            asked.clear()
            acc.case((name, fs, alias), "ok")
            try:
                est = cls(Db(stats, log))
                est.setup_for_query(q)
                got = est.estimate_for(t)
                got2 = est[t]
                total = est.estimate_total_rows(t)
            except Exception as ex:  # noqa: BLE001
                acc.violate(f"{name} estimator: fails", f"{sql}: {short(ex)}")
                continue
            want = f"SELECT {head} FROM a{' AS x' if alias else ''}" + (f" WHERE {' AND '.join(fs).replace('x.', r + '.')}" if fs else "")

            def canon(s):
                p = parse_query(s)
                return (str(p.select_clause), str(p.from_clause), frozenset(str(x) for x in (p.predicates().root.base_predicates() if p.predicates() else [])), str(p.where_clause).count("OR") if p.where_clause else 0)

            if fs or name == "precise":
                if not asked or asked[0][0] != kind or canon(asked[0][1]) != canon(want):
                    acc.violate(f"{name} estimator: asks something else", f"{sql}: {asked[:1]} instead of {want}")
                if float(got) != 42 or float(got2) != 42:
                    acc.violate(f"{name} estimator: answer gets lost", f"{sql}: {got}")
            elif float(got) != 77:
                acc.violate(f"{name} estimator: wrong table size", f"{sql}: {got}")
            if float(total) != 77:
                acc.violate(f"{name} estimator: wrong total number of rows", f"{sql}: {total}")
    for supported in (True, False):
        db = Db(Stats(None, None))
        db.hinting().unsupported = set() if supported else {JO.NestedLoopJoin}
        q, _ = build(2, ((0, 1),), ("nm",))
        got = ues.UESOperatorSelection(db).select_physical_operators(q, None)
        acc.case(("operators", supported), "ok")
        if got.global_settings != ({JO.NestedLoopJoin: False} if supported else {}) or got.join_operators or got.scan_operators:
            acc.violate("operator selection: wrong decisions", f"supported {supported}: {got}")


def index_infos(acc, i, n):
    """what is known about the index of a column: every kind of index in every state, alone and in pairs"""
    from postbound.opt._joingraph import IndexInfo

    if i:
        return
    col = {x: pb.ColumnReference("a", pb.TableReference(x)) for x in "rs"}

    class Catalog:
        def __init__(self, pk, idx):
            self.pk, self.idx = pk, idx

        def is_primary_key(self, c):
            return self.pk

        def has_secondary_index(self, c):
            return self.idx

    ways = {
        "primary": [lambda c: IndexInfo.primary_index(c), lambda c: IndexInfo.generate_for(c, Catalog(True, False)), lambda c: IndexInfo.generate_for(c, Catalog(True, True)), lambda c: IndexInfo(c, "primary")],
        "secondary": [lambda c: IndexInfo.secondary_index(c), lambda c: IndexInfo.generate_for(c, Catalog(False, True)), lambda c: IndexInfo(c, "secondary")],
        "none": [lambda c: IndexInfo.no_index(c), lambda c: IndexInfo.generate_for(c, Catalog(False, False)), lambda c: IndexInfo(c, "none")],
    }
    states = [(kind, k, inv) for kind in ways for k in range(len(ways[kind])) for inv in (False, True)]

    def make(state, t):
        kind, k, inv = state
        x = ways[kind][k](col[t])
        if inv:
            x.invalidate()
        return x

    for a, b in itertools.product(states, repeat=2):
        x, y = make(a, "r"), make(b, "s")
        got = [(z.column, z.index_type, z.is_invalid, z.is_primary(), z.is_secondary(), z.is_indexed()) for z in (x, y)]
        want = [(col[t], s[0], s[2], s[0] == "primary" and not s[2], s[0] == "secondary" and not s[2], s[0] != "none" and not s[2]) for s, t in ((a, "r"), (b, "s"))]
        usable = [s[0] for s in (a, b) if s[0] != "none" and not s[2]]
        acc.case((a, b), str(usable))
        acc.step()
        if got != want:
            acc.violate("index information", f"{a}, {b}: {got}")
        for u, v in ((x, y), (y, x)):
            if u.can_pk_fk_join(v) != (len(usable) == 2 and "primary" in usable):
                acc.violate("index information: primary key/foreign key joins", f"{u} and {v}: {u.can_pk_fk_join(v)}")


def run(c):
    d = c.thorough
    c.part("join graph histories", lambda acc, i, n: histories(acc, i, n, d))
    c.part("index information", index_infos)
    c.part("join components", lambda acc, i, n: components(acc, i, n, d))
    c.part("equivalence classes", lambda acc, i, n: equivalence(acc, i, n, d))
    c.part("join orders", lambda acc, i, n: orders(acc, i, n, d))
    c.part("bounds of two tables", lambda acc, i, n: two_tables(acc, i, n, d))
    c.part("bounds of stars", lambda acc, i, n: stars(acc, i, n, d))
    c.part("base table estimates", lambda acc, i, n: estimators(acc, i, n, d), parallel=False)


if __name__ == "__main__":
    Check("P19", "exploration", "one case per typed join graph and join sequence, per join graph with statistics and settings, or per database; every case compares join orders, bounds and join graph states with the reference").main(run)
