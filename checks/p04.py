"""P04: classification of predicates into joins and filters, join lookups and the join graph."""
import itertools

from vlib import Check, short, sliced

import postbound as pb
from postbound import qal

T = ["r", "s", "t", "u"]
FROM = "r, s, t, u"

# expressions: (text, columns outside of subqueries, tables of uncorrelated parts of subqueries, tables that subqueries take from outside)
EXPRS = {
    "ra": ("r.a", ["r.a"], [], []),
    "rb": ("r.b", ["r.b"], [], []),
    "sa": ("s.a", ["s.a"], [], []),
    "tb": ("t.b", ["t.b"], [], []),
    "r+": ("r.a + 1", ["r.a"], [], []),
    "rs": ("r.b + s.b", ["r.b", "s.b"], [], []),
    "cast": ("s.b::text", ["s.b"], [], []),
    "fn": ("coalesce(r.c, s.c)", ["r.c", "s.c"], [], []),
    "k": ("7", [], [], []),
    "sub": ("(SELECT max(u.a) FROM u)", [], ["u"], []),
    "dep": ("(SELECT max(v.a) FROM v WHERE v.b = t.c)", [], ["v", "t"], ["t"]),
    "case": ("CASE WHEN r.a = 1 THEN s.b ELSE 0 END", ["r.a", "s.b"], [], []),
}


def tab(c):
    return c.split(".")[0]


def pairs(*colsets):
    cols = sorted(set(itertools.chain(*colsets)))
    return {frozenset(p) for p in itertools.combinations(cols, 2) if tab(p[0]) != tab(p[1])}


class Leaf:
    """a base predicate with its reference classification"""

    def __init__(self, text, rows, exprs):
        # rows: groups of expressions that are compared with each other (BETWEEN and IN compare the first with each other)
        self.text = text
        self.cols = set(itertools.chain(*[EXPRS[e][1] for e in exprs]))
        self.tables = {tab(x) for x in self.cols} | set(itertools.chain(*[EXPRS[e][2] for e in exprs]))
        self.required = {tab(x) for x in self.cols} | set(itertools.chain(*[EXPRS[e][3] for e in exprs]))
        self.pairs = set()
        self.join = False
        for row in rows:
            sets = [set(EXPRS[e][1]) for e in row]
            tabs = [{tab(x) for x in s} for s in sets]
            if any(len(x) > 1 for x in tabs) or (len(tabs) == 2 and tabs[0] and tabs[1] and tabs[0] != tabs[1]):
                self.join = True
                self.pairs |= pairs(*sets)
        self.struct = None

    def __repr__(self):
        return self.text


def leaves():
    out = []
    names = list(EXPRS)
    for a, b in itertools.product(names, names):
        for op in ("=", "<", "<>") if (a, b) == ("ra", "sa") else ("=",):
            out.append(Leaf(f"{EXPRS[a][0]} {op} {EXPRS[b][0]}", [(a, b)], (a, b)))
    few = ["ra", "rb", "sa", "tb", "rs", "k", "sub", "dep", "r+"]
    for x, lo, hi in itertools.product(few, repeat=3):
        out.append(Leaf(f"{EXPRS[x][0]} BETWEEN {EXPRS[lo][0]} AND {EXPRS[hi][0]}", [(x, lo), (x, hi)], (x, lo, hi)))
    for x, v, w in itertools.product(few, ["k", "rb", "sa", "tb", "rs", "dep"], ["k", "sa", "tb"]):
        out.append(Leaf(f"{EXPRS[x][0]} IN ({EXPRS[v][0]}, {EXPRS[w][0]})", [(x, v), (x, w)], (x, v, w)))
        out.append(Leaf(f"{EXPRS[x][0]} NOT IN ({EXPRS[v][0]}, {EXPRS[w][0]})", [(x, v), (x, w)], (x, v, w)))
    for x in names:
        out.append(Leaf(f"{EXPRS[x][0]} IS NULL", [(x,)], (x,)))
        out.append(Leaf(f"{EXPRS[x][0]} IN (SELECT u.a FROM u)", [(x,)], (x, "sub")))
        out.append(Leaf(f"{EXPRS[x][0]} LIKE 'x%'", [(x,)], (x,)))
    out.append(Leaf("EXISTS (SELECT 1 FROM u WHERE u.x = 1)", [], ("sub",)))
    out.append(Leaf("EXISTS (SELECT 1 FROM v WHERE v.x = t.c)", [], ("dep",)))
    return [o for o in out if o.tables]


def parse_pred(text):
    q = pb.parse_query(f"SELECT * FROM {FROM} WHERE {text}")
    return q, q.predicates().root


def struct(p):
    if isinstance(p, qal.CompoundPredicate):
        kids = p.children if p.operation != qal.CompoundOperator.Not else [p.children]
        name = p.operation.name
        out = []
        for k in kids:
            s = struct(k)
            if name != "Not" and isinstance(s, tuple) and s[0] == name:
                out.extend(s[1])
            else:
                out.append(s)
        return (name, tuple(out))
    return str(p)


class Node:
    def __init__(self, op, kids):
        self.op, self.kids = op, kids

    @property
    def text(self):
        if self.op == "Not":
            return f"NOT ({self.kids[0].text})"
        w = " AND " if self.op == "And" else " OR "
        return "(" + w.join(k.text for k in self.kids) + ")"

    @property
    def struct(self):
        out = []
        for k in self.kids:
            s = k.struct
            if self.op != "Not" and isinstance(s, tuple) and s[0] == self.op:
                out.extend(s[1])
            else:
                out.append(s)
        return (self.op, tuple(out))

    @property
    def join(self):
        return any(k.join for k in self.kids)

    @property
    def pairs(self):
        return set().union(*[k.pairs for k in self.kids if k.join] or [set()])

    @property
    def tables(self):
        return set().union(*[k.tables for k in self.kids])

    @property
    def required(self):
        return set().union(*[k.required for k in self.kids])

    @property
    def leaves(self):
        return set().union(*[k.leaves for k in self.kids])


Leaf.leaves = property(lambda self: {self.struct})


def flat(node, op):
    if isinstance(node, Node) and node.op == op:
        return list(itertools.chain(*[flat(k, op) for k in node.kids]))
    return [node]


def classify(node, join):
    """documented rule: conjunctions are un-nested, disjunctions are split by the class of their direct children"""
    if isinstance(node, Node) and node.op == "And":
        return list(itertools.chain(*[classify(k, join) for k in flat(node, "And")]))
    if isinstance(node, Node) and node.op == "Or":
        kids = [k for k in flat(node, "Or") if k.join == join]
        if not kids:
            return []
        return kids if len(kids) == 1 else [Node("Or", kids)]
    return [node] if node.join == join else []


def conj(p):
    if p is None:
        return frozenset()
    s = struct(p)
    return frozenset(s[1]) if isinstance(s, tuple) and s[0] == "And" else frozenset([s])


def conj_of(nodes):
    out = set()
    for n in nodes:
        s = n.struct
        out |= set(s[1]) if isinstance(s, tuple) and s[0] == "And" else {s}
    return frozenset(out)


TR = {x: pb.TableReference(x) for x in T + ["v"]}


def colset(pairset):
    return {frozenset(str(c) for c in p) for p in pairset}


def check_base(acc, i, k):
    for leaf in sliced(leaves(), i, k):
        q, p = parse_pred(leaf.text)
        acc.case(leaf.text, "join" if leaf.join else "filter")

        def bad(what, got, want):
            acc.violate(f"{what}:{leaf.text}", f"{what} of {leaf.text}: {got}, expected {want}", leaf.text)

        try:
            if p.is_join() != leaf.join or p.is_filter() == leaf.join:
                bad("is_join", p.is_join(), leaf.join)
                continue
            if {t.identifier() for t in p.tables()} - {"v"} != leaf.tables - {"v"}:
                bad("tables", p.tables(), leaf.tables)
            if {t.identifier() for t in p.required_tables()} != leaf.required:
                bad("required_tables", p.required_tables(), leaf.required)
            if leaf.join:
                if colset(p.join_partners()) != leaf.pairs:
                    bad("join_partners", p.join_partners(), leaf.pairs)
                if len(colset(p.join_partners())) != len(p.join_partners()):
                    bad("join_partners-normalized", p.join_partners(), leaf.pairs)
            for t in T:
                acc.step()
                cols = {x for x in leaf.cols if tab(x) == t}
                if {str(x) for x in p.columns_of(TR[t])} & leaf.cols != cols:
                    bad("columns_of " + t, p.columns_of(TR[t]), cols)
                if p.contains_table(TR[t]) != (t in leaf.tables):
                    bad("contains_table " + t, p.contains_table(TR[t]), t in leaf.tables)
                partners = {x for pr in leaf.pairs for x in pr if any(tab(y) == t for y in pr) and tab(x) != t}
                if p.joins_table(TR[t]) != bool(partners):
                    bad("joins_table " + t, p.joins_table(TR[t]), bool(partners))
                if leaf.join and {str(x) for x in p.join_partners_of(TR[t])} != partners:
                    bad("join_partners_of " + t, p.join_partners_of(TR[t]), partners)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise:{leaf.text}", short(e), leaf.text)


SUBSETS = [frozenset(x) for n in range(1, 4) for x in itertools.combinations(T, n)]
SPLITS = [(a, b) for a in SUBSETS for b in SUBSETS if not a & b]


def connected(tabs, edges):
    tabs = set(tabs)
    seen, todo = set(), [next(iter(tabs))]
    while todo:
        x = todo.pop()
        seen.add(x)
        for e in edges:
            if x in e and e <= tabs:
                todo += [y for y in e if y not in seen]
    return seen == tabs


def check_query(acc, tree, lookups=True):
    text = f"SELECT * FROM {FROM} WHERE {tree.text}"
    want_f, want_j = classify(tree, False), classify(tree, True)
    sf, sj = {n.struct for n in want_f}, {n.struct for n in want_j}
    acc.case(tree.text, f"{min(len(sf), 3)}f{min(len(sj), 3)}j", text)

    def bad(what, got, want):
        acc.violate(f"{what}:{tree.text}", f"{what}: {got}, expected {want}", text)

    try:
        q = pb.parse_query(text)
        p = q.predicates()
        for src, name in ((p, ""), (q, "query.")):
            got = [struct(x) for x in src.filters()]
            if set(got) != sf or len(got) != len(sf):
                bad(name + "filters", got, sf)
            got = [struct(x) for x in src.joins()]
            if set(got) != sj or len(got) != len(sj):
                bad(name + "joins", got, sj)
        if {struct(b) for b in p.root.base_predicates()} != tree.leaves:
            bad("base_predicates", list(p.root.base_predicates()), tree.leaves)
        got = [struct(x) for x in p]
        if set(got) != sf | sj or len(got) != len(sf | sj):
            bad("iteration", got, sf | sj)
        if p.root.is_join() != tree.join:
            bad("is_join", p.root.is_join(), tree.join)
        if tree.join and colset(p.root.join_partners()) != tree.pairs:
            bad("join_partners", p.root.join_partners(), tree.pairs)
        edges = {}
        for n in want_j:
            for e in {frozenset(tab(x) for x in pr) for pr in n.pairs}:
                edges.setdefault(e, []).append(n)
        g = q.join_graph()
        if {x.identifier() for x in g.nodes} != set(T) | {x for x in tree.required if x in T}:
            bad("join_graph-nodes", g.nodes, T)
        if {frozenset(x.identifier() for x in e) for e in g.edges} != set(edges):
            bad("join_graph-edges", g.edges, set(edges))
        else:
            for a, b, d in g.edges(data=True):
                e = frozenset((a.identifier(), b.identifier()))
                if conj(d["predicate"]) != conj_of(edges[e]):
                    bad(f"join_graph-predicate {sorted(e)}", d["predicate"], conj_of(edges[e]))
        if q.contains_cross_product() != (not connected(T, set(edges))):
            bad("contains_cross_product", q.contains_cross_product(), not connected(T, set(edges)))
        for t in T:
            acc.step()
            ff = [n for n in want_f if t in n.tables]
            for src in (p, q):
                if conj(src.filters_for(TR[t])) != conj_of(ff):
                    bad("filters_for " + t, src.filters_for(TR[t]), conj_of(ff))
                jf = [n for n in want_j if t in n.required]
                got = src.joins_for(TR[t])
                if (frozenset().union(*[conj(x) for x in got]) if got else frozenset()) != conj_of(jf) or sum(len(conj(x)) for x in got) != len(conj_of(jf)):
                    bad("joins_for " + t, got, conj_of(jf))
                ps = [frozenset(c.table for c in x.join_partners_of(TR[t])) for x in got]
                if len(ps) != len(set(ps)):
                    bad("joins_for-partners " + t, got, "one entry per set of partners")
            gp = g.nodes[TR[t]]["predicate"] if TR[t] in g.nodes else None
            if t in tree.required and conj(gp) != conj_of(ff):
                bad("join_graph-filter " + t, gp, conj_of(ff))
        if not lookups:
            return
        for a, b in SPLITS:
            acc.step()
            want = conj_of([n for e, ns in edges.items() if len(e & a) == 1 and len(e & b) == 1 for n in ns])
            aa, bb = [TR[x] for x in sorted(a)], [TR[x] for x in sorted(b)]
            if len(a) == 1 and len(b) == 1:
                aa, bb = aa[0], bb[0]
            for comp in ("map", "legacy", "graph"):
                got = p.joins_between(aa, bb, _computation=comp)
                if conj(got) != want:
                    bad(f"joins_between {sorted(a)}-{sorted(b)} {comp}", got, want)
            if conj(q.joins_between(aa, bb)) != want:
                bad(f"query.joins_between {sorted(a)}-{sorted(b)}", q.joins_between(aa, bb), want)
        for a in SUBSETS + [frozenset(T)]:
            want = connected(a, set(edges)) if len(a) > 1 else next(iter(a)) in tree.tables
            ts = [TR[x] for x in sorted(a)]
            for got in (p.joins_tables(ts), p.joins_tables(ts[0], *ts[1:]), q.joins_tables(ts)):
                if got != want:
                    bad(f"joins_tables {sorted(a)}", got, want)
    except Exception as e:  # noqa: BLE001
        acc.violate(f"raise:{tree.text}", short(e), text)


def pool():
    out = []
    table = [
        ("r.a = s.a", ["r.a", "s.a"], True, [], []), ("r.b = t.b", ["r.b", "t.b"], True, [], []), ("s.b = t.c", ["s.b", "t.c"], True, [], []),
        ("r.a < s.b", ["r.a", "s.b"], True, [], []), ("t.a = u.a", ["t.a", "u.a"], True, [], []), ("r.a = 1", ["r.a"], False, [], []),
        ("r.b = r.c", ["r.b", "r.c"], False, [], []), ("s.a > 2", ["s.a"], False, [], []), ("u.c IS NULL", ["u.c"], False, [], []),
        ("t.b BETWEEN s.a AND 9", ["t.b", "s.a"], True, [], []), ("r.b + s.b = t.c", ["r.b", "s.b", "t.c"], True, [], []),
        ("r.a IN (s.a, 5)", ["r.a", "s.a"], True, [], []), ("EXISTS (SELECT 1 FROM v WHERE v.x = t.c)", [], False, ["v", "t"], ["t"]),
        ("r.b = (SELECT max(u.z) FROM u)", ["r.b"], False, ["u"], []),
    ]
    for text, cols, join, st, sr in table:
        leaf = Leaf(text, [], [])
        leaf.cols, leaf.join = set(cols), join
        leaf.tables = {tab(x) for x in cols} | set(st)
        leaf.required = {tab(x) for x in cols} | set(sr)
        leaf.pairs = pairs(cols) if join else set()
        leaf.struct = str(parse_pred(text)[1])
        out.append(leaf)
    return out


def trees(thorough):
    """disjunctions directly within disjunctions are left out: whether they count as nested children is not specified"""
    return (t for t in all_trees(thorough) if not nested_or(t))


def nested_or(t):
    return isinstance(t, Node) and (t.op == "Or" and any(isinstance(k, Node) and k.op == "Or" for k in t.kids) or any(nested_or(k) for k in t.kids))


def all_trees(thorough):
    L = pool()
    small = [L[0], L[1], L[3], L[5], L[7], L[10], L[12]]
    if thorough:
        small = L
    for a in L:
        yield a
        yield Node("Not", [a])
    for a, b in itertools.permutations(L, 2):
        for op in ("And", "Or"):
            yield Node(op, [a, b])
            yield Node("Not", [Node(op, [a, b])])
            yield Node(op, [a, Node("Not", [b])])
    for a, b, d in itertools.permutations(small, 3):
        for o1, o2 in itertools.product(("And", "Or"), repeat=2):
            yield Node(o1, [Node(o2, [a, b]), d])
            yield Node(o1, [d, Node("Not", [Node(o2, [a, b])])])
    for a, b, d, e in itertools.combinations(L[:9] if thorough else [L[0], L[1], L[2], L[5], L[8]], 4):
        for o1, o2, o3 in itertools.product(("And", "Or"), repeat=3):
            yield Node(o1, [Node(o2, [a, b]), Node(o3, [d, e])])
            yield Node(o1, [a, Node(o2, [b, Node(o3, [d, e])])])


def compound(acc, i, k):
    for n, tree in enumerate(sliced(trees(c.thorough), i, k)):
        check_query(acc, tree, lookups=c.thorough or n % 3 == 0 or not isinstance(tree, Node))


def conjunctions(acc, i, k):
    """all subsets of join and filter predicates as a plain conjunction: every join graph over four tables, with multi-edges"""
    L = pool()
    base = [L[0], L[1], L[2], L[3], L[4], L[9], L[10], L[5], L[12]]
    space = [s for n in range(1, len(base) + 1) for s in itertools.combinations(base, n)]
    for s in sliced(space, i, k):
        check_query(acc, s[0] if len(s) == 1 else Node("And", list(s)))


def aliases(acc, i, k):
    """merged join graphs: several aliases of a table, all subsets of joins between four aliases of two/three tables"""
    frm = {"r1": "r", "r2": "r", "s1": "s", "t1": "t"}
    ps = [("r1", "s1", "r1.a = s1.a"), ("r2", "s1", "r2.a = s1.b"), ("r1", "r2", "r1.b = r2.b"), ("s1", "t1", "s1.c = t1.c"), ("r1", "s1", "r1.d < s1.d"), ("r1", None, "r1.f = 1"), ("r2", None, "r2.f = 2")]
    space = [s for n in range(1, len(ps) + 1) for s in itertools.combinations(ps, n)]
    for s in sliced(space, i, k):
        text = "SELECT * FROM r r1, r r2, s s1, t t1 WHERE " + " AND ".join(x[2] for x in s)
        acc.case(text, f"{len(s)}")
        try:
            g = pb.parse_query(text).join_graph(merge_aliases=True)
            used = {x for p in s for x in p[:2] if x}
            nodes = {}
            for x in used:
                nodes.setdefault(frm[x], set()).add(x)
            edges = {}
            for a, b, p in s:
                if b:
                    edges.setdefault(frozenset((frm[a], frm[b])), {}).setdefault(frozenset((a, b)), set()).add(p)
            got_n = {n.full_name: {al.identifier() for al in d["aliases"]} for n, d in g.nodes(data=True)}
            got_e = {frozenset((a.full_name, b.full_name)): {frozenset(t.identifier() for t in key): set(conj(v)) for key, v in d["predicate"].items()} for a, b, d in g.edges(data=True)}
            if got_n != nodes or any(n.alias for n in g.nodes):
                acc.violate(f"merged-nodes:{text}", f"{got_n} expected {nodes}", text)
            if got_e != edges:
                acc.violate(f"merged-edges:{text}", f"{got_e} expected {edges}", text)
            for n, d in g.nodes(data=True):
                for al, p in d["predicate"].items():
                    want = {x[2] for x in s if x[0] == al.identifier() and x[1] is None}
                    if set(conj(p)) != want:
                        acc.violate(f"merged-filter:{text}", f"{al}: {p} expected {want}", text)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"merged-raise:{text}", short(e), text)


def views(acc, i, k):
    """simplified views of filters and joins: column, operator and value mean what the predicate means"""
    ops = {"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
    cases = []
    for op, mir in ops.items():
        for text, val in (("5", 5), ("'x'", "x"), ("r.a", None)):
            if val is not None:
                cases.append((f"r.a {op} {text}", ("r.a", op, val)))
                cases.append((f"{text} {op} r.a", ("r.a", mir, val)))
                cases.append((f"r.a::int {op} {text}", ("r.a", op, val)))
                cases.append((f"{text} {op} r.a::int", ("r.a", mir, val)))
                cases.append((f"abs(r.a) {op} {text}", None))
                cases.append((f"r.a + 1 {op} {text}", None))
    for op in ("LIKE", "ILIKE", "NOT LIKE", "NOT ILIKE"):
        cases.append((f"r.a {op} 'x%'", ("r.a", op, "x%")))
        cases.append((f"'x%' {op} r.a", None))
    cases += [("r.a BETWEEN 1 AND 3", ("r.a", "BETWEEN", (1, 3))), ("2 BETWEEN r.a AND r.b", None), ("r.a IN (1, 2, 3)", ("r.a", "IN", (1, 2, 3))), ("1 IN (r.a, 2)", None),
              ("r.a = 1 OR r.b = 2", None), ("NOT r.a = 1", None), ("NOT (r.a = 1 AND r.b = 1)", None), ("r.a IS NULL", "any"), ("f(r.a)", None), ("EXISTS (SELECT 1 FROM u)", None), ("r.a = (SELECT max(u.a) FROM u)", None), ("1 = 1", None)]
    joins = [("r.a = s.b", ("r.a", "s.b")), ("r.a::int = s.b", ("r.a", "s.b")), ("r.a < s.b", None), ("r.a + 1 = s.b", None), ("abs(r.a) = s.b", None), ("r.a = abs(s.b)", None), ("r.a + s.a = 1", None),
             ("r.a BETWEEN s.a AND 4", None), ("r.a = s.a OR r.b = s.b", None), ("NOT r.a = s.a", None), ("r.a <> s.a", None), ("r.a IN (s.a)", "any")]
    if i:
        return
    for text, want in cases:
        acc.case("f|" + text, "filter")
        try:
            q, p = parse_pred(text)
            can = qal.SimpleFilter.can_wrap(p)
            views_ = qal.SimpleFilter.wrap_all([p])
            if want != "any" and (can != (want is not None) or len(views_) != int(want is not None)):
                acc.violate(f"filter-view:{text}", f"can_wrap {can}, wrap_all {views_}; expected {want}", text)
                continue
            if can and want != "any":
                v = qal.SimpleFilter.wrap(p)
                got = (str(v.column), v.operation.value, v.value)
                if got != want or v.unwrap() != p or str(v) != str(p) or v.is_join() or v.columns() != {v.column}:
                    acc.violate(f"filter-view:{text}", f"{got}; expected {want}", text)
                if v.tables() != p.tables():
                    acc.violate(f"filter-view-tables:{text}", f"{v.tables()}", text)
            if want is None:
                try:
                    qal.SimpleFilter.wrap(p)
                    acc.violate(f"filter-view:{text}", "wrapped without an error", text)
                except ValueError:
                    pass
            if want != "any":
                if q.predicates().all_simple() != (want is not None):
                    acc.violate(f"all_simple:{text}", f"{q.predicates().all_simple()}", text)
                if len(q.predicates().simplify()) != int(want is not None):
                    acc.violate(f"simplify:{text}", f"{q.predicates().simplify()}", text)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"filter-view-raise:{text}", short(e), text)
    for text, want in joins:
        acc.case("j|" + text, "join")
        try:
            q, p = parse_pred(text)
            can = qal.SimpleJoin.can_wrap(p)
            if want == "any":
                continue
            if can != (want is not None) or len(qal.SimpleJoin.wrap_all([p])) != int(want is not None):
                acc.violate(f"join-view:{text}", f"can_wrap {can}, expected {want}", text)
                continue
            if q.predicates().all_simple() != (want is not None):
                acc.violate(f"all_simple:{text}", f"{q.predicates().all_simple()}", text)
            if can:
                v = qal.SimpleJoin.wrap(p)
                if (str(v.lhs), str(v.rhs)) != want or v.unwrap() != p or not v.is_join() or {str(x) for x in v.columns()} != set(want):
                    acc.violate(f"join-view:{text}", f"{v.lhs} {v.rhs}; expected {want}", text)
                for t, other in ((TR["r"], TR["s"]), (TR["s"], TR["r"])):
                    if v.partner_of(t) != other or not v.joins(t) or v.joins(TR["t"]) or v.partner_of(TR["t"]) is not None:
                        acc.violate(f"join-view-partner:{text}", f"{v.partner_of(t)}", text)
                if v.partner_of(v.lhs) != v.rhs or v.partner_of(v.rhs) != v.lhs:
                    acc.violate(f"join-view-partner:{text}", "column partners", text)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"join-view-raise:{text}", short(e), text)


def equivalence(acc, i, k):
    """equivalence classes of all sets of equi join predicates among six columns of four tables"""
    cols = ["r.a", "s.a", "s.b", "t.a", "t.b", "u.a"]
    eqs = [(a, b) for a, b in itertools.combinations(cols, 2) if tab(a) != tab(b)]
    noise = ["r.a < u.a", "r.a + 1 = t.a", "r.a = 4", "s.a = s.b", "abs(s.b) = u.a"]
    space = [s for n in range(0, 5 if c.thorough else 4) for s in itertools.combinations(eqs, n)]
    for s in sliced(space, i, k):
        texts = [f"{a} = {b}" for a, b in s]
        for extra in ([], noise):
            allp = texts + extra
            if not allp:
                continue
            text = f"SELECT * FROM {FROM} WHERE " + " AND ".join(allp)
            acc.case(text, str(len(s)))
            parent = {x: x for x in cols}

            def find(x):
                while parent[x] != x:
                    x = parent[x]
                return x

            for a, b in s:
                parent[find(a)] = find(b)
            classes = {}
            for a, b in s:
                for x in (a, b):
                    classes.setdefault(find(x), set()).add(x)
            want = {frozenset(v) for v in classes.values()}
            try:
                preds = pb.parse_query(text).predicates()
                root = preds.root
                parts = list(root.children) if isinstance(root, qal.CompoundPredicate) else [root]
                got = qal.determine_join_equivalence_classes(parts)
                if {frozenset(str(x) for x in g) for g in got} != want:
                    acc.violate(f"equivalence:{text}", f"{got}, expected {want}", text)
                    continue
                gen = {frozenset((str(p.first_argument), str(p.second_argument))) for p in qal.generate_predicates_for_equivalence_classes(got)}
                wantp = {frozenset(x) for w in want for x in itertools.combinations(sorted(w), 2)}
                if gen != wantp:
                    acc.violate(f"equivalence-predicates:{text}", f"{gen}, expected {wantp}", text)
            except Exception as e:  # noqa: BLE001
                acc.violate(f"equivalence-raise:{text}", short(e), text)


def run(c):
    c.part("base-predicates", check_base)
    c.part("predicate-trees", compound)
    c.part("conjunctions", conjunctions)
    c.part("merged-aliases", aliases)
    c.part("simplified-views", views, parallel=False)
    c.part("equivalence-classes", equivalence)


c = Check(
    "P04", "exploration",
    "all base predicates over 12 expression kinds, all predicate trees of up to four leaves over 14 predicates, all conjunctions (hence join graphs), all pairs of disjoint table sets; classification derived from the documented rules",
    ["disjunctions of joins and filters are split by the class of their direct children, as documented"],
)
c.main(run)
