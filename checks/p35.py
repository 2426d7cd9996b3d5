"""P35: visualisations show exactly the structure they visualise. The DOT text of every graph is read by an own reader and compared with the structure."""
import itertools
import math
import random
import re
import warnings
import xml.etree.ElementTree as ET

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import networkx as nx  # noqa: E402
import pandas as pd  # noqa: E402
import postbound as pb  # noqa: E402
from postbound import relalg, util, vis  # noqa: E402
from postbound._hints import JoinTree, LogicalJoinTree  # noqa: E402
from postbound.opt import tonic  # noqa: E402
from postbound.opt._joingraph import JoinGraph  # noqa: E402

# ---------------------------------------------------------------- reading DOT
TOKEN = re.compile(r'\s+|"((?:\\.|[^"\\])*)"|(--|->|[\[\]{};=:,])|([\w.+\-\u0080-\uffff]+)', re.S)


class Dot:
    """nodes: identifier -> attributes, edges: [(from, to, attributes)] in the order of the text"""

    def __init__(self, text):
        self.nodes, self.edges, self.order = {}, [], []
        toks = self.tokens(text)
        self.pos, self.toks = 0, toks
        self.strict = self.opt("strict")
        self.kind = self.next()[1]
        if self.peek() != ("op", "{"):
            self.next()
        self.expect("{")
        while self.peek() != ("op", "}"):
            self.statement()

    def tokens(self, text):
        out, i = [], 0
        while i < len(text):
            if text[i] == "<":
                depth, j = 0, i
                while True:
                    depth += {"<": 1, ">": -1}.get(text[j], 0)
                    j += 1
                    if not depth:
                        break
                out.append(("html", text[i + 1 : j - 1]))
                i = j
                continue
            m = TOKEN.match(text, i)
            if not m:
                raise ValueError(f"not DOT: {text[i:i + 30]!r}")
            i = m.end()
            if m.group(1) is not None:
                out.append(("id", m.group(1).replace('\\"', '"')))
            elif m.group(2):
                out.append(("op", m.group(2)))
            elif m.group(3):
                out.append(("id", m.group(3)))
        return out

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else (None, None)

    def next(self):
        self.pos += 1
        return self.toks[self.pos - 1]

    def opt(self, word):
        if self.peek() == ("id", word):
            self.pos += 1
            return True
        return False

    def expect(self, op):
        t = self.next()
        if t != ("op", op):
            raise ValueError(f"expected {op} instead of {t}")

    def ident(self):
        kind, val = self.next()
        if kind != "id":
            raise ValueError(f"expected an identifier instead of {val}")
        while self.peek() == ("op", ":"):  # a port of the node
            self.next()
            self.next()
        return val

    def statement(self):
        a = self.ident()
        if self.peek()[0] == "op" and self.peek()[1] in ("--", "->"):
            op = self.next()[1]
            if (op == "->") != (self.kind == "digraph"):
                raise ValueError(f"{op} in a {self.kind}")
            b = self.ident()
            attrs = self.attrs()
            if not (self.strict and any((x, y) == (a, b) for x, y, _ in self.edges)):
                self.edges.append((a, b, attrs))
            for n in (a, b):
                self.nodes.setdefault(n, None)
        else:
            attrs = self.attrs()
            self.nodes[a] = {**(self.nodes.get(a) or {}), **attrs}
            self.order.append(a)
        if self.peek() == ("op", ";"):
            self.next()

    def attrs(self):
        out = {}
        if self.peek() == ("op", "["):
            self.next()
            while self.peek() != ("op", "]"):
                k = self.next()[1]
                self.expect("=")
                kind, v = self.next()
                out[k] = (kind, v) if kind == "html" else v
                if self.peek()[0] == "op" and self.peek()[1] in (",", ";"):
                    self.next()
            self.next()
        return out


def shown(label):
    """the text that is displayed for a label"""
    if isinstance(label, tuple):
        return "".join(ET.fromstring(f"<x>{label[1]}</x>").itertext())
    out, i = "", 0
    while i < len(label):
        if label[i] == "\\" and i + 1 < len(label):
            out += {"n": "\n", "l": "\n", "r": "\n", "N": "\0node", "G": "\0graph"}.get(label[i + 1], label[i + 1])
            i += 2
        else:
            out += label[i]
            i += 1
    return out


def unfold(dot, root, depth=0):
    if depth > 30:
        raise ValueError("the graph contains a cycle")
    if dot.nodes[root] is None:
        raise ValueError(f"node {root} is used but not described")
    return (shown(dot.nodes[root].get("label", root)), [unfold(dot, b, depth + 1) for a, b, _ in dot.edges if a == root])


def match(got, want, check):
    """None or the first difference; check(label, node) judges a label"""
    label, children = got
    node, subs = want
    bad = check(label, node)
    if bad:
        return bad
    if len(children) != len(subs):
        return f"{label!r} has {len(children)} children instead of {len(subs)}"
    for g, w in zip(children, subs):
        bad = match(g, w, check)
        if bad:
            return bad
    return None


def count(t):
    return 1 + sum(count(x) for x in t[1])


def judge(acc, key, make, want, check, shared=False):
    """want: (node, [children])"""
    acc.step()
    acc.case(key, "shown")
    try:
        dot = Dot(make().source)
        if want is None:
            if dot.nodes:
                acc.violate(f"{key} :: empty", f"the picture of an empty structure contains {list(dot.nodes)[:3]}")
            return
        targets = [b for _, b, _ in dot.edges]
        roots = [n for n in dot.nodes if n not in targets]
        if len(roots) != 1:
            acc.violate(f"{key} :: root", f"the picture has {len(roots)} roots")
            return
        if not shared and len(dot.nodes) != count(want):
            acc.violate(f"{key} :: nodes", f"the picture has {len(dot.nodes)} nodes instead of {count(want)}")
            return
        bad = match(unfold(dot, roots[0]), want, check)
    except Exception as e:
        acc.violate(f"{key} :: raises", f"cannot be drawn: {short(e)}")
        return
    if bad:
        acc.violate(f"{key} :: content", bad)


# ---------------------------------------------------------------- trees
LABELS = ["plain", "two\nlines", "<b>", "<<x>>", 'quo"te', "back\\slash", "ü ⋈", "a\\nb", "", "a:b", "[x=1];"]


def shapes(n):
    """ordered trees with n nodes as nested lists"""
    if n == 1:
        yield []
        return
    for first in range(1, n):
        for a in shapes(first):
            for rest in shapes(n - first):
                yield [a, *rest]


class Alike:
    """elements that are equal and have the same hash"""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return True


def generic(acc, i, n, thorough):
    trees = [s for k in range(1, 7 if thorough else 6) for s in shapes(k)]
    for s in sliced(trees, i, n):
        for offset in range(len(LABELS)):
            for ids in ("hash", "own", "negative", "alike"):
                ctr = itertools.count()

                def number(t):
                    k = next(ctr)
                    return (k, [number(c) for c in t])

                want = number(s)
                kids = {}

                def collect(t):
                    kids[t[0]] = [c[0] for c in t[1]]
                    for c in t[1]:
                        collect(c)

                collect(want)
                text = lambda k: LABELS[(offset + k) % len(LABELS)]  # noqa: E731
                if ids == "alike":
                    objs = {k: Alike(k) for k in kids}
                    judge(acc, f"tree {s} labels={offset} ids={ids}", lambda: vis.plot_tree(objs[0], lambda x: (text(x.k), {}), lambda x: [objs[c] for c in kids[x.k]], node_id_generator=id), want, lambda label, k: None if label == text(k) else f"label {text(k)!r} is shown as {label!r}")
                    continue
                kw = {} if ids == "hash" else {"node_id_generator": lambda k: k * 7} if ids == "own" else {"node_id_generator": lambda k: -3 - k}
                judge(acc, f"tree {s} labels={offset} ids={ids}", lambda: vis.plot_tree(0, lambda k: (text(k), {"color": "red"} if k % 2 else {}), lambda k: kids[k], **kw), want, lambda label, k: None if label == text(k) else f"label {text(k)!r} is shown as {label!r}")


T = [pb.TableReference("r"), pb.TableReference("s", "x"), pb.TableReference("tab", "y", schema="pub"), pb.TableReference("A b", "C")]


def jointrees(tabs, cls, cards):
    if len(tabs) == 1:
        yield cls.scan(tabs[0], annotation=next(cards)) if cls is LogicalJoinTree else cls.scan(tabs[0])
        return
    for k in range(1, len(tabs)):
        for a in jointrees(tabs[:k], cls, cards):
            for b in jointrees(tabs[k:], cls, cards):
                yield cls.join(a, b, annotation=next(cards)) if cls is LogicalJoinTree else cls.join(a, b)


def jt_want(t):
    return (t, [jt_want(c) for c in (() if t.is_scan() else (t.outer_child, t.inner_child))])


def jt_label(label, t):
    lines = [x.strip() for x in label.split("\n")]
    if t.is_scan() and lines[0] != str(t.base_table):
        return f"scan of {t.base_table} is shown as {label!r}"
    if not t.is_scan() and any(str(x) in lines[0] for x in T):
        return f"join is shown as {label!r}"
    if isinstance(t, LogicalJoinTree) and not any(x.endswith(f"= {t.cardinality}") for x in lines[1:]):
        return f"cardinality {t.cardinality} is shown as {label!r}"
    return None


def join_trees(acc, i, n, thorough):
    cards = (pb.Cardinality(v) if v is not None else pb.Cardinality.unknown() for v in itertools.cycle([10, 3, 77, None, 1000, 5, 0]))

    def cases():
        for cls in (JoinTree, LogicalJoinTree):
            yield cls.empty()
            for k in (1, 2, 3, 4):
                for tabs in itertools.permutations(T, k) if k < 4 or thorough else [T, T[::-1]]:
                    yield from jointrees(list(tabs), cls, cards)

    for t in sliced(cases(), i, n):
        empty = t.is_empty()
        judge(acc, f"join tree {type(t).__name__} {'' if empty else t}", lambda: vis.plot_join_tree(t), None if empty else jt_want(t), jt_label)


# ---------------------------------------------------------------- plans
def plan_cases(thorough):
    """plans of scans, joins, further operators and subplans; the same table and equal operators can occur several times"""
    tick = itertools.count(1)

    def kw():
        k = next(tick)
        return dict(estimated_cost=k * 1.5, estimated_cardinality=pb.Cardinality(k * 10), actual_cardinality=pb.Cardinality(k * 7), execution_time=k / 8)

    def scan(t, same):
        return pb.QueryPlan("Seq Scan", base_table=t, operator=pb.ScanOperator.SequentialScan, **({} if same else kw()))

    def aux(name, c, same):
        return pb.QueryPlan(name, children=[c], **({} if same else kw()))

    def join(a, b, same, **sub):
        return pb.QueryPlan("Hash Join", operator=pb.JoinOperator.HashJoin, children=[a, b], **sub, **({} if same else kw()))

    for same in (False, True):
        for a, b in itertools.product(T[:3], repeat=2):
            if a == b:
                leafs = [lambda: scan(a, same)]
            else:
                leafs = [lambda: scan(a, same), lambda: scan(b, same)]
            for x in leafs:
                yield x()
                yield aux("Sort", x(), same)
                yield aux("Limit", aux("Sort", x(), same), same)
                for y in leafs:
                    yield join(x(), y(), same)
                    yield join(aux("Sort", x(), same), aux("Sort", y(), same), same)
                    yield join(x(), aux("Hash", y(), same), same)
                    yield aux("Agg", join(aux("Materialize", aux("Sort", x(), same), same), y(), same), same)
                    yield join(x(), y(), same, subplan_root=scan(a, same), subplan_target_name="sub_1")
                    yield join(x(), y(), same, subplan_root=aux("Agg", scan(b, same), same), subplan_target_name="sub_1")
                    yield pb.QueryPlan("Append", children=[x(), y(), x()])
                    yield pb.QueryPlan("Seq Scan", base_table=a, operator=pb.ScanOperator.SequentialScan, subplan_root=join(x(), y(), same), subplan_target_name="inner")
                    yield pb.QueryPlan("Result", children=[x()], subplan_root=pb.QueryPlan("Limit", children=[y()], subplan_root=scan(a, same), subplan_target_name="deep"), subplan_target_name="outer")
                    if thorough:
                        for z in leafs:
                            yield join(join(x(), y(), same), aux("Hash", z(), same), same)
                            yield join(x(), join(aux("Sort", y(), same), z(), same), same)


def kids(p):
    return [*p.children, *([p.subplan.root] if p.subplan else [])]


def plan_want(p, skip):
    def below(c):
        return [c] if not skip or c.base_table is not None or len(list(c.children)) == 2 and c.operator is not None else list(itertools.chain.from_iterable(map(below, kids(c))))

    return (p, [plan_want(c, skip) for c in itertools.chain.from_iterable(map(below, kids(p)))])


def plan_label(note):
    def check(label, p):
        if p.node_type not in label:
            return f"{p.node_type} is shown as {label!r}"
        if p.base_table is not None and str(p.base_table) not in label:
            return f"table {p.base_table} is shown as {label!r}"
        if p.subplan and p.subplan.target_name not in label:
            return f"target of subplan {p.subplan.target_name} is shown as {label!r}"
        other = {"Seq Scan", "Sort", "Limit", "Hash Join", "Agg", "Materialize", "Append", "Result"} - {p.node_type}
        if any(o in label for o in other):
            return f"{p.node_type} is shown as {label!r}"
        for text in note(p):
            if label.count(text) != 1:
                return f"annotation {text!r} is shown as {label!r}"
        return None

    return check


def plans(acc, i, n, thorough):
    for pos, p in enumerate(plan_cases(thorough)):
        if pos % n != i:
            continue
        key = f"plan {pos}"
        for skip in (False, True):
            want = plan_want(p, skip)
            judge(acc, f"{key} skip={skip}", lambda: vis.plot_query_plan(p, skip_intermediates=skip), want, plan_label(lambda x: []))
            marks = {}
            judge(acc, f"{key} skip={skip} own annotation", lambda: vis.plot_query_plan(p, lambda x: marks.setdefault(id(x), f"<mark {len(marks)}>"), skip_intermediates=skip), want, plan_label(lambda x: [marks[id(x)]]))
            judge(acc, f"{key} skip={skip} estimates", lambda: vis.plot_query_plan(p, vis.annotate_estimates, skip_intermediates=skip), want, plan_label(lambda x: [f"cost={x.estimated_cost}", f"cardinality={x.estimated_cardinality}"]))
            judge(acc, f"{key} skip={skip} analyze", lambda: vis.plot_analyze_plan(p, skip_intermediates=skip), want, plan_label(lambda x: [f"expected={x.estimated_cardinality} actual={x.actual_cardinality}", f"time={round(x.execution_time, 4)}s"]))
            both = vis.merged_annotation(vis.annotate_estimates, lambda x: "own")
            judge(acc, f"{key} skip={skip} merged", lambda: vis.plot_query_plan(p, both, skip_intermediates=skip), want, plan_label(lambda x: [f"cost={x.estimated_cost} cardinality={x.estimated_cardinality}\nown"]))
    if i == 0:
        judge(acc, "no plan", lambda: vis.plot_query_plan(None), None, None)
        judge(acc, "no analyzed plan", lambda: vis.plot_analyze_plan(None), None, None)


# ---------------------------------------------------------------- relational algebra
ALGEBRA = ["SELECT * FROM r", "SELECT r.a FROM r", "SELECT r.a, r.b FROM r WHERE r.a < 3", "SELECT r.a FROM r WHERE r.a > 1 AND r.b <> 2", "SELECT * FROM r WHERE r.c = '<b> & \"x\"'", "SELECT * FROM r WHERE r.c LIKE '%&%'", "SELECT * FROM r, s WHERE r.a = s.a",
           "SELECT * FROM r, s, t WHERE r.a = s.a AND s.b < t.b AND r.b = 1", "SELECT r.a, COUNT(*) FROM r GROUP BY r.a", "SELECT COUNT(*), SUM(r.b) FROM r", "SELECT r.a + 1 FROM r", "SELECT DISTINCT r.a FROM r", "SELECT r.a FROM r ORDER BY r.a",
           "SELECT * FROM r WHERE EXISTS (SELECT 1 FROM s WHERE s.a = r.a)", "SELECT * FROM r WHERE NOT EXISTS (SELECT 1 FROM s WHERE s.a = r.a)", "SELECT * FROM r WHERE r.a IN (SELECT s.a FROM s WHERE s.b < 3)", "SELECT * FROM r, s", "SELECT * FROM r x, r y WHERE x.a = y.a",
           "SELECT * FROM r WHERE r.a = (SELECT MAX(s.a) FROM s WHERE s.b = r.b)", "SELECT r.a, MIN(r.b), MAX(r.b), COUNT(r.c) FROM r WHERE r.c < 'x' GROUP BY r.a HAVING COUNT(*) > 1", "SELECT * FROM r WHERE r.a = 1 OR r.b > 2", "SELECT CASE WHEN r.a < 1 THEN 'a' ELSE 'b' END FROM r", "SELECT r.a FROM r UNION SELECT s.a FROM s", "SELECT r.a FROM r WHERE r.a BETWEEN 1 AND 2"]


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


def ra_label(label, x):
    parts = []
    match x:
        case relalg.Selection() | relalg.ThetaJoin() | relalg.SemiJoin() | relalg.AntiJoin():
            parts = [str(x.predicate)]
        case relalg.Projection():
            parts = [str(c) for c in x.columns]
        case relalg.Grouping():
            parts = [str(c) for c in x.group_columns] + [str(a) for aggs in x.aggregates.values() for a in aggs]
        case relalg.Map():
            parts = [str(e) for es in x.mapping.values() for e in es]
        case _:
            parts = [str(x)]
    for p in parts:
        if squash(p) not in squash(label):
            return f"{type(x).__name__} {p!r} is shown as {label!r}"
    signs = {relalg.Selection: "σ", relalg.ThetaJoin: "⋈", relalg.SemiJoin: "⋉", relalg.AntiJoin: "▷", relalg.Projection: "π", relalg.Grouping: "γ", relalg.Map: "χ"}
    for kind, sign in signs.items():
        if (sign in label) != isinstance(x, kind) and not (sign in str(x)):
            return f"{type(x).__name__} is shown as {label!r}"
    return None


def ra_want(x):
    return (x, [ra_want(c) for c in x.children()])


def algebra(acc, i, n, thorough):
    heads = ["", "r.b < 5 AND ", "r.c <> '&lt;' AND "]
    for s in sliced([s.replace("WHERE ", "WHERE " + h) for h in heads for s in ALGEBRA if not h or ("FROM r" in s and "FROM r x" not in s and "NOT EXISTS" not in s and "WHERE" in s)], i, n):
        try:
            root = relalg.parse_relalg(pb.parse_query(s, bind_columns=False))
        except Exception:
            acc.count("not translated")
            continue
        judge(acc, f"algebra {s}", lambda: vis.plot_relalg(root), ra_want(root), ra_label, shared=True)


# ---------------------------------------------------------------- join graphs
class Schema:
    def is_primary_key(self, col):
        return col.name == "id"

    def has_secondary_index(self, col):
        return col.name.startswith("fk")

    def has_index(self, col):
        return self.is_primary_key(col) or self.has_secondary_index(col)


class Opt:
    def __init__(self, log):
        self.log = log

    def cardinality_estimate(self, q):
        self.log.append(("estimate", q))
        return pb.Cardinality(100 + len(self.log))


class Stats:
    def __init__(self, log):
        self.log = log

    def total_rows(self, table, **kw):
        self.log.append(("total", table))
        return 500 + len(self.log)


class Database:
    def __init__(self):
        self.log = []

    def schema(self):
        return Schema()

    def optimizer(self):
        return Opt(self.log)

    def statistics(self):
        return Stats(self.log)

    def execute_query(self, q, **kw):
        self.log.append(("execute", q))
        return 900 + len(self.log)


KINDS = {"fk": ("fk", "id"), "kf": ("id", "fk"), "plain": ("a", "b"), "pk": ("id", "id"), "none": None}


def graph_queries(thorough):
    """(text, tables, {(i, j): kind})"""
    for m in (1, 2, 3):
        pairs = list(itertools.combinations(range(m), 2))
        for ks in itertools.product(KINDS, repeat=len(pairs)):
            for flt in itertools.product((False, True), repeat=m) if m < 3 or thorough else [(False,) * 3, (True, False, False), (True,) * 3]:
                yield m, dict(zip(pairs, ks)), flt


def join_graphs(acc, i, n, thorough):
    pool = pb.DatabasePool.get_instance() if hasattr(pb, "DatabasePool") else pb.db.DatabasePool.get_instance()
    names = ["r", "s AS x", "t"]
    refs = ["r", "x", "t"]
    for m, ks, flt in sliced(graph_queries(thorough), i, n):
        preds = []
        for (a, b), k in ks.items():
            if KINDS[k]:
                preds.append(f"{refs[a]}.{KINDS[k][0]}{b if KINDS[k][0] == 'fk' else ''} = {refs[b]}.{KINDS[k][1]}{a if KINDS[k][1] == 'fk' else ''}")
        preds += [f"{refs[j]}.v < {j}" for j in range(m) if flt[j]]
        sql = f"SELECT * FROM {', '.join(names[:m])}" + (f" WHERE {' AND '.join(preds)}" if preds else "")
        q = pb.parse_query(sql, bind_columns=False)
        tabs = {t.identifier(): t for t in q.tables()}
        joined = {frozenset(p): k for p, k in ks.items() if KINDS[k]}
        inpreds = {refs[j] for j in range(m) if flt[j]} | {refs[x] for p in joined for x in p}
        db = Database()
        pool.clear()
        pool.register_database("p35", db)
        for annot in (None, lambda t: f"<{t.identifier()}>"):
            variants = {
                "query": (lambda: vis.plot_join_graph(q, annot), "graph", inpreds, False),
                "query pk/fk": (lambda: vis.plot_join_graph(q, annot, include_pk_fk_joins=True), "digraph", inpreds, True),
                "graph": (lambda: vis.plot_join_graph(JoinGraph(q, Schema()), annot), "digraph", set(refs[:m]), True),
            }
            for name, (make, kind, nodes, directed) in variants.items():
                key = f"{name} {sql} annotated={annot is not None}"
                acc.step()
                acc.case(key, name)
                try:
                    dot = Dot(make().source)
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"cannot be drawn: {short(e)}")
                    continue
                if not preds and name != "graph":
                    if set(dot.edges):
                        acc.violate(f"{key} :: edges", "joins are shown for a query without joins")
                    continue
                label = {shown(a.get("label", k)): k for k, a in dot.nodes.items() if a is not None}
                want = {str(tabs[t]) + (f"\n<{t}>" if annot else ""): t for t in nodes}
                if dot.kind != kind:
                    acc.violate(f"{key} :: kind", f"a {dot.kind} is shown")
                if set(label) != set(want) or len(dot.nodes) != len(want):
                    acc.violate(f"{key} :: nodes", f"tables {sorted(want)} are shown as {sorted(map(str, label))}")
                    continue
                ident = {label[w]: t for w, t in want.items()}
                got = sorted((ident[a], ident[b], at.get("dir", "forward")) if directed else tuple(sorted((ident[a], ident[b]))) for a, b, at in dot.edges)
                exp = []
                for (a, b), k in ks.items():
                    if not KINDS[k]:
                        continue
                    a, b = refs[a], refs[b]
                    if not directed:
                        exp.append(tuple(sorted((a, b))))
                    elif k in ("fk", "kf"):
                        exp.append((a, b, "forward") if k == "fk" else (b, a, "forward"))
                    else:
                        exp.append((*sorted((a, b)), "none"))
                if name == "graph":  # the join graph decides whether joins between primary keys have a direction
                    unsure = [{refs[a], refs[b]} for (a, b), k in ks.items() if k == "pk"]
                    got = [(*g[:2], "none") if set(g[:2]) in unsure else g for g in got]
                if directed:
                    got = sorted((*sorted(g[:2]), "none") if g[2] == "none" else g for g in got)
                if got != sorted(exp):
                    acc.violate(f"{key} :: edges", f"joins {sorted(exp)} are shown as {got}")
        # annotations
        for t in refs[:m]:
            for name, make, what in (("estimated-cards", vis.estimated_cards, ["estimate"]), ("filter-cards", vis.annotate_filter_cards, ["execute"]), ("true-cards", vis.annotate_cards, ["execute", "total"])):
                for given in (db, None):
                    for via in ("direct", "setup", "merged"):
                        db.log.clear()
                        key = f"annotation {name} of {t} in {sql} given={given is not None} {via}"
                        acc.step()
                        acc.case(key, "annotation")
                        try:
                            if via == "direct":
                                text = make(tabs[t], query=q, database=given)
                            elif via == "setup":
                                text = vis.setup_annotations(name, query=q, database=given)(tabs[t])
                            else:
                                text = vis.setup_annotations(name, name, query=q, database=given)(tabs[t])
                        except Exception as e:
                            acc.violate(f"{key} :: raises", short(e))
                            continue
                        reps = 2 if via == "merged" else 1
                        if sorted(k for k, _ in db.log) != sorted(what * reps):
                            acc.violate(f"{key} :: asks", f"the database was asked for {[k for k, _ in db.log]}")
                            continue
                        numbers = re.findall(r"\d+", text)
                        exp = [str({"estimate": 101, "execute": 901, "total": 501}[k] + j) for j, (k, _) in enumerate(db.log)]
                        if sorted(numbers) != sorted(exp):
                            acc.violate(f"{key} :: number", f"answers {exp} are shown as {text!r}")
                        for k, asked in db.log:
                            if k == "total":
                                if asked != tabs[t]:
                                    acc.violate(f"{key} :: table", f"rows of {asked} instead of {t}")
                                continue
                            got = sorted(x.identifier() for x in asked.tables()), squash(str(asked)).rstrip(";")
                            f = f" WHERE {t}.v < {refs.index(t)}" if flt[refs.index(t)] else ""
                            head = "SELECT COUNT(*)" if k == "execute" else "SELECT *"
                            if got[0] != [t] or got[1].lower() != f"{head} FROM {names[refs.index(t)]}{f}".lower():
                                acc.violate(f"{key} :: query", f"the database was asked for {got[1]!r}")
        pool.clear()


# ---------------------------------------------------------------- QEP synopses
def qeps_spaces(thorough):
    """nested dictionaries {table: (costs, children, subquery)}"""
    ops = [{}, {pb.JoinOperator.HashJoin: 2.5}, {pb.JoinOperator.HashJoin: 1.0, pb.JoinOperator.NestedLoopJoin: 7.25}]
    leaf = [(c, {}, None) for c in ops[1:]]
    level1 = [{}] + [{"r": x} for x in leaf] + [{"r": leaf[0], "x": leaf[1]}]
    inner = [(c, ch, None) for c in ops for ch in level1]
    yield from level1
    for a in inner:
        yield {"r": a}
        yield {"r": a, "t": leaf[0]}
        yield {"x": leaf[1], "t": a}
        for b in inner[::2] if thorough else inner[3::4]:
            yield {"r": (ops[1], {"x": a, "t": b}, None)}
            yield {"r": (ops[1], {"t": a}, None), "x": b}
    for sub in level1[1:]:
        for ch in level1:
            yield {"r+x": (ops[0], ch, sub)}
            yield {"r": (ops[1], {"x+t": (ops[2], ch, sub)}, None)}


TABS = {"r": pb.TableReference("r"), "x": pb.TableReference("s", "x"), "t": pb.TableReference("t")}


def identifier(name):
    return tonic.QepsIdentifier([TABS[x] for x in name.split("+")])


def fill(node, spec):
    for name, (costs, children, sub) in spec.items():
        child = node.child_nodes[identifier(name)]
        child.operator_costs.update(costs)
        fill(child, children)
        if sub:
            fill(child.subquery_root, sub)


def qeps_want(spec, sub=None, costs=None):
    """(label parts, is dashed edge, children) without order"""
    out = []
    for name, (c, ch, s) in (sub or {}).items():
        out.append(((str(identifier(name)), frozenset((o.value, v) for o, v in c.items())), True, qeps_want(ch)))
    for name, (c, ch, s) in spec.items():
        out.append(((str(identifier(name)), frozenset((o.value, v) for o, v in c.items())), False, qeps_want(ch, s)))
    return out


def dash(tree, inside=False):
    """below a dashed edge of a subquery, all edges are dashed"""
    return sorted(((lab, d or inside, dash(ch, d or inside)) for lab, d, ch in tree), key=repr_key)


def repr_key(x):
    return (x[0][0], sorted(map(str, x[0][1])), x[1], [repr_key(y) for y in x[2]])


def qeps_label(text):
    head, _, rest = text.partition("\n")
    rest = rest.strip()
    costs = frozenset()
    if rest:
        costs = frozenset((a, float(b)) for a, b in (p.split("=") for p in rest.strip("[]").split(", ")))
    return head, costs


def synopses(acc, i, n, thorough):
    for pos, spec in enumerate(sliced(qeps_spaces(thorough), i, n)):
        for kind in ("synopsis", "root"):
            syn = tonic.QEPSynopsis.create(False, 0.8)
            fill(syn.root, spec)
            before = util.to_json(syn.root)
            key = f"qeps {kind} {[(k, len(v[0]), list(v[1]), bool(v[2])) for k, v in spec.items()]} #{pos}.{i}"
            acc.step()
            acc.case(key, kind)
            try:
                dot = Dot(vis.plot_tonic_qeps(syn if kind == "synopsis" else syn.root).source)

                def tree(node):
                    return [(qeps_label(shown(dot.nodes[b]["label"])), at.get("style") == "dashed", tree(b)) for a, b, at in dot.edges if a == node]

                roots = [x for x in dot.nodes if x not in [b for _, b, _ in dot.edges]]
                if kind == "synopsis":
                    if len(roots) != 1:
                        acc.violate(f"{key} :: root", f"{len(roots)} roots are shown")
                        continue
                    got = tree(roots[0])
                else:
                    got = [(qeps_label(shown(dot.nodes[x]["label"])), False, tree(x)) for x in roots]
            except Exception as e:
                acc.violate(f"{key} :: raises", f"cannot be drawn: {short(e)}")
                continue
            if sorted(got, key=repr_key) != [*map(lambda x: x, dash(qeps_want(spec)))] and dash(got) != dash(qeps_want(spec)):
                acc.violate(f"{key} :: content", f"the synopsis is shown as {got}")
            if util.to_json(syn.root) != before:
                acc.violate(f"{key} :: changed", "drawing changes the synopsis")


# ---------------------------------------------------------------- graphs, layouts and grids
def graphs(acc, i, n, thorough):
    def cases():
        for m in (0, 1, 2, 3):
            for directed in (False, True):
                pairs = list(itertools.permutations(range(m), 2) if directed else itertools.combinations(range(m), 2))
                for bits in itertools.product((0, 1), repeat=len(pairs)):
                    for colors in itertools.product("ab", repeat=m) if thorough or m < 3 else [("a", "b", "a"), ("a", "b", "c"), ("a", "a", "a")]:
                        yield m, directed, [p for p, b in zip(pairs, bits) if b], colors

    name = ["one", "two words", "three"]
    for m, directed, edges, colors in sliced(cases(), i, n):
        g = nx.DiGraph() if directed else nx.Graph()
        for k in range(m):
            g.add_node(name[k], group=colors[k])
        g.add_edges_from((name[a], name[b]) for a, b in edges)
        for want_dir in (None, True, False):
            for color in ("", "group"):
                key = f"graph {m} {edges} {'directed' if directed else 'undirected'} as={want_dir} color={colors if color else ''}"
                acc.step()
                acc.case(key, "graph")
                try:
                    dot = Dot(vis.plot_graph(g, directed=want_dir, color=color).source)
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"cannot be drawn: {short(e)}")
                    continue
                d = directed if want_dir is None else want_dir
                got = [tuple(shown(dot.nodes[x]["label"]) for x in (a, b)) for a, b, _ in dot.edges]
                exp = [(name[a], name[b]) for a, b in edges]
                norm = (lambda es: sorted(es)) if d and directed else (lambda es: sorted(tuple(sorted(e)) for e in es))
                if (dot.kind == "digraph") != d or norm(got) != norm(exp) or sorted(shown(a["label"]) for a in dot.nodes.values()) != sorted(name[:m]):
                    acc.violate(f"{key} :: content", f"{dot.kind} with {got} is shown")
                    continue
                if color:
                    col = {shown(a["label"]): a.get("color") for a in dot.nodes.values()}
                    for a, b in itertools.combinations(range(m), 2):
                        if (col[name[a]] == col[name[b]]) != (colors[a] == colors[b]):
                            acc.violate(f"{key} :: colors", f"groups {colors[:m]} are shown as {col}")


def others(acc, i, n, thorough):
    # layouts place each element; the generators of random numbers stay usable
    engines = [vis.fruchterman_reingold_layout]
    try:
        import scipy  # noqa: F401

        engines += [vis.kamada_kawai_layout, vis.force_directed_layout]
    except ImportError:
        acc.count("scipy is not available")
    for m in range(1, 5):
        for scores in itertools.product((1, 2), repeat=m * (m - 1) // 2):
            if (m + len(scores) + sum(scores)) % n != i:
                continue
            elems = ["a", ("b", 1), "c", 4][:m]
            table = dict(zip(itertools.combinations(range(m), 2), scores))
            asked = set()

            def score(x, y):
                p = tuple(sorted((elems.index(x), elems.index(y))))
                asked.add(p)
                return table.get(p, 0)

            for engine in engines:
                key = f"layout {engine.__name__} {scores}"
                acc.step()
                acc.case(key, "layout")
                asked.clear()
                try:
                    pos = engine(iter(elems), score)
                except Exception as e:
                    acc.violate(f"{key} :: raises", short(e))
                    continue
                if set(pos) != set(elems) or any(len(p) != 2 or not all(math.isfinite(v) for v in p) for p in pos.values()) or not set(table) <= asked:
                    acc.violate(key, f"the layout is {pos}")
    for seed in (1, 2, "x"):
        if i == 0:
            acc.step()
            acc.case(("seed", seed), "random")
            try:
                random.seed(seed)
                a = [random.random() for _ in range(3)]
                random.seed(seed)
                if a != [random.random() for _ in range(3)]:
                    acc.violate(f"random {seed}", "random numbers cannot be reproduced")
            except Exception as e:
                acc.violate(f"random {seed}", f"the generator of random numbers cannot be seeded after drawing: {short(e)}")
    # grids: one cell for each label, with its samples
    for k, (labels, ncols) in enumerate(itertools.product(range(1, 8 if thorough else 7), range(1, 5))):
        if k % n != i:
            continue
        names = [f"l{x}" for x in range(labels)]
        data = pd.DataFrame([(x, y) for y in range(3) for x in names[::-1]], columns=["label", "v"])
        for other in (False, True):
            df = data.rename(columns={"label": "kind"}) if other else data
            kw = {"label_col": "kind"} if other else {}
            for kind in ("grid", "facets"):
                key = f"{kind} labels={labels} columns={ncols} column={'kind' if other else 'label'}"
                acc.step()
                acc.case(key, kind)
                calls = []

                def plotter(tag):
                    def draw(label, samples, ax):
                        ax.set_title(f"{tag} {label}")
                        calls.append((tag, label, list(samples["v"]), set(samples["kind" if other else "label"]), ax))

                    return draw

                try:
                    if kind == "grid":
                        fig, axes = vis.make_grid_plot(df, plot_func=plotter("g"), ncols=ncols, **kw)
                        tags = ["g"]
                    else:
                        fig = vis.make_facetted_grid_plot(df, upper_plotter=plotter("u"), lower_plotter=plotter("l"), ncols=ncols, **kw)
                        tags = ["u", "l"]
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"cannot be drawn: {short(e)}")
                    plt.close("all")
                    continue
                if [c[:2] for c in calls] != [(t, x) for x in names[::-1] for t in tags] or any(c[2] != [0, 1, 2] or c[3] != {c[1]} for c in calls):
                    acc.violate(f"{key} :: cells", f"drawn: {[c[:3] for c in calls]}")
                if len({id(c[4]) for c in calls}) != len(calls) or any(c[4] not in fig.axes or not c[4].axison for c in calls):
                    acc.violate(f"{key} :: axes", "labels share a cell or have none")
                if sum(a.axison for a in fig.axes) != len(calls):
                    acc.violate(f"{key} :: unused", f"{sum(a.axison for a in fig.axes)} cells are shown for {len(calls)} drawings")
                if kind == "grid":
                    fig.canvas.draw() if thorough else None
                    cells = [c[4].get_subplotspec() for c in calls]
                    where = [(s.rowspan.start, s.colspan.start) for s in cells]
                    if where != [divmod(p, ncols) for p in range(labels)]:
                        acc.violate(f"{key} :: order", f"cells are {where}")
                plt.close("all")


def run(c: Check):
    th = c.thorough
    c.part("trees", lambda acc, i, n: generic(acc, i, n, th))
    c.part("join trees", lambda acc, i, n: join_trees(acc, i, n, th))
    c.part("plans", lambda acc, i, n: plans(acc, i, n, th))
    c.part("relational algebra", lambda acc, i, n: algebra(acc, i, n, th))
    c.part("join graphs and annotations", lambda acc, i, n: join_graphs(acc, i, n, th))
    c.part("synopses", lambda acc, i, n: synopses(acc, i, n, th))
    c.part("graphs", lambda acc, i, n: graphs(acc, i, n, th))
    c.part("layouts and grids", lambda acc, i, n: others(acc, i, n, th))


Check("P35", "exploration", "trees, join trees, plans, algebra trees, join graphs, synopses and graphs within the bounds of the check; each picture is read back. Distinct by structure and options.",
      ["the own reader of DOT text and of labels follows the DOT language", "matplotlib places axes in the requested cells"]).main(run)
