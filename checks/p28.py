"""P28: analyses of queries, join trees and plans report what they are defined to report, on all small trees, plans and data sets."""
import itertools
import math
import warnings

import fakedb
from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import postbound as pb  # noqa: E402
from postbound import Cardinality, ColumnReference, JoinOperator, JoinTree, QueryPlan, ScanOperator, TableReference, parser  # noqa: E402
from postbound.opt import _analysis as an  # noqa: E402

TABS = [TableReference(x) for x in "abcdef"]


def trees(tabs):
    """all ordered join trees over the tables as nested pairs"""
    tabs = list(tabs)
    if len(tabs) == 1:
        yield tabs[0]
        return
    for k in range(1, len(tabs)):
        for left in itertools.combinations(tabs, k):
            right = [t for t in tabs if t not in left]
            for x, y in itertools.product(list(trees(left)), list(trees(right))):
                yield (x, y)


def leaves(t):
    return [t] if isinstance(t, TableReference) else leaves(t[0]) + leaves(t[1])


def jt(t):
    return JoinTree.scan(t) if isinstance(t, TableReference) else JoinTree.join(jt(t[0]), jt(t[1]))


def name(t):
    return t.full_name if isinstance(t, TableReference) else f"({name(t[0])} {name(t[1])})"


def guarded(acc, sig, f):
    try:
        return f()
    except Exception as e:
        acc.violate(f"{sig}: raises", short(e))
        return ...


# -- join trees ----------------------------------------------------------------------------------------------------------------

def linear(t):
    return isinstance(t, TableReference) or ((isinstance(t[0], TableReference) or isinstance(t[1], TableReference)) and linear(t[0]) and linear(t[1]))


def depths(t):
    """depth of each table, for trees in which each join adds (at least) one base table"""
    if isinstance(t, TableReference):
        return {t: 1}
    d = {**depths(t[0]), **depths(t[1])}
    if isinstance(t[0], TableReference) and isinstance(t[1], TableReference):
        return d
    base = t[0] if isinstance(t[0], TableReference) else t[1]
    inter = t[1] if base is t[0] else t[0]
    d[base] = 1 + max(depths(inter).values())
    return d


def height(t):
    if isinstance(t, TableReference):
        return 0
    return 1 + max(height(t[0]), height(t[1]))


def bushy_depths(t, out):
    if isinstance(t, TableReference):
        out.setdefault(t, 1)
        return out
    for x in t:
        bushy_depths(x, out)
    for x in t:
        if isinstance(x, TableReference):
            out[x] = height(t)
    return out


def subtrees(t):
    return set() if isinstance(t, TableReference) else {frozenset(leaves(t))} | subtrees(t[0]) | subtrees(t[1])


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b):
            cur.append(min(prev[j + 1] + 1, cur[-1] + 1, prev[j] + (x != y)))
        prev = cur
    return prev[-1]


def p_depth(acc, i, n, size):
    if i == 0 and an.join_depth(JoinTree.empty()) != {}:
        acc.violate("depth of the empty tree", str(an.join_depth(JoinTree.empty())))
    for k in range(1, size + 1):
        for t in sliced(trees(TABS[:k]), i, n):
            acc.case(("depth", name(t)), linear(t))
            got = guarded(acc, f"join_depth {name(t)}", lambda: an.join_depth(jt(t)))
            if got is ...:
                continue
            want = depths(t) if linear(t) else bushy_depths(t, {})
            if got != want:
                acc.violate(f"join_depth {name(t)}", f"{ {k.full_name: v for k, v in got.items()} }, expected { {k.full_name: v for k, v in want.items()} }")


def p_pairs(acc, i, n, size):
    """similarity and distance of all pairs of trees, also over different tables"""
    pool = [t for k in range(1, size) for t in trees(TABS[:k])] + list(trees(TABS[:size])) + list(trees(TABS[1:size])) + list(trees(TABS[1:size + 1]))[::7]
    for a, b in sliced(itertools.product(pool, repeat=2), i, n):
        ta, tb, sig = jt(a), jt(b), f"{name(a)} / {name(b)}"
        acc.case(sig, None)
        got = guarded(acc, f"levenshtein {sig}", lambda: an.linearized_levenshtein_distance(ta, tb))
        want = lev(leaves(a), leaves(b))
        if got is not ... and got != want:
            acc.violate(f"levenshtein {sig}", f"{got}, expected {want}")
        sa, sb = subtrees(a), subtrees(b)
        if sa | sb:
            got = guarded(acc, f"bottomup {sig}", lambda: an.jointree_similarity_bottomup(ta, tb))
            want = len(sa & sb) / len(sa | sb)
            if got is not ... and not math.isclose(got, want):
                acc.violate(f"bottomup {sig}", f"{got}, expected {want}")
        # the symmetric score does not depend on the direction of any join; no score depends on the order of the arguments
        if set(leaves(a)) == set(leaves(b)) and len(leaves(a)) > 1:
            for sym in (False, True):
                x = guarded(acc, f"topdown {sig}", lambda: an.jointree_similarity_topdown(ta, tb, symmetric=sym))
                y = guarded(acc, f"topdown {sig}", lambda: an.jointree_similarity_topdown(tb, ta, symmetric=sym))
                if x is ... or y is ...:
                    continue
                if not math.isclose(x, y):
                    acc.violate(f"topdown-symmetry {sig} {sym}", f"{x} and {y}")
                best = an.jointree_similarity_topdown(ta, ta, symmetric=sym)
                if x > best + 1e-9 and not sym:
                    acc.violate(f"topdown-maximum {sig} {sym}", f"{x} exceeds the similarity of the tree to itself ({best})")


# -- plans ---------------------------------------------------------------------------------------------------------------------

SC, JO = [ScanOperator.SequentialScan, ScanOperator.IndexScan], [JoinOperator.HashJoin, JoinOperator.NestedLoopJoin]
FIELDS = ["op", "card", "cost", "actual"]
VALS = {"card": [10.0, 20.0, math.nan], "cost": [1.5, 2.5, math.nan], "actual": [7.0, 8.0, math.nan]}


def spec(t):
    """annotated tree: dict per node"""
    if isinstance(t, TableReference):
        return {"tab": t, "tabs": frozenset([t]), "kids": (), "op": SC[0], "card": 10.0, "cost": 1.5, "actual": 7.0}
    kids = (spec(t[0]), spec(t[1]))
    return {"tab": None, "tabs": kids[0]["tabs"] | kids[1]["tabs"], "kids": kids, "op": JO[0], "card": 10.0, "cost": 1.5, "actual": 7.0}


def nodes(s):
    yield s
    for k in s["kids"]:
        yield from nodes(k)


def plan(s):
    kw = dict(estimated_cardinality=s["card"], estimated_cost=s["cost"], actual_cardinality=s["actual"])
    if s["tab"] is not None:
        return QueryPlan(s["op"], base_table=s["tab"], **kw)
    return QueryPlan(s["op"], children=[plan(k) for k in s["kids"]], **kw)


def same(x, y):
    return x == y or (isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y))


def diff(l, r):
    if l["tabs"] != r["tabs"]:
        return [("tree-structure", l["tabs"], r["tabs"], None)]
    out = []
    for f, what in (("card", "card-est"), ("cost", "cost-est"), ("actual", "actual-card"), ("op", "physical-op")):
        if not same(l[f], r[f]):
            out.append((what, str(l[f]) if f != "op" else l[f].name, str(r[f]) if f != "op" else r[f].name, l["tabs"]))
    if l["kids"]:
        a, b = l["kids"]
        c, d = r["kids"]
        if a["tabs"] == d["tabs"]:
            out.append(("join-direction", l["tabs"], r["tabs"], None))
            out += diff(a, d) + diff(b, c)
        else:
            out += diff(a, c) + diff(b, d)
    return out


def entry(e):
    def st(x):
        if isinstance(x, QueryPlan):
            return frozenset(x.tables())
        if isinstance(x, (set, frozenset)):
            return frozenset(x)
        if isinstance(x, (int, float, Cardinality)):
            return str(float(x))
        return getattr(x, "name", str(x))
    return (e.change_type, st(e.left_state), st(e.right_state), None if e.context is None else frozenset(e.context))


def edits(t):
    """all single changes of a plan"""
    for k, node in enumerate(nodes(spec(t))):
        for f in FIELDS:
            opts = (SC if node["tab"] is not None else JO)[1:] if f == "op" else VALS[f][1:]
            for v in opts:
                yield (k, f, v)


def edited(t, es):
    s = spec(t)
    ns = list(nodes(s))
    for k, f, v in es:
        ns[k][f] = v
    return s


def p_plans(acc, i, n, size):
    pool = list(trees(TABS[:1])) + list(trees(TABS[:2])) + list(trees(TABS[:3])) + list(trees(TABS[1:3]))

    def judge(l, r, sig):
        acc.case(sig, None)
        got = guarded(acc, f"compare {sig}", lambda: an.compare_query_plans(plan(l), plan(r)))
        if got is ...:
            return
        g = sorted(map(repr, map(norm, map(entry, got.changes))))
        w = sorted(map(repr, map(norm, diff(l, r))))
        if g != w:
            acc.violate(f"compare {sig}", f"reported {g}, expected {w}"[:900])
        elif not isinstance(guarded(acc, f"inspect {sig}", got.inspect), (str, type(...))):
            acc.violate(f"inspect {sig}", "no text")

    def norm(x):
        return tuple(tuple(sorted(t.full_name for t in y)) if isinstance(y, frozenset) else y for y in x)

    for a, b in sliced(itertools.product(pool + list(trees(TABS[:4]))[::1 if size > 3 else 6], repeat=2), i, n):
        judge(spec(a), spec(b), f"{name(a)} / {name(b)}")
    for a in sliced(pool, i, n):
        es = list(edits(a))
        for e in es:
            for flip in [x for x in pool if set(leaves(x)) == set(leaves(a))]:
                judge(edited(a, [e]), spec(flip), f"{name(a)} with {e} / {name(flip)}")
                judge(spec(flip), edited(a, [e]), f"{name(flip)} / {name(a)} with {e}")
        for e, f in itertools.product(es, es):
            judge(edited(a, [e]), edited(a, [f]), f"{name(a)} with {e} / with {f}")
    # plans with auxiliary nodes are refused
    if i == 0:
        base = plan(spec((TABS[0], TABS[1])))
        aux = QueryPlan(pb.IntermediateOperator.Sort, children=[base])
        for l, r in ((aux, base), (base, aux), (aux, aux)):
            acc.case(("aux", repr(l), repr(r)), None)
            try:
                an.compare_query_plans(l, r)
                acc.violate("compare auxiliary nodes", "accepted")
            except ValueError:
                pass


# -- numbers of plans -----------------------------------------------------------------------------------------------------------

def p_bound(acc, i, n):
    if i:
        return
    for k in range(1, 5):
        q = parser.parse_query("SELECT * FROM " + ", ".join(t.full_name for t in TABS[:k]))
        count = sum(1 for _ in trees(TABS[:k]))
        for js, ss in itertools.product(range(1, 4), repeat=2):
            acc.case(("bound", k, js, ss), None)
            real = count * js ** (k - 1) * ss**k
            got = guarded(acc, f"possible_plans_bound {k} {js} {ss}", lambda: an.possible_plans_bound(q, join_operators=set("xyz"[:js]), scan_operators=set("uvw"[:ss])))
            if got is not ... and got < real:
                acc.violate(f"possible_plans_bound {k} tables, {js} joins, {ss} scans", f"{got} is no upper bound, there are {real} plans")


def p_text(acc, i, n):
    texts = ["\n".join(ls) for k in range(4) for ls in itertools.product(["", "a", "bbb"], repeat=k)]
    for l, r in sliced(itertools.product(texts, repeat=2), i, n):
        for sep in (" | ", "#"):
            acc.case(("text", l, r, sep), None)
            got = guarded(acc, f"text_diff {l!r} {r!r}", lambda: an.text_diff(l, r, sep=sep))
            if got is ...:
                continue
            L, R = l.splitlines(), r.splitlines()
            w = max([len(x) for x in L], default=0)
            want = [(L[k] if k < len(L) else "").ljust(w) + sep + (R[k] if k < len(R) else "") for k in range(max(len(L), len(R)))]
            if got != "\n".join(want):
                acc.violate(f"text_diff {l!r} {r!r} {sep!r}", f"{got!r}, expected {want}")


# -- star queries -----------------------------------------------------------------------------------------------------------------

def p_star(acc, i, n, thorough):
    from postbound import duckdb
    db = duckdb.connect(":memory:", refresh=True)
    cur = db.cursor()
    for s in ("CREATE TABLE f (id integer, a integer)", "CREATE TABLE d1 (fid integer, x integer)", "CREATE TABLE d2 (fid integer)"):
        cur.execute(s)
    facts = [[(k + 1, a) for k, a in enumerate(c) if a is not None] for c in itertools.product((None, 0, 1), repeat=2)]
    rows1 = list(itertools.product((1, 2, 3), (0, 1)))
    d1s = [list(c) for k in range(3) for c in itertools.combinations_with_replacement(rows1, k)]
    d2s = [list(c) for k in range(3) for c in itertools.combinations_with_replacement((1, 2), k)]
    filters = [("", lambda f, d: True), (" AND f.a = 1", lambda f, d: f[1] == 1), (" AND d1.x = 0", lambda f, d: d[1] == 0), (" AND f.a = 0 AND d1.x = 1", lambda f, d: f[1] == 0 and d[1] == 1)]
    if not thorough:
        d1s = d1s[:7] + d1s[7::3]
        d2s = d2s[:4]
    work = list(itertools.product(facts, d1s, d2s))
    for f, d1, d2 in sliced(work, i, n):
        for t, data in (("f", f), ("d1", d1), ("d2", [(x,) for x in d2])):
            cur.execute(f"DELETE FROM {t}")
            for row in data:
                cur.execute(f"INSERT INTO {t} VALUES ({', '.join(map(str, row))})")
        for flt, ok in filters:
            q = parser.parse_query(f"SELECT * FROM f, d1, d2 WHERE f.id = d1.fid AND f.id = d2.fid{flt}")
            want = sum(1 for x in f for y in d1 for z in d2 if x[0] == y[0] == z and ok(x, y))
            sig = f"star {f} {d1} {d2}{flt}"
            acc.case(sig, min(want, 3))
            got = guarded(acc, sig, lambda: an.star_query_cardinality(q, ColumnReference("id", TableReference("f")), database=db))
            if got is not ... and got != want:
                acc.violate(sig, f"{got}, expected {want}")
    # other shapes
    shapes = [("SELECT * FROM f, d1 WHERE d1.fid = f.id", lambda f, d1, d2: sum(1 for x in f for y in d1 if x[0] == y[0])),
              ("SELECT * FROM f AS g, d2 AS e WHERE e.fid = g.id AND g.a = 1", lambda f, d1, d2: sum(1 for x in f for z in d2 if x[0] == z and x[1] == 1)),
              ("SELECT * FROM f WHERE f.a = 0", lambda f, d1, d2: sum(1 for x in f if x[1] == 0))]
    for f, d1, d2 in sliced(work[::9], i, n):
        for t, data in (("f", f), ("d1", d1), ("d2", [(x,) for x in d2])):
            cur.execute(f"DELETE FROM {t}")
            for row in data:
                cur.execute(f"INSERT INTO {t} VALUES ({', '.join(map(str, row))})")
        for text, ref in shapes:
            fact = TableReference("f", "g") if " g" in text else TableReference("f")
            sig = f"star {text} {f} {d1} {d2}"
            acc.case(sig, None)
            got = guarded(acc, sig, lambda: an.star_query_cardinality(parser.parse_query(text), ColumnReference("id", fact), database=db))
            if got is not ... and got != ref(f, d1, d2):
                acc.violate(sig, f"{got}, expected {ref(f, d1, d2)}")


# -- true cost of a plan -------------------------------------------------------------------------------------------------------------

def p_cost(acc, i, n):
    """the database is asked for the cost of exactly this plan with its actual cardinalities"""
    from postbound.db import DatabasePool

    class Probe:
        def __init__(self):
            self.seen = []

        def hinting(self):
            return self

        def optimizer(self):
            return self

        def generate_hints(self, query, plan=None, **kw):
            self.seen.append((query, plan, kw))
            return ("hinted", len(self.seen))

        def cost_estimate(self, query):
            self.seen.append(query)
            return 42.5

    for k, t in enumerate(sliced([x for m in (1, 2, 3) for x in trees(TABS[:m])], i, n)):
        q = parser.parse_query("SELECT * FROM " + ", ".join(x.full_name for x in leaves(t)))
        for pooled in (False, True):
            for actual in (3.0, 0.0, math.nan):
                acc.case(("cost", name(t), pooled, actual), None)
                s = spec(t)
                for z, x in enumerate(nodes(s)):
                    x["actual"] = actual if z == 0 else 5.0 + z
                db = Probe()
                if math.isnan(actual) and not s["kids"]:
                    try:
                        an.actual_plan_cost(q, plan(s), database=db)
                        acc.violate(f"actual_plan_cost {name(t)}", "accepts a plan that was not executed")
                    except ValueError:
                        pass
                    continue
                if math.isnan(actual):
                    continue
                if pooled:
                    pool = DatabasePool.get_instance()
                    pool.clear()
                    pool.register_database("probe", db)
                got = guarded(acc, f"actual_plan_cost {name(t)} {actual}", lambda: an.actual_plan_cost(q, plan(s), **({} if pooled else {"database": db})))
                if got is ...:
                    continue
                hq, hp, hk = db.seen[0]
                exp = [x["actual"] for x in nodes(s)]
                cards = [float(x.estimated_cardinality) for x in walk(hp)]
                if got != 42.5 or hq != q or cards != exp or [x.node_type for x in walk(hp)] != [x.node_type for x in walk(plan(s))] or db.seen[1:] != [("hinted", 1)]:
                    acc.violate(f"actual_plan_cost {name(t)} {actual}", f"{got} for {hp} with cardinalities {cards}, expected {exp}")
                if pooled:
                    pool.clear()


def walk(p):
    yield p
    for c in p.children:
        yield from walk(c)


def run(c: Check):
    t = c.thorough
    c.part("join depth", lambda acc, i, n: p_depth(acc, i, n, 6 if t else 5))
    c.part("pairs of join trees", lambda acc, i, n: p_pairs(acc, i, n, 4))
    c.part("pairs of plans", lambda acc, i, n: p_plans(acc, i, n, 4 if t else 3))
    c.part("number of plans", p_bound)
    c.part("text comparison", p_text)
    c.part("star queries", lambda acc, i, n: p_star(acc, i, n, t))
    c.part("true cost", p_cost)
    c.finish()


run(Check("P28", "exploration",
          "every pair of join trees and of plans (with every single change of an operator or estimate) up to the bound, every small data set of a star schema, every pair of small texts, against "
          "independent reference definitions; a case is distinct by its input"))
