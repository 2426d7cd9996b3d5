"""P05: equality is a congruence: symmetric, transitive, consistent with hashing, and equal objects denote the same thing.

For each family of objects the complete equality matrix is computed on the real classes. The reference for "denotes the same"
is PostgreSQL's AST of the text of the object (IN lists read as sets) or the structure the object was built from.
"""
import itertools
import json

import joinspace as js
import astmut
import pgast
import sqlgen as g
import sqlspace as sp
from vlib import Check, sliced

import postbound as pb
from postbound import qal, transform
from postbound.qal import AbstractPredicate, SqlExpression

NAN = float("nan")


def cut(s):
    return " ".join(str(s).split())[:180]


def sets(n):
    """IN lists are sets of values"""
    if isinstance(n, list):
        return [sets(x) for x in n]
    if not isinstance(n, dict):
        return n
    out = {k: sets(v) for k, v in n.items() if k != "ctematerialized"}  # documented to be ignored
    e = out.get("A_Expr")
    if e and e.get("kind") == "AEXPR_IN" and "List" in e.get("rexpr", {}):
        items = sorted({json.dumps(x, sort_keys=True) for x in e["rexpr"]["List"]["items"]})
        e["rexpr"] = {"List": {"items": items}}
    return out


def key(sql):
    return json.dumps(sets(pgast.norm(pgast.raw(sql.lower()))), sort_keys=True)


def try_key(*texts):
    for t in texts:
        try:
            return key(t)
        except Exception:
            pass
    return None


def eq(a, b):
    try:
        r = a == b
        return r if isinstance(r, bool) else f"returned {type(r).__name__}"
    except Exception as e:
        return f"raised {type(e).__name__}"


def hsh(a):
    try:
        return hash(a)
    except Exception as e:
        return f"raised {type(e).__name__}"


class Family:
    """objects with the thing they denote (None: not known, only the laws are checked) and a function that builds them anew"""

    def __init__(self, items, hashable=True):
        self.items = items  # (label, object, meaning, twin)
        self.rows = {}
        self.hashable = hashable

    def row(self, i):
        if i not in self.rows:
            x = self.items[i][1]
            res = {}
            for j, it in enumerate(self.items):
                e = eq(x, it[1])
                if e is not False:
                    res[j] = e
            self.rows[i] = res
        return self.rows[i]

    def check(self, acc, i, n):
        for a in sliced(range(len(self.items)), i, n):
            label, x, meaning, twin = self.items[a]
            row = self.row(a)
            acc.step(len(self.items))
            cls = type(x).__name__
            if row.get(a) is not True:
                acc.violate(f"reflexive:{cls} {label}", f"{label}: x == x is {row.get(a)}")
            if twin is not None:
                if eq(x, twin) is not True or eq(twin, x) is not True:
                    acc.violate(f"rebuilt:{cls} {label}", f"{label}: not equal to the same object built again")
                elif self.hashable and hsh(x) != hsh(twin):
                    acc.violate(f"rebuilt-hash:{cls} {label}", f"{label}: hash differs from the same object built again")
            if self.hashable and isinstance(hsh(x), str):
                acc.violate(f"hash:{cls} {label}", f"{label}: hash {hsh(x)}")
            for b, e in row.items():
                lb, y, other_meaning, _ = self.items[b]
                pair = (cls, type(y).__name__)
                if e is not True:
                    acc.violate(f"eq:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb}: {e}")
                    continue
                back = self.row(b)
                if a not in back:
                    acc.violate(f"symmetry:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb} but not the other way round")
                if x != y:
                    acc.violate(f"inequality:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb} and {label} != {lb}")
                if self.hashable and hsh(x) != hsh(y):
                    acc.violate(f"hash:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb} but their hashes differ")
                if meaning is not None and other_meaning is not None and meaning != other_meaning:
                    acc.violate(f"denotation:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb} although they denote different things: {pgast.diff(json.loads(meaning), json.loads(other_meaning)) if isinstance(meaning, str) and meaning.startswith('[') else (meaning, other_meaning)}"[:400])
                if set(back) != set(row):
                    odd = next(iter(set(back) ^ set(row)))
                    acc.violate(f"transitivity:{pair[0]}:{pair[1]} {label} | {lb}", f"{label} == {lb}, but only one of them equals {self.items[odd][0]}")
            acc.case((cls, label), len(row))


def parse(q):
    return pb.parse_query(q, bind_columns=False)


MORE = [
    "SELECT 1.0 FROM r", "SELECT TRUE FROM r", "SELECT FALSE FROM r", "SELECT 0 FROM r", "SELECT '1' FROM r", "SELECT 'TRUE' FROM r", "SELECT NULL FROM r", "SELECT 'NULL' FROM r", "SELECT 'None' FROM r",
    "SELECT * FROM r WHERE r.a IN (1, 2, 3)", "SELECT * FROM r WHERE r.a IN (3, 2, 1)", "SELECT * FROM r WHERE r.a IN (2, 1, 3, 3)", "SELECT * FROM r WHERE r.a IN (1, 2)", "SELECT * FROM r WHERE r.a IN (2, 1)",
    "SELECT * FROM r WHERE r.a IN (1, r.b)", "SELECT * FROM r WHERE r.a IN (r.b, 1)", "SELECT * FROM r WHERE r.a NOT IN (1, 2)", "SELECT * FROM r WHERE r.a NOT IN (2, 1)",
    "SELECT * FROM r WHERE r.a IN (1)", "SELECT * FROM r WHERE r.a = 1", "SELECT * FROM r WHERE r.a IN (SELECT s.a FROM s)", "SELECT * FROM r WHERE r.a = (SELECT s.a FROM s)", "SELECT * FROM r WHERE r.a = ANY (SELECT s.a FROM s)",
    "SELECT * FROM r WHERE r.a = ALL (SELECT s.a FROM s)", "SELECT * FROM r WHERE r.a = 1.0", "SELECT * FROM r WHERE r.a = TRUE", "SELECT * FROM r WHERE r.a", "SELECT * FROM r WHERE r.a IS NULL", "SELECT * FROM r WHERE r.a = NULL",
    "SELECT * FROM r WHERE r.a = 1 AND r.b = 2", "SELECT * FROM r WHERE r.b = 2 AND r.a = 1", "SELECT * FROM r WHERE r.a = 1 OR r.b = 2", "SELECT * FROM r WHERE 1 = r.a", "SELECT * FROM r WHERE r.a BETWEEN 1 AND 2", "SELECT * FROM r WHERE r.a BETWEEN 2 AND 1",
    "SELECT * FROM r WHERE r.a LIKE 'x'", "SELECT * FROM r WHERE r.a ILIKE 'x'", "SELECT * FROM r WHERE r.a NOT LIKE 'x'",
    "SELECT * FROM r, s", "SELECT * FROM s, r", "SELECT * FROM r CROSS JOIN s", "SELECT * FROM r JOIN s ON r.a = s.a", "SELECT * FROM s JOIN r ON r.a = s.a", "SELECT * FROM r JOIN s ON s.a = r.a", "SELECT * FROM r LEFT JOIN s ON r.a = s.a",
    "SELECT * FROM r JOIN s USING (a)", "SELECT * FROM r NATURAL JOIN s", "SELECT * FROM r, s WHERE r.a = s.a", "SELECT * FROM r AS x", "SELECT * FROM r AS y", "SELECT * FROM x", "SELECT * FROM x AS r", "SELECT * FROM sc.r", "SELECT * FROM sd.r", "SELECT * FROM sc.r AS r",
    "SELECT * FROM (SELECT * FROM r) AS x", "SELECT * FROM (SELECT * FROM r) AS y", "SELECT * FROM r, LATERAL (SELECT * FROM s) AS x", "SELECT * FROM r, (SELECT * FROM s) AS x",
    "WITH w AS (SELECT * FROM r) SELECT * FROM w", "WITH w AS MATERIALIZED (SELECT * FROM r) SELECT * FROM w", "WITH w AS NOT MATERIALIZED (SELECT * FROM r) SELECT * FROM w", "WITH RECURSIVE w AS (SELECT * FROM r) SELECT * FROM w",
    "WITH w AS (SELECT * FROM s) SELECT * FROM w", "WITH w AS (SELECT * FROM r), x AS (SELECT * FROM s) SELECT * FROM w", "WITH x AS (SELECT * FROM s), w AS (SELECT * FROM r) SELECT * FROM w",
    "WITH w(k) AS (VALUES (1), (2)) SELECT * FROM w", "WITH w(j) AS (VALUES (1), (2)) SELECT * FROM w", "WITH w(k) AS (VALUES (1)) SELECT * FROM w", "SELECT * FROM (VALUES (1, 2)) AS v(x, y)", "SELECT * FROM (VALUES (1, 2)) AS v(y, x)", "SELECT * FROM (VALUES (1, 2)) AS v", "SELECT * FROM (VALUES (1), (2)) AS v(x)",
    "SELECT * FROM r LIMIT 1", "SELECT * FROM r LIMIT 1 OFFSET 1", "SELECT * FROM r OFFSET 1", "SELECT * FROM r LIMIT 0", "SELECT * FROM r FETCH FIRST 1 ROW ONLY", "SELECT * FROM r FETCH NEXT 1 ROWS ONLY", "SELECT * FROM r FETCH FIRST ROW ONLY", "SELECT * FROM r OFFSET 1 ROWS FETCH NEXT 1 ROWS ONLY",
    "SELECT * FROM r ORDER BY r.a", "SELECT * FROM r ORDER BY r.a ASC", "SELECT * FROM r ORDER BY r.a DESC", "SELECT * FROM r ORDER BY r.a NULLS FIRST", "SELECT * FROM r ORDER BY r.a NULLS LAST", "SELECT * FROM r ORDER BY r.a, r.b", "SELECT * FROM r ORDER BY r.b, r.a", "SELECT * FROM r ORDER BY 1", "SELECT * FROM r ORDER BY 2",
    "SELECT DISTINCT r.a FROM r", "SELECT ALL r.a FROM r", "SELECT DISTINCT ON (r.a) r.a FROM r", "SELECT DISTINCT ON (r.b) r.a FROM r", "SELECT r.a AS x FROM r", "SELECT r.a AS y FROM r", "SELECT r.a x FROM r", "SELECT r.b, r.a FROM r", "SELECT r.* FROM r", "SELECT * FROM r",
    "SELECT r.a FROM r GROUP BY r.a, r.b", "SELECT r.a FROM r GROUP BY r.b, r.a", "SELECT r.a FROM r GROUP BY DISTINCT r.a, r.b", "SELECT r.a FROM r GROUP BY r.a HAVING r.a = 1", "SELECT r.a FROM r WHERE r.a = 1 GROUP BY r.a",
    "SELECT r.a FROM r UNION SELECT s.a FROM s", "SELECT s.a FROM s UNION SELECT r.a FROM r", "SELECT r.a FROM r UNION ALL SELECT s.a FROM s", "SELECT r.a FROM r EXCEPT SELECT s.a FROM s", "SELECT r.a FROM r INTERSECT SELECT s.a FROM s",
    "SELECT r.a FROM r UNION SELECT s.a FROM s ORDER BY a", "SELECT r.a FROM r UNION SELECT s.a FROM s LIMIT 1", "SELECT r.a FROM r UNION SELECT s.a FROM s ORDER BY a DESC", "EXPLAIN SELECT r.a FROM r UNION SELECT s.a FROM s", "WITH w AS (SELECT 1) SELECT r.a FROM r UNION SELECT s.a FROM s",
    "(SELECT r.a FROM r LIMIT 1) UNION SELECT s.a FROM s", "SELECT r.a FROM r UNION (SELECT s.a FROM s LIMIT 1)",
    "EXPLAIN SELECT * FROM r", "EXPLAIN ANALYZE SELECT * FROM r", "EXPLAIN (FORMAT JSON) SELECT * FROM r", "EXPLAIN (FORMAT XML) SELECT * FROM r",
    "SELECT count(*) FROM r", "SELECT count(r.a) FROM r", "SELECT count(DISTINCT r.a) FROM r", "SELECT sum(r.a) FROM r", "SELECT f(r.a, r.b) FROM r", "SELECT f(r.b, r.a) FROM r", "SELECT f() FROM r", "SELECT g() FROM r", "SELECT count(*) FILTER (WHERE r.a = 1) FROM r",
    "SELECT rank() OVER () FROM r", "SELECT rank() OVER (PARTITION BY r.a) FROM r", "SELECT rank() OVER (ORDER BY r.a) FROM r", "SELECT rank() OVER (PARTITION BY r.a ORDER BY r.b) FROM r", "SELECT rank() FROM r",
    "SELECT r.a + 1 FROM r", "SELECT 1 + r.a FROM r", "SELECT r.a - 1 FROM r", "SELECT -r.a FROM r", "SELECT + r.a FROM r", "SELECT r.a + 1 + 2 FROM r", "SELECT r.a + (1 + 2) FROM r", "SELECT r.a || 'x' FROM r", "SELECT r.a * 1 FROM r",
    "SELECT r.a::int FROM r", "SELECT r.a::text FROM r", "SELECT r.a::int[] FROM r", "SELECT r.a::varchar(1) FROM r", "SELECT r.a::varchar(2) FROM r", "SELECT r.a::varchar FROM r", "SELECT ARRAY[1, 2] FROM r", "SELECT ARRAY[2, 1] FROM r", "SELECT ARRAY[1] FROM r",
    "SELECT r.a[1] FROM r", "SELECT r.a[2] FROM r", "SELECT r.a[1:2] FROM r", "SELECT r.a[:2] FROM r", "SELECT r.a[1:] FROM r", "SELECT r.a[2:] FROM r", "SELECT r.a[2:1] FROM r",
    "SELECT CASE WHEN r.a = 1 THEN 1 END FROM r", "SELECT CASE WHEN r.a = 1 THEN 1 ELSE 2 END FROM r", "SELECT CASE r.a WHEN 1 THEN 1 END FROM r", "SELECT CASE WHEN r.a = 1 THEN 2 END FROM r", "SELECT CASE WHEN r.a = 1 THEN 1 WHEN r.a = 2 THEN 2 END FROM r", "SELECT CASE WHEN r.a = 2 THEN 2 WHEN r.a = 1 THEN 1 END FROM r",
    "SELECT * FROM r WHERE EXISTS (SELECT * FROM s)", "SELECT * FROM r WHERE NOT EXISTS (SELECT * FROM s)", "SELECT (SELECT s.a FROM s) FROM r", "SELECT (SELECT s.b FROM s) FROM r",
    "SELECT * FROM generate_series(1, 2)", "SELECT * FROM generate_series(1, 2) AS x", "SELECT * FROM generate_series(1, 2) AS y", "SELECT * FROM generate_series(1, 3) AS x",
    "/* h */ SELECT * FROM r", "/* i */ SELECT * FROM r", "/*+ HashJoin(r s) */ SELECT * FROM r, s", "/*+ NestLoop(r s) */ SELECT * FROM r, s",
]


def corpus(c):
    full = list(dict.fromkeys(MORE + list(sp.single_clauses()) + list(sp.singles())))
    sets_ = list(sp.setops())
    nest = list(sp.nested())
    if c.thorough:
        return full + sets_ + nest
    return full + sets_[:: max(1, len(sets_) // 300)] + nest[:: max(1, len(nest) // 300)]


def queries(c):
    out = []
    for q in corpus(c):
        try:
            x, y = parse(q), parse(q)
        except Exception:
            continue
        hint = pgast.comments(q)
        k = try_key(q)
        out.append((cut(q), x, None if k is None else k if not hint else json.dumps([hint, json.loads(k)]), y))
        if "UNION" not in q and getattr(x, "hints", None) is None and isinstance(x, qal.SqlQuery) and len(out) % 7 == 0:
            h = qal.Hint("SET x = 1", "/*+ NestLoop(r s) */")
            hq = transform.add_clause(x, h) if hasattr(transform, "add_clause") else x
            out.append((cut("hinted " + q), hq, json.dumps(["hinted", k]), None))
    return Family(out)


def elements(c):
    """all parts of the queries of the corpus"""
    seen, out = {}, []
    stream = []

    def put(x, template, label):
        stream.append((x, template))

    def expr(e):
        if isinstance(e, AbstractPredicate):
            return pred(e)
        put(e, "SELECT {}", "")
        for x in e.iterchildren():
            expr(x)

    def pred(p):
        put(p, "SELECT 1 WHERE {}", "")
        for x in p.iterexpressions():
            expr(x)
        for x in getattr(p, "iterchildren", lambda: ())() if isinstance(p, qal.CompoundPredicate) else ():
            pred(x)
        for view in (qal.SimpleFilter, qal.SimpleJoin):
            try:
                v = view.wrap(p)
            except Exception:
                continue
            put(v, "SELECT 1 WHERE {}", "")

    def source(s):
        put(s, "SELECT 1 FROM {}", "")
        if isinstance(s, qal.JoinTableSource):
            source(s.left)
            source(s.right)
            if s.join_condition is not None:
                pred(s.join_condition)
        elif isinstance(s, qal.SubqueryTableSource):
            query(s.query)

    def query(q):
        put(q, "{}", "")
        for cl in q.clauses():
            t = str(cl)
            tail = {"SELECT": "{}", "WITH": "{} SELECT 1", "EXPLA": "{} SELECT 1"}
            fmt = next((v for k, v in tail.items() if t.startswith(k)), "SELECT 1 {}")
            if isinstance(cl, qal.Hint):
                fmt = "???{}"
            put(cl, fmt, "")
            for e in cl.iterexpressions():
                expr(e)
            for p in getattr(cl, "iterpredicates", lambda: ())():
                pred(p)
            if isinstance(cl, qal.From):
                for s in cl.items:
                    source(s)
            if isinstance(cl, qal.Select):
                for t in cl.targets:
                    put(t, "SELECT {}", "")
            if isinstance(cl, qal.OrderBy):
                for t in cl.expressions:
                    put(t, "SELECT 1 ORDER BY {}", "")
            if isinstance(cl, qal.CommonTableExpression):
                for w in cl.queries:
                    put(w, "WITH {} SELECT 1", "")
                    if isinstance(w, qal.WithQuery):
                        query(w.query)
        preds = q.predicates() if isinstance(q, qal.SqlQuery) else None
        if preds is not None and preds:
            put(preds, "SELECT 1 WHERE {}", "")

    def text_of(x):
        return str(x.root) if isinstance(x, qal.QueryPredicates) else str(x)

    for text in corpus(c):
        try:
            first, second = parse(text), parse(text)
        except Exception:
            continue
        query(first)
        one, stream = stream, []
        query(second)
        two, stream = stream, []
        for (x, template), (y, _) in zip(one, two):
            t = text_of(x)
            k = (type(x).__name__, t)
            if k not in seen:
                seen[k] = len(out)
                out.append((f"{type(x).__name__} {cut(t)}", x, try_key(template.format(t)), y))
    for direct in (
        lambda: qal.StaticValueExpression(1), lambda: qal.StaticValueExpression(1.0), lambda: qal.StaticValueExpression(True), lambda: qal.StaticValueExpression("1"), lambda: qal.StaticValueExpression(0),
        lambda: qal.StaticValueExpression(False), lambda: qal.StaticValueExpression(0.0), lambda: qal.StaticValueExpression(None), lambda: qal.StaticValueExpression("None"), lambda: qal.StaticValueExpression.null(),
    ):
        x = direct()
        out.append((f"{type(x).__name__}({x.value!r})", x, try_key(f"SELECT {x}"), direct()))
    return Family(out)


def names(c):
    """references to tables and columns"""
    out = []
    T = pb.TableReference
    N = ["", "r", "R", "s", "x"]
    A = ["", "r", "x", "X", "s"]
    S = ["", "sc", "SC", "sd"]
    tabs = []
    for n, a, s in itertools.product(N, A, S):
        if not n and (not a or s):
            continue
        if not n:
            mk = lambda a=a: T.create_virtual(a)
        else:
            mk = lambda n=n, a=a, s=s: T(n, a, schema=s)
        try:
            t = mk()
        except Exception:
            continue
        tabs.append((mk, (n.lower(), a.lower(), s.lower())))
        out.append((f"table {n!r} {a!r} {s!r}", t, ("t", n.lower(), a.lower(), s.lower()), mk()))
        if n and not s:
            mv = lambda n=n, a=a: T(n, a, virtual=True)
            # whether a CTE and a table of the same name are distinguished is not specified
            out.append((f"virtual {n!r} {a!r}", mv(), ("t", n.lower(), a.lower(), ""), mv()))
    for col in ("a", "A", "b", "Ab", "aB"):
        out.append((f"column {col}", pb.ColumnReference(col), ("c", col.lower(), None), pb.ColumnReference(col)))
        for mk, m in tabs:
            out.append((f"column {col} {m}", pb.ColumnReference(col, mk()), ("c", col.lower(), m), pb.ColumnReference(col, mk())))
    return Family(out)


def trees(c):
    tabs = [pb.TableReference(x) for x in "rstu"] + [pb.TableReference("r", "x")]
    out = []

    def mk(t, cls, ann):
        if isinstance(t, int):
            return cls.scan(tabs[t], annotation=ann(t))
        l, r = t
        return cls.join(mk(l, cls, ann), mk(r, cls, ann), annotation=ann(t))

    def rename(t, perm):
        return perm[t] if isinstance(t, int) else (rename(t[0], perm), rename(t[1], perm))

    space = {}
    for n in range(1, 5 if c.thorough else 4):
        for shape in js.all_shapes(n):
            for perm in itertools.permutations(range(5), n):
                space[rename(shape, perm)] = True
    for t in space:
        for cls, anns in ((pb.JoinTree, [lambda t: None, lambda t: "x"]), (pb.LogicalJoinTree, [lambda t: pb.Cardinality(1), lambda t: pb.Cardinality(2)])):
            for k, ann in enumerate(anns):
                if k and len(str(t)) > 8:
                    continue
                # annotations are payload: they may or may not take part in comparisons
                out.append((f"{cls.__name__} {t} {k}", mk(t, cls, ann), repr((cls.__name__, t)), mk(t, cls, ann)))
    out.append(("empty", pb.JoinTree.empty(), "empty", pb.JoinTree.empty()))
    return Family(out)


def plans(c):
    from postbound import QueryPlan

    tabs = [pb.TableReference(x) for x in "rst"]
    nodes = list(pb.ScanOperator)[:2]
    joins = list(pb.JoinOperator)[:2]
    out = []

    def build(t, so, jo):
        if isinstance(t, int):
            return QueryPlan(so[t % len(so)], operator=so[t % len(so)], base_table=tabs[t])
        l, r = t
        return QueryPlan(jo, operator=jo, children=[build(l, so, jo), build(r, so, jo)])

    def meaning(t, so, jo):
        if isinstance(t, int):
            return (so[t % len(so)].name, t)
        return (jo.name, meaning(t[0], so, jo), meaning(t[1], so, jo))

    space = set()
    for n in (1, 2, 3):
        for shape in js.all_shapes(n):
            for perm in itertools.permutations(range(3), n):
                ren = lambda t: perm[t] if isinstance(t, int) else (ren(t[0]), ren(t[1]))
                space.add(ren(shape))
    for t in sorted(space, key=repr):
        for so in itertools.product(nodes, repeat=2):
            for jo in joins if not isinstance(t, int) else joins[:1]:
                out.append((f"plan {meaning(t, so, jo)}", build(t, so, jo), repr(meaning(t, so, jo)), build(t, so, jo)))
    for nt, kids in (("Sort", 1), ("Materialize", 1), ("Aggregate", 1)):
        for t in (0, 1, (0, 1), (1, 0)):
            mk = lambda nt=nt, t=t: QueryPlan(nt, children=[build(t, nodes, joins[0])])
            out.append((f"{nt} {t}", mk(), repr((nt, meaning(t, nodes, joins[0]))), mk()))
    dup = {}
    for it in out:
        dup.setdefault(it[0], it)
    return Family(list(dup.values()))


def sortkeys(c):
    from postbound._qep import SortKey

    cols = [pb.ColumnReference(x, pb.TableReference(t)) for t, x in (("r", "a"), ("r", "b"), ("s", "a"))]
    out = []
    for k in range(1, 4):
        for sub in itertools.permutations(cols, k):
            for asc in (True, False):
                mk = lambda sub=sub, asc=asc: SortKey.for_equivalence_class(sub, ascending=asc) if len(sub) > 1 else SortKey.of(sub[0], ascending=asc)
                out.append((f"key {[str(x) for x in sub]} {asc}", mk(), repr((sorted(str(x) for x in sub), asc)), mk()))
    return Family(out)


def assignments(c):
    """operator assignments (single entries and whole assignments, built in every order)"""
    from postbound._hints import DirectionalJoinOperatorAssignment, JoinOperatorAssignment, PhysicalOperatorAssignment, ScanOperatorAssignment

    tabs = [pb.TableReference(x) for x in "rst"]
    scans, joins = list(pb.ScanOperator)[:2], list(pb.JoinOperator)[:2]
    out = []
    W = [NAN, 0, 1, 2]
    for op, t, w in itertools.product(scans, tabs[:2], W):
        mk = lambda op=op, t=t, w=w: ScanOperatorAssignment(op, t, float("nan") if w != w else w)
        out.append((f"scan {op.name} {t} {w}", mk(), repr(("scan", op.name, str(t), w)), mk()))
    for op, k, w in itertools.product(joins, (2, 3), W):
        for sub in itertools.permutations(tabs, k):
            mk = lambda op=op, sub=sub, w=w: JoinOperatorAssignment(op, sub, parallel_workers=float("nan") if w != w else w)
            out.append((f"join {op.name} {[str(x) for x in sub]} {w}", mk(), repr(("join", op.name, sorted(str(x) for x in sub), w)), mk()))
    for op in joins:
        for inner, outer in itertools.permutations(tabs, 2):
            mk = lambda op=op, inner=inner, outer=outer: DirectionalJoinOperatorAssignment(op, [inner], [outer])
            out.append((f"directional {op.name} {inner} {outer}", mk(), repr(("dir", op.name, str(inner), str(outer))), mk()))
    steps = {
        "scan r 0": lambda a: a.set_scan_operator(ScanOperatorAssignment(scans[0], tabs[0])),
        "scan r 1": lambda a: a.set_scan_operator(ScanOperatorAssignment(scans[1], tabs[0])),
        "scan s 0": lambda a: a.set_scan_operator(ScanOperatorAssignment(scans[0], tabs[1])),
        "join rs 0": lambda a: a.set_join_operator(JoinOperatorAssignment(joins[0], tabs[:2])),
        "join rs 1": lambda a: a.set_join_operator(JoinOperatorAssignment(joins[1], tabs[:2])),
        "join st 0": lambda a: a.set_join_operator(JoinOperatorAssignment(joins[0], tabs[1:])),
        "off 0": lambda a: a.set_operator_enabled_globally(joins[0], False),
        "on 0": lambda a: a.set_operator_enabled_globally(joins[0], True),
        "off scan": lambda a: a.set_operator_enabled_globally(scans[0], False),
    }

    def run(h):
        a = PhysicalOperatorAssignment()
        for s in h:
            steps[s](a)
        return a

    def meaning(h):
        d = {}
        for s in h:
            kind, *rest = s.split()
            if kind in ("off", "on"):
                d[("g", rest[0])] = kind
            else:
                d[(kind, rest[0])] = rest[1]
        return repr(sorted(d.items()))

    for k in range(0, 4 if c.thorough else 3):
        for h in itertools.product(steps, repeat=k):
            out.append((f"assignment {h}", run(h), "A" + meaning(h), run(h)))
    return Family(out)


def complete_orders(acc, i, n):
    """objects built from the same parts in a different order are equal wherever the order does not matter"""
    from postbound._hints import PhysicalOperatorAssignment  # noqa: F401

    vals = ["1", "2", "3", "'x'", "r.b"]
    for k in (2, 3, 4):
        for sub in sliced(itertools.combinations(vals, k), i, n):
            texts = [f"SELECT * FROM r WHERE {neg}r.a IN ({', '.join(p)})" for p in itertools.permutations(sub) for neg in ("",)]
            qs = [parse(t) for t in texts]
            for a, b in itertools.combinations(qs, 2):
                if a != b or hash(a) != hash(b):
                    acc.violate(f"order-in-list {texts[0]}", f"{a} is not the same as {b}")
            if len({*qs}) != 1:
                acc.violate(f"order-in-list-set {texts[0]}", f"{len({*qs})} distinct queries for the same IN list {sub}")
            acc.case(sub, len(qs))


def edited(base):
    """a statement and everything that one edit of its parse tree makes of it"""
    out = []
    for q in [base] + [text for _, text in astmut.edits(base)]:
        try:
            x, y = parse(q), parse(q)
        except Exception:  # noqa: BLE001
            continue
        out.append((" ".join(q.split()), x, try_key(q), y))
    return Family(out)


def edits(acc, i, n):
    for base in sliced(astmut.BASE, i, n):
        edited(base).check(acc, 0, 1)


def build(fn, c):
    fam = fn(c)

    def run(acc, i, n):
        fam.check(acc, i, n)

    return run


def run(c):
    for name, fn in (("queries", queries), ("elements", elements), ("names", names), ("join trees", trees), ("plans", plans), ("sort keys", sortkeys), ("assignments", assignments)):
        c.part(name, build(fn, c))
    c.part("single edits of the parse tree", edits)
    c.part("orders", complete_orders)


Check("P05", "exploration", "all ordered pairs of objects of each family (the complete equality matrix) and everything that it implies; distinct by object",
      ["the corpus is finite: the pairs are complete with respect to it"]).main(run)
