"""P18: translation into relational algebra; the algebra trees of all queries of a fragment are evaluated on small databases and compared with an engine."""
import itertools
import re
import sqlite3
import warnings

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import postbound as pb  # noqa: E402
from postbound import qal, relalg  # noqa: E402

TABLES = {"R": ("a", "b"), "S": ("c", "d"), "T": ("e", "f")}
# without NULL: all fragments; with NULL: fragments without subqueries in disjunctions and negations
DATA = {
    "plain": {"R": [(1, 10), (2, 20), (3, 10), (2, 30)], "S": [(1, 10), (2, 20), (4, 20)], "T": [(1, 2), (3, 20)]},
    "other": {"R": [(0, 2), (2, 2)], "S": [(2, 1), (2, 2), (3, 0)], "T": [(2, 2), (2, 0), (1, 1)]},
    "nulls": {"R": [(1, None), (None, 20), (2, 10)], "S": [(1, 10), (None, None), (2, 20)], "T": [(None, 1), (2, 10)]},
    "empty": {"R": [(1, 10)], "S": [], "T": [(1, 2)]},
}


def connect(data):
    con = sqlite3.connect(":memory:")
    for t, cols in TABLES.items():
        con.execute(f"create table {t}({', '.join(c + ' integer' for c in cols)})")
        con.executemany(f"insert into {t} values (?, ?)", data[t])
    return con


# ------------------------------------------------------------------------------------------------ evaluation of algebra trees
class Bad(Exception):
    """the tree cannot be evaluated: an operator uses something that its inputs do not provide"""


def colkey(col):
    return (col.table.identifier(), col.name.lower())


class Algebra:
    def __init__(self, data):
        self.data = data

    # -- expressions; a row maps column keys and expressions to values
    def value(self, e, row):
        if isinstance(e, qal.ColumnExpression):
            k = colkey(e.column)
            if k not in row:
                raise Bad(f"column {e} is not available")
            return row[k]
        if e in row:
            return row[e]
        if isinstance(e, qal.StaticValueExpression):
            return e.value
        if isinstance(e, qal.AbstractPredicate):
            return self.holds(e, row)
        if isinstance(e, qal.FunctionExpression):
            if e.is_aggregate():
                raise Bad(f"aggregate {e} is not computed")
            args = [self.value(x, row) for x in e.arguments]
            name = e.function.lower()
            if name == "coalesce":
                return next((x for x in args if x is not None), None)
            if name == "random0":
                return 0
            return None if None in args else {"abs": lambda x: abs(x), "length": lambda x: len(str(x))}[name](*args)
        if isinstance(e, qal.MathExpression):
            a = self.value(e.first_arg, row)
            if e.second_arg is None:
                return None if a is None else -a
            args = e.second_arg if isinstance(e.second_arg, (list, tuple)) else [e.second_arg]
            for x in args:
                b = self.value(x, row)
                if a is None or b is None:
                    a = None
                else:
                    a = {"+": a + b, "-": a - b, "*": a * b}[e.operator.value]
            return a
        if isinstance(e, qal.CastExpression):
            v = self.value(e.casted_expression, row)
            return v if v is None else (str(v) if "text" in e.target_type.lower() else int(v))
        if isinstance(e, qal.CaseExpression):
            for cond, res in e.cases:
                if self.holds(cond, row):
                    return self.value(res, row)
            return self.value(e.else_expression, row) if e.else_expression else None
        if isinstance(e, qal.SubqueryExpression):
            raise Bad(f"subquery {e} is not computed")
        raise Bad(f"unknown expression {e!r}")

    def holds(self, p, row):
        """three-valued: True, False, None"""
        if isinstance(p, qal.CompoundPredicate):
            kids = p.children if isinstance(p.children, (list, tuple)) else [p.children]
            vals = [self.holds(c, row) for c in kids]
            if p.operation == qal.CompoundOperator.Not:
                return None if vals[0] is None else not vals[0]
            if p.operation == qal.CompoundOperator.And:
                return False if False in vals else (None if None in vals else True)
            return True if True in vals else (None if None in vals else False)
        if isinstance(p, qal.BetweenPredicate):
            v, lo, hi = (self.value(x, row) for x in (p.column, p.interval_start, p.interval_end))
            a = None if v is None or lo is None else v >= lo
            b = None if v is None or hi is None else v <= hi
            return False if False in (a, b) else (None if None in (a, b) else True)
        if isinstance(p, qal.InPredicate):
            v = self.value(p.column, row)
            vals = [self.value(x, row) for x in p.values]
            if v is None:
                return None
            return True if v in vals else (None if None in vals else False)
        if isinstance(p, qal.UnaryPredicate):
            if p.operation in (qal.LogicalOperator.Exists, qal.LogicalOperator.Missing):
                raise Bad(f"{p} occurs in an operator instead of a semi or anti join")
            return self.value(p.column, row)
        a, b = self.value(p.first_argument, row), self.value(p.second_argument, row)
        op = p.operation.value
        if op == "IS":
            return a is b or a == b
        if op == "IS NOT":
            return not (a is b or a == b)
        if a is None or b is None:
            return None
        return {"=": a == b, "<>": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    # -- operators; outer maps the columns of correlated tables to their current values
    def rows(self, n, outer):
        return getattr(self, "_" + type(n).__name__)(n, outer)

    def _Relation(self, n, outer):
        name = n.table.identifier()
        own = {k: v for k, v in outer.items() if isinstance(k, tuple) and k[0] == name}
        if own:
            return [own]
        if n.subquery_input is not None:
            sub = n.subquery_input
            scan = sub if isinstance(sub, relalg.SubqueryScan) else None
            if scan is None:
                raise Bad("derived table without subquery")
            names = output_names(scan.subquery)
            return [{(name, nm): v for nm, v in zip(names, vals)} for vals in self.result(scan.input_node, scan.subquery, outer)]
        full = n.table.full_name.upper()
        given = set(TABLES[full]) if self.star else {e.column.name.lower() for e in n.provided_expressions()}
        return [{(name, c): v for c, v in zip(TABLES[full], r) if c in given} | {(name, "#"): i} for i, r in enumerate(self.data[full])]

    def _Selection(self, n, outer):
        return [r for r in self.rows(n.input_node, outer) if self.holds(n.predicate, outer | r) is True]

    def _Map(self, n, outer):
        out = []
        for r in self.rows(n.input_node, outer):
            r = dict(r)
            for exprs in n.mapping.values():
                for e in exprs:
                    if not isinstance(e, qal.ColumnExpression) and isinstance(e, qal.SqlExpression):
                        r[e] = self.value(e, outer | r)
            out.append(r)
        return out

    def pairs(self, n, outer):
        left = self.rows(n.left_input, outer)
        if isinstance(n.left_input, relalg.SubqueryScan) and not isinstance(n.right_input, relalg.SubqueryScan):
            return [(q, r) for r in self.rows(n.right_input, outer) for q in self.scan(n.left_input, outer, r, scalar=True)]
        if isinstance(n.right_input, relalg.SubqueryScan):
            return [(r, q) for r in left for q in self.scan(n.right_input, outer, r, scalar=True)]
        return list(itertools.product(left, self.rows(n.right_input, outer)))

    def _CrossProduct(self, n, outer):
        return [a | b for a, b in self.pairs(n, outer)]

    def _ThetaJoin(self, n, outer):
        return [a | b for a, b in self.pairs(n, outer) if self.holds(n.predicate, outer | a | b) is True]

    def scan(self, n, outer, row, scalar=False):
        """rows of a subquery for the current row of the outer query"""
        bound = {t.identifier() for t in n.subquery.unbound_tables()}
        env = {k: v for k, v in (outer | row).items() if isinstance(k, tuple) and k[0] in bound}
        if isinstance(n.subquery, qal.SetQuery):
            first = n.input_node
            while not isinstance(first, relalg.Projection):
                first = first.children()[0]
            return [{colkey(e.column) if isinstance(e, qal.ColumnExpression) else e: v for e, v in zip(first.columns, vals)} for vals in self.result(n.input_node, n.subquery, env)]
        rows = self.rows(n.input_node, env)
        if scalar:
            if len(rows) > 1:
                raise Bad("scalar subquery with several rows")
            if isinstance(n.subquery, qal.SetQuery):
                raise Bad("scalar set query")
            return [{qal.SubqueryExpression(n.subquery): self.output(n.input_node, n.subquery, r, env)[0]} for r in rows] or [{qal.SubqueryExpression(n.subquery): None}]
        return rows

    def _SubqueryScan(self, n, outer):
        return self.scan(n, outer, {})

    def _SemiJoin(self, n, outer, keep=True):
        out = []
        for r in self.rows(n.input_node, outer):
            match = any(n.predicate is None or self.holds(n.predicate, outer | r | q) is True for q in self.scan(n.subquery_node, outer, r))
            if match == keep:
                out.append(r)
        return out

    def _AntiJoin(self, n, outer):
        return self._SemiJoin(n, outer, keep=False)

    @staticmethod
    def ident(r):
        return frozenset((k, v) for k, v in r.items() if isinstance(k, tuple))

    def _Union(self, n, outer):
        seen, out = set(), []
        for r in self.rows(n.left_input, outer) + self.rows(n.right_input, outer):
            k = self.ident(r)
            if k not in seen:
                seen.add(k)
                out.append(r)
        return out

    def _Difference(self, n, outer):
        gone = {self.ident(r) for r in self.rows(n.right_input, outer)}
        return [r for r in self.rows(n.left_input, outer) if self.ident(r) not in gone]

    def _Intersection(self, n, outer):
        keep = {self.ident(r) for r in self.rows(n.right_input, outer)}
        return [r for r in self.rows(n.left_input, outer) if self.ident(r) in keep]

    def _DuplicateElimination(self, n, outer):
        return self.rows(n.input_node, outer)

    def _Projection(self, n, outer):
        out = []
        for r in self.rows(n.input_node, outer):
            r = dict(r)
            for e in n.columns:
                if not isinstance(e, qal.StarExpression):
                    v = self.value(e, outer | r)
                    if not isinstance(e, qal.ColumnExpression):
                        r[e] = v
            out.append(r)
        return out

    def _Sort(self, n, outer):
        rows = self.rows(n.input_node, outer)
        for e, direction in reversed(list(n.sorting)):
            rows = sorted(rows, key=lambda r: (self.value(e, outer | r) is not None, self.value(e, outer | r)), reverse=direction == "desc")
        return rows

    def _Grouping(self, n, outer):
        groups = {}
        rows = self.rows(n.input_node, outer)
        for r in rows:
            key = tuple(self.value(e, outer | r) for e in n.group_columns)
            groups.setdefault(key, []).append(r)
        if not n.group_columns:
            groups = {(): rows}
        out = []
        for key, members in groups.items():
            r = {}
            for e, v in zip(n.group_columns, key):
                r[colkey(e.column) if isinstance(e, qal.ColumnExpression) else e] = v
            for args, aggs in n.aggregates.items():
                for agg in aggs:
                    r[agg] = self.aggregate(agg, members, outer)
            out.append(r)
        return out

    def aggregate(self, agg, members, outer):
        name = agg.function.lower()
        args = list(agg.arguments)
        if not args or isinstance(args[0], qal.StarExpression):
            return len(members)
        vals = [v for v in (self.value(args[0], outer | r) for r in members) if v is not None]
        if agg.distinct:
            vals = list(dict.fromkeys(vals))
        if name == "count":
            return len(vals)
        return {"sum": sum, "min": min, "max": max}[name](vals) if vals else None

    # -- results of queries
    def output(self, node, query, r, outer):
        if isinstance(query, qal.SetQuery):
            query = query.left_query
        if query.select_clause.is_star():
            return tuple(r[k] for k in star_columns(query))
        if not isinstance(node, relalg.Projection):
            raise Bad(f"the output is not projected but {type(node).__name__}")
        return tuple(self.value(e, outer | r) for e in node.columns)

    def result(self, node, query, outer):
        if isinstance(query, qal.SetQuery):
            return self.set_result(node, query, outer)
        return [self.output(node, query, r, outer) for r in self.rows(node, outer)]

    def set_result(self, node, query, outer):
        """set queries combine positions, not names"""
        n = node
        if isinstance(n, relalg.Sort):
            n = n.input_node
        if isinstance(n, relalg.DuplicateElimination):
            n = n.input_node
        kind = {qal.SetOperator.Union: relalg.Union, qal.SetOperator.UnionAll: relalg.Union, qal.SetOperator.Intersect: relalg.Intersection, qal.SetOperator.Except: relalg.Difference}[query.set_operation]
        if not isinstance(n, kind):
            raise Bad(f"{type(n).__name__} for {query.set_operation}")
        left, right = self.result(n.left_input, query.left_query, outer), self.result(n.right_input, query.right_query, outer)
        if query.set_operation == qal.SetOperator.UnionAll:
            return left + right
        if query.set_operation == qal.SetOperator.Union:
            return list(dict.fromkeys(left + right))
        keep = set(right)
        return [x for x in dict.fromkeys(left) if (x in keep) == (query.set_operation == qal.SetOperator.Intersect)]


def output_names(query):
    if isinstance(query, qal.SetQuery):
        return output_names(query.left_query)
    if query.select_clause.is_star():
        return [c for _, c in star_columns(query)]
    return [(t.target_name or (t.expression.column.name if isinstance(t.expression, qal.ColumnExpression) else "?")).lower() for t in query.select_clause.targets]


def star_columns(query):
    out = []
    for src in query.from_clause.items:
        if isinstance(src, qal.SubqueryTableSource):
            out += [(src.target_table.identifier(), c) for c in output_names(src.query)]
            continue
        t = src.table
        cte = {c.target_table.full_name: c.query for c in (query.cte_clause.queries if query.cte_clause else ())}
        cols = output_names(cte[t.full_name]) if t.full_name in cte else TABLES[t.full_name.upper()]
        out += [(t.identifier(), c) for c in cols]
    return out


# ------------------------------------------------------------------------------------------------ structure of trees
def structure(root):
    """the first inconsistency of the links between nodes"""
    if root.parent_node is not None:
        return "the root has a parent"
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        for c in n.children():
            if c.parent_node is None:
                return f"{type(c).__name__} below {type(n).__name__} has no parent"
            if c.parent_node is not n and n not in c.sideways_pass:
                return f"{type(c).__name__} does not know its consumer {type(n).__name__}"
            todo.append(c)
    return None


# ------------------------------------------------------------------------------------------------ queries
FILTERS_R = ["R.a = 2", "R.b <> 10", "R.a + 1 = 3", "R.a < R.b", "R.a BETWEEN 2 AND 3", "R.a IN (1, 3)", "R.b IS NULL", "R.b IS NOT NULL", "abs(R.a) > 1", "CAST(R.a AS text) = '2'",
             "CASE WHEN R.a = 1 THEN 0 ELSE R.b END > 5", "NOT (R.a = 2)", "R.a + R.b > 12", "R.a IN (R.b, 2)", "1 = R.a", "R.a BETWEEN 1 AND R.b"]
FILTERS_S = ["S.c = 2", "S.d > 10"]
JOINS = ["R.a = S.c", "R.b = S.d", "R.a < S.c", "R.a + 1 = S.c", "S.d = R.b + 10", "R.a + S.c = 4", "R.a BETWEEN S.c AND S.d", "R.a IN (S.c, 3)", "R.a = abs(S.c)", "R.a - S.c = R.b - S.d",
         "CASE WHEN R.a = S.c THEN 1 ELSE 0 END = 1", "coalesce(R.b, S.d) = 10"]
JOINS_T = ["R.a = T.e", "S.c = T.e", "R.b = T.f", "S.d = T.f", "T.e = 1"]
SUBQ = ["EXISTS (SELECT * FROM T WHERE T.e = R.a)", "NOT EXISTS (SELECT * FROM T WHERE T.e = R.a)", "EXISTS (SELECT * FROM T)", "EXISTS (SELECT 1 FROM T WHERE T.f > 15)",
        "R.a IN (SELECT T.e FROM T)", "R.a IN (SELECT T.e FROM T WHERE T.f = R.b)", "R.a NOT IN (SELECT T.e FROM T)", "R.a = (SELECT min(T.e) FROM T)", "R.a = (SELECT max(T.e) FROM T WHERE T.f >= R.a)",
        "R.b > (SELECT count(*) FROM T WHERE T.e = R.a)", "R.a + 1 = (SELECT max(T.e) FROM T)", "(SELECT min(T.e) FROM T) < R.a", "R.a < (SELECT max(T.e) + 1 FROM T)",
        "EXISTS (SELECT * FROM T WHERE T.e = R.a AND T.f > 1)", "EXISTS (SELECT * FROM T WHERE T.e < R.a AND T.f > R.a)", "R.a IN (SELECT T.e + 1 FROM T)", "R.a BETWEEN (SELECT min(T.e) FROM T) AND 2",
        "EXISTS (SELECT * FROM T WHERE T.e = R.a AND EXISTS (SELECT * FROM S AS s2 WHERE s2.c = T.e))", "EXISTS (SELECT * FROM T, S AS s2 WHERE T.e = R.a AND s2.c = T.e)"]
SUBQ_JOIN = ["EXISTS (SELECT * FROM T WHERE T.e = R.a AND T.f > S.c)", "R.a = (SELECT min(T.e) FROM T WHERE T.f > S.c)", "S.c IN (SELECT T.e FROM T WHERE T.e = R.a)"]


def where_queries(thorough):
    """(query, has a subquery below OR or NOT)"""
    def q(frm, w, sel="*"):
        return f"SELECT {sel} FROM {frm}" + (f" WHERE {w}" if w else "")

    def pairs(ps, ops=("AND", "OR")):
        for a, b in itertools.permutations(ps, 2):
            for op in ops:
                yield f"{a} {op} {b}", op == "OR" and ("SELECT" in a or "SELECT" in b)

    one = FILTERS_R + SUBQ
    for w in ["", *one]:
        for sel in ("*", "R.a", "R.a, R.b + 1", "count(*)"):
            yield q("R", w, sel), "NOT IN" in w
        if w:
            yield q("R", f"NOT ({w})"), "SELECT" in w
    for w, hard in pairs(one if thorough else FILTERS_R[:9] + SUBQ[:9]):
        yield q("R", w), hard or "NOT IN" in w
    two = FILTERS_R[:3] + FILTERS_S + JOINS + SUBQ[:1] + SUBQ_JOIN
    for w in two:
        for sel in ("*", "R.a, S.d", "sum(R.a + S.c)"):
            yield q("R, S", w, sel), False
        if "SELECT" not in w or thorough:
            yield q("R, S", f"NOT ({w})"), "SELECT" in w
    for w, hard in pairs(two if thorough else FILTERS_R[:2] + FILTERS_S[:1] + JOINS[:7] + SUBQ[:1] + SUBQ_JOIN[:1]):
        yield q("R, S", w), hard
    for a, b, c in itertools.combinations(JOINS[:4] + FILTERS_R[:2] + FILTERS_S[:1] + SUBQ[:1] + SUBQ[4:5], 3):
        for w in (f"{a} AND {b} AND {c}", f"({a} OR {b}) AND {c}", f"{a} AND {b} OR {c}", f"NOT ({a} AND {b}) AND {c}"):
            sub = "SELECT" in w
            yield q("R, S", w), sub and ("OR" in w or "NOT" in w)
    three = JOINS[:2] + JOINS_T + FILTERS_R[:1]
    for k in (0, 1, 2, 3) if not thorough else (0, 1, 2, 3, 4):
        for c in itertools.combinations(three, k):
            yield q("R, S, T", " AND ".join(c)), False
    for c in itertools.combinations(["r1.a = r2.b", "r1.a < r2.a", "r1.b = 10", "r2.a = 2", "r1.a = S.c"], 2):
        yield q("R AS r1, R AS r2, S" if "S." in " ".join(c) else "R AS r1, R AS r2", " AND ".join(c)), False


def deep_queries(thorough):
    """three predicates, nested set operations, subqueries in derived tables in set operations"""
    preds = FILTERS_R + SUBQ
    for a, b, c in itertools.combinations(preds if thorough else FILTERS_R[:3] + SUBQ[:5], 3):
        for w in (f"({a} OR {b}) AND {c}", f"{a} OR {b} AND {c}", f"NOT ({a} OR {b}) AND {c}", f"NOT ({a} AND NOT ({b} OR {c}))"):
            yield f"SELECT * FROM R WHERE {w}", False
    sides = ["SELECT R.a FROM R WHERE R.b = 10", "SELECT S.c FROM S", "SELECT T.e FROM T WHERE T.f > 2"]
    for (a, b, c), op, op2 in itertools.product(itertools.permutations(sides), ("UNION", "UNION ALL", "INTERSECT", "EXCEPT"), ("UNION", "UNION ALL", "INTERSECT", "EXCEPT")):
        if "INTERSECT" not in (op, op2):  # SQLite gives all set operations the same precedence
            yield f"{a} {op} {b} {op2} {c}", False
        yield f"SELECT q.a FROM ({a.replace(' FROM', ' AS a FROM')} {op} {b}) AS q WHERE q.a IN ({c})", False
        # a subquery gets its own alias since names in algebra trees are not tied to scopes
        a, b, c = (x.replace("R.", "r2.").replace("FROM R", "FROM R AS r2") for x in (a, b, c))
        yield f"SELECT R.a FROM R WHERE R.a IN ({a} {op} {b}) AND R.b IN ({b} {op2} {c})", False


def shaped_queries(thorough):
    sels = ["R.a", "R.a, R.b", "R.b, R.a", "R.a + 1", "abs(R.a - 2)", "CASE WHEN R.a = 1 THEN R.b ELSE 0 END", "1, R.a", "CAST(R.a AS text)", "R.a AS x, R.a + R.b AS y", "coalesce(R.b, R.a)"]
    for s in sels:
        for w in ("", " WHERE R.a > 1", " WHERE abs(R.a - 2) = 1"):
            for o in ("", " ORDER BY R.a, R.b", " ORDER BY R.b DESC, R.a ASC", " ORDER BY R.a + R.b, R.a"):
                yield f"SELECT {s} FROM R{w}{o}", False
    aggs = ["count(*)", "sum(R.a)", "min(R.a), max(R.b)", "sum(R.a + 1)", "sum(R.a) + 1", "sum(R.a) + count(*)", "count(R.b)", "count(DISTINCT R.b)", "max(abs(R.a - 2))", "abs(min(R.a) - 5)",
            "max(CASE WHEN R.a = 1 THEN R.b ELSE 0 END)", "min(R.a), min(R.a) + max(R.a)", "sum(R.a), sum(R.a + R.b)"]
    for s in aggs:
        for w in ("", " WHERE R.a > 1", " WHERE R.a > 99"):
            yield f"SELECT {s} FROM R{w}", False
            for g in ("R.b", "R.a, R.b", "R.b + 1", "abs(R.a)"):
                for h in ("", " HAVING count(*) > 1", " HAVING sum(R.a) > 2 AND min(R.a) < 3", " HAVING count(*) > 1 OR max(R.a) = 3", " HAVING sum(R.a) + 1 > 4", " HAVING NOT (count(*) = 1)", " HAVING sum(R.a) BETWEEN 2 AND 3",
                          " HAVING count(*) IN (1, 3)", " HAVING count(*) > (SELECT min(T.e) FROM T)", " HAVING max(R.a + 1) > 3"):
                    if not thorough and (w and h and (s, g) not in itertools.product(aggs[:3], ["R.b"])):
                        continue
                    for lead in (f"{g}, ", ""):
                        yield f"SELECT {lead}{s} FROM R{w} GROUP BY {g}{h}", False
            yield f"SELECT R.b, {s} FROM R{w} GROUP BY R.b ORDER BY R.b", False
        yield f"SELECT R.b FROM R GROUP BY R.b HAVING {s.split(', ')[0]} > 2", False
    for g in ("R.b", "R.a, R.b", "R.a + R.b"):
        yield f"SELECT {g} FROM R GROUP BY {g}", False
    yield "SELECT R.b, count(*) FROM R, S WHERE R.a = S.c GROUP BY R.b HAVING count(*) >= 1 ORDER BY R.b", False
    yield "SELECT count(*) FROM R HAVING count(*) > 1", False
    yield "SELECT count(*) FROM R HAVING min(R.a) > 1", False
    yield "SELECT R.b, count(*) FROM R GROUP BY R.b ORDER BY count(*), R.b", False
    derived = ["(SELECT R.a, R.b FROM R WHERE R.a > 1) AS q", "(SELECT R.a AS a, R.b + 1 AS b FROM R) AS q", "(SELECT R.b AS a, count(*) AS b FROM R GROUP BY R.b) AS q", "(SELECT * FROM R) AS q",
               "(SELECT R.a AS a, S.d AS b FROM R, S WHERE R.a = S.c) AS q", "(SELECT R.a AS a, R.b AS b FROM R WHERE EXISTS (SELECT * FROM T WHERE T.e = R.a)) AS q"]
    for d in derived:
        for rest in ("", " WHERE q.a = 2", " WHERE q.a + 1 = 3", " WHERE q.a IN (SELECT T.e FROM T)"):
            for s in ("q.a", "*", "count(*)", "max(q.b)", "q.a + q.b"):
                yield f"SELECT {s} FROM {d}{rest}", False
        for w in (" WHERE q.a = S.c", " WHERE q.a = S.c AND q.b > 10", "", " WHERE q.a = S.c AND EXISTS (SELECT * FROM T WHERE T.e = q.a)"):
            yield f"SELECT q.a, S.d FROM {d}, S{w}", False
            yield f"SELECT * FROM S, {d}{w}", False
        body = d[1:d.rindex(")")]
        for w in ("", " WHERE q.a = 2", " WHERE q.a = S.c", " WHERE q.a = S.c AND q.b > 10"):
            frm = "q, S" if "S." in w else "q"
            yield f"WITH q AS ({body}) SELECT * FROM {frm}{w}", False
            yield f"WITH q AS ({body}) SELECT q.a FROM {frm}{w}", False
        yield f"WITH q AS ({body}) SELECT x.a, y.b FROM q AS x, q AS y WHERE x.a = y.a", False
        yield f"WITH q AS ({body}) SELECT R.a FROM R WHERE R.a IN (SELECT q.a FROM q)", False
    sides = ["SELECT R.a FROM R", "SELECT S.c FROM S", "SELECT T.e FROM T WHERE T.f > 2", "SELECT R.b FROM R WHERE EXISTS (SELECT * FROM T WHERE T.e = R.a)", "SELECT count(*) FROM S", "SELECT R.a + 1 FROM R"]
    for (a, b), op in itertools.product(itertools.permutations(sides, 2), ("UNION", "UNION ALL", "INTERSECT", "EXCEPT")):
        yield f"{a} {op} {b}", False
    for a, b in (("SELECT R.a, R.b FROM R", "SELECT S.c, S.d FROM S"), ("SELECT R.a, R.b FROM R", "SELECT R.b, R.a FROM R"), ("SELECT R.a FROM R WHERE R.a = 1", "SELECT R.a FROM R WHERE R.a = 2")):
        for op in ("UNION", "UNION ALL", "INTERSECT", "EXCEPT"):
            yield f"{a} {op} {b}", False
    for op in ("UNION", "UNION ALL", "INTERSECT", "EXCEPT"):
        yield f"WITH q AS (SELECT R.a AS a FROM R WHERE R.a > 1) SELECT q.a FROM q {op} SELECT S.c FROM S", False
        yield f"SELECT R.b FROM R WHERE R.a IN (SELECT T.e FROM T {op} SELECT S.c FROM S)", False


NEGATED_IN = re.compile(r"NOT IN \(SELECT|NOT \(.*IN \(SELECT")


def judge(acc, text, hard, alg, cons):
    try:
        query = pb.parse_query(text, bind_columns=False)
    except Exception as e:  # noqa: BLE001
        acc.violate(f"parser: {short(e)[:60]}", text)
        return
    try:
        tree = relalg.parse_relalg(query)
    except Exception as e:  # noqa: BLE001
        acc.case(text, outcome="rejected")
        acc.violate(f"translation fails: {short(e)[:60]}", text)
        return
    bad = structure(tree)
    if bad:
        acc.violate(f"structure: {bad}", text)
    as_set = isinstance(query, qal.SetQuery)
    for name, a in alg.items():
        if name == "nulls" and NEGATED_IN.search(text) and text != "SELECT * FROM R WHERE R.a NOT IN (SELECT T.e FROM T)":
            continue  # translated as difference, which is defined on two-valued membership
        sql = text
        if not as_set and query.select_clause.is_star():
            cols = ", ".join(f"{t}.{c}" for t, c in star_columns(query))
            i = text.rindex("SELECT *") if text.startswith("WITH") else 0
            sql = text[:i] + text[i:].replace("SELECT *", f"SELECT {cols}", 1)
        want = cons[name].execute(sql).fetchall()
        acc.step()
        try:
            a.star = "*" in text.replace("(*)", "")
            got = a.result(tree, query, {})
        except Bad as e:
            acc.violate(f"tree cannot be evaluated: {str(e)[:50]}", f"{text}\n{tree.inspect()}")
            break
        if "ORDER BY" in text and name != "nulls" and not as_set:
            same = got == want
        else:
            same = sorted(map(repr, got)) == sorted(map(repr, want))
        if not same:
            acc.violate(f"different result: {text}", f"{name}: {got} instead of {want}\n{tree.inspect()}")
            break
    else:
        acc.case(text, outcome=type(tree).__name__)
        return
    acc.case(text, outcome="wrong")


def part(gen, thorough):
    def run(acc, i, n):
        alg = {k: Algebra(v) for k, v in DATA.items()}
        cons = {k: connect(v) for k, v in DATA.items()}
        for text, hard in sliced(dict.fromkeys(gen(thorough)), i, n):
            judge(acc, text, hard, alg, cons)
    return run


def snapshot(root):
    """every node with its parent, consumers, and children"""
    seen, todo, out = set(), [root], []
    while todo:
        n = todo.pop()
        if id(n) not in seen:
            seen.add(id(n))
            out.append((id(n), str(n), id(n.parent_node), frozenset(map(id, n.sideways_pass)), tuple(map(id, n.children())), hash(n)))
            todo.extend(n.children())
    return out


UNARY = (relalg.Selection, relalg.Map, relalg.Sort, relalg.Projection, relalg.SemiJoin, relalg.AntiJoin, relalg.Grouping, relalg.DuplicateElimination)


def expected_lines(n, node, change, depth=0):
    """inspect() with the change applied at all occurrences of the node"""
    lines = change(n) if n == node else [str(n)]
    here = [(" " * depth + "<- " if depth else "") + x if i == 0 else x for i, x in enumerate(lines)]
    return here + [x for c in n.children() for x in expected_lines(c, node, change, depth + 2)]


def mutations(acc, i, n):
    """each node of each tree is copied, moved to the root, modified, and removed; the original never changes"""
    queries = dict.fromkeys(itertools.chain(where_queries(False), shaped_queries(False)))
    for text, _ in sliced(list(queries)[::1 if acc_thorough else 5], i, n):
        try:
            tree = relalg.parse_relalg(pb.parse_query(text, bind_columns=False))
        except Exception:  # noqa: BLE001  (judged above)
            continue
        before = snapshot(tree)
        nodes = list({id(x): x for x in tree.dfs_walk()}.values())
        for k, node in enumerate(nodes):
            what = type(node).__name__

            def bad(sig, detail=""):
                acc.violate(f"mutate {what}: {sig}", f"{text}\nnode {k}: {node}\n{detail}")
            try:
                acc.step(5)
                same = node.mutate()
                if same != node or same.root() != tree or same.root().inspect() != tree.inspect():
                    bad("a plain mutation changes the tree", same.root().inspect())
                if structure(same.root()):
                    bad("links of the copy: " + structure(same.root()))
                if {x[0] for x in snapshot(same.root())} & {x[0] for x in before}:
                    bad("the copy shares nodes with the original")
                if hash(same) != hash(node):
                    bad("equal nodes with different hash values")
                top = node.mutate(as_root=True)
                if top != node or top.parent_node is not None or top.inspect() != node.inspect():
                    bad("as_root does not yield the subtree", top.inspect())
                if structure(top):
                    bad("links of the new root: " + structure(top))
                if isinstance(node, relalg.Selection):
                    new = qal.BinaryPredicate.equal(qal.StaticValueExpression(1), qal.StaticValueExpression(2))
                    m = node.mutate(predicate=new)
                    want = "\n".join(expected_lines(tree, node, lambda x: [str(relalg.Selection(relalg.Relation(pb.TableReference("x"), []), new))]))
                    if m.predicate != new or m.root().inspect() != want:
                        bad("changed predicate", f"{m.root().inspect()}\ninstead of\n{want}")
                    if m.input_node != node.input_node or hash(m) != hash(relalg.Selection(node.input_node.mutate(as_root=True), new)):
                        bad("changed predicate: input or hash value")
                if isinstance(node, UNARY) and isinstance(node.input_node, UNARY):
                    # drop the input of the node
                    m = node.mutate(input_node=node.input_node.input_node)
                    if m.input_node != node.input_node.input_node or structure(m.root()):
                        bad("replaced input", m.root().inspect())
                if isinstance(node, relalg.Sort):
                    m = node.mutate(sorting=list(reversed(node.sorting)))
                    if list(m.sorting) != list(reversed(node.sorting)):
                        bad("changed sorting", str(m))
                fields = {}
                col = pb.ColumnReference("z", node.table if isinstance(node, relalg.Relation) else pb.TableReference("R"))
                expr = qal.ColumnExpression(col)
                if isinstance(node, relalg.Relation):
                    fields = {"provided_columns": [col]}
                elif isinstance(node, relalg.Projection):
                    fields = {"targets": [expr]}
                elif isinstance(node, relalg.Grouping):
                    fields = {"group_columns": [expr]}
                elif isinstance(node, relalg.Map):
                    fields = {"mapping": {frozenset({expr}): frozenset({qal.FunctionExpression("abs", [expr])})}}
                elif isinstance(node, relalg.Sort):
                    fields = {"sorting": [expr]}
                elif isinstance(node, (relalg.ThetaJoin, relalg.SemiJoin, relalg.AntiJoin)):
                    fields = {"predicate": qal.BinaryPredicate.equal(expr, expr)}
                if fields:
                    m = node.mutate(**fields)
                    got = {"provided_columns": lambda: {e.column for e in m.provided_expressions() if isinstance(e, qal.ColumnExpression) and e.column.table == m.table or e == expr} == {col}, "targets": lambda: tuple(m.columns) == (expr,), "group_columns": lambda: tuple(m.group_columns) == (expr,),
                           "mapping": lambda: dict(m.mapping) == fields["mapping"], "sorting": lambda: tuple(m.sorting) == ((expr, "asc"),), "predicate": lambda: m.predicate == fields["predicate"]}
                    (name,) = fields
                    if not got[name]():
                        bad(f"{name} is not updated", str(m))
                    if structure(m.root()) or len(list(m.root().dfs_walk())) != len(list(tree.dfs_walk())):
                        bad(f"structure after updating {name}")
                if isinstance(node, (relalg.CrossProduct, relalg.ThetaJoin)):
                    m = node.mutate(left_input=node.right_input, right_input=node.left_input)
                    if m.left_input != node.right_input or m.right_input != node.left_input or structure(m.root()):
                        bad("swapped inputs", m.root().inspect())
            except Exception as e:  # noqa: BLE001
                bad(f"fails: {short(e)[:60]}")
            if snapshot(tree) != before:
                bad("the original is modified")
                break
            acc.case((text, k), outcome=what)


acc_thorough = False


def main(c):
    global acc_thorough
    acc_thorough = c.thorough
    c.part("predicates", part(where_queries, True))
    c.part("query shapes", part(shaped_queries, True))
    c.part("deeper queries", part(deep_queries, c.thorough))
    c.part("mutations", mutations)
    c.finish()


main(Check("P18", "model_checking", "every query of the fragment (all predicates and their conjunctions, disjunctions, negations up to size 3; select lists, groupings, orderings, derived tables, common table "
           "expressions, set operations) on every database of the list; distinct by query", ["SQLite evaluates the queries"]))
