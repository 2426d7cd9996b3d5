"""P03: queries report exactly the tables, columns, expressions and subqueries they consist of (PostgreSQL's AST is the reference)."""
import collections
import itertools
import json

import astmut
import pgast
import sqlspace as sp
from vlib import Check, short, sliced

import postbound as pb
from postbound import qal


def names(ref):
    return [f["String"]["sval"] if "String" in f else "*" for f in ref["fields"]]


class Ref:
    """what PostgreSQL's grammar says about a statement"""

    def __init__(self, stmt):
        self.columns = collections.Counter()
        self.tables = set()  # (identifier, full name or '')
        self.subqueries = collections.Counter()
        self.consts = collections.Counter()
        self.kinds = collections.Counter()
        self.declared = collections.Counter()  # columns that a VALUES list introduces: may be reported once more each
        self.cte_names = set()  # a CTE that nobody reads may or may not be reported as a table
        self.stmt = stmt
        self._query(stmt, [], True)

    def _query(self, s, ctes, top):
        scope = list(ctes)
        for k, v in s.items():
            if k == "withClause":
                for e in v["ctes"]:
                    cte = e["CommonTableExpr"]
                    if v.get("recursive"):
                        scope = scope + [cte["ctename"]]
                    self.cte_names.add((cte["ctename"], ""))
                    for col in cte.get("aliascolnames", ()):
                        self.declared[cte["ctename"], col["String"]["sval"]] += 1
                    self._query(cte["ctequery"]["SelectStmt"], scope, False)
                    scope = scope + [cte["ctename"]]
        for k, v in s.items():
            if k in ("larg", "rarg"):
                self._query(v, scope, False)
            elif k == "withClause":
                pass
            elif k in ("limitCount", "limitOffset"):
                pass
            else:
                self._walk(v, scope)

    def _walk(self, n, scope):
        if isinstance(n, list):
            for x in n:
                self._walk(x, scope)
            return
        if not isinstance(n, dict):
            return
        for k, v in n.items():
            if k == "ColumnRef":
                nm = names(v)
                if nm[-1] == "*":
                    self.kinds["star"] += 1
                else:
                    self.columns[(nm[-2] if len(nm) > 1 else "", nm[-1])] += 1
                    self.kinds["column"] += 1
                continue
            if k == "RangeVar":
                al = v.get("alias", {}).get("aliasname", "")
                if v["relname"] in scope and "schemaname" not in v:
                    self.tables.add((al or v["relname"], v["relname"] if al else ""))
                else:
                    self.tables.add((al or v["relname"], v["relname"]))
                continue
            if k == "RangeSubselect":
                al = v.get("alias", {}).get("aliasname", "")
                if al:
                    self.tables.add((al, ""))
                    for col in v["alias"].get("colnames", ()):
                        self.declared[al, col["String"]["sval"]] += 1
            if k == "RangeFunction":
                al = v.get("alias", {}).get("aliasname", "")
                if al:
                    self.tables.add((al, ""))
            if k == "SelectStmt":
                self._query(v, scope, False)
                continue
            if k == "SubLink":
                self.kinds["subquery"] += 1
            if k == "CaseExpr":
                self.kinds["case"] += 1
            if k == "A_Const":
                self.kinds["const"] += 1
            if k == "FuncCall":
                self.kinds["window" if "over" in v else "function"] += 1
            if k == "TypeCast":
                self.kinds["cast"] += 1
            if k == "A_ArrayExpr":
                self.kinds["array"] += 1
            self._walk(v, scope)


def top_subqueries(stmt):
    """subqueries of the statement itself: not those inside of others, not the ones of CTEs"""
    out = []

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
        elif isinstance(n, dict):
            for k, v in n.items():
                if k == "withClause":
                    continue
                if k == "RangeSubselect":
                    sub = v["subquery"]["SelectStmt"]
                    if "valuesLists" in sub:
                        go(sub["valuesLists"])
                    else:
                        out.append(sub)
                    continue
                if k == "SubLink":
                    out.append(v["subselect"]["SelectStmt"])
                    go(v.get("testexpr"))
                    continue
                go(v)

    go(stmt)
    return out


def canon_stmt(s):
    return json.dumps(pgast.norm(s), sort_keys=True)


def canon_sql(q):
    return json.dumps(pgast.norm(pgast.raw(str(q))[0]["stmt"]["SelectStmt"]), sort_keys=True)


def nodes(q):
    """all expressions of a query through the uniform child interface, descending into subqueries, CTEs and set operations"""
    out = []

    def expr(e):
        out.append(e)
        for ch in e.iterchildren():
            expr(ch)
        if isinstance(e, qal.SubqueryExpression):
            query(e.query)

    def source(s):
        if isinstance(s, qal.JoinTableSource):
            source(s.left)
            source(s.right)
            if s.join_condition is not None:
                expr(s.join_condition)
        elif isinstance(s, qal.SubqueryTableSource):
            query(s.query)
        elif isinstance(s, qal.ValuesTableSource):
            for row in s.rows:
                for e in row:
                    expr(e)
        elif isinstance(s, qal.FunctionTableSource):
            expr(s.function)

    def query(x):
        if isinstance(x, qal.SetQuery):
            if x.cte_clause:
                clause(x.cte_clause)
            query(x.left_query)
            query(x.right_query)
            if x.orderby_clause:
                clause(x.orderby_clause)
            return
        for cl in x.clauses():
            clause(cl)

    def clause(cl):
        if isinstance(cl, qal.CommonTableExpression):
            for w in cl.queries:
                if isinstance(w, qal.ValuesWithQuery):
                    for row in w.rows:
                        for e in row:
                            expr(e)
                else:
                    query(w.query)
            return
        if isinstance(cl, qal.From):
            for it in cl.items:
                source(it)
            return
        for e in cl.iterexpressions():
            expr(e)

    query(q)
    return out


DERIVED = [
    "SELECT count(*) FROM r HAVING count(*) > 1", "SELECT count(*) FROM r LIMIT 0", "SELECT count(*) FROM r OFFSET 1", "SELECT max(r.a) FROM r GROUP BY r.b", "SELECT DISTINCT count(*) FROM r",
    "SELECT max(r.a) AS m FROM r", "SELECT max(r.a), min(r.b) FROM r", "SELECT max(r.a) OVER () FROM r", "SELECT count(*) FROM r UNION SELECT count(*) FROM s", "SELECT r.a AS x, r.b + r.a AS y, r.b + 1 AS z, 1 AS o FROM r",
    "SELECT r.a + 1, r.b, max(r.c) AS m, 5 FROM r GROUP BY r.a", "SELECT r.a + 1 FROM r UNION SELECT s.b FROM s", "SELECT r.a + 1, r.b, 2 FROM r UNION SELECT 1, s.c, 3 FROM s",
    "WITH c AS (SELECT r.a FROM r) SELECT c.a FROM c UNION SELECT s.a FROM s", "WITH c AS (SELECT r.a FROM r) SELECT s.a FROM s", "SELECT * FROM r WHERE EXISTS (SELECT 1 FROM s, LATERAL (SELECT t.a FROM t WHERE t.b = r.b) AS q)",
    "SELECT * FROM r WHERE r.a IN (SELECT s.a FROM s WHERE s.b = r.b UNION SELECT t.a FROM t)", "SELECT * FROM r, LATERAL (VALUES (r.a)) AS v(i) WHERE EXISTS (SELECT 1 FROM s WHERE s.a = v.i)",
    "SELECT * FROM r WHERE EXISTS (WITH c AS (SELECT s.a FROM s WHERE s.b = r.b) SELECT c.a FROM c)", "SELECT (SELECT r.a + max(s.a) FROM s) FROM r", "SELECT * FROM r WHERE EXISTS (SELECT 1 FROM generate_series(1, r.a) AS g)",
]


def fold(x):
    """references are equal regardless of their case: an answer may have been computed for an equal query with another spelling"""
    if isinstance(x, str):
        return x.lower()
    if isinstance(x, collections.Counter):
        out = collections.Counter()
        for k, v in x.items():
            out[fold(k)] += v
        return out
    if isinstance(x, dict):
        return {fold(k): fold(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset, list, tuple)):
        return type(x)(fold(y) for y in x)
    return x


def name_of(col):
    return (col.table.identifier() if col.table else "", col.name)


def output(stmt):
    """names of the result columns (None: generic name), or None if they depend on the schema"""
    if stmt.get("op") != "SETOP_NONE":
        left, right = output(stmt["larg"]), output(stmt["rarg"])
        if left is None or right is None or len(left) != len(right):
            return None
        return [a or b for a, b in zip(left, right)]
    if "targetList" not in stmt:
        return None
    out = []
    for t in stmt["targetList"]:
        t = t["ResTarget"]
        if "name" in t:
            out.append(t["name"])
        elif "ColumnRef" in t["val"]:
            n = names(t["val"]["ColumnRef"])
            if n[-1] == "*":
                return None
            out.append(n[-1])
        else:
            out.append(None)
    return out


AGGREGATES = {"count", "sum", "min", "max", "avg"}


def scalar(stmt):
    """True/False: the result certainly is/certainly may not be exactly one value; None: not specified"""
    if stmt.get("op") != "SETOP_NONE" or "targetList" not in stmt:
        return False
    if len(stmt["targetList"]) != 1 or "groupClause" in stmt:
        return False
    val = stmt["targetList"][0]["ResTarget"]["val"]
    if "FuncCall" not in val or "over" in val["FuncCall"]:
        return False if set(val) & {"ColumnRef", "A_Const"} or "over" in val.get("FuncCall", ()) else None
    if val["FuncCall"]["funcname"][-1]["String"]["sval"] not in AGGREGATES:
        return None
    if "havingClause" in stmt or "limitCount" in stmt or "limitOffset" in stmt:
        return False
    return None if "distinctClause" in stmt else True


class Scope:
    """the sources a statement (with everything inside of it) introduces, and the qualifiers it uses"""

    def __init__(self, stmt):
        self.bound, self.used, self.ctes, self.reads = set(), set(), set(), set()
        pgast.walk({"SelectStmt": stmt}, self._visit)

    def _visit(self, kind, v, path):
        if kind == "RangeVar":
            self.bound.add(v.get("alias", {}).get("aliasname", "") or v["relname"])
            self.reads.add(v["relname"])
        elif kind in ("RangeSubselect", "RangeFunction") and v.get("alias"):
            self.bound.add(v["alias"]["aliasname"])
        elif kind == "CommonTableExpr":
            self.ctes.add(v["ctename"])
        elif kind == "ColumnRef" and len(v["fields"]) > 1:
            self.used.add(names(v)[-2])


def derived(acc, q, sql):
    """answers that follow from the parts of a query"""
    stmt = pgast.raw(str(q))[0]["stmt"]
    stmt = stmt.get("SelectStmt") or stmt["ExplainStmt"]["query"]["SelectStmt"]
    acc.step()

    def cmp(what, got, want):
        if got != want and fold(got) != fold(want):
            acc.violate(f"{what} {sql}", f"{what} is {got!r} instead of {want!r} for {q}", {"sql": sql})

    want = output(stmt)
    if want is not None:
        n = itertools.count(1)
        got = q.output_columns()
        cmp("output_columns", [(c.name, c.table) for c in got], [(name or f"column_{next(n)}", None) for name in want])
    cmp("is_ordered", q.is_ordered(), "sortClause" in stmt)
    s = scalar(stmt)
    if s is not None:
        cmp("is_scalar", q.is_scalar(), s)
    cmp("is_set_query", q.is_set_query(), stmt.get("op") != "SETOP_NONE")
    scope = Scope(stmt)
    bound, unbound = {t.identifier() for t in q.bound_tables()}, {t.identifier() for t in q.unbound_tables()}
    cmp("bound_tables", bound - scope.ctes, scope.bound - scope.ctes)
    cmp("unbound_tables", unbound, scope.used - scope.bound - scope.ctes)
    cmp("is_dependent", q.is_dependent(), bool(scope.used - scope.bound - scope.ctes))
    if "targetList" in stmt and not q.is_set_query():
        aliased = [t["ResTarget"] for t in stmt["targetList"] if "name" in t["ResTarget"]]
        cmp("local_columns", q.select_clause.local_columns(), {t["name"] for t in aliased})
        want = {}
        for t in aliased:
            ref = Ref({"op": "SETOP_NONE", "targetList": [{"ResTarget": t}]})
            if len(ref.columns) == 1:
                want[t["name"]] = next(iter(ref.columns))
        cmp("output_names", {k: name_of(v) for k, v in q.select_clause.output_names().items()}, want)
        plain = any(isinstance(f, dict) and "JoinExpr" in f for f in stmt.get("fromClause", ()))
        other = any(isinstance(f, dict) and "RangeVar" not in f for f in stmt.get("fromClause", ()))
        if not other:
            cmp("is_implicit", (q.is_implicit(), q.is_explicit()) if stmt.get("fromClause") else True, (True, False) if stmt.get("fromClause") else True)
        elif plain:
            cmp("is_implicit", q.is_implicit(), False)


def questions(acc, sql):
    try:
        q = pb.parse_query(sql, bind_columns=False)
    except Exception:  # noqa: BLE001
        acc.case(None, "rejected")
        return
    acc.case(sql, "answered")
    todo, seen = [q], set()
    while todo:
        x = todo.pop()
        if str(x) in seen:
            continue
        seen.add(str(x))
        try:
            derived(acc, x, sql)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise-derived {sql}", f"{short(e)} for {x}", {"sql": sql})
            return
        todo.extend(x.subqueries())
        if x.is_set_query():
            todo.extend([x.left_query, x.right_query])
        elif x.cte_clause:
            todo.extend(w.query for w in x.cte_clause.queries)


def judge(acc, sql):
    try:
        raw = pgast.raw(sql)[0]["stmt"]
    except Exception:  # noqa: BLE001
        return
    stmt = raw.get("SelectStmt") or raw["ExplainStmt"]["query"]["SelectStmt"]
    try:
        q = pb.parse_query(sql, bind_columns=False)
    except Exception:  # noqa: BLE001
        acc.case(None, "rejected")
        return
    ref = Ref(stmt)
    acc.case(sql, "set" if q.is_set_query() else "select")

    def cmp(what, got, want):
        acc.step()
        if got != want and fold(got) != fold(want):
            if isinstance(want, collections.Counter):
                more, less = got - want, want - got
            else:
                more, less = set(got) - set(want), set(want) - set(got)
            acc.violate(f"{what} {sql}", f"missing {sorted(map(str, less))[:4]} additional {sorted(map(str, more))[:4]}", {"sql": sql})

    try:
        for rep in range(2):
            cols = collections.Counter(name_of(x) for x in q.itercolumns())
            for col, n in ref.declared.items():
                if cols[col] == ref.columns[col] + n:
                    cols[col] -= n
            cmp(f"itercolumns{rep}", +cols, ref.columns)
            cmp(f"columns{rep}", {name_of(x) for x in q.columns()} - (set(ref.declared) - set(ref.columns)), set(ref.columns))
            unread = ref.cte_names - ref.tables
            cmp(f"tables{rep}", {(t.identifier(), t.full_name) for t in q.tables()} - unread, ref.tables)
            subs = sorted(canon_sql(x) for x in q.subqueries())
            want = sorted({canon_stmt(x) for x in top_subqueries(stmt)})
            cmp(f"subqueries{rep}", collections.Counter(subs), collections.Counter(want))
            for coll in (q.columns(), q.tables(), q.subqueries()):
                if hasattr(coll, "clear"):
                    coll.clear()  # what the caller does with an answer must not matter
        ns = nodes(q)
        kinds = collections.Counter()
        for e in ns:
            kinds["column"] += isinstance(e, qal.ColumnExpression)
            kinds["star"] += isinstance(e, qal.StarExpression)
            kinds["subquery"] += isinstance(e, qal.SubqueryExpression)
            kinds["case"] += isinstance(e, qal.CaseExpression)
            kinds["const"] += isinstance(e, qal.StaticValueExpression)
            kinds["window"] += isinstance(e, qal.WindowExpression)
            kinds["cast"] += isinstance(e, qal.CastExpression)
            kinds["array"] += isinstance(e, qal.ArrayExpression)
        for k in ("column", "subquery", "case", "window", "array"):
            cmp(f"nodes-{k}", +collections.Counter({k: kinds[k]}), +collections.Counter({k: ref.kinds[k]}))
    except Exception as e:  # noqa: BLE001
        acc.violate(f"raise {sql}", short(e), {"sql": sql})


def run(c):
    def over(gen, judge=judge):
        def fn(acc, i, k):
            for sql in sliced(gen(), i, k):
                judge(acc, sql)

        return fn

    c.part("constructs x positions", over(sp.singles))
    c.part("clauses", over(sp.single_clauses))
    c.part("set operations", over(sp.setops))
    c.part("nesting", over(sp.nested))
    c.part("derived answers", over(lambda: itertools.chain(DERIVED, sp.singles(), sp.single_clauses(), sp.setops(), sp.nested(), astmut.neighbourhood()), questions))
    c.part("single edits of the parse tree", over(astmut.neighbourhood))
    c.part("clause products", over(lambda: sp.clauses(c.thorough)))


c = Check(
    "P03", "model_checking",
    "every construct at every position, clause combination and nesting of the query grammar, compared with a walk over PostgreSQL's parse tree; each question is asked twice with the first answer destroyed in between",
    ["pglast's parse tree is what the text means", "CTE names are tables of the query that defines them"],
)
c.main(run)
