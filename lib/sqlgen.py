"""Bounded exhaustive SQL generator (text level) used by several checks.

Everything is deterministic; the alphabets are written simplest first. Column references are fully qualified
(the unqualified variants are covered by the binding check)."""
from __future__ import annotations

import itertools

# ---- expressions over r (and s) -------------------------------------------------------------------------------
ATOMS = ["r.a", "1", "r.b"]
ATOMS_X = ATOMS + ["NULL", "'x''y'", "TRUE", "2.5", "-1", "'/x'", "''"]
BINOPS = ["+", "-", "*", "/", "%", "||"]


def math(level: int, atoms=None):
    """all arithmetic expressions with nesting <= level over the operators; parentheses explicit everywhere."""
    atoms = atoms or ATOMS
    if level == 0:
        yield from atoms
        return
    yield from atoms
    sub = list(math(level - 1, atoms))
    for op in BINOPS:
        for l, r in itertools.product(sub, sub):
            yield f"({l}) {op} ({r})" if level > 1 else f"{l} {op} {r}"
    for l in sub:
        yield f"-({l})"


def math_small(level: int):
    ops = ["+", "-", "*", "/", "%"]
    atoms = ["r.a", "2"]
    if level == 0:
        yield from atoms
        return
    sub = list(math_small(level - 1))
    yield from sub
    for op in ops:
        for l, r in itertools.product(sub, sub):
            yield f"({l}) {op} ({r})"
    for l in sub:
        yield f"-({l})"


EXPRS = [
    "r.a", "1", "0", "-1", "2.5", "1000000", "NULL", "TRUE", "FALSE", "'x'", "'x''y'", "''", "'a b'", "'%a_'", "'--x'", "'/x'",
    "r.a + 1", "r.a - r.b - 1", "r.a - (r.b - 1)", "(r.a + r.b) * 2", "r.a + r.b * 2", "r.a / (r.b * 2)", "r.a % 2", "-r.a", "- (r.a + 1)",
    "r.a || 'x'", "(r.a || 'x') || r.b", "r.a || ('x' || r.b)",
    "lower(r.c)", "coalesce(r.a, r.b, 0)", "substr(r.c, 1, 2)", "now()", "concat(r.a, concat(r.b, 'x'))",
    "r.a::text", "CAST(r.a + 1 AS text)", "r.a::text::int", "CAST(r.a AS numeric(10, 2))", "CAST(r.c AS varchar(5))", "(r.a + 1)::int - 2", "r.a::int[]", "(-1)::text", "CAST(-1 AS text)", "left(r.c, 2)", "myschema.f(r.a)", "CAST(r.a AS numeric(5)[])", "CAST(r.a AS double precision)", "1e3", "99999999999", "9223372036854775807", "-(-1)", "- -r.a", "r.a - -1", "-(-(-r.a))",
    "CASE WHEN r.a = 1 THEN 2 END", "CASE WHEN r.a = 1 THEN 2 ELSE 3 END", "CASE WHEN r.a = 1 THEN 2 WHEN r.b < 3 AND r.a > 0 THEN r.b ELSE r.a + 1 END",
    "CASE r.a WHEN 1 THEN 2 WHEN 2 THEN 3 ELSE 4 END", "CASE r.a WHEN 1 THEN 'x' END", "CASE WHEN r.a = 1 OR r.b = 2 THEN CASE WHEN r.a = 2 THEN 1 END ELSE 0 END",
    "CASE WHEN r.a = 1 THEN 2 END + 1",
    "(SELECT 1)", "(SELECT max(s.d) FROM s)", "(SELECT s.d FROM s WHERE s.a = r.a LIMIT 1)", "1 + (SELECT 2)",
    "ARRAY[1, 2]", "ARRAY[r.a, r.b + 1]", "r.a[1]", "r.a[1:2]", "r.a[:2]", "r.a[1:]", "(ARRAY[1, 2])[1]", "r.a[r.b + 1]", "r.a[1][2]",
    "r.a = 1", "r.a = 1 AND r.b = 2", "r.a < r.b OR r.a = 1", "NOT r.a = 1", "r.a IS NULL", "r.a IN (1, 2)", "EXISTS (SELECT 1 FROM s WHERE s.a = r.a)",
    "(r.a = 1) = TRUE", "r.a BETWEEN 1 AND 2",
    "extract(year FROM r.a)", "date '2020-01-01'", "interval '1 day'", "r.a + interval '1 day'", "CAST(NULL AS int)",
]
AGGS = [
    "count(*)", "count(r.a)", "count(DISTINCT r.a)", "sum(r.a + 1)", "min(r.a) + max(r.b)", "count(*) FILTER (WHERE r.a = 1)",
    "sum(r.a) FILTER (WHERE r.a = 1 AND r.b = 2)", "avg(CASE WHEN r.a = 1 THEN r.b END)", "sum(DISTINCT r.a) FILTER (WHERE r.b IS NULL)",
    "array_agg(r.a)", "string_agg(r.c, ', ')",
]
WINDOWS = [
    "count(*) OVER ()", "rank() OVER (ORDER BY r.a)", "sum(r.a) OVER (PARTITION BY r.b)", "sum(r.a) OVER (PARTITION BY r.b, r.c ORDER BY r.a DESC, r.b)",
    "row_number() OVER (ORDER BY r.a DESC NULLS LAST)", "sum(r.a) FILTER (WHERE r.b = 1) OVER (PARTITION BY r.a + 1)", "lag(r.a, 1) OVER (ORDER BY r.b)",
    "sum(r.a) OVER () + 1", "max(sum(r.a)) OVER ()",
]

# ---- predicates -----------------------------------------------------------------------------------------------------
CMP = ["=", "<>", "!=", "<", "<=", ">", ">="]
BASE_PREDS = (
    [f"r.a {op} 1" for op in CMP]
    + [
        "r.a = r.b", "1 = r.a", "r.a + 1 = r.b * 2", "r.a = -1", "r.a = 'x''y'", "r.a = '/* x */'", "r.a = '-- y'",
        "r.a BETWEEN 1 AND 2", "r.a BETWEEN r.b AND r.b + 1", "r.a + 1 BETWEEN 1 AND (SELECT max(s.d) FROM s)",
        "r.a IN (1, 2)", "r.a IN (1)", "r.a IN (1, r.b + 1)", "r.a NOT IN (1, 2)", "r.a NOT IN (1)", "r.a IN (SELECT s.a FROM s)", "r.a NOT IN (SELECT s.a FROM s)",
        "r.a IN (SELECT s.a FROM s WHERE s.d = r.b)", "r.a IN ('x', 'y')", "r.a IN (3, 1, 2)",
        "r.c LIKE 'x%'", "r.c NOT LIKE 'x%'", "r.c ILIKE '%x'", "r.c NOT ILIKE '%x'", "r.c LIKE '%''%'", "r.c ~ 'x'", "r.c SIMILAR TO 'x'",
        "r.a IS NULL", "r.a IS NOT NULL", "r.a + 1 IS NULL", "(r.a = 1) IS NULL", "r.a IS DISTINCT FROM 1", "r.a IS NOT DISTINCT FROM r.b",
        "EXISTS (SELECT 1 FROM s)", "NOT EXISTS (SELECT 1 FROM s WHERE s.a = r.a)", "r.a = (SELECT max(s.d) FROM s)", "r.a < (SELECT s.d FROM s WHERE s.a = r.a)",
        "r.a = ANY (ARRAY[1, 2])", "r.a = ALL (ARRAY[1, 2])", "r.a < ANY (SELECT s.a FROM s)", "r.a >= ALL (SELECT s.a FROM s WHERE s.d = r.b)", "r.a <> ALL (SELECT s.a FROM s)",
        "TRUE", "r.a", "lower(r.c) = 'x'", "starts_with(r.c, 'x')", "r.c::int = 1", "r.a = 1.5", "(r.a = 1) = (r.b = 2)", "(r.a = 1 AND r.b = 2) = TRUE", "r.a = (r.b = 1)",
        "CASE WHEN r.a = 1 THEN TRUE ELSE FALSE END", "(r.a = 1 OR r.b = 2) IS NULL", "(NOT r.a = 1) IS NULL", "r.a = (r.b IS NULL)", "(NOT r.a = 1) = TRUE",
        "(r.a, r.b) = (1, 2)", "(r.a, r.b) IN ((1, 2), (3, 4))", "r.a NOT BETWEEN 1 AND 2", "r.a IS TRUE", "r.a IS NOT FALSE", "r.a <= ALL (ARRAY[r.b, 2])", "r.a IN (-1, 0)", "-r.a = 1",
        "date_part('year', r.a) = 2020", "r.a = CAST('1' AS int)", "r.a % 2 = 0", "r.a IN ((SELECT 1), 2)", "r.a = 99999999999",
    ]
)
LOGIC_ATOMS = ["r.a = 1", "r.b < 2", "r.c IS NULL"]


def logic(level: int, atoms=None):
    """all AND/OR/NOT combinations with nesting <= level (AND/OR binary and ternary at the top)."""
    atoms = atoms or LOGIC_ATOMS
    if level == 0:
        yield from atoms
        return
    sub = list(logic(level - 1, atoms))
    yield from sub
    for op in ("AND", "OR"):
        for l, r in itertools.product(sub, sub):
            yield f"({l}) {op} ({r})"
    for x in sub:
        yield f"NOT ({x})"


def logic3():
    for op1, op2 in itertools.product(("AND", "OR"), repeat=2):
        for a, b, c in itertools.permutations(LOGIC_ATOMS):
            yield f"{a} {op1} {b} {op2} {c}"
            yield f"{a} {op1} ({b} {op2} {c})"
            yield f"NOT {a} {op1} {b} {op2} NOT {c}"
            yield f"NOT ({a} {op1} {b}) {op2} {c}"


# ---- FROM -----------------------------------------------------------------------------------------------------------
REL = ["r", "s", "t"]
JOINS_ON = ["JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN", "FULL OUTER JOIN"]
FROM_SINGLE = [
    "r", "r AS x", "r x", "public.r", "public.r AS x", '"R"', '"r x"', '"R" AS "X"', "r AS r2",
    "(SELECT r.a FROM r) AS q", "(SELECT r.a, r.b FROM r WHERE r.a = 1 ORDER BY r.b LIMIT 3) q",
    "(VALUES (1, 2), (3, 4)) AS v(x, y)", "(VALUES (1)) AS v(x)", "generate_series(1, 10) AS g", "generate_series(1, 10)", "(SELECT 1 AS one) q",
    "(SELECT r.a FROM r UNION SELECT s.a FROM s) AS q", "(WITH c AS (SELECT s.a FROM s) SELECT c.a FROM c) AS q",
    "(VALUES (1, 'x')) AS v", 
]
FROM_MULTI = (
    ["r, s", "r, s, t", "r AS x, r AS y", "r, (SELECT s.a FROM s) AS q", "r, (VALUES (1)) AS v(x)", "r, generate_series(1, 2) AS g", "r, LATERAL (SELECT s.a FROM s WHERE s.a = r.a) AS q", "public.r, public.s AS s2"]
    + [f"r {j} s ON r.a = s.a" for j in JOINS_ON]
    + ["r CROSS JOIN s", "r JOIN s ON TRUE", "r JOIN s ON r.a = s.a AND r.b < s.d", "r JOIN s ON r.a = s.a OR r.b = 1", "r LEFT JOIN s ON NOT (r.a = s.a AND r.b = 1)"]
    + [f"r {j} s ON r.a = s.a {k} t ON t.b = s.a" for j in ("JOIN", "LEFT JOIN", "FULL JOIN") for k in ("JOIN", "LEFT JOIN", "RIGHT JOIN")]
    + [f"r {j} (s {k} t ON t.b = s.a) ON r.a = s.a" for j in ("JOIN", "LEFT JOIN", "FULL JOIN") for k in ("JOIN", "LEFT JOIN", "RIGHT JOIN")]
    + ["r CROSS JOIN s CROSS JOIN t", "r CROSS JOIN (s CROSS JOIN t)", "r CROSS JOIN (s LEFT JOIN t ON s.a = t.b)", "r LEFT JOIN (SELECT s.a FROM s) AS q ON r.a = q.a", "r JOIN LATERAL (SELECT s.a FROM s WHERE s.a = r.a) AS q ON TRUE",
       "r LEFT JOIN LATERAL (SELECT s.a FROM s WHERE s.a = r.a) AS q ON TRUE", "r CROSS JOIN LATERAL (SELECT s.a FROM s WHERE s.a = r.a) AS q",
       "r JOIN s ON r.a = s.a, t", "t, r JOIN s ON r.a = s.a", "r JOIN s ON r.a = s.a, t JOIN u ON t.b = u.b", "r AS x JOIN r AS y ON x.a = y.b", "(r JOIN s ON r.a = s.a)", "(r LEFT JOIN s ON r.a = s.a) JOIN t ON t.b = s.a",
       "(r JOIN s ON r.a = s.a) JOIN (t JOIN u ON t.b = u.b) ON s.a = t.b", "r JOIN (VALUES (1)) AS v(x) ON r.a = v.x", "public.r JOIN public.s AS z ON r.a = z.a", "r LEFT JOIN generate_series(1, 3) AS g ON TRUE"]
)
FROM_REJECT = [  # constructs the query model cannot express: have to be rejected rather than changed
    "r NATURAL JOIN s", "r NATURAL LEFT JOIN s", "r JOIN s USING (a)", "r LEFT JOIN s USING (a)", "r FULL JOIN s USING (a, b)", "r AS x(p, q)", "(SELECT r.a FROM r) AS q(z)", "ONLY r", "generate_series(1, 10) AS g(x)",
    "generate_series(1, 10) WITH ORDINALITY AS g", "(r JOIN s ON r.a = s.a) AS j", "r TABLESAMPLE bernoulli (10)", "ROWS FROM (generate_series(1, 2), generate_series(1, 3)) AS g",
    "r JOIN s USING (a) AS ju",
]

# ---- whole queries -----------------------------------------------------------------------------------------------------
SELECTS = ["*", "r.*", "r.a", "r.a AS x", "r.a, r.b", 'r.a AS "X y"', "DISTINCT r.a", "DISTINCT r.a, r.b AS z", "DISTINCT *", "DISTINCT ON (r.a) r.b", "DISTINCT ON (r.a, r.b + 1) r.a, r.b", "count(*)", "count(DISTINCT r.a) AS c", "r.*, r.a", "1 AS one, r.a"]
GROUPS = ["", "GROUP BY r.a", "GROUP BY r.a, r.b", "GROUP BY r.a + 1", "GROUP BY 1", "GROUP BY ()", "GROUP BY ROLLUP (r.a)", "GROUP BY CUBE (r.a, r.b)", "GROUP BY GROUPING SETS ((r.a), (r.b))", "GROUP BY DISTINCT r.a"]
HAVINGS = ["", "HAVING count(*) > 1", "HAVING sum(r.a) = 2 AND count(*) > 1", "HAVING count(*) > 1 OR min(r.b) = 1", "HAVING NOT count(*) = 1"]
ORDERS = ["", "ORDER BY r.a", "ORDER BY r.a ASC", "ORDER BY r.a DESC", "ORDER BY r.a NULLS FIRST", "ORDER BY r.a DESC NULLS LAST", "ORDER BY r.a, r.b DESC", "ORDER BY r.a + 1", "ORDER BY 1", "ORDER BY count(*) DESC", "ORDER BY r.a ASC NULLS FIRST, r.b NULLS LAST", "ORDER BY r.a USING <"]
LIMITS = ["", "LIMIT 1", "LIMIT 10", "LIMIT 0", "OFFSET 2", "OFFSET 0", "LIMIT 1 OFFSET 2", "LIMIT 1 OFFSET 0", "LIMIT 0 OFFSET 3", "OFFSET 2 LIMIT 1", "FETCH FIRST 3 ROWS ONLY", "FETCH NEXT 3 ROWS ONLY", "OFFSET 1 ROWS FETCH FIRST 3 ROWS ONLY", "LIMIT ALL", "LIMIT ALL OFFSET 2", "LIMIT 1 + 1", "LIMIT NULL", "FETCH FIRST ROW ONLY", "FETCH FIRST 3 ROWS WITH TIES", "OFFSET 1 ROWS FETCH FIRST 1 ROW WITH TIES", "LIMIT 99999999999"]
CTES = [
    "", "WITH c AS (SELECT s.a FROM s)", "WITH c AS (SELECT s.a FROM s), d AS (SELECT c.a FROM c)", "WITH c AS MATERIALIZED (SELECT s.a FROM s)", "WITH c AS NOT MATERIALIZED (SELECT s.a FROM s)",
    "WITH RECURSIVE c AS (SELECT 1 AS a UNION ALL SELECT c.a + 1 FROM c WHERE c.a < 5)", "WITH RECURSIVE c AS (SELECT s.a FROM s)", "WITH c AS (VALUES (1, 2), (3, 4))", "WITH c(x, y) AS (VALUES (1, 2), (3, 4))", "WITH c(x) AS MATERIALIZED (VALUES (1))",
    "WITH c AS (SELECT s.a FROM s ORDER BY s.a LIMIT 3)", "WITH c AS (SELECT s.a FROM s UNION SELECT t.b FROM t)", "WITH c AS (WITH d AS (SELECT s.a FROM s) SELECT d.a FROM d)", "WITH c(x) AS (SELECT s.a FROM s)", "WITH c AS MATERIALIZED (SELECT s.a FROM s), d AS NOT MATERIALIZED (SELECT t.b FROM t)",
    "WITH c(x) AS (VALUES (1)), d AS (SELECT t.b FROM t)", "WITH d AS (SELECT t.b FROM t), c(x) AS (VALUES (1))", "WITH RECURSIVE c(x) AS (VALUES (1))", 'WITH "C" AS (SELECT s.a FROM s)',
]
SETOPS = ["UNION", "UNION ALL", "INTERSECT", "EXCEPT", "INTERSECT ALL", "EXCEPT ALL"]
OPERANDS = ["SELECT r.a FROM r", "SELECT s.a FROM s WHERE s.d = 1", "SELECT t.b FROM t"]
PREFIXES = ["", "EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (FORMAT JSON) ", "EXPLAIN (ANALYZE, FORMAT JSON) ", "EXPLAIN (ANALYZE, FORMAT TEXT) ", "EXPLAIN (FORMAT XML) ", "EXPLAIN (FORMAT YAML) ", "EXPLAIN (ANALYZE FALSE) ", "EXPLAIN VERBOSE ", "EXPLAIN (ANALYZE, BUFFERS) ", "EXPLAIN (COSTS OFF) ", "EXPLAIN (ANALYZE TRUE, FORMAT JSON) ", "EXPLAIN (FORMAT 'json') "]
REJECT_TAILS = ["FOR UPDATE", "FOR SHARE OF r", "WINDOW w AS (PARTITION BY r.a)"]
REJECT_EXPRS = [
    "sum(r.a) OVER (ORDER BY r.b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)", "sum(r.a) OVER (ORDER BY r.b ROWS UNBOUNDED PRECEDING)", "sum(r.a) OVER (ORDER BY r.b RANGE BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING)", "array_agg(r.a ORDER BY r.b)", "string_agg(r.c, ',' ORDER BY r.a DESC)", "percentile_cont(0.5) WITHIN GROUP (ORDER BY r.a)",
    "sum(DISTINCT r.a) OVER (PARTITION BY r.b)", "r.c COLLATE \"C\"", "ROW(1, 2)", "NULLIF(r.a, 1)", "GREATEST(r.a, r.b)", "f(x => 1)", "sum(VARIADIC r.a)", "1e10", "12345678901234567890.5", "B'101'", "ARRAY(SELECT 1)", "(SELECT 1) IS NULL", "r.a AT TIME ZONE 'UTC'", "CURRENT_DATE", "CURRENT_TIMESTAMP", "x'1F'", "GROUPING(r.a)", "ARRAY[]::int[]", "$1", "r.a::int[3]", "r.a::int[][]", "pg_catalog.lower(r.c)", "\"Foo\"(r.a)", "(r).a", "(SELECT r.a).b", "r.a -> 'x'", "r.a ->> 'x'", "r.a @> r.b", "@ r.a", "~ r.a", "+ r.a", "r.a ^ 2", "r.a & 1", "r.a << 2", "r.a # 2", "E'\\\\n'", "U&'d'", "'a\\b'", "TRIM(r.c)", "SUBSTRING(r.c FROM 1 FOR 2)", "POSITION('x' IN r.c)", "OVERLAY(r.c PLACING 'x' FROM 1)", "xmlelement(name foo)", "r.a IS OF (int)", "r.c IS JSON", "1 = ANY('{1,2}')", "CAST(r.a AS timestamp with time zone)", "CAST(r.a AS char(3))", "CAST(r.a AS interval day)", "CAST(r.a AS myschema.mytype)", "CAST(r.a AS \"MyType\")", "CAST(r.a AS bit(3))", "CAST(r.a AS numeric(5)[])", "CAST(r.a AS varchar(5)[])", "CAST(r.a AS boolean)", "CAST(r.a AS float)", "CAST(r.a AS json)",
]


def wrap_expr(e: str) -> str:
    return f"SELECT {e} FROM r"


def where(p: str) -> str:
    return f"SELECT * FROM r WHERE {p}"


# ---- one untyped expression grammar (PostgreSQL's grammar is type agnostic): every nesting of these forms ------------------
def forms(l, r=None):
    """unary forms over l (r None) or binary forms over l and r."""
    if r is None:
        yield f"-({l})"
        yield f"({l}) IS NULL"
        yield f"({l}) IS NOT NULL"
        yield f"NOT ({l})"
        yield f"f({l})"
        yield f"CAST({l} AS text)"
        yield f"(SELECT {l})"
        yield f"sum({l})"
        yield f"({l}) IN (SELECT s.a FROM s)"
        yield f"({l}) NOT IN (1, 2)"
        return
    for op in ("+", "-", "*", "/", "%", "||", "=", "<", "<>", ">=", "LIKE", "NOT LIKE", "AND", "OR", "IS DISTINCT FROM"):
        yield f"({l}) {op} ({r})"
    yield f"({l}) IN (({r}), 1)"
    yield f"({l}) NOT IN (({r}))"
    yield f"({l}) BETWEEN ({r}) AND 1"
    yield f"1 BETWEEN ({l}) AND ({r})"
    yield f"CASE WHEN ({l}) THEN ({r}) ELSE 0 END"
    yield f"CASE ({l}) WHEN 1 THEN 0 ELSE ({r}) END"
    yield f"f(({l}), ({r}))"
    yield f"({l}) = ANY (ARRAY[({r})])"
    yield f"sum({l}) FILTER (WHERE ({r}))"
    yield f"sum({l}) OVER (PARTITION BY ({r}))"


def rare_forms(l, r=None):
    """more forms: array operators, subscripts, casts"""
    if r is None:
        yield f"({l})[1]"
        yield f"({l})[1:2]"
        yield f"({l})[1][2]"
        yield f"({l})[1:2][2:]"
        yield f"CAST({l} AS integer[])"
        yield f"ARRAY[({l}), 1]"
        yield f"(({l}))::numeric(3, 1)"
        yield f"sum(DISTINCT {l})"
        yield f"(SELECT s.a FROM s WHERE ({l}))"
        yield f"EXISTS (SELECT s.a FROM s WHERE s.a = ({l}))"
        return
    for op in ("&&", "@>", "<@", "ILIKE", "NOT ILIKE", "IS NOT DISTINCT FROM", "!=", "<=", ">"):
        yield f"({l}) {op} ({r})"
    yield f"({l})[({r})]"
    yield f"({l})[({r}):]"
    yield f"({l})[:({r})]"
    yield f"({l})[({r}):1]"
    yield f"CASE WHEN 1 THEN ({l}) WHEN ({r}) THEN 2 END"
    yield f"({l}) < ALL (SELECT ({r}))"
    yield f"({l}) IN (SELECT ({r}))"
    yield f"({l}) = ALL (({r}))"
    yield f"sum({l}) OVER (ORDER BY ({r}) DESC)"
    yield f"sum(({l}), ({r})) FILTER (WHERE ({l}))"


def untyped(level, atoms=("r.a", "1")):
    if level == 0:
        return list(atoms)
    sub = untyped(level - 1, atoms)
    out = list(sub)
    for x in sub:
        out.extend(forms(x))
    for x, y in itertools.product(sub, sub):
        out.extend(forms(x, y))
    return list(dict.fromkeys(out))


def untyped_thin(level):
    """one more nesting level than `untyped`, with at most one compound operand per form."""
    base = untyped(level - 1, ("r.a", "1"))
    for x in base:
        yield from forms(x)
        yield from forms(x, "r.b")
        yield from forms("r.b", x)
