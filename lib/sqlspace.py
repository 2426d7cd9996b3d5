"""Spaces of whole queries (shared by the parsing, introspection, equality and transformation checks)."""
import itertools
import re

import sqlgen as g

# ---- spaces --------------------------------------------------------------------------------------------------------------
def singles():
    for e in g.EXPRS + g.AGGS + g.WINDOWS:
        yield f"SELECT {e} FROM r"
        yield f"SELECT {e} AS x, r.b FROM r"
        yield f"SELECT r.a FROM r ORDER BY {e}, r.b DESC"
        yield f"SELECT r.a FROM r GROUP BY {e}"
        yield f"SELECT r.a FROM r WHERE {e} = {e}"
        yield f"SELECT r.a FROM r GROUP BY r.a HAVING {e} > 1"
        yield f"SELECT DISTINCT ON ({e}) r.a FROM r"
        yield f"SELECT CASE WHEN r.a = 1 THEN {e} ELSE {e} END FROM r"
        yield f"SELECT * FROM r WHERE r.a IN ({e}, 1) AND r.b BETWEEN {e} AND 10"
        if "r." not in e:
            yield f"SELECT * FROM (VALUES ({e}, 1), (2, {e})) AS v(x, y)"
        yield f"SELECT * FROM r WHERE EXISTS (SELECT {e} FROM s WHERE s.a = r.a)"
    for p in SUPPORTED_PREDS:
        yield f"SELECT * FROM r WHERE {p}"
        yield f"SELECT * FROM r WHERE NOT ({p})"
        yield f"SELECT * FROM r WHERE ({p}) AND r.b = 1"
        yield f"SELECT * FROM r WHERE ({p}) OR r.b = 1"
        yield f"SELECT * FROM r WHERE r.b = 1 OR NOT ({p})"
        yield f"SELECT * FROM r JOIN s ON {p}"
        yield f"SELECT * FROM r GROUP BY r.a HAVING {p}"
        yield f"SELECT count(*) FILTER (WHERE {p}), CASE WHEN {p} THEN 1 END FROM r"
        yield f"SELECT ({p}) AS x FROM r"
        yield f"SELECT * FROM r WHERE ({p}) IS NULL"
        yield f"SELECT * FROM r WHERE ({p}) = ({p})"
    for f in g.FROM_SINGLE + FROM_MULTI:
        yield f"SELECT * FROM {f}"
        yield f"SELECT 1 AS one FROM {f} WHERE 1 = 1"
        yield f"SELECT * FROM u WHERE u.z IN (SELECT 1 FROM {f})"
        yield f"SELECT * FROM (SELECT 1 AS k FROM {f}) AS w, u"
        yield f"WITH w AS (SELECT 1 AS k FROM {f}) SELECT w.k FROM w"
        yield f"SELECT 1 FROM {f} UNION SELECT u.z FROM u"
    for s in g.SELECTS:
        for f in ("r", "r, s", "r JOIN s ON r.a = s.a"):
            yield f"SELECT {s} FROM {f}"
    for s in g.SELECTS:
        if "r." not in s and s != "*" and "*" not in s:
            yield f"SELECT {s}"
    yield "SELECT 1"
    yield "SELECT 1 AS a, 'x' AS b"


SUPPORTED_PREDS = [
    p
    for p in g.BASE_PREDS
    if p not in {"r.c ~ 'x'", "r.c SIMILAR TO 'x'", "(r.a, r.b) = (1, 2)", "(r.a, r.b) IN ((1, 2), (3, 4))", "r.a NOT BETWEEN 1 AND 2", "r.a IS TRUE", "r.a IS NOT FALSE"}
]
FROM_MULTI = [f for f in g.FROM_MULTI if f != "r JOIN s ON r.a = s.a, t JOIN u ON t.b = u.b"]
GROUPS = g.GROUPS[:5]
ORDERS = g.ORDERS[:-1]
LIMITS = [x for x in g.LIMITS if "TIES" not in x and x != "LIMIT 1 + 1"]
PREFIXES = [x for x in g.PREFIXES if not re.search("VERBOSE|BUFFERS|COSTS", x)]
SETOPS = g.SETOPS[:4]


def clauses(full):
    sel = ["*", "r.a, count(*) AS c", "DISTINCT r.a, r.b", "DISTINCT ON (r.a) r.b"]
    frm = ["r", "r, s AS s2", "r LEFT JOIN s ON r.a = s.a AND s.d = 1", "r, (SELECT s.a FROM s WHERE s.d = 1) AS q"]
    whr = ["", "WHERE r.a = 1", "WHERE (r.a = 1 OR r.b < 2) AND NOT (r.a = 2 AND r.b IS NULL)"]
    grp = ["", "GROUP BY r.a, r.b + 1"]
    hav = ["", "HAVING count(*) > 1 AND min(r.a) = 2"]
    odr = ["", "ORDER BY r.a DESC NULLS LAST, r.b"]
    lim = ["", "LIMIT 3", "LIMIT 0 OFFSET 2", "OFFSET 4"]
    cte = ["", "WITH c AS MATERIALIZED (SELECT s.a FROM s), d(x) AS (VALUES (1), (2))"]
    pre = ["", "EXPLAIN ", "EXPLAIN (ANALYZE, FORMAT JSON) "]
    for c, s, f, w, gr, h, o, l, p in itertools.product(cte, sel, frm, whr, grp, hav, odr, lim, pre):
        if not full and p and (c or gr):
            continue
        yield f"{p}{c} {s and 'SELECT ' + s} FROM {f} {w} {gr} {h} {o} {l}"


def single_clauses():
    for p, l in itertools.product(PREFIXES, LIMITS):
        yield f"{p}SELECT r.a FROM r {l}"
    for o, l in itertools.product(ORDERS, LIMITS):
        yield f"SELECT r.a FROM r {o} {l}"
    for gr, h, o in itertools.product(GROUPS, g.HAVINGS, ORDERS):
        yield f"SELECT r.a FROM r {gr} {h} {o}"
    for c in g.CTES:
        for body in ("SELECT * FROM r", "SELECT c.a FROM c", "SELECT * FROM r, c AS c2 WHERE r.a = c2.a", "SELECT r.a FROM r UNION SELECT 1 FROM c ORDER BY 1 LIMIT 2"):
            for p in ("", "EXPLAIN ", "EXPLAIN ANALYZE "):
                yield f"{p}{c} {body}"
            if c:
                yield f"SELECT * FROM ({c} {body}) AS sub"
                yield f"SELECT * FROM u WHERE u.z IN ({c} {body})"


MODS = ["", "ORDER BY {0}", "LIMIT 1", "ORDER BY {0} DESC LIMIT 2 OFFSET 1"]


def setops():
    for p in ("", "EXPLAIN ", "EXPLAIN ANALYZE ", "WITH c AS (SELECT s.a FROM s) "):
        for op in SETOPS:
            for tail in ("", "ORDER BY a", "LIMIT 2", "ORDER BY a DESC NULLS LAST OFFSET 1", "ORDER BY 1 LIMIT 0"):
                for lm, rm in itertools.product(MODS, MODS):
                    yield f"{p}(SELECT r.a FROM r {lm.format('r.a')}) {op} (SELECT s.a FROM s {rm.format('s.a')}) {tail}"
                yield f"{p}SELECT r.a FROM r WHERE r.b = 1 {op} SELECT s.a FROM s WHERE s.d = 1 {tail}"
                yield f"{p}(WITH w AS (SELECT t.b FROM t) SELECT w.b FROM w) {op} (WITH w AS (SELECT t.b FROM t) SELECT w.b FROM w) {tail}"
    a, b, c, d = "SELECT r.a FROM r", "SELECT s.a FROM s WHERE s.d = 1", "SELECT t.b FROM t", "SELECT u.z FROM u"
    for o1, o2 in itertools.product(SETOPS, SETOPS):
        for tail in ("", "ORDER BY a LIMIT 1"):
            yield f"{a} {o1} {b} {o2} {c} {tail}"
            yield f"({a} {o1} {b}) {o2} {c} {tail}"
            yield f"{a} {o1} ({b} {o2} {c}) {tail}"
            yield f"{a} {o1} ({b} {o2} {c} LIMIT 1) {tail}"
            yield f"SELECT * FROM ({a} {o1} ({b} {o2} {c})) AS q"
            yield f"SELECT * FROM v WHERE v.i IN ({a} {o1} {b} {o2} {c})"
            yield f"WITH q AS ({a} {o1} ({b} {o2} {c})) SELECT q.a FROM q"
    for o1, o2, o3 in itertools.product(SETOPS, repeat=3):
        yield f"({a} {o1} {b}) {o2} ({c} {o3} {d})"
        yield f"{a} {o1} ({b} {o2} ({c} {o3} {d}))"
        yield f"{a} {o1} {b} {o2} {c} {o3} {d}"


def nested():
    pool = ["SELECT s.a FROM s", "SELECT s.a FROM s WHERE s.d = 1 OR s.a IS NULL ORDER BY s.a LIMIT 1", "SELECT max(s.a) FROM s GROUP BY s.d HAVING count(*) > 1", "SELECT s.a FROM s JOIN t ON s.a = t.b", "SELECT s.a FROM s UNION ALL SELECT t.b FROM t", "WITH c AS (SELECT t.b FROM t) SELECT c.b FROM c", "SELECT DISTINCT s.a FROM s OFFSET 1", "SELECT s.a FROM s WHERE s.a = r.a"]

    def wrap(q, lateral_ok=True):
        yield f"SELECT * FROM r WHERE r.a = ({q})"
        yield f"SELECT * FROM r WHERE r.a IN ({q})"
        yield f"SELECT * FROM r WHERE r.a NOT IN ({q})"
        yield f"SELECT * FROM r WHERE EXISTS ({q}) OR r.a = 1"
        yield f"SELECT * FROM r WHERE NOT EXISTS ({q})"
        yield f"SELECT * FROM r WHERE r.a < ALL ({q})"
        yield f"SELECT * FROM r WHERE r.a >= ANY ({q})"
        yield f"SELECT r.a, ({q}) AS x FROM r"
        yield f"SELECT * FROM r, LATERAL ({q}) AS q"
        yield f"SELECT * FROM r LEFT JOIN LATERAL ({q}) AS q ON TRUE"
        yield f"SELECT r.a FROM r ORDER BY ({q}) DESC LIMIT 2"
        yield f"SELECT r.a FROM r GROUP BY r.a HAVING r.a > ({q})"
        yield f"SELECT CASE WHEN EXISTS ({q}) THEN ({q}) ELSE 1 END FROM r"
        yield f"SELECT r.a + ({q}) * 2 FROM r"
        if "r.a" not in q:
            yield f"SELECT * FROM ({q}) AS q"
            yield f"SELECT * FROM r, ({q}) AS q WHERE q.a = r.a"
            yield f"SELECT * FROM r JOIN ({q}) AS q ON q.a = r.a"
            yield f"WITH q AS ({q}) SELECT * FROM q"
            yield f"({q}) UNION (SELECT r.a FROM r)"
            yield f"SELECT r.a FROM r EXCEPT ({q})"

    for q in pool:
        for w in wrap(q):
            yield w
            for w2 in wrap(w.replace("r.", "s.").replace("FROM r", "FROM s").replace(" r ", " s ") if False else f"SELECT 1 FROM ({w}) AS zz"):
                yield w2
