"""All single edits of PostgreSQL parse trees: every optional part dropped, every list element dropped or swapped with its neighbour,
every name, number, text, flag and operator replaced, every expression replaced by a column or a constant.

The edited trees are written by pglast's own deparser, hence nothing of the code under test takes part in producing them.
"""
from __future__ import annotations

import copy
import enum

import pgast
from pglast import ast, enums, parse_sql
from pglast.stream import RawStream

#: every construct at least once, as many of them as possible in one statement
BASE = [
    "SELECT r.a FROM r WHERE r.b = 1",
    "SELECT DISTINCT r.a, count(*) AS n FROM r, s AS s2 WHERE r.a = s2.a AND (r.b < 1 OR NOT s2.c = 'x') GROUP BY r.a, r.b HAVING count(*) > 2 ORDER BY r.a DESC NULLS LAST, n LIMIT 3 OFFSET 4",
    "SELECT DISTINCT ON (r.a, r.b) r.a, r.b FROM r ORDER BY r.a, r.b",
    "SELECT sum(r.a) OVER (PARTITION BY r.b, r.c ORDER BY r.d DESC, r.e), rank() OVER (ORDER BY r.a) FROM r",
    "SELECT sum(r.a) FILTER (WHERE r.f = 1) OVER (PARTITION BY r.b ORDER BY r.d) AS w FROM r",
    "SELECT count(DISTINCT r.a) FILTER (WHERE r.b = 1 AND r.c < 2), max(r.d) AS m FROM r",
    "SELECT CASE WHEN r.a = 1 THEN r.b WHEN r.c < 2 THEN 'x' ELSE r.d END AS k FROM r",
    "SELECT r.a + r.b * 2 - (r.c - r.d), -r.e, r.a || 'x' FROM r",
    "SELECT (r.a)[1], (r.b)[2:3], (r.c)[r.d] FROM r",
    "SELECT r.a::int, CAST(r.b AS varchar(3)), r.c::int[], f(r.a, 1, 'y'), g() FROM r",
    "SELECT ARRAY[r.a, 1, 2], coalesce(r.b, 3) FROM r",
    "SELECT * FROM r WHERE r.a IN (1, 2, r.b) AND r.c NOT IN (3, 4) AND r.d BETWEEN 5 AND r.e AND r.f LIKE 'x%' AND r.g IS NULL AND r.h IS NOT NULL AND r.i NOT LIKE 'y' AND r.j ILIKE 'z'",
    "SELECT * FROM r WHERE (r.a = 1 AND (r.b = 2 OR r.c = 3)) OR NOT (r.d = 4 OR r.e = 5) OR r.f <> 6",
    "SELECT * FROM r WHERE r.a > 1 AND r.b >= 2 AND r.c < r.d AND r.e <= r.f + 1 AND lower(r.g) = upper(r.h)",
    "SELECT * FROM r WHERE EXISTS (SELECT 1 FROM s WHERE s.a = r.a AND s.b = 1) AND NOT EXISTS (SELECT * FROM t WHERE t.b = r.b)",
    "SELECT * FROM r WHERE r.a IN (SELECT s.a FROM s WHERE s.d = r.d) AND r.b NOT IN (SELECT t.b FROM t)",
    "SELECT (SELECT max(s.a) FROM s WHERE s.b = r.b) AS m FROM r WHERE r.a = (SELECT min(t.a) FROM t) AND r.c < ALL (SELECT u.c FROM u) AND r.d = ANY (SELECT v.d FROM v)",
    "SELECT * FROM r JOIN s ON r.a = s.a AND r.b < s.b LEFT JOIN t AS t2 ON s.c = t2.c WHERE t2.d = 1",
    "SELECT * FROM r RIGHT JOIN (s FULL JOIN t ON s.b = t.b) ON r.a = s.a CROSS JOIN u",
    "SELECT * FROM r, (SELECT s.a, s.b AS c FROM s WHERE s.d = 1) AS q, t WHERE q.a = r.a AND q.c = t.c",
    "SELECT * FROM r, LATERAL (SELECT s.a FROM s WHERE s.b = r.b) AS q JOIN t ON q.a = t.a",
    "SELECT * FROM r, LATERAL generate_series(1, r.a) AS g, generate_series(r.b, 2, 3) AS h WHERE g.g = r.c",
    "SELECT * FROM (VALUES (1, 'x', 2), (3, 'y', 4)) AS v(i, j, k), r WHERE v.i = r.a",
    "SELECT * FROM r, LATERAL (VALUES (r.a, 1), (2, r.b)) AS v(i, j) WHERE v.i = v.j",
    "SELECT * FROM r AS r1, r AS r2, sch.s AS s1 WHERE r1.a = r2.a AND r2.b = s1.b",
    "WITH c AS (SELECT r.a FROM r WHERE r.b = 1), d AS (SELECT s.a, c.a AS x FROM s, c) SELECT c.a, d.x FROM c, d WHERE c.a = d.a",
    "WITH RECURSIVE c AS (SELECT r.a FROM r UNION ALL SELECT c.a + 1 FROM c WHERE c.a < 10) SELECT * FROM c",
    "WITH v(i, j) AS (VALUES (1, 2), (3, 4)), w AS MATERIALIZED (SELECT v.i FROM v) SELECT * FROM v, w AS w2 WHERE v.j = w2.i",
    "SELECT r.a FROM r WHERE r.b = 1 UNION SELECT s.a FROM s WHERE s.c = 2 ORDER BY a DESC LIMIT 3 OFFSET 1",
    "SELECT r.a FROM r UNION ALL (SELECT s.a FROM s EXCEPT SELECT t.a FROM t) INTERSECT SELECT u.a FROM u",
    "(SELECT r.a FROM r ORDER BY r.b LIMIT 1) UNION (SELECT s.a FROM s ORDER BY s.b DESC LIMIT 2 OFFSET 3)",
    "WITH c AS (SELECT t.a FROM t) SELECT c.a FROM c EXCEPT SELECT r.a FROM r, (SELECT u.a FROM u UNION SELECT v.a FROM v) AS q WHERE q.a = r.a",
    "SELECT r.a, min(r.b) FROM r WHERE r.c = 1 GROUP BY r.a, r.d + 1 HAVING min(r.b) > 2 AND max(r.e) < 3 OR count(*) = 4",
    "SELECT * FROM r ORDER BY r.a ASC NULLS FIRST, r.b DESC, r.c + 1, f(r.d) LIMIT 5",
    "EXPLAIN (ANALYZE, FORMAT JSON) SELECT r.a FROM r WHERE r.b = 1 LIMIT 2",
    "SELECT *, 1 AS one, 'x' AS two, NULL AS three, TRUE AS four, 2.5 AS five FROM r, s",
    "SELECT r.a = 1 AS p, r.b IS NULL AS q, NOT r.c AS n, r.d AND r.e AS m FROM r WHERE r.f",
    "SELECT * FROM r WHERE CASE WHEN r.a = 1 THEN r.b = 2 ELSE FALSE END AND f(r.c, r.d)",
    "SELECT \"R\".\"A b\", \"R\".select_x FROM \"R\" WHERE \"R\".\"C\" = 'it''s'",
]

NAMES = {"String", "RangeVar", "Alias", "ResTarget", "CommonTableExpr"}
OPS = {"=": ["<>", "<"], "<>": ["="], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "+": ["-"], "-": ["+"], "*": ["/"], "||": ["+"]}
ENUMS = {
    "boolop": [enums.BoolExprType.AND_EXPR, enums.BoolExprType.OR_EXPR],
    "jointype": [enums.JoinType.JOIN_INNER, enums.JoinType.JOIN_LEFT, enums.JoinType.JOIN_FULL, enums.JoinType.JOIN_RIGHT],
    "sortby_dir": [enums.SortByDir.SORTBY_DEFAULT, enums.SortByDir.SORTBY_ASC, enums.SortByDir.SORTBY_DESC],
    "sortby_nulls": list(enums.SortByNulls),
    "nulltesttype": list(enums.NullTestType),
    "op": [enums.SetOperation.SETOP_UNION, enums.SetOperation.SETOP_INTERSECT, enums.SetOperation.SETOP_EXCEPT],
    "subLinkType": [],
}
SKIP = {"fields", "setof", "location", "stmt_len", "stmt_location", "rexpr_list_start", "rexpr_list_end", "name_location", "frameOptions", "typemod", "inh", "relpersistence", "funcformat",
        "ctematerialized", "limitOption", "cterefcount", "refname", "startOffset", "endOffset", "is_rowsfrom", "ordinality", "func_variadic", "agg_within_group", "override"}
EXPRS = ("ColumnRef", "A_Const", "A_Expr", "FuncCall", "CaseExpr", "TypeCast", "SubLink", "BoolExpr", "NullTest", "A_Indirection", "CoalesceExpr", "A_ArrayExpr")


def _get(tree, path):
    for attr, i in path:
        tree = getattr(tree, attr)
        if i is not None:
            tree = tree[i]
    return tree


def _put(tree, path, value):
    """value instead of what is at the path (the last step may address an element of a list)"""
    parent = _get(tree, path[:-1])
    attr, i = path[-1]
    if i is None:
        setattr(parent, attr, value)
    else:
        setattr(parent, attr, tuple(value if j == i else x for j, x in enumerate(getattr(parent, attr))))


def _nodes(node, path=()):
    """all nodes with their paths"""
    yield path, node
    for attr in node.__slots__:
        v = getattr(node, attr)
        if isinstance(v, ast.Node):
            yield from _nodes(v, path + ((attr, None),))
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                if isinstance(x, ast.Node):
                    yield from _nodes(x, path + ((attr, i),))


def _edits(tree):
    """functions that change a copy of the tree"""
    for path, node in _nodes(tree):
        kind = type(node).__name__
        if kind in EXPRS and path:
            for new in (ast.ColumnRef(fields=(ast.String("r"), ast.String("zz"))), ast.A_Const(val=ast.Integer(77))):
                yield f"{kind} replaced", lambda t, p=path, n=new: _put(t, p, copy.deepcopy(n))
        for attr in node.__slots__:
            if attr in SKIP:
                continue
            v = getattr(node, attr)
            here = path + ((attr, None),)
            if v is None:
                continue
            if isinstance(v, (ast.Node, tuple)) and path:
                yield f"{kind}.{attr} dropped", lambda t, h=here: _put(t, h, None)
            if isinstance(v, tuple):
                for i in range(len(v)):
                    if len(v) > 1:
                        yield f"{kind}.{attr} element dropped", lambda t, h=here, i=i, v=v: _put(t, h, tuple(x for j, x in enumerate(_get(t, h)) if j != i))
                    if i + 1 < len(v):
                        yield f"{kind}.{attr} swapped", lambda t, h=here, i=i: _put(t, h, tuple(_swap(list(_get(t, h)), i)))
            elif isinstance(v, bool):
                yield f"{kind}.{attr} flipped", lambda t, h=here, v=v: _put(t, h, not v)
            elif isinstance(v, enum.Enum):
                for alt in ENUMS.get(attr, ()):
                    if alt != v:
                        yield f"{kind}.{attr} changed", lambda t, h=here, a=alt: _put(t, h, a)
            elif isinstance(v, int):
                yield f"{kind}.{attr} changed", lambda t, h=here, v=v: _put(t, h, v + 6)
            elif isinstance(v, str):
                for alt in OPS.get(v, [v + "z"] if kind in NAMES or attr in ("sval", "name", "relname", "aliasname", "ctename", "fval") else []):
                    yield f"{kind}.{attr} renamed", lambda t, h=here, a=alt: _put(t, h, a)
            if isinstance(v, ast.Node) and kind in ("A_Expr", "JoinExpr", "SelectStmt") and attr in ("lexpr", "larg"):
                other = {"lexpr": "rexpr", "larg": "rarg"}[attr]
                if isinstance(getattr(node, other), ast.Node):
                    yield f"{kind} sides swapped", lambda t, p=path, a=attr, b=other: _exchange(_get(t, p), a, b)


def _swap(xs, i):
    xs[i], xs[i + 1] = xs[i + 1], xs[i]
    return xs


def _exchange(node, a, b):
    x, y = getattr(node, a), getattr(node, b)
    setattr(node, a, y)
    setattr(node, b, x)


_MEMO: dict[str, list[tuple[str, str]]] = {}


def edits(sql: str) -> list[tuple[str, str]]:
    """(what was changed, text) for all single edits of a statement that PostgreSQL accepts and reads differently, each text once"""
    if sql in _MEMO:
        return _MEMO[sql]
    tree = parse_sql(sql)[0].stmt
    seen = {pgast.canon(sql)}
    out = []
    for what, fn in _edits(tree):
        t = copy.deepcopy(tree)
        try:
            fn(t)
            text = RawStream()(t)
            k = pgast.canon(text)
        except Exception:  # noqa: BLE001  (not a statement)
            continue
        if "None" not in text and k not in seen:
            seen.add(k)
            out.append((what, text))
    _MEMO[sql] = out
    return out


def neighbourhood():
    """the base statements and everything next to them"""
    for sql in BASE:
        yield sql
        for _, text in edits(sql):
            yield text
