"""P02: column references are bound to the tables which SQL's scoping rules select."""
import itertools
import warnings

import pgast
from scoping import Resolver, Skip, colrefs
from vlib import Check, short, sliced

import postbound as pb
import quacklab
from postbound._core import BoundColumnReference, ColumnReference, TableReference
from postbound.parser import ParserError

CATALOG = {"r": ["a", "b"], "s": ["b", "c"], "t": ["c", "d"]}
OTHER = {"r": ["c", "d"], "s": ["a"], "t": ["b"]}


class Schema:
    """a catalog; only what the parser needs"""

    def __init__(self, catalog):
        self.catalog = catalog

    def columns(self, table):
        name = table if isinstance(table, str) else table.full_name
        return [ColumnReference(c, TableReference(name)) for c in self.catalog.get(name, ())]


SCHEMA, OTHER_SCHEMA = Schema(CATALOG), Schema(OTHER)

# -- the space ------------------------------------------------------------------------------------------------------------------

BASES = ["r", "r AS x", "s AS r", "r AS s", "t"]
DERIVED = ["(SELECT b AS a, c FROM s) AS x", "(SELECT r.a AS c FROM r) AS r", "(SELECT * FROM s) AS r", "(SELECT x.* FROM t AS x) AS s", "(SELECT s.c FROM s) AS x(d)"]
OTHERS = ["(VALUES (1, 2)) AS x(a, d)", "generate_series(1, 3) AS x"]
PAIRS = ["(SELECT a FROM r UNION SELECT c FROM s) AS x, t AS s", "t AS r, (SELECT s.c FROM s EXCEPT (SELECT d FROM t INTERSECT SELECT a FROM r)) AS x", "r, s AS x", "r AS s, s AS r", "r AS x, t", "t, (SELECT b AS a FROM s) AS r", "(SELECT s.b FROM s) AS r, r AS x", "r JOIN s ON r.b = s.b", "r AS x LEFT JOIN t ON x.a = t.c", "(SELECT c FROM s) AS s, t AS r"]
CTES = ["", "WITH w AS (SELECT a FROM r UNION ALL SELECT d FROM t), r AS (SELECT d FROM t INTERSECT SELECT a FROM w)", "WITH w AS (SELECT b AS d FROM s)", "WITH r AS (SELECT c AS b, d FROM t)", "WITH r AS (SELECT a AS c FROM r)", "WITH w AS (SELECT a FROM r), r AS (SELECT a AS d FROM w)",
        "WITH s AS (SELECT r.a FROM r), r AS (SELECT s.a AS c FROM s)", "WITH w(d) AS (SELECT a FROM r)", "WITH w AS (SELECT * FROM r AS s)"]
CTE_REFS = ["w", "w AS x", "w AS r", "w, r", "r, w AS s"]

QUALS = ["r", "s", "x", "w"]
COLS = ["a", "b", "c", "d"]
PROBES = [f"{q}.{c}" for q in QUALS for c in COLS] + COLS


def sources(small=False):
    out = BASES + DERIVED + OTHERS + PAIRS
    if small:
        out = ["r", "r AS x", "s AS r", "t", "(SELECT b AS a, c FROM s) AS x", "(SELECT r.a AS c FROM r) AS r", "r AS s, s AS r", "(VALUES (1, 2)) AS x(a, d)"]
    return out


INNER = {
    "exists": "SELECT 1 FROM {f} WHERE EXISTS (SELECT 1 FROM {g} WHERE {p} = 1)",
    "not exists": "SELECT 1 FROM {f} WHERE NOT EXISTS (SELECT {p} FROM {g})",
    "in": "SELECT 1 FROM {f} WHERE 1 IN (SELECT {p} FROM {g})",
    "scalar select": "SELECT (SELECT {p} FROM {g} LIMIT 1) FROM {f}",
    "scalar where": "SELECT 1 FROM {f} WHERE 1 < (SELECT MIN({p}) FROM {g})",
    "having": "SELECT COUNT(*) FROM {f} HAVING EXISTS (SELECT 1 FROM {g} WHERE {p} = 1)",
    "order": "SELECT 1 FROM {f} ORDER BY (SELECT MIN({p}) FROM {g})",
    "derived select": "SELECT y.o FROM {f}, (SELECT {p} AS o FROM {g}) AS y",
    "derived where": "SELECT y.o FROM (SELECT 1 AS o FROM {g} WHERE {p} = 1) AS y, {f}",
    "lateral select": "SELECT y.o FROM {f}, LATERAL (SELECT {p} AS o FROM {g}) AS y",
    "lateral where": "SELECT o FROM {f}, LATERAL (SELECT 1 AS o FROM {g} WHERE {p} = 1) AS y",
    "lateral join": "SELECT o FROM {f} JOIN LATERAL (SELECT 1 AS o FROM {g} WHERE {p} = 1) AS y ON 1 = 1",
    "two levels": "SELECT 1 FROM {f} WHERE EXISTS (SELECT 1 FROM {g} WHERE EXISTS (SELECT 1 FROM t AS z WHERE {p} = 1))",
    "derived in exists": "SELECT 1 FROM {f} WHERE EXISTS (SELECT 1 FROM (SELECT 1 AS k FROM {g} WHERE {p} = 1) AS y)",
    "derived beside": "SELECT 1 FROM {f} WHERE EXISTS (SELECT 1 FROM {g}, (SELECT 1 AS k FROM t AS z WHERE {p} = 1) AS y)",
    "union in exists": "SELECT 1 FROM {f} WHERE EXISTS (SELECT z.c FROM t AS z UNION SELECT {p} FROM {g})",
    "cte in exists": "SELECT 1 FROM {f} WHERE EXISTS (WITH v AS (SELECT 1 AS k FROM {g} WHERE {p} = 1) SELECT k FROM v)",
    "cte shadow in exists": "SELECT 1 FROM {f} WHERE EXISTS (WITH r AS (SELECT t.d AS a FROM t) SELECT 1 FROM {g} WHERE {p} = 1)",
    "union right": "SELECT z.c FROM t AS z, {f} UNION SELECT {p} FROM {g}",
    "union left": "SELECT {p} FROM {g} UNION ALL SELECT z.c FROM t AS z, {f}",
    "cte body": "WITH v AS (SELECT {p} AS o FROM {g}) SELECT v.o FROM {f}, v",
    "after sublink": "SELECT 1 FROM {g} WHERE EXISTS (SELECT 1 FROM {f}) AND {p} = 1",
    "after derived": "SELECT {p} FROM {g}, (SELECT 1 AS o FROM {f}) AS y",
}

ON = {
    "on": "SELECT 1 FROM {f} JOIN {g} ON {p} = 1",
    "on after comma": "SELECT 1 FROM {f}, t AS z JOIN {g} ON {p} = 1",
    "on nested": "SELECT 1 FROM t AS z JOIN {g} ON {p} = 1 LEFT JOIN {f} ON 1 = 1",
    "on exists": "SELECT 1 FROM {f}, t AS z JOIN {g} ON EXISTS (SELECT 1 FROM t AS y WHERE {p} = 1)",
    "function": "SELECT 1 FROM {f}, generate_series(1, {p}) AS y",
}

FLAT = {
    "select": "SELECT {p} FROM {f}",
    "where": "SELECT {q} AS {al} FROM {f} WHERE {p} = 1",
    "group": "SELECT {q} AS {al} FROM {f} GROUP BY {p}",
    "group expr": "SELECT {q} AS {al} FROM {f} GROUP BY {p} + 1",
    "having": "SELECT {q} AS {al} FROM {f} HAVING {p} = 1",
    "order": "SELECT {q} AS {al} FROM {f} ORDER BY {p}",
    "order expr": "SELECT {q} AS {al} FROM {f} ORDER BY {p} + 1",
    "order both": "SELECT {q} AS {al}, 1 AS k FROM {f} ORDER BY k, {p} DESC",
    "distinct on": "SELECT DISTINCT ON ({p}) {q} AS {al} FROM {f}",
    "select twice": "SELECT {q} AS {al}, {p} FROM {f}",
    "filter": "SELECT COUNT(*) FILTER (WHERE {p} = 1) AS {al} FROM {f}",
    "window": "SELECT SUM(1) OVER (PARTITION BY {p} ORDER BY {p}) AS {al} FROM {f}",
    "exists order": "SELECT 1 FROM t AS z WHERE EXISTS (SELECT {q} AS {al} FROM {f} ORDER BY {p})",
    "nested where": "SELECT {q} AS {al} FROM {f} WHERE EXISTS (SELECT 1 FROM t AS z WHERE {p} = 1)",
    "nested order": "SELECT {q} AS {al} FROM {f} ORDER BY (SELECT {p})",
}


def with_cte(cte, sql):
    if not cte:
        return sql
    if sql.startswith("WITH "):
        return cte + ", " + sql[5:]
    return cte + " " + sql


def inner_space(thorough):
    fs = sources(small=not thorough)
    gs = sources(small=not thorough)
    for name, tpl in INNER.items():
        for f, g in itertools.product(fs, gs):
            for p in PROBES:
                yield name, tpl.format(f=f, g=g, p=p)


def cte_space(thorough):
    fs = CTE_REFS + ["r", "s AS r", "s"]
    gs = ["r", "s AS x", "w AS x", "w"]
    for cte in CTES[1:]:
        for f in fs:
            for p in PROBES:
                yield "cte flat", with_cte(cte, f"SELECT {p} FROM {f}")
        for name in INNER if thorough else ("exists", "derived select", "lateral where", "two levels", "cte in exists", "cte shadow in exists", "union right", "cte body"):
            for f, g in itertools.product(fs[:4] + fs[5:] if thorough else ("w", "r", "s AS r"), gs):
                for p in PROBES:
                    yield "cte " + name, with_cte(cte, INNER[name].format(f=f, g=g, p=p))


def on_space(thorough):
    gs = [x for x in sources() if "," not in x.replace("1, 2", "").replace("(a, d)", "").replace("b AS a, c", "") and "JOIN" not in x and "1, 3" not in x]
    for name, tpl in ON.items():
        for f, g in itertools.product(sources(small=not thorough), gs if name != "function" else ["-"]):
            for p in PROBES:
                yield name, tpl.format(f=f, g=g, p=p)


def flat_space(thorough):
    for f in sources():
        for name, tpl in FLAT.items():
            heads = ["1", "r.a", "x.c"] if thorough or f in BASES else ["1", "r.a"]
            for q, al, p in itertools.product(heads if "{q}" in tpl else [""], ["a", "b", "z"] if "{al}" in tpl else [""], PROBES + (["z"] if "{al}" in tpl else [])):
                yield name, tpl.format(f=f, q=q, al=al, p=p)


SPECIAL = [
    "SELECT 1 FROM t WHERE EXISTS (SELECT a FROM r UNION SELECT c FROM s ORDER BY a)",
    "SELECT 1 FROM s WHERE EXISTS (SELECT a AS c FROM r UNION SELECT d FROM t ORDER BY c)",
    "SELECT x.a FROM r, r AS x ORDER BY a",
    "SELECT DISTINCT ON (a) x.a, r.b FROM r, r AS x ORDER BY a, r.b",
    "SELECT x.a FROM r, r AS x ORDER BY a, x.b",
    "SELECT x.* FROM r AS x, LATERAL (SELECT x.*) AS y WHERE y.a = 1",
    "SELECT y.b FROM r AS x, LATERAL (SELECT x.*) AS y WHERE y.a = 1",
    "WITH RECURSIVE w AS (SELECT a FROM r UNION ALL SELECT a + 1 FROM w WHERE a < 3) SELECT a FROM w",
    "WITH RECURSIVE w(k) AS (SELECT a FROM r UNION ALL SELECT c FROM w, s WHERE k = b) SELECT k FROM w AS x",
    "WITH RECURSIVE r AS (SELECT c FROM s UNION ALL SELECT d FROM r, t WHERE r.c = t.c) SELECT c FROM r",
    "SELECT o FROM (SELECT a AS o FROM r), t WHERE c = o",
    "SELECT o, p FROM (SELECT a AS o FROM r), (SELECT c AS p FROM s) WHERE p = o",
    "SELECT z.a FROM r AS z WHERE EXISTS (SELECT 1 FROM s AS z WHERE z.c = 1) AND z.b = 1",
    "SELECT x.a FROM (SELECT x.a FROM (SELECT r.a FROM r) AS x) AS x",
    "SELECT x.c FROM (SELECT x.b AS c FROM (SELECT x.b FROM s AS x) AS x WHERE x.b = 1) AS x WHERE x.c = 1",
    "SELECT a FROM r WHERE EXISTS (SELECT 1 FROM s WHERE a = c AND EXISTS (SELECT 1 FROM t WHERE a = d AND s.c = t.c))",
    "SELECT a FROM r UNION SELECT c FROM s ORDER BY a",
    "SELECT r.a AS z FROM r UNION SELECT c FROM s ORDER BY z",
    "SELECT q.a FROM (SELECT a FROM r UNION SELECT c FROM s) AS q",
    "SELECT a FROM (SELECT a FROM r UNION SELECT c FROM s) AS q",
    "WITH q AS (SELECT a FROM r UNION SELECT c FROM s) SELECT a FROM q AS p",
    "WITH q AS (SELECT a FROM r), p AS (SELECT a FROM q) SELECT q.a, p.a FROM q, p WHERE q.a = p.a",
    "WITH q AS (WITH q AS (SELECT a AS d FROM r) SELECT d AS c FROM q) SELECT c FROM q",
    "WITH q AS (WITH s AS (SELECT a AS d FROM r) SELECT d AS k FROM s) SELECT k, s.c FROM q, s",
    "SELECT c FROM s WHERE c IN (WITH s AS (SELECT d FROM t) SELECT d FROM s) AND b = 1",
    "SELECT x.a, y.a FROM r AS x, LATERAL (SELECT y.a FROM r AS y WHERE y.b = x.b) AS y",
    "SELECT a, o FROM r, LATERAL (SELECT c AS o FROM s WHERE s.b = a) AS q, LATERAL (SELECT d FROM t WHERE t.c = o AND d = a) AS p WHERE d = 1",
    "SELECT 1 FROM r AS x, r AS y WHERE x.a = y.b AND EXISTS (SELECT 1 FROM r AS x WHERE x.a = y.a)",
    "SELECT public.r.a FROM public.r",
    "SELECT r.a FROM public.r",
    "WITH r AS (SELECT d FROM t) SELECT r.a FROM public.r",
    "WITH r AS (SELECT d FROM t) SELECT x.a, r.d FROM public.r AS x, r",
    "SELECT a FROM (SELECT a FROM r) AS q WHERE EXISTS (SELECT 1 FROM q AS p)",
    "SELECT r.b FROM (SELECT b FROM s) AS r WHERE EXISTS (SELECT r.a FROM r)",
    "SELECT CASE WHEN a = 1 THEN b ELSE (SELECT c FROM t WHERE d = a) END FROM r",
    "SELECT a FROM r, generate_series(1, a) AS g WHERE g = 1",
    "SELECT g.g FROM generate_series(1, 3) AS g",
    "SELECT \"A\" FROM r",
    "SELECT R.A FROM R",
    "SELECT v.column1, column2 FROM (VALUES (1, 2), (3, 4)) AS v",
    "SELECT x.a FROM (SELECT * FROM (SELECT * FROM r) AS y) AS x WHERE b = 1",
    "SELECT x.b FROM (SELECT y.*, 1 AS k FROM r AS y) AS x WHERE k = a",
    "SELECT c FROM (SELECT * FROM r, t) AS x",
    "SELECT a FROM (SELECT * FROM r JOIN t ON a = c) AS x WHERE d = 1",
]


# -- the check ------------------------------------------------------------------------------------------------------------------

def ident(col):
    t = col.table
    return (col.name, None if t is None else (t.full_name, t.alias, t.virtual))


def walk(q):
    out = set()
    for col in q.columns():
        out.add(ident(col))
    return out


def judge(acc, name, sql, schema, catalog, *, part):
    try:
        stmt = pgast.raw(sql)[0]["stmt"]["SelectStmt"]
    except Exception:
        acc.count("not accepted by the grammar")
        return
    res = Resolver(catalog if catalog is not None else CATALOG)
    before = colrefs(stmt)
    try:
        res.resolve(stmt)
    except Skip as e:
        acc.count("skipped: " + str(e))
        return
    if catalog is None and any(len(x) == 1 and x != ("*",) for x in before):
        return  # without a catalog only qualified names can be bound
    want = colrefs(stmt)
    try:
        q = pb.parse_query(sql, accept_set_query=True, bind_columns=schema is not None, db_schema=schema)
        err = None
    except ParserError as e:
        q, err = None, e
    except Exception as e:  # noqa: BLE001 - outcome of the code under test
        acc.case(sql, "crash")
        acc.violate(f"{part} {name}: {sql}", f"crashes with {short(e)}")
        return
    acc.step(len(want))
    if res.bad:
        acc.case(sql, "invalid, " + ("rejected" if err else "unbound"))
        if err is not None:
            return
        got = {ident(c) for c in q.columns()}
        for qual, col in res.bad:
            # the offending name must not have obtained a table
            allowed = {i for n, i in res.bound if n == col}
            allowed |= {i for n, i in res.declared if n == col}
            wrong = [i for n, i in got if n == col and i is not None and i not in allowed]
            if wrong or qual is not None:
                acc.violate(f"{part} {name} invalid: {sql}", f"{qual + '.' if qual else ''}{col} is not visible, but was bound: {sorted(map(str, got))}")
                return
        return
    if err is not None:
        acc.case(sql, "rejected")
        acc.violate(f"{part} {name}: {sql}", f"valid statement rejected: {short(err)}")
        return
    acc.case(sql, "bound")
    text = str(q)
    try:
        have = colrefs(pgast.raw(text)[0]["stmt"]["SelectStmt"])
    except Exception as e:
        acc.violate(f"{part} {name}: {sql}", f"prints as {text}: {short(e)}")
        return
    exp = set(res.bound)
    got = {ident(c) for c in q.columns() if c.table is not None}
    got = {(n, i) for n, i in got if n != "*"}
    same = sorted(have) == sorted(want) if "WITH" in sql or "OVER" in sql else have == want
    if not same:
        acc.violate(f"{part} {name}: {sql}", f"bound as {text}; want references {want}")
    elif not {g for g in got if g[1][0] or g[1][1]} <= exp | res.declared or not {e for e in exp if e[1][1] or e[1][0]} <= got:
        acc.violate(f"{part} {name}: {sql}", f"bound to {sorted(map(str, got))}, want {sorted(map(str, exp))}")


def run_space(space, part, schema=SCHEMA, catalog=CATALOG):
    def fn(acc, i, n):
        for name, sql in sliced(space, i, n):
            judge(acc, name, sql, schema, catalog, part=part)

    return fn


def p_catalogs(acc, i, n):
    """the same statements under changing catalogs and without any: histories of catalogs"""
    sqls = ["SELECT a FROM r, s AS x", "SELECT c FROM r", "SELECT b, d FROM t, r", "SELECT 1 FROM r WHERE EXISTS (SELECT 1 FROM s WHERE a = 1)", "SELECT x.a FROM (SELECT * FROM r) AS x", "SELECT r.a FROM r"]
    states = [(SCHEMA, CATALOG), (OTHER_SCHEMA, OTHER), (None, None)]
    hists = list(itertools.product(range(3), repeat=4))
    for h in sliced(hists, i, n):
        for sql in sqls:
            for k in h:
                judge(acc, f"history {h}", sql, states[k][0], states[k][1], part="catalogs")


# tables of the same names with different columns in two schemas
SCHEMAS = {("", "r"): ["a", "b"], ("s2", "r"): ["b", "c"], ("", "t"): ["e"], ("s2", "t"): ["d", "a"], ("", "u"): ["f"]}


class SchemaCatalog:
    def __init__(self, tables):
        self.tables = tables

    def columns(self, table):
        table = table if isinstance(table, TableReference) else TableReference(table)
        return [BoundColumnReference(c, table) for c in self.tables.get((table.schema, table.full_name), [])]


# text -> (name the source is visible by, its columns, the (schema, table, alias) the columns are bound to)
SCHEMA_SOURCES = {
    "r": ("r", SCHEMAS["", "r"], ("", "r", "")), "s2.r": ("r", SCHEMAS["s2", "r"], ("s2", "r", "")), "r AS x": ("x", SCHEMAS["", "r"], ("", "r", "x")), "s2.r AS x": ("x", SCHEMAS["s2", "r"], ("s2", "r", "x")),
    "t": ("t", SCHEMAS["", "t"], ("", "t", "")), "s2.t": ("t", SCHEMAS["s2", "t"], ("s2", "t", "")), "s2.t AS r": ("r", SCHEMAS["s2", "t"], ("s2", "t", "r")), "t AS y": ("y", SCHEMAS["", "t"], ("", "t", "y")),
    "(SELECT * FROM s2.r) AS q": ("q", SCHEMAS["s2", "r"], ("", "", "q")), "(SELECT * FROM r) AS q": ("q", SCHEMAS["", "r"], ("", "", "q")), "(SELECT * FROM s2.t, u) AS p": ("p", ["d", "a", "f"], ("", "", "p")),
}
# the CTE shadows the table of the default schema, but not the one that is requested by its schema
SCHEMA_CTE = dict(SCHEMA_SOURCES) | {"r": ("r", ["f"], ("", "", "r")), "r AS x": ("x", ["f"], ("", "r", "x")), "(SELECT * FROM r) AS q": ("q", ["f"], ("", "", "q"))}


def p_schemas(acc, i, n):
    pairs = [x for k in (1, 2) for x in itertools.permutations(SCHEMA_SOURCES, k)]
    cols = sorted({c for cs in SCHEMAS.values() for c in cs})
    inner = ("r", "s2.r", "s2.t", "u", "s2.r AS x")
    for cte, srcs in sliced([(cte, srcs) for cte in (False, True) for srcs in pairs], i, n):
        known = (SCHEMA_CTE if cte else SCHEMA_SOURCES) | {"u": ("u", SCHEMAS["", "u"], ("", "u", ""))}
        outer = [known[s] for s in srcs]
        if len({x[0] for x in outer}) < len(outer):
            continue
        head = "WITH r AS (SELECT f FROM u) " if cte else ""
        for col in cols:
            hits = [x for x in outer if col in x[1]]
            tests = [(f"{head}SELECT {col} FROM {', '.join(srcs)}", hits), (f"{head}SELECT 1 FROM {', '.join(srcs)} WHERE {col} = 1", hits)]
            tests += [(f"{head}SELECT 1 FROM {', '.join(srcs)} WHERE EXISTS (SELECT 1 FROM {g} WHERE {col} = 1)", [known[g]] if col in known[g][1] else hits) for g in inner]
            tests += [(f"{head}SELECT {x[0]}.{col} FROM {', '.join(srcs)}", [x] if col in x[1] else None) for x in outer]
            for sql, found in tests:
                if found is None or len(found) > 1:
                    continue  # ambiguous or invalid
                for catalog in (SchemaCatalog(SCHEMAS),):
                    acc.step()
                    try:
                        q = pb.parse_query(sql, bind_columns=True, db_schema=catalog)
                    except ParserError:
                        q = None
                    except Exception as e:  # noqa: BLE001
                        acc.violate(f"schemas {sql}", f"crashes with {short(e)}")
                        continue
                    acc.case(sql, "rejected" if q is None else "bound" if found else "unbound")
                    if q is None:
                        if found:
                            acc.violate(f"schemas {sql}", "valid statement rejected")
                        continue
                    body = itertools.chain(q.select_clause.itercolumns(), q.where_clause.itercolumns() if q.where_clause else ())
                    got = {(c.table.schema, c.table.full_name if not c.table.virtual else "", c.table.alias or (c.table.full_name if c.table.virtual else "")) if c.table else None for c in body if c.name == col}
                    want = found[0][2] if found else None
                    if want and cte and want[2] and want[1] == "r":
                        got = {(a, b or "r", c) if a is not None else None for a, b, c in got} if None not in got else got
                    if got != {want}:
                        acc.violate(f"schemas {sql}", f"{col} is bound to {got} instead of {want}")


def p_conformance(acc, i, n):
    """the reference resolver agrees with an execution engine: qualifying the names does not change any result"""
    con = quacklab.connect(":memory:")
    for t, cols in CATALOG.items():
        con.execute(f"CREATE TABLE {t} ({', '.join(x + ' INTEGER' for x in cols)})")
    con.execute("INSERT INTO r VALUES (1, 2), (2, 1), (3, 3)")
    con.execute("INSERT INTO s VALUES (1, 3), (2, 1)")
    con.execute("INSERT INTO t VALUES (1, 1), (2, 2), (3, 1)")
    # the engine lets every derived table see its siblings
    space = [x for x in itertools.chain(cte_space(False), inner_space(False), flat_space(False)) if "derived" not in x[0]]
    for name, sql in sliced(space, i, n):
        try:
            stmt = pgast.raw(sql)[0]["stmt"]["SelectStmt"]
        except Exception:
            continue
        res = Resolver(CATALOG)
        try:
            res.resolve(stmt)
        except Skip:
            continue
        if res.bad:
            continue
        want = qualified_text(sql, stmt)
        if want is None or want == sql:
            continue
        a, b = execute(con, sql), execute(con, want)
        if a is None or b is None:
            acc.count("not executable")
            continue
        acc.case(sql)
        if a != b:
            acc.count("engine disagreements")
            acc.violate(f"reference: {sql}", f"{want}: {a} and {b}")


def qualified_text(sql, stmt):
    refs = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k == "ColumnRef":
                    if "A_Star" not in v["fields"][-1]:
                        refs.append((v.get("location", 0), v["fields"]))
                else:
                    go(v)

    go(stmt)
    out = sql
    for loc, fields in sorted(refs, key=lambda y: -y[0]):
        end = loc
        while end < len(out) and (out[end].isalnum() or out[end] in "._"):
            end += 1
        out = out[:loc] + ".".join(f["String"]["sval"] for f in fields) + out[end:]
    return out


def execute(con, sql):
    try:
        return sorted(map(repr, con.execute(sql).fetchall()))
    except Exception:
        return None


def run(c):
    t = c.thorough
    c.part("special", run_space([("special", s) for s in SPECIAL], "special"))
    c.part("flat", run_space(list(flat_space(t)), "flat"))
    c.part("nested", run_space(list(inner_space(t)), "nested"))
    c.part("ctes", run_space(list(cte_space(t)), "ctes"))
    c.part("joins", run_space(list(on_space(t)), "joins"))
    c.part("no-catalog", run_space(list(itertools.chain(inner_space(False), cte_space(False))), "no-catalog", None, None))
    c.part("catalogs", p_catalogs)
    c.part("schemas", p_schemas)
    c.part("conformance", p_conformance)
    c.finish()


warnings.simplefilter("ignore")
run(Check("P02", "exploration",
          "every nest of scopes (FROM lists with shadowing aliases, derived tables, VALUES, functions; CTEs that shadow tables and each other; sublinks in every clause, LATERAL, set operations, join conditions) x every qualified and unqualified name as probe, "
          "with a catalog, with changing catalogs and without one; the reference is a resolver on PostgreSQL's AST, which itself is compared with query results of an embedded engine; distinct by statement"))
