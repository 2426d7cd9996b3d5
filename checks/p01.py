"""P01: parsing a query and formatting it again preserves its meaning (PostgreSQL's own grammar is the oracle)."""
import itertools
import json
import warnings
from decimal import Decimal

from vlib import Check, short, sliced

import astmut
import pgast
import sqlgen as g
from sqlspace import SUPPORTED_PREDS, clauses, nested, setops, single_clauses, singles

warnings.simplefilter("ignore")
import postbound as pb  # noqa: E402
from postbound.qal import format_quick  # noqa: E402

RENDER = {
    "str": str,
    "pretty": lambda q: format_quick(q),
    "pretty-postgres": lambda q: format_quick(q, flavor="postgres"),
}


def judge(acc, sql, *, must_accept=True, renders=("str", "pretty", "pretty-postgres"), reparse=True, hint=None):
    try:
        want = pgast.canon(sql)
    except Exception:
        acc.case(None, "not-sql")
        return
    try:
        q = pb.parse_query(sql)
    except Exception as e:
        acc.case(sql, "rejected")
        if must_accept:
            acc.violate(f"rejected {sql}", f"supported query is rejected: {short(e)}", {"sql": sql})
        return
    ok = True
    for name in renders:
        acc.step()
        try:
            out = RENDER[name](q)
        except Exception as e:
            acc.violate(f"{name} {sql}", f"cannot be formatted: {short(e)}", {"sql": sql})
            ok = False
            continue
        try:
            got = pgast.canon(out)
        except Exception as e:
            acc.violate(f"{name} {sql}", f"formatted text is not valid SQL ({short(e)}): {out!r}", {"sql": sql, "out": out})
            ok = False
            continue
        if got != want:
            acc.violate(f"{name} {sql}", f"meaning changed; formatted: {out!r}; first difference: {pgast.diff(json.loads(want), json.loads(got))}", {"sql": sql, "out": out})
            ok = False
        if hint is not None:
            comments = pgast.comments(out)
            if comments != ([hint] if hint else []):
                acc.violate(f"{name}-hint {sql}", f"hint block {hint!r} became {comments!r} in {out!r}", {"sql": sql, "out": out})
    if reparse and ok:
        acc.step()
        try:
            # nested conjunctions lose their (meaningless) nesting, hence equality is required from the first re-parse on
            once = pb.parse_query(str(q))
            again = pb.parse_query(str(once))
            if not (again == once) or (again != once) or hash(again) != hash(once):
                acc.violate(f"reparse {sql}", f"re-parsed query is not equal: {again} vs {once}", {"sql": sql})
            elif str(once) != str(q):
                acc.violate(f"reparse-text {sql}", f"formatting is not stable: {once} vs {q}", {"sql": sql})
        except Exception as e:
            acc.violate(f"reparse {sql}", f"formatted text cannot be parsed again: {short(e)}", {"sql": sql})
    acc.case(sql, "preserved" if ok else "changed")


def hints():
    body = ["SELECT * FROM r WHERE r.a = '/* no */ hint'", "SELECT * FROM r WHERE r.c = '-- no'", "EXPLAIN SELECT r.a FROM r", "WITH c AS (SELECT s.a FROM s) SELECT * FROM c", "SELECT r.a FROM r UNION SELECT s.a FROM s"]
    for b in body:
        for h in ("/*+ SeqScan(r) */", "/*=pg_lab= Card(r #1) */", "/* x\ny */", "/* 'quoted' \" */", "/* a -- b */"):
            yield f"{h} {b}", h
            yield f"{h}\n{b}", h
        yield b, ""


SET_NAMES = ["enable_nestloop", "a.b", '"A b"', '"user"', "TIME ZONE", "SESSION x", "x.y.z"]
SET_VALUES = ["on", "off", "true", "1", "-1", "1.10", "0.000000001", "12345678901234567890", "'x''y'", "''", "'4MB'", "'a; b'", "'--x'", "Mixed", "'Mixed'", '"Mixed"', "'a\\b'"]
SET_QUERIES = ["SELECT * FROM r", "EXPLAIN SELECT r.a FROM r", "EXPLAIN ANALYZE SELECT r.a FROM r", "WITH c AS (SELECT s.a FROM s) SELECT * FROM c", "SELECT r.a FROM r UNION SELECT s.a FROM s", "(SELECT r.a FROM r)", "SELECT * FROM (SELECT r.a FROM r) AS q WHERE q.a = 'SET x = 1;'", "(SELECT r.a FROM r LIMIT 1) UNION ALL SELECT s.a FROM s ORDER BY 1"]


def set_stmt(name, value, op="TO"):
    return f"SET {name} {value if name == 'TIME ZONE' else op + ' ' + value};"


def const(node):
    """the value of a setting, as text (numbers by value)"""
    body = node["A_Const"]
    if body.get("isnull"):
        return None
    if "sval" in body:
        text = body["sval"].get("sval", "")
    elif "boolval" in body:
        text = "true" if body["boolval"].get("boolval") else "false"
    elif "ival" in body:
        text = str(body["ival"].get("ival", 0))
    else:
        text = body["fval"]["fval"]
    try:
        return str(Decimal(text).normalize())
    except ArithmeticError:
        return text


def preparation(sql):
    """the settings that the text makes (in order) and its query"""
    stmts = pgast.raw(sql)
    sets = []
    while "VariableSetStmt" in stmts[0]["stmt"]:
        s = stmts.pop(0)["stmt"]["VariableSetStmt"]
        if s["kind"] != "VAR_SET_VALUE" or s.get("is_local"):
            sets.append(json.dumps(pgast.norm(s), sort_keys=True))
        else:
            sets.append((s["name"], tuple(const(a) if "A_Const" in a else json.dumps(pgast.norm(a)) for a in s["args"])))
    return sets, json.dumps(pgast.norm(stmts), sort_keys=True)


def prepared(thorough):
    """(text, hint block, whether it has to be accepted)"""
    one = [set_stmt(n, v, op) for n in SET_NAMES for v in SET_VALUES for op in ("TO", "=")]
    few = [set_stmt("x", "1"), set_stmt("x", "'2'"), set_stmt("y", "on"), set_stmt("a.b", "'x''y'"), set_stmt("z", "''")]
    hints = ["", "/*+ SeqScan(r) */", "/*=pg_lab= Card(r #1) */"]
    for s in one:
        for q in (SET_QUERIES if thorough else SET_QUERIES[:3]):
            yield f"{s} {q}", "", True
    for k in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for combo in itertools.product(few, repeat=k):
            pre = "\n".join(combo)
            for q in SET_QUERIES if k < 3 else SET_QUERIES[:2]:
                for h in hints:
                    yield f"{pre}\n{h} {q}", h, True
                    yield f"{h}\n{pre} {q};", h, True
    for bad in ["SET x TO DEFAULT;", "SET x TO 'a', 'b';", "SET LOCAL x TO 1;", "RESET x;", "SET x FROM CURRENT;", "SET search_path TO a, b;", "SET TRANSACTION READ ONLY;", "SET TIME ZONE INTERVAL '1' HOUR;", "SET x TO 1; SELECT * FROM s;", "DELETE FROM r;"]:
        for pre in ["", *few[:3]]:
            for q in SET_QUERIES:
                yield f"{pre} {bad} {q}", "", False
                yield f"{bad} {pre} {q}", "", False
                yield f"{pre} {q}; {bad}", "", False


def judge_prepared(acc, sql, hint, must_accept):
    try:
        want = preparation(sql)
    except Exception:
        acc.case(None, "not-sql")
        return
    acc.step()
    try:
        q = pb.parse_query(sql)
    except Exception as e:
        acc.case(sql, "rejected")
        if must_accept:
            acc.violate(f"rejected {sql}", f"supported query is rejected: {short(e)}", {"sql": sql})
        return
    acc.case(sql, "prepared")
    out = str(q)
    for name in RENDER:
        try:
            out = RENDER[name](q)
            got = preparation(out)
        except Exception as e:
            acc.violate(f"{name} {sql}", f"formatted text is not valid SQL ({short(e)}): {out!r}", {"sql": sql, "out": out})
            return
        if got[0] != want[0]:
            acc.violate(f"{name}-settings {sql}", f"the settings {want[0]} became {got[0]} in {out!r}", {"sql": sql, "out": out})
        if got[1] != want[1]:
            acc.violate(f"{name} {sql}", f"the query changed to {out!r}", {"sql": sql, "out": out})
        if pgast.comments(out) != ([hint] if hint else []):
            acc.violate(f"{name}-hint {sql}", f"hint block {hint!r} became {pgast.comments(out)!r} in {out!r}", {"sql": sql, "out": out})
    once = pb.parse_query(str(q))
    if once != q and pb.parse_query(str(once)) != once:
        acc.violate(f"reparse {sql}", f"re-parsed query is not equal: {once}", {"sql": sql})


def run(c: Check):
    def over(gen, **kw):
        def fn(acc, i, n):
            for sql in sliced(gen(), i, n):
                judge(acc, sql, **kw)
        return fn

    c.part("single-construct queries", over(singles))
    c.part("clause alternatives", over(single_clauses))
    c.part("set operations", over(setops))
    c.part("nested queries", over(nested))
    c.part("boolean structure (depth 2)", over(lambda: (g.where(p) for p in itertools.chain(g.logic(2), g.logic3()))))
    c.part("arithmetic structure (depth 2)", over(lambda: (f"SELECT {e} FROM r" for e in g.math(2, ["r.a", "2"])), renders=("str", "pretty")))
    c.part("combined constructs", over(lambda: astmut.BASE))
    c.part("single edits of the parse tree", over(astmut.neighbourhood, must_accept=False))
    c.part("clause products", over(lambda: clauses(c.thorough)))

    def mixed():
        sub = g.untyped(1)
        if c.thorough:
            other = sub
        else:
            other = ["r.b", "(r.b) + (1)", "(r.b) = (1)", "(r.a) AND (r.b)", "(r.a) OR (r.b)", "NOT (r.b)", "-(r.b)"]
        for x in sub:
            yield from (f"SELECT {e} FROM r" for e in g.forms(x))
            for y in other:
                yield from (f"SELECT {e} FROM r" for e in g.forms(x, y))
                if not c.thorough:
                    yield from (f"SELECT {e} FROM r" for e in g.forms(y, x))

    c.part("expression and predicate nesting (depth 2)", over(mixed, renders=("str", "pretty-postgres"), reparse=c.thorough))

    def rare():
        plain = g.untyped(0, ("r.a", "1", "-1", "'x'", "NULL", "TRUE"))
        few = ["r.b", "(r.b) + (1)", "(r.b) || (1)", "-(r.b)", "(r.b) = (1)", "NOT (r.b)", "(r.a) AND (r.b)", "(r.a) && (r.b)", "(r.a)[1]"]
        rares = [e for x in plain for e in g.rare_forms(x)] + [e for x in plain for y in plain for e in g.rare_forms(x, y)]
        yield from (f"SELECT {e} FROM r" for e in rares)
        for x in g.untyped(1):
            yield from (f"SELECT {e} FROM r" for e in g.rare_forms(x))
            for y in few:
                yield from (f"SELECT {e} FROM r" for e in g.rare_forms(x, y))
                yield from (f"SELECT {e} FROM r" for e in g.rare_forms(y, x))
        for x in dict.fromkeys([e for e in g.rare_forms("r.a")] + [e for e in g.rare_forms("r.a", "r.b")]):
            yield from (f"SELECT {e} FROM r" for e in g.forms(x))
            yield from (f"SELECT {e} FROM r" for e in g.rare_forms(x))
            for y in few:
                for f in (g.forms, g.rare_forms):
                    yield from (f"SELECT {e} FROM r" for e in f(x, y))
                    yield from (f"SELECT {e} FROM r" for e in f(y, x))

    c.part("array operators, subscripts, casts (depth 2)", over(rare, renders=("str", "pretty-postgres"), must_accept=False, reparse=c.thorough))

    def hinted(acc, i, n):
        for sql, h in sliced(hints(), i, n):
            judge(acc, sql, hint=h, renders=("str", "pretty"))
            judge(acc, sql.replace("SELECT * FROM r", "SELECT r.a, r.b FROM r"), hint=h, renders=("str", "pretty"))

    c.part("hint blocks", hinted)

    def prepare(acc, i, n):
        for sql, h, must in sliced(prepared(c.thorough), i, n):
            judge_prepared(acc, sql, h, must)

    c.part("preparatory settings", prepare)

    # constructs that may be rejected, but must not be altered
    def borderline():
        for e in g.REJECT_EXPRS:
            yield f"SELECT {e} FROM r"
            yield f"SELECT * FROM r WHERE r.a = {e}"
        for p in g.BASE_PREDS:
            if p not in SUPPORTED_PREDS:
                yield g.where(p)
        for f in g.FROM_REJECT + ["r JOIN s ON r.a = s.a, t JOIN u ON t.b = u.b", "(SELECT r.a, r.b FROM r) AS q(z)", "(SELECT r.a FROM r ORDER BY r.a) AS q(z)", "(SELECT * FROM r) AS q(z)", "(SELECT r.a FROM r UNION SELECT s.a FROM s) AS q(z)"]:
            yield f"SELECT * FROM {f}"
        for cols in ["*", "r.*", "r.a", "r.a, r.b", "r.a, *", "r.*, r.b", "r.a, s.*", "r.a + 1, r.b"]:
            for tail in ["", " WHERE r.a = 1", " GROUP BY r.a, r.b", " ORDER BY r.a", " LIMIT 1", " UNION ALL SELECT s.a, s.b FROM s"]:
                for distinct in ("", "DISTINCT ", "DISTINCT ON (r.a) "):
                    for names in ("x", "x, y", "x, y, z"):
                        src = "r, s" if "s.*" in cols else "r"
                        yield f"SELECT * FROM (SELECT {distinct}{cols} FROM {src}{tail}) AS q({names})"
                        yield f"WITH q({names}) AS (SELECT {distinct}{cols} FROM {src}{tail}) SELECT q.x FROM q"
        for t in g.REJECT_TAILS + g.GROUPS[5:] + ["ORDER BY r.a USING <", "LIMIT 1 + 1", "ORDER BY r.a FETCH FIRST 3 ROWS WITH TIES", "ORDER BY r.a OFFSET 1 ROWS FETCH FIRST 1 ROW WITH TIES"]:
            yield f"SELECT r.a FROM r {t}"
        for op in g.SETOPS[4:]:
            yield f"SELECT r.a FROM r {op} SELECT s.a FROM s"
        for p in g.PREFIXES:
            yield f"{p}SELECT r.a FROM r"
        yield "SELECT * FROM (SELECT 'x\ny' AS k) AS q"
        yield "WITH c AS (SELECT 'x\ny' AS k) SELECT * FROM c"
        yield "SELECT * INTO z FROM r"
        yield "VALUES (1, 2)"
        yield "TABLE r"
        yield "WITH c AS (INSERT INTO r VALUES (1) RETURNING a) SELECT * FROM c"

    c.part("unsupported constructs (reject or preserve)", over(borderline, must_accept=False))


Check("P01", "exploration", "every SQL text of the bounded grammars (see DESIGN.md); non-trivial: PostgreSQL's grammar accepts it. Distinct by text.",
      ["pglast (PostgreSQL's own grammar) reads SQL correctly", "two statements with the same normalised parse tree mean the same"]).main(run)
