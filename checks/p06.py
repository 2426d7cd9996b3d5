"""P06: query transformations keep the promised meaning (oracles: the PostgreSQL grammar for structure, DuckDB for results)."""
import copy
import itertools
import json
import warnings

from vlib import Check, short, sliced

import pgast
import sqlgen as g
from sqlspace import clauses, nested, setops, single_clauses, singles

warnings.simplefilter("ignore")
import postbound as pb  # noqa: E402
from postbound import qal, transform as tr  # noqa: E402
from postbound.qal import ColumnExpression, StaticValueExpression  # noqa: E402

T, C = pb.TableReference, pb.ColumnReference
S = lambda x: {"String": {"sval": x}}  # noqa: E731


# -- reference rewriting on the syntax tree of PostgreSQL --------------------------------------------------------------------
def fields(node):
    return [f.get("String", {}).get("sval", "*") for f in node["fields"]]


def each(tree, visit):
    """applies visit(kind, payload) to all nodes, children last"""
    if isinstance(tree, list):
        for x in tree:
            each(x, visit)
    elif isinstance(tree, dict):
        for k, v in tree.items():
            if k[:1].isupper() and isinstance(v, dict):
                visit(k, v)
            elif k == "alias" and isinstance(v, dict):
                visit("alias", v)
            each(v, visit)


def ref_columns(sql, mapping, alias_columns=False):
    tree = pgast.raw(sql)

    def visit(kind, n):
        if kind == "ColumnRef":
            f = tuple(fields(n))
            if f in mapping:
                n["fields"] = [S(x) for x in mapping[f]]
        elif kind == "alias" and alias_columns and "colnames" in n:
            n["colnames"] = [S(mapping.get((n["aliasname"], c["String"]["sval"]), ("", c["String"]["sval"]))[1]) for c in n["colnames"]]
        elif kind == "CommonTableExpr" and alias_columns and "aliascolnames" in n:
            n["aliascolnames"] = [S(mapping.get((n["ctename"], c["String"]["sval"]), ("", c["String"]["sval"]))[1]) for c in n["aliascolnames"]]

    each(tree, visit)
    return json.dumps(pgast.norm(tree), sort_keys=True)


def ref_tables(sql, renames, prefix):
    """renames: {(full, alias): (full', alias')}"""
    tree = pgast.raw(sql)
    idents = {(a or f): (a2 or f2) for (f, a), (f2, a2) in renames.items()}

    def visit(kind, n):
        if kind == "ColumnRef":
            f = fields(n)
            if len(f) == 2 and f[0] in idents:
                col = f"{f[0]}_{f[1]}" if prefix and f[1] != "*" else f[1]
                n["fields"] = [S(idents[f[0]]), S(col) if col != "*" else n["fields"][1]]
        elif kind == "RangeVar":
            key = (n["relname"], n.get("alias", {}).get("aliasname", ""))
            if key in renames:
                full, alias = renames[key]
                n["relname"] = full
                n.pop("alias", None)
                n.pop("schemaname", None)
                if alias:
                    n["alias"] = {"aliasname": alias}
        elif kind == "CommonTableExpr" and (n["ctename"], "") in renames:
            n["ctename"] = renames[(n["ctename"], "")][0]
        elif kind == "alias" and ("", n["aliasname"]) in renames:
            n["aliasname"] = renames[("", n["aliasname"])][1]

    each(tree, visit)
    return json.dumps(pgast.norm(tree), sort_keys=True)


def compare(acc, key, what, want, fn, detail):
    acc.step()
    try:
        res = fn()
        out = str(res)
    except Exception as e:
        acc.violate(key, f"{what}: raises {short(e)}", detail)
        return False
    try:
        got = pgast.canon(out)
    except Exception as e:
        acc.violate(key, f"{what}: result is not valid SQL ({short(e)}): {out!r}", detail)
        return False
    wants = want if isinstance(want, (list, tuple)) else [want]
    if got not in wants:
        acc.violate(key, f"{what}: yields {out!r}; first difference (expected != actual): {pgast.diff(json.loads(wants[0]), json.loads(got))}", detail)
        return False
    return True


def parse(sql):
    try:
        q = pb.parse_query(sql)
        if pgast.canon(str(q)) != pgast.canon(sql):
            return None  # reported by P01
        return q
    except Exception:
        return None


# -- 1. column and table renaming, expression replacement ----------------------------------------------------------------------
def col_map(q, names):
    """lifts {(table, column): (table', column')} to the column references of the query"""
    out = {}
    for c in q.columns():
        if c.table is not None and colkey(c) in names:
            t2, c2 = names[colkey(c)]
            out[c] = C(c2, c.table if t2 == colkey(c)[0] else T(t2))
    return out


def colkey(c):
    """references are equal irrespective of their case and shared between queries: the spelling may stem from another query"""
    return (c.table.identifier().lower(), c.name.lower())


COLS = [
    {("r", "a"): ("r", "zz")},
    {("r", "a"): ("q9", "zz"), ("s", "a"): ("q9", "yy")},
    {("r", "a"): ("r", "b"), ("r", "b"): ("r", "a")},
]


def renaming(gen):
    def fn(acc, i, n):
        for sql in sliced(gen(), i, n):
            q = parse(sql) if '"R"' not in sql else None
            if q is None:
                acc.case(None, "not supported")
                continue
            before = str(q)
            ok = True
            for k, names in enumerate(COLS):
                mapping = col_map(q, names)
                if k and not mapping:
                    continue
                want = ref_columns(sql, {x: y for x, y in names.items() if any(colkey(c) == x for c in mapping)})
                ok &= compare(acc, f"columns-{k} {sql}", f"renaming columns {names}", want, lambda: tr.rename_columns_in_query(q, mapping), {"sql": sql})
                ok &= compare(acc, f"expressions-{k} {sql}", f"replacing column expressions {names}", want, lambda: tr.replace_expressions(q, lambda e: tr.rename_columns_in_expression(e, mapping)), {"sql": sql}) if k != 2 else True
            vcols = {colkey(c): (colkey(c)[0], colkey(c)[1] + "9") for c in q.columns() if c.table is not None and colkey(c)[0] in VALS}
            if vcols:
                tab = {colkey(c)[0]: c.table for c in q.columns() if c.table}
                for x, y in vcols.items():
                    want = ref_columns(sql, {x: y}, True)
                    ok &= compare(acc, f"values-columns {sql}", f"renaming column {x}", want, lambda: tr.rename_columns_in_query(q, {C(x[1], tab[x[0]]): C(y[1], tab[x[0]])}), {"sql": sql})
            ok &= compare(acc, f"identity {sql}", "replacing expressions by themselves", pgast.canon(sql), lambda: tr.replace_expressions(q, lambda e: e), {"sql": sql})
            tabs = {}
            for t in q.tables():
                tabs.setdefault(t.identifier().lower(), []).append(t)
            for ident in ("r", "s", "s2", "q", "v", "f"):
                if len(tabs.get(ident, ())) != 1:
                    continue
                t = tabs[ident][0]
                key = ("", t.alias.lower()) if t.virtual and t.alias and not t.full_name.lower() else (t.full_name.lower(), t.alias.lower() or "")
                cte = t.virtual and f" {ident} AS (" in sql.replace(" AS MATERIALIZED", " AS").replace(" AS NOT MATERIALIZED", " AS").replace("(x)", "").replace("(x, y)", "").replace("RECURSIVE ", "")
                if cte and f"{ident} AS " in sql.split("WITH")[-1].split(")", 1)[1]:
                    continue
                if cte and f") AS {ident}" in sql:
                    continue
                for target in ((("z8", ""),) if t.virtual else (("z8", ""), ("big", "z8"))):
                    tt = T(*target) if not t.virtual else T.create_virtual("z8")
                    if t.virtual:
                        key, target = (("", ident), ("", "z8")) if not cte else ((ident, ""), ("z8", ""))
                    for prefix in (False, True):
                        if t.virtual and prefix:
                            continue
                        want = ref_tables(sql, {key: target}, prefix)
                        ok &= compare(acc, f"table-{ident}-{prefix} {sql}", f"renaming table {t} to {tt} (prefix columns: {prefix})", want, lambda: tr.rename_table(q, t, tt, prefix_column_names=prefix), {"sql": sql})
                        ok &= compare(acc, f"tabledict-{ident}-{prefix} {sql}", f"renaming table {t} to {tt} given as mapping (prefix columns: {prefix})", want, lambda: tr.rename_table(q, {t: tt}, prefix_column_names=prefix), {"sql": sql})
            if len(tabs.get("r", ())) == 1 and len(tabs.get("s", ())) == 1 and not tabs["r"][0].virtual and not tabs["s"][0].virtual:
                r, s = tabs["r"][0], tabs["s"][0]
                want = ref_tables(sql, {(r.full_name.lower(), r.alias.lower()): ("y", ""), (s.full_name.lower(), s.alias.lower()): ("x", "z")}, False)
                ok &= compare(acc, f"two-tables {sql}", "renaming two tables", want, lambda: tr.rename_table(q, {r: T("y"), s: T("x", "z")}), {"sql": sql})
            if str(q) != before:
                acc.violate(f"mutated {sql}", f"the transformed query changed to {q}", {"sql": sql})
            acc.case(sql, ok)
    return fn


VALS = ("v", "d")


def values_queries():
    yield "SELECT v.x FROM (VALUES (1, 2), (3, 4)) AS v(x, y) WHERE v.y = 1"
    yield "SELECT v.x, r.a FROM r, LATERAL (VALUES (r.a, 2), (3, r.b)) AS v(x, y) WHERE v.y = r.b"
    yield "WITH d(x) AS (VALUES ((SELECT r.a FROM r))) SELECT d.x FROM d"
    yield "SELECT v.x, r.a FROM r, (VALUES (1, 2), (3, 4)) AS v(x, y) WHERE v.y = r.b"
    yield "SELECT * FROM r JOIN (VALUES (1, 2), (3, 4)) AS v(x, y) ON v.y = r.b ORDER BY v.x"
    yield "WITH d(x) AS (VALUES (1), (2)) SELECT d.x FROM d"
    yield "WITH d(x, y) AS (VALUES (1, 2)), e AS (SELECT r.a FROM r) SELECT d.x FROM d, e WHERE d.y = e.a"
    yield "WITH d(x, y) AS (VALUES (1, 2)), e AS (SELECT d.x FROM d WHERE d.y = 1) SELECT e.x FROM e, r WHERE r.a = e.x"
    for e in ("f.a", "1"):
        yield f"SELECT {e} FROM generate_series(1, 3) AS f"
        yield f"SELECT r.a FROM r, generate_series(1, 3) AS f WHERE r.a = {e}"


# -- 2. clause level transformations ---------------------------------------------------------------------------------------
TAG = {qal.Select: ("targetList", "distinctClause"), qal.From: ("fromClause",), qal.Where: ("whereClause",), qal.GroupBy: ("groupClause", "groupDistinct"), qal.Having: ("havingClause",), qal.OrderBy: ("sortClause",), qal.Limit: ("limitCount", "limitOffset", "limitOption"), qal.CommonTableExpression: ("withClause",)}
DONOR = "WITH w9 AS (SELECT t.b FROM t) SELECT w9.b AS k FROM w9 WHERE w9.b = 9 GROUP BY w9.b HAVING count(*) = 9 ORDER BY w9.b DESC LIMIT 9"


def stmt(tree):
    s = tree[0]["stmt"]
    return s["ExplainStmt"]["query"]["SelectStmt"] if "ExplainStmt" in s else s["SelectStmt"]


def dump(tree):
    return json.dumps(pgast.norm(tree), sort_keys=True)


def setq(s, tags, donor=None):
    for t in tags:
        s.pop(t, None)
        if donor is not None and t in donor:
            s[t] = copy.deepcopy(donor[t])
    if tags[0] == "limitCount" and donor is None:
        s["limitOption"] = "LIMIT_OPTION_DEFAULT"
    return s


def clause_of(q, kind):
    return next((c for c in q.clauses() if isinstance(c, kind)), None)


def clauses_part(gen):
    donor_q = pb.parse_query(DONOR)
    donor = stmt(pgast.raw(DONOR))
    count_donor, star_donor = stmt(pgast.raw("SELECT count(*)")), stmt(pgast.raw("SELECT *"))

    def fn(acc, i, n):
        for sql in sliced(gen(), i, n):
            q = parse(sql)
            if q is None:
                acc.case(None, "not supported")
                continue
            before, base, ok, d = str(q), pgast.raw(sql), True, {"sql": sql}
            plain = copy.deepcopy(base)
            if "ExplainStmt" in plain[0]["stmt"]:
                plain[0]["stmt"] = plain[0]["stmt"]["ExplainStmt"]["query"]
            for text, res in ((f"{qal.Explain.plan()} SELECT 1", lambda: tr.as_explain(q)), (f"{qal.Explain.explain_analyze()} SELECT 1", lambda: tr.as_explain_analyze(q)), ("EXPLAIN (FORMAT JSON) SELECT 1", lambda: tr.as_explain(q, qal.Explain(False, "JSON")))):
                e = pgast.raw(text)
                e[0]["stmt"]["ExplainStmt"]["query"] = plain[0]["stmt"]
                ok &= compare(acc, f"{text} {sql}", f"as {text[:-9]}", dump(e), res, d)
            for drop in (qal.Explain, qal.Explain.plan()):
                ok &= compare(acc, f"drop explain {sql}", "dropping EXPLAIN", dump(plain), lambda: tr.drop_clause(q, drop), d)
            if isinstance(q, qal.SetQuery):
                for kind in (qal.OrderBy, qal.Limit, qal.CommonTableExpression):
                    want = copy.deepcopy(base)
                    setq(stmt(want), TAG[kind])
                    ok &= compare(acc, f"drop {kind.__name__} {sql}", f"dropping {kind.__name__}", dump(want), lambda: tr.drop_clause(q, kind), d)
                    want = copy.deepcopy(base)
                    setq(stmt(want), TAG[kind], donor)
                    ok &= compare(acc, f"add {kind.__name__} {sql}", f"adding {kind.__name__}", dump(want), lambda: tr.add_clause(q, clause_of(donor_q, kind)), d)
            else:
                for name, dn, f in (("count", count_donor, tr.as_count_star_query), ("star", star_donor, tr.as_star_query)):
                    w1, w2 = copy.deepcopy(base), copy.deepcopy(base)
                    setq(stmt(w1), ("targetList", "distinctClause"), dn)
                    setq(stmt(w2), ("targetList",), dn)
                    ok &= compare(acc, f"{name} {sql}", f"as {name} query", [dump(w1), dump(w2)], lambda: f(q), d)
                for kind, tags in TAG.items():
                    present = clause_of(q, kind)
                    new = clause_of(donor_q, kind)
                    if kind is not qal.Select:
                        want = copy.deepcopy(base)
                        setq(stmt(want), tags)
                        for drop in [kind] + ([present, type(present)] if present else []):
                            ok &= compare(acc, f"drop {kind.__name__} {sql}", f"dropping {drop}", dump(want), lambda: tr.drop_clause(q, drop), d)
                    want = copy.deepcopy(base)
                    setq(stmt(want), tags, donor)
                    ok &= compare(acc, f"add {kind.__name__} {sql}", f"adding {new}", dump(want), lambda: tr.add_clause(q, new), d)
                    ok &= compare(acc, f"add2 {kind.__name__} {sql}", f"adding {new}", dump(want), lambda: tr.add_clause(q, [new]), d)
                    if present and isinstance(new, type(present)):
                        ok &= compare(acc, f"replace {kind.__name__} {sql}", f"replacing with {new}", dump(want), lambda: tr.replace_clause(q, new), d)
                    elif not present:
                        ok &= compare(acc, f"replace {kind.__name__} {sql}", f"replacing absent clause with {new}", pgast.canon(sql), lambda: tr.replace_clause(q, new), d)
                for k1, k2 in itertools.combinations([k for k in TAG if k is not qal.Select and k is not qal.From], 2):
                    want = copy.deepcopy(base)
                    setq(setq(stmt(want), TAG[k1]), TAG[k2])
                    ok &= compare(acc, f"drop two {k1.__name__} {k2.__name__} {sql}", "dropping two clauses", dump(want), lambda: tr.drop_clause(q, [k1, clause_of(q, k2) or k2]), d)
                    want = copy.deepcopy(base)
                    setq(setq(stmt(want), TAG[k1], donor), TAG[k2], donor)
                    ok &= compare(acc, f"add two {k1.__name__} {k2.__name__} {sql}", "adding two clauses", dump(want), lambda: tr.add_clause(q, [clause_of(donor_q, k2), clause_of(donor_q, k1)]), d)
                    if clause_of(q, k1) and clause_of(q, k2):
                        ok &= compare(acc, f"replace two {k1.__name__} {k2.__name__} {sql}", "replacing two clauses", dump(want), lambda: tr.replace_clause(q, [clause_of(donor_q, k2), clause_of(donor_q, k1)]), d)
            # hints: are part of the query, do not influence anything else
            for prep, hints in (("SET x = 1;", "/*+ SeqScan(r) */"), ("", "/*+ SeqScan(r) */"), ("SET x = 1;", "")):
                acc.step()
                try:
                    hinted = tr.add_clause(q, qal.Hint(prep, hints))
                    for name, res in (("drop", tr.drop_hints(hinted)), ("type", tr.drop_clause(hinted, qal.Hint))):
                        if res.hints or str(res) != before or not (res == q):
                            ok = False
                            acc.violate(f"hints {name} {sql}", f"dropping hints {prep!r} {hints!r} yields {res}", d)
                    kept = tr.drop_hints(hinted, preparatory_statements_only=True)
                    got = (kept.hints.preparatory_statements, kept.hints.query_hints) if kept.hints else ("", "")
                    if got != ("", hints) or str(tr.drop_hints(kept)) != before:
                        ok = False
                        acc.violate(f"hints prep {sql}", f"dropping preparatory statements of {prep!r} {hints!r} yields {got} in {kept}", d)
                    for name, res in (("explain", tr.as_explain(hinted)), ("rename", tr.rename_columns_in_query(hinted, {})), ("expressions", tr.replace_expressions(hinted, lambda e: e)), ("table", tr.rename_table(hinted, T("none"), T("nil")))):
                        if not res.hints or (res.hints.preparatory_statements, res.hints.query_hints) != (prep, hints):
                            ok = False
                            acc.violate(f"hints lost {name} {sql}", f"{name} loses the hints: {res}", d)
                except Exception as e:
                    ok = False
                    acc.violate(f"hints {sql}", f"transformation of hints raises {short(e)}", d)
            if str(q) != before:
                acc.violate(f"mutated {sql}", f"the transformed query changed to {q}", d)
            acc.case(sql, ok)
    return fn


# -- 3. fragments ------------------------------------------------------------------------------------------------------------
LEAVES = [("r.a = 1", "r"), ("s.d < 2", "s"), ("r.a = s.a", "rs"), ("s.a = t.b", "st"), ("r.b + t.e > 1", "rt"), ("t.e IS NULL", "t"), ("r.b IN (1, 2)", "r")]
# a predicate is a leaf (text, tables) or (operator, *children)


def is_leaf(p):
    return p[0] not in ("AND", "OR", "NOT")


def text(p):
    if is_leaf(p):
        return p[0]
    if p[0] == "NOT":
        return f"NOT ({text(p[1])})"
    return f" {p[0]} ".join(f"({text(x)})" if not is_leaf(x) else text(x) for x in p[1:])


def used(p):
    return set(p[1]) if is_leaf(p) else set().union(*map(used, p[1:]))


def frags(p, tabs):
    """all readings of the documented fragment of a predicate (a negation that is only partially covered may be dropped or cut)"""
    if is_leaf(p):
        return [p] if used(p) <= tabs else [None]
    if p[0] == "NOT":
        if used(p) <= tabs:
            return [p]
        return [None] + [("NOT", x) for x in frags(p[1], tabs) if x]
    out = []
    for combo in itertools.product(*(frags(x, tabs) for x in p[1:])):
        kept = [x for x in combo if x]
        out.append(None if not kept else kept[0] if len(kept) == 1 else (p[0], *kept))
    return out


def predicates(level, leaves):
    yield from leaves
    if level:
        sub = list(predicates(level - 1, leaves))
        for x in sub:
            yield ("NOT", x)
        for op in ("AND", "OR"):
            for x, y in itertools.product(sub, sub):
                yield (op, x, y)


def unordered(sql):
    tree = pgast.raw(sql)
    s = stmt(tree)
    if "fromClause" in s:
        s["fromClause"] = sorted(s["fromClause"], key=lambda x: json.dumps(pgast.norm(x), sort_keys=True))
    return dump([{"stmt": {"SelectStmt": s}}])


def subsets(names):
    for k in range(1, len(names) + 1):
        yield from itertools.combinations(names, k)


FROMS = {"r": "r", "s": "s", "t": "t"}


def check_fragment(acc, key, sql, q, tabs, wants, projections=("keep",), detail=None):
    refs = [t for t in q.tables() if t.identifier() in tabs]
    for arg in ([refs] if len(refs) > 1 else [refs, refs[0]]):
        acc.step()
        try:
            out = tr.extract_query_fragment(q, arg)
            got = None if out is None else unordered(str(out))
        except Exception as e:
            acc.violate(key, f"fragment for {'/'.join(tabs)} raises {short(e)}", detail or {"sql": sql})
            return False
        if got not in [None if w is None else unordered(w) for w in wants]:
            acc.violate(key, f"fragment for {'/'.join(tabs)} is {out}, expected {wants[0]}", detail or {"sql": sql})
            return False
    return True


def fragment_predicates(level, leaves):
    def fn(acc, i, n):
        for p in sliced(predicates(level, leaves), i, n):
            sql = f"SELECT * FROM r, s, t WHERE {text(p)}"
            q = parse(sql)
            if q is None:
                acc.case(None, "not supported")
                continue
            ok = True
            for tabs in subsets("rst"):
                wants = [f"SELECT * FROM {', '.join(tabs)}" + (f" WHERE {text(f)}" if f else "") for f in frags(p, set(tabs))]
                ok &= check_fragment(acc, f"fragment {tabs} {sql}", sql, q, tabs, wants)
            acc.case(sql, ok)
    return fn


TARGETS = [("r.a", "r"), ("s.d AS x", "s"), ("r.a + s.a AS y", "rs"), ("count(*)", ""), ("r.*", "r"), ("1", ""), ("max(t.e)", "t"), ("CASE WHEN t.b = 1 THEN r.b ELSE s.a END", "rst")]
DISTINCTS = [(), ("DISTINCT",), ("DISTINCT ON", ("r.a", "r"), ("s.a", "s"))]
GROUPINGS = [(), (("r.a", "r"),), (("r.a", "r"), ("s.d", "s"), ("r.b + t.e", "rt")), (("1", ""),)]
HAVINGS = [None, ("count(*) > 1", ""), ("AND", ("max(r.a) > 1", "r"), ("OR", ("min(s.d) = 1", "s"), ("count(*) < 5", "")))]
ORDERINGS = [(), (("r.a DESC", "r"), ("t.e NULLS FIRST", "t")), (("s.a + r.a", "rs"), ("1", ""))]


def fragment_clauses(acc, i, n):
    sels = [[t] for t in TARGETS] + [list(x) for x in itertools.combinations(TARGETS, 2)] + [[("*", "")]] + [TARGETS[:4]]
    for sel, dis, grp, hav, odr, lim in sliced(itertools.product(sels, DISTINCTS, GROUPINGS, HAVINGS, ORDERINGS, ("", "LIMIT 3")), i, n):
        def build(tabs, where="", sel=sel):
            inside = lambda x: set(x[1]) <= set(tabs)  # noqa: E731
            s = [x[0] for x in sel if inside(x)] or ["*"]
            d = ""
            if dis:
                d = dis[0] + " "
                if len(dis) > 1:
                    on = [x[0] for x in dis[1:] if inside(x)]
                    d = f"DISTINCT ON ({', '.join(on)}) " if on else None
            g_ = [x[0] for x in grp if inside(x)]
            h = frags(hav, set(tabs))[0] if hav else None
            o = [x[0] for x in odr if inside(x)]
            for dd in ([d] if d is not None else ["", "DISTINCT "]):
                yield " ".join(x for x in (f"SELECT {dd}{', '.join(s)} FROM {', '.join(tabs)}", "GROUP BY " + ", ".join(g_) if g_ else "", f"HAVING {text(h)}" if h else "", "ORDER BY " + ", ".join(o) if o else "", lim) if x)

        (sql,) = build("rst")
        q = parse(sql)
        if q is None:
            acc.case(None, "not supported")
            continue
        ok = True
        for tabs in subsets("rst"):
            ok &= check_fragment(acc, f"fragment-clauses {tabs} {sql}", sql, q, tabs, list(build(tabs)))
            refs = [t for t in q.tables() if t.identifier() in tabs]
            want_star = list(build(tabs, sel=[("*", "")]))[0]
            for proj, target in (("star", "*"), ("*", "*"), ("count_star", "count(*)")):
                acc.step()
                try:
                    got = unordered(str(tr.extract_query_fragment(q, refs, projection=proj)))
                    want = copy.deepcopy(pgast.raw(want_star))
                    for w in (want,):
                        setq(stmt(w), ("targetList", "distinctClause"), stmt(pgast.raw(f"SELECT {target}")))
                    tree = stmt(want)
                    tree["fromClause"] = sorted(tree["fromClause"], key=lambda x: json.dumps(pgast.norm(x), sort_keys=True))
                    if got != dump([{"stmt": {"SelectStmt": tree}}]):
                        ok = False
                        acc.violate(f"fragment-{proj} {tabs} {sql}", f"fragment for {'/'.join(tabs)} with projection {proj} is {tr.extract_query_fragment(q, refs, projection=proj)}", {"sql": sql})
                except Exception as e:
                    ok = False
                    acc.violate(f"fragment-{proj} {tabs} {sql}", f"fragment for {'/'.join(tabs)} with projection {proj} raises {short(e)}", {"sql": sql})
        acc.case(sql, ok)


SPECIAL = [  # query, tables, accepted fragments
    ("SELECT * FROM r AS r1, r AS r2 WHERE r1.a = r2.a AND r1.b = 1 AND r2.b = 2", "r1", ["SELECT * FROM r AS r1 WHERE r1.b = 1"]),
    ("SELECT * FROM r AS r1, r AS r2 WHERE r1.a = r2.a AND r1.b = 1 AND r2.b = 2", "r2", ["SELECT * FROM r AS r2 WHERE r2.b = 2"]),
    ("WITH c AS (SELECT u.z FROM u) SELECT c.z, r.a FROM c, r WHERE c.z = r.a AND c.z = 1", "c", ["WITH c AS (SELECT u.z FROM u) SELECT c.z FROM c WHERE c.z = 1"]),
    ("WITH c AS (SELECT u.z FROM u) SELECT c.z, r.a FROM c, r WHERE c.z = r.a AND c.z = 1", "r", ["SELECT r.a FROM r"]),
    ("WITH c AS (SELECT u.z FROM u) SELECT * FROM c, r WHERE c.z = r.a AND c.z = 1", "c r", ["WITH c AS (SELECT u.z FROM u) SELECT * FROM c, r WHERE c.z = r.a AND c.z = 1"]),
    ("WITH c AS (SELECT u.z FROM u), d AS (SELECT c.z FROM c WHERE c.z = 2) SELECT * FROM d, r WHERE d.z = r.a", "d", ["WITH c AS (SELECT u.z FROM u), d AS (SELECT c.z FROM c WHERE c.z = 2) SELECT * FROM d"]),
    ("WITH c AS (SELECT u.z FROM u), d AS (SELECT c.z FROM c WHERE c.z = 2) SELECT * FROM d, r WHERE d.z = r.a", "r", ["SELECT * FROM r"]),
    ("WITH c AS (SELECT u.z FROM u), d AS (SELECT 1 AS k) SELECT * FROM c, d, r WHERE c.z = r.a AND d.k = r.b", "d r", ["WITH d AS (SELECT 1 AS k) SELECT * FROM d, r WHERE d.k = r.b"]),
    ("WITH c AS (SELECT u.z FROM u) SELECT * FROM c AS c2, r WHERE c2.z = r.a", "c2", ["WITH c AS (SELECT u.z FROM u) SELECT * FROM c AS c2"]),
    ("SELECT * FROM r, s WHERE r.a = s.a AND r.b IN (SELECT t.b FROM t)", "r s t", ["SELECT * FROM r, s WHERE r.a = s.a AND r.b IN (SELECT t.b FROM t)"]),
    ("SELECT * FROM r, s WHERE r.a = s.a AND EXISTS (SELECT 1 FROM t WHERE t.b = r.b)", "r t", ["SELECT * FROM r WHERE EXISTS (SELECT 1 FROM t WHERE t.b = r.b)"]),
    ("SELECT * FROM r, s WHERE r.a = s.a AND r.b IN (SELECT t.b FROM t)", "r", ["SELECT * FROM r", "SELECT * FROM r WHERE r.b IN (SELECT t.b FROM t)"]),
    ("SELECT * FROM r, s WHERE r.a = s.a", "u", [None]),
    ("SELECT * FROM r, s WHERE r.a = s.a", "r u", [None]),
    ("SELECT r.a FROM r, s WHERE r.a = s.a AND r.b = 1 UNION SELECT s.d FROM r, s WHERE s.d = 3 ORDER BY 1 LIMIT 2", "r s", ["SELECT r.a FROM r, s WHERE r.a = s.a AND r.b = 1 UNION SELECT s.d FROM r, s WHERE s.d = 3 ORDER BY 1 LIMIT 2"]),
    ("SELECT r.a FROM r, s WHERE r.a = s.a AND r.b = 1 EXCEPT SELECT r.b FROM r, s WHERE s.d = 3 AND r.a = 2", "r", ["SELECT r.a FROM r WHERE r.b = 1 EXCEPT SELECT r.b FROM r WHERE r.a = 2"]),
]


def fragment_special(acc, i, n):
    for sql, names, wants in sliced(SPECIAL, i, n):
        q = pb.parse_query(sql)
        known = {t.identifier(): t for t in q.tables()}
        refs = [known.get(x, T(x)) for x in names.split()]
        acc.step()
        try:
            out = tr.extract_query_fragment(q, refs)
            got = None if out is None else unordered(str(out)) if not isinstance(out, qal.SetQuery) else pgast.canon(str(out))
            expected = [None if w is None else unordered(w) if not isinstance(out, qal.SetQuery) else pgast.canon(w) for w in wants]
            if got not in expected:
                acc.violate(f"fragment-special {names} {sql}", f"fragment for {names} is {out}, expected {wants[0]}", {"sql": sql})
        except Exception as e:
            acc.violate(f"fragment-special {names} {sql}", f"fragment for {names} raises {short(e)}", {"sql": sql})
        acc.case((sql, names))


# -- 4. predicates -------------------------------------------------------------------------------------------------------------
def remove_ref(p, target):
    if p == target:
        return None
    if is_leaf(p):
        return p
    kids = [x for x in (remove_ref(y, target) for y in p[1:]) if x]
    if not kids:
        return None
    if p[0] != "NOT" and len(kids) == 1:
        return kids[0]
    return (p[0], *kids)


def replace_ref(p, target, new):
    if p == target:
        return new
    return p if is_leaf(p) else (p[0], *(replace_ref(x, target, new) for x in p[1:]))


def tree(p):
    """the predicate as a normalised value: nested conjunctions/disjunctions flattened, as an (unordered) multiset"""
    if is_leaf(p):
        return p[0]
    if p[0] == "NOT":
        return ("NOT", tree(p[1]))
    kids = []
    for x in p[1:]:
        t = tree(x)
        kids += list(t[1]) if t[0] == p[0] else [t]
    return (p[0], tuple(sorted(kids, key=repr)))


def lift(pred, index):
    if not isinstance(pred, qal.CompoundPredicate):
        return index[str(pred)]
    if pred.operation == qal.CompoundOperator.Not:
        return ("NOT", lift(pred.children, index))
    return (pred.operation.value.upper(), *(lift(x, index) for x in pred.children))


ATOMS = [("r.a = 1", "r"), ("s.d < 2", "s"), ("r.a = s.a", "rs")]


def predicate_ops(level):
    def fn(acc, i, n):
        atom = {x[0]: pb.parse_query(f"SELECT * FROM r, s WHERE {x[0]}").where_clause.predicate for x in ATOMS}
        fresh = pb.parse_query("SELECT * FROM r, s WHERE r.b = 9 OR s.d = 9").where_clause.predicate
        new_leaf = ("r.b = 9 OR s.d = 9", "rs")
        index = {str(p): (k, "") for k, p in atom.items()}

        def real(p):
            if p is new_leaf:
                return fresh
            if is_leaf(p):
                return atom[p[0]]
            if p[0] == "NOT":
                return qal.CompoundPredicate.create_not(real(p[1]))
            return qal.CompoundPredicate(qal.CompoundOperator.And if p[0] == "AND" else qal.CompoundOperator.Or, [real(x) for x in p[1:]])

        def norm_real(p):
            return None if p is None else tree(lift(p, index))

        def plain(p):
            return p if not is_leaf(p) else (p[0], "")

        for p in sliced(predicates(level, ATOMS), i, n):
            rp = real(p)
            before = str(rp)
            subs = []

            def collect(x):
                if x not in subs:
                    subs.append(x)
                if not is_leaf(x):
                    for y in x[1:]:
                        collect(y)

            collect(p)
            for x in ATOMS:
                if x not in subs:
                    subs.append(x)
            acc.step(len(subs) + 1)
            try:
                flat = tr.flatten_and_predicate(rp)
                # duplicates may collapse
                if {norm_real(flat)} != {tree(p)} and dedup(norm_real(flat)) != dedup(tree(p)):
                    acc.violate(f"flatten {text(p)}", f"flattening {rp} yields {flat}", {})
                if isinstance(flat, qal.CompoundPredicate) and flat.operation == qal.CompoundOperator.And and any(isinstance(x, qal.CompoundPredicate) and x.operation == qal.CompoundOperator.And for x in flat.children):
                    acc.violate(f"flatten {text(p)}", f"flattening {rp} leaves nested conjunctions: {flat}", {})
            except Exception as e:
                acc.violate(f"flatten {text(p)}", f"flattening {rp} raises {short(e)}", {})
            for x in subs:
                try:
                    got = tr.remove_predicate(rp, real(x))
                    want = remove_ref(p, x)
                    if norm_real(got) != (None if want is None else tree(want)):
                        acc.violate(f"remove {text(x)} {text(p)}", f"removing {real(x)} from {rp} yields {got}, expected {want and text(want)}", {})
                except Exception as e:
                    acc.violate(f"remove {text(x)} {text(p)}", f"removing {real(x)} from {rp} raises {short(e)}", {})
                for where, having in ((True, False), (False, True), (True, True)):
                    acc.step()
                    sql = "SELECT r.a FROM r, s" + (f" WHERE {text(p)}" if where else "") + " GROUP BY r.a, s.d, s.a, r.b" + (f" HAVING {text(p)}" if having else "")
                    cl = [qal.Select.star(), qal.ImplicitFromClause.create_for([T("r"), T("s")])] + ([qal.Where(rp)] if where else []) + ([qal.Having(rp)] if having else [])
                    q = qal.build_query(cl)
                    try:
                        out = tr.replace_predicate(q, real(x), fresh)
                        want = replace_ref(p, x, new_leaf)
                        wsql = "SELECT * FROM r, s" + (f" WHERE {text(paren(want, new_leaf))}" if where else "") + (f" HAVING {text(paren(want, new_leaf))}" if having else "")
                        if pgast.canon(str(out)) != pgast.canon(wsql):
                            acc.violate(f"replace {text(x)} {text(p)}", f"replacing {real(x)} in {q} yields {out}", {})
                    except Exception as e:
                        acc.violate(f"replace {text(x)} {text(p)}", f"replacing {real(x)} in {q} raises {short(e)}", {})
            if str(rp) != before:
                acc.violate(f"mutated {text(p)}", f"{before} changed to {rp}", {})
            acc.case(text(p), len(subs))
    return fn


def paren(p, leaf):
    if p is leaf:
        return ("(" + leaf[0] + ")", "")
    return p if is_leaf(p) else (p[0], *(paren(x, leaf) for x in p[1:]))


def dedup(t):
    if t is None or isinstance(t, str):
        return t
    if t[0] == "NOT":
        return ("NOT", t[1])
    if t[0] == "OR":
        return t
    kids = sorted(set(t[1]), key=repr)
    return kids[0] if len(kids) == 1 else ("AND", tuple(kids))


def expansions(acc, i, n):
    for p in sliced(predicates(1, LEAVES), i, n):
        sql = f"SELECT * FROM {', '.join(sorted(used(p)))} WHERE {text(p)}"
        q = parse(sql)
        if q is None:
            acc.case(None, "not supported")
            continue
        acc.step()
        try:
            out = tr.expand_to_query(q.where_clause.predicate)
            if unordered(str(out)) != unordered(sql):
                acc.violate(f"expand {sql}", f"expansion is {out}", {"sql": sql})
        except Exception as e:
            acc.violate(f"expand {sql}", f"expansion raises {short(e)}", {"sql": sql})
        acc.case(sql)


def merging(acc, i, n):
    wheres = ["", "WHERE r.a = s.a", "WHERE r.a = s.a AND s.a = t.b AND r.b = 1", "WHERE r.a = s.a OR t.b = s.d", "WHERE r.b IN (SELECT u.z FROM u WHERE u.z = s.a)"]
    tails = ["", "ORDER BY r.a, t.b", "GROUP BY r.a, s.d HAVING max(t.e) > 1"]
    for sel, w, tl, tabs, target in sliced(itertools.product(["*", "r.a, s.d", "count(*)", "r.b + t.b AS x"], wheres, tails, list(subsets("rst")), [("m", ""), ("mm", "m")]), i, n):
        sql = f"SELECT {sel} FROM r, s, t {w} {tl}"
        q = parse(sql)
        if q is None:
            acc.case(None, "not supported")
            continue
        acc.step()
        try:
            out = tr.merge_tables(q, [t for t in q.tables() if t.identifier() in tabs], target=T(*target))
            tr_ = pgast.raw(sql)
            s = stmt(tr_)
            s["fromClause"] = [x for x in s["fromClause"] if x["RangeVar"]["relname"] not in tabs] + stmt(pgast.raw(f"SELECT 1 FROM {target[0]} {target[1]}"))["fromClause"]

            def visit(kind, node):
                if kind == "ColumnRef":
                    f = fields(node)
                    if f[0] in tabs and len(f) == 2:
                        node["fields"][0] = S("m")

            each(tr_, visit)
            s["fromClause"] = sorted(s["fromClause"], key=lambda x: json.dumps(pgast.norm(x), sort_keys=True))
            if unordered(str(out)) != dump([{"stmt": {"SelectStmt": s}}]):
                acc.violate(f"merge {tabs} {sql}", f"merging {tabs} into {target} yields {out}", {"sql": sql})
        except Exception as e:
            acc.violate(f"merge {tabs} {sql}", f"merging {tabs} into {target} raises {short(e)}", {"sql": sql})
        acc.case((sql, tabs, target))


# -- 5. transformations that restructure the query, judged by the results they produce in a database -------------------------------
_DB = []


def database():
    if not _DB:
        import quacklab

        con = quacklab.connect(":memory:")
        con.execute("SET threads=1")
        dom = ("1", "2", "NULL")
        allrows = [f"({x}, {y})" for x in dom for y in dom]
        contents = {"univ": {"r": allrows, "s": allrows, "t": allrows}, "dups": {"r": allrows[:4] * 2 + allrows[4:], "s": allrows[1:3] * 3, "t": allrows[3:6] + allrows[3:4]}, "none": {"r": [], "s": allrows, "t": allrows}}
        for schema, tabs in contents.items():
            con.execute(f"CREATE SCHEMA {schema}")
            for t, cols in (("r", "a INT, b INT"), ("s", "a INT, d INT"), ("t", "b INT, e INT")):
                con.execute(f"CREATE TABLE {schema}.{t} ({cols})")
                if tabs[t]:
                    con.execute(f"INSERT INTO {schema}.{t} VALUES {', '.join(tabs[t])}")
        _DB.append(con)
    return _DB[0]


def results(sql, ordered):
    con = database()
    out = []
    for schema in ("univ", "dups", "none"):
        con.execute(f"SET schema='{schema}'")
        cur = con.execute(sql)
        names = [d[0] for d in cur.description]
        rows = [tuple(repr(v) for v in row) for row in cur.fetchall()]
        out.append((names, rows if ordered else sorted(rows)))
    return out


def same_results(acc, key, what, sql, fn, *, allow=(), ordered=False, names=True):
    """fn may raise one of the allowed exceptions (documented limitations); otherwise its result has to behave like sql"""
    acc.step()
    try:
        want = results(sql, ordered)
    except Exception:
        acc.case(None, "rejected by the database")
        return
    try:
        out = fn()
    except Exception as e:
        if isinstance(e, allow):
            acc.case((key, sql), "refused")
        else:
            acc.violate(key, f"{what} raises {short(e)}", {"sql": sql})
        return
    try:
        got = results(str(out), ordered)
    except Exception as e:
        acc.violate(key, f"{what} yields {out}, which fails with {short(e)}", {"sql": sql})
        return
    for schema, (wn, w), (gn, g_) in zip(("univ", "dups", "none"), want, got):
        if w != g_ or (names and [x.lower() for x in wn] != [x.lower() for x in gn]):
            acc.violate(key, f"{what} yields {out}; on database {schema} this returns {len(g_)} rows {gn} {[x for x in g_ if x not in w][:2]}, the original {len(w)} rows {wn} {[x for x in w if x not in g_][:2]}", {"sql": sql})
            return
    acc.case((key, sql), "same")


RS = ["r.a = s.a", "r.a < s.d", "r.a = s.a AND r.b = s.d", "r.a = s.a OR r.b = 1", "NOT r.a = s.a", "r.a = s.a AND (r.b = 1 AND s.d = 2)"]
ST = ["s.a = t.b", "s.d <> t.e", "s.a = t.b AND t.e = 1", "s.a = t.b OR r.a = t.e"]
SEL = ["*", "r.b, s.d", "count(*)", "DISTINCT s.a, r.a", "s.*, r.a AS x", "r.a, count(*) AS n", "sum(s.d) AS q, min(r.b)"]
TAILS = ["", "WHERE r.b = 1", "WHERE r.b = 1 OR s.d = 2", "WHERE r.b = 1 AND s.d IN (1, 2) ORDER BY r.a NULLS LAST, r.b, s.a, s.d LIMIT 1000", "GROUP BY r.a", "GROUP BY r.a, s.a HAVING count(*) > 1", "WHERE EXISTS (SELECT 1 FROM t AS t2 WHERE t2.b = s.a)", "WHERE r.a = s.a AND r.a = 1"]


def explicit(full):
    for on, sel, tail in itertools.product(RS, SEL, TAILS):
        yield f"SELECT {sel} FROM r JOIN s ON {on} {tail}"
        yield f"SELECT {sel} FROM s JOIN r ON {on} {tail}"
    for on, on2, sel, tail in itertools.product(RS[:None if full else 4], ST, SEL, TAILS):
        yield f"SELECT {sel} FROM r JOIN s ON {on} JOIN t ON {on2} {tail}"
        if "r." not in on2:
            yield f"SELECT {sel} FROM r JOIN (s JOIN t ON {on2}) ON {on} {tail}"
            yield f"SELECT {sel} FROM (t JOIN s ON {on2}) JOIN r ON {on} {tail}"
    for on, sel in itertools.product(RS, SEL):
        for j in ("LEFT", "RIGHT", "FULL"):
            yield f"SELECT {sel} FROM r {j} JOIN s ON {on}"
            yield f"SELECT {sel} FROM r JOIN s ON {on} {j} JOIN t ON s.a = t.b"
        yield f"SELECT {sel} FROM r CROSS JOIN s WHERE {on}"
        yield f"SELECT {sel} FROM r JOIN (SELECT s.a, s.d FROM s) AS s ON {on}"
        yield f"WITH c AS (SELECT t.b FROM t WHERE t.e = 1) SELECT {sel} FROM r JOIN s ON {on} JOIN c ON c.b = r.b"
        yield f"SELECT {sel} FROM r, s JOIN t ON s.a = t.b WHERE {on}"
    for on in ("x.a = y.a", "x.a = y.b AND x.b = 1"):
        yield f"SELECT * FROM r AS x JOIN r AS y ON {on} WHERE y.b = 2"
        yield f"SELECT y.a, x.b FROM r AS x JOIN r AS y ON {on} JOIN s AS z ON z.a = x.a"


def to_implicit(full):
    def fn(acc, i, n):
        for sql in sliced(explicit(full), i, n):
            q = parse(sql)
            if not isinstance(q, qal.ExplicitSqlQuery) and not isinstance(q, qal.MixedSqlQuery):
                acc.case(None, "not supported")
                continue
            simple = not any(x in sql for x in ("LEFT", "RIGHT", "FULL", "CROSS", "JOIN (SELECT")) and isinstance(q, qal.ExplicitSqlQuery)
            conv = lambda: tr.explicit_to_implicit(q)  # noqa: E731
            same_results(acc, f"implicit {sql}", "conversion to implicit joins", sql, conv, allow=() if simple else (ValueError,))
            if simple:
                try:
                    out = conv()
                    if not isinstance(out, qal.ImplicitSqlQuery):
                        acc.violate(f"implicit-type {sql}", f"the result {out} is not an implicit query", {"sql": sql})
                    hinted = tr.explicit_to_implicit(tr.add_clause(tr.as_explain(q), qal.Hint("SET x = 1;", "/*+ SeqScan(r) */")))
                    if not hinted.hints or not hinted.explain:
                        acc.violate(f"implicit-hints {sql}", f"hints or EXPLAIN are lost: {hinted}", {"sql": sql})
                except Exception as e:
                    acc.violate(f"implicit-hints {sql}", f"conversion raises {short(e)}", {"sql": sql})
    return fn


CONJ = ["r.a = s.a", "s.a = t.b", "r.b = s.d", "r.a = t.b", "r.a < t.e", "(r.a = s.a OR s.d = t.e)", "r.a = 1", "s.d IS NOT NULL", "(r.b = 1 OR r.b = 2)", "NOT (r.a = s.a)", "r.a = r.b", "r.a = s.a + 1", "(NOT (s.d = 1 OR s.d = t.e))", "r.b IN (SELECT t2.e FROM t AS t2 WHERE t2.b = s.a)"]


def implicit(k, tables="r, s, t"):
    for j in range(0, k + 1):
        for combo in itertools.combinations(CONJ, j):
            w = f"WHERE {' AND '.join(combo)}" if combo else ""
            yield f"SELECT * FROM {tables} {w}"
            yield f"SELECT count(*) FROM {tables} {w}"
    for p in predicates(2, [("r.a = s.a", ""), ("s.a = t.b", ""), ("r.b = 1", "")]):
        yield f"SELECT * FROM {tables} WHERE {text(p)}"


def equivalence(k):
    def fn(acc, i, n):
        for sql in sliced(implicit(k), i, n):
            q = parse(sql)
            if q is None:
                acc.case(None, "not supported")
                continue
            same_results(acc, f"ec {sql}", "adding equivalence predicates", sql, lambda: tr.add_ec_predicates(q))
            try:  # the direct consequences of the join predicates are there
                joins = {frozenset(x) for x in (("r.a", "s.a"), ("s.a", "t.b"), ("r.b", "s.d"), ("r.a", "t.b")) if f" {x[0]} = {x[1]}" in sql.split("WHERE")[-1].replace("(", " (") and " OR " not in sql and "NOT" not in sql and "1" not in sql}
                if joins and "+" not in sql:
                    classes = closure(joins)
                    out = str(tr.add_ec_predicates(q))
                    for x, y in classes:
                        if x[0] != y[0] and f"{x} = {y}" not in out and f"{y} = {x}" not in out:
                            acc.violate(f"ec-missing {sql}", f"the implied predicate {x} = {y} is missing in {out}", {"sql": sql})
            except Exception as e:
                acc.violate(f"ec {sql}", f"adding equivalence predicates raises {short(e)}", {"sql": sql})
    return fn


def closure(pairs):
    pairs = {tuple(sorted(p)) for p in pairs}
    while True:
        new = {tuple(sorted(set(p) ^ set(q))) for p in pairs for q in pairs if len(set(p) ^ set(q)) == 2} | pairs
        if new == pairs:
            return pairs
        pairs = new


MOVE_SEL = ["r.b, t.e", "r.a, s.d, t.e", "count(*)", "DISTINCT s.d", "r.b + s.d AS x, t.b"]
MOVE_TAIL = ["", "ORDER BY t.e NULLS LAST, r.b NULLS LAST, s.d NULLS LAST LIMIT 1000", "GROUP BY r.b, t.e, s.d, r.a, t.b", "GROUP BY s.d HAVING max(r.b) >= 1"]


def moving(k):
    def fn(acc, i, n):
        def space():
            for j in range(0, k + 1):
                for combo in itertools.combinations(CONJ, j):
                    for sel, tail in itertools.product(MOVE_SEL, MOVE_TAIL):
                        yield combo, sel, tail

        for combo, sel, tail in sliced(space(), i, n):
            sql = f"SELECT {sel} FROM r, s, t {'WHERE ' + ' AND '.join(combo) if combo else ''} {tail}"
            q = parse(sql)
            if q is None:
                acc.case(None, "not supported")
                continue
            cols = {(c.table.identifier(), c.name) for c in q.columns() if c.table}
            for tabs in subsets("rst"):
                if len(tabs) < 2:
                    continue
                exported = [c for t, c in cols if t in tabs]
                clash = len(set(exported)) < len(exported)
                refs = [t for t in q.tables() if t.identifier() in tabs]
                for name in ("", "sub"):
                    same_results(acc, f"move {tabs} {name} {sql}", f"moving {'/'.join(tabs)} into a subquery", sql, lambda: tr.move_into_subquery(q, refs, name), allow=(ValueError,) if clash or "SELECT t2" in sql or not exported else ())
    return fn


def run(c: Check):
    c.part("renaming: single constructs", renaming(singles))
    c.part("renaming: clauses", renaming(single_clauses))
    c.part("renaming: nested", renaming(nested))
    c.part("renaming: set operations", renaming(setops))
    c.part("renaming: value lists and functions", renaming(values_queries))
    c.part("renaming: clause products", renaming(lambda: (s for k, s in enumerate(clauses(False)) if c.thorough or k % 3 == 0)))
    c.part("clauses: alternatives", clauses_part(single_clauses))
    c.part("clauses: products", clauses_part(lambda: (s for k, s in enumerate(clauses(False)) if c.thorough or k % 5 == 0)))
    c.part("fragments: predicates (depth 2)", fragment_predicates(2, LEAVES if c.thorough else LEAVES[:4]))
    c.part("fragments: clauses", fragment_clauses)
    c.part("fragments: special queries", fragment_special)
    c.part("predicates: removal, replacement, flattening (depth 2)", predicate_ops(2))
    c.part("predicates: expansion", expansions)
    c.part("merging tables", merging)
    c.part("results: explicit to implicit", to_implicit(c.thorough))
    c.part("results: equivalence predicates", equivalence(4 if c.thorough else 3))
    c.part("results: moving into a subquery", moving(3 if c.thorough else 2))
    c.finish()


run(Check("P06", "exploration",
          "every query of the stated grammars under every rewrite; the structure of the result is compared to the same rewrite of the syntax tree of PostgreSQL, results are compared by executing both queries in DuckDB; distinct by query"))
