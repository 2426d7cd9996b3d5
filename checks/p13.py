"""P13: pre-checks give the right verdict for every query shape, and combining checks never loses a failure."""
import itertools

from vlib import Check, short, sliced

import postbound as pb
from postbound import validation as va

# table components: text, exported column, flags
COMPONENTS = {
    "r": ("{n}", "{n}.a", set()),
    "alias": ("{n} AS {n}2", "{n}2.a", set()),
    "sub": ("(SELECT {n}.a FROM {n}) AS {n}q", "{n}q.a", {"fromsub", "sub", "virtual"}),
    "subouter": ("(SELECT {n}.a FROM {n} LEFT JOIN z ON {n}.b = z.b) AS {n}q", "{n}q.a", {"fromsub", "sub", "virtual", "outer"}),
    "subset": ("(SELECT {n}.a FROM {n} UNION SELECT z.a FROM z) AS {n}q", "{n}q.a", {"fromsub", "sub", "virtual"}),
    "values": ("(VALUES (1), (2)) AS {n}v(a)", "{n}v.a", {"fromsub", "virtual"}),
    "func": ("generate_series(1, 3) AS {n}f", "{n}f.a", {"fromsub", "virtual"}),
    "cte": ("w{n}", "w{n}.a", {"virtual", "cte"}),
}
# links: kind, text of the FROM connector, ON, WHERE, flags
LINKS = {
    "none": (",", None, None, {"cross"}),
    "eq": (",", None, "{x} = {y}", {"j:eq"}),
    "eq2": (",", None, "{x} = {y} AND {y} = {x}", {"j:eq"}),
    "three": (",", None, "{x} = {y} + {x}z", {"j:three"}),
    "eqlt": (",", None, "{x} = {y} AND {x} < {y}", {"j:eq", "j:lt"}),
    "innereqlt": ("JOIN", "({x} = {y} AND {x} >= {y})", None, {"j:eq", "j:lt", "explicit"}),
    "innereq2": ("JOIN", "({x} = {y} AND {y} = {x})", None, {"j:eq", "explicit"}),
    "lt": (",", None, "{x} < {y}", {"j:lt"}),
    "nest": (",", None, "abs({x}) = {y}", {"j:nest"}),
    "or": (",", None, "({x} = {y} OR {x} = {y} + 1)", {"j:or"}),
    "orlt": (",", None, "({x} = {y} OR {x} < {y})", {"j:or"}),
    "not": (",", None, "NOT {x} = {y}", {"j:not"}),
    "btw": (",", None, "{x} BETWEEN {y} AND 5", {"j:btw"}),
    "in": (",", None, "{x} IN ({y}, 5)", {"j:in"}),
    "like": (",", None, "{x} LIKE {y}", {"j:like"}),
    "inner": ("JOIN", "{x} = {y}", None, {"j:eq", "explicit"}),
    "innerlt": ("JOIN", "{x} >= {y}", None, {"j:lt", "explicit"}),
    "cross": ("CROSS JOIN", None, None, {"cross", "explicit", "crossjoin"}),
    "crosseq": ("CROSS JOIN", None, "{x} = {y}", {"j:eq", "explicit", "crossjoin"}),
    "left": ("LEFT JOIN", "{x} = {y}", None, {"j:eq", "explicit", "outer"}),
    "right": ("RIGHT JOIN", "{x} = {y}", None, {"j:eq", "explicit", "outer"}),
    "full": ("FULL JOIN", "{x} = {y}", None, {"j:eq", "explicit", "outer"}),
}
EXTRAS = {
    "-": (None, set()),
    "filter": ("{x} < 5", set()),
    "orfilter": ("({x} < 5 OR {x} IS NULL)", set()),
    "exists": ("EXISTS (SELECT 1 FROM y WHERE y.b = 1)", {"sub"}),
    "exdep": ("EXISTS (SELECT 1 FROM y WHERE y.b = {x})", {"sub", "dep"}),
    "nexdep": ("NOT EXISTS (SELECT 1 FROM y WHERE y.b = {x})", {"sub", "dep"}),
    "insub": ("{x} IN (SELECT y.b FROM y)", {"sub"}),
    "indep": ("{x} IN (SELECT y.b FROM y WHERE y.c > {x})", {"sub", "dep"}),
    "scalar": ("{x} = (SELECT max(y.b) FROM y)", {"sub"}),
    "sdep": ("{x} < (SELECT max(y.b) FROM y WHERE y.c = {x})", {"sub", "dep"}),
    "or-sub": ("({x} = 1 OR {x} IN (SELECT y.b FROM y WHERE y.c = {x}))", {"sub", "dep"}),
    "nested": ("EXISTS (SELECT 1 FROM y WHERE y.b IN (SELECT p.b FROM p WHERE p.c = y.c))", {"sub", "dep"}),
    "any": ("{x} = ANY (SELECT y.b FROM y)", {"sub"}),
    "case": ("CASE WHEN {x} IN (SELECT y.b FROM y) THEN true ELSE false END", {"sub"}),
    "math": ("{x} + (SELECT max(y.b) FROM y) > 3", {"sub"}),
}
TAILS = {
    "-": ("SELECT *", "", set()),
    "sel": ("SELECT (SELECT max(y.b) FROM y)", "", {"sub"}),
    "seldep": ("SELECT {x} + (SELECT max(y.b) FROM y WHERE y.c = {x})", "", {"sub", "dep"}),
    "having": ("SELECT {x}", "GROUP BY {x} HAVING count(*) > (SELECT max(y.b) FROM y)", {"sub"}),
    "order": ("SELECT {x}", "ORDER BY (SELECT max(y.b) FROM y)", {"sub"}),
    "group": ("SELECT max({x})", "GROUP BY {x}", set()),
}
NAMES = ["r", "s", "t"]


def build(comps, links, extra, tail):
    """-> (sql, flags, joins, edges are all connected)"""
    flags, joins, where, ctes = set(), set(), [], []
    cols = []
    text = ""
    parts = []
    for i, cname in enumerate(comps):
        src, col, fl = COMPONENTS[cname]
        src, col = src.format(n=NAMES[i]), col.format(n=NAMES[i])
        flags |= fl
        if "cte" in fl:
            ctes.append(f"w{NAMES[i]} AS (SELECT {NAMES[i]}.a FROM {NAMES[i]})")
        if i == 0:
            text = src
        else:
            conn, on, wh, lf = LINKS[links[i - 1]]
            x, y = cols[i - 1], col
            text += (", " if conn == "," else f" {conn} ") + src + (f" ON {on.format(x=x, y=y)}" if on else "")
            if wh:
                where.append(wh.format(x=x, y=y))
            joins |= {f for f in lf if f.startswith("j:")}
            flags |= {f for f in lf if not f.startswith("j:")}
        cols.append(col)
    ex, fl = EXTRAS[extra]
    flags |= fl
    if ex:
        where.append(ex.format(x=cols[0]))
    sel, rest, fl = TAILS[tail]
    flags |= fl
    sql = (f"WITH {', '.join(ctes)} " if ctes else "") + sel.format(x=cols[0]) + (f" FROM {text}" if text else "") + (" WHERE " + " AND ".join(where) if where else "") + " " + rest.format(x=cols[0])
    return sql.strip(), flags, joins, cols


def space():
    one = [((a,), ()) for a in COMPONENTS]
    two = [((a, b), (l,)) for a in COMPONENTS for b in COMPONENTS for l in LINKS]
    three = [((a, b, d), (l, m)) for a in ("r", "sub", "alias") for b in ("r", "cte") for d in ("r", "sub", "values") for l in LINKS for m in LINKS]
    for cs, ls in one:
        for e in EXTRAS:
            for t in TAILS:
                yield cs, ls, e, t
    for cs, ls in two:
        for e in EXTRAS:
            if not c.thorough and cs != ("r", "r") and e not in ("-", "exdep", "insub"):
                continue
            for t in TAILS:
                if not c.thorough and (e != "-" or cs != ("r", "r")) and t not in ("-", "sel"):
                    continue
                yield cs, ls, e, t
    for cs, ls in three:
        for e in EXTRAS if c.thorough else ("-", "exdep"):
            yield cs, ls, e, "-"


EQ_CONFIGS = list(itertools.product((False, True), repeat=2))


def verdicts(flags, joins):
    """check -> (passes or None when unspecified, expected reason)"""
    v = {
        "implicit": (not (flags & {"explicit", "sub-from", "setop", "novfrom"}) if not (flags & {"fromsub"}) else None, va.ImplicitFromClauseFailure),
        "cross": (None if "natural" in flags else "cross" not in flags, va.CrossProductFailure),
        "virtual": ("virtual" not in flags, va.VirtualTablesFailure),
        "subquery": ("sub" not in flags, va.SubqueryFailure),
        "dependent": ("dep" not in flags, va.DependentSubqueryFailure),
        "setop": ("setop" not in flags, "SET_OPERATION"),
        "inner": ("outer" not in flags, va.InnerJoinFailure),
    }
    for cj, ne in EQ_CONFIGS:
        ok = all(j == "j:eq" or (j == "j:nest" and ne) for j in joins)
        v[f"equi{cj}{ne}"] = (ok, va.EquiJoinFailure)
    return v


def checks():
    d = {
        "implicit": va.ImplicitQueryPreCheck(),
        "cross": va.CrossProductPreCheck(),
        "virtual": va.VirtualTablesPreCheck(),
        "subquery": va.SubqueryPreCheck(),
        "dependent": va.DependentSubqueryPreCheck(),
        "setop": va.SetOperationsPreCheck(),
        "inner": va.InnerJoinPreCheck(),
    }
    for cj, ne in EQ_CONFIGS:
        d[f"equi{cj}{ne}"] = va.EquiJoinPreCheck(allow_conjunctions=cj, allow_nesting=ne)
    return d


def reasons(res):
    r = res.failure_reason
    return {r} - {""} if isinstance(r, str) else set(r)


def judge(acc, sql, flags, joins, CK):
    try:
        q = pb.parse_query(sql, bind_columns=False)
    except Exception as e:  # noqa: BLE001
        acc.count("not_parsed")
        acc.case(None, "unparsed " + type(e).__name__)
        return None
    want = verdicts(flags, joins)
    out = {}
    for name, chk in CK.items():
        acc.step()
        try:
            res = chk.check_supported_query(q)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise:{name}:{sql}", short(e), sql)
            continue
        out[name] = res
        ok, reason = want[name]
        if ok is None:
            continue
        if res.passed != ok:
            acc.violate(f"verdict:{name}:{sql}", f"{name} says {'passed' if res.passed else 'failed'}", sql)
        elif ok and reasons(res):
            acc.violate(f"reason-on-pass:{name}:{sql}", f"passing verdict with reason {res.failure_reason}", sql)
        elif not ok and reasons(res) != {reason}:
            acc.violate(f"reason:{name}:{sql}", f"{res.failure_reason} instead of {reason}", sql)
    return q, out


def queries(acc, i, k):
    CK = checks()
    for cs, ls, e, t in sliced(space(), i, k):
        sql, flags, joins, cols = build(cs, ls, e, t)
        acc.case(sql, f"{len(cs)}:{''.join(sorted(flags))}" if False else f"{len(cs)} tables")
        judge(acc, sql, flags, joins, CK)


def setops(acc, i, k):
    """every pair of branch shapes under every set operator, also nested"""
    CK = checks()
    branches = []
    for cs, ls, e in [(("r",), (), "-"), (("r", "r"), ("eq",), "-"), (("r", "r"), ("none",), "-"), (("r", "r"), ("lt",), "-"), (("r", "r"), ("left",), "-"), (("r", "r"), ("inner",), "-"),
                      (("sub",), (), "-"), (("r",), (), "exdep"), (("r",), (), "insub"), (("r", "r"), ("or",), "-"), (("r", "r"), ("nest",), "-"), (("values",), (), "-"), (("r", "sub"), ("full",), "sdep")]:
        branches.append(build(cs, ls, e, "-"))
    todo = [(a, op, b) for a in branches for b in branches for op in ("UNION", "UNION ALL", "INTERSECT", "EXCEPT")]
    for a, op, b in sliced(todo, i, k):
        sql = f"{a[0]} {op} {b[0]}"
        flags, joins = a[1] | b[1] | {"setop"}, a[2] | b[2]
        acc.case(sql, op)
        judge(acc, sql, flags, joins, CK)
        if op == "UNION":
            for d in branches[:7]:
                s3 = f"{sql} UNION ALL {d[0]}"
                acc.case(s3, "nested")
                judge(acc, s3, flags | d[1], joins | d[2], CK)


def nofrom(acc, i, k):
    CK = checks()
    for sql, flags in (("SELECT 1", {"novfrom"}), ("SELECT 1 + 2 AS x", {"novfrom"}), ("SELECT (SELECT max(y.b) FROM y)", {"novfrom", "sub"})):
        acc.case(sql, "no-from")
        try:
            q = pb.parse_query(sql, bind_columns=False)
        except Exception as e:  # noqa: BLE001
            acc.count("not_parsed")
            continue
        for name, chk in CK.items():
            acc.step()
            try:
                res = chk.check_supported_query(q)
            except Exception as e:  # noqa: BLE001
                acc.violate(f"raise:{name}:{sql}", short(e), sql)
                continue
            ok = verdicts(flags, set())[name][0]
            if name != "implicit" and ok is not None and res.passed != ok:
                acc.violate(f"verdict:{name}:{sql}", f"{res}", sql)


# ---------------------------------------------------------------------------------------------------- composition
class Probe(va.OptimizationPreCheck):
    """a check with a scripted verdict for queries and for databases"""

    def __init__(self, name, q, d):
        super().__init__(name)
        self.q, self.d = q, d
        self.asked = []

    def check_supported_query(self, query):
        self.asked.append("q")
        return self.q

    def check_supported_database_system(self, database_instance):
        self.asked.append("d")
        return self.d

    def describe(self):
        return {"name": self.name}


def results():
    R = va.PreCheckResult
    return [
        ("ok", lambda: R.with_all_passed(), True, []),
        ("f:x", lambda: R.with_failure("x"), False, ["x"]),
        ("f:y", lambda: R(False, "y"), False, ["y"]),
        ("f:[]", lambda: R(False, []), False, []),
        ("f:", lambda: R(False), False, []),
        ("f:[x,z]", lambda: R.with_failure(["x", "z"]), False, ["x", "z"]),
    ]


def rlist(res):
    r = res.failure_reason
    return [r] if isinstance(r, str) and r else list(r)


def compose(acc, i, k):
    """all combinations of up to three (thorough: four) results, through merge, CompoundCheck and merge_checks"""
    top = 4 if c.thorough else 3
    rs = results()
    query = pb.parse_query("SELECT * FROM r", bind_columns=False)
    todo = [sel for n in range(top + 1) for sel in itertools.product(range(len(rs)), repeat=n)]
    for sel in sliced(todo, i, k):
        ident = "|".join(rs[x][0] for x in sel)
        want_ok = all(rs[x][2] for x in sel)
        want_reasons = [y for x in sel for y in rs[x][3]]
        acc.case(ident, f"{len(sel)}:{want_ok}")

        def verdict(what, res, distinct=False):
            acc.step()
            got = rlist(res)
            if res.passed != want_ok:
                acc.violate(f"{what}:{ident}", f"{res}", ident)
            elif (sorted(set(got)) != sorted(set(want_reasons))) if distinct else sorted(got) != sorted(want_reasons):
                acc.violate(f"{what}-reasons:{ident}", f"{res} instead of {want_reasons}", ident)

        try:
            verdict("merge", va.PreCheckResult.merge([rs[x][1]() for x in sel]))
            verdict("merge-gen", va.PreCheckResult.merge(rs[x][1]() for x in sel))
            okr = va.PreCheckResult.with_all_passed
            for side in ("q", "d"):
                mk = lambda: [Probe(f"p{n}", rs[x][1]() if side == "q" else okr(), rs[x][1]() if side == "d" else okr()) for n, x in enumerate(sel)]  # noqa: E731
                ask = (lambda chk: chk.check_supported_query(query)) if side == "q" else (lambda chk: chk.check_supported_database_system(None))
                other = (lambda chk: chk.check_supported_database_system(None)) if side == "q" else (lambda chk: chk.check_supported_query(query))
                forms = {
                    "compound": lambda ps: va.CompoundCheck(ps),
                    "compound-gen": lambda ps: va.CompoundCheck(p for p in ps),
                    "compound-empty": lambda ps: va.CompoundCheck([va.EmptyPreCheck(), *ps, va.EmptyPreCheck()]),
                    "compound-nested": lambda ps: va.CompoundCheck([va.CompoundCheck(ps[:1]), va.CompoundCheck(ps[1:])]),
                    "compound-deep": lambda ps: va.CompoundCheck([va.CompoundCheck([va.CompoundCheck(ps[:2]), *ps[2:]])]),
                    "merge_checks": lambda ps: va.merge_checks(ps),
                    "merge_checks-gen": lambda ps: va.merge_checks(p for p in ps),
                    "merge_checks-args": lambda ps: va.merge_checks(*ps) if ps else va.EmptyPreCheck(),
                    "merge_checks-mixed": lambda ps: va.merge_checks(ps[:1], *ps[1:]),
                    "merge_checks-dup": lambda ps: va.merge_checks([*ps, *ps]),
                    "merge_checks-nested": lambda ps: va.merge_checks([va.CompoundCheck(ps[:2])], *ps[2:]),
                    "merge_checks-twice": lambda ps: va.merge_checks(va.merge_checks(ps[:2]), va.merge_checks(ps[2:])),
                    "merge_checks-none": lambda ps: va.merge_checks([va.EmptyPreCheck(), *ps], va.EmptyPreCheck()),
                }
                for fname, form in forms.items():
                    ps = mk()
                    chk = form(ps)
                    verdict(f"{fname}:{side}", ask(chk), True)
                    if not other(chk).passed:
                        acc.violate(f"{fname}:{side}:other:{ident}", "a failure of one kind leaks into the other kind", ident)
                    idle = [p for p in ps if not p.asked]
                    if idle:
                        acc.violate(f"{fname}:{side}:idle:{ident}", f"{len(idle)} of {len(ps)} checks were dropped", ident)
                    for p in ps:
                        if p not in chk and ps:
                            acc.violate(f"{fname}:contains:{ident}", "a contained check is not found", ident)
                    chk.describe(), str(chk), hash(chk), repr(chk)
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise:{ident}", short(e), ident)


def ensure(acc, i, k):
    """ensure_all_passed raises exactly for failed results, with the fitting error, for every context"""
    qs = [None] + [pb.parse_query(x, bind_columns=False) for x in ("SELECT * FROM r", "SELECT * FROM r JOIN s ON r.a = s.b", "SELECT r.a FROM r UNION SELECT s.a FROM s", "WITH w AS (SELECT r.a FROM r) SELECT * FROM w")]
    db = pb.Database.__new__(type("D", (pb.Database,), {m: (lambda self, *a, **kw: "x") for m in pb.Database.__abstractmethods__}))
    db.system_name = "stand-in"
    for (name, mk, ok, rs_), ctx in itertools.product(results(), qs + [db]):
        ident = f"{name}|{type(ctx).__name__}|{ctx if ctx is not db else 'db'}"
        acc.case(ident, f"{ok}")
        acc.step()
        try:
            mk().ensure_all_passed(ctx)
            if not ok:
                acc.violate(f"ensure-silent:{ident}", "a failed pre-check does not raise", ident)
        except Exception as e:  # noqa: BLE001
            if ok:
                acc.violate(f"ensure-raise:{ident}", short(e), ident)
                continue
            kind = va.UnsupportedSystemError if ctx is db else va.UnsupportedQueryError if isinstance(ctx, pb.SelectStatement if hasattr(pb, "SelectStatement") else tuple(type(q) for q in qs[1:])) else None
            if kind is not None and not isinstance(e, kind):
                acc.violate(f"ensure-kind:{ident}", short(e), ident)
            if not all(r in str(e) for r in rs_):
                acc.violate(f"ensure-text:{ident}", f"reasons {rs_} missing in: {short(e)}", ident)


def hints(acc, i, k):
    """SupportedHintCheck: all subsets of required hints x all subsets of supported hints over six features"""
    feats = [pb.ScanOperator.SequentialScan, pb.JoinOperator.HashJoin, pb.JoinOperator.NestedLoopJoin, pb.HintType.LinearJoinOrder, pb.HintType.Cardinality, pb.IntermediateOperator.Sort]

    class H:
        def __init__(self, s):
            self.s = s

        def supports_hint(self, h):
            return h in self.s

    class D:
        name = "stand-in"

        def __init__(self, s):
            self.s = s

        def hinting(self):
            return H(self.s)

    subs = [tuple(x) for n in range(len(feats) + 1) for x in itertools.combinations(feats, n)]
    for req in sliced(subs, i, k):
        for sup in subs:
            missing = [f for f in req if f not in sup]
            ident = f"{[f.name for f in req]}|{[f.name for f in sup]}"
            acc.case(ident, f"{not missing}")
            forms = {"list": list(req), "set": set(req), "gen": (x for x in req), "tuple": req}
            if len(req) == 1:
                forms["single"] = req[0]
            for fn, arg in forms.items():
                acc.step()
                try:
                    chk = va.SupportedHintCheck(arg)
                    for _ in range(2):
                        res = chk.check_supported_database_system(D(sup))
                        if res.passed != (not missing) or (missing and set(res.failure_reason) != set(missing)):
                            acc.violate(f"hints:{fn}:{ident}", f"{res}", ident)
                    if not chk.check_supported_query(None).passed:
                        acc.violate(f"hints-query:{ident}", "hint check rejects a query")
                    merged = va.merge_checks(va.SupportedHintCheck(feats[0]), chk).check_supported_database_system(D(sup))
                    if merged.passed != (not missing and feats[0] in sup):
                        acc.violate(f"hints-merged:{fn}:{ident}", f"{merged}", ident)
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"hints-raise:{fn}:{ident}", short(e), ident)


def custom(acc, i, k):
    R = va.PreCheckResult
    q = pb.parse_query("SELECT * FROM r", bind_columns=False)
    opts = [None, lambda x: R.with_all_passed(), lambda x: R.with_failure("no")]
    for a, b in itertools.product(range(3), repeat=2):
        acc.case((a, b), "custom")
        chk = va.CustomCheck("mine", query_check=opts[a], db_check=opts[b])
        if chk.check_supported_query(q).passed != (a != 2) or chk.check_supported_database_system(None).passed != (b != 2):
            acc.violate(f"custom:{a}:{b}", "custom check verdict is not that of its functions")
        m = va.merge_checks([chk, va.CustomCheck("mine", query_check=opts[2])])
        if m.check_supported_query(q).passed:
            acc.violate(f"custom-merge:{a}:{b}", "custom checks of the same name swallow each other")


def run(c):
    c.part("queries", queries)
    c.part("set-operations", setops)
    c.part("no-from", nofrom, parallel=False)
    c.part("composition", compose)
    c.part("ensure", ensure, parallel=False)
    c.part("hints", hints)
    c.part("custom", custom, parallel=False)


c = Check(
    "P13", "model_checking",
    "all queries of a grammar of table components, join links, WHERE extras and clause tails with independently derived verdicts; all combinations of up to three scripted results through every way to combine checks; all required x supported hint subsets",
    ["cross-product verdicts of NATURAL joins depend on the schema and are not judged", "only the query's own level decides about cross products and join types outside of FROM subqueries"],
)
c.main(run)
