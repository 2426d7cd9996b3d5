"""P27: query elements and queries that are built by hand are the SQL they were asked to be.

Every element is described twice: as calls of the constructors and factories, and as SQL text that is put together from the
meaning of these calls (fully bracketed). Both are compared through PostgreSQL's own grammar. All compositions up to the depth
are enumerated.
"""
import datetime
import itertools
import json

import pgast
from vlib import Check, short, sliced

import postbound as pb
from postbound import ColumnReference, TableReference, parser, qal
from postbound.qal import CompoundOperator as CO, LogicalOperator as LO, MathOperator as MO

R, S, T = TableReference("r"), TableReference("s", "s1"), TableReference("t", "", schema="public")
COLS = [(ColumnReference("a", R), "r.a"), (ColumnReference("b", S), "s1.b"), (ColumnReference("c"), "c")]
CE = [(qal.ColumnExpression(c), t) for c, t in COLS] + [(qal.ColumnExpression.of("d"), "d")]
VALUES = [1, -3, 0, 2.5, -0.5, 1e300, "x", "it's", "", "a\"b", "ä%\\", True, False, None]


def lit(v):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return "'" + v.replace("'", "''") + "'"
    return repr(v)


CONST = [(qal.StaticValueExpression(v), lit(v)) for v in VALUES]
DATES = [datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5)]


def key(sql):
    return json.dumps(pgast.norm(pgast.raw(sql)), sort_keys=True)


class Cmp:
    def __init__(self, acc):
        self.acc = acc

    def sql(self, kind, desc, obj_sql, want, n=1):
        """obj_sql: thunk for the text of a full statement, want: expected statement"""
        self.acc.case((kind, desc), n)
        try:
            got = obj_sql()
        except Exception as e:
            self.acc.violate(f"{kind}/raises", f"{desc}: {short(e)}, expected {want}")
            return
        try:
            expected = key(want)
        except Exception:
            self.acc.n_invalid = getattr(self.acc, "n_invalid", 0) + 1
            return
        try:
            actual = key(got)
        except Exception as e:
            self.acc.violate(f"{kind}/not SQL", f"{desc}: {got!r} is not SQL ({short(e)}), expected {want!r}")
            return
        if actual != expected:
            self.acc.violate(f"{kind}/other meaning", f"{desc}: {got!r} does not mean {want!r}")

    def expr(self, kind, mk, want):
        self.sql(kind, want, lambda: f"SELECT {mk()}", f"SELECT {want}")

    def pred(self, kind, mk, want):
        self.sql(kind, want, lambda: f"SELECT 1 WHERE {mk()}", f"SELECT 1 WHERE {want}")

    def same(self, kind, desc, thunk, want):
        self.acc.case((kind, desc), 1)
        try:
            got = thunk()
        except Exception as e:
            got = short(e)
        if got != want or (want is not None and type(got) is not type(want)):
            self.acc.violate(f"{kind}/wrong", f"{desc}: {got!r}, expected {want!r}"[:900])


# -- the grammar of built elements ------------------------------------------------------------------------------------------

def subqueries():
    """(query, SQL)"""
    q1 = qal.build_query([qal.Select.create_for(COLS[1][0]), qal.From.create_for(S), qal.Where(qal.as_predicate(COLS[1][0], "=", 4))])
    q2 = qal.build_query([qal.Select.count_star(), qal.From.create_for(T)])
    return [(q1, "SELECT s1.b FROM s s1 WHERE s1.b = 4"), (q2, "SELECT count(*) FROM public.t")]


def exprs1(base, preds, few=False):
    """all expressions of one more level over base = [(expr, sql)]"""
    F, M = qal.FunctionExpression, qal.MathExpression
    for (a, x), (b, y) in itertools.product(base, repeat=2):
        for op in MO:
            yield "math", (lambda op=op, a=a, b=b: M(op, a, b)), f"(({x}) {op.value} ({y}))"
        yield "function", (lambda a=a, b=b: F("coalesce", [a, b])), f"coalesce({x}, {y})"
        yield "case", (lambda a=a, b=b: qal.CaseExpression([(a, b)])), f"CASE WHEN {x} THEN {y} END"
        yield "case else", (lambda a=a, b=b: qal.CaseExpression([(b, a), (a, b)], else_expr=b)), f"CASE WHEN {y} THEN {x} WHEN {x} THEN {y} ELSE {y} END"
        yield "simple case", (lambda a=a, b=b: qal.CaseExpression([(b, a)], simple_expr=a, else_expr=b)), f"CASE {x} WHEN {y} THEN {x} ELSE {y} END"
        yield "array", (lambda a=a, b=b: qal.ArrayExpression([a, b])), f"ARRAY[{x}, {y}]"
        arr = x if isinstance(a, qal.ArrayAccessExpression) else f"({x})"  # accesses of accesses are the next dimension
        yield "array access", (lambda a=a, b=b: qal.ArrayAccessExpression(a, idx=b)), f"{arr}[{y}]"
        yield "slice", (lambda a=a, b=b: qal.ArrayAccessExpression(a, lower_idx=b, upper_idx=a)), f"{arr}[{y}:{x}]"
        yield "slice", (lambda a=a, b=b: qal.ArrayAccessExpression(a, upper_idx=b)), f"{arr}[:{y}]"
        yield "slice", (lambda a=a, b=b: qal.ArrayAccessExpression(a, lower_idx=b)), f"{arr}[{y}:]"
        yield "window", (lambda a=a, b=b: qal.WindowExpression(F("sum", [a]), partitioning=[b])), f"sum({x}) OVER (PARTITION BY {y})"
        yield "window", (lambda a=a, b=b: qal.WindowExpression(F("sum", [a]), partitioning=[b, a], ordering=qal.OrderBy([qal.OrderByExpression(b, False, True), qal.OrderByExpression(a)]))), f"sum({x}) OVER (PARTITION BY {y}, {x} ORDER BY {y} DESC NULLS FIRST, {x})"
        if few:
            continue
        for (c, z) in base[:3]:
            yield "n-ary math", (lambda a=a, b=b, c=c: M(MO.Add, a, [b, c])), f"((({x}) + ({y})) + ({z}))"
            yield "n-ary math", (lambda a=a, b=b, c=c: M(MO.Concatenate, a, (b, c))), f"((({x}) || ({y})) || ({z}))"
            yield "n-ary math", (lambda a=a, b=b, c=c: M(MO.Subtract, a, [b, c])), f"((({x}) - ({y})) - ({z}))"
    for a, x in base:
        yield "unary math", (lambda a=a: M(MO.Subtract, a)), f"(- ({x}))"
        yield "n-ary math", (lambda a=a: M(MO.Multiply, a, [a])), f"(({x}) * ({x}))"
        for t in ("integer", "text", "double precision", "timestamp with time zone"):
            yield "cast", (lambda a=a, t=t: qal.CastExpression(a, t)), f"CAST({x} AS {t})"
            yield "array cast", (lambda a=a, t=t: qal.CastExpression(a, t, array_type=True)), f"CAST({x} AS {t}[])"
        yield "cast", (lambda a=a: qal.CastExpression(a, "varchar", type_params=[qal.StaticValueExpression(3)])), f"CAST({x} AS varchar(3))"
        yield "cast", (lambda a=a: qal.CastExpression(a, "numeric", type_params=[qal.StaticValueExpression(3), qal.StaticValueExpression(1)])), f"CAST({x} AS numeric(3, 1))"
        for f in ("max", "lower", "Foo"):
            yield "function", (lambda a=a, f=f: F(f, [a])), f"{f}({x})"
        for dist, flt in itertools.product((False, True), [None] + preds[:4]):
            want = f"sum({'DISTINCT ' * dist}{x})" + (f" FILTER (WHERE {flt[1]})" if flt else "")
            yield "aggregate", (lambda a=a, dist=dist, flt=flt: F("sum", [a], distinct=dist, filter_where=flt and flt[0])), want
        for flt in preds[:3]:
            yield "window", (lambda a=a, flt=flt: qal.WindowExpression(F("sum", [a]), filter_condition=flt[0])), f"sum({x}) FILTER (WHERE {flt[1]}) OVER ()"
    yield "function", (lambda: F("now")), "now()"
    yield "function", (lambda: F("now", [])), "now()"
    for q, s in subqueries():
        yield "subquery", (lambda q=q: qal.SubqueryExpression(q)), f"({s})"
        yield "as_expression", (lambda q=q: qal.as_expression(q)), f"({s})"


def preds1(exprs, preds, subs):
    B = qal.BinaryPredicate
    for (a, x), (b, y) in itertools.product(exprs, repeat=2):
        for op in LO:
            if op in (LO.In, LO.Exists, LO.Between):
                continue
            if op in (LO.Is, LO.IsNot) and y not in ("NULL", "TRUE", "FALSE"):
                continue
            yield "binary", (lambda op=op, a=a, b=b: B(op, a, b)), f"({x}) {op.value} {y if op in (LO.Is, LO.IsNot) else '(' + y + ')'}"
        yield "equal", (lambda a=a, b=b: B.equal(a, b)), f"({x}) = ({y})"
        for (c, z) in exprs[:4]:
            yield "between", (lambda a=a, b=b, c=c: qal.BetweenPredicate(a, (b, c))), f"({x}) BETWEEN ({y}) AND ({z})"
            yield "in", (lambda a=a, b=b, c=c: qal.InPredicate(a, [b, c])), f"({x}) IN ({y}, {z})"
        yield "in", (lambda a=a, b=b: qal.InPredicate(a, [b])), f"({x}) IN ({y})"
    for (a, x), (q, s) in itertools.product(exprs, subs):
        yield "in subquery", (lambda a=a, q=q: qal.InPredicate.subquery(a, q)), f"({x}) IN ({s})"
        yield "in subquery", (lambda a=a, q=q: qal.InPredicate.subquery(a, qal.SubqueryExpression(q))), f"({x}) IN ({s})"
        for op in (LO.Equal, LO.Less, LO.GreaterEqual, LO.Like):
            yield "any", (lambda a=a, q=q, op=op: B(op, a, qal.QuantifierExpression.any(q))), f"({x}) {op.value} ANY ({s})"
            yield "all", (lambda a=a, q=q, op=op: B(op, a, qal.QuantifierExpression.all(q))), f"({x}) {op.value} ALL ({s})"
    for a, x in exprs:
        for b, y in exprs[:3]:
            yield "any", (lambda a=a, b=b: B.equal(a, qal.QuantifierExpression.any(qal.ArrayExpression([b, a])))), f"({x}) = ANY (ARRAY[{y}, {x}])"
            yield "all", (lambda a=a, b=b: B.equal(a, qal.QuantifierExpression.all(b))), f"({x}) = ALL ({y})"
        yield "unary", (lambda a=a: qal.UnaryPredicate(a)), f"({x})"
    for q, s in subs:
        yield "exists", (lambda q=q: qal.UnaryPredicate.exists(q)), f"EXISTS ({s})"
        yield "exists", (lambda q=q: qal.UnaryPredicate.exists(qal.SubqueryExpression(q))), f"EXISTS ({s})"


def compounds(preds, width):
    C = qal.CompoundPredicate
    for n in range(1, width + 1):
        for parts in itertools.product(preds, repeat=n):
            ps = [p for p, _ in parts]
            for op, mk in ((CO.And, C.create_and), (CO.Or, C.create_or)):
                want = f" {op.value} ".join(f"({x})" for _, x in parts)
                yield f"create_{op.name}", (lambda mk=mk, ps=ps: mk(ps)), want
                yield f"create_{op.name}", (lambda mk=mk, ps=ps: mk(tuple(ps))), want
                yield "create", (lambda op=op, ps=ps: C.create(op, ps)), want
                if n > 1:
                    yield "compound", (lambda op=op, ps=ps: C(op, ps)), want
            if n > 1:
                want = " AND ".join(f"({x})" for _, x in parts)

                def chained(ps=ps):
                    qp = qal.QueryPredicates.empty_predicate()
                    for k, p in enumerate(ps):
                        qp = qp.and_(p if k % 2 == 0 else qal.QueryPredicates(p))
                    return qp.and_(qal.QueryPredicates.empty_predicate()).root
                yield "QueryPredicates.and_", chained, want
    for p, x in preds:
        for mk in (C.create_not, lambda p: C.create(CO.Not, [p]), lambda p: C(CO.Not, p), lambda p: C(CO.Not, [p])):
            yield "create_not", (lambda mk=mk, p=p: mk(p)), f"NOT ({x})"


def built(gen):
    """[(obj, sql)] of those elements that can be built and whose description is SQL"""
    out = {}
    for _, mk, want in gen:
        try:
            out.setdefault(want, (mk(), want))
        except Exception:
            pass
    return list(out.values())


def valid(items, pred):
    out = []
    for o, s in items:
        try:
            key(f"SELECT 1 WHERE {s}" if pred else f"SELECT {s}")
            out.append((o, s))
        except Exception:
            pass
    return out


def base_preds():
    a, b, c = COLS[0][0], COLS[1][0], COLS[2][0]
    ap = qal.as_predicate
    return [(ap(a, "=", 1), "r.a = 1"), (ap(b, "<", "x"), "s1.b < 'x'"), (ap(c, LO.Between, (1, 2)), "c BETWEEN 1 AND 2"),
            (ap(a, "=", b), "r.a = s1.b"), (qal.UnaryPredicate(qal.ColumnExpression(c)), "c")]


def p_exprs(acc, i, n):
    cmp = Cmp(acc)
    for k, (e, t) in enumerate(CE + CONST):
        if k % n == i:
            cmp.expr("leaf", lambda: e, t)
    # every kind over the leaves
    leaves = CE[:2] + [CONST[0], CONST[1], CONST[6], CONST[13]]
    for kind, mk, want in sliced(exprs1(leaves, base_preds()), i, n):
        cmp.expr(kind, mk, want)
    # every kind over every kind
    lvl1 = valid(built(exprs1([CE[0], CONST[1]], base_preds()[:2], few=True)), False)
    lvl1 += [(p, f"({t})") for p, t in base_preds()[:3]]
    for kind, mk, want in sliced(exprs1(lvl1, base_preds()[:1], few=True), i, n):
        cmp.expr(kind, mk, want)


def p_preds(acc, i, n):
    cmp = Cmp(acc)
    subs = subqueries()
    leaves = CE[:2] + CONST[:2] + [CONST[6], CONST[11], CONST[13]]
    for kind, mk, want in sliced(preds1(leaves, base_preds(), subs), i, n):
        cmp.pred(kind, mk, want)
    lvl1 = valid(built(exprs1([CE[0], CONST[1]], base_preds()[:1], few=True)), False)[::2]
    for kind, mk, want in sliced(preds1(lvl1, base_preds(), subs), i, n):
        cmp.pred(kind, mk, want)
    ps = base_preds()
    for kind, mk, want in sliced(compounds(ps, 3), i, n):
        cmp.pred(kind, mk, want)
    lvl2 = valid(built(compounds(ps[:3], 2)), True) + valid(built(preds1([CE[0], CONST[13]], ps, subs)), True)[::3]
    for kind, mk, want in sliced(compounds(lvl2, 2), i, n):
        cmp.pred(kind, mk, want)
    # predicates as operands of expressions
    few = lvl2[::9]
    for kind, mk, want in sliced(exprs1([(p, f"({t})") for p, t in few], ps[:1], few=True), i, n):
        cmp.expr("predicate in " + kind, mk, want)
    for kind, mk, want in sliced(preds1([(p, f"({t})") for p, t in few], ps[:1], subs[:1]), i, n):
        cmp.pred("predicate in " + kind, mk, want)


def p_factories(acc, i, n):
    cmp = Cmp(acc)
    F = qal.FunctionExpression
    jobs = []
    for (c, t), v in itertools.product(COLS, VALUES):
        for op in LO:
            if op in (LO.In, LO.Exists, LO.Between):
                continue
            if op in (LO.Is, LO.IsNot) and not (v is None or isinstance(v, bool)):
                continue
            want = f"{t} {op.value} {lit(v) if op in (LO.Is, LO.IsNot) else '(' + lit(v) + ')'}"
            for o in {op, op.value, op.value.lower()} | ({"!="} if op == LO.NotEqual else set()) | ({"=="} if op == LO.Equal else set()):
                jobs.append(("p", f"as_predicate {o}", lambda c=c, o=o, v=v: qal.as_predicate(c, o, v), want))
        for w in VALUES[:8]:
            for args in ((v, w), ((v, w),), ([v, w],), (v, w, 7), (v, w, None, v)):  # further arguments are ignored
                for o in (LO.Between, "between", "BETWEEN"):
                    jobs.append(("p", "as_predicate between", lambda c=c, o=o, args=args: qal.as_predicate(c, o, *args), f"{t} BETWEEN ({lit(v)}) AND ({lit(w)})"))
            for args in ((v, w), ((v, w),), ([v, w],), ([v], w)):
                for o in (LO.In, "in", "IN"):
                    jobs.append(("p", "as_predicate in", lambda c=c, o=o, args=args: qal.as_predicate(c, o, *args), f"{t} IN ({lit(v)}, {lit(w)})"))
            jobs.append(("p", "as_predicate in", lambda c=c, v=v, w=w: qal.as_predicate(c, "in", (x for x in (w, v))), f"{t} IN ({lit(w)}, {lit(v)})"))
        for args in ((v,), ((v,),), ([v],)):
            jobs.append(("p", "as_predicate in", lambda c=c, args=args: qal.as_predicate(c, "in", *args), f"{t} IN ({lit(v)})"))
        jobs.append(("e", "as_expression", lambda v=v: qal.as_expression(v), lit(v)))
        jobs.append(("p", "as_filter", lambda c=c, v=v: qal.as_predicate(c, "=", qal.StaticValueExpression(v)), f"{t} = ({lit(v)})"))
    for (c, t), (d, u) in itertools.product(COLS, repeat=2):
        for op in ("=", "<", "<>", LO.GreaterEqual):
            o = op if isinstance(op, str) else op.value
            jobs.append(("p", "column predicate", lambda c=c, d=d, op=op: qal.as_predicate(c, op, d), f"{t} {o} {u}"))
            jobs.append(("p", "column predicate", lambda c=c, d=d, op=op: qal.as_predicate(c, op, qal.ColumnExpression(d)), f"{t} {o} {u}"))
        jobs.append(("p", "column predicate", lambda c=c, d=d: qal.as_predicate(c, "between", d, 3), f"{t} BETWEEN {u} AND 3"))
        jobs.append(("p", "column predicate", lambda c=c, d=d: qal.as_predicate(c, "in", d, 3), f"{t} IN ({u}, 3)"))
        for name, mk in (("count", F.create_count), ("max", F.create_max), ("min", F.create_min), ("sum", F.create_sum)):
            jobs.append(("e", "create_" + name, lambda mk=mk, c=c: mk(c), f"{name}({t})"))
            jobs.append(("e", "create_" + name, lambda mk=mk, c=c: mk(qal.ColumnExpression(c)), f"{name}({t})"))
            jobs.append(("e", "create_" + name, lambda mk=mk, c=c, d=d: mk([qal.ColumnExpression(c), qal.ColumnExpression(d)]), f"{name}({t}, {u})"))
            jobs.append(("e", "create_" + name, lambda mk=mk, c=c, d=d: mk(x for x in [qal.ColumnExpression(d), qal.ColumnExpression(c)]), f"{name}({u}, {t})"))
            jobs.append(("e", "create_" + name, lambda mk=mk, c=c: mk(qal.MathExpression(MO.Add, qal.ColumnExpression(c), qal.StaticValueExpression(1))), f"{name}({t} + 1)"))
    for (c, t) in COLS:
        jobs.append(("e", "as_expression", lambda c=c: qal.as_expression(c), t))
        jobs.append(("e", "as_expression", lambda c=c: qal.as_expression(qal.ColumnExpression(c)), t))
        for q, s in subqueries():
            for op in ("=", "<"):
                jobs.append(("p", "as_predicate subquery", lambda c=c, q=q, op=op: qal.as_predicate(c, op, q), f"{t} {op} ({s})"))
            jobs.append(("p", "as_predicate subquery", lambda c=c, q=q: qal.as_predicate(c, "in", q), f"{t} IN ({s})"))
    jobs.append(("e", "create_count", lambda: F.create_count(), "count(*)"))
    jobs.append(("e", "star", lambda: qal.as_expression("*"), "*"))
    jobs.append(("e", "star", lambda: qal.StarExpression(), "*"))
    jobs.append(("e", "star", lambda: qal.StarExpression(from_table=R), "r.*"))
    jobs.append(("e", "star", lambda: qal.StarExpression(from_table=S), "s1.*"))
    jobs.append(("e", "null", lambda: qal.StaticValueExpression.null(), "NULL"))
    for kind, name, mk, want in sliced(jobs, i, n):
        (cmp.pred if kind == "p" else cmp.expr)(name, mk, want)


# -- clauses and queries -----------------------------------------------------------------------------------------------------

def clauses():
    """{slot: [(description of how it is built, clause, SQL)]}"""
    a, b, c = (x for x, _ in COLS)
    out = {s: [] for s in ("with", "select", "from", "where", "group", "having", "order", "limit", "hint", "explain")}
    A, B, C = CE[0][0], CE[1][0], CE[2][0]
    for dist, d in ((False, ""), (True, "DISTINCT "), ([A], "DISTINCT ON (r.a) "), ([A, B], "DISTINCT ON (r.a, s1.b) ")):
        out["select"] += [(lambda dist=dist: qal.Select.count_star(distinct=dist), f"SELECT {d}count(*)"),
                          (lambda dist=dist: qal.Select.star(distinct=dist), f"SELECT {d}*"),
                          (lambda dist=dist: qal.Select.create_for(a, distinct=dist), f"SELECT {d}r.a"),
                          (lambda dist=dist: qal.Select.create_for([b, a], distinct=dist), f"SELECT {d}s1.b, r.a"),
                          (lambda dist=dist: qal.Select(qal.BaseProjection(A, "x"), distinct=dist), f"SELECT {d}r.a AS x"),
                          (lambda dist=dist: qal.Select([qal.BaseProjection(qal.MathExpression(MO.Add, A, B), "X y"), qal.BaseProjection.column(c)], distinct=dist), f'SELECT {d}r.a + s1.b AS "X y", c')]
    D = qal.DirectTableSource
    sub, subsql = subqueries()[0]
    vals = ((qal.StaticValueExpression(1), qal.StaticValueExpression("x")), (qal.StaticValueExpression(2), qal.StaticValueExpression(None)))
    srcs = [(D(R), "r"), (D(S), "s s1"), (D(T), "public.t"),
            (qal.SubqueryTableSource(sub, "q"), f"({subsql}) q"), (qal.SubqueryTableSource(sub, "q", lateral=True), f"LATERAL ({subsql}) q"),
            (qal.ValuesTableSource(vals, alias="v", columns=["m", "n"]), "(VALUES (1, 'x'), (2, NULL)) v(m, n)"),
            (qal.FunctionTableSource(qal.FunctionExpression("f", [A]), alias="fn"), "f(r.a) fn")]
    out["from"] += [(lambda: qal.From.create_for(R), "FROM r"), (lambda: qal.From.create_for([R, S]), "FROM r, s s1"), (lambda: qal.From.create_for((S, T, R)), "FROM s s1, public.t, r"),
                    (lambda: qal.ImplicitFromClause.create_for([T, S]), "FROM public.t, s s1"),
                    (lambda: qal.ImplicitFromClause([D(R), D(T)]), "FROM r, public.t"), (lambda: qal.ImplicitFromClause(D(S)), "FROM s s1")]
    for (x, xs) in srcs:
        out["from"].append((lambda x=x: qal.From(x), f"FROM {xs}"))
        for (y, ys) in srcs:
            if x is not y:
                out["from"].append((lambda x=x, y=y: qal.From([x, y]), f"FROM {xs}, {ys}"))
    on, onsql = qal.as_predicate(a, "=", b), "r.a = s1.b"
    on2, on2sql = qal.CompoundPredicate.create_or([on, qal.as_predicate(c, "=", 1)]), "r.a = s1.b OR c = 1"
    J = qal.JoinTableSource
    for jt in qal.JoinType:
        cond = not ("NATURAL" in jt.value or "CROSS" in jt.value)
        for (x, xs), (y, ys) in itertools.product([srcs[0], srcs[3]], [srcs[1], srcs[4], srcs[6]]):
            for p, ps in ([(on, onsql), (on2, on2sql)] if cond else [(None, "")]):
                t1 = f"{xs} {jt.value} {ys}" + (f" ON {ps}" if p else "")
                mk1 = lambda x=x, y=y, p=p, jt=jt: J(x, y, join_condition=p, join_type=jt)  # noqa: E731
                out["from"].append((lambda m=mk1: qal.ExplicitFromClause(m()), f"FROM {t1}"))
                out["from"].append((lambda m=mk1: qal.From([m(), D(T)]), f"FROM {t1}, public.t"))
                out["from"].append((lambda m=mk1: qal.ExplicitFromClause(J(m(), D(T), join_condition=on2, join_type=qal.JoinType.LeftJoin)), f"FROM ({t1}) LEFT JOIN public.t ON {on2sql}"))
                out["from"].append((lambda m=mk1: qal.ExplicitFromClause(J(D(T), m(), join_condition=on, join_type=qal.JoinType.InnerJoin)), f"FROM public.t JOIN ({t1}) ON {onsql}"))
    for p, t in base_preds()[:3] + [(on2, on2sql), (qal.CompoundPredicate.create_not(on2), f"NOT ({on2sql})")]:
        out["where"].append((lambda p=p: qal.Where(p), f"WHERE {t}"))
        out["having"].append((lambda p=p: qal.Having(p), f"HAVING {t}"))
    G = qal.GroupBy
    out["group"] += [(lambda: G.create_for(a), "GROUP BY r.a"), (lambda: G.create_for([a, b]), "GROUP BY r.a, s1.b"), (lambda: G.create_for(a, c, b), "GROUP BY r.a, c, s1.b"),
                     (lambda: G.create_for([b], a), "GROUP BY s1.b, r.a"), (lambda: G([A, qal.MathExpression(MO.Add, B, C)]), "GROUP BY r.a, s1.b + c"),
                     (lambda: G([A, B], distinct=True), "GROUP BY DISTINCT r.a, s1.b"), (lambda: G.create_for(x for x in (c, a)), "GROUP BY c, r.a")]
    O, OE = qal.OrderBy, qal.OrderByExpression
    for asc, nf in itertools.product((None, True, False), repeat=2):
        sfx = {None: "", True: " ASC", False: " DESC"}[asc] + {None: "", True: " NULLS FIRST", False: " NULLS LAST"}[nf]
        kw = dict(ascending=asc, nulls_first=nf)
        out["order"] += [(lambda kw=kw: O.create_for(a, **kw), f"ORDER BY r.a{sfx}"), (lambda kw=kw: O.create_for(a, c, **kw), f"ORDER BY r.a{sfx}, c{sfx}"),
                         (lambda kw=kw: O.create_for([b, a], **kw), f"ORDER BY s1.b{sfx}, r.a{sfx}"), (lambda kw=kw: O.create_for([b], a, **kw), f"ORDER BY s1.b{sfx}, r.a{sfx}"),
                         (lambda kw=kw: O(OE.create_for(c, **kw)), f"ORDER BY c{sfx}"),
                         (lambda kw=kw: O([OE(qal.MathExpression(MO.Add, A, B), **kw), OE(C)]), f"ORDER BY r.a + s1.b{sfx}, c")]
    L = qal.Limit
    for lim, off in itertools.product((None, 0, 1, 10), (None, 0, 3)):
        if lim is None and off is None:
            continue
        for fd in ("first", "next", "last"):
            if fd != "first" and lim is None:
                continue
            t = (f"LIMIT {lim}" if lim is not None else "") + (f" OFFSET {off}" if off is not None else "")
            if fd == "first":
                out["limit"].append((lambda lim=lim, off=off: L(limit=lim, offset=off), t))
            if fd == "next":
                out["limit"].append((lambda lim=lim, off=off: L(limit=lim, offset=off, fetch_direction="next"), t))
    W = qal.WithQuery
    for mat in (None, True, False):
        m = {None: "", True: "MATERIALIZED ", False: "NOT MATERIALIZED "}[mat]
        out["with"] += [(lambda mat=mat: qal.CommonTableExpression([W(sub, "w", materialized=mat)]), f"WITH w AS {m}({subsql})"),
                        (lambda mat=mat: qal.CommonTableExpression([W(sub, "w"), W(subqueries()[1][0], TableReference.create_virtual("w2"), materialized=mat)]), f"WITH w AS ({subsql}), w2 AS {m}({subqueries()[1][1]})"),
                        (lambda mat=mat: qal.CommonTableExpression([W(sub, "w", materialized=mat)], recursive=True), f"WITH RECURSIVE w AS {m}({subsql})"),
                        (lambda mat=mat: qal.CommonTableExpression([qal.ValuesWithQuery(vals, target_name="w", columns=["m", "n"], materialized=mat)]), f"WITH w(m, n) AS {m}(VALUES (1, 'x'), (2, NULL))")]
    for an, fmt in itertools.product((False, True), ("JSON", "TEXT", "XML", "YAML", None)):
        opts = "(" + ", ".join((["ANALYZE"] if an else []) + ([f"FORMAT {fmt}"] if fmt else [])) + ")"
        opts = "" if opts == "()" else opts
        mks = [lambda an=an, fmt=fmt: qal.Explain(an, fmt)]
        if fmt:
            mks.append(lambda an=an, fmt=fmt: (qal.Explain.explain_analyze if an else qal.Explain.plan)(fmt))
        if fmt == "JSON":
            mks.append(lambda an=an: (qal.Explain.explain_analyze if an else qal.Explain.plan)())
        for mk in mks:
            out["explain"].append((mk, f"EXPLAIN {opts}"))
    out["hint"] += [(lambda: qal.Hint("", "/*+ SeqScan(r) */"), ""), (lambda: qal.Hint("SET x = 1;", ""), "SET x = 1;"), (lambda: qal.Hint("SET x = 1;", "/*+ SeqScan(r) */"), "SET x = 1;")]
    return out


SLOTS = ["explain", "with", "select", "from", "where", "group", "having", "order", "limit"]


def assemble(parts):
    hint = parts.get("hint", "")
    return hint + " " + " ".join(parts[s] for s in SLOTS if s in parts)


def check_query(cmp, kind, chosen, order):
    """chosen: {slot: (mk, sql)}; order: sequence of slots in which the clauses are passed"""
    parts = {s: t for s, (_, t) in chosen.items()}
    want = assemble(parts)

    def build():
        return qal.build_query([chosen[s][0]() for s in order])
    cmp.sql(kind, want, lambda: str(build()), want, len(order))
    try:
        q = build()
    except Exception:
        return
    get = {"with": q.cte_clause, "select": q.select_clause, "from": q.from_clause, "where": q.where_clause, "group": q.groupby_clause, "having": q.having_clause,
           "order": q.orderby_clause, "limit": q.limit_clause, "hint": q.hints, "explain": q.explain}
    for s, got in get.items():
        exp = chosen[s][0]() if s in chosen else None
        if got != exp:
            cmp.acc.violate(f"{kind}/clause", f"{want}: the {s} clause is {got!s}, expected {exp!s}"[:600])
    if "hint" in chosen:
        h = chosen["hint"][0]()
        if (h.query_hints and h.query_hints not in str(q)) or (h.preparatory_statements and not str(q).startswith(h.preparatory_statements)):
            cmp.acc.violate(f"{kind}/hint", f"hint {h!r} is not part of {str(q)!r}")
    # leaving clauses out again
    for s in order:
        if s == "select":
            continue
        rest = [x for x in order if x != s]
        again = qal.build_query([chosen[x][0]() for x in rest])
        skipped = qal.build_query(q.clauses(skip=type(chosen[s][0]())))
        if again != skipped or str(again) != str(skipped):
            cmp.acc.violate(f"{kind}/skip", f"{want}: without {s} it is {skipped!s}, expected {again!s}"[:600])
    copy = qal.build_query(q.clauses())
    if copy != q or str(copy) != str(q):
        cmp.acc.violate(f"{kind}/copy", f"{want}: rebuilt from its clauses it is {copy!s}"[:600])


def p_clauses(acc, i, n):
    """every clause by itself, all pairs of clauses, all subsets of slots in several orders"""
    cmp = Cmp(acc)
    cl = clauses()
    base = {"select": cl["select"][1], "from": cl["from"][1]}
    jobs = []
    for s, opts in cl.items():
        for o in opts:
            jobs.append(({**base, s: o}, 0))
    for s1, s2 in itertools.combinations(cl, 2):
        step = lambda xs: xs if len(xs) <= 8 else xs[:: max(1, len(xs) // 8)]  # noqa: E731
        for o1, o2 in itertools.product(step(cl[s1]), step(cl[s2])):
            jobs.append(({**base, s1: o1, s2: o2}, 1))
    for chosen, rev in sliced(jobs, i, n):
        order = list(chosen)
        check_query(cmp, "query", chosen, order[::-1] if rev else order)
    # all subsets of optional slots, two alternatives each
    opt = [s for s in cl if s != "select"]
    for mask in sliced(itertools.product(range(2), repeat=len(opt)), i, n):
        for alt in (0, -1):
            chosen = {"select": cl["select"][2]}
            for s, m in zip(opt, mask):
                if m:
                    chosen[s] = cl[s][alt]
            check_query(cmp, "query", chosen, sorted(chosen))
    # all orders of the clauses
    for perm in sliced(itertools.permutations(["select", "from", "where", "group", "order", "limit"]), i, n):
        check_query(cmp, "query", {s: cl[s][1] for s in perm}, list(perm))


def p_sets(acc, i, n):
    cmp = Cmp(acc)
    cl = clauses()
    leaf = [(qal.build_query([qal.Select.create_for(COLS[0][0]), qal.From.create_for(R)]), "SELECT r.a FROM r"),
            (qal.build_query([qal.Select.create_for(COLS[1][0]), qal.From.create_for(S), cl["limit"][3][0]()]), f"(SELECT s1.b FROM s s1 {cl['limit'][3][1]})"),
            (qal.build_query([qal.Select.create_for(COLS[1][0]), qal.From.create_for(S), cl["order"][0][0]()]), f"(SELECT s1.b FROM s s1 {cl['order'][0][1]})")]
    ops = [(qal.SetOperator.Union, lambda a, b: qal.UnionClause(a, b)), (qal.SetOperator.UnionAll, lambda a, b: qal.UnionClause(a, b, union_all=True)),
           (qal.SetOperator.Intersect, lambda a, b: qal.IntersectClause(a, b)), (qal.SetOperator.Except, lambda a, b: qal.ExceptClause(a, b))]
    lvl = list(leaf)
    for (op, mk), (a, x), (b, y) in itertools.product(ops, leaf, leaf):
        lvl.append((qal.SetQuery(a, b, set_operation=op), f"(({x}) {op.value} ({y}))"))
    extras = [()] + [(s,) for s in ("with", "order", "limit", "explain", "hint")] + [("with", "order", "limit"), ("order", "limit", "hint"), ("explain", "order")]
    kws = {"with": "cte_clause", "order": "orderby_clause", "limit": "limit_clause", "explain": "explain_clause", "hint": "hints"}
    for (op, mk), (a, x), (b, y) in sliced(itertools.product(ops, lvl, lvl), i, n):
        for ex in extras if (a, x) in leaf and (b, y) in leaf else extras[:4]:
            ch = {s: cl[s][1] for s in ex}
            p = {s: t for s, (_, t) in ch.items()}
            want = " ".join([p.get("hint", ""), p.get("explain", ""), p.get("with", ""), f"({x}) {op.value} ({y})", p.get("order", ""), p.get("limit", "")])
            direct = lambda: qal.SetQuery(a, b, set_operation=op, **{kws[s]: m() for s, (m, _) in ch.items()})  # noqa: E731
            built_ = lambda: qal.build_query([m() for m, _ in ch.values()] + [mk(a, b)])  # noqa: E731
            cmp.sql("set query", want, lambda: str(direct()), want)
            cmp.sql("set query from clauses", want, lambda: str(built_()), want)
            try:
                d, c = direct(), built_()
            except Exception:
                continue
            if d != c or hash(d) != hash(c):
                acc.violate("set query/built", f"{want}: built from clauses it differs: {c}")
            sc, exp = d.set_clause, mk(a, b)
            if sc != exp or type(sc) is not type(exp) or getattr(sc, "union_all", None) != getattr(exp, "union_all", None) or (sc.left_query, sc.right_query) != (a, b):
                acc.violate("set query/set_clause", f"{want}: set_clause is {sc}")
            if (d.left_query, d.right_query) != (a, b) or d.set_operation != op or d.is_ordered() != ("order" in ch) or d.is_set_query() is not True:
                acc.violate("set query/parts", f"{want}: {d.left_query} / {d.right_query} / {d.set_operation}, ordered {d.is_ordered()}")
            copy = qal.build_query(d.clauses())
            if copy != d:
                acc.violate("set query/copy", f"{want}: rebuilt from its clauses it is {copy}")
            for s in ch:
                less = qal.build_query(d.clauses(skip=type(ch[s][0]())))
                exp = qal.SetQuery(a, b, set_operation=op, **{kws[z]: m() for z, (m, _) in ch.items() if z != s})
                if less != exp:
                    acc.violate("set query/skip", f"{want}: without {s} it is {less}, expected {exp}")
        # explain clauses of the inputs do not survive
    for (op, mk), (a, x), (b, y) in sliced(itertools.product(ops, leaf, leaf), i, n):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ea = qal.build_query([*a.clauses(), qal.Explain.plan()])
            eb = qal.build_query([*b.clauses(), qal.Explain.explain_analyze()])
            for l, r in ((ea, b), (a, eb), (ea, eb)):
                cmp.sql("set query of explains", f"{x} {op.value} {y}", lambda l=l, r=r: str(qal.SetQuery(l, r, set_operation=op)), f"({x}) {op.value} ({y})")


# -- constructors refuse what they cannot represent -----------------------------------------------------------------------------

def p_reject(acc, i, n):
    A = CE[0][0]
    p = base_preds()[0][0]
    sel = qal.Select.star()
    q = subqueries()[0][0]
    bad = [("Not of two", lambda: qal.CompoundPredicate.create(CO.Not, [p, p])), ("And of none", lambda: qal.CompoundPredicate.create(CO.And, [])),
           ("Or of none", lambda: qal.CompoundPredicate.create(CO.Or, [])), ("create_and of none", lambda: qal.CompoundPredicate.create_and([])), ("create_or of none", lambda: qal.CompoundPredicate.create_or([])),
           ("IN of none", lambda: qal.InPredicate(A, [])), ("CASE of none", lambda: qal.CaseExpression([])), ("limit of nothing", lambda: qal.Limit()),
           ("array access without index", lambda: qal.ArrayAccessExpression(A)), ("array access with index and slice", lambda: qal.ArrayAccessExpression(A, idx=A, lower_idx=A)),
           ("array access with index and slice", lambda: qal.ArrayAccessExpression(A, idx=A, upper_idx=A)), ("cast without type", lambda: qal.CastExpression(A, "")),
           ("query without SELECT", lambda: qal.build_query([qal.From.create_for(R)])), ("no clause at all", lambda: qal.build_query([])), ("not a clause", lambda: qal.build_query([sel, p])),
           ("binary predicate of two arguments", lambda: qal.as_predicate(COLS[0][0], "=", 1, 2)), ("binary predicate without argument", lambda: qal.as_predicate(COLS[0][0], "=")),
           ("unknown operator", lambda: qal.as_predicate(COLS[0][0], "~~~", 1))]
    for c in (sel, qal.From.create_for(R), qal.Where(p), qal.GroupBy.create_for(COLS[0][0]), qal.Having(p)):
        for sc in (qal.UnionClause(q, q), qal.IntersectClause(q, q), qal.ExceptClause(q, q)):
            bad.append((f"{type(c).__name__} next to {type(sc).__name__}", lambda c=c, sc=sc: qal.build_query([sc, c])))
            bad.append((f"{type(c).__name__} before {type(sc).__name__}", lambda c=c, sc=sc: qal.build_query([c, sc])))
    for what, mk in sliced(bad, i, n):
        acc.case(("reject", what), 1)
        try:
            r = mk()
        except Exception:
            continue
        acc.violate("accepted", f"{what}: accepted as {r}")


# -- JSON descriptions ------------------------------------------------------------------------------------------------------------

def p_json(acc, i, n):
    cmp = Cmp(acc)
    from postbound.util import jsonize
    subs = []
    exprs = valid(built(exprs1(CE[:2] + [CONST[0], CONST[6]], base_preds()[:2], few=True)), False) + CE + CONST
    ps = [p for p in valid(built(preds1(CE[:2] + [CONST[0], CONST[6]], base_preds(), subs)), True) if p[0].tables()] + [p for p in valid(built(compounds(base_preds(), 2)), True) if p[0].tables()]
    jobs = [("expression", o, parser.load_expression_json) for o, _ in exprs] + [("predicate", o, parser.load_predicate_json) for o, _ in ps]
    jobs += [("column", c, parser.load_column_json) for c, _ in COLS] + [("table", t, parser.load_table_json) for t in (R, S, T, TableReference.create_virtual("v"), TableReference("x", "Y z", schema="S q"))]
    for kind, o, load in sliced(jobs, i, n):
        text = jsonize.to_json(o)
        for src in (text, json.loads(text)):
            acc.case((kind, str(o), type(src).__name__), 1)
            try:
                back = load(src)
            except Exception as e:
                acc.violate(f"json/{kind}/raises", f"{o}: {short(e)}")
                continue
            if kind in ("column", "table"):
                ok = back == o and str(back) == str(o)
                if kind == "table":
                    ok = ok and back.virtual == o.virtual and back.schema == o.schema
            else:
                ok = key(f"SELECT {back}") == key(f"SELECT {o}") and back.tables() == o.tables()
            if not ok:
                acc.violate(f"json/{kind}/differs", f"{o} is loaded as {back} from {text}"[:600])


def run(c: Check):
    c.part("expressions", p_exprs)
    c.part("predicates", p_preds)
    c.part("factories", p_factories)
    c.part("clauses and queries", p_clauses)
    c.part("set queries", p_sets)
    c.part("rejected descriptions", p_reject)
    c.part("JSON descriptions", p_json)
    c.finish()


run(Check("P27", "exploration",
          "every composition of constructors and factories within the bounds, compared with the SQL that the calls describe through PostgreSQL's grammar; "
          "a case is distinct by kind and description"))
