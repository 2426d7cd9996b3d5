"""P33: visitors, structural views and accessors of queries, algebra trees and plans cover every part and report it as it is."""
import inspect as pyinspect
import itertools
import math
import re
import warnings

from vlib import Check, short, sliced

import sqlspace
import postbound as pb
from postbound import qal, relalg
from postbound._core import Cardinality, ColumnReference, JoinOperator, ScanOperator, TableReference
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, SortKey
from postbound.parser import parse_query
from postbound.qal import _qal
from postbound.util import StateError

warnings.simplefilter("ignore")

EXPRESSIONS = {
    "StaticValueExpression": "visit_static_value_expr", "CastExpression": "visit_cast_expr", "MathExpression": "visit_math_expr", "ColumnExpression": "visit_column_expr", "FunctionExpression": "visit_function_expr",
    "SubqueryExpression": "visit_subquery_expr", "StarExpression": "visit_star_expr", "WindowExpression": "visit_window_expr", "CaseExpression": "visit_case_expr", "QuantifierExpression": "visit_quantifier_expr",
    "ArrayExpression": "visit_array_expr", "ArrayAccessExpression": "visit_array_access_expr",
}
PREDICATES = {"BinaryPredicate": "visit_binary_predicate", "BetweenPredicate": "visit_between_predicate", "InPredicate": "visit_in_predicate", "UnaryPredicate": "visit_unary_predicate"}
CLAUSES = {
    "Hint": "visit_hint_clause", "Explain": "visit_explain_clause", "CommonTableExpression": "visit_cte_clause", "Select": "visit_select_clause", "From": "visit_from_clause", "ImplicitFromClause": "visit_from_clause",
    "ExplicitFromClause": "visit_from_clause", "Where": "visit_where_clause", "GroupBy": "visit_groupby_clause", "Having": "visit_having_clause", "OrderBy": "visit_orderby_clause", "Limit": "visit_limit_clause",
    "UnionClause": "visit_union_clause", "ExceptClause": "visit_except_clause", "IntersectClause": "visit_intersect_clause",
}
NODES = {
    "Selection": "visit_selection", "CrossProduct": "visit_cross_product", "Union": "visit_union", "Intersection": "visit_intersection", "Difference": "visit_difference", "Relation": "visit_base_relation",
    "ThetaJoin": "visit_theta_join", "Projection": "visit_projection", "Grouping": "visit_grouping", "Rename": "visit_rename", "Sort": "visit_sort", "Map": "visit_map", "DuplicateElimination": "visit_duplicate_elim",
    "SemiJoin": "visit_semijoin", "AntiJoin": "visit_antijoin", "SubqueryScan": "visit_subquery",
}


def recorder(*bases):
    """an implementation of all methods of the visitors, which remembers its calls"""
    def method(name):
        def visit(self, *args, **kwargs):
            self.calls.append((name, args, kwargs))
            return ("result", name)
        return visit
    names = [m for b in bases for m, _ in pyinspect.getmembers(b) if m.startswith("visit_") and m != "visit_query_predicates"]
    cls = type("Recorder", bases, {m: method(m) for m in names})
    obj = cls()
    obj.calls = []
    return obj


ARGS = [((), {}), ((1,), {}), ((1, "x"), {"k": 2}), ((), {"k": 2, "l": None})]


def dispatch(acc, item, visitor, method, extra=(), text="", supported=True):
    for args, kwargs in ARGS if supported else ARGS[:1]:
        acc.step()
        visitor.calls.clear()
        name = type(item).__name__
        try:
            got = item.accept_visitor(visitor, *args, **kwargs)
        except Exception as e:
            acc.violate(f"visiting {name} fails", f"{item} of {text}: {short(e)}")
            return
        exp = [(method, (item, *extra, *args), kwargs)]
        same = len(visitor.calls) == 1 and visitor.calls[0][0] == method and len(visitor.calls[0][1]) == len(exp[0][1]) and visitor.calls[0][1][0] is item and visitor.calls[0][1][1:] == exp[0][1][1:] and visitor.calls[0][2] == kwargs
        if not same or got != ("result", method):
            acc.violate(f"visiting {name}", f"{item} of {text} with {args} {kwargs}: calls {visitor.calls}, expected {exp}, result {got}"[:500])


def statements():
    seen = set()
    for gen in (sqlspace.singles(), sqlspace.setops(), sqlspace.nested()):
        for x in gen:
            s = x if isinstance(x, str) else x[0]
            if s not in seen:
                seen.add(s)
                yield s
    for hint in ("/*+ SeqScan(r) */ ", ""):
        for ex in ("EXPLAIN ", "EXPLAIN ANALYZE "):
            yield f"{hint}{ex}SELECT r.a FROM r WHERE r.a = 1 LIMIT 3 OFFSET 1"


def parse_all(acc, idx, n):
    for s in sliced(statements(), idx, n):
        try:
            yield s, parse_query(s, bind_columns=False)
        except Exception:
            acc.count("not supported by the parser")


def subexpressions(e):
    """own traversal over the attributes of an expression: direct children that are expressions"""
    match e:
        case qal.CastExpression():
            return [e.casted_expression, *e.type_params]
        case qal.MathExpression():
            second = e.second_arg
            return [e.first_arg] + ([] if second is None else list(second) if isinstance(second, (list, tuple)) else [second])
        case qal.FunctionExpression():
            return list(e.arguments) + ([e.filter_where] if e.filter_where else [])
        case qal.CaseExpression():
            return ([e.simple_expression] if e.simple_expression else []) + [x for c, v in e.cases for x in (c, v)] + ([e.else_expression] if e.else_expression else [])
        case qal.QuantifierExpression():
            return [e.expression]
        case qal.ArrayExpression():
            return list(e.elements)
        case qal.BetweenPredicate():
            return [e.column, e.interval_start, e.interval_end]
        case qal.InPredicate():
            return [e.column, *e.values]
        case qal.UnaryPredicate():
            return [e.column]
        case qal.BinaryPredicate():
            return [e.first_argument, e.second_argument]
        case qal.CompoundPredicate():
            return [e.children] if e.operation == qal.CompoundOperator.Not else list(e.children)
    return list(e.iterchildren())


def closure(e):
    yield e
    for x in subexpressions(e):
        yield from closure(x)


def tops(q):
    for c in q.clauses():
        if isinstance(c, (qal.Where, qal.Having)):
            yield c.predicate if isinstance(c, qal.Where) else c.condition
        elif isinstance(c, qal.BaseClause):
            yield from c.iterexpressions()
    if isinstance(q, qal.SetQuery):
        yield from tops(q.left_query)
        yield from tops(q.right_query)


def p_visitors(acc, idx, n):
    ev, pv, cv = recorder(qal.SqlExpressionVisitor), recorder(qal.PredicateVisitor), recorder(qal.ClauseVisitor)
    both = recorder(qal.SqlExpressionVisitor, qal.PredicateVisitor)
    for s, q in parse_all(acc, idx, n):
        for top in tops(q):
            for e in closure(top):
                name = type(e).__name__
                if name in EXPRESSIONS:
                    dispatch(acc, e, ev, EXPRESSIONS[name], text=s)
                    dispatch(acc, e, both, EXPRESSIONS[name], text=s)
                    continue
                if not isinstance(e, qal.AbstractPredicate):
                    acc.violate(f"unknown expression {name}", s)
                    continue
                dispatch(acc, e, ev, "visit_predicate_expr", text=s)
                if isinstance(e, qal.CompoundPredicate):
                    method, extra = {"AND": "visit_and_predicate", "OR": "visit_or_predicate", "NOT": "visit_not_predicate"}[e.operation.value.upper()], (e.children,)
                else:
                    method, extra = PREDICATES[name], ()
                dispatch(acc, e, pv, method, extra, text=s)
                dispatch(acc, e, both, method, extra, text=s)
        clauses = list(q.clauses())
        for c in clauses:
            dispatch(acc, c, cv, CLAUSES[type(c).__name__], text=s)
        for args, kwargs in ARGS:
            cv.calls.clear()
            got = q.accept_visitor(cv, *args, **kwargs)
            if got != {c: ("result", CLAUSES[type(c).__name__]) for c in clauses} or len(cv.calls) != len(clauses) or any(x[1][1:] != args or x[2] != kwargs for x in cv.calls):
                acc.violate(f"visiting clauses of {type(q).__name__}", f"{s}: {cv.calls}"[:400])
        acc.case(s)


def p_collector(acc, idx, n):
    kinds = [getattr(qal, k) for k in EXPRESSIONS] + [qal.AbstractPredicate, qal.SqlExpression]
    for s, q in parse_all(acc, idx, n):
        for top in tops(q):
            for kind in kinds:
                for cont in (False, True):
                    exp = set()
                    todo = [top]
                    while todo:
                        e = todo.pop()
                        hit = isinstance(e, kind)
                        if hit:
                            exp.add(e)
                        if not hit or cont:
                            todo.extend(subexpressions(e))
                    acc.step()
                    try:
                        got = top.accept_visitor(qal.ExpressionCollector(lambda e: isinstance(e, kind), continue_after_match=cont))
                    except Exception as e:
                        acc.violate(f"collecting {kind.__name__} fails", f"{top} of {s}: {short(e)}")
                        continue
                    if got != exp:
                        acc.violate(f"collecting {kind.__name__} below {type(top).__name__} continue={cont}", f"{top} of {s}: {[str(x) for x in got]}, expected {[str(x) for x in exp]}")
        acc.case(s)


def depth(line):
    return len(line) - len(line.lstrip(" "))


def p_ast(acc, idx, n):
    """the textual structure contains each clause and each expression below it"""
    for s, q in parse_all(acc, idx, n):
        try:
            text = q.ast()
        except Exception as e:
            acc.violate(f"ast fails {short(e)[:60]}", f"{s}: {short(e)}")
            continue
        lines = text.split("\n")
        names = [m.group(1) if (m := re.match(r" *\+[- ]*(\w+)", l)) else None for l in lines if l.strip()]
        if names[0] != type(q).__name__:
            acc.violate("ast root", f"{s}: {text}")

        def top_level(query):
            if isinstance(query, qal.SetQuery):
                own = [c for c in query.clauses() if not isinstance(c, (qal.UnionClause, qal.ExceptClause, qal.IntersectClause))]
                return [type(c).__name__ for c in own], top_level(query.left_query), top_level(query.right_query)
            return [type(c).__name__ for c in query.clauses()]

        def flat(x):
            return [x] if isinstance(x, str) else [z for y in x for z in flat(y)]

        need = flat(list(top_level(q)))
        for k in set(need):
            if names.count(k) < need.count(k):
                acc.violate(f"ast lacks {k} in {type(q).__name__}", f"{s}: {text}")
        for top in tops(q):
            for e in closure(top):
                if isinstance(e, qal.ColumnExpression) and f"[{e.column}]" not in text and not lost(e, top):
                    acc.violate(f"ast lacks a column below {type(top).__name__}", f"{s}: {e} in {text}")
        for f in (x for x in [q.from_clause] if x) if not isinstance(q, qal.SetQuery) else ():
            for t in f.tables():
                if t.full_name and t.full_name not in text:
                    acc.violate("ast lacks a table", f"{s}: {t} in {text}")
        acc.case(s)


def lost(e, top):
    return f"{e}" in "".join(str(x) for x in closure(top) if isinstance(x, qal.SubqueryExpression))


def p_algebra(acc, idx, n):
    rv = recorder(relalg.RelNodeVisitor)
    seen = set()
    for s, q in parse_all(acc, idx, n):
        try:
            root = relalg.parse_relalg(q)
        except Exception:
            acc.count("not translated")
            continue
        todo = [root]
        while todo:
            x = todo.pop()
            seen.add(type(x).__name__)
            dispatch(acc, x, rv, NODES[type(x).__name__], text=s, supported=False)
            todo.extend(x.children())
        acc.case(s)
    if idx:
        return
    a, b = relalg.Relation(TableReference("a"), [qal.as_expression(ColumnReference("x", TableReference("a")))]), relalg.Relation(TableReference("b"), [qal.as_expression(ColumnReference("y", TableReference("b")))])
    x, y = ColumnReference("x", TableReference("a")), ColumnReference("y", TableReference("b"))
    pred = qal.as_predicate(x, "=", 1)
    sub = lambda: relalg.SubqueryScan(b, parse_query("SELECT b.y FROM b", bind_columns=False))
    nodes = [relalg.Selection(a, pred), relalg.CrossProduct(a, b), relalg.Union(a, b), relalg.Intersection(a, b), relalg.Difference(a, b), a, relalg.ThetaJoin(a, b, pred), relalg.Projection(a, [qal.as_expression(x)]),
             relalg.Rename(a, {x: ColumnReference("z", TableReference("a"))}), relalg.Sort(a, [(qal.as_expression(x), "asc")]), relalg.DuplicateElimination(a), relalg.SemiJoin(a, sub(), pred), relalg.AntiJoin(a, sub(), pred), sub()]
    for x in nodes:
        dispatch(acc, x, rv, NODES[type(x).__name__], supported=False)
        acc.case(type(x).__name__)


# ---------------------------------------------------------------- plans
def plans():
    a, b, c = TableReference("a"), TableReference("b", "y"), TableReference("c", "z", schema="s")
    x = qal.as_expression(ColumnReference("x", a))
    leaf_variants = [dict(), dict(estimated_cardinality=5, estimated_cost=3.5), dict(estimated_cardinality=5.1234567, estimated_cost=3.1234567, actual_cardinality=7, execution_time=0.5),
                     dict(cache_hits=3), dict(cache_misses=0, cache_hits=0), dict(parallel_workers=2, index="idx", sort_keys=[SortKey.of(x)], lookup_key=x), dict(sort_keys=[SortKey.of(x, ascending=False)], filter_predicate=qal.as_predicate(ColumnReference("x", a), "=", 42))]
    scan = lambda t, kw: pb.QueryPlan("Seq Scan", base_table=t, operator=ScanOperator.SequentialScan, **kw)
    for kw in leaf_variants:
        yield scan(a, kw)
        yield scan(c, kw)
        yield pb.QueryPlan("Hash", children=[scan(b, kw)], **kw)
        for kw2 in leaf_variants:
            j = pb.QueryPlan("Hash Join", operator=JoinOperator.HashJoin, children=[scan(a, kw), scan(b, kw2)], **kw2)
            yield j
            yield pb.QueryPlan("Nested Loop", operator=JoinOperator.NestedLoopJoin, children=[scan(c, kw2), j], **kw)
            yield pb.QueryPlan("Nested Loop", operator=JoinOperator.NestedLoopJoin, children=[j, scan(c, kw2)], subplan_root=scan(b, kw2), subplan_target_name="sub", **kw)
            yield pb.QueryPlan("Seq Scan", base_table=a, operator=ScanOperator.SequentialScan, subplan_root=j, subplan_target_name="sub", **kw)


def preorder(p, d=0):
    yield p, d
    for c in p.children:
        yield from preorder(c, d + 1)
    if p.subplan:
        yield from preorder(p.subplan.root, d + 1)


def main_nodes(p):
    yield p
    for c in p.children:
        yield from main_nodes(c)


def head(p):
    return f"{p.node_type}({p.base_table})" if p.is_scan() else p.node_type


def rd(x):
    return str(round(x, 3))


def expected_lines(p):
    out = [f"Estimated Cardinality={rd(p.estimated_cardinality)}, Estimated Cost={rd(p.estimated_cost)}"]
    if not math.isnan(float(p.actual_cardinality)) or not math.isnan(p.execution_time) or p.measures["cache_hits"] is not None or p.measures["cache_misses"] is not None:
        out.append(f"Actual Cardinality={rd(p.actual_cardinality)}, Actual Time={rd(p.execution_time)}s")
    h, m = p.measures["cache_hits"], p.measures["cache_misses"]
    if h is not None or m is not None:
        out.append(f"Cache Hits={math.nan if h is None else h}, Cache Misses={math.nan if m is None else m}")
    pr = p.params
    if pr["parallel_workers"]:
        out.append(f"Parallel Workers={pr['parallel_workers']}")
    if pr["lookup_key"]:
        out.append(f"Lookup Key={pr['lookup_key']}")
    props = ([f"Index={pr['index']}"] if pr["index"] else []) + ([f"Sort Keys={', '.join(str(k) for k in pr['sort_keys'])}"] if pr["sort_keys"] else [])
    if props:
        out.append(", ".join(props))
    return out


def p_plans(acc, idx, n):
    fields = ["estimated_cardinality", "estimated_cost", "node_type", "params.index", "measures.cache_hits", "estimates.cost"]
    for i, p in enumerate(plans()):
        if i % n != idx:
            continue
        acc.case((i, repr(p)))
        for x, _ in preorder(p):
            try:
                texts = {"inspect": x.inspect(), "explain": x.explain(), "fields": x.inspect(fields=fields), "ast": x.ast()}
                summary = x.plan_summary()
                cols = x.columns()
            except Exception as e:
                acc.violate(f"plan view fails {short(e)[:50]}", f"{x}: {short(e)}")
                continue
            nodes = list(preorder(x))
            exp = [l for nd, d in nodes for l in [("->  " if d else "") + head(nd)] + expected_lines(nd)]
            got = [l.strip() for l in texts["inspect"].split("\n")]
            if got != exp or texts["explain"] != texts["inspect"]:
                acc.violate("inspect", f"{texts['inspect']}\nexpected {exp}"[:700])
            fmt = lambda v: rd(v) if isinstance(v, (int, float, Cardinality)) else str(v)
            exp = [l for nd, d in nodes for l in [("->  " if d else "") + head(nd),
                   "[" + " ".join(f"{f}={fmt(v)}" for f, v in zip(fields, (nd.estimated_cardinality, nd.estimated_cost, nd.node_type, nd.params["index"], nd.measures["cache_hits"], nd.estimates["cost"]))) + "]"]]
            got = [l.strip() for l in texts["fields"].split("\n")]
            if got != exp:
                acc.violate("inspect with fields", f"{texts['fields']}\nexpected {exp}"[:700])
            heads = [(("->  " if d else "") + head(nd)) for nd, d in nodes]
            if [l.strip() for l in texts["ast"].split("\n")] != heads:
                acc.violate("plan ast", f"{texts['ast']}\nexpected {heads}"[:700])
            for which in ("inspect", "ast"):  # deeper nodes are indented further
                hl = [l for l in texts[which].split("\n") if l.strip() in heads]
                if len(hl) == len(nodes):
                    lev = {}
                    for l, (nd, d) in zip(hl, nodes):
                        lev.setdefault(d, set()).add(depth(l))
                    ds = sorted(lev)
                    if any(len(v) > 1 for v in lev.values()) or any(max(lev[u]) >= min(lev[v]) for u, v in zip(ds, ds[1:])):
                        acc.violate(f"indentation {which}", texts[which][:500])
            exp_cols = set().union(*[nd.params["filter_predicate"].columns() if nd.params["filter_predicate"] else set() for nd, _ in nodes])
            if cols != exp_cols:
                acc.violate("columns of plans", f"{texts['inspect']}: {cols}, expected {exp_cols}")
            def q(nd):
                e, a = float(nd.estimated_cardinality), float(nd.actual_cardinality)
                return math.nan if math.isnan(e) or math.isnan(a) else (max(e, a) + 1) / (min(e, a) + 1)
            counts = {}
            for nd in main_nodes(x):  # the summary does not cover subplans
                counts[nd.node_type] = counts.get(nd.node_type, 0) + 1
            if summary["operator"] != x.node_type or dict(summary["phys_ops"]) != counts or str(summary["estimated_card"]) != rd(x.estimated_cardinality) or str(summary["estimated_cost"]) != rd(x.estimated_cost) or str(summary["actual_card"]) != rd(x.actual_cardinality):
                acc.violate("plan summary", f"{summary} of {texts['inspect']}")
            if set(summary["intermediate"].split(" ⋈ ")) != {str(t) for t in x.tables()}:
                acc.violate("plan summary tables", f"{summary} of {texts['inspect']}")


def p_params(acc, idx, n):
    """every subset of values: attributes, items, get and membership agree, before and after updates"""
    if idx:
        return
    t, x = TableReference("a"), qal.as_expression(ColumnReference("x", TableReference("a")))
    pred = qal.as_predicate(ColumnReference("y", t), "=", 1)
    spaces = [
        (PlanParams, dict(base_table=(None, t), filter_predicate=(None, pred), sort_keys=((), (SortKey.of(x),)), parallel_workers=(0, 3), index=("", "i"), lookup_key=(None, x), custom=("-", 7))),
        (PlanEstimates, dict(cardinality=(Cardinality.unknown(), Cardinality(4)), cost=(math.nan, 2.5, 0.0), custom=("-", 7, math.nan))),
        (PlanMeasures, dict(cardinality=(Cardinality.unknown(), Cardinality(4)), execution_time=(math.nan, 2.5, 0.0), cache_hits=(None, 0, 4), cache_misses=(None, 0, 4), custom=("-", 7))),
    ]
    same = lambda u, v: u is v or u == v or (isinstance(u, (float, Cardinality)) and isinstance(v, (float, Cardinality)) and math.isnan(float(u)) and math.isnan(float(v)))
    for cls, space in spaces:
        names = list(space)
        for vals in itertools.product(*space.values()):
            state = {k: v for k, v in zip(names, vals) if not (k == "custom" and v == "-")}
            for omit in (False, True):
                kwargs = {k: v for k, v in state.items() if not (omit and same(v, space[k][0]))}
                o = cls(**kwargs)

                def observe(o, state, what):
                    acc.step()
                    for k, v in state.items():
                        d = object()
                        isnan = isinstance(v, float) and math.isnan(v)
                        ok = same(getattr(o, k), v) and same(o[k], v) and k in o and (o.get(k, d) is d if isnan else same(o.get(k, d), v) or isinstance(v, Cardinality))
                        if not ok:
                            acc.violate(f"{cls.__name__} {what} {k}", f"{state}: {getattr(o, k)!r}, {o[k]!r}, {o.get(k)!r}")
                    for k in ("custom", "other"):
                        if k in state:
                            continue
                        ok = k not in o and o.get(k) is None and o.get(k, 5) == 5
                        for fn, err in ((lambda: o[k], KeyError), (lambda: getattr(o, k), AttributeError)):
                            try:
                                fn()
                                ok = False
                            except err:
                                pass
                        if not ok:
                            acc.violate(f"{cls.__name__} {what} missing {k}", f"{state}")
                    if not set(state) <= set(o.items_() if hasattr(o, "items_") else o._params):
                        acc.violate(f"{cls.__name__} content", f"{state}")

                observe(o, state, "initial")
                for k in [*names, "other"]:
                    for v in (space.get(k, (None, 9))[-1], space.get(k, (0,))[0]):
                        for how in ("attr", "item"):
                            c = o.clone()
                            setattr(c, k, v) if how == "attr" else c.__setitem__(k, v)
                            observe(c, {**state, k: v}, f"after {how}")
                            observe(o, state, "original of a changed copy")
                if cls is PlanParams:
                    exp = {t} if state["base_table"] or state["filter_predicate"] or state["lookup_key"] or state["sort_keys"] else set()
                    if o.tables() != exp and state["sort_keys"] == ():
                        acc.violate("tables of parameters", f"{state}: {o.tables()}")
                    exp = pred.columns() if state["filter_predicate"] else set()
                    if o.columns() != exp:
                        acc.violate("columns of parameters", f"{state}: {o.columns()}")
            acc.case((cls.__name__, repr(vals)))


def p_sortkeys(acc, idx, n):
    if idx:
        return
    t = TableReference("a")
    cols = [ColumnReference(c, t) for c in "xyz"]
    ex = [qal.as_expression(c) for c in cols]
    keys = []
    for r in range(1, 4):
        for sel in itertools.combinations(range(3), r):
            for asc in (True, False):
                for src in (cols, ex):
                    k = SortKey.for_equivalence_class([src[i] for i in sel], ascending=asc)
                    keys.append((frozenset(sel), asc, k))
                    if r == 1:
                        keys.append((frozenset(sel), asc, SortKey.of(src[sel[0]], ascending=asc)))
    for sel, asc, k in keys:
        acc.case((sorted(sel), asc))
        try:
            single = k.column
        except StateError:
            single = None
        exp_single = ex[min(sel)] if len(sel) == 1 else None
        if k.equivalence_class != frozenset(ex[i] for i in sel) or k.ascending is not asc or len(k) != len(sel) or single != exp_single:
            acc.violate("sort key content", f"{k} for {sel}")
        text = str(k)
        if text.endswith(" DESC") == asc or set(text.removesuffix(" DESC").strip("{}").split(", ")) != {str(ex[i]) for i in sel}:
            acc.violate("sort key text", f"{text} for {sel}")
        for i, c in enumerate(cols):
            if k.is_compatible_with(c) != (i in sel) or (c in k) != (i in sel):
                acc.violate("sort key columns", f"{c} in {k}")
        if "x" in k or None in k:
            acc.violate("sort key and other values", text)
        for sel2, asc2, k2 in keys:
            acc.step()
            comp = asc == asc2 and bool(sel & sel2)
            if k.is_compatible_with(k2) != comp or (k2 in k) != comp:
                acc.violate("sort key compatibility", f"{k} and {k2}")
            eq = (sel, asc) == (sel2, asc2)
            if (k == k2) != eq or eq and hash(k) != hash(k2):
                acc.violate("sort key equality", f"{k} and {k2}")
            try:
                m = k.merge_with(k2)
                ok = asc == asc2 and m.equivalence_class == frozenset(ex[i] for i in sel | sel2) and m.ascending is asc
            except ValueError:
                ok = asc != asc2
            if not ok:
                acc.violate("sort key merge", f"{k} and {k2}")
    for bad in ([], ()):
        try:
            SortKey(bad)
            acc.violate("sort key without members", "")
        except ValueError:
            pass


def hint_sections(text):
    """first line and {heading: set of entries}; tables of an entry have no order"""
    lines = text.split("\n")
    out, cur = {}, None
    for line in lines[1:]:
        if line.strip().startswith("+- "):
            name, _, value = line.strip()[3:].rpartition(": ")
            key = tuple(sorted(name[1:-1].split(", "))) if name.startswith("{") else name
            out[cur].append((key, value))
        else:
            cur = line.strip().rstrip(":")
            out[cur] = []
    return lines[0], {k: sorted(map(repr, v)) for k, v in out.items()}


def p_hints(acc, idx, n):
    from IPython.lib import pretty

    from postbound import _ipython
    from postbound._hints import JoinTree, LogicalJoinTree, PhysicalOperatorAssignment, PlanParameterization
    from postbound.opt import tonic

    _ipython.setup_pretty_printers()
    r, s, t = TableReference("r"), TableReference("s", "x"), TableReference("t", "y", schema="pub")
    sets = [(r,), (s,), (r, s), (t, s), (r, s, t)]

    def judge(key, obj, title, want):
        acc.step()
        acc.case(key, title)
        try:
            got = hint_sections(obj.inspect())
            shown = pretty.pretty(obj)
        except Exception as e:
            acc.violate(f"{key} raises", short(e))
            return
        exp = {k: sorted(map(repr, v)) for k, v in want.items() if v}
        if got != (title, exp):
            acc.violate(f"{key} view", f"{exp} is shown as {got}")
        if shown != obj.inspect():
            acc.violate(f"{key} pretty printer", f"{shown!r}")

    def name(tabs):
        return tuple(sorted(x.identifier() for x in tabs))

    ops = [(), (ScanOperator.SequentialScan, False), (JoinOperator.HashJoin, True), (JoinOperator.NestedLoopJoin, False)]
    scans = [(), (r, ScanOperator.IndexScan), (s, ScanOperator.SequentialScan), (t, ScanOperator.BitmapScan)]
    joins = [(), ((r, s), JoinOperator.SortMergeJoin), ((r, s, t), JoinOperator.HashJoin)]
    inter = [(), ((r,), pb.IntermediateOperator.Memoize), ((s, t), pb.IntermediateOperator.Materialize)]
    k = 0
    for o, o2, sc, sc2, j, j2, im in itertools.product(ops, ops[:2], scans, scans[:3], joins, joins, inter):
        k += 1
        if k % n != idx:
            continue
        a = PhysicalOperatorAssignment()
        for x in (o, o2):
            if x:
                a.set_operator_enabled_globally(*x)
        for x in (sc, sc2):
            if x:
                a.set_scan_operator(x[1], x[0])
        for x in (j, j2):
            if x:
                a.set_join_operator(x[1], x[0])
        if im:
            a.set_intermediate_operator(im[1], im[0])
        want = {"Global settings": list({x[0].value: (x[0].value, "enabled" if x[1] else "disabled") for x in (o, o2) if x}.values()),
                "Scan operators": list({x[0]: (x[0].identifier(), x[1].value) for x in (sc, sc2) if x}.values()),
                "Join operators": list({x[0]: (name(x[0]), x[1].value) for x in (j, j2) if x}.values()),
                "Intermediate operators": [(name(im[0]), im[1].value)] if im else []}
        judge(f"assignment {o} {o2} {sc} {sc2} {j} {j2} {im}", a, "PhysicalOperatorAssignment", want)
    k = 0
    for c1, c2, w, st in itertools.product([None, *sets], [None, *sets], [None, *sets], [{}, {"a": 1}, {"a": "x", "b.c": False}]):
        k += 1
        if k % n != idx:
            continue
        p = PlanParameterization()
        cards = {}
        for tabs, v in ((c1, 5), (c2, 70)):
            if tabs:
                p.add_cardinality(tabs, pb.Cardinality(v))
                cards[tabs] = v
        if w:
            p.set_workers(w, 3)
        for key, v in st.items():
            p.set_system_settings(key, v)
        want = {"System settings": [(a, str(b)) for a, b in st.items()], "Cardinalities": [(name(a), str(pb.Cardinality(b))) for a, b in cards.items()], "Parallel workers": [(name(w), "3")] if w else []}
        judge(f"parameters {c1} {c2} {w} {st}", p, "PlanParameterization", want)

    # join trees: one line for each node in preorder, indented by depth
    def trees(tabs, cls, ticks):
        if len(tabs) == 1:
            yield cls.scan(tabs[0], annotation=next(ticks))
            return
        for m in range(1, len(tabs)):
            for a in trees(tabs[:m], cls, ticks):
                for b in trees(tabs[m:], cls, ticks):
                    yield cls.join(a, b, annotation=next(ticks))

    def lines(x, d):
        yield (d, "⨝" if not x.is_scan() else str(x.base_table), str(x.annotation))
        if not x.is_scan():
            yield from lines(x.outer_child, d + 1)
            yield from lines(x.inner_child, d + 1)

    k = 0
    for cls in (JoinTree, LogicalJoinTree):
        for m in (1, 2, 3, 4):
            for tabs in itertools.permutations([r, s, t, TableReference("u")], m):
                for x in trees(list(tabs), cls, (pb.Cardinality(v) for v in itertools.count(1))):
                    k += 1
                    if k % n != idx:
                        continue
                    acc.step()
                    acc.case(("tree", cls.__name__, str(x)), "tree")
                    text = x.inspect()
                    got = []
                    for line in text.split("\n"):
                        body = line.strip().removeprefix("<- ")
                        head, _, note = body.rpartition(" (")
                        got.append(((len(line) - len(line.lstrip())) // 2, head, note.rstrip(")")))
                    if got != list(lines(x, 0)):
                        acc.violate(f"join tree {x} view", f"{text!r}")
                    if pretty.pretty(x) != text:
                        acc.violate(f"join tree {x} pretty printer", f"{pretty.pretty(x)!r}")
    # synopses: each node with its costs, children and subquery
    if idx == 0:
        for depth in (1, 2, 3):
            for sub in (False, True):
                for costs in ({}, {JoinOperator.HashJoin: 2.5}, {JoinOperator.HashJoin: 2.5, JoinOperator.NestedLoopJoin: 7.25}):
                    root = tonic.QEPSynopsis.create(False, 0.5).root
                    node, want = root, []
                    for d in range(depth):
                        ident = tonic.QepsIdentifier([[r], [s], [t]][d])
                        node = node.child_nodes[ident]
                        node.operator_costs.update(costs)
                        want.append(f"node {ident}\n")
                        if sub:
                            node.subquery_root.child_nodes[tonic.QepsIdentifier([TableReference(f"q{d}")])].operator_costs.update({JoinOperator.SortMergeJoin: 1.125 + d})
                    acc.step()
                    acc.case(("qeps", depth, sub, len(costs)), "synopsis")
                    text = root.inspect()
                    bad = [w for w in want if text.count(w) != 1]
                    bad += [f"q{d}" for d in range(depth) if text.count(f"q{d}") != sub] + [str(1.125 + d) for d in range(depth) if text.count(str(1.125 + d)) != sub]
                    bad += [str(v) for v in costs.values() if text.count(str(v)) != depth]
                    if bad or [text.find(w) for w in want] != sorted(text.find(w) for w in want):
                        acc.violate(f"synopsis depth={depth} subqueries={sub} costs={len(costs)}", f"{bad}: {text!r}")
    for q in ["SELECT * FROM r", "SELECT r.a FROM r, s WHERE r.a = s.b AND r.c IN (SELECT t.a FROM t)"] if idx == 0 else []:
        parsed = pb.parse_query(q, bind_columns=False)
        acc.case(("pretty", q), "printer")
        if pretty.pretty(parsed) != qal.format_quick(parsed):
            acc.violate(f"pretty printer {q}", pretty.pretty(parsed))


def run(c: Check):
    c.part("visitors", p_visitors)
    c.part("collectors", p_collector)
    c.part("structure of queries", p_ast)
    c.part("visitors of algebra trees", p_algebra)
    c.part("views of plans", p_plans)
    c.part("parameters of plans", p_params)
    c.part("sort keys", p_sortkeys)
    c.part("views of hints", p_hints)
    c.finish()


run(Check("P33", "exploration",
          "every statement of the catalogue with each clause, predicate and expression in it, every kind of visitor with several argument lists; every plan up to three tables over seven sets of values; "
          "every combination of plan parameters and of sort keys over three columns; a case is distinct by its input"))
