"""P21: query plans reported by a database system are imported faithfully."""
import contextlib
import copy
import itertools
import json
import math
import types
import typing
import warnings
from pathlib import Path

import quacklab
from vlib import Check, short, sliced

import postbound as pb
from postbound import duckdb as pbduck
from postbound import mysql as pbmy
from postbound import postgres as pbpg
from postbound import qal, transform
from postbound._core import IntermediateOperator as IO, JoinOperator as JO, ScanOperator as SO, TableReference
from postbound.parser import parse_query

warnings.simplefilter("ignore")


def num(x):
    x = float(x)
    return None if math.isnan(x) else x


def close(a, b):
    a, b = num(a), num(b)
    return a is None and b is None or a is not None and b is not None and (a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)))


# ---------------------------------------------------------------- reference: Postgres documents
PG_OPS = {
    "Nested Loop": JO.NestedLoopJoin, "Hash Join": JO.HashJoin, "Merge Join": JO.SortMergeJoin,
    "Seq Scan": SO.SequentialScan, "Index Scan": SO.IndexScan, "Index Only Scan": SO.IndexOnlyScan, "Bitmap Heap Scan": SO.BitmapScan,
    "Materialize": IO.Materialize, "Memoize": IO.Memoize, "Sort": IO.Sort,
}


def pg_expected(d, factor=1):
    """our own reading of the document"""
    inner = factor if factor > 1 else 1 + d.get("Workers Planned", 0)
    kids = {}
    for c in d.get("Plans", []):
        kids.setdefault(c["Parent Relationship"], []).append(pg_expected(c, inner))
    subs = [x for r in ("SubPlan", "InitPlan", "Subquery") for x in kids.get(r, [])]
    children = kids.get("Outer", []) + kids.get("Inner", []) + kids.get("Member", []) + kids.get("children", []) + kids.get("child", [])
    table = None
    if d.get("Relation Name"):
        alias = d.get("Alias")
        table = (d["Relation Name"], alias if alias and alias != d["Relation Name"] else "")
    actual = d["Actual Rows"] * d.get("Actual Loops", 1) if "Actual Rows" in d and d["Node Type"] not in ("BitmapAnd", "BitmapOr") else math.nan
    return dict(
        type=d["Node Type"], operator=PG_OPS.get(d["Node Type"]), table=table, index=d.get("Index Name"), children=children, subs=subs,
        workers=d.get("Workers Launched") or d.get("Workers Planned") or None, cost=d.get("Total Cost", math.nan),
        estimate=d.get("Plan Rows", math.nan) * factor, actual=actual,
        time=d.get("Actual Total Time", math.nan) / 1000, hits=d.get("Shared Hit Blocks"), misses=d.get("Shared Read Blocks"),
        name=d.get("Subplan Name") or d.get("CTE Name"),
    )


def differences(plan, exp, path="root"):
    """all differences between an imported plan and the expectation"""
    out = []

    def diff(what, got, want):
        out.append((what, f"at {path} ({exp['type']}): {got} instead of {want}"))

    if plan.operator != exp["operator"]:
        diff("operator", plan.operator, exp["operator"])
    names = {exp["type"]} | ({plan.operator.value, plan.operator.name} if plan.operator and plan.operator == exp["operator"] else set())
    if str(plan.node_type) not in names:
        diff("node type", plan.node_type, exp["type"])
    table = plan.params.base_table
    if exp["table"] != "any" and (None if table is None else (table.full_name, table.alias)) != exp["table"]:
        diff("table", table, exp["table"])
    if "index" in exp and (plan.params.index or None) != exp["index"]:
        diff("index", plan.params.index, exp["index"])
    if "workers" in exp and (plan.params.parallel_workers or None) != exp["workers"]:
        diff("workers", plan.params.parallel_workers, exp["workers"])
    for what, got in (("cost", plan.estimated_cost), ("estimate", plan.estimated_cardinality), ("actual", plan.actual_cardinality), ("time", plan.execution_time)):
        if what in exp and not close(got, exp[what]) and not (what == "estimate" and num(got) is not None and num(exp[what]) is not None and abs(got - exp[what]) <= 0.5):
            diff({"estimate": "estimated cardinality", "actual": "actual cardinality"}.get(what, what), got, exp[what])
    for what, got in (("hits", plan.measures.cache_hits), ("misses", plan.measures.cache_misses)):
        if what in exp and got != exp[what]:
            diff(f"cache {what}", got, exp[what])
    if exp.get("name") and plan.get("subplan_name") != exp["name"] and (plan.subplan is None or plan.subplan.target_name != exp["name"]):
        diff("subplan name", plan.get("subplan_name"), exp["name"])
    subs = exp.get("subs", [])
    root = plan.subplan.root if plan.subplan is not None else None
    if len(plan.children) != len(exp["children"]):
        diff("number of children", [c.node_type for c in plan.children], [c["type"] for c in exp["children"]])
    else:
        for k, (c, e) in enumerate(zip(plan.children, exp["children"])):
            out += differences(c, e, f"{path}.{k}")
    if bool(subs) != (root is not None):
        diff("subplan", root and root.node_type, [s["type"] for s in subs])
    elif len(subs) == 1:
        out += differences(root, subs[0], f"{path}.subplan")
    elif subs:
        diff("several subplans", root.node_type, [s["type"] for s in subs])
    return out


# ---------------------------------------------------------------- generation of Postgres documents
class Numbers:
    """distinct numbers for all attributes"""

    def __init__(self, analyze, style=0):
        self.k, self.analyze, self.style = 0, analyze, style

    def node(self, kind, *plans, rel=None, **extra):
        self.k += 1
        k = self.k
        d = {"Node Type": kind, "Parallel Aware": False, "Async Capable": False, "Startup Cost": k / 2, "Total Cost": 100.5 + k, "Plan Rows": 7 + 3 * k if self.style != 1 else 0, "Plan Width": k}
        if self.analyze:
            d |= {"Actual Startup Time": 0.5, "Actual Total Time": 10.25 + k, "Actual Rows": 11 + 5 * k if self.style != 1 else 0, "Actual Loops": (1, 1, 0, 3)[(k + self.style) % 4]}
            if self.style != 2:
                d |= {"Shared Hit Blocks": k % 3, "Shared Read Blocks": (k + 1) % 3, "Temp Read Blocks": 0, "Temp Written Blocks": 1}
        d |= extra
        ps = []
        for r, p in plans:
            p["Parent Relationship"] = r
            ps.append(p)
        if ps:
            d["Plans"] = ps
        return d


def pg_kinds():
    """(builder of a leaf) and (builder of a unary node) and (builder of a binary node)"""
    scans = [
        ("seq", lambda n, t, a: n.node("Seq Scan", **{"Relation Name": t, "Alias": a, "Filter": "(x = 1)", "Schema": "public"})),
        ("index", lambda n, t, a: n.node("Index Scan", **{"Relation Name": t, "Alias": a, "Index Name": f"{t}_pkey", "Index Cond": "(id = u.id)", "Scan Direction": "Forward"})),
        ("only", lambda n, t, a: n.node("Index Only Scan", **{"Relation Name": t, "Alias": a, "Index Name": f"{t}_idx"})),
        ("bitmap", lambda n, t, a: n.node("Bitmap Heap Scan", ("Outer", n.node("Bitmap Index Scan", **{"Index Name": f"{t}_b"})), **{"Relation Name": t, "Alias": a, "Recheck Cond": "(x = 1)"})),
        ("bitmapand", lambda n, t, a: n.node("Bitmap Heap Scan", ("Outer", n.node("BitmapAnd", ("Member", n.node("Bitmap Index Scan", **{"Index Name": f"{t}_b"})), ("Member", n.node("Bitmap Index Scan", **{"Index Name": f"{t}_c"})))), **{"Relation Name": t, "Alias": a})),
        ("noalias", lambda n, t, a: n.node("Seq Scan", **{"Relation Name": t})),
        ("tid", lambda n, t, a: n.node("Tid Scan", **{"Relation Name": t, "Alias": a})),
        ("cte", lambda n, t, a: n.node("CTE Scan", **{"CTE Name": t, "Alias": a})),
        ("function", lambda n, t, a: n.node("Function Scan", **{"Function Name": t, "Alias": a})),
        ("values", lambda n, t, a: n.node("Values Scan", **{"Alias": a})),
        ("foreign", lambda n, t, a: n.node("Foreign Scan", **{"Relation Name": t, "Alias": a})),
        ("result", lambda n, t, a: n.node("Result")),
    ]

    def gather(kind, planned, launched):
        def build(n, p):
            extra = {"Workers Planned": planned}
            if n.analyze:
                extra["Workers Launched"] = launched
            return n.node(kind, ("Outer", p), **extra)
        return build

    unary = [(k, lambda n, p, k=k: n.node(k, ("Outer", p))) for k in ("Sort", "Materialize", "Memoize", "Hash", "Aggregate", "Limit", "Unique", "Result")]
    unary += [
        ("Gather2", gather("Gather", 2, 2)), ("Gather2of3", gather("Gather", 3, 1)), ("Gather0of2", gather("Gather", 2, 0)), ("GatherMerge1", gather("Gather Merge", 1, 1)),
        ("Subquery Scan", lambda n, p: n.node("Subquery Scan", ("Subquery", p), **{"Alias": "sq"})),
        ("SubPlan", lambda n, p: n.node("Seq Scan", ("SubPlan", p | {"Subplan Name": "SubPlan 1"}), **{"Relation Name": "s", "Alias": "s", "Filter": "(SubPlan 1)"})),
        ("InitPlan", lambda n, p: n.node("Aggregate", ("InitPlan", p | {"Subplan Name": "CTE c"}), ("Outer", n.node("CTE Scan", **{"CTE Name": "c", "Alias": "c"})))),
        ("Append1", lambda n, p: n.node("Append", ("Member", p))),
        ("Custom", lambda n, p: n.node("Custom Scan", ("child", p), **{"Custom Plan Provider": "x"})),
    ]
    binary = [
        ("Nested Loop", lambda n, l, r: n.node("Nested Loop", ("Outer", l), ("Inner", r), **{"Join Type": "Inner"})),
        ("Hash Join", lambda n, l, r: n.node("Hash Join", ("Outer", l), ("Inner", n.node("Hash", ("Outer", r))), **{"Join Type": "Left", "Hash Cond": "(a = b)"})),
        ("Merge Join", lambda n, l, r: n.node("Merge Join", ("Inner", r), ("Outer", l), **{"Join Type": "Inner", "Merge Cond": "(a = b)"})),  # order of the list does not matter
        ("Append", lambda n, l, r: n.node("Append", ("Member", l), ("Member", r))),
        ("Join with InitPlan", lambda n, l, r: n.node("Hash Join", ("InitPlan", n.node("Result", **{"Subplan Name": "InitPlan 1 (returns $0)"})), ("Outer", l), ("Inner", r))),
        ("Customs", lambda n, l, r: n.node("Custom Scan", ("children", l), ("children", r))),
    ]
    return scans, unary, binary


def pg_documents(deep):
    """all combinations of node kinds: a leaf below up to two unary nodes; binary nodes over leaves and unary nodes; two levels of binary nodes"""
    scans, unary, binary = pg_kinds()
    core = [s for s in scans if s[0] in ("seq", "index", "bitmap", "cte")]

    def leaf(s, t, a):
        return lambda n: s[1](n, t, a)

    def up(u, f):
        return lambda n: u[1](n, f(n))

    def two(b, f, g):
        return lambda n: b[1](n, f(n), g(n))

    for s in scans:
        for a in ("t", "x"):
            yield f"{s[0]}:{a}", leaf(s, "t", a)
        for u in unary:
            yield f"{u[0]}({s[0]})", up(u, leaf(s, "t", "x"))
    for s in core:
        for u, v in itertools.product(unary, repeat=2):
            yield f"{u[0]}({v[0]}({s[0]}))", up(u, up(v, leaf(s, "t", "x")))
    for b in binary:
        for s, r in itertools.product(scans, repeat=2):
            yield f"{b[0]}({s[0]}, {r[0]})", two(b, leaf(s, "t", "t"), leaf(r, "u", "y"))
        for u, v in itertools.product(unary, repeat=2):
            yield f"{b[0]}({u[0]}, {v[0]})", two(b, up(u, leaf(scans[0], "t", "t")), up(v, leaf(scans[1], "t", "y")))
        for u in unary:
            for v in unary if deep else [("", None)]:
                f = two(b, leaf(scans[0], "t", "t"), leaf(scans[1], "u", "u"))
                yield f"{u[0]}({v[0]}({b[0]}))", up(u, up(v, f) if v[1] else f)
    for b, c in itertools.product(binary, repeat=2):
        for s in core:
            for u in unary if deep else unary[:1] + unary[8:10]:
                low = two(c, leaf(s, "u", "u"), leaf(scans[0], "v", "w"))
                yield f"{b[0]}({u[0]}({s[0]}), {c[0]})", two(b, up(u, leaf(s, "t", "t")), low)
                yield f"{b[0]}({c[0]}, {u[0]}({s[0]}))", two(b, low, up(u, leaf(s, "t", "t")))


def violations(acc, tag, plan, exp, detail):
    for what, text in differences(plan, exp):
        acc.violate(f"{tag}: {what}", f"{detail}: {text}")


def postgres(acc, i, n, deep=False):
    w = pg_world()
    for name, build in sliced(list(pg_documents(deep)), i, n):
        for analyze, style in ((False, 0), (True, 0), (True, 1), (True, 2)):
            doc = build(Numbers(analyze, style))
            exp = pg_expected(doc)
            acc.case((name, analyze, style), exp["type"])
            raw = {"Plan": doc, "Planning Time": 4.5} | ({"Execution Time": 9.5} if analyze else {})
            before = copy.deepcopy(raw)
            detail = f"{name} analyze={analyze} style={style}"
            try:
                explained = pbpg.PostgresExplainPlan(raw)
                plan = explained.as_qep()
            except Exception as e:
                acc.violate(f"Postgres: import fails {type(e).__name__}", f"{detail}: {short(e)}")
                continue
            acc.step()
            violations(acc, "Postgres", plan, exp, detail)
            if raw != before:
                acc.violate("Postgres: import modifies the document", detail)
            if explained.is_analyze() != analyze or not close(explained.planning_time, 0.0045) or not close(explained.execution_time, 0.0095 if analyze else math.nan):
                acc.violate("Postgres: times of the plan", detail)
            if plan.is_analyze() != analyze:
                acc.violate("Postgres: plan has measurements", f"{detail}: {plan.is_analyze()}")
            again = pbpg.PostgresExplainPlan([copy.deepcopy(raw)])
            if again != explained or hash(again) != hash(explained) or again.as_qep() != plan:
                acc.violate("Postgres: importing twice yields different plans", detail)
            if style == 0:
                other = copy.deepcopy(raw)
                for node in walk(other["Plan"]):
                    if "Index Name" in node:
                        node["Index Name"] += "_2"
                    if "Filter" in node:
                        node["Filter"] = "(y = 2)"
                other = pbpg.PostgresExplainPlan(other)
                if other == explained and hash(other) != hash(explained):
                    acc.violate("Postgres: equal plans have different hashes", detail)
                conditions(acc, explained.root, doc, detail)
            want = [x for x in walk(doc)]
            entry = (raw, [raw], [([raw],)], json.loads(json.dumps(raw)))
            if style == 0:
                for variant in entry:
                    if w.optimizer.parse_plan(variant) != plan:
                        acc.violate("Postgres: forms of the result differ", f"{detail}: {str(variant)[:60]}")
                w.document = raw
                calls = [("analyze_plan", w.query)] if analyze else [("query_plan", w.query), ("query_plan", str(w.query)), ("query_plan", "EXPLAIN (FORMAT JSON) " + str(w.query))]
                for call, arg in calls:
                    try:
                        got = getattr(w.optimizer, call)(arg)
                    except Exception as e:
                        acc.violate(f"Postgres: {call} fails {type(e).__name__}", f"{detail}: {short(e)}")
                        continue
                    if got != plan:
                        acc.violate(f"Postgres: {call} differs from import", detail)
                if not analyze and (num(w.optimizer.cardinality_estimate(w.query)) != num(exp["estimate"]) or num(w.optimizer.cost_estimate(w.query)) != num(exp["cost"])):
                    acc.violate("Postgres: estimates of a query", f"{detail}: {w.optimizer.cardinality_estimate(w.query)} {w.optimizer.cost_estimate(w.query)}")
            assert want


def walk(doc):
    yield doc
    for c in doc.get("Plans", []):
        yield from walk(c)


def conditions(acc, node, doc, detail):
    keys = ("Filter", "Index Cond", "Join Filter", "Hash Cond", "Recheck Cond", "Merge Cond")
    got = node.filter_conditions()
    if got != {k: doc[k] for k in keys if k in doc}:
        acc.violate("Postgres: conditions of a node", f"{detail}: {got} for {doc['Node Type']}")
    rels = [p["Parent Relationship"] for p in doc.get("Plans", [])]
    if sorted(rels) == ["Inner", "Outer"]:
        inner, outer = node.inner_outer_children()
        if (inner.parent_relationship, outer.parent_relationship) != ("Inner", "Outer"):
            acc.violate("Postgres: inner and outer child", detail)
    for c, d in zip(node.children, doc.get("Plans", [])):
        conditions(acc, c, d, detail)


class pg_world:
    """Postgres interface on a connection that reports the current document"""

    def __init__(self):
        world = self

        class Cur:
            connection = None
            rowcount = 1

            def execute(self, query, *a, **k):
                query = str(query)
                self.rows = [("PostgreSQL 16.3 on x86_64",)] if "VERSION" in query.upper() else [([world.document],)] if "EXPLAIN" in query.upper() else [("on",)] if query.strip().upper().startswith("SHOW") else [(4711,)]
                return self

            def fetchall(self):
                return self.rows

            def fetchone(self):
                return self.rows[0]

            def close(self):
                pass

        con = types.SimpleNamespace(cursor=Cur, close=lambda: None, cancel=lambda: None, rollback=lambda: None, autocommit=False, prepare_threshold=None,
                                    adapters=types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None), info=types.SimpleNamespace(backend_pid=4711))
        self.document = {}
        saved = pbpg.psycopg.connect
        pbpg.psycopg.connect = lambda *a, **k: con
        try:
            self.optimizer = pbpg.PostgresInterface("dbname=x", cache_enabled=False).optimizer()
        finally:
            pbpg.psycopg.connect = saved
        self.query = parse_query("SELECT t.x FROM t WHERE t.x = 1")


def all_kinds(acc, i, n):
    """every node type Postgres knows, in every position and with every subset of the optional attributes"""
    kinds = sorted(typing.get_args(pbpg.PostgresExplainNode.NodeType)) if hasattr(pbpg.PostgresExplainNode, "NodeType") else [
        "Result", "ProjectSet", "ModifyTable", "Append", "Merge Append", "Recursive Union", "BitmapAnd", "BitmapOr", "Nested Loop", "Merge Join", "Hash Join", "Seq Scan", "Sample Scan", "Gather", "Gather Merge", "Index Scan",
        "Index Only Scan", "Bitmap Index Scan", "Bitmap Heap Scan", "Tid Scan", "Tid Range Scan", "Subquery Scan", "Function Scan", "Table Function Scan", "Values Scan", "CTE Scan", "Named Tuplestore Scan", "WorkTable Scan",
        "Foreign Scan", "Custom Scan", "Materialize", "Memoize", "Sort", "Incremental Sort", "Group", "Aggregate", "WindowAgg", "Unique", "SetOp", "LockRows", "Limit", "Hash"]
    options = [("Relation Name", "t"), ("Alias", "a"), ("Index Name", "i"), ("Plan Rows", 5), ("Total Cost", 8.5), ("Actual Rows", 4), ("Actual Loops", 2), ("Actual Total Time", 3.0), ("Shared Hit Blocks", 0), ("Workers Planned", 2)]
    for kind in sliced(kinds, i, n):
        for mask in itertools.product((0, 1), repeat=len(options)):
            d = {"Node Type": kind} | {k: v for m, (k, v) in zip(mask, options) if m}
            if ("Actual Rows" in d) != ("Actual Total Time" in d):
                continue
            for rel in (None, "Outer", "Member", "SubPlan") if all(mask) or not any(mask) else (None,):
                doc = d if rel is None else {"Node Type": "Result", "Plans": [d | {"Parent Relationship": rel}]}
                acc.case((kind, mask, rel), kind)
                try:
                    plan = pbpg.PostgresExplainPlan({"Plan": doc}).as_qep()
                except Exception as e:
                    acc.violate(f"Postgres: import fails {type(e).__name__}", f"{doc}: {short(e)}")
                    continue
                violations(acc, "Postgres", plan, pg_expected(doc), str(doc))


def subplans(acc, i, n):
    """nodes with several children of each relationship"""
    for rels in itertools.product(("Outer", "Inner", "Member", "SubPlan", "InitPlan"), repeat=3):
        for k in (1, 2, 3):
            rs = rels[:k]
            if rs.count("Outer") > 1 or rs.count("Inner") > 1 or (k < 3 and rels[k:] != ("Outer",) * (3 - k)):
                continue
            numbers = Numbers(True)
            doc = numbers.node("Nested Loop" if "Inner" in rs else "Result", *[(r, numbers.node("Seq Scan", **{"Relation Name": f"t{j}", "Alias": f"t{j}"})) for j, r in enumerate(rs)])
            acc.case(rs, str(len(rs)))
            many = sum(r in ("SubPlan", "InitPlan") for r in rs)
            try:
                plan = pbpg.PostgresExplainPlan({"Plan": doc}).as_qep()
            except Exception as e:
                acc.violate(f"Postgres: import fails {type(e).__name__}", f"{rs}: {short(e)}")
                continue
            exp = pg_expected(doc)
            for what, text in differences(plan, exp):
                acc.violate(f"Postgres: {what}", f"{rs}: {text}")
            reached = {t.full_name for t in plan.tables()}
            lost = {f"t{j}" for j in range(k)} - reached
            if lost and many < 2:
                acc.violate("Postgres: tables are lost", f"{rs}: {lost}")


# ---------------------------------------------------------------- MySQL
MY_SCANS = {"system": None, "const": None, "eq_ref": SO.IndexScan, "ref": SO.IndexScan, "fulltext": SO.IndexScan, "ref_or_null": SO.IndexScan, "index_merge": SO.BitmapScan, "unique_subquery": SO.IndexScan, "index_subquery": SO.IndexScan, "range": SO.IndexScan, "index": SO.IndexScan, "ALL": SO.SequentialScan}
MY_NAMES = {None: "Const", SO.IndexScan: "Index Lookup", SO.BitmapScan: "Index Merge", SO.SequentialScan: "Table Scan"}
MY_JOINS = {None: ("Nested Loop", JO.NestedLoopJoin), "Block Nested Loop": ("Block Nested Loop", JO.NestedLoopJoin), "Batched Key Access": ("Batched Key Access", JO.NestedLoopJoin),
            "Batched Key Access (unique)": ("Batched Key Access", JO.NestedLoopJoin), "hash join": ("Hash Join", JO.HashJoin)}
WRAPPERS = ("grouping_operation", "ordering_operation", "duplicates_removal", "buffer_result")


def my_table(k, alias, access, buffer, form, derived=None):
    d = {"table_name": alias, "access_type": access}
    if form != "bare":
        d |= {"rows_examined_per_scan": 0 if form == "zero" else 40 + k, "rows_produced_per_join": 0 if form == "zero" else 400 + k, "filtered": "0.00" if form == "zero" else "25.00" if k % 2 else "100.00",
              "cost_info": {"read_cost": f"{k}.25", "eval_cost": f"{2 * k}.50", "prefix_cost": f"{100 + k}.75", "data_read_per_join": "1K"}, "used_columns": ["x"], "attached_condition": "(`x` = 1)"}
    if buffer:
        d["using_join_buffer"] = buffer
    if derived:
        d["materialized_from_subquery"] = {"using_temporary_table": True, "dependent": False, "cacheable": True, "query_block": {"select_id": 2, "cost_info": {"query_cost": "3.5"}, **derived}}
    return {"table": d}


def my_scan(d, lookup):
    d = d["table"]
    op = MY_SCANS[d["access_type"]]
    c = d.get("cost_info")
    return dict(type=MY_NAMES[op], operator=op, table=lookup(d["table_name"]), children=[], cost=float(c["read_cost"]) + float(c["eval_cost"]) if c else math.nan,
                estimate=d["rows_examined_per_scan"] * float(d["filtered"]) / 100 if "filtered" in d else math.nan, actual=math.nan,
                subs=[my_block(d["materialized_from_subquery"]["query_block"], lookup)] if "materialized_from_subquery" in d else [])


def my_block(block, lookup):
    for w in WRAPPERS:
        if w in block:
            return dict(type=w.replace("_", " ").title(), operator=None, table=None, children=[my_block(block[w], lookup)], cost=math.nan, estimate=math.nan)
    if "table" in block:
        return my_scan(block, lookup)
    first, *rest = block["nested_loop"]
    node = my_scan(first, lookup)
    for t in rest:
        name, op = MY_JOINS[t["table"].get("using_join_buffer")]
        d = t["table"]
        node = dict(type=name, operator=op, table=None, children=[node, my_scan(t, lookup)], cost=float(d["cost_info"]["prefix_cost"]) if "cost_info" in d else math.nan, estimate=d.get("rows_produced_per_join", math.nan))
    return node


def my_documents(deep):
    aliases = ["x", "u", "v", "w"]
    for access in MY_SCANS:
        for form in ("full", "zero", "bare"):
            yield {"table": my_table(1, "x", access, None, form)["table"]}
    small = ["ALL", "eq_ref", "index_merge", "const"]
    for k in (1, 2, 3) + ((4,) if deep else ()):
        for accs in itertools.product(small if k < 3 or deep else small[:2], repeat=k):
            for bufs in itertools.product(MY_JOINS if k < 3 else (None, "hash join", "Batched Key Access (unique)"), repeat=k - 1):
                for form in ("full", "zero", "bare") if k < 3 else ("full",):
                    yield {"nested_loop": [my_table(j + 1, aliases[j], a, b, form) for j, (a, b) in enumerate(zip(accs, (None,) + bufs))]}
    inner = [{"table": my_table(5, "v", "ALL", None, "full")["table"]}, {"nested_loop": [my_table(5, "v", "ALL", None, "full"), my_table(6, "w", "ref", "hash join", "full")]},
             {"grouping_operation": {"using_temporary_table": True, "nested_loop": [my_table(5, "v", "ALL", None, "full"), my_table(6, "w", "ref", None, "full")]}}]
    for sub in inner:
        yield {"table": my_table(1, "x", "ALL", None, "full", sub)["table"]}
        yield {"nested_loop": [my_table(1, "x", "ALL", None, "full", sub), my_table(2, "u", "ref", None, "full")]}
        yield {"nested_loop": [my_table(1, "u", "ALL", None, "full"), my_table(2, "x", "ref", "hash join", "full", sub)]}


def mysql(acc, i, n, deep=False):
    query = parse_query("SELECT x.a FROM t AS x, u, t AS v, w WHERE x.a = u.a AND u.a = v.a AND v.a = w.a")
    tables = {"x": ("t", "x"), "u": ("u", ""), "v": ("t", "v"), "w": ("w", "")}
    stacks = [()] + [s for k in (1, 2, 3) for s in itertools.permutations(WRAPPERS, k)]
    docs = list(my_documents(deep))
    for at, block in sliced(list(enumerate(docs)), i, n):
        for stack in stacks if at % 97 == 0 or deep else stacks[:5]:
            b = block
            for wname in reversed(stack):
                b = {wname: {"using_filesort": True, "using_temporary_table": False, "cost_info": {"sort_cost": "4.5"}, **b}}
            doc = {"query_block": {"select_id": 1, "cost_info": {"query_cost": "77.5"}, **b}}
            for q in (query, None):
                acc.case((at, stack, q is None), f"{len(stack)} wrappers")
                lookup = (lambda a: tables[a]) if q is not None else (lambda a: None)
                detail = json.dumps(doc)[:600]
                try:
                    before = copy.deepcopy(doc)
                    parsed = pbmy.parse_mysql_explain_plan(q, doc)
                    plan = parsed.as_qep()
                except Exception as e:
                    acc.violate(f"MySQL: import fails {type(e).__name__}", f"{detail}: {short(e)}")
                    continue
                acc.step()
                violations(acc, "MySQL", plan, my_block(doc["query_block"], lookup), detail)
                if doc != before:
                    acc.violate("MySQL: import modifies the document", detail)
                if not close(parsed.total_cost, 77.5):
                    acc.violate("MySQL: total cost", f"{parsed.total_cost}")
                opt = pbmy.MysqlOptimizer(None)
                for form in (doc, [doc], json.dumps(doc)) if len(stack) < 2 else ():
                    try:
                        got = opt.parse_plan(form, query=q)
                    except Exception as e:
                        acc.violate(f"MySQL: parse_plan fails {type(e).__name__}", f"{type(form).__name__}: {short(e)}")
                        continue
                    if got != plan:
                        acc.violate("MySQL: parse_plan differs from import", f"{type(form).__name__} {detail}")


# ---------------------------------------------------------------- DuckDB
DUCK_OPS = {"HASH_JOIN": JO.HashJoin, "NESTED_LOOP_JOIN": JO.NestedLoopJoin, "BLOCKWISE_NL_JOIN": JO.NestedLoopJoin, "PIECEWISE_MERGE_JOIN": JO.SortMergeJoin}
SETUP = [
    "CREATE TABLE t (id INTEGER PRIMARY KEY, x INTEGER, y VARCHAR)", "CREATE TABLE u (id INTEGER, t_id INTEGER, z INTEGER)", "CREATE TABLE v (id INTEGER, u_id INTEGER)",
    "INSERT INTO t SELECT i, i % 3, 'v' || (i % 2) FROM range(10) r(i)", "INSERT INTO u SELECT i, i % 5, i % 4 FROM range(20) r(i)", "INSERT INTO v SELECT i, i % 7 FROM range(30) r(i)",
]


def duck_expected(d, bind):
    name = d.get("name") or d.get("operator_name")
    if not name or name in ("EXPLAIN", "EXPLAIN_ANALYZE"):
        return duck_expected(d["children"][0], bind)
    extra = d.get("extra_info") or {}
    op = DUCK_OPS.get(name)
    if name.strip() == "SEQ_SCAN":
        op = {"Sequential Scan": SO.SequentialScan, "Index Scan": SO.IndexScan}.get(extra.get("Type"))
    children = [duck_expected(c, bind) for c in d.get("children", [])]
    time = d.get("operator_timing", math.nan) + sum(c["time"] for c in children)
    return dict(type=name, operator=op, table=bind(extra) if op in SO else None, children=children, estimate=float(extra.get("Estimated Cardinality", math.nan)), actual=d.get("operator_cardinality", math.nan), time=time)


def duck_queries(deep):
    filters = {"t": ["", "t.x = 1", "t.x = 1 AND t.y = 'v1'", "t.x > 0 AND t.x < 2"], "u": ["", "u.z = 2"], "v": [""]}
    joins = {"tu": ["t.id = u.t_id", "t.id < u.t_id", "t.id = u.t_id AND t.x < u.z", "", "t.id < u.t_id AND t.x > u.z"], "uv": ["u.id = v.u_id", "u.id <> v.u_id"]}
    heads = [("SELECT count(*)", ""), ("SELECT t.x, count(*)", "GROUP BY t.x"), ("SELECT t.x", "ORDER BY t.x LIMIT 2"), ("SELECT DISTINCT t.x", ""), ("SELECT t.x", "ORDER BY t.y"), ("SELECT *", "")]
    for head, tail in heads:
        for f in filters["t"]:
            yield f"{head} FROM t {'WHERE ' + f if f else ''} {tail}"
            for g in filters["u"]:
                for j in joins["tu"]:
                    preds = [p for p in (f, g, j) if p]
                    yield f"{head} FROM t, u {'WHERE ' + ' AND '.join(preds) if preds else ''} {tail}"
                    if not deep and head != "SELECT count(*)":
                        continue
                    for k in joins["uv"]:
                        if j:
                            yield f"{head} FROM t, u, v WHERE {' AND '.join(preds + [k])} {tail}"
    for f in filters["t"][1:]:
        yield f"SELECT count(*) FROM t LEFT JOIN u ON t.id = u.t_id WHERE {f}"
        yield f"SELECT t.id FROM t WHERE {f} AND EXISTS (SELECT 1 FROM u WHERE u.t_id = t.id)"
        yield f"SELECT t.id FROM t WHERE {f} AND t.id IN (SELECT u.t_id FROM u WHERE u.z > t.x)"
        yield f"SELECT t.id FROM t WHERE {f} AND t.x > (SELECT min(u.z) FROM u)"
        yield f"SELECT s.id FROM (SELECT t.id FROM t WHERE {f}) AS s, u WHERE s.id = u.t_id"
    yield "SELECT t.x FROM t WHERE t.id = 3"
    yield "SELECT t.x FROM t AS t, u AS k WHERE t.id = k.t_id AND k.z = 1"
    yield "SELECT a.x FROM t AS a, u AS b WHERE a.id = b.t_id AND a.x = 1 AND a.y = 'v0'"
    yield "SELECT u.id FROM u, v WHERE u.id = v.u_id AND u.z IN (1, 2)"


def self_joins():
    """the filters of the references are distinct, so that every scan belongs to at most one of them"""
    fs = {"a": ["", "{}.x = 1", "{}.x = 1 AND {}.y = 'v1'"], "b": ["", "{}.y = 'v0'", "{}.x > 1"], "c": ["", "{}.y > 'v0'"]}
    for fa, fb in itertools.product(fs["a"], fs["b"]):
        for j in ("a.id = b.id", "a.id < b.id"):
            yield [p for p in (fa.format("a", "a"), fb.format("b", "b"), j) if p], ("a", "b")
        for fc in fs["c"]:
            yield [p for p in (fa.format("a", "a"), fb.format("b", "b"), fc.format("c"), "a.id = b.id", "b.id = c.id") if p], ("a", "b", "c")


def duck_world():
    saved = pbduck.quacklab.connect
    con = saved(":memory:")
    for s in SETUP:
        con.execute(s)
    con.execute("SET threads = 1")
    pbduck.quacklab.connect = lambda *a, **k: con
    try:
        db = pbduck.DuckDBInterface(Path("x.db"), cache_enabled=False)
    finally:
        pbduck.quacklab.connect = saved
    return db, con


def strip(exp, keys=("time",)):
    for k in keys:
        exp.pop(k, None)
    for c in exp["children"]:
        strip(c, keys)
    return exp


def duck_scans(plan):
    return [x for x in plan.find_all_nodes(lambda p: p.operator in SO)]


def duckdb(acc, i, n, deep=False):
    db, con = duck_world()
    opt = db.optimizer()
    for sql in sliced(list(dict.fromkeys(duck_queries(deep))), i, n):
        query = parse_query(sql)
        names = {t.full_name: t for t in query.tables() if not t.virtual}
        assert len(names) == len([t for t in query.tables() if not t.virtual])

        def bind(extra):
            t = names.get(extra.get("Table"))
            return None if t is None else (t.full_name, t.alias)

        for analyze in (False, True):
            acc.case((sql, analyze), f"{len(names)} tables")
            prefix = "EXPLAIN (ANALYZE, FORMAT JSON) " if analyze else "EXPLAIN (FORMAT JSON) "
            row = con.cursor().execute(prefix + str(query)).fetchone()
            doc = json.loads(row[1])
            raw = doc[0] if isinstance(doc, list) else doc
            try:
                for form in (raw, [raw], json.dumps(raw)) + (([(row[0], row[1])],) if isinstance(doc, dict) else ()):
                    acc.step()
                    violations(acc, "DuckDB", opt.parse_plan(copy.deepcopy(form), query=query), duck_expected(raw, bind), f"{sql} {type(form).__name__}")
                violations(acc, "DuckDB without query", opt.parse_plan(raw), duck_expected(raw, lambda e: None), sql)
                plan = opt.analyze_plan(query) if analyze else opt.query_plan(query)
                exp = strip(duck_expected(raw, bind))
                violations(acc, "DuckDB analyze_plan" if analyze else "DuckDB query_plan", plan, exp, sql)
                if analyze != plan.is_analyze():
                    acc.violate("DuckDB: plan has measurements", sql)
                if analyze:
                    rows = con.cursor().execute(str(query)).fetchall()
                    if sql.count("SELECT") == 1 and plan.actual_cardinality != len(rows):  # the engine reports 0 for some semi joins
                        acc.violate("DuckDB: actual cardinality of the result", f"{sql}: {plan.actual_cardinality} instead of {len(rows)}")
                    if not all(isinstance(p.actual_cardinality, pb.Cardinality) for p in plan.find_all_nodes(lambda p: True)):
                        acc.violate("DuckDB: actual cardinalities are no cardinalities", sql)
                else:
                    violations(acc, "DuckDB query_plan of text", opt.query_plan(str(query)), strip(duck_expected(raw, lambda e: None)), sql)
                    violations(acc, "DuckDB query_plan of text", opt.query_plan(prefix + str(query)), strip(duck_expected(raw, lambda e: None)), sql)
                    if not close(opt.cardinality_estimate(query), exp["estimate"]):
                        acc.violate("DuckDB: estimates of a query", f"{sql}: {opt.cardinality_estimate(query)}")
            except Exception as e:
                acc.violate(f"DuckDB: import fails {type(e).__name__}", f"{sql} analyze={analyze}: {short(e)}")
    con.close()


def duckdb_aliases(acc, i, n):
    db, con = duck_world()
    opt = db.optimizer()
    for preds, aliases in sliced(list(self_joins()), i, n):
        sql = f"SELECT count(*) FROM {', '.join('t AS ' + a for a in aliases)} WHERE {' AND '.join(preds)}"
        query = parse_query(sql)
        acc.case(sql, f"{len(aliases)} references")
        for analyze in (False, True):
            row = con.cursor().execute(("EXPLAIN (ANALYZE, FORMAT JSON) " if analyze else "EXPLAIN (FORMAT JSON) ") + sql).fetchone()
            doc = json.loads(row[1])
            raw = doc[0] if isinstance(doc, list) else doc
            try:
                plan = opt.parse_plan(raw, query=query)
            except Exception as e:
                acc.violate(f"DuckDB: import fails {type(e).__name__}", f"{sql}: {short(e)}")
                continue
            violations(acc, "DuckDB", plan, duck_expected(raw, lambda e: "any"), sql)
            scans = duck_scans(plan)
            bound = [s.base_table for s in scans if s.base_table is not None]
            if any(b.full_name != "t" or b.alias not in aliases for b in bound):
                acc.violate("DuckDB: scan is bound to a table that is not in the query", f"{sql}: {bound}")
            if len(set(bound)) != len(bound):
                acc.violate("DuckDB: two scans are bound to the same reference", f"{sql}: {bound}")
            # scans with all and only the filters of one reference belong to it
            own = {a: sorted(p.split(".", 1)[1].replace(" ", "") for q in preds for p in q.split(" AND ") if p.startswith(a + ".") and p.count(".") == 1) for a in aliases}

            def visit(d, p):
                name = d.get("name") or d.get("operator_name")
                if not name or name in ("EXPLAIN", "EXPLAIN_ANALYZE"):
                    return visit(d["children"][0], p)
                fl = (d.get("extra_info") or {}).get("Filters", [])
                fl = sorted("".join(f.split()) for f in ([fl] if isinstance(fl, str) else fl))
                fits = [a for a in aliases if own[a] == fl]
                if p.operator in SO and p.base_table is not None and len(fits) == 1 and fl and p.base_table.alias != fits[0]:
                    acc.violate("DuckDB: scan is bound to the wrong reference", f"{sql}: {fl}: {p.base_table}")
                for c, x in zip(d.get("children", []), p.children):
                    visit(c, x)

            visit(raw, plan)
    con.close()


def duck_documents(acc, i, n, deep=False):
    """documents beyond those that the embedded version produces"""
    query = parse_query("SELECT * FROM t AS x, u WHERE x.id = u.t_id")
    names = {"t": ("t", "x"), "u": ("u", "")}
    kinds = ["HASH_JOIN", "NESTED_LOOP_JOIN", "PIECEWISE_MERGE_JOIN", "CROSS_PRODUCT", "PROJECTION", "FILTER", "UNGROUPED_AGGREGATE", "PERFECT_HASH_GROUP_BY", "HASH_GROUP_BY", "ORDER_BY", "TOP_N", "UNION", "CTE"]
    leaves = [("SEQ_SCAN ", "Sequential Scan", "t"), ("SEQ_SCAN", "Sequential Scan", "u"), ("SEQ_SCAN ", "Index Scan", "t"), ("SEQ_SCAN", "Index Scan", "u"), ("DUMMY_SCAN", None, None), ("SEQ_SCAN ", "Sequential Scan", "other")]
    counter = itertools.count(1)

    def node(analyze, name, extra, children):
        k = next(counter)
        d = {"operator_name" if analyze else "name": name, "children": children, "extra_info": dict(extra)}
        if k % 5 or not analyze:
            d["extra_info"]["Estimated Cardinality"] = str(k)
        if analyze:
            d |= {"operator_timing": k / 8, "operator_cardinality": k % 4 * 10, "operator_rows_scanned": 1}
        return d

    def leaf(analyze, l):
        return node(analyze, l[0], {k: v for k, v in (("Type", l[1]), ("Table", l[2])) if v}, [])

    for analyze in (False, True):
        docs = []
        for l in leaves:
            docs.append(lambda l=l: leaf(analyze, l))
            for kind in kinds:
                docs.append(lambda l=l, kind=kind: node(analyze, kind, {}, [leaf(analyze, l)]))
                for r in leaves:
                    docs.append(lambda l=l, kind=kind, r=r: node(analyze, kind, {"Join Type": "INNER"}, [leaf(analyze, l), leaf(analyze, r)]))
                    if deep or kind in kinds[:4]:
                        for other in kinds:
                            docs.append(lambda l=l, kind=kind, r=r, other=other: node(analyze, other, {}, [node(analyze, kind, {"Join Type": "INNER"}, [leaf(analyze, l), leaf(analyze, r)]), leaf(analyze, l)]))
        for build in sliced(docs, i, n):
            doc = build()
            for wrap in (lambda d: d, lambda d: {"children": [d], "latency": 1.0}, lambda d: {"children": [{"operator_name": "EXPLAIN_ANALYZE", "children": [d], "extra_info": {}}]}):
                raw = wrap(doc)
                acc.case(json.dumps(raw), "document")
                try:
                    violations(acc, "DuckDB", pbduck.parse_duckdb_plan(raw, query=query), duck_expected(raw, lambda e: names.get(e.get("Table"))), json.dumps(raw)[:500])
                except Exception as e:
                    acc.violate(f"DuckDB: import fails {type(e).__name__}", f"{json.dumps(raw)[:400]}: {short(e)}")


def run(c):
    deep = c.thorough
    c.part("Postgres documents", lambda acc, i, n: postgres(acc, i, n, deep))
    c.part("Postgres node types and attributes", all_kinds)
    c.part("Postgres child relationships", subplans, parallel=False)
    c.part("MySQL documents", lambda acc, i, n: mysql(acc, i, n, deep))
    c.part("DuckDB plans", lambda acc, i, n: duckdb(acc, i, n, deep))
    c.part("DuckDB plans with repeated tables", duckdb_aliases)
    c.part("DuckDB documents", lambda acc, i, n: duck_documents(acc, i, n, deep))


if __name__ == "__main__":
    Check(
        "P21", "exploration",
        "all plan documents of the bounded grammars (Postgres: every node type with every subset of the attributes, trees with up to two levels of joins over scans and up to two unary nodes, parallel regions, subplans; MySQL: nested loops of up to 3 (4 thorough) tables "
        "with all access types, join buffers, wrappers and derived tables; DuckDB: documents and the plans that the embedded engine reports for a grammar of queries) are imported by the real code and compared node by node with an independent reading of the documents",
        assumptions=["MySQL unions and subqueries outside of FROM are not covered", "estimates within parallel regions are scaled by the number of processes, as documented"],
    ).main(run)
