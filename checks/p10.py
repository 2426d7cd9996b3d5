"""P10: plans, join trees, operator assignments and parameters convert into each other without loss."""
import itertools
import json
import math
import warnings

import joinspace as js
from vlib import Check, short, sliced

import postbound as pb
from postbound import qal
from postbound._hints import DirectionalJoinOperatorAssignment, JoinOperatorAssignment, LogicalJoinTree, ScanOperatorAssignment
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, SortKey, Subplan
from postbound.opt import _helpers as oh
from postbound import util

warnings.simplefilter("ignore")
SCANS, JOINS, INTER = list(pb.ScanOperator), list(pb.JoinOperator), list(pb.IntermediateOperator)
TABS = [pb.TableReference("r"), pb.TableReference("s", "s1"), pb.TableReference("s", "S 2"), pb.TableReference("t", schema="pub")]
COLS = [qal.ColumnExpression(pb.ColumnReference("a", t)) for t in TABS]


def pred(template, *tabs):
    names = [f'"{t.identifier()}"' for t in tabs]
    decl = ", ".join(f'"{t.full_name}" AS {n}' if t.alias else (f'{t.schema}.{n}' if t.schema else n) for t, n in zip(tabs, names))
    return pb.parse_query(f"SELECT * FROM {decl} WHERE {template.format(*names)}", bind_columns=False).where_clause.predicate


FILTER = {t: pred("{0}.a < 42 OR {0}.c LIKE 'x%'", t) for t in TABS}
JOIN = {(t, u): pred("{0}.a = {1}.b", t, u) for t in TABS for u in TABS if t != u}
NAN = math.nan


# ---- the reference: plain dictionaries
def nodes_post(n):
    return [x for ch in n["children"] for x in nodes_post(ch)] + [n]


def nodes_pre(n):
    return [n] + [x for ch in n["children"] for x in nodes_pre(ch)]


def pre_with_subplans(n):
    return [n] + [x for ch in n["children"] for x in pre_with_subplans(ch)] + (pre_with_subplans(n["subplan"]) if n["subplan"] else [])


def kind(n):
    return "scan" if n["op"] in SCANS else "join" if n["op"] in JOINS else "aux"


def tables(n):
    own = {n["table"]} if n["table"] is not None else set()
    for ch in n["children"]:
        own |= tables(ch)
    return own | (tables(n["subplan"]) | {pb.TableReference.create_virtual("sq")} if n["subplan"] else set())


def strip(n):
    """scan and join nodes only"""
    while kind(n) == "aux":
        n = n["children"][0]
    return {**n, "children": [] if kind(n) == "scan" else [strip(x) for x in n["children"]], "subplan": strip(n["subplan"]) if n["subplan"] else None}


def decorate(tree, mask, double, analyze, pat, subplan=True):
    """a plan for the tree; bit i of mask puts auxiliary nodes on top of the i-th scan/join"""
    count = itertools.count()
    auxno = itertools.count(pat)

    def node(i, **kw):
        base = {"op": None, "type": "", "table": None, "children": [], "params": {}, "subplan": None}
        base.update(kw)
        base["est"] = {"cardinality": pb.Cardinality([0, 7, 13, 1, 99, 4, 1000][i % 7] + i), "cost": 1.5 * i}
        base["meas"] = {"cardinality": pb.Cardinality([5, 0, 12, 3][(i + pat) % 4] * 10 + i), "execution_time": 0.25 * i} if analyze else {}
        if i % 3 == 1:
            base["est"]["width"] = 4 * i
            if analyze:
                base["meas"] |= {"cache_hits": i, "cache_misses": 0, "loops": i + 1}
        return base

    def go(t):
        if isinstance(t, tuple):
            ch = [go(t[0]), go(t[1])]
            i = next(count)
            n = node(i, op=JOINS[(i + pat) % len(JOINS)], children=ch)
            if i % 2:
                n["params"]["filter_predicate"] = JOIN[tuple(TABS[js.leaves(x)[0]] for x in t)]
        else:
            i = next(count)
            n = node(i, op=SCANS[(i + pat) % len(SCANS)], table=TABS[t])
            if i % 2 == 0:
                n["params"]["filter_predicate"] = FILTER[TABS[t]]
            if n["op"] in (pb.ScanOperator.IndexScan, pb.ScanOperator.IndexOnlyScan):
                n["params"]["index"] = f"idx_{t}"
                n["params"]["lookup_key"] = COLS[t]
        if (i + pat) % 3 == 0:
            n["params"]["parallel_workers"] = i + 1
        if (i + pat) % 4 == 0:
            n["params"]["custom"] = f"x{i}"
        n["type"] = n["op"].name
        if subplan and i == 2 and pat == 1:
            n["subplan"] = node(40, op=SCANS[0], type="SequentialScan", table=pb.TableReference("sub"))
        if mask >> i & 1:
            for _ in range(2 if double else 1):
                a = next(auxno)
                op = [None, INTER[0], None, INTER[1], INTER[2 % len(INTER)]][a % 5]
                n = node(i, op=op, type=op.name if op else ["Hash", "", "Aggregate"][a % 5 % 3] or "Gather", children=[n])
                n["est"] = dict(n["children"][0]["est"])
                if op == pb.IntermediateOperator.Sort:
                    n["params"]["sort_keys"] = (SortKey.of(COLS[js.leaves(t)[0]]), SortKey([COLS[x] for x in js.leaves(t)], ascending=False))
        return n

    return go(tree)


def build(n):
    return pb.QueryPlan(
        n["type"], operator=n["op"], children=[build(x) for x in n["children"]],
        plan_params=PlanParams(base_table=n["table"], **n["params"]),
        estimates=PlanEstimates(**n["est"]), measures=PlanMeasures(**n["meas"]) if n["meas"] else None,
        subplan=Subplan(build(n["subplan"]), "sq") if n["subplan"] else None,
    )


def num(x):
    if x is None:
        return None
    return "nan" if isinstance(x, (float, pb.Cardinality)) and math.isnan(x) else x


def blank(d):
    return {k: v for k, v in d.items() if v is not None and v != "" and v != () and v != [] and num(v) != "nan" and (k, v) != ("parallel_workers", 0)}


def sig(n):
    """everything there is to know about a reference node"""
    return (
        n["type"], n["op"], n["table"],
        tuple(sorted((k, str(v)) for k, v in blank(n["params"]).items())),
        tuple(sorted((k, str(v)) for k, v in blank(n["est"]).items())),
        tuple(sorted((k, str(v)) for k, v in blank(n["meas"]).items())),
        tuple(sig(x) for x in n["children"]), sig(n["subplan"]) if n["subplan"] else None,
    )


def sort_key(k):
    return f"{sorted(map(str, k.equivalence_class))} {k.ascending}"


def text(k, v):
    return str([sort_key(x) for x in v]) if k == "sort_keys" else str(v)


def sig_ref(n):
    return (
        n["type"], n["op"], n["table"],
        tuple(sorted((k, text(k, v)) for k, v in blank(n["params"]).items())),
        tuple(sorted((k, str(v)) for k, v in blank(n["est"]).items())),
        tuple(sorted((k, str(v)) for k, v in blank(n["meas"]).items())),
        tuple(sig_ref(x) for x in n["children"]), sig_ref(n["subplan"]) if n["subplan"] else None,
    )


def sig_plan(p):
    par = {k: v for k, v in p.params.items() if k != "base_table"}
    return (
        p.node_type, p.operator, p.base_table,
        tuple(sorted((k, text(k, v)) for k, v in blank(par).items())),
        tuple(sorted((k, str(v)) for k, v in blank(dict(p.estimates.items())).items())),
        tuple(sorted((k, str(v)) for k, v in blank(dict(p.measures.items())).items())) if p.measures else (),
        tuple(sig_plan(x) for x in p.children), sig_plan(p.subplan.root) if p.subplan else None,
    )


def tree_sig(n, src):
    n2 = strip(n)

    def go(x):
        card = x[src].get("cardinality", pb.Cardinality.unknown())
        return (x["table"], str(card)) if kind(x) == "scan" else (go(x["children"][0]), go(x["children"][1]), str(card))

    return go(n2)


def jt_sig(t):
    card = str(t.annotation) if t.annotation is not None else None
    if t.is_scan():
        return (t.base_table, card)
    return (jt_sig(t.outer_child), jt_sig(t.inner_child), card)


def bare(t):
    return t.base_table if t.is_scan() else (bare(t.outer_child), bare(t.inner_child))


def has_join(n):
    return any(kind(x) == "join" for x in nodes_post(n))


def depth(n):
    return 1 + max((depth(x) for x in n["children"]), default=0)


def lookup(n, need):
    if tables(n) == need:
        return n
    for ch in n["children"]:
        r = lookup(ch, need)
        if r is not None:
            return r
    return None


class Judge:
    def __init__(self, acc, key, ref):
        self.acc, self.key, self.ref = acc, key, ref

    def eq(self, what, got, want):
        self.acc.step()
        if got != want:
            self.acc.violate(f"{what} {self.key}", f"got {str(got)[:300]} want {str(want)[:300]}", {"plan": repr(sig_ref(self.ref))})

    def same_or_nan(self, what, got, want):
        self.eq(what, num(float(got)) if got is not None else None, num(float(want)) if want is not None else None)


def op_of(n):
    return n["op"]


def judge(acc, key, ref, analyze, deep):
    acc.case(key, kind(ref))
    j = Judge(acc, key, ref)
    try:
        p = build(ref)
        whole = sig_plan(p)
        j.eq("build", whole, sig_ref(ref))
        # navigation
        post, pre = nodes_post(ref), nodes_pre(ref)
        j.eq("iternodes", [sig_plan(x) for x in p.iternodes()], [sig_ref(x) for x in post])
        j.eq("iter", [sig_plan(x) for x in p], [sig_ref(x) for x in pre_with_subplans(ref)])
        j.eq("find_all", [sig_plan(x) for x in p.find_all_nodes(lambda x: x.is_scan())], [sig_ref(x) for x in pre_with_subplans(ref) if kind(x) == "scan"])
        first = next((x for x in pre if kind(x) == "scan"), None)
        j.eq("find_first", sig_plan(p.find_first_node(lambda x: x.is_scan())), sig_ref(first))
        j.eq("find_first_table", [x is not None and x.base_table for x in [p.find_first_node(lambda y, t=t: y.base_table == t, direction="inner") for t in TABS]],
             [t if t in tables(ref) else False for t in TABS])
        j.eq("find_none", p.find_first_node(lambda x: False), None)
        j.eq("outermost", sig_plan(p.outermost_scan()), sig_ref(first))
        j.eq("tables", p.tables(), tables(ref))
        j.eq("depth", p.plan_depth(), depth(ref))
        jn = [x for x in post if kind(x) == "join"]
        bushy = any(has_join(x["children"][0]) and has_join(x["children"][1]) for x in jn)
        left = not any(has_join(x["children"][1]) for x in jn)
        right = not any(has_join(x["children"][0]) for x in jn)
        j.eq("shape", (p.is_linear(), p.is_bushy(), p.is_left_deep(), p.is_right_deep(), p.is_zigzag()),
             (not bushy, bushy, left, right, not jn or (not bushy and not left and not right)))
        for x, n in zip(p.iternodes(), post):
            branch = kind(n) == "scan" or (kind(n) == "aux" and not has_join(n))
            j.eq("kinds", (x.is_scan(), x.is_join(), x.is_auxiliary(), x.is_scan_branch(), x.is_analyze(), x.is_ordered(), x.is_base_join()),
                 (kind(n) == "scan", kind(n) == "join", kind(n) == "aux", branch, bool(analyze), bool(n["params"].get("sort_keys")),
                  kind(n) == "join" and all(not has_join(c) for c in n["children"])))
            j.eq("fetch_base_table", x.fetch_base_table(), nodes_pre(strip(n))[0]["table"] if branch else None)
            if analyze:
                e, a = float(n["est"]["cardinality"]), float(n["meas"]["cardinality"])
                j.same_or_nan("qerror", x.qerror(), (max(e, a) + 1) / (min(e, a) + 1))
                j.same_or_nan("cout", x.cout(), sum(float(c["meas"]["cardinality"]) for c in nodes_post(n)))
                j.same_or_nan("cout-noaux", x.cout(include_auxiliaries=False), sum(float(c["meas"]["cardinality"]) for c in nodes_post(n) if kind(c) != "aux"))
                j.same_or_nan("operator_time", x.operator_time, n["meas"]["execution_time"] - sum(c["meas"]["execution_time"] for c in n["children"]))
            else:
                j.eq("not-analyzed", (math.isnan(x.qerror()), math.isnan(x.cout()), math.isnan(x.operator_time)), (True, True, True))
            for src, want in (("est", n["est"]), ("meas", n["meas"])):
                for k, v in want.items():
                    if k not in ("cardinality",):
                        j.eq("item", (k in x, x[k], x.get(k)), (True, v, v))
            for k, v in n["params"].items():
                j.eq("item", (k in x, x[k], x.get(k)), (True, v, v))
            j.eq("noitem", ("nope" in x, x.get("nope", 5)), (False, 5))
        for k in range(1, len(TABS) + 1):
            for sub in itertools.combinations(TABS, k):
                want = lookup(ref, set(sub))
                got = p.lookup(sub)
                j.eq("lookup", got is not None and sig_plan(got), want is not None and sig_ref(want))
                j.eq("contains", sub in p, set(sub) <= tables(ref))
        # taking apart
        canon = strip(ref)
        plain = not any(n["subplan"] for n in post)
        j.eq("canonical", sig_plan(p.canonical()), sig_ref(canon))
        j.eq("canonical2", sig_plan(p.canonical().canonical()), sig_ref(canon))
        for src, name in (("est", "estimates"), ("meas", "actual")):
            j.eq(f"jointree-{name}", jt_sig(pb.jointree_from_plan(p, card_source=name)), tree_sig(ref, src))
        for w in (False, True):
            ops = pb.operators_from_plan(p, include_workers=w)
            want_s = {n["table"]: (n["op"], n["params"].get("parallel_workers") if w else None) for n in post if kind(n) == "scan"}
            want_j = {frozenset(tables(n)): (n["op"], n["params"].get("parallel_workers") if w else None) for n in post if kind(n) == "join"}
            seen = lambda x: None if not x or math.isnan(x) else x  # noqa: E731
            j.eq("operators-scan", {t: (a.operator, seen(a.parallel_workers)) for t, a in ops.scan_operators.items()}, want_s)
            j.eq("operators-join", {t: (a.operator, seen(a.parallel_workers)) for t, a in ops.join_operators.items()}, want_j)
            want_i = {}
            for n in post:
                if kind(n) == "aux" and n["op"] is not None:
                    want_i.setdefault(frozenset(tables(n)), set()).add(n["op"])
            j.eq("operators-intermediate", set(ops.intermediate_operators), set(want_i))
            j.eq("operators-intermediate-op", all(o in want_i.get(t, ()) for t, o in ops.intermediate_operators.items()), True)
            j.eq("operators-global", ops.global_settings, {})
        for src, name in (("est", "estimated"), ("meas", "actual")):
            params = pb.parameters_from_plan(p, target_cardinality=name)
            want_c, want_w = {}, {}
            for n in post:
                if n[src].get("cardinality") is not None:
                    want_c.setdefault(frozenset(tables(n)), set()).add(str(n[src]["cardinality"]))
                if n["params"].get("parallel_workers"):
                    want_w.setdefault(frozenset(tables(n)), set()).add(n["params"]["parallel_workers"])
            j.eq(f"params-cards-{name}", set(params.cardinalities), set(want_c))
            j.eq(f"params-card-{name}", [str(v) for t, v in params.cardinalities.items() if str(v) not in want_c.get(t, ())], [])
            j.eq("params-workers", set(params.parallel_workers), set(want_w))
            j.eq("params-worker", [v for t, v in params.parallel_workers.items() if v not in want_w.get(t, ())], [])
            j.eq("params-rest", (params.system_settings, params.execution_mode), ({}, None))
        if plain:
            back = pb.parameters_from_plan(pb.jointree_from_plan(p))
            j.eq("params-from-jointree", {t: str(c) for t, c in back.cardinalities.items()}, {frozenset(tables(n)): str(n["est"]["cardinality"]) for n in nodes_post(canon)})
        j.eq("fallback", {t: str(c) for t, c in pb.parameters_from_plan(p.canonical(), target_cardinality="actual", fallback_estimated=True).cardinalities.items()},
             {frozenset(tables(n)): str(n["meas" if analyze else "est"]["cardinality"]) for n in nodes_post(canon)})
        # and together again
        if plain:
            cp = p.canonical()
            ops, params = pb.operators_from_plan(cp), pb.parameters_from_plan(cp)

            def skel(n):
                return (n["op"], n["table"], str(n["est"]["cardinality"]), n["params"].get("parallel_workers"), tuple(skel(x) for x in n["children"]))

            def pskel(x):
                return (x.operator, x.base_table, str(x.estimated_cardinality), x.parallel_workers or None, tuple(pskel(y) for y in x.children))

            reb = oh.to_query_plan(pb.jointree_from_plan(p), physical_ops=ops, plan_params=params)
            j.eq("rebuild", pskel(reb), skel(canon))
            reb = oh.to_query_plan(pb.jointree_from_plan(p), physical_ops=pb.operators_from_plan(cp, include_workers=True))
            j.eq("rebuild-workers", pskel(reb), skel(canon))
            tree, ops2, params2 = oh.explode_query_plan(cp)
            j.eq("rebuild-exploded", pskel(oh.to_query_plan(tree, physical_ops=ops2, plan_params=params2)), skel(canon))
            simple = oh.to_query_plan(pb.jointree_from_plan(p), scan_op=SCANS[1], join_op=JOINS[2])
            j.eq("rebuild-simple", [x.operator for x in simple.iternodes()], [SCANS[1] if kind(n) == "scan" else JOINS[2] for n in nodes_post(canon)])
            part = pb.PhysicalOperatorAssignment()
            for n in nodes_post(canon)[::2]:
                part.add(n["op"], tables(n))
            chosen = [n["op"] if i % 2 == 0 else (SCANS[0] if kind(n) == "scan" else JOINS[0]) for i, n in enumerate(nodes_post(canon))]
            mixed = oh.to_query_plan(pb.jointree_from_plan(p), physical_ops=part, scan_op=SCANS[0], join_op=JOINS[0])
            j.eq("rebuild-fallback", [x.operator for x in mixed.iternodes()], chosen)
            # updates of single nodes
            for i, target in enumerate(nodes_post(canon)):
                new = SCANS[(SCANS.index(target["op"]) + 1) % len(SCANS)] if kind(target) == "scan" else JOINS[(JOINS.index(target["op"]) + 1) % len(JOINS)]
                upd = oh.update_plan(p, operators=pb.PhysicalOperatorAssignment().add(new, tables(target)),
                                     params=pb.PlanParameterization().add_cardinality(tables(target), 4711).set_workers(tables(target), 9))
                want = [skel(n)[:-1] for n in nodes_post(canon)]
                want[i] = (new, target["table"], "4711", 9)
                j.eq("update", [pskel(x)[:-1] for x in upd.iternodes()], want)
                rest = lambda s: (s[2], tuple(y for y in s[3] if y[0] != "parallel_workers"), tuple(y for y in s[4] if y[0] != "cardinality"), s[5])  # noqa: E731
                j.eq("update-rest", [rest(sig_plan(x)) for x in upd.iternodes()], [rest(sig_ref(n)) for n in nodes_post(canon)])
                keep = oh.update_plan(p, operators=pb.PhysicalOperatorAssignment().add(new, tables(target)), simplify=False)
                j.eq("update-keep", [x.operator for x in keep.iternodes()], [new if kind(n) == kind(target) and tables(n) == tables(target) else n["op"] for n in post])
                j.eq("update-keep-type", [x.node_type for x in keep.iternodes()],
                     [new.name if kind(n) == kind(target) and tables(n) == tables(target) else n["type"] for n in post])
            j.eq("update-nothing", sig_plan(oh.update_plan(p)), sig_ref(canon))
        j.eq("update-nothing-keep", sig_plan(oh.update_plan(p, simplify=False)), sig_ref(ref))
        # storing
        loaded = oh.read_query_plan_json(util.to_json(p))
        j.eq("json", sig_plan(loaded), sig_ref(ref))
        j.eq("json-dict", sig_plan(oh.read_query_plan_json(json.loads(util.to_json(loaded)))), sig_ref(ref))
        j.eq("json-eq", loaded == p and hash(loaded) == hash(p), True)
        # copies and edits
        for dp in (False, True):
            cl = p.clone(deep=dp)
            j.eq("clone", sig_plan(cl), sig_ref(ref))
            cl.params["extra"] = 1
            cl.estimates["extra"] = 2
            if analyze:
                cl.measures["extra"] = 3
            cl.params["parallel_workers"] = 77
            j.eq("clone-independent", sig_plan(p), whole)
        j.eq("parallelize", (p.parallelize(4).parallel_workers, sig_plan(p)), (4, whole))
        par = {**ref, "params": {**ref["params"], "parallel_workers": 4}}
        j.eq("parallelize-rest", sig_plan(p.parallelize(4)), sig_ref(par))
        we = {**ref, "est": {**ref["est"], "cardinality": pb.Cardinality(5)}}
        j.eq("with_estimates", sig_plan(p.with_estimates(cardinality=pb.Cardinality(5), keep_measures=True)), sig_ref(we))
        j.eq("with_estimates-drop", sig_plan(p.with_estimates(cardinality=pb.Cardinality(5))), sig_ref({**we, "meas": {}}))
        we = {**ref, "est": {**ref["est"], "cost": 0.0}}
        j.eq("with_cost", sig_plan(p.with_estimates(cost=0.0, keep_measures=True)), sig_ref(we))

        def scaled(n, f, what, rec):
            m = dict(n)
            for s in ("est", "meas"):
                if s in what and "cardinality" in n[s]:
                    m[s] = {**n[s], "cardinality": pb.Cardinality(float(n[s]["cardinality"]) * f)}
            if rec:
                m["children"] = [scaled(x, f, what, rec) for x in n["children"]]
                m["subplan"] = scaled(n["subplan"], f, what, rec) if n["subplan"] else None
            return m

        for name, what in (("estimated", ("est",)), ("actual", ("meas",)), ("both", ("est", "meas"))):
            for rec in (False, True):
                j.eq(f"scale-{name}-{rec}", sig_plan(p.scale_cardinality(3, kind=name, recursive=rec)), sig_ref(scaled(ref, 3, what, rec)))
        if analyze:

            def actual(n):
                m = {**n, "meas": {}, "est": {**n["est"], "cardinality": n["meas"]["cardinality"]}}
                m["children"] = [actual(x) for x in n["children"]]
                m["subplan"] = actual(n["subplan"]) if n["subplan"] else None
                return m

            def nocost(s):
                return s[:4] + (tuple(y for y in s[4] if y[0] != "cost"),) + s[5:6] + (tuple(nocost(x) for x in s[6]), nocost(s[7]) if s[7] else None)

            j.eq("with_actual_card", nocost(sig_plan(p.with_actual_card())), nocost(sig_ref(actual(ref))))
            zero = p.with_actual_card(cost_estimator=lambda node, card: 2 * float(card) + 1)
            j.eq("with_actual_card-cost", [x.estimated_cost for x in zero.iternodes()], [2 * float(n["meas"]["cardinality"]) + 1 for n in post])
        j.eq("untouched", sig_plan(p), whole)
    except Exception as e:  # noqa: BLE001
        acc.violate(f"raise {key}", short(e), {"plan": repr(sig_ref(ref))})


def plans(thorough):
    for n in (1, 2, 3, 4):
        trees = js.all_shapes(n)
        if n == 4 and not thorough:
            trees = [t for t in trees if js.leaves(t) == [0, 1, 2, 3]] + trees[::17]
        if n == 3 and not thorough:
            trees = [t for t in trees if js.leaves(t)[0] != 1]
        for t in trees:
            for pat in range(4 if n < 4 or thorough else 2):
                for analyze in (False, True):
                    for double in (False, True):
                        size = 2 * n - 1
                        masks = range(2**size) if n < 4 else [0] + [1 << i for i in range(size)] + [2**size - 1, 0b1010101, 0b0101010]
                        for mask in masks:
                            if double and not mask:
                                continue
                            yield (t, mask, double, analyze, pat)


# ---- join trees: histories of join_with
def tree_histories(acc, i, k, depth):
    steps = [("scan", 0), ("scan", 1), ("scan", 2), ("empty", None), ("join", (0, 1)), ("join", ((2, 3), 1))]

    def mk(cls, t, ann):
        if isinstance(t, tuple):
            return cls.join(mk(cls, t[0], ann), mk(cls, t[1], ann), annotation=ann(t))
        return cls.scan(TABS[t], annotation=ann(t))

    def flat(t):
        return frozenset(js.leaves(t))

    hist = itertools.chain.from_iterable(itertools.product(itertools.product(range(len(steps)), ("inner", "outer"), (False, True), (False, True)), repeat=d) for d in range(1, depth + 1))
    for h in sliced(hist, i, k):
        for cls in (pb.JoinTree, LogicalJoinTree):
            ann = (lambda t: "n" + str(sorted(flat(t)))) if cls is pb.JoinTree else (lambda t: pb.Cardinality(sum(10**x for x in flat(t))))
            cur, ref = cls.empty(), None  # reference: nested tuples (outer, inner, annotation) / (table, annotation)
            key = (cls.__name__, h)
            acc.case(key, len(h))

            def r(t):
                return (r(t[0]), r(t[1]), str(ann(t))) if isinstance(t, tuple) else (TABS[t], str(ann(t)))

            try:
                for no, (s, direction, pann, table) in enumerate(h):
                    what, t = steps[s]
                    if what == "empty":
                        partner, pref = cls.empty(), None
                    elif what == "scan" and table:
                        partner, pref = TABS[t], (TABS[t], str(ann(t)) if pann else None)
                    else:
                        partner, pref = mk(cls, t, ann), r(t)
                    new = (pb.Cardinality(5000 + no) if cls is LogicalJoinTree else f"p{no}") if pann else None
                    if new is not None and pref is not None:
                        pref = pref[:-1] + (str(new),)
                    own = pb.Cardinality(9000 + no) if cls is LogicalJoinTree else f"j{no}"
                    cur = cur.join_with(partner, annotation=own, partner_annotation=new, partner_direction=direction)
                    if pref is None:
                        pass
                    elif ref is None:
                        ref = pref
                    else:
                        ref = (ref, pref, str(own)) if direction == "inner" else (pref, ref, str(own))
                    acc.step()
                if ref is None:
                    if not cur.is_empty() or cur or cur.tables() or cur.plan_depth() or len(cur):
                        acc.violate(f"empty {key}", "not empty")
                    continue

                def s(t):
                    c = None if t.annotation is None else str(t.annotation)
                    return (t.base_table, c) if t.is_scan() else (s(t.outer_child), s(t.inner_child), c)

                if s(cur) != ref:
                    acc.violate(f"tree {key}", f"got {s(cur)} want {ref}")

                def tabs(x):
                    return [x[0]] if len(x) == 2 else tabs(x[0]) + tabs(x[1])

                def sub(x):
                    return [x] if len(x) == 2 else [x] + sub(x[0]) + sub(x[1])

                def subjoins(x):
                    return [] if len(x) == 2 else subjoins(x[0]) + subjoins(x[1]) + [x]

                def dep(x):
                    return 1 if len(x) == 2 else 1 + max(dep(x[0]), dep(x[1]))

                def lin(x):
                    return len(x) == 2 or ((len(x[0]) == 2 or len(x[1]) == 2) and lin(x[0]) and lin(x[1]))

                want = (set(tabs(ref)), list(tabs(ref)), dep(ref), lin(ref), not lin(ref), len(ref) == 3 and len(ref[0]) == 2 and len(ref[1]) == 2, len(set(tabs(ref))))
                got = (cur.tables(), list(cur.itertables()), cur.plan_depth(), cur.is_linear(), cur.is_bushy(), cur.is_base_join(), len(cur))
                if got != want:
                    acc.violate(f"facts {key}", f"got {got} want {want}")
                if [s(x) for x in cur.iternodes()] != sub(ref) or [s(x) for x in cur.iterjoins()] != subjoins(ref):
                    acc.violate(f"walk {key}", "iteration differs")
                for m in range(1, 4):
                    for c in itertools.combinations(TABS, m):
                        w = next((x for x in sub(ref) if set(tabs(x)) == set(c)), None)
                        g = cur.lookup(c)
                        if (g is not None and s(g)) != (w is not None and w) or (c in cur) != (w is not None):
                            acc.violate(f"lookup {key}", f"{c}: got {g} want {w}")
                if cls is LogicalJoinTree or all(isinstance(x[-1], (str, type(None))) for x in sub(ref)):
                    back = oh.read_jointree_json(util.to_json(cur))
                    if type(back) is not cls or s(back) != ref or back != cur or hash(back) != hash(cur):
                        acc.violate(f"json {key}", f"got {s(back)} want {ref}")
                upd = cur.update_annotation(pb.Cardinality(1) if cls is LogicalJoinTree else "u")
                if s(upd) != ref[:-1] + ("1" if cls is LogicalJoinTree else "u",) or s(cur) != ref:
                    acc.violate(f"update {key}", "annotation update")
            except Exception as e:  # noqa: BLE001
                acc.violate(f"raise {key}", short(e))


# ---- assignments and parameters: operation histories
def assignment_histories(acc, i, k, depth):
    R, S = TABS[0], TABS[1]
    RS = frozenset({R, S})
    new = pb.PhysicalOperatorAssignment
    other = new().add(pb.ScanOperator.BitmapScan, R).add(JoinOperatorAssignment(pb.JoinOperator.SortMergeJoin, RS, parallel_workers=2)).set(pb.ScanOperator.IndexScan, False).add(pb.IntermediateOperator.Memoize, [S])
    par = pb.PlanParameterization().set_workers([R], 3).set_workers([R, S], 5).set_workers([TABS[2]], 7)
    ops = {
        "scan": (lambda a: a.set_scan_operator(pb.ScanOperator.SequentialScan, R), lambda m: m["s"].__setitem__(R, ("SequentialScan", None))),
        "scan-set": (lambda a: a.add(pb.ScanOperator.IndexScan, [S]), lambda m: m["s"].__setitem__(S, ("IndexScan", None))),
        "scan-w": (lambda a: a.add(ScanOperatorAssignment(pb.ScanOperator.IndexScan, R, 4)), lambda m: m["s"].__setitem__(R, ("IndexScan", 4))),
        "join": (lambda a: a.add(pb.JoinOperator.NestedLoopJoin, (R, S)), lambda m: m["j"].__setitem__(RS, ("NestedLoopJoin", None, None))),
        "join-dir": (lambda a: a.set_join_operator(DirectionalJoinOperatorAssignment(pb.JoinOperator.HashJoin, [R], [S])), lambda m: m["j"].__setitem__(RS, ("HashJoin", None, "r|s1"))),
        "inter": (lambda a: a.add(pb.IntermediateOperator.Materialize, [S]), lambda m: m["i"].__setitem__(frozenset({S}), "Materialize")),
        "off": (lambda a: a.set(pb.JoinOperator.NestedLoopJoin, False), lambda m: m["g"].__setitem__("NestedLoopJoin", False)),
        "off-over": (lambda a: a.set_operator_enabled_globally(pb.ScanOperator.IndexScan, False, overwrite_fine_grained_selection=True),
                     lambda m: (m["g"].__setitem__("IndexScan", False), m.__setitem__("s", {t: v for t, v in m["s"].items() if v[0] != "IndexScan"}))),
        "off-over-j": (lambda a: a.set_operator_enabled_globally(pb.JoinOperator.HashJoin, False, overwrite_fine_grained_selection=True),
                       lambda m: (m["g"].__setitem__("HashJoin", False), m.__setitem__("j", {t: v for t, v in m["j"].items() if v[0] != "HashJoin"}))),
        "off-over-i": (lambda a: a.set_operator_enabled_globally(pb.IntermediateOperator.Materialize, False, overwrite_fine_grained_selection=True),
                       lambda m: (m["g"].__setitem__("Materialize", False), m.__setitem__("i", {t: v for t, v in m["i"].items() if v != "Materialize"}))),
        "on-over": (lambda a: a.set_operator_enabled_globally(pb.ScanOperator.IndexScan, True, overwrite_fine_grained_selection=True), lambda m: m["g"].__setitem__("IndexScan", True)),
        "merge": (lambda a: a.merge_with(other), lambda m: (m["s"].__setitem__(R, ("BitmapScan", None)), m["j"].__setitem__(RS, ("SortMergeJoin", 2, None)),
                                                             m["g"].__setitem__("IndexScan", False), m["i"].__setitem__(frozenset({S}), "Memoize"))),
        "merged-into": (lambda a: other.merge_with(a), None),
        "clone": (lambda a: a.clone(), lambda m: None),
        "global-only": (lambda a: a.global_settings_only(), lambda m: (m["s"].clear(), m["j"].clear(), m["i"].clear())),
        "workers": (lambda a: a.integrate_workers_from(par), lambda m: ((R in m["s"] and m["s"].__setitem__(R, (m["s"][R][0], 3))), (RS in m["j"] and m["j"].__setitem__(RS, (m["j"][RS][0], 5, m["j"][RS][2]))))),
        "json": (lambda a: oh.read_operator_assignment_json(util.to_json(a)), lambda m: None),
    }
    base = {"s": {R: ("BitmapScan", None)}, "j": {RS: ("SortMergeJoin", 2, None)}, "g": {"IndexScan": False}, "i": {frozenset({S}): "Memoize"}}
    copying = {"merge", "merged-into", "clone", "global-only", "workers", "json"}

    def w(x):
        return None if x is None or math.isnan(x) else x

    def view(a):
        out = {"s": {t: (x.operator.name, w(x.parallel_workers)) for t, x in a.scan_operators.items()}, "g": {o.name: e for o, e in a.global_settings.items()},
               "i": {t: o.name for t, o in a.intermediate_operators.items()}, "j": {}}
        for t, x in a.join_operators.items():
            d = None
            if isinstance(x, DirectionalJoinOperatorAssignment):
                d = "|".join(",".join(sorted(y.identifier() for y in side)) for side in (x.inner, x.outer))
            out["j"][t] = (x.operator.name, w(x.parallel_workers), d)
        return out

    hists = itertools.chain.from_iterable(itertools.product(ops, repeat=d) for d in range(1, depth + 1))
    ov = view(other)
    for h in sliced(hists, i, k):
        acc.case(h, len(h))
        a, m = new(), {"s": {}, "j": {}, "g": {}, "i": {}}
        trail = []
        try:
            for name in h:
                f, g = ops[name]
                pa = a
                pv = view(a)
                a = f(a)
                if name == "merged-into":
                    m = {x: {**base[x], **m[x]} for x in base}
                else:
                    g(m)
                if name in copying:
                    trail.append((pa, pv))
                    if a is pa:
                        acc.violate(f"same-object {h}", name)
                acc.step()
            if view(a) != m:
                acc.violate(f"state {h}", f"got {view(a)} want {m}")
            for pa, pv in trail:
                if view(pa) != pv:
                    acc.violate(f"source-modified {h}", f"got {view(pa)} want {pv}")
            if view(other) != ov:
                acc.violate(f"partner-modified {h}", str(view(other)))
                other.scan_operators.clear()
            for t in (R, S):
                want = m["s"].get(t)
                for got in (a.get(t), a.get([t]), a[t], a[{t}]):
                    if (got and (got.operator.name, w(got.parallel_workers))) != want:
                        acc.violate(f"get {h}", f"{t}: {got} want {want}")
                if (t in a) != (want is not None) or ([t] in a) != (want is not None):
                    acc.violate(f"contains {h}", str(t))
            got = a.get([S, R])
            if (got and got.operator.name) != (m["j"].get(RS) and m["j"][RS][0]) or (RS in a) != (RS in m["j"]):
                acc.violate(f"get {h}", "join")
            for dflt in (True, False):
                en = {o.name for o in a.get_globally_enabled_operators(dflt)}
                if en != {o.name for o in SCANS + JOINS + INTER if m["g"].get(o.name, dflt)}:
                    acc.violate(f"enabled {h}", f"{en}")
            if bool(a) != any(m.values()) or len(list(a)) != len(m["s"]) + len(m["j"]):
                acc.violate(f"bool {h}", "")
            for o in SCANS + JOINS + INTER:
                if a[o] != m["g"].get(o.name):
                    acc.violate(f"setting {h}", o.name)
            twin = a.clone()
            if twin != a or hash(twin) != hash(a):
                acc.violate(f"clone-eq {h}", "")
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise {h}", short(e))


def parameter_histories(acc, i, k, depth):
    R, S = TABS[0], TABS[1]
    P = pb.PlanParameterization
    other = P().add_cardinality([R], 5).set_workers([R, S], 2).set_system_settings("x", 1).set_system_settings(y="a")
    other.execution_mode = "parallel"

    def mode(a, v):
        a.execution_mode = v
        return a

    F = frozenset
    ops = {
        "card": (lambda a: a.add_cardinality([R], pb.Cardinality(42)), lambda m: m["c"].__setitem__(F([R]), "42")),
        "card2": (lambda a: a.add_cardinality({S, R}, 0), lambda m: m["c"].__setitem__(F([R, S]), "0")),
        "card-inf": (lambda a: a.add_cardinality((S,), math.inf), lambda m: m["c"].__setitem__(F([S]), "inf")),
        "workers": (lambda a: a.set_workers([R, S], 4), lambda m: m["w"].__setitem__(F([R, S]), 4)),
        "workers0": (lambda a: a.set_workers([R], 0), lambda m: m["w"].__setitem__(F([R]), 0)),
        "set": (lambda a: a.set_system_settings("x", "v"), lambda m: m["s"].__setitem__("x", "v")),
        "setkw": (lambda a: a.set_system_settings(y=3, z=None), lambda m: m["s"].update(y=3, z=None)),
        "mode": (lambda a: mode(a, "sequential"), lambda m: m.__setitem__("m", "sequential")),
        "merge": (lambda a: a.merge_with(other), lambda m: (m["c"].update({F([R]): "5"}), m["w"].update({F([R, S]): 2}), m["s"].update(x=1, y="a"), m.__setitem__("m", "parallel"))),
        "merged-into": (lambda a: other.merge_with(a), None),
        "drop": (lambda a: a.drop_workers(), lambda m: m["w"].clear()),
        "json": (lambda a: oh.read_plan_params_json(util.to_json(a)), lambda m: None),
    }

    def view(a):
        return {"c": {t: str(v) for t, v in a.cardinalities.items()}, "w": dict(a.parallel_workers), "s": dict(a.system_settings), "m": a.execution_mode}

    ov = view(other)
    for h in sliced(itertools.chain.from_iterable(itertools.product(ops, repeat=d) for d in range(1, depth + 1)), i, k):
        acc.case(h, len(h))
        a, m = P(), {"c": {}, "w": {}, "s": {}, "m": None}
        trail = []
        try:
            for name in h:
                f, g = ops[name]
                pa, pv = a, view(a)
                a = f(a)
                if name == "merged-into":
                    m = {"c": {F([R]): "5", **m["c"]}, "w": {F([R, S]): 2, **m["w"]}, "s": {"x": 1, "y": "a", **m["s"]}, "m": m["m"] or "parallel"}
                else:
                    g(m)
                if a is not pa:
                    trail.append((pa, pv))
                acc.step()
            if view(a) != m:
                acc.violate(f"state {h}", f"got {view(a)} want {m}")
            if not all(isinstance(v, pb.Cardinality) for v in a.cardinalities.values()):
                acc.violate(f"type {h}", str(a.cardinalities))
            for pa, pv in trail:
                if view(pa) != pv:
                    acc.violate(f"source-modified {h}", f"got {view(pa)} want {pv}")
            if view(other) != ov:
                acc.violate(f"partner-modified {h}", str(view(other)))
        except Exception as e:  # noqa: BLE001
            acc.violate(f"raise {h}", short(e))


def operator_json(acc, i, k):
    """each operator, alone or assigned to tables, is the same after it was stored as JSON (text or parsed)"""
    tabs = [pb.TableReference("r"), pb.TableReference("r", "x"), pb.TableReference("r", schema="s2"), pb.TableReference("r", "y", schema="s2"), pb.TableReference.create_virtual("v"), pb.TableReference('we "ird', "a b")]
    workers = [math.nan, 0, 1, 4, math.inf]

    def judge(sig, val, want):
        for how in ("text", "parsed", "value"):
            acc.step()
            try:
                raw = util.to_json(val)
                raw = raw if how == "text" else json.loads(raw) if how == "parsed" else val.__json__()
                if how == "value" and not isinstance(raw, str):
                    continue
                got = oh.read_operator_json(raw)
            except Exception as e:  # noqa: BLE001
                acc.violate(f"operator JSON {sig} as {how}", f"{val!r}: {short(e)}")
                continue
            if type(got) is not type(val) or got != val or want(got) != want(val):
                acc.violate(f"operator JSON {sig} as {how}", f"{val!r}: {got!r}")

    def w(x):
        return None if math.isnan(x.parallel_workers) else x.parallel_workers

    jobs = [("op", o) for o in SCANS + JOINS + INTER]
    jobs += [("scan", ScanOperatorAssignment(o, t, n)) for o in SCANS for t in tabs for n in workers]
    sides = [c for d in (1, 2) for c in itertools.combinations(tabs, d)]
    jobs += [("join", JoinOperatorAssignment(o, a, parallel_workers=n)) for o in JOINS for a in itertools.combinations(tabs, 2) for n in workers]
    jobs += [("directed join", DirectionalJoinOperatorAssignment(o, a, b, parallel_workers=n)) for o in JOINS for a in sides for b in sides if not set(a) & set(b) for n in workers]
    for kind, x in sliced(jobs, i, k):
        acc.case((kind, str(x)))
        if kind == "op":
            judge(kind, x, str)
        elif kind == "scan":
            judge(kind, x, lambda v: (v.operator, v.table, v.table.schema, v.table.virtual, w(v)))
        elif kind == "join":
            judge(kind, x, lambda v: (v.operator, v.join, v.is_directional(), w(v)))
        else:
            judge(kind, x, lambda v: (v.operator, v.inner, v.outer, v.is_directional(), w(v)))
    for x in (None, "", {}):
        if oh.read_operator_json(x) is not None:
            acc.violate("operator JSON of nothing", repr(x))


def sequences(acc, i, k, size):
    """all nested sequences of up to size tables: as join trees and as JSON"""
    tabs = [pb.TableReference("r"), pb.TableReference("r", "x"), pb.TableReference("r", schema="s2"), pb.TableReference("t", "y", schema="s2"), pb.TableReference.create_virtual("v")]

    def shapes(ts):
        if len(ts) == 1:
            yield ts[0]
            return
        for cut in range(1, len(ts)):
            for a in shapes(ts[:cut]):
                for b in shapes(ts[cut:]):
                    yield [a, b]

    def leaves(x):
        return [x] if not isinstance(x, (list, tuple)) else leaves(x[0]) + leaves(x[1])

    def same(tree, seq):
        if not isinstance(seq, (list, tuple)):
            return tree.is_scan() and tree.base_table == seq and tree.base_table.schema == seq.schema and tree.base_table.virtual == seq.virtual
        return tree.is_join() and same(tree.outer_child, seq[0]) and same(tree.inner_child, seq[1])

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x

    for ts in sliced([p for n in range(1, size + 1) for p in itertools.permutations(tabs, n)], i, k):
        for seq in shapes(list(ts)):
            acc.case(str(seq))
            for form in (seq, tup(seq)):
                acc.step()
                try:
                    tree = oh.jointree_from_sequence(form)
                    if not same(tree, seq) or len(tree) != len(ts) or tree.tables() != set(ts):
                        acc.violate("join tree of a sequence", f"{seq}: {tree}")
                    back = oh.parse_nested_table_sequence(json.loads(util.to_json(form)))
                    got, want = leaves(back), leaves(seq)
                    if got != want or [(t.schema, t.virtual) for t in got] != [(t.schema, t.virtual) for t in want] or not same(oh.jointree_from_sequence(back), seq):
                        acc.violate("sequence as JSON", f"{seq}: {back}")
                    stored = oh.read_jointree_json(util.to_json(tree))
                    if stored != tree or not same(stored, seq):
                        acc.violate("join tree as JSON", f"{seq}: {stored}")
                except Exception as e:  # noqa: BLE001
                    acc.violate("sequence fails", f"{seq}: {short(e)}")
    for x in (1, "r", None, [1], ["r", {"full_name": "s"}]):
        try:
            oh.parse_nested_table_sequence(x)
            acc.violate("invalid sequences are accepted", repr(x))
        except TypeError:
            pass


def run(c):
    def plan_part(acc, i, k):
        for t, mask, double, analyze, pat in sliced(plans(c.thorough), i, k):
            judge(acc, f"{t} mask={mask:b} double={double} analyze={analyze} pattern={pat}", decorate(t, mask, double, analyze, pat), analyze, c.thorough)

    c.part("plans", plan_part)
    c.part("join tree histories", lambda acc, i, k: tree_histories(acc, i, k, 3 if c.thorough else 2))
    c.part("operators as JSON", operator_json)
    c.part("nested table sequences", lambda acc, i, k: sequences(acc, i, k, 5 if c.thorough else 4))
    c.part("assignment histories", lambda acc, i, k: assignment_histories(acc, i, k, 4))
    c.part("parameter histories", lambda acc, i, k: parameter_histories(acc, i, k, 5 if c.thorough else 4))


if __name__ == "__main__":
    Check(
        "P10", "model_checking",
        "all join trees up to 4 tables x placements of auxiliary nodes x operators/annotations, each taken apart, rebuilt, updated, stored and walked and compared with a plain-dictionary model; all histories of operations on join trees, operator assignments and plan parameters up to a depth",
        ["where an auxiliary node and its input describe the same intermediate, either one's estimate may be reported"],
    ).main(run)
