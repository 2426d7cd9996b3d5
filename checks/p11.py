"""P11: generated hints tell the database exactly the requested optimizer decisions."""
import atexit
import contextlib
import itertools
import json
import math
import os
import re
import tempfile
import types
import warnings

import joinspace as js
import pgast
from vlib import Check, short, sliced

import postbound as pb
from postbound import duckdb, mysql, postgres, transform
from postbound._qep import QueryPlan

S, J, I = pb.ScanOperator, pb.JoinOperator, pb.IntermediateOperator
T = pb.TableReference
HERE = os.path.dirname(os.path.abspath(__file__))


class Stub:
    """stand-in for the database system that a hint service belongs to"""

    name = system_name = "stand-in"

    def __init__(self, geqo=12):
        self.config = {"geqo_threshold": str(geqo)}

    debug = False

    def server_mode(self):
        return ""

    def cursor(self):
        return self

    def execute(self, *a):
        pass

    def fetchone(self):
        return ("on",)

    def database_system_version(self):
        return "1"

    def __str__(self):
        return "stand-in"


def service(backend, geqo=12):
    if backend in ("pg_hint_plan", "pg_lab"):
        s = postgres.PostgresHintService(Stub(geqo))
        s.backend = backend
        return s
    if backend == "duckdb":
        return duckdb.DuckDBHintService(Stub())
    return mysql.MysqlHintService(Stub())


BACKENDS = ["pg_hint_plan", "pg_lab", "duckdb", "mysql"]

# ---------------------------------------------------------------- reading hints


def _calls(text):
    """splits hint text into [(name, argument text)], respecting nested parentheses"""
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = re.compile(r"\s*([A-Za-z_]+)\s*\(").match(text, i)
        if not m:
            if text[i:].strip():
                raise ValueError(f"unreadable hint text: {text[i:]!r}")
            break
        depth, j = 1, m.end()
        quote = False
        while depth:
            if j >= len(text):
                raise ValueError(f"unbalanced hint {text[i:]!r}")
            c = text[j]
            if c == "'":
                quote = not quote
            elif not quote:
                depth += (c == "(") - (c == ")")
            j += 1
        out.append((m.group(1), text[m.end() : j - 1].strip()))
        i = j
    return out


def _tree(text):
    toks = re.findall(r"[()]|[^\s()]+", text)

    def rec(k):
        if toks[k] == "(":
            a, k = rec(k + 1)
            b, k = rec(k)
            if toks[k] != ")":
                raise ValueError(f"join order is not binary: {text!r}")
            return (a, b), k + 1
        if toks[k] == ")":
            raise ValueError(f"malformed join order {text!r}")
        return toks[k], k + 1

    t, k = rec(0)
    if k != len(toks):
        raise ValueError(f"malformed join order {text!r}")
    return t


def read_hints(backend, text):
    """the facts that the hint block states"""
    start = {"pg_hint_plan": "/*+", "pg_lab": "/*=pg_lab=", "duckdb": "/*=quack_lab=", "mysql": "/*+"}[backend]
    if not text.strip():
        return []
    text = text.strip()
    if not text.startswith(start) or not text.endswith("*/") or text.count("*/") != 1:
        raise ValueError(f"malformed hint block {text!r}")
    facts = []
    for name, arg in _calls(text[len(start) : -2]):
        if backend == "mysql":
            tabs = [x.strip() for x in arg.split(",")]
            kinds = {"NO_INDEX": "SeqScan", "INDEX": "IndexScan", "INDEX_MERGE": "BitmapScan"}
            jk = {"BNL": "HashJoin", "HASH_JOIN": "HashJoin", "NO_BNL": "NestLoop", "NO_HASH_JOIN": "NestLoop"}
            if name == "JOIN_ORDER":
                facts.append(("sequence", tuple(tabs)))
            elif name in kinds and len(tabs) == 1:
                facts.append(("scan", tabs[0], kinds[name]))
            elif name in jk:
                facts.append(("join", frozenset(tabs), jk[name]))
            else:
                raise ValueError(f"unknown hint {name}({arg})")
            continue
        if name in ("Leading", "JoinOrder"):
            facts.append(("order", _tree(arg)))
            continue
        if name == "Set":
            m = re.fullmatch(r"(\S+) = '(.*)'", arg) if backend != "pg_hint_plan" else re.fullmatch(r"(\S+) (\S+)", arg)
            if not m:
                raise ValueError(f"malformed setting {arg!r}")
            facts.append(("set", m.group(1), m.group(2)))
            continue
        if name == "Config":
            facts.append(("config", *[x.strip() for x in arg.split("=")]))
            continue
        if name in ("Rows", "Card"):
            m = re.fullmatch(r"(.+?) #(\d+)", arg)
            if not m:
                raise ValueError(f"malformed cardinality {name}({arg})")
            facts.append(("card", frozenset(m.group(1).split()), int(m.group(2))))
            continue
        if name == "Parallel" and backend == "pg_hint_plan":
            m = re.fullmatch(r"(\S+) (\d+) hard", arg)
            if not m:
                raise ValueError(f"pg_hint_plan only parallelizes single tables, got {name}({arg})")
            facts.append(("workers", frozenset([m.group(1)]), int(m.group(2))))
            continue
        workers = None
        m = re.fullmatch(r"(.*?)\s*\(workers=(\d+)\)", arg)
        if m and backend == "pg_lab":
            arg, workers = m.group(1), int(m.group(2))
        if name == "Result" and backend == "pg_lab":
            m = re.fullmatch(r"workers=(\d+)", arg)
            facts.append(("workers", "result", int(m.group(1))))
            continue
        tabs = arg.split()
        scans = {"SeqScan": "SeqScan", "IndexScan": "IndexScan", "IndexOnlyScan": "IndexOnlyScan", "IdxScan": "IdxScan", "BitmapScan": "BitmapScan"}
        if name in scans and len(tabs) == 1 and (name == "IdxScan") == (name.startswith("I") and backend != "pg_hint_plan"):
            facts.append(("scan", tabs[0], name))
        elif name in ("NestLoop", "HashJoin", "MergeJoin"):
            if len(set(tabs)) < 2 or len(set(tabs)) != len(tabs):
                raise ValueError(f"a join of at least two tables required: {name}({arg})")
            facts.append(("join", frozenset(tabs), name))
        elif name in ("Memoize", "Memo", "Material") and len(set(tabs)) == len(tabs) and tabs:
            facts.append(("aux", frozenset(tabs), "Memoize" if name != "Material" else "Materialize"))
        else:
            raise ValueError(f"unknown hint {name}({arg})")
        if workers is not None:
            facts.append(("workers", frozenset(tabs), workers))
    return facts


def read_prep(backend, text):
    """the settings that the preparatory statements apply"""
    out = []
    for stmt in [x for x in text.split("\n") if x.strip()]:
        m = re.fullmatch(r"SET (?:LOCAL |SESSION )?(\S+?)\s*(?:TO|=)\s*('(?:[^']|'')*'|[\w.+-]+)\s*;", stmt.strip(), flags=re.I)
        if not m:
            raise ValueError(f"not a SET statement: {stmt!r}")
        v = m.group(2)
        out.append(("set", m.group(1), v[1:-1].replace("''", "'") if v.startswith("'") else v))
    return out


# ---------------------------------------------------------------- expectations

SCANS = {
    "pg_hint_plan": {S.SequentialScan: ["SeqScan"], S.IndexScan: ["IndexScan", "IndexOnlyScan"], S.IndexOnlyScan: ["IndexOnlyScan"], S.BitmapScan: ["BitmapScan"]},
    "pg_lab": {S.SequentialScan: ["SeqScan"], S.IndexScan: ["IdxScan"], S.IndexOnlyScan: ["IdxScan"], S.BitmapScan: ["BitmapScan"]},
    "duckdb": {S.SequentialScan: ["SeqScan"], S.IndexScan: ["IdxScan"]},
    "mysql": {S.SequentialScan: ["SeqScan"], S.IndexScan: ["IndexScan"], S.IndexOnlyScan: ["IndexScan"], S.BitmapScan: ["BitmapScan"]},
}
JOINS = {J.NestedLoopJoin: "NestLoop", J.HashJoin: "HashJoin", J.SortMergeJoin: "MergeJoin"}
SETTINGS = {
    J.NestedLoopJoin: "enable_nestloop",
    J.HashJoin: "enable_hashjoin",
    J.SortMergeJoin: "enable_mergejoin",
    S.SequentialScan: "enable_seqscan",
    S.IndexScan: "enable_indexscan",
    S.IndexOnlyScan: "enable_indexonlyscan",
    S.BitmapScan: "enable_bitmapscan",
    I.Memoize: "enable_memoize",
    I.Materialize: "enable_material",
    I.Sort: "enable_sort",
}
ON, OFF = {"on", "true", "1"}, {"off", "false", "0"}


def leaves(t):
    return [x for c in t for x in leaves(c)] if isinstance(t, tuple) else [t]


def intermediates(t):
    return ([] if not isinstance(t, tuple) else intermediates(t[0]) + intermediates(t[1]) + [frozenset(leaves(t))])


def judge(backend, d, facts, prep, warned, n_tables, geqo):
    """problems of the stated facts with respect to the decisions d; warned: was anything reported to the user"""
    facts = list(facts)
    problems = []
    missing = []  # decisions that are not expressed
    extra_ok = []

    def take(options, what):
        for o in options:
            if o in facts:
                facts.remove(o)
                return True
        missing.append(what)
        return False

    order = d.get("order")
    if isinstance(order, tuple):
        if backend == "mysql":
            seqs = [f for f in facts if f[0] == "sequence"]
            good = set(intermediates(order))
            if seqs and sorted(seqs[0][1]) == sorted(leaves(order)) and all(frozenset(seqs[0][1][: k + 1]) in good for k in range(1, len(seqs[0][1]))):
                facts.remove(seqs[0])
            elif seqs:
                problems.append(f"join sequence {seqs[0][1]} does not follow the join order {order}")
                facts.remove(seqs[0])
            else:
                missing.append(f"join order {order}")
        elif backend == "duckdb" and len(leaves(order)) == 2 and not any(f[0] == "order" for f in facts):
            pass  # documented: neither join order nor direction left to decide
        else:
            take([("order", order)], f"join order {order}")
    elif order is not None:
        # a single table: nothing to decide
        extra_ok += [("order", order), ("sequence", (order,))]
    for tab, op in d.get("scans", {}).items():
        take([("scan", tab, x) for x in SCANS[backend].get(op, [])], f"scan {tab} {op.value}")
    for tabs, op in d.get("joins", {}).items():
        take([("join", tabs, JOINS.get(op))], f"join {set(tabs)} {op.value}")
    for tabs, op in d.get("aux", {}).items():
        take([("aux", tabs, op.name)], f"intermediate {set(tabs)} {op.value}")
    for tabs, card in d.get("cards", {}).items():
        if math.isnan(card):
            continue
        if math.isinf(card):
            missing.append(f"card {set(tabs)} {card}")
            continue
        rows = {math.floor(card), math.ceil(card)}
        if backend == "pg_hint_plan" and len(tabs) == 1:
            # documented: pg_hint_plan has no hints for base tables (an existing example shows them nevertheless)
            extra_ok += [("card", tabs, r) for r in rows]
            continue
        take([("card", tabs, r) for r in sorted(rows)], f"card {set(tabs)} {card}")
    for tabs, w in d.get("workers", {}).items():
        if w in (0, 1):
            extra_ok.append(("workers", tabs, w))
            continue
        opts = [("workers", tabs, w)] + ([("workers", "result", w)] if tabs in d.get("result_ok", ()) else [])
        if backend == "pg_hint_plan" and len(tabs) > 1 and warned:
            # documented fallback: all base tables of a join, reported to the user
            extra_ok += [("workers", frozenset([t]), w) for t in tabs]
        take(opts, f"workers {set(tabs)} {w}")
    allsets = facts + prep
    for name, val in d.get("settings", {}).items():
        want = {str(val)} | (ON if val is True else OFF if val is False else set())
        hits = [f for f in allsets if f[0] == "set" and f[1] == name]
        if len(hits) != 1:
            missing.append(f"setting {name}={val}") if not hits else problems.append(f"setting {name} stated {len(hits)} times")
        elif not (hits[0][2] in want or hits[0][2].lower() in {w.lower() for w in want}):
            problems.append(f"setting {name}={val} stated as {hits[0][2]!r}")
        for h in hits:
            (facts if h in facts else prep).remove(h)
    for op, val in d.get("global", {}).items():
        if backend == "mysql":
            hits = [f for f in prep if f[1] == "@@optimizer_switch"]
            want = {J.HashJoin: "block_nested_loop"}.get(op)
            if not want or not hits or f"{want}={'on' if val else 'off'}" not in hits[0][2].split(","):
                missing.append(f"{op} {val}")
            continue
        hits = [f for f in allsets if f[0] == "set" and f[1] == SETTINGS.get(op)]
        if len(hits) != 1:
            missing.append(f"{op} {val}")
        elif hits[0][2].lower() not in (ON if val else OFF):
            problems.append(f"{op} {val} stated as {hits[0][2]!r}")
        for h in hits:
            (facts if h in facts else prep).remove(h)
    if backend == "mysql":
        prep = [f for f in prep if f[1] != "@@optimizer_switch" or not d.get("global")]
    mode = d.get("mode")
    if mode is not None:
        take([("config", "exec_mode", mode)], f"execution mode {mode}")
    if backend == "pg_lab":
        want = ("config", "plan_mode", "full" if d.get("full") else "anchored")
        if want in facts:
            facts.remove(want)
        elif facts:
            missing.append("plan mode")
    if backend == "pg_hint_plan":
        if n_tables >= geqo:
            # the warning announces this setting, it does not excuse its absence
            if ("set", "geqo", "off") in facts:
                facts.remove(("set", "geqo", "off"))
            else:
                problems.append("GEQO is not disabled")
    if missing and not warned:
        problems.append(f"not expressed and not reported: {missing[0]}")
    for x in extra_ok:
        if x in facts:
            facts.remove(x)
    for f in facts + prep:
        problems.append(f"states something that was not requested: {f}")
    return problems


NAMES = js.NAMES


def named(t):
    return (named(t[0]), named(t[1])) if isinstance(t, tuple) else NAMES[t]



def base_query(tabs):
    preds = " AND ".join(f"{a}.x = {b}.x" for a, b in zip(tabs, tabs[1:]))
    return pb.parse_query(f"SELECT * FROM {', '.join(tabs)}" + (f" WHERE {preds}" if preds else ""))


def build(d):
    """the arguments for generate_hints"""
    kw = {}
    if d.get("order") is not None:

        def mk(t):
            return pb.JoinTree.join(mk(t[0]), mk(t[1])) if isinstance(t, tuple) else pb.JoinTree.scan(T(t))

        kw["join_order"] = mk(d["order"])
    if any(k in d for k in ("scans", "joins", "aux", "global", "op_workers")):
        ops = pb.PhysicalOperatorAssignment()
        ow = d.get("op_workers", {})
        for t, op in d.get("scans", {}).items():
            ops.add(pb.ScanOperatorAssignment(op, T(t), ow.get(frozenset([t]), math.nan)))
        for ts, op in d.get("joins", {}).items():
            ops.add(pb.JoinOperatorAssignment(op, [T(t) for t in sorted(ts)], parallel_workers=ow.get(ts, math.nan)))
        for ts, op in d.get("aux", {}).items():
            ops.set_intermediate_operator(op, [T(t) for t in ts])
        for op, v in d.get("global", {}).items():
            ops.set(op, v)
        kw["physical_operators"] = ops
    if any(k in d for k in ("cards", "param_workers", "settings", "mode")):
        p = pb.PlanParameterization()
        for ts, c in d.get("cards", {}).items():
            p.add_cardinality([T(t) for t in ts], pb.Cardinality(c))
        for ts, w in d.get("param_workers", {}).items():
            p.set_workers([T(t) for t in ts], w)
        for k, v in d.get("settings", {}).items():
            p.set_system_settings(k, v)
        p.execution_mode = d.get("mode")
        kw["plan_parameters"] = p
    return kw


def plain(query):
    return pgast.norm(pgast.raw(str(query)))


def one(acc, backend, d, q, n_tables, *, plan=None, geqo=12, tag=""):
    svc = service(backend, geqo)
    key = f"{tag} {backend} {show(d)}"
    acc.step()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            res = svc.generate_hints(q, plan) if plan is not None else svc.generate_hints(q, **build(d))
        except Exception as e:
            if isinstance(e, (AssertionError, AttributeError, UnboundLocalError, TypeError)):
                acc.violate(f"generating hints fails {backend} {tag} {type(e).__name__}", f"{show(d)}: {short(e)}")
                return
            if expressible(backend, d, svc):
                acc.violate(f"supported decision is refused {backend} {tag}", f"{show(d)}: {short(e)}")
            acc.case(key, "refused")
            return
    warned = bool(caught)
    try:
        hint = res.hints
        facts = read_hints(backend, hint.query_hints if hint else "")
        prep = read_prep(backend, hint.preparatory_statements if hint else "")
    except ValueError as e:
        acc.violate(f"unreadable hints {backend} {tag} {str(e)[:40]}", f"{show(d)}: {e}")
        return
    dd = dict(d)
    dd["workers"] = {**d.get("op_workers", {}), **d.get("param_workers", {}), **d.get("workers", {})}
    for p in judge(backend, dd, facts, list(prep), warned, n_tables, geqo):
        acc.violate(f"{tag} {backend} {p.split(':')[0] if 'not' in p else 'wrong'} {re.sub(r'[^a-z ]', '', p)[:60]}", f"{show(d)} -> {hint}: {p}")
    acc.case(key, f"{len(facts)} facts{' reported' if warned else ''}")
    try:
        text = svc.format_query(transform.drop_hints(res, preparatory_statements_only=True))
    except Exception as e:
        acc.violate(f"formatting fails {backend} {tag}", f"{show(d)}: {short(e)}")
        return
    if facts:
        where = text.find("/*")
        if backend == "mysql":
            ok = re.match(r"\s*SELECT\s*$", text[:where]) is not None
        else:
            ok = re.fullmatch(r"[\w\s,()]*", text[:where]) is not None
        if where < 0 or not ok:
            acc.violate(f"hint block is not where the system looks for it {backend} {tag}", f"{show(d)}: {text}")
    if backend != "mysql" and pgast.norm(pgast.raw(text)) != plain(q):
        acc.violate(f"query changed {backend} {tag}", f"{q} -> {text}")


def expressible(backend, d, svc):
    """does the system support everything that d asks for"""
    used = list(d.get("scans", {}).values()) + list(d.get("joins", {}).values())
    if backend.startswith("pg"):
        return not d.get("aux") and all(svc.supports_hint(op) for op in [*used, *d.get("global", {})])
    if any(not svc.supports_hint(op) for op in used) or d.get("aux"):
        return False
    if d.get("op_workers") or d.get("param_workers") or d.get("workers") or d.get("mode"):
        return False
    if any(math.isinf(c) for c in d.get("cards", {}).values()):
        return False
    if backend == "duckdb":
        return all(svc.supports_hint(op) for op in d.get("global", {}))
    if d.get("cards") or any(op != J.HashJoin for op in d.get("global", {})):
        return False
    return not (isinstance(d.get("order"), tuple) and not js.is_linear(d["order"]))


def show(d):
    def s(x):
        if isinstance(x, dict):
            return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in x.items()) + "}"
        if isinstance(x, frozenset):
            return "".join(sorted(x))
        if isinstance(x, (list, tuple)):
            return "(" + " ".join(map(s, x)) + ")"
        return getattr(x, "name", None) or str(x)

    return s(d)


def run(c):
    deep = c.thorough
    R, Sx = "r", "s"
    fs = frozenset

    # --- join orders
    def orders(acc, i, n):
        space = []
        for k in range(1, 6 if deep else 5):
            tabs = NAMES[:k]
            for t in js.all_shapes(k):
                space.append((tabs, named(t)))
        for tabs, t in sliced(space, i, n):
            q = base_query(tabs)
            for b in BACKENDS:
                for geqo in (2, 3, 4, 12) if b == "pg_hint_plan" else (12,):
                    one(acc, b, {"order": t}, q, len(tabs), geqo=geqo, tag="join order")

    c.part("join orders", orders)

    # --- operators and workers
    W = [None, 2]

    def operators(acc, i, n):
        scan = [None] + [(op, w) for op in S for w in W]
        join = [None] + [(op, w) for op in J for w in W]
        pw = [{}] + [{fs(x): w} for x in ("r", "s", "rs") for w in ((2, 1, 3) if deep else (2, 1))] + [{fs("r"): 2, fs("s"): 3}, {fs("r"): 2, fs("rs"): 3}]
        space = []
        for a, b, j in itertools.product(scan, scan, join):
            for p in pw if deep or a is None or b is None or (a[1], b[1], (j or (0, 0))[1]) == (None, None, None) else pw[:2]:
                space.append((a, b, j, p))
        q = base_query(["r", "s"])
        for a, b, j, p in sliced(space, i, n):
            d = {"scans": {}, "joins": {}, "op_workers": {}}
            for t, x in (("r", a), ("s", b)):
                if x:
                    d["scans"][t] = x[0]
                    if x[1] and fs(t) not in p:
                        d["op_workers"][fs(t)] = x[1]
            if j:
                d["joins"][fs("rs")] = j[0]
                if j[1] and fs("rs") not in p:
                    d["op_workers"][fs("rs")] = j[1]
            if p:
                d["param_workers"] = p
            for be in BACKENDS:
                one(acc, be, d, q, 2, tag="operators")

    c.part("operators and parallel workers", operators)

    # --- operators of larger joins, intermediate operators, global settings
    def larger(acc, i, n):
        space = []
        tabs = ["r", "s", "t"]
        subsets = [fs(x) for k in (1, 2, 3) for x in itertools.combinations(tabs, k)]
        js_ = [x for x in subsets if len(x) > 1]
        for ops in itertools.product([None, *J], repeat=len(js_)):
            space.append({"joins": {s: o for s, o in zip(js_, ops) if o}})
        for k in (1, 2):
            for where in itertools.combinations(subsets, k):
                for ops in itertools.product(I, repeat=k):
                    for base in ({}, {"scans": {"r": S.IndexScan}, "joins": {fs("rs"): J.HashJoin}}):
                        space.append({**base, "aux": dict(zip(where, ops))})
        allops = [*S, *J, *I]
        for k in (1, 2):
            for ops in itertools.combinations(allops, k):
                for vals in itertools.product([True, False], repeat=k):
                    for base in ({}, {"order": (("r", "s"), "t")}, {"scans": {"s": S.SequentialScan}}):
                        space.append({**base, "global": dict(zip(ops, vals))})
        q = base_query(tabs)
        for d in sliced(space, i, n):
            for b in BACKENDS:
                one(acc, b, d, q, 3, tag="assignment")

    c.part("joins, intermediates and global settings", larger)

    # --- parameters
    def parameters(acc, i, n):
        subsets = [fs(x) for k in (1, 2, 3) for x in itertools.combinations("rst", k)]
        vals = [0, 1, 5, 123456789012, math.inf, math.nan]
        space = []
        for k in (1, 2, 3) if deep else (1, 2):
            for where in itertools.combinations(subsets, k):
                for v in itertools.product(vals, repeat=k):
                    space.append({"cards": dict(zip(where, v))})
        settings = [("threads", 2), ("x.y", True), ("x.y", False), ("work_mem", "4MB"), ("f", 0.5), ("n", -1), ("app", "it's")]
        for k in (1, 2):
            for ss in itertools.combinations(settings, k):
                if len({x for x, _ in ss}) < k:
                    continue
                for base in ({}, {"order": ("r", ("s", "t"))}, {"cards": {fs("rs"): 7}}, {"scans": {"r": S.SequentialScan}}):
                    space.append({**base, "settings": dict(ss)})
        for mode in ("sequential", "parallel"):
            for base in ({}, {"order": ("r", ("s", "t"))}, {"cards": {fs("rs"): 7}}, {"settings": {"n": 4}}, {"scans": {"r": S.SequentialScan}}):
                space.append({**base, "mode": mode})
        for where in subsets:
            for ops in ({}, {"scans": {"r": S.SequentialScan}}, {"joins": {fs("rs"): J.HashJoin, fs("rst"): J.HashJoin}}, {"order": (("t", "s"), "r")}):
                for w in (2, 4):
                    space.append({**ops, "param_workers": {where: w}, "cards": {fs("rs"): 3}})
        q = base_query(["r", "s", "t"])
        for d in sliced(space, i, n):
            for b in BACKENDS:
                if "it's" in d.get("settings", {}).values() and b == "pg_lab":
                    continue  # escapes within pg_lab's hint text are not documented
                one(acc, b, d, q, 3, tag="parameters")

    c.part("plan parameters", parameters)

    # --- entire plans
    def plans(acc, i, n):
        space = []
        scans = [S.SequentialScan, S.IndexScan, S.BitmapScan]
        for tabs, shape in ((["r"], "r"), (["r", "s"], ("r", "s")), (["r", "s", "t"], (("r", "s"), "t")), (["r", "s", "t"], ("t", ("r", "s"))), (["r", "s", "t", "u"], (("r", "s"), ("t", "u")))):
            nodes = []

            def walk(t, path):
                if isinstance(t, tuple):
                    walk(t[0], path + "o")
                    walk(t[1], path + "i")
                nodes.append(path)

            walk(shape, "")
            big = len(tabs) > 2
            deco = [None, "gather", "memo", "material", "hash", "sort", "gather+material"]
            for k in (0, 1, 2) if not big or deep else (0, 1, 2):
                for where in itertools.combinations(nodes, k):
                    for ds in itertools.product(deco[1:], repeat=k):
                        if big and k == 2 and not deep and "gather" not in ds:
                            continue
                        for top in (None, "agg", "agg+gather"):
                            for opsel in range(3 if deep else 2):
                                for cards in range(3 if not big or deep else 2):
                                    space.append((tabs, shape, dict(zip(where, ds)), top, opsel, cards))
        for tabs, shape, deco, top, opsel, cards in sliced(space, i, n):
            d = {"scans": {}, "joins": {}, "cards": {}, "workers": {}, "order": shape, "full": True}
            cnt = itertools.count(1)
            gather_above_top = [False]
            alt = {}

            def cardinalities():
                v = next(cnt) * 10
                if cards == 0:
                    return {"estimated_cardinality": pb.Cardinality(v)}, v, v
                if cards == 1:
                    return {"estimated_cardinality": pb.Cardinality(v), "actual_cardinality": pb.Cardinality(v + 1)}, v, v + 1
                return ({"actual_cardinality": pb.Cardinality(0), "estimated_cardinality": pb.Cardinality(v)}, v, 0) if v % 20 else ({}, None, None)

            def mk(t, path):
                ckw, est, act = cardinalities()
                if isinstance(t, tuple):
                    kids = [mk(t[0], path + "o"), mk(t[1], path + "i")]
                    op = [J.NestedLoopJoin, J.HashJoin, J.SortMergeJoin][(opsel + len(path)) % 3]
                    p = QueryPlan(op.value, operator=op, children=kids, **ckw)
                    d["joins"][fs(leaves(t))] = op
                else:
                    op = scans[(opsel + len(path)) % 3]
                    p = QueryPlan(op.value, operator=op, base_table=T(t), **ckw)
                    d["scans"][t] = op
                tabs_ = fs(leaves(t))
                if est is not None:
                    d["cards"][tabs_] = (est, act)
                for x in reversed((deco.get(path) or "").split("+")):
                    same = {k: v for k, v in ckw.items()}
                    if x == "gather":
                        p = QueryPlan("Gather", children=[p], parallel_workers=2 + len(path), **same)
                        alt.setdefault(tabs_, []).append(2 + len(path))
                    elif x == "memo":
                        p = QueryPlan("Memoize", operator=I.Memoize, children=[p], **same)
                    elif x == "material":
                        p = QueryPlan("Materialize", operator=I.Materialize, children=[p], **same)
                    elif x == "hash":
                        p = QueryPlan("Hash", children=[p], **same)
                    elif x == "sort":
                        p = QueryPlan("Sort", operator=I.Sort, children=[p], **same)
                return p

            p = mk(shape, "")
            if top and "gather" in top:
                p = QueryPlan("Gather", children=[p], parallel_workers=7)
                alt.setdefault(fs(tabs), []).append(7)
            if top:
                p = QueryPlan("Aggregate", children=[p], estimated_cardinality=pb.Cardinality(1))
            q = base_query(tabs)
            for b in BACKENDS:
                judge_plan(acc, b, q, p, d, alt, tabs, (tabs, shape, deco, top, opsel, cards))

    def judge_plan(acc, b, q, p, d, alt, tabs, desc):
        svc = service(b)
        acc.step()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                res = svc.generate_hints(q, p)
            except Exception as e:
                n_par = sum(len(v) for v in alt.values())
                supported = all(o in SCANS[b] for o in d["scans"].values()) and (b != "mysql" or (J.SortMergeJoin not in d["joins"].values() and js.is_linear(d["order"])))
                if b == "duckdb" and (n_par or any(x for x in desc[2].values() if x in ("memo", "material", "sort", "gather+material"))):
                    supported = False
                if b == "mysql" and n_par:
                    supported = False
                if supported or isinstance(e, (AssertionError, AttributeError, UnboundLocalError, TypeError)):
                    acc.violate(f"plan {b} refused {type(e).__name__}", f"{desc}: {short(e)}")
                acc.case(f"plan {b} {desc}", "refused")
                return
        try:
            facts = read_hints(b, res.hints.query_hints if res.hints else "")
            prep = read_prep(b, res.hints.preparatory_statements if res.hints else "")
        except ValueError as e:
            acc.violate(f"plan unreadable hints {b} {str(e)[:40]}", f"{desc}: {e}")
            return
        # auxiliary nodes may be represented
        allowed_aux = set()

        def auxes(node):
            if isinstance(node.operator, I):
                allowed_aux.add(("aux", fs(t.identifier() for t in node.tables()), node.operator.name))
            for ch in node.children:
                auxes(ch)

        auxes(p)
        facts = [f for f in facts if f not in allowed_aux]
        # estimates: each stated number belongs to the plan, measured ones are preferred where documented
        dd = {k: v for k, v in d.items() if k not in ("cards", "workers")}
        stated = {}
        for f in [f for f in facts if f[0] == "card"]:
            stated.setdefault(f[1], set()).add(f[2])
            facts.remove(f)
        for ts, vals in stated.items():
            want = d["cards"].get(ts)
            top_ok = {1} if desc[3] and ts == fs(tabs) else set()
            if b.startswith("pg"):
                ok = {want[1]} if want else set()
            else:
                ok = {want[0]} if want else set()
            if not vals <= ok | top_ok:
                acc.violate(f"plan {b} wrong cardinality", f"{desc}: {set(ts)} {vals}, the plan says {want}: {res.hints}")
        if b != "mysql":
            for ts, want in d["cards"].items():
                if ts not in stated and not (b == "pg_hint_plan" and len(ts) == 1):
                    acc.violate(f"plan {b} cardinality is missing", f"{desc}: {set(ts)} {want}: {res.hints}")
        # workers
        if len(desc[1]) and alt:
            par = [(ts, w) for ts, ws in alt.items() for w in ws]
            said = [f for f in facts if f[0] == "workers"]
            for f in said:
                facts.remove(f)
                on_result = f[1] == "result" and any(ts == fs(tabs) and w == f[2] for ts, w in par)
                split = b == "pg_hint_plan" and caught and any(f[1] <= ts and w == f[2] for ts, w in par)
                if not on_result and not split and (f[1], f[2]) not in par:
                    acc.violate(f"plan {b} wrong workers", f"{desc}: {f}: {res.hints}")
            if len(said) < len(alt) and not caught:
                acc.violate(f"plan {b} workers silently dropped", f"{desc}: {res.hints}")
        if b == "pg_hint_plan" and any(f[0] == "set" for f in facts):
            pass
        for pr in judge(b, dd, facts, list(prep), False, len(tabs), 12):
            acc.violate(f"plan {b} {re.sub(r'[^a-z ]', '', pr)[:60]}", f"{desc} -> {res.hints}: {pr}")
        acc.case(f"plan {b} {desc}", f"{len(facts)} facts")

    c.part("entire plans", plans)

    def exclusive(acc, i, n):
        q = base_query(["r", "s"])
        p = QueryPlan("Hash Join", operator=J.HashJoin, children=[QueryPlan("Seq Scan", operator=S.SequentialScan, base_table=T("r")), QueryPlan("Seq Scan", operator=S.SequentialScan, base_table=T("s"))])
        parts = [{"order": ("s", "r")}, {"scans": {"r": S.IndexScan}}, {"cards": {fs("rs"): 4}}]
        for b in BACKENDS:
            for k in (1, 2, 3):
                for sel in itertools.combinations(parts, k):
                    kw = build({a: v for x in sel for a, v in x.items()})
                    acc.step()
                    with warnings.catch_warnings(record=True) as caught:
                        warnings.simplefilter("always")
                        try:
                            service(b).generate_hints(q, p, **kw)
                        except Exception:
                            continue
                    if not caught:
                        acc.violate(f"plan and partial decisions {b}", f"{sorted(kw)} are dropped silently")
        acc.case("exclusive", "checked")

    c.part("plan and partial decisions", exclusive, parallel=False)

    # --- supported decisions can be hinted
    def support(acc, i, n):
        for b in BACKENDS:
            svc = service(b)
            for op in [*S, *J, *I]:
                try:
                    claims = svc.supports_hint(op)
                except Exception as e:
                    acc.violate(f"supports_hint {b}", f"{op}: {short(e)}")
                    continue
                d = {"scans": {"r": op}} if isinstance(op, S) else {"joins": {fs("rs"): op}} if isinstance(op, J) else {"aux": {fs("rs"): op}}
                query = base_query(["r", "s"])
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    try:
                        service(b).generate_hints(query, **build(d))
                        ok = not caught
                    except Exception:
                        ok = False
                acc.step()
                acc.case(f"{b} {op}", f"{claims}/{ok}")
                if claims and not ok:
                    acc.violate(f"supported operator cannot be hinted {b} {op.name}", "supports_hint() is True")

    c.part("supported operators", support, parallel=False)

    # --- the query itself
    def queries(acc, i, n):
        bodies = ["SELECT * FROM r WHERE r.a = 1", "SELECT * FROM r AS x, s WHERE x.a = s.b", "SELECT r.a, count(*) FROM r GROUP BY r.a ORDER BY r.a", "WITH c AS (SELECT * FROM s LIMIT 0) SELECT * FROM r, c WHERE r.a = c.a",
                  "SELECT * FROM r WHERE r.a IN (SELECT s.a FROM s LIMIT 3)", "SELECT * FROM r WHERE r.s = 'it''s \"x\"' AND r.t IS NULL", "SELECT CASE WHEN r.a = 1 THEN 'x' ELSE NULL END FROM r WHERE r.b = true",
                  "SELECT * FROM r WHERE r.d > CAST('2020-01-01' AS date) AND r.a::numeric(3, 2) < 2.5"]
        limits = ["", "LIMIT 5", "LIMIT 0", "OFFSET 3", "OFFSET 0", "LIMIT 0 OFFSET 2", "LIMIT 2 OFFSET 0", "LIMIT 2 OFFSET 3", "FETCH FIRST 4 ROWS ONLY"]
        explains = ["", "EXPLAIN", "EXPLAIN ANALYZE", "EXPLAIN (FORMAT JSON)", "EXPLAIN (ANALYZE, FORMAT JSON)"]
        decisions = [{}, {"scans": {"r": S.SequentialScan}}, {"settings": {"n": 3}}, {"settings": {"n": 3}, "scans": {"r": S.IndexScan}}]
        space = list(itertools.product(bodies, limits, explains, decisions, BACKENDS))
        for body, lim, ex, d, b in sliced(space, i, n):
            if b == "mysql" and lim:
                continue  # LIMIT clauses of the MySQL dialect are not claimed
            sql = f"{ex} {body} {lim}".strip()
            q = pb.parse_query(sql)
            before = str(q)
            svc = service(b)
            acc.step()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    h = svc.generate_hints(q, **build(d))
                    h = transform.drop_hints(h, preparatory_statements_only=True)
                    text = svc.format_query(h)
                    direct = svc.format_query(q)
            except Exception as e:
                acc.violate(f"query {b} {type(e).__name__}", f"{sql}: {short(e)}")
                continue
            acc.case((b, sql, show(d)), text[:10])
            if str(q) != before:
                acc.violate(f"query {b} input was modified", f"{sql} -> {q}")
            if b == "mysql":
                want_ex = not ex and re.match(r"(?!EXPLAIN)", text) or re.match(r"EXPLAIN( ANALYZE)?( FORMAT=\w+)?\s", text)
                if not want_ex or ("ANALYZE" in ex) != ("ANALYZE" in text.split("SELECT")[0]) or ("JSON" in ex) != ("FORMAT=JSON" in text.split("SELECT")[0]):
                    acc.violate(f"query {b} EXPLAIN is not in the dialect of the system", f"{sql} -> {text}")
                inner = re.sub(r"^EXPLAIN.*?(?=SELECT|WITH)", "", text, flags=re.S)
                try:
                    if mysql_ast(inner) != pgast.norm(pgast.raw(f"{body} {lim}")):
                        acc.violate(f"query {b} changed", f"{sql} -> {text}")
                except Exception as e:
                    acc.violate(f"query {b} cannot be read {type(e).__name__}", f"{sql} -> {text}")
                continue
            for form, txt in (("formatted", text), ("unhinted", direct), ("text", str(h))):
                try:
                    got, want = split_explain(txt), split_explain(sql)
                except Exception as e:
                    acc.violate(f"query {b} {form} cannot be read", f"{sql} -> {txt}: {short(e)}")
                    continue
                if got[1] != want[1]:
                    acc.violate(f"query {b} {form} changed {lim.split()[0] if lim else ''}", f"{sql} -> {txt}")
                if got[0] is None or want[0] is None:
                    if got[0] != want[0]:
                        acc.violate(f"query {b} {form} EXPLAIN", f"{sql} -> {txt}")
                elif (got[0].get("analyze"), got[0].get("format")) != (want[0].get("analyze"), want[0].get("format")):
                    acc.violate(f"query {b} {form} EXPLAIN options", f"{sql} -> {txt}")

    c.part("the query itself", queries)

    # --- DuckDB reads the hints
    def conformance(acc, i, n):
        if i:
            return
        tmp = tempfile.mkdtemp(prefix="p11-")
        try:
            db = duckdb.DuckDBInterface(os.path.join(tmp, "x.duckdb"))
            cur = db.cursor()
            for k, t in enumerate("rstu"):
                cur.execute(f"CREATE TABLE {t} (x INTEGER, y INTEGER)")
                cur.execute(f"INSERT INTO {t} SELECT range % {7 + k}, range FROM range({50 * (k + 1)})")
            for k in (3, 4):
                tabs = NAMES[:k]
                q = base_query(tabs)
                for shape in js.all_shapes(k):
                    t = named(shape)
                    if any(not connected(x, tabs) for x in intermediates(t)):
                        continue
                    for op in (J.HashJoin, J.NestedLoopJoin):
                        d = {"order": t, "joins": {x: op for x in intermediates(t)}}
                        acc.step()
                        h = db.hinting().generate_hints(q, **build(d))
                        plan = db.optimizer().query_plan(h)
                        got = sorted(sorted(y.identifier() for y in nd.tables()) for nd in joins_of(plan))
                        want = sorted(sorted(x) for x in intermediates(t))
                        acc.case(f"duckdb {show(d)}", str(got == want))
                        if got != want:
                            acc.violate("DuckDB does not follow the join order", f"{show(d)}: {got}")
            for settings, sql in (({"threads": 2}, "threads"), ({"threads": 3, "memory_limit": "512MB"}, "threads"), ({"enable_object_cache": True}, "enable_object_cache")):
                for d in ({"settings": settings}, {"settings": settings, "order": (("r", "s"), "t")}):
                    h = db.hinting().generate_hints(base_query(["r", "s", "t"]), **build(d))
                    acc.step()
                    try:
                        db.execute_query(h, raw=True, cache_enabled=False)
                        cur.execute(f"SELECT current_setting('{sql}')")
                        got = cur.fetchone()[0]
                        acc.case(f"settings {settings}", str(got))
                        if str(got) != str(settings[sql]):
                            acc.violate("DuckDB setting is not applied", f"{settings}: {got}")
                    except Exception as e:
                        acc.violate("DuckDB setting cannot be applied", f"{settings}: {short(e)}")
        finally:
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            os.rmdir(tmp)

    c.part("DuckDB follows the hints", conformance, parallel=False)


    # --- what the system receives when a query with hints is executed or explained
    def received(acc, i, n):
        decisions = [{}, {"order": (("r", "s"), "t")}, {"order": ("t", ("s", "r"))}, {"scans": {"r": S.SequentialScan}, "joins": {fs("rs"): J.HashJoin}}, {"global": {J.HashJoin: False}}, {"settings": {"n": 3}},
                     {"settings": {"n": 3, "m": "a b"}, "global": {J.HashJoin: True}}, {"order": (("r", "s"), "t"), "scans": {"t": S.IndexScan}, "settings": {"n": 3}}, {"cards": {fs("rs"): 5}, "settings": {"m": "x"}}]
        sqls = [f"{ex}{base_query(['r', 's', 't'])}" for ex in ("", "EXPLAIN (FORMAT JSON) ", "EXPLAIN (ANALYZE, FORMAT JSON) ")] + ["SELECT count(*) FROM r, s, t WHERE r.x = s.x AND s.x = t.x AND r.y = 'it''s' ORDER BY count(*) LIMIT 3"]
        for b, sql, (name, call, explain) in sliced([(b, sql, e) for b in BACKENDS for sql in sqls for e in entries(b)], i, n):
            for d in decisions:
                receive(acc, b, sql, name, call, explain, d)

    c.part("what the system receives", received)

    # --- switching operators
    def switches(acc, i, n):
        if i:
            return
        for op, value in itertools.product([*S, *J, *I], (True, False)):
            with warnings.catch_warnings(), contextlib.chdir(SCRATCH), mute_atexit():
                warnings.simplefilter("ignore")
                db, con = interface("pg_hint_plan")
                del con.log[:]
                acc.step()
                try:
                    db.optimizer().configure_operator(op, enabled=value)
                    got = read_prep("pg_hint_plan", "\n".join(x.rstrip(";") + ";" for x in con.log))
                except ValueError:
                    got = "refused"
                except Exception as e:
                    acc.violate(f"operator cannot be switched {type(e).__name__}", f"{op}: {short(e)}")
                    continue
            acc.case((op.name, value), str(got)[:20])
            want = SETTINGS.get(op)
            if got != "refused" if want is None else (got == "refused" or [x[:2] for x in got] != [("set", want)] or got[0][2].lower() not in (ON if value else OFF)):
                acc.violate("switching an operator", f"{op} {value}: {got}")

    c.part("switching operators", switches, parallel=False)


class Received:
    """a connection that records the statements and answers with the result of the statement that the client would look at"""

    PLAN = {"pg": ([{"Plan": {"Node Type": "Seq Scan", "Relation Name": "r", "Alias": "r", "Plan Rows": 7, "Total Cost": 9.5, "Startup Cost": 0.0, "Plan Width": 4, "Actual Rows": 7, "Actual Loops": 1, "Actual Total Time": 1.0, "Actual Startup Time": 0.1}}],),
            "duckdb": ("physical_plan", json.dumps([{"name": "SEQ_SCAN", "children": [], "extra_info": {"Table": "r", "Estimated Cardinality": "7"}}])),
            "mysql": (json.dumps({"query_block": {"select_id": 1, "cost_info": {"query_cost": "9.5"}, "table": {"table_name": "r", "access_type": "ALL", "rows_examined_per_scan": 7, "rows_produced_per_join": 7, "cost_info": {"read_cost": "1.0", "eval_cost": "8.5", "prefix_cost": "9.5"}}}}),)}

    def __init__(self, backend):
        self.backend, self.log, self.rows, self.batches = backend, [], None, []
        self.autocommit, self.prepare_threshold = False, None
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)
        self.info = types.SimpleNamespace(backend_pid=4711)

    connection = None

    def cursor(self, *a, **k):
        return self

    def execute(self, text, *a, **k):
        text = str(text)
        stmts = [x for x in re.split(r";\s*\n", text.strip()) if x.strip(" ;\n")]
        results = []
        self.batches.append(stmts)
        for s in stmts:
            head = s.strip().upper()
            if head.startswith("SHOW"):
                results.append([("12" if "GEQO" in head else "on",)])
            elif m := re.search(r"VERSION\(\)|PG_BACKEND_PID|SQL_MODE|(CURRENT_)?DATABASE\(\)|DATABASE_NAME", head):
                results.append([(("8.0.36" if self.backend == "mysql" else "PostgreSQL 16.3 on x86_64") if "VERSION" in m[0] else 4711 if "PID" in m[0] else "d" if "DATABASE" in m[0] else "",)])
            else:
                self.log.append(s.strip())
                plan = "EXPLAIN" in head.split("SELECT")[0]
                results.append(None if head.startswith("SET") else [self.PLAN[self.backend[:2] if self.backend[0] == "p" else self.backend]] if plan else [(1,), (2,)])
        self.rows = results[-1 if self.backend == "duckdb" else 0]  # which result of several statements is shown first
        return self

    @property
    def rowcount(self):
        return -1 if self.rows is None else len(self.rows)

    def fetchall(self):
        if self.rows is None:
            if self.backend == "duckdb":
                return []
            raise RuntimeError("the last operation did not produce a result")
        return list(self.rows)

    def fetchone(self):
        return self.fetchall()[0]

    def close(self, *a):
        pass

    def interrupt(self):
        pass

    cancel = rollback = cmd_reset_connection = commit = close


def entries(b):
    """ways to have a query executed or explained: name, call, whether the plan is requested"""
    out = [("execute", lambda db, q, h, d: db.execute_query(h, cache_enabled=False), ""), ("execute raw", lambda db, q, h, d: db.execute_query(h, cache_enabled=False, raw=True), ""), ("execute, cached", lambda db, q, h, d: db.execute_query(h, cache_enabled=True), ""),
           ("query plan", lambda db, q, h, d: db.optimizer().query_plan(h), "plan"), ("cardinality estimate", lambda db, q, h, d: db.optimizer().cardinality_estimate(h), "plan")]
    if b != "duckdb":
        out += [("cost estimate", lambda db, q, h, d: db.optimizer().cost_estimate(h), "plan")]
    if b != "mysql":
        out += [("analyze plan", lambda db, q, h, d: db.optimizer().analyze_plan(h), "analyze"), ("time", lambda db, q, h, d: db.time_query(h), "")]
    if b.startswith("pg"):
        out += [("execute with decisions", lambda db, q, h, d: db.execute_query(q, cache_enabled=False, **build(d)), "")]
    out += [(f"{name} of a text", lambda db, q, h, d, f=f: f(db, as_text(db, h)), "plan") for name, f in [("query plan", lambda db, x: db.optimizer().query_plan(x)), ("cardinality estimate", lambda db, x: db.optimizer().cardinality_estimate(x))]
            + ([("cost estimate", lambda db, x: db.optimizer().cost_estimate(x))] if b != "duckdb" else [])]
    out += [("execute a text", lambda db, q, h, d: db.execute_query(as_text(db, h), cache_enabled=False), "")]
    if b == "duckdb":
        out += [("execute with timeout", lambda db, q, h, d: db.execute_query(h, cache_enabled=False, timeout=900), ""), ("analyze with timeout", lambda db, q, h, d: db.optimizer().analyze_plan(h, timeout=900), "analyze"),
                ("worker", lambda db, q, h, d: db.execute_with_timeout(h, timeout=900), "")]
    return out


def as_text(db, h):
    return db.hinting().format_query(transform.drop_hints(h, preparatory_statements_only=True))


def interface(b):
    con = Received(b)
    saved = (postgres.psycopg.connect, mysql.mysql.connector.connect, duckdb.quacklab.connect)
    postgres.psycopg.connect = mysql.mysql.connector.connect = duckdb.quacklab.connect = lambda *a, **k: con
    try:
        if b.startswith("pg"):
            db = postgres.PostgresInterface("dbname=x")
            db.hinting().backend = b
        elif b == "mysql":
            db = mysql.MysqlInterface(mysql.MysqlConnectionArguments("u", "d"), cache_enabled=False)
        else:
            db = duckdb.DuckDBInterface("x.db")
    finally:
        postgres.psycopg.connect, mysql.mysql.connector.connect, duckdb.quacklab.connect = saved
    return db, con


def receive(acc, b, sql, name, call, explain, d):
    q = pb.parse_query(sql)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.chdir(SCRATCH), mute_atexit():
            db, con = interface(b)
            try:
                h = db.hinting().generate_hints(q, **build(d))
            except Exception:
                return  # not supported: judged elsewhere
            if not d and "decisions" in name:
                return
            if "text" in name and (h.explain or h.hints and h.hints.preparatory_statements):
                return
            want_facts = read_hints(b, h.hints.query_hints if h.hints else "")
            want_prep = read_prep(b, h.hints.preparatory_statements if h.hints else "")
            del con.log[:], con.batches[:]
            acc.step()
            key = (b, sql, name, show(d))
            try:
                call(db, q, h, d)
            except Exception as e:
                acc.violate(f"{name} {b} fails {type(e).__name__} {bool(want_prep)}", f"{sql} {show(d)}: {short(e)}")
                return
            finally:
                if b == "duckdb":
                    db._timeout_executor.shutdown()
    acc.case(key, f"{b} {name}")
    # every call is a transaction of its own: SET LOCAL only has an effect on the statements of the same call
    if con.autocommit and not any(x.strip().upper().startswith(("BEGIN", "START")) for s in con.batches for x in s) and any(x.strip().upper().startswith("SET LOCAL") and not any("SELECT" in y.upper() for y in s) for s in con.batches for x in s):
        acc.violate(f"{name} {b}: settings are local to a transaction that ends before the query", f"{sql} {show(d)}: {con.log}")
    log = con.log
    if not log or [x for x in log[:-1] if not x.upper().startswith("SET ")] or log[-1].upper().startswith("SET "):
        acc.violate(f"{name} {b}: not the settings followed by the query", f"{sql} {show(d)}: {log}")
        return
    try:
        got_prep = read_prep(b, "\n".join(x.rstrip(";") + ";" for x in log[:-1]))
        facts = read_hints(b, "\n".join(re.findall(r"/\*.*?\*/", log[-1], flags=re.S)))
    except ValueError as e:
        acc.violate(f"{name} {b}: unreadable", f"{sql} {show(d)}: {e}")
        return
    if got_prep != want_prep:
        acc.violate(f"{name} {b}: settings", f"{sql} {show(d)}: {log}")
    if facts != want_facts:
        acc.violate(f"{name} {b}: hints", f"{sql} {show(d)}: {log[-1]}")
    if facts and (not re.search(r"SELECT\s*$", log[-1][: log[-1].find("/*")], flags=re.I) if b == "mysql" else not re.fullmatch(r"[\w\s,()]*", log[-1][: log[-1].find("/*")])):
        acc.violate(f"{name} {b}: hint block is not where the system looks for it", f"{sql} {show(d)}: {log[-1]}")
    head = log[-1].upper().split("SELECT")[0]
    kind = "plan" if explain == "plan" else "analyze" if explain or "ANALYZE" in sql else "plan" if sql.startswith("EXPLAIN") else ""
    if ("EXPLAIN" in head, "ANALYZE" in head, "JSON" in head) != (bool(kind), kind == "analyze", bool(kind)):
        acc.violate(f"{name} {b}: EXPLAIN", f"{sql} {show(d)}: {log[-1]}")
    if b == "mysql":
        inner = re.sub(r"^EXPLAIN.*?(?=SELECT|WITH)", "", log[-1], flags=re.S)
        same = mysql_ast(inner) == pgast.norm(pgast.raw(sql[sql.find("SELECT"):]))
    else:
        same = split_explain(log[-1])[1] == split_explain(sql)[1]
    if not same:
        acc.violate(f"{name} {b}: the query is another one", f"{sql} {show(d)}: {log[-1]}")


SCRATCH = tempfile.gettempdir()


@contextlib.contextmanager
def mute_atexit():
    saved, atexit.register = atexit.register, lambda f, *a, **k: f
    try:
        yield
    finally:
        atexit.register = saved


def joins_of(plan):
    out = [nd for ch in plan.children for nd in joins_of(ch)]
    return out + ([plan] if len(plan.children) == 2 else [])


def connected(x, tabs):
    idx = sorted(tabs.index(t) for t in x)
    return idx == list(range(idx[0], idx[0] + len(idx)))


def split_explain(sql):
    raw = pgast.raw(sql)
    st = raw[0]["stmt"]
    if "ExplainStmt" not in st:
        return None, pgast.norm(st)
    opts = {}
    for o in st["ExplainStmt"].get("options", []):
        de = o["DefElem"]
        arg = de.get("arg")
        opts[de["defname"].lower()] = "on" if arg is None else json.dumps(arg).lower()
    fmt = opts.get("format", json.dumps({"String": {"sval": "text"}}).lower())
    return {"analyze": "analyze" in opts, "format": fmt}, pgast.norm(st["ExplainStmt"]["query"])


def mysql_ast(text):
    """reads a query in the MySQL dialect: double quoted strings"""
    out, i = [], 0
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    while i < len(text):
        ch = text[i]
        if ch in "\"'":
            j, val = i + 1, []
            while True:
                if text[j] == "\\":
                    val.append(text[j + 1])
                    j += 2
                elif text[j] == ch and text[j + 1 : j + 2] == ch:
                    val.append(ch)
                    j += 2
                elif text[j] == ch:
                    break
                else:
                    val.append(text[j])
                    j += 1
            out.append("'" + "".join(val).replace("'", "''") + "'")
            i = j + 1
        else:
            out.append(ch)
            i += 1
    return pgast.norm(pgast.raw("".join(out)))


Check(
    "P11",
    "exhaustive-bounded",
    "every join tree over at most 4 tables (5 thorough), every operator/worker assignment of a join of two tables, joins, intermediate operators and global settings over three tables, plan parameters, decorated plans over at most 4 tables and query forms, for pg_hint_plan, pg_lab, DuckDB and MySQL; the hint text is read back by an independent reader and compared with the decisions; DuckDB follows the hints",
    ["the pg_hint_plan, pg_lab and MySQL dialects are represented by the reader of this check (no such server is available); DuckDB (quacklab) itself reads its hints"],
).main(run)
