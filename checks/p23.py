"""P23: training data keeps its samples; lock-step exploration of all operation sequences against lists of dictionaries."""
import copy
import itertools
import json
import os
import shutil
import tempfile
import warnings
from pathlib import Path

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import pandas as pd  # noqa: E402

import postbound as pb  # noqa: E402
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec  # noqa: E402

Q = ["SELECT * FROM r", "SELECT * FROM s WHERE s.a = 1", "SELECT count(*) FROM t"]


def parse(q):
    return pb.parse_query(q, bind_columns=False)


# name -> (columns of the raw data, feature -> column)
RAW = {
    "A": ({"query": Q[:2], "cardinality": [10, 20], "runtime_ms": [1.5, 2.5]}, None),
    "B": ({"card": [30, 40], "sql": Q[1:], "extra": ["x", "y"]}, {"query": "sql", "cardinality": "card"}),
    "C": ({"runtime_ms": [9.5], "cardinality": [50], "query": [Q[0]]}, None),
    "D": ({"cardinality": [], "query": []}, None),
    "E": ({"c": [60, 61, 62], "query": [7, 8, 9], "sql": Q}, {"cardinality": "c", "query": "sql", "rows": "c"}),
    "F": ({"cardinality": ["w", "v"], "runtime_ms": [1, 2], "query": [Q[2], Q[2]]}, {"cardinality": "runtime_ms", "runtime_ms": "cardinality", "query": "query"}),
}
SPECS = [("query",), ("cardinality", "query"), ("query", "cardinality"), ("runtime_ms", "query"), ("cardinality", "runtime_ms", "query"), ("rows",), ("nope",)]


def build(name):
    raw, fmap = copy.deepcopy(RAW[name])
    if fmap is None:
        df = pd.DataFrame(raw)
        before = df.copy(deep=True)
        ds = TrainingData.from_df(df, source=f"{name}.csv")
        assert list(df.columns) == list(before.columns)
        touched = not df.equals(before)
        ref = Ref(list(raw), [dict(zip(raw, r)) for r in zip(*raw.values())], ordered=True)
        for s in ref.samples:
            s["query"] = parse(s["query"])
        return ds, ref, touched
    for col in ("sql", "query"):
        if col in raw and fmap.get("query") == col:
            raw[col] = [parse(q) for q in raw[col]]
    df = pd.DataFrame(raw)
    if name == "E":
        df.index = [5, 5, 1]
    ds = TrainingData(df, source=Path(name), feature_map=dict(fmap))
    n = len(df)
    return ds, Ref(list(fmap), [{f: raw[c][i] for f, c in fmap.items()} for i in range(n)], ordered=True), False


class Ref:
    def __init__(self, features, samples, ordered):
        self.features, self.samples, self.ordered = features, samples, ordered

    def satisfies(self, spec):
        return set(spec) <= set(self.features)

    def conform(self, spec):
        return Ref(list(spec), [{f: s[f] for f in spec} for s in self.samples], True)


def check(acc, name, ds, ref):
    """all observations of a dataset"""
    def bad(what, msg):
        acc.violate(f"{name}: {what}", f"{name}: {what}: {msg}")

    acc.step()
    try:
        if len(ds) != len(ref.samples):
            bad("length", f"{len(ds)} instead of {len(ref.samples)}")
        if list(ds.spec.features) != ref.features:
            bad("features", f"{list(ds.spec.features)} instead of {ref.features}")
        for spec in SPECS:
            ok = ref.satisfies(spec)
            v = ds.satisfies(TrainingSpec(spec))
            if bool(v) != ok or v.contains_violations() == ok or set(v.missing_features) != set(spec) - set(ref.features):
                bad("satisfies", f"{spec} -> {v}")
            if not ok:
                try:
                    ds.as_df(TrainingSpec(spec))
                    bad("as_df", f"features {spec} are not available but no error is raised")
                except ValueError:
                    pass
                continue
            df = ds.as_df(TrainingSpec(spec))
            rows = [dict(zip(spec, r)) for r in df.itertuples(index=False, name=None)]
            if list(df.columns) != list(spec) or rows != [{f: s[f] for f in spec} for s in ref.samples]:
                bad("as_df", f"{spec}: columns {list(df.columns)}, samples {short(rows)} instead of {short(ref.conform(spec).samples)}")
            if not len(set(df.columns)) < len(df.columns) and len(df):
                df.iloc[0, 0] = None  # belongs to the caller
        df = ds.as_df()
        # a frame of all columns can name a column only once
        for f in ref.features if len(set(ds.feature_map.values())) == len(ref.features) else ():
            if f not in df.columns:
                bad("as_df()", f"feature {f} is missing among {list(df.columns)}")
            elif list(df.columns).count(f) == 1 and list(df[f]) != [s[f] for s in ref.samples]:
                bad("as_df()", f"feature {f} has the values {short(list(df[f]))}")
        for i, s in enumerate(ref.samples):
            got = list(ds[i])
            if got != [s[f] for f in ref.features]:
                bad("[]", f"{i}: {short(got)} instead of {short([s[f] for f in ref.features])}")
        try:
            ds[len(ref.samples)]
            bad("[]", "no IndexError behind the last sample")
        except IndexError:
            pass
        got = [list(x) if not isinstance(x, str) else x for x in ds]
        if got != [[s[f] for f in ref.features] for s in ref.samples]:
            bad("iteration", short(got))
        if not all(ds.provides(f) for f in ref.features) or ds.provides("nope") or not isinstance(str(ds), str):
            bad("provides", "")
    except Exception as e:
        bad("failure", short(e))


def apply(op, pool):
    """-> (dataset or None, reference or None); raises if the implementation does"""
    kind = op[0]
    if kind == "conform":
        ds, ref = pool[op[1]]
        want = ref.conform(op[2]) if ref.satisfies(op[2]) else None
        return (lambda: ds.conform_to(op[2] if len(op[2]) % 2 else TrainingSpec(op[2]))), want
    if kind == "merge_with":
        (a, ra), (b, rb) = pool[op[1]], pool[op[2]]
        want = Ref(ra.features, ra.samples + rb.conform(ra.features).samples, True) if rb.satisfies(ra.features) else None
        return (lambda: a.merge_with(b)), want
    if kind == "merge":
        parts = [pool[k] for k in op[1]]
        ok = all(r.satisfies(op[2]) for _, r in parts)
        want = Ref(list(op[2]), [s for _, r in parts for s in r.conform(op[2]).samples], True) if ok else None
        return (lambda: TrainingData.merge([d for d, _ in parts], according_to=TrainingSpec(op[2]))), want
    repo = TrainingDataRepository()
    for k in op[1]:
        repo.register(pool[k][0])
    fit = [pool[k] for k in op[1] if pool[k][1].satisfies(op[2])]
    if kind == "first":
        return (lambda: repo.retrieve_first(TrainingSpec(op[2]))), (fit[0][1].conform(op[2]) if fit else "none")
    if kind == "merged":
        want = Ref(list(op[2]), [s for _, r in fit for s in r.conform(op[2]).samples], True) if fit else "none"
        return (lambda: repo.retrieve_merged(TrainingSpec(op[2]))), want
    raise AssertionError(kind)


def ops(keys, thorough):
    for k in keys:
        for s in SPECS:
            yield "conform", k, s
        for k2 in keys:
            yield "merge_with", k, k2
    for n in (1, 2, 3) if thorough else (1, 2):
        for ks in itertools.permutations(keys, n):
            for s in SPECS[1:5] if n > 1 else SPECS:
                yield "merge", ks, s
                yield "merged", ks, s
                if n > 1 or thorough:
                    yield "first", ks, s


def histories(c):
    base = list(RAW)

    def fn(acc, i, n):
        depth1 = list(ops(base, c.thorough))
        for first in sliced(depth1, i, n):
            pool = {}
            for b in base:
                ds, ref, touched = build(b)
                pool[b] = (ds, ref)
                if touched:
                    acc.violate(f"{b} is modified", f"creating a dataset modifies the data frame of the caller ({b})")
            for h in ([first],):
                ok = step(acc, pool, first, str(first))
            if not ok:
                continue
            pool["new"] = ok
            for second in ops(["new", *base[:5 if c.thorough else 3]], False):
                if "new" not in str(second):
                    continue
                step(acc, pool, second, f"{first} ; {second}")
            for b in base:
                check(acc, f"{first}: afterwards {b}", *pool[b])
    return fn


def step(acc, pool, op, name):
    call, want = apply(op, pool)
    try:
        got = call()
    except Exception as e:
        acc.case(name, "error")
        if want is not None or not isinstance(e, ValueError):
            acc.violate(name, f"{name}: fails with {short(e)}")
        return None
    acc.case(name, "none" if got is None else "ok")
    if want is None:
        acc.violate(name, f"{name}: features are missing, but no error is raised")
        return None
    if want == "none" or got is None:
        if want != "none" or got is not None:
            acc.violate(name, f"{name}: {got}")
        return None
    check(acc, name, got, want)
    return got, want


def all_datasets(acc, i, n):
    """retrieve_all, in all orders of registration"""
    for ks in sliced(itertools.chain.from_iterable(itertools.permutations(RAW, k) for k in range(4)), i, n):
        pool = {b: build(b) for b in ks}
        for spec in SPECS:
            repo = TrainingDataRepository()
            for k in ks:
                if repo.register(pool[k][0]) is not repo:
                    acc.violate("register", "does not return the repository")
            got = list(repo.retrieve_all(TrainingSpec(spec)))
            want = [k for k in ks if pool[k][1].satisfies(spec)]
            acc.case((ks, spec), str(len(want)))
            if len(got) != len(want):
                acc.violate(f"retrieve_all {ks} {spec}", f"{len(got)} datasets instead of {want}")
                continue
            for g, k in zip(got, want):
                df = g.as_df(TrainingSpec(spec))
                rows = [dict(zip(spec, r)) for r in df.itertuples(index=False, name=None)]
                if rows != pool[k][1].conform(spec).samples:
                    acc.violate(f"retrieve_all {ks} {spec}", f"{short(rows)} for {k}")


def specs(acc, i, n):
    feats = ["query", "cardinality", "own"]
    lists = [p for k in range(4) for p in itertools.permutations(feats, k)]
    for a in sliced(lists, i, n):
        variants = [TrainingSpec(list(a)), TrainingSpec(set(a)) if len(a) < 2 else TrainingSpec(tuple(a))]
        if a:
            variants.append(TrainingSpec(*a))
            variants.append(TrainingSpec(list(a[:1]), *a[1:]))
        for s in variants:
            acc.step()
            if list(s) != list(a) or list(s.features) != list(a) or set(s.feature_set) != set(a):
                acc.violate(f"spec {a}", f"{list(s)}")
            for f in feats:
                if s.provides(f) != (f in a) or s.requires(f) != (f in a):
                    acc.violate(f"spec {a} provides {f}", "")
        for b in lists:
            s, t = TrainingSpec(a), TrainingSpec(b)
            acc.case((a, b), "")
            v = s.satisfies(t)
            if bool(v) != (set(b) <= set(a)) or set(v.missing_features) != set(b) - set(a) or v.contains_violations() == bool(v):
                acc.violate(f"{a} satisfies {b}", str(v))
            if s.provides(b) != (set(b) <= set(a)) or t.requires(a) != (set(a) <= set(b)):
                acc.violate(f"{a} provides {b}", "")
            if (s == t) != (set(a) == set(b)) or (s == t and hash(s) != hash(t)) or (s != t) == (s == t):
                acc.violate(f"{a} == {b}", "")


def files(acc, i, n):
    tmp = tempfile.mkdtemp()
    try:
        suffixes = [".csv", ".json"]
        for ext, name, cols in sliced([(e, b, p) for e in suffixes for b in ("A", "C") for p in itertools.permutations(RAW[b][0])], i, n):
            raw = RAW[name][0]
            path = os.path.join(tmp, f"x{ext}")
            df = pd.DataFrame({k: raw[k] for k in cols})
            (df.to_csv(path, index=False) if ext == ".csv" else df.to_json(path))
            for p in (path, Path(path)):
                ds = TrainingData.from_df(p, source="other")
                ref = Ref(list(cols), [dict(zip(cols, r)) for r in zip(*(raw[k] for k in cols))], True)
                for s in ref.samples:
                    s["query"] = parse(s["query"])
                acc.case((ext, name, cols, str(type(p))), "")
                check(acc, f"file {ext} {name} {cols}", ds, ref)
                if ds.source != Path(path):
                    acc.violate(f"file {ext} {name} source", str(ds.source))
    finally:
        shutil.rmtree(tmp)


def main(c):
    c.part("operation sequences", histories(c))
    c.part("repositories", all_datasets)
    c.part("specifications", specs)
    c.part("files", files)
    c.finish()


main(Check("P23", "model_checking",
           "every operation sequence over the datasets up to the bound, followed by all observations of all datasets; every registration order; every pair of "
           "specifications; distinct by sequence"))
