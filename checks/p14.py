"""P14: workloads behave like the mapping of labels to queries they were built from."""
import collections
import copy
import csv
import itertools
import os
import pathlib
import re
import shutil
import tempfile
import warnings
import zipfile

SCRATCH = tempfile.mkdtemp(prefix="p14")
os.environ["HOME"] = SCRATCH  # the library keeps downloads in the home directory

import choices
from vlib import Check, short, sliced

import postbound as pb
from postbound import workloads as wl
from postbound.workloads import Workload, generate_workload, read_batch_workload, read_csv_workload, read_workload

SQL = ["SELECT * FROM r WHERE r.a = 1", "SELECT COUNT(*) FROM r, s WHERE r.a = s.b", "SELECT t.c FROM t"]
Q = [pb.parse_query(s, bind_columns=False) for s in SQL]
NAMES = {id(q): k for k, q in enumerate(Q)}


def qid(q):
    for k, x in enumerate(Q):
        if q == x:
            return k
    return str(q)


def natkey(label):
    if isinstance(label, int):
        return (label,)
    parts = re.split(r"(\d+)", label)
    return tuple(int(p) if k % 2 else p for k, p in enumerate(parts))


def natural(labels):
    return sorted(labels, key=natkey)


STR = ["1a", "10a", "2a", "b2"]
INT = [1, 2, 10, 3]


# -- 1. histories of operations -----------------------------------------------------------------------------------------------

class Model:
    """ordered mapping"""

    def __init__(self, content, order=None):
        self.c = dict(content)
        self.order = natural(self.c) if order is None else list(order)


def moves(labels):
    """(name, operation on the workload, operation on the model content, shuffles)"""
    other = {labels[1]: 2, labels[3]: 0}

    def ow():
        return Workload({k: Q[v] for k, v in other.items()})

    def sub(keep):
        return lambda m: {k: v for k, v in m.c.items() if keep(k, v)}

    out = [
        ("first0", lambda w: w.first(0), lambda m: {}),
        ("first2", lambda w: w.first(2), lambda m: {k: m.c[k] for k in m.order[:2]}),
        ("first9", lambda w: w.first(9), lambda m: dict(m.c)),
        ("last0", lambda w: w.last(0), lambda m: {}),
        ("last1", lambda w: w.last(1), lambda m: {k: m.c[k] for k in m.order[-1:]}),
        ("last2", lambda w: w.last(2), lambda m: {k: m.c[k] for k in m.order[-2:]}),
        ("last9", lambda w: w.last(9), lambda m: dict(m.c)),
        ("with_labels", lambda w: w.with_labels([labels[2], labels[0], labels[0]]), sub(lambda k, v: k in (labels[2], labels[0]))),
        ("with_no_labels", lambda w: w.with_labels(iter(())), lambda m: {}),
        ("filter", lambda w: w.filter_by(lambda k, q: k != labels[1] and qid(q) != 2), sub(lambda k, v: k != labels[1] and v != 2)),
        ("map", lambda w: w.map(lambda q, d, e=0: Q[(qid(q) + d + e) % 3], 1, e=0), lambda m: {k: (v + 1) % 3 for k, v in m.c.items()}),
        ("ordered", lambda w: w.ordered(), lambda m: dict(m.c)),
        ("+", lambda w: w + ow(), lambda m: {**other, **m.c}),
        ("r+", lambda w: ow() + w, lambda m: {**m.c, **other}),
        ("|", lambda w: w | ow(), lambda m: {**other, **m.c}),
        ("|dict", lambda w: w | {k: Q[v] for k, v in other.items()}, lambda m: {**other, **m.c}),
        ("-", lambda w: w - ow(), sub(lambda k, v: k not in other)),
        ("-labels", lambda w: w - (x for x in [labels[0]]), sub(lambda k, v: k != labels[0])),
        ("&", lambda w: w & ow(), sub(lambda k, v: k in other)),
        ("&labels", lambda w: w & [labels[0], labels[2]], sub(lambda k, v: k in (labels[0], labels[2]))),
        ("copy", lambda w: w.copy(), lambda m: dict(m.c)),
        ("copy.copy", lambda w: copy.copy(w), lambda m: dict(m.c)),
    ]
    if isinstance(labels[0], str):
        out += [
            ("relabel", lambda w: w.relabel(lambda k, q: "z" + k), lambda m: {"z" + k: v for k, v in m.c.items()}),
            ("with_prefix", lambda w: w.with_prefix("1"), sub(lambda k, v: k.startswith("1"))),
            ("transform", lambda w: w.transform(lambda k, q, d, e: (k + "0", Q[(qid(q) + d + e) % 3]), 1, e=1), lambda m: {k + "0": (v + 2) % 3 for k, v in m.c.items()}),
        ]
    else:
        out += [
            ("relabel", lambda w: w.relabel(lambda k, q: 20 - k), lambda m: {20 - k: v for k, v in m.c.items()}),
            ("transform", lambda w: w.transform(lambda k, q, d, e: (k + 5, Q[(qid(q) + d + e) % 3]), 1, e=1), lambda m: {k + 5: (v + 2) % 3 for k, v in m.c.items()}),
        ]
    return out


def verify(w, m, strict):
    """does the workload show the model's contents? returns a description of the first difference"""
    if not isinstance(w, Workload):
        return f"is a {type(w)}"
    labels = list(w.labels())
    if set(labels) != set(m.c) or len(labels) != len(m.c):
        return f"labels are {labels} instead of {m.order}"
    if strict and labels != m.order:
        return f"labels are in order {labels} instead of {m.order}"
    qs = [qid(q) for q in w.queries()]
    if qs != [m.c[k] for k in labels]:
        return f"queries {qs} do not match the labels {labels}"
    if [(k, qid(q)) for k, q in w.entries()] != list(zip(labels, qs)):
        return "entries do not match labels and queries"
    head = w.head()
    if (head is None) != (not labels) or (labels and (head[0], qid(head[1])) != (labels[0], qs[0])):
        return f"head is {head}"
    if len(w) != len(labels) or bool(w) != bool(labels) or set(w) != set(labels) or {k: qid(q) for k, q in w.items()} != m.c:
        return "mapping interface differs"
    for k in labels:
        if qid(w[k]) != m.c[k] or k not in w or w.get(k) is None:
            return f"lookup of {k} yields {w[k]}"
        if m.c.get(w.label_of(w[k]), -1) != m.c[k]:
            return f"label of query {m.c[k]} is {w.label_of(w[k])}"
    for k, q in enumerate(Q):
        if k not in m.c.values():
            try:
                got = w.label_of(q)
                return f"label of an absent query is {got}"
            except KeyError:
                pass
    try:
        w["no such label"]
        return "lookup of a missing label does not fail"
    except KeyError:
        pass
    if w != {k: Q[v] for k, v in m.c.items()} and dict(w) != {k: Q[v] for k, v in m.c.items()}:
        return "is not equal to its contents"
    str(w)
    return None


def starts(labels):
    out = []
    for r in range(len(labels) + 1):
        for ks in itertools.permutations(labels, r) if r <= 2 else itertools.combinations(reversed(labels), r):
            for qs in itertools.product(range(3), repeat=r) if r <= 2 else [tuple(range(r)), (0,) * r] if r == 3 else [(0, 1, 2, 0)]:
                out.append({k: q % 3 for k, q in zip(ks, qs)})
    return out


def histories(acc, i, n, depth):
    for labels in (STR, INT):
        mv = moves(labels)
        for content, hist in sliced(itertools.product(starts(labels), itertools.product(range(len(mv)), repeat=depth)), i, n):
            src = {k: Q[v] for k, v in content.items()}
            w, m = Workload(src, name="wl"), Model(content)
            err = verify(w, m, True)
            chain = [(w, m, True)]
            names = []
            for k in hist:
                if err:
                    break
                name, op, ref = mv[k]
                names.append(name)
                acc.step()
                try:
                    nw = op(w)
                except Exception as e:  # noqa: BLE001
                    err = f"{name} fails: {short(e)}"
                    break
                m = Model(ref(m))
                w = nw
                err = verify(w, m, True)
                chain.append((w, m, True))
            acc.case(("history", tuple(content.items()), hist), len(m.c), sample=f"{content} {' '.join(names)}")
            if not err:
                for x, y, strict in chain[:-1]:
                    d = verify(x, y, strict)
                    if d:
                        err = f"a source workload was changed: it {d}"
                        break
                if src != {k: Q[v] for k, v in content.items()} or list(src) != list(content):
                    err = "the source dictionary was changed"
            if err:
                acc.violate(f"{content} {' '.join(names)}", f"workload over {content} after {names}: {err}")


def randomized(acc, i, n):
    """all random outcomes of shuffling and picking, followed by order-dependent operations"""
    for labels in (STR, INT):
        for content in sliced([c for c in starts(labels) if len(c) <= 4], i, n):
            w = Workload({k: Q[v] for k, v in content.items()})
            m = Model(content)
            size = len(content)
            reached = set()
            for tr, kind, s in choices.explore(lambda: w.shuffle(), depth=16):
                acc.case(("shuffle", tuple(content.items()), tuple(tr)), size)
                sig = f"shuffle {content}"
                if kind != "ok":
                    acc.violate(sig, f"{kind} {s!r}", tr)
                    continue
                order = list(s.labels())
                reached.add(tuple(order))
                sm = Model(content, order if set(order) == set(content) else None)
                err = verify(s, sm, True) or verify(w, m, True)
                for k in range(size + 2):
                    acc.step()
                    for name, got, want in (("first", s.first(k), order[:k]), ("last", s.last(k), order[max(0, size - k):])):
                        e = verify(got, Model({x: content[x] for x in want}), False)
                        if e is None and list(got.labels()) not in (list(want), natural(want)):
                            e = f"order {got.labels()}"
                        err = err or (e and f"{name}({k}) of the shuffled workload: {e}")
                err = err or verify(s.ordered(), m, True)
                if err:
                    acc.violate(sig, err, tr)
            if size <= 4 and reached != set(itertools.permutations(content)):
                acc.violate(f"shuffle coverage {content}", f"{len(reached)} of all orders can be obtained")
            for k in range(size + 2):
                got = set()
                for tr, kind, s in choices.explore(lambda: w.pick_random(k), depth=16):
                    acc.case(("pick", tuple(content.items()), k, tuple(tr)), k)
                    if kind != "ok":
                        acc.violate(f"pick {k} {content}", f"{kind} {s!r}", tr)
                        continue
                    sel = frozenset(s.labels())
                    got.add(sel)
                    err = None
                    if len(sel) != min(k, size) or not sel <= set(content):
                        err = f"selects {sorted(map(str, sel))}"
                    err = err or verify(s, Model({x: content[x] for x in sel}), True) or verify(w, m, True)
                    if err:
                        acc.violate(f"pick {k} {content}", err, tr)
                if got != {frozenset(x) for x in itertools.combinations(content, min(k, size))}:
                    acc.violate(f"pick coverage {k} {content}", "some selections cannot be obtained")


def invalid(acc, i, n):
    w = Workload({"a": Q[0]})
    for name, f, exc in (("+ dict", lambda: w + {"b": Q[1]}, TypeError), ("- int", lambda: w - 3, TypeError), ("& int", lambda: w & 3, TypeError), ("prefix int", lambda: w.with_prefix(3), ValueError)):
        acc.case(("invalid", name), name)
        try:
            r = f()
            acc.violate(f"invalid {name}", f"yields {r}")
        except exc:
            pass
        except Exception as e:  # noqa: BLE001
            acc.violate(f"invalid {name}", short(e))
    for name, got, want in (("named", str(Workload({"a": Q[0]}, "n")), ("n", "1")), ("root", str(Workload({"a": Q[0]}, "", pathlib.Path("/x/job"))), ("job", "1")), ("plain", str(w), ("1",))):
        acc.case(("str", name), name)
        if not all(x in got for x in want):
            acc.violate(f"str {name}", got)


# -- 2. readers ---------------------------------------------------------------------------------------------------------------

TEXTS = {  # file contents and the query that is expected (None: not a query)
    "q0": (SQL[0], 0), "q1": (SQL[1] + ";\n", 1), "multi": ("SELECT *\r\nFROM r\n\n-- comment\nWHERE r.a = 1\n", 0), "bad": ("SELEKT 1", None), "umlaut": ("SELECT * FROM r WHERE r.a = 'ä'", "ä"), "newline": ("SELECT * FROM r WHERE r.a = 'x\ny'", "nl"),
}


def same_query(q, exp):
    if exp == "ä":
        return q == pb.parse_query("SELECT * FROM r WHERE r.a = 'ä'", bind_columns=False)
    if exp == "nl":
        return "'x\ny'" in str(q)
    return q == Q[exp]


def file_readers(acc, i, n, maxfiles):
    paths = ["a.sql", "b.sql", "c.txt", "s/a.sql", "s/b.sql", "s.1/a.sql", "s/t/a.sql"]
    layouts = [fs for r in range(maxfiles + 1) for fs in itertools.combinations(paths, r)]
    cases = []
    for fs in layouts:
        for cts in itertools.product(TEXTS, repeat=len(fs)) if len(fs) <= 2 else itertools.product(("q0", "bad", "umlaut"), repeat=len(fs)):
            cases.append((fs, cts))
    root = tempfile.mkdtemp(prefix="case", dir=SCRATCH)
    for idx, (fs, cts) in enumerate(cases):
        if idx % n != i:
            continue
        for enc in ("utf-8", "latin-1"):
            d = os.path.join(root, "root")
            os.makedirs(d)
            for f, ct in zip(fs, cts):
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "wb") as fh:
                    fh.write(TEXTS[ct][0].encode(enc))
            for pattern, recurse, on_error, prefix, fn in itertools.product(("*.sql", "*.txt"), (False, True), ("raise", "warn", "ignore"), ("", "p-", "p/"), ("read_workload", "Workload.read")):
                if fn == "Workload.read" and recurse:
                    continue
                if enc == "latin-1" and prefix:
                    continue
                visible = {f: ct for f, ct in zip(fs, cts) if f.endswith(pattern[1:]) and (recurse or "/" not in f)}
                fails = any(TEXTS[ct][1] is None for ct in visible.values())
                acc.case(("files", fs, cts, enc, pattern, recurse, on_error, prefix, fn), (fails, on_error), sample=f"{dict(zip(fs, cts))} {fn}")
                acc.step()
                sig = f"{fn} {dict(zip(fs, cts))} {enc} {pattern} recurse={recurse} on_error={on_error} prefix={prefix!r}"
                try:
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        if fn == "read_workload":
                            w = read_workload(d, "nm", query_file_pattern=pattern, recurse_subdirectories=recurse, query_label_prefix=prefix, file_encoding=enc, bind_columns=False, on_error=on_error)
                        else:
                            w = Workload.read(d, name="nm", query_file_pattern=pattern, label_prefix=prefix, file_encoding=enc, bind_columns=False, on_error=on_error)
                except Exception as e:  # noqa: BLE001
                    if not (fails and on_error == "raise"):
                        acc.violate(sig, f"reading fails: {short(e)}")
                    continue
                if fails and on_error == "raise":
                    acc.violate(sig, "an invalid query is not reported")
                    continue
                if fails and on_error == "warn" and not ws:
                    acc.violate(sig, "no warning about an invalid query")
                good = {f: ct for f, ct in visible.items() if TEXTS[ct][1] is not None}
                # a separator after the prefix is optional for files in the root directory
                got = {}
                for label, q in w.items():
                    cands = [f for f in good if label in {prefix + f[:-4], (prefix.rstrip("/") + "/" if prefix else "") + f[:-4]}]
                    got[label] = cands
                if sorted(x for c in got.values() for x in c) != sorted(good) or any(len(c) != 1 for c in got.values()):
                    acc.violate(sig, f"labels are {list(w.labels())} for the files {sorted(good)}")
                    continue
                for label, (f,) in got.items():
                    if not same_query(w[label], TEXTS[good[f]][1]):
                        acc.violate(sig, f"query {label} is {w[label]}")
            shutil.rmtree(d)
    shutil.rmtree(root)


def batch_readers(acc, i, n, maxlines):
    root = tempfile.mkdtemp(prefix="batch", dir=SCRATCH)
    path = os.path.join(root, "file.name.txt")
    for lines in sliced((x for r in range(maxlines + 1) for x in itertools.product(("0", "1", "2", "", "  ", "bad"), repeat=r)), i, n):
        for last in ("\n", ""):
            with open(path, "w") as f:
                f.write("\n".join(SQL[int(x)] if x.isdigit() else "SELEKT" if x == "bad" else x for x in lines) + (last if lines else ""))
            acc.case(("batch", lines, last), len(lines))
            acc.step()
            want = [int(x) for x in lines if x.isdigit()]
            sig = f"batch {lines}"
            try:
                w = read_batch_workload(path)
            except Exception as e:  # noqa: BLE001
                if "bad" not in lines:
                    acc.violate(sig, f"reading fails: {short(e)}")
                continue
            if "bad" in lines:
                acc.violate(sig, "an invalid line is not reported")
                continue
            # labels are the numbers of the queries, or of the lines that contain them
            a, b = {k + 1: q for k, q in enumerate(want)}, {k + 1: int(x) for k, x in enumerate(lines) if x.isdigit()}
            got = {k: qid(q) for k, q in w.items()}
            if got not in (a, b) or list(w.labels()) != sorted(got):
                acc.violate(sig, f"workload is {got}")
            if "file" not in w.name:
                acc.violate(sig, f"name is {w.name}")
        for labels in (None, "l"):
            rows = [int(x) for x in lines if x.isdigit()]
            if len(rows) != len(lines) or not rows:
                continue
            with open(path, "w", newline="") as f:
                wr = csv.writer(f)
                wr.writerow(["x", "l", "query"])
                for k, q in enumerate(rows):
                    wr.writerow([k, f"q{len(rows) - k}", SQL[q]])
            acc.case(("csv", lines, labels), len(lines))
            w = read_csv_workload(path, label_column=labels, name="nm", pd_args={"encoding": "ascii", "nrows": 100})
            want = {(f"q{len(rows) - k}" if labels else k + 1): q for k, q in enumerate(rows)}
            got = {k: qid(q) for k, q in w.items()}
            if got != want or w.name != "nm" or list(w.labels()) != natural(want):
                acc.violate(f"csv {lines} {labels}", f"workload is {got} instead of {want}")
        if "bad" not in lines and "" not in lines and "  " not in lines:
            seq = [Q[int(x)] for x in lines]
            for mk, name in ((lambda: generate_workload(iter(seq)), "generate"), (lambda: wl.wrap_workload(iter(seq)), "wrap")):
                acc.case((name, lines), len(lines))
                got = {k: qid(q) for k, q in mk().items()}
                if got != {k + 1: int(x) for k, x in enumerate(lines)}:
                    acc.violate(f"{name} {lines}", f"workload is {got}")
            if len(set(lines)) == len(lines) and lines:
                labels = {q: f"x{k}" for k, q in enumerate(seq)}
                acc.case(("generate labels", lines), len(lines))
                w = generate_workload(seq, labels=labels, name="n", workload_root="/tmp/zz")
                if {k: qid(q) for k, q in w.items()} != {f"x{k}": int(x) for k, x in enumerate(lines)} or w.name != "n":
                    acc.violate(f"generate labels {lines}", f"workload is {dict(w)}")
                if generate_workload(seq, workload_root="/tmp/zz").name != "zz":
                    acc.violate(f"generate name {lines}", "name is not inferred from the root")
    shutil.rmtree(root)


# -- 3. fetching predefined workloads -----------------------------------------------------------------------------------------

class Fault(Exception):
    pass


PREDEFINED = {"job": ("job", lambda: wl.job()), "job-light": ("job-light", lambda: wl.job(flavor="light")), "job-complex": ("job-complex", lambda: wl.job(flavor="complex")),
              "stats": ("stats", lambda: wl.stats()), "stack": ("stack", lambda: wl.stack(bind_columns=False))}


def fetching(acc, i, n):
    """predefined workloads are downloaded once; an interruption at any step must not lead to incomplete workloads later on"""
    import urllib.request

    files = {"1a.sql": 0, "1b.sql": 1, "2a.sql": 2}
    saved = (urllib.request.urlretrieve, wl.pbdir, shutil.move, zipfile.ZipFile.extractall, pathlib.Path.rmdir, pathlib.Path.unlink)
    for name, access in sliced([(k, a) for k in PREDEFINED for a in ("direct", "fetch_workload")], i, n):
        folder, direct = PREDEFINED[name]
        get = direct if access == "direct" else lambda: wl.fetch_workload(name)
        step = 0
        while True:  # the step-th effect on the file system fails
            home = tempfile.mkdtemp(prefix="home", dir=SCRATCH)
            wl.pbdir = pathlib.Path(home)
            state = {"n": 0, "downloads": 0, "at": step}

            def tick():
                state["n"] += 1
                if state["n"] == state["at"]:
                    raise Fault()

            def urlretrieve(url, filename=None, *a, **k):
                state["downloads"] += 1
                tick()
                with zipfile.ZipFile(filename, "w") as z:
                    for f, q in files.items():
                        z.writestr(f"{folder}/{f}", SQL[q])
                tick()
                return filename, None

            def extractall(self, path=None, *a, **k):
                for info in self.infolist():
                    tick()
                    self.extract(info, path)
                tick()

            def wrapped(fn):
                def f(*a, **k):
                    tick()
                    return fn(*a, **k)

                return f

            urllib.request.urlretrieve = urlretrieve
            shutil.move = wrapped(saved[2])
            zipfile.ZipFile.extractall = extractall
            pathlib.Path.rmdir = wrapped(saved[4])
            try:
                outcomes = []
                for attempt in range(3):
                    if attempt == 1:
                        state["at"] = -1
                    try:
                        w = get()
                        outcomes.append({str(k).split("/")[-1]: qid(q) for k, q in w.items()})
                    except Fault:
                        outcomes.append("interrupted")
                    except Exception as e:  # noqa: BLE001
                        outcomes.append(short(e))
            finally:
                urllib.request.urlretrieve, wl.pbdir, shutil.move, zipfile.ZipFile.extractall, pathlib.Path.rmdir, pathlib.Path.unlink = saved
                shutil.rmtree(home)
            want = {f[:-4]: q for f, q in files.items()}
            acc.case(("fetch", name, access, step), outcomes[0] == "interrupted")
            acc.step(state["n"])
            if outcomes[0] not in ("interrupted", want) or any(o != want for o in outcomes[1:]):
                acc.violate(f"fetch {name} interrupted at step {step}", f"outcomes of three attempts, the first of which is interrupted at step {step}: {outcomes}")
            if step == 0 and state["downloads"] != 1:
                acc.violate(f"fetch {name} downloads", f"{state['downloads']} downloads for three uses")
            if step and outcomes[0] == want:
                break
            step += 1
    if i == 0:
        acc.case(("fetch", "unknown"), "unknown")
        try:
            wl.fetch_workload("no such workload")
            acc.violate("fetch unknown", "an unknown workload is provided")
        except ValueError:
            pass


def run(c: Check):
    t = c.thorough
    try:
        c.part("histories", lambda acc, i, n: histories(acc, i, n, 3 if t else 2))
        c.part("randomized", randomized)
        c.part("invalid", invalid, parallel=False)
        c.part("files", lambda acc, i, n: file_readers(acc, i, n, 3 if t else 2))
        c.part("batch-csv", lambda acc, i, n: batch_readers(acc, i, n, 5 if t else 4))
        c.part("fetching", fetching)
    finally:
        shutil.rmtree(SCRATCH)
    c.finish()


run(Check("P14", "model_checking",
          "every sequence of workload operations up to the stated length from every small workload (string and integer labels, repeated queries), every random outcome of shuffling and picking, "
          "every small directory layout, batch and CSV file under every reader setting, and every interruption of a download, against a reference model; distinct by input and history"))
