"""P34: external commands, data frames on disk and log output (explicit exploration of calls and of histories of calls on the real code)."""
import contextlib
import copy
import io
import itertools
import json
import os
import pathlib
import pickle
import pprint
import shutil
import subprocess
import sys
import tempfile
import warnings

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
import pandas as pd  # noqa: E402
import postbound as pb  # noqa: E402
from postbound import util  # noqa: E402
from postbound.util.proc import ProcResult, run_cmd  # noqa: E402

# prints its working directory, its arguments and some text for stderr; ends with the given exit code
PROG = """#!/bin/sh
code=$1; err=$2; shift 2
echo "dir=$PWD"
for a in "$@"; do printf '<%s>\\n' "$a"; done
printf '%s' "$err" >&2
exit $code
"""


class Scratch:
    """a scratch directory with the test program; the process works inside of it"""

    def __enter__(self):
        self.before = os.getcwd()
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="p34-"))
        for d in ("start", "start/below", "other", "with blank"):
            os.makedirs(os.path.join(self.dir, d))
        self.prog = os.path.join(self.dir, "prog.sh")
        with open(self.prog, "w") as f:
            f.write(PROG)
        os.chmod(self.prog, 0o755)
        self.plain = os.path.join(self.dir, "plain.txt")
        with open(self.plain, "w") as f:
            f.write("no program")
        self.start = os.path.join(self.dir, "start")
        os.chdir(self.start)
        return self

    def __exit__(self, *_):
        os.chdir(self.before)
        shutil.rmtree(self.dir, ignore_errors=True)


ARGS = ["x", "", "two words", "it's", '"q"', "$HOME", "*", "a\\nb", "-n", "ü", 1, 2.5, True, None, pathlib.Path("p/q")]
DIRS = ["none", "absolute", "path", "relative", "up", "dot", "blank"]


def work_dir(s, kind):
    match kind:
        case "none":
            return None, s.start
        case "absolute":
            return os.path.join(s.dir, "other"), os.path.join(s.dir, "other")
        case "path":
            return pathlib.Path(s.dir) / "other", os.path.join(s.dir, "other")
        case "relative":
            return "below", os.path.join(s.start, "below")
        case "up":
            return pathlib.Path("../other"), os.path.join(s.dir, "other")
        case "dot":
            return ".", s.start
        case "blank":
            return os.path.join(s.dir, "with blank"), os.path.join(s.dir, "with blank")


def forms(prog, args):
    """every way to pass the same program and arguments"""
    half = len(args) // 2
    yield "text and arguments", prog, args
    yield "list", [prog, *args], ()
    yield "tuple", (prog, *args), ()
    yield "list and arguments", [prog, *args[:half]], args[half:]
    yield "tuple and arguments", (prog, *args[:half]), args[half:]
    yield "path in list", [pathlib.Path(prog), *args], ()
    yield "generator", (x for x in [prog, *args]), ()
    yield "keys", dict.fromkeys([prog, *map(str, args)]) if len({prog, *map(str, args)}) == len(args) + 1 else [prog, *args], ()


def check_result(acc, key, res, out, err, code):
    bad = []
    if type(res) is not ProcResult:
        bad.append(f"result is a {type(res).__name__}")
    else:
        if (res.out_data, str(res), res == out, len(res)) != (out, out, True, len(out)):
            bad.append(f"stdout is {res.out_data!r} / {str(res)!r} instead of {out!r}")
        if res.err_data != err:
            bad.append(f"stderr is {res.err_data!r} instead of {err!r}")
        if res.exit_code != code or bool(res) != (code == 0):
            bad.append(f"exit code is {res.exit_code} (as bool: {bool(res)}) instead of {code}")
        if res.splitlines() != out.splitlines():
            bad.append("the result cannot be used like stdout")
        for name, dup in (("copy", copy.copy), ("deep copy", copy.deepcopy), ("pickled", lambda x: pickle.loads(pickle.dumps(x)))):
            try:
                x = dup(res)
                if (type(x), str(x), x.out_data, x.err_data, x.exit_code) != (ProcResult, out, out, err, code):
                    bad.append(f"{name} is {x!r}")
            except TypeError as e:
                bad.append(f"{name} is impossible: {e}")
        try:
            res.raise_if_error()
            raised = None
        except RuntimeError as e:
            raised = str(e)
        if (raised is not None) != (code != 0) or (raised is not None and (str(code) not in raised or err not in raised)):
            bad.append(f"raise_if_error: {raised!r} for exit code {code}")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            res.echo()
        text = buf.getvalue()
        if "stderr:" not in text or out not in text.split("stderr:")[0] or (err and err not in text.split("stderr:")[1]):
            bad.append(f"echo prints {text!r}")
    for b in bad:
        acc.violate(f"{key} :: {b.split(' is ')[0]}", b, {"case": key})


def invocations(acc, i, n, thorough):
    with Scratch() as s:
        def cases():
            for k in (0, 1, 2, 3) if thorough else (0, 1, 2):
                for args in itertools.product(ARGS if k < 2 else ARGS[:3] + ARGS[10:13] if k == 2 else ARGS[:3], repeat=k):
                    yield args, "none", 0, ""
            for args in [(), ("x",), ("two words", 1)]:
                for d in DIRS:
                    for code in (0, 1, 3, 255):
                        for err in ("", "problem", "two\\nlines"):
                            yield args, d, code, err
        for args, d, code, err in sliced(cases(), i, n):
            wd, where = work_dir(s, d)
            given = (code, err, *args)
            want = f"dir={where}\n" + "".join(f"<{a}>\n" for a in args)
            for name, cmd, extra in forms(s.prog, given):
                key = f"{name} {given!r} dir={d}"
                acc.step()
                try:
                    res = run_cmd(cmd, *extra, work_dir=wd)
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"run_cmd raises {short(e)}", {"case": key})
                    continue
                finally:
                    if os.getcwd() != s.start:
                        acc.violate(f"{key} :: cwd", f"working directory is {os.getcwd()} afterwards", {"case": key})
                        os.chdir(s.start)
                check_result(acc, key, res, want, err, code)
            acc.case(("cmd", args, d, code, err), "run" if code == 0 else "failed")
        # the text form together with a shell
        for d in DIRS if i == 0 else ():
            wd, where = work_dir(s, d)
            acc.step()
            for text, out, code in (("echo a; pwd", f"a\n{where}\n", 0), ("pwd | tr a-z A-Z; exit 4", where.upper() + "\n", 4), ("echo $P34_VAR", "v\n", 0), ("cat", "typed", 0)):
                kw = {"env": {**os.environ, "P34_VAR": "v"}} if "VAR" in text else {"input": "typed"} if text == "cat" else {}
                key = f"shell {text!r} dir={d}"
                check_result(acc, key, run_cmd(text, work_dir=wd, shell=True, **kw), out, "", code)
                acc.case(key, "shell")
                if os.getcwd() != s.start:
                    acc.violate(f"{key} :: cwd", f"working directory is {os.getcwd()} afterwards", {"case": key})
                    os.chdir(s.start)


# one call: (name, arguments, expected error or None)
def steps(s):
    other = os.path.join(s.dir, "other")
    return {
        "ok": (lambda: run_cmd(s.prog, 0, "", work_dir=other), None),
        "relative": (lambda: run_cmd([s.prog, 0, ""], work_dir="below"), None),
        "fails": (lambda: run_cmd(s.prog, 5, "e", work_dir=other), None),
        "checked": (lambda: run_cmd(s.prog, 5, "e", work_dir=other, check=True), subprocess.CalledProcessError),
        "unknown": (lambda: run_cmd(os.path.join(s.dir, "missing.sh"), work_dir=other), FileNotFoundError),
        "unknown here": (lambda: run_cmd("./missing.sh"), FileNotFoundError),
        "no program": (lambda: run_cmd(s.plain, work_dir="below"), (PermissionError, OSError)),
        "no directory": (lambda: run_cmd(s.prog, 0, "", work_dir=os.path.join(s.dir, "missing")), FileNotFoundError),
        "timeout": (lambda: run_cmd("sleep", 5, work_dir=other, timeout=0.01), subprocess.TimeoutExpired),
        "bad option": (lambda: run_cmd(s.prog, 0, "", work_dir=other, no_such_option=1), TypeError),
        "no text": (lambda: run_cmd("printf '\\377'", work_dir=other, shell=True, encoding="utf-8"), UnicodeDecodeError),
    }


def histories(acc, i, n, thorough):
    with Scratch() as s:
        names = list(steps(s))
        for hist in sliced(itertools.chain.from_iterable(itertools.product(names, repeat=k) for k in ((1, 2, 3, 4) if thorough else (1, 2, 3))), i, n):
            where = s.start
            for pos, name in enumerate(hist):
                call, error = steps(s)[name]
                acc.step()
                key = f"history {hist[: pos + 1]}"
                try:
                    res = call()
                    if error is not None:
                        acc.violate(f"{key} :: silent", f"{name!r} does not raise but provides {res!r}", {"history": hist})
                    elif not str(res).startswith("dir=" + (os.path.join(s.start, "below") if name == "relative" else os.path.join(s.dir, "other"))):
                        acc.violate(f"{key} :: dir", f"{name!r} is not executed in its directory: {res!r}", {"history": hist})
                except Exception as e:
                    if error is None or not isinstance(e, error):
                        acc.violate(f"{key} :: raises", f"{name!r} raises {short(e)}", {"history": hist})
                if os.getcwd() != where:
                    acc.violate(f"{key} :: cwd", f"working directory is {os.getcwd()} instead of {where}", {"history": hist})
                    os.chdir(where)
            acc.case(("hist", hist), "histories")


# ---------------------------------------------------------------- data frames
T = pb.TableReference("r", "x")
Q = pb.parse_query("SELECT * FROM r x WHERE x.a = 'it''s'")
TJ = {"full_name": "r", "alias": "x", "virtual": False, "schema": ""}


class Own:
    def __init__(self, v):
        self.v = v

    def __json__(self):
        return {"own": self.v}


# values and what has to be found in the file (complex ones as ("json", value))
COLUMNS = {
    "int": [(1, 1), (-2, -2), (3, 3)],
    "float": [(1.5, 1.5), (-0.25, -0.25), (2.5, 2.5)],
    "gaps": [(1.5, 1.5), (float("nan"), None), (2.5, 2.5)],
    "bool": [(True, True), (False, False), (True, True)],
    "text": [("x", "x"), ("two words, 'and' more", "two words, 'and' more"), ("ü", "ü")],
    "quotes": [('"q"', '"q"'), ("l1\nl2", "l1\nl2"), ("{a}", "{a}")],
    "text gaps": [("x", "x"), (None, None), ("y z", "y z")],
    "text nan": [("x", "x"), (float("nan"), None), ('say "hi"', 'say "hi"')],
    "no text": [(None, None), ("x", "x"), (None, None)],
    "dict": [({"k": 1}, ("json", {"k": 1})), ({}, ("json", {})), ({"k": ["l", None]}, ("json", {"k": ["l", None]}))],
    "list": [([1, 2], ("json", [1, 2])), ([], ("json", [])), (["x", {"y": 1.5}], ("json", ["x", {"y": 1.5}]))],
    "table": [(T, ("json", TJ)), (T, ("json", TJ)), (T, ("json", TJ))],
    "column": [(pb.ColumnReference("a", T), ("json", {"column": "a", "table": TJ}))] * 3,
    "query": [(Q, ("json", str(Q)))] * 3,
    "own": [(Own(1), ("json", {"own": 1})), (Own("b"), ("json", {"own": "b"})), (Own([T]), ("json", {"own": [TJ]}))],
    "mixed": [({"k": 1}, ("json", {"k": 1})), (T, ("json", TJ)), ([T], ("json", [TJ]))],
    "partly": [({"k": 1}, ("json", {"k": 1})), (None, None), ([1], ("json", [1]))],
    "late": [("x", ("text", "x")), ({"k": 1}, ("json", {"k": 1})), (T, ("json", TJ))],
    "operator": [(pb.JoinOperator.HashJoin, ("json", pb.JoinOperator.HashJoin.value)), (pb.ScanOperator.IndexScan, ("json", pb.ScanOperator.IndexScan.value)), (pb.JoinOperator.NestedLoopJoin, ("json", pb.JoinOperator.NestedLoopJoin.value))],
}
FORMATS = ["csv", "json", "parquet", "feather", "CSV", "Parquet"]


def same(got, want):
    if want is None:
        return got is None or got != got
    if isinstance(want, tuple) and want[0] == "text":  # text between complex objects, might be JSON as well
        return got in (want[1], json.dumps(want[1]))
    if isinstance(want, tuple):
        try:
            return isinstance(got, str) and json.loads(got) == want[1]
        except ValueError:
            return False
    return got == want and isinstance(got, str) == isinstance(want, str)


def frame_cases(thorough):
    names = list(COLUMNS)
    for rows in (1, 2, 3):
        for k in (1, 2):
            for cols in itertools.combinations(names, k):
                yield cols, rows
        if thorough:
            for cols in itertools.combinations(names, 3):
                yield cols, rows
    yield (), 0


def frames(acc, i, n, thorough):
    with Scratch() as s:
        for pos, (cols, rows) in enumerate(sliced(frame_cases(thorough), i, n)):
            data = {c: [v for v, _ in COLUMNS[c][:rows]] for c in cols}
            for fmt in FORMATS if cols else ["csv"]:
                df = pd.DataFrame({c: pd.Series(v, dtype=object) if c not in ("int", "float", "gaps", "bool") else v for c, v in data.items()})
                before = [[id(v) if not isinstance(v, (int, float)) else v for v in df[c]] for c in cols], list(df.columns), [str(t) for t in df.dtypes]
                values = copy.deepcopy([[repr(v) for v in data[c]] for c in cols])
                key = f"frame {fmt} {cols} rows={rows}"
                path = os.path.join(s.dir, f"out{pos}", "deep", f"f.{fmt}")
                target = path if pos % 2 else pathlib.Path(path)
                acc.step()
                if not cols:
                    util.write_df(pd.DataFrame({"int": []}), target)
                    if list(util.read_df(target).columns) != ["int"] or len(util.read_df(target)):
                        acc.violate(key, "an empty frame is not empty afterwards", {"case": key})
                    continue
                try:
                    util.write_df(df, target)
                    back = util.read_df(target)
                    kept = util.read_df(str(target))
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"writing and reading raises {short(e)}", {"case": key})
                    continue
                after = [[id(v) if not isinstance(v, (int, float)) else v for v in df[c]] for c in cols], list(df.columns), [str(t) for t in df.dtypes]
                if str(after) != str(before) or [[repr(v) for v in data[c]] for c in cols] != values:
                    acc.violate(f"{key} :: caller", "the frame of the caller is modified", {"case": key})
                if list(back.columns) != list(cols) or len(back) != rows or list(kept.columns) != list(back.columns):
                    acc.violate(f"{key} :: shape", f"frame has columns {list(back.columns)} and {len(back)} rows", {"case": key})
                    continue
                for c in cols:
                    for r in range(rows):
                        want = COLUMNS[c][r][1]
                        got = back[c].iloc[r]
                        if not same(got, want):
                            acc.violate(f"{key} :: {c}", f"value {COLUMNS[c][r][0]!r} of row {r} is read as {got!r}", {"case": key})
                            break
            acc.case(("frame", cols, rows), "frames")
            shutil.rmtree(os.path.join(s.dir, f"out{pos}"), ignore_errors=True)
        if i == 0:
            df = pd.DataFrame({"a": [1, 2]}, index=[7, 8])
            for fmt, kw in (("csv", {}), ("csv", {"sep": ";"})):
                p = os.path.join(s.dir, "i." + fmt)
                util.write_df(df, p, index=True, **kw)
                back = util.read_df(p, index_col=0, **kw)
                if list(back.index) != [7, 8] or list(back["a"]) != [1, 2]:
                    acc.violate(f"index {fmt} {kw}", f"index is read as {list(back.index)}", {})
                util.write_df(df, p, **kw)
                if list(util.read_df(p, **kw).columns) != ["a"]:
                    acc.violate(f"no index {fmt} {kw}", "the index is written although it was not requested", {})
                acc.case(("index", fmt, str(kw)), "frames")
            for bad in ("x.txt", "x", "x.csv.bak"):
                for call in (lambda p: util.write_df(df, p), util.read_df):
                    try:
                        call(os.path.join(s.dir, bad))
                        acc.violate(f"format {bad}", "unknown format is not rejected", {})
                    except ValueError:
                        pass
                acc.case(("format", bad), "frames")


# ---------------------------------------------------------------- logs
MESSAGES = [(), ("m",), ("m", 1), ({"k": [1, 2]},), ({"k": list(range(40))}, "tail"), ("a", "b", None)]


def logs(acc, i, n, thorough):
    seqs = list(itertools.chain.from_iterable(itertools.product(MESSAGES, repeat=k) for k in ((1, 2, 3) if thorough else (1, 2))))
    for seq in sliced(seqs, i, n):
        for enabled, pretty, prefix in itertools.product((True, False), (True, False), ("", "PRE", "call")):
            ticks = iter(range(100))
            buf, out, err = io.StringIO(), io.StringIO(), io.StringIO()
            key = f"log {seq} enabled={enabled} pretty={pretty} prefix={prefix}"
            want, parts = "", []
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    log = util.make_logger(enabled, file=buf, pretty=pretty, prefix=(lambda: f"#{next(ticks)}") if prefix == "call" else prefix)
                    for args in seq:
                        acc.step()
                        log(*args)
            except Exception as e:
                acc.violate(f"{key} :: raises", f"logging raises {short(e)}", {"case": key})
                continue
            for pos, args in enumerate(seq if enabled else ()):
                head = [f"#{pos}"] if prefix == "call" else [prefix] if prefix else []
                want += " ".join(map(str, [*head, *args])) + "\n"
                parts += [*head, *map(pprint.pformat, args)]
            text = buf.getvalue()
            if out.getvalue() or err.getvalue():
                acc.violate(f"{key} :: device", f"text is written elsewhere: {out.getvalue()!r} {err.getvalue()!r}", {"case": key})
            # pretty layouts are free to break lines, but have to contain the prefixes and objects in order
            if (text.split() != " ".join(parts).split()) if pretty else text != want:
                acc.violate(f"{key} :: text", f"log contains {text!r} instead of {(parts if pretty else want)!r}", {"case": key})
        for flag, use_err, to_file in itertools.product((True, False, 1, 0, None), (True, False), (True, False)):
            buf, out, err = io.StringIO(), io.StringIO(), io.StringIO()
            key = f"print_if {seq} {flag!r} stderr={use_err} file={to_file}"
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                for args in seq:
                    acc.step()
                    util.logging.print_if(flag, *args, use_stderr=use_err, **({"file": buf} if to_file else {}))
            want = "".join(" ".join(map(str, a)) + "\n" for a in seq) if flag else ""
            exp = (want, "", "") if to_file else ("", "", want) if use_err else ("", want, "")
            if (buf.getvalue(), out.getvalue(), err.getvalue()) != exp:
                acc.violate(key, f"file, stdout and stderr contain {(buf.getvalue(), out.getvalue(), err.getvalue())!r}", {"case": key})
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            for args in seq:
                util.logging.print_stderr(*args, file=sys.stdout)
        if out.getvalue() or err.getvalue() != "".join(" ".join(map(str, a)) + "\n" for a in seq):
            acc.violate(f"print_stderr {seq}", f"stdout and stderr contain {out.getvalue()!r}, {err.getvalue()!r}", {})
        with Scratch() as s:
            for mode, flush, old in itertools.product(("a", "w", None), (True, False), ("", "old\n")):
                f = os.path.join(s.dir, "tee.txt")
                with open(f, "w") as h:
                    h.write(old)
                key = f"tee {seq} mode={mode} flush={flush} old={old!r}"
                orig, keep = io.StringIO(), sys.stdout
                sys.stdout = orig
                try:
                    util.logging.tee_stdout(f, *([mode] if mode else []))
                    for args in seq:
                        acc.step()
                        print(*args, flush=flush)
                    sys.stdout.flush()
                except Exception as e:
                    acc.violate(f"{key} :: raises", f"printing raises {short(e)}", {"case": key})
                    continue
                finally:
                    sys.stdout = keep
                want = "".join(" ".join(map(str, a)) + "\n" for a in seq)
                with open(f) as h:
                    got = h.read()
                if orig.getvalue() != want or got != ("" if mode == "w" else old) + want:
                    acc.violate(key, f"stdout received {orig.getvalue()!r}, the file {got!r}", {"case": key})
        acc.case(("log", seq), "logs")


def run(c: Check):
    c.part("invocations", lambda acc, i, n: invocations(acc, i, n, c.thorough))
    c.part("histories of calls", lambda acc, i, n: histories(acc, i, n, c.thorough))
    c.part("data frames on disk", lambda acc, i, n: frames(acc, i, n, c.thorough))
    c.part("log output", lambda acc, i, n: logs(acc, i, n, c.thorough))


Check("P34", "exploration", "external commands (forms x arguments x directories x outcomes, histories of calls), data frames (columns x formats), log messages (see DESIGN.md); non-trivial: all. Distinct by call, history or frame.",
      ["/bin/sh executes the test program correctly", "pandas reads what it has written", "pretty-printed layouts may break lines freely"]).main(run)
