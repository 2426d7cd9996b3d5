"""Shared machinery of all checks: bookkeeping, evidence, violations, known findings, parallel exhaustive enumeration."""
from __future__ import annotations

import argparse
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

NPROC = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))


def tb(exc: BaseException, limit: int = 8) -> str:
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-limit:])


def short(exc: BaseException) -> str:
    return f"{type(exc).__name__}: {str(exc)[:300]}"


class Acc:
    """Mergeable result of exploring one slice of the space."""

    def __init__(self) -> None:
        self.evals = 0
        self.transitions = 0
        self.distinct: set = set()
        self.outcomes: dict = {}
        self.samples: list = []
        self.viols: list = []
        self.counters: dict = {}

    def case(self, key=None, outcome=None, sample=None) -> None:
        """One evaluated case; key identifies it when non-trivial (None: trivial)."""
        self.evals += 1
        if key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
            if len(self.samples) < 3:
                self.samples.append(sample if sample is not None else (key if isinstance(key, str) else repr(key)))
        if outcome is not None:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def violate(self, sig: str, detail: str, replay=None) -> None:
        """sig: identifies the specific failing input/history (matched against the known-findings file)."""
        if len(self.viols) < 4000:
            self.viols.append({"sig": sig, "detail": detail, "replay": replay})
        self.count("violations_raw")

    def merge(self, o: "Acc") -> None:
        self.evals += o.evals
        self.transitions += o.transitions
        self.distinct |= o.distinct
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples.extend(o.samples[: 12 - len(self.samples)])
        self.viols.extend(o.viols)


_WORK = None
T0 = time.time()
LIMIT = int(os.environ.get("VERIF_LIMIT", "780" if os.environ.get("VERIF_TIER", "quick") != "thorough" else "7200"))


class Hang(BaseException):
    pass



def _run_slice(idx: int):
    fn, nslice = _WORK
    acc = Acc()

    def hang(signum, frame):
        raise Hang("".join(traceback.format_stack(frame)[-6:]))

    try:
        signal.signal(signal.SIGALRM, hang)
        signal.alarm(max(30, int(LIMIT - (time.time() - T0))))
        fn(acc, idx, nslice)
    except Hang as e:
        acc.violate("no-termination", f"exploration did not terminate within {LIMIT}s; stuck at: {e}")
    except BaseException as e:  # noqa: BLE001
        acc.violate(f"harness-exception:{type(e).__name__}", tb(e))
    finally:
        signal.alarm(0)
    return acc


class Check:
    def __init__(self, pid: str, level: str, rule: str, assumptions: list[str] | None = None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay", default=None)
        a, _ = ap.parse_known_args()
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.replay = a.replay
        self.thorough = self.tier == "thorough"
        self.assumptions = assumptions or []
        self.acc = Acc()
        self.parts: dict = {}
        self.exhaustive = True
        self.t0 = time.time()
        self.extra: dict = {}
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf))["findings"]:
                if e["property"] == pid:
                    self.known[e["sig"]] = e["what"]

    # -- running
    def part(self, name: str, fn, parallel: bool = True, slices: int | None = None) -> None:
        """fn(acc, idx, n) explores the idx-th of n disjoint slices of a space (their union is the space)."""
        global _WORK
        t = time.time()
        acc = Acc()
        if not parallel or NPROC == 1:
            _WORK = (fn, 1)
            acc.merge(_run_slice(0))
        else:
            n = slices or NPROC
            _WORK = (fn, n)
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(min(NPROC, n)) as pool:
                for r in pool.imap(_run_slice, range(n)):
                    acc.merge(r)
        self.parts[name] = {
            "evaluations": acc.evals,
            "distinct_nontrivial": len(acc.distinct),
            "transitions": acc.transitions,
            "distinct_outcomes": len(acc.outcomes),
            "violations": len(acc.viols),
            "wall_s": round(time.time() - t, 2),
            **({"counters": dict(sorted(acc.counters.items()))} if acc.counters else {}),
        }
        if len(acc.outcomes) <= 24:
            self.parts[name]["outcomes"] = {str(k): v for k, v in sorted(acc.outcomes.items(), key=lambda kv: str(kv[0]))}
        print(f"[{self.pid}] part {name}: {json.dumps(self.parts[name])}", flush=True)
        for v in acc.viols:
            v["part"] = name
        self.acc.merge(acc)

    # -- finishing
    def finish(self) -> None:
        if os.environ.get("VERIF_DUMP"):
            json.dump(self.acc.viols, open(os.environ["VERIF_DUMP"], "w"), default=str)
        seen, unlisted, listed = set(), [], set()
        for v in self.acc.viols:
            if v["sig"] in self.known:
                listed.add(v["sig"])
            elif v["sig"] not in seen:
                seen.add(v["sig"])
                unlisted.append(v)
        for s in sorted(listed):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[s]} [{s}]")
        gone = sorted(set(self.known) - listed)
        for s in gone:
            print(f"note: listed finding no longer observed: property={self.pid} [{s}]")
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.remove(os.path.join(rdir, f))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.acc.evals,
                "distinct_nontrivial": len(self.acc.distinct),
                "rule": self.rule,
                "samples": self.acc.samples[:12] or ["-"],
                "exhaustive": self.exhaustive,
                "parts": self.parts,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "violations": len(unlisted),
            "wall_s": round(time.time() - self.t0, 2),
        }
        if self.level == "model_checking":
            ev["coverage"]["states"] = len(self.acc.distinct)
            ev["coverage"]["transitions"] = self.acc.transitions or self.acc.evals
            ev["coverage"]["traces_validated_against_impl"] = self.acc.evals
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(
            f"[{self.pid}] tier={self.tier} evaluations={self.acc.evals} distinct={len(self.acc.distinct)} "
            f"transitions={self.acc.transitions} violations={len(unlisted)} known={len(listed)} wall={ev['wall_s']}s"
        )
        for i, v in enumerate(unlisted[:10]):
            path = os.path.join(rdir, f"{self.pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, **v}, f, indent=1, default=str)
            print(f"  detail[{v['part']}]: {v['sig'][:400]} :: {v['detail'][:1200]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        sys.stdout.flush()
        # leave without interpreter teardown: library threads/daemons must not change the verdict
        os._exit(1 if unlisted else 0)

    def main(self, body) -> None:
        try:
            if self.acc.evals or self.parts:
                pass
            body(self)
        except BaseException as e:  # noqa: BLE001
            self.parts.setdefault("harness", {})
            self.acc.viols.append({"sig": f"harness-exception:{type(e).__name__}", "detail": tb(e), "replay": None, "part": "harness"})
        self.finish()


def sliced(iterable, idx: int, n: int):
    for i, x in enumerate(iterable):
        if i % n == idx:
            yield x


def known_sigs(pid: str) -> list[dict]:
    kf = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(kf):
        return []
    return [e for e in json.load(open(kf))["findings"] if e["property"] == pid]
