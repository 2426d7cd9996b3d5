"""P16: cardinalities obey the arithmetic and ordering laws of the numbers they stand for."""
import copy
import itertools
import json
import math
import operator
import pickle

from vlib import Check, short, sliced

import postbound as pb
from postbound import util
from postbound.util._errors import StateError

C = pb.Cardinality
NAN, INF = math.nan, math.inf
QUICK = [0, 1, 2, 3, 5, 7, 10, 99, 100, 1000003, 2**31 - 1, 2**31, 2**53, 0.4, 0.5, 1.5, 2.5, 42.7, INF, NAN]
MORE = [4, 6, 8, 9, 11, 13, 50, 101, 2**16, 2**32, 2**40 + 1, 2**52 + 1, 0.49, 0.51, 3.5, 999.5, 1e15]


def num(x):
    """the number that Cardinality(x) stands for"""
    return x if math.isnan(x) or math.isinf(x) else round(x)


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or a == b


def call(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("raise", type(e).__name__)


ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow}
COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def ref_arith(op, a, b):
    """a, b are numbers; raises exactly where arithmetic is undefined"""
    if math.isnan(a) or math.isnan(b):
        return NAN
    if op == "//":
        if math.isinf(a):
            return float(a) / b  # an infinite amount stays infinite
        return float(a) // float(b)
    if op == "%":
        if math.isinf(a):
            return NAN
        return float(a) % float(b)
    return ARITH[op](float(a), float(b))


def ref_compare(op, a, b):
    if math.isnan(a) or math.isnan(b):
        # unknown cardinalities are equal to each other, but cannot be ordered
        both = math.isnan(a) and math.isnan(b)
        return {"==": both, "!=": not both}.get(op, False)
    return COMPARE[op](a, b)


def pairs(vals):
    return itertools.product(vals, vals, ("cc", "cn", "nc"))


def run(c: Check):
    vals = QUICK + MORE if c.thorough else QUICK
    plain = vals + [-1, -2.5]

    def single(acc, i, n):
        for v in sliced(plain, i, n):
            x, w = C(v), num(v)
            acc.case(("single", repr(v)), "nan" if math.isnan(w) else "inf" if math.isinf(w) else "valid")

            def need(cond, what):
                acc.step()
                if not cond:
                    acc.violate(f"single {v!r} {what}", f"Cardinality({v!r}): {what} is wrong", {"value": repr(v)})

            valid = not (math.isnan(w) or math.isinf(w))
            need(x.is_valid() is valid and bool(x) is valid, "is_valid")
            need(x.isnan() is math.isnan(w) and x.is_unknown() is math.isnan(w), "isnan")
            need(x.isinf() is math.isinf(w), "isinf")
            need(same(x.get(), float(w)) and isinstance(x.get(), float) and same(float(x), float(w)), "get")
            need(call(lambda: x.value) == (("ok", w) if valid else ("raise", "StateError")), "value")
            need(call(int, x) == (("ok", w) if valid else ("raise", "StateError")), "int")
            need(same(complex(x).real, float(w)) and complex(x).imag == 0, "complex")
            need(str(x) == ("NaN" if math.isnan(w) else "inf" if math.isinf(w) else str(w)), "str")
            need(C.of(x) == x and C.of(v) == x and hash(C.of(v)) == hash(x), "of")
            for f in (math.floor, math.ceil, math.trunc, round) + ((abs,) if not valid or w >= 0 else ()):
                need(f(x) == x, f.__name__)
            for name, cp in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o)))):
                y = cp(x)
                need(y == x and hash(y) == hash(x) and y.is_valid() is valid and same(y.get(), x.get()), name)
            need(C(json.loads(util.to_json(x))) == x, "json")
            need(C(json.loads(util.to_json({"card": [x]}))["card"][0]) == x, "nested json")
            match x:
                case C(ok, val):
                    need(ok is valid and val == (w if valid else -1), "match")
            need(len({x, C(v)}) == 1 and {x: 1}.get(C(v)) == 1, "set/dict")
            if not math.isnan(w):
                need({x: 1}.get(w) == 1 and x == w and w == x and hash(x) == hash(w), "hash agrees with the equal plain number")
        if i == 0:
            acc.case("factories")
            if not (C.unknown().is_unknown() and C.infinite().isinf()):
                acc.violate("factories", "unknown()/infinite() are wrong")

    c.part("single values", single)

    def binary(acc, i, n):
        for a, b, kind in sliced(pairs(plain), i, n):
            wa, wb = (num(a) if kind[0] == "c" else a), (num(b) if kind[1] == "c" else b)
            x, y = (C(a) if kind[0] == "c" else a), (C(b) if kind[1] == "c" else b)
            for op, f in ARITH.items():
                acc.step()
                want, got = call(ref_arith, op, wa, wb), call(f, x, y)
                if want[0] == "ok" and (isinstance(want[1], complex) or want[1] == -INF):
                    continue  # no such cardinality
                if (math.isnan(wa) or math.isnan(wb)) and (op == "**" or num(b) == 0):
                    continue  # unknown ** 0 and unknown / 0: both readings are fine
                if op == "%" and math.isinf(wb) and wa < 0:
                    continue
                key = f"{kind} {a!r} {op} {b!r}"
                acc.case(key, f"{op}:{want[0]}")
                if want[0] == "ok":
                    ok = got[0] == "ok" and isinstance(got[1], C) and same(got[1].get(), float(num(want[1])))
                else:
                    ok = got[0] == "raise"
                if not ok:
                    acc.violate(f"arith {key}", f"{key} should be {want} but is {got}", {"expr": key})
            for op, f in COMPARE.items():
                acc.step()
                want, got = ref_compare(op, wa, wb), call(f, x, y)
                key = f"{kind} {a!r} {op} {b!r}"
                acc.case(key, f"{op}:{want}")
                if got != ("ok", want):
                    acc.violate(f"compare {key}", f"{key} should be {want} but is {got}", {"expr": key})
            if kind == "cc" and (x == y) and hash(x) != hash(y):
                acc.violate(f"hash {a!r} {b!r}", "equal cardinalities with different hashes")
            # divmod
            if wb != 0 and num(b) != 0 and not (wa < 0 and math.isinf(wb)):
                acc.step()
                got = call(divmod, x, y)
                if math.isnan(wa) or math.isnan(wb):
                    want = (NAN, NAN)
                else:
                    want = divmod(float(wa), float(wb))
                if got[0] != "ok" or not all(same(float(g), w) for g, w in zip(got[1], want)):
                    acc.violate(f"divmod {kind} {a!r} {b!r}", f"divmod({x!r}, {y!r}) should be {want} but is {got}")

    c.part("binary operators", binary)

    def triples(acc, i, n):
        known = [v for v in vals]
        for a, b, d in sliced(itertools.product(known, repeat=3), i, n):
            x, y, z = C(a), C(b), C(d)
            acc.case((repr(a), repr(b), repr(d)))
            if x < y and y < z and not x < z:
                acc.violate(f"trans {a!r} {b!r} {d!r}", "order is not transitive")
            if x == y and y == z and not x == z:
                acc.violate(f"trans-eq {a!r} {b!r} {d!r}", "equality is not transitive")
            if x == y and (x < z) != (y < z):
                acc.violate(f"subst {a!r} {b!r} {d!r}", "equal values compare differently to a third one")
            w = [num(v) for v in (a, b, d)]
            if not any(math.isnan(v) for v in w):
                got = [v.get() for v in sorted((x, y, z))]
                if got != sorted(float(v) for v in w) or max(x, y, z).get() != max(w) or min(x, y, z).get() != min(w):
                    acc.violate(f"sort {a!r} {b!r} {d!r}", f"sorted to {got}")
                got, want = sum((x, y, z)), float(num(float(num(float(w[0]) + float(w[1]))) + float(w[2])))
                if not same(float(got), want):
                    acc.violate(f"sum {a!r} {b!r} {d!r}", f"sum is {got}, expected {want}")

    c.part("triples (transitivity, sorting, sums)", triples)

    def foreign(acc, i, n):
        for v in (5, INF, NAN):
            x = C(v)
            for other in ("5", None, [5], (1,), {}):
                acc.case((repr(v), repr(other)))
                if (x == other) is not False or (x != other) is not True:
                    acc.violate(f"foreign {v!r} {other!r}", "equal to an unrelated object")
                for op in ("+", "-", "*", "/", "//", "**", "<", "<=", ">", ">="):
                    r = call({**ARITH, **COMPARE}[op], x, other)
                    if r[0] != "raise" or r[1] != "TypeError":
                        if not (op == "*" and isinstance(other, (str, list, tuple))):
                            acc.violate(f"foreign {v!r} {op} {other!r}", f"should raise TypeError but is {r}")

    c.part("operands of other types", foreign, parallel=False)


Check("P16", "exploration", "every value / pair / triple of the boundary value set with every operator; distinct by operands and operator",
      ["values stay within double precision (2**53)"]).main(run)
