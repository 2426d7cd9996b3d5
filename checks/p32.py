"""P32: references to tables and columns, and the objects built from them, are consistent values."""
import copy
import itertools
import pickle
import warnings

import pglast.keywords as kw
from vlib import Check, short, sliced

import planspace
import sqlspace
import postbound as pb
from postbound import BoundColumnReference, ColumnReference, JoinTree, TableReference
from postbound._core import IntermediateOperator, JoinOperator, ScanOperator, UnboundColumnError, VirtualTableError, quote
from postbound.parser import load_column_json, load_table_json, parse_query
from postbound.util import StateError, jsonize

warnings.simplefilter("ignore")

NAMES = ["", "a", "b", "A", "a b", "select", 'a"b', "a.b"]


def refs(names=NAMES, schemas=None):
    """(fields, reference) of every combination; fields are (full name, alias, virtual, schema)"""
    for f, a, v, s in itertools.product(names, names, (False, True), schemas or names):
        if (f or a) and (f or not s):
            yield (f, a, v, s), TableReference(f, a, virtual=v, schema=s)


def fields(t):
    return (t.full_name, t.alias, t.virtual, t.schema)


def key(f):
    return (f[0].lower(), f[1].lower(), f[3].lower())


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e)


def p_tables(acc, idx, n):
    for f, a, v, s in itertools.product(*(NAMES if i != 2 else (False, True) for i in range(4))):
        valid = bool((f or a) and (f or not s))
        got = outcome(lambda: fields(TableReference(f, a, virtual=v, schema=s)))
        if got != ((f, a, v, s) if valid else ValueError):
            acc.violate("constructor", f"TableReference({f!r}, {a!r}, virtual={v}, schema={s!r}): {got}")
    for absent in itertools.product((None, ""), repeat=2):  # alias and schema may be missing
        for f in NAMES[1:]:
            got = outcome(lambda: fields(TableReference(f, absent[0], schema=absent[1])))
            if got != (f, "", False, ""):
                acc.violate("constructor with absent parts", f"TableReference({f!r}, {absent[0]!r}, schema={absent[1]!r}): {got}")
            for s in NAMES[1:]:
                got = outcome(lambda: fields(TableReference(f, absent[0], schema=s)))
                if got != (f, "", False, s):
                    acc.violate("constructor with absent parts", f"TableReference({f!r}, {absent[0]!r}, schema={s!r}): {got}")
        for a in NAMES[1:]:
            for v in (False, True):
                got = outcome(lambda: fields(TableReference(absent[0], a, virtual=v, schema=absent[1])))
                if got != ("", a, v, ""):
                    acc.violate("constructor with absent parts", f"TableReference({absent[0]!r}, {a!r}, virtual={v}, schema={absent[1]!r}): {got}")
    alts = [None, "", "z", "A"]
    for i, (f, t) in enumerate(refs()):
        if i % n != idx:
            continue
        full, alias, virtual, schema = f
        ident = alias or full

        def expect(what, got, exp):
            acc.step()
            if got != exp or type(got) is not type(exp):
                acc.violate(f"{what} schema={bool(schema)} virtual={virtual} alias={bool(alias)} name={bool(full)}", f"{t!r}: {what} yields {got!r}, expected {exp!r}")

        def expect_ref(what, fn, exp):
            got = outcome(fn)
            expect(what, fields(got) if isinstance(got, TableReference) else got, exp)
            if fields(t) != f:
                acc.violate(f"{what} modifies", f"{f} has become {fields(t)}")

        expect("identifier", t.identifier(), ident)
        physical = (f"{quote(schema)}." if schema else "") + quote(full)
        expect("qualified_name", outcome(t.qualified_name), VirtualTableError if virtual else physical)
        expect("text", str(t), (f"{physical} AS {quote(alias)}" if alias else physical) if full else quote(alias))
        expect_ref("drop_alias", t.drop_alias, StateError if virtual else ((full, "", False, schema) if full else ValueError))
        for al in ("z", "A", ""):
            expect_ref("with_alias", lambda: t.with_alias(al), (full, al, virtual, schema) if full else StateError)
        expect_ref("make_virtual", t.make_virtual, (full, alias, True, schema))
        for up in itertools.product(alts, alts, (None, False, True), alts):
            exp = tuple(o if u is None else u for o, u in zip(f, up))
            ok = (exp[0] or exp[1]) and (exp[0] or not exp[3])
            kwargs = {k: u for k, u in zip(("full_name", "alias", "virtual", "schema"), up) if u is not None}
            expect_ref("update", lambda: t.update(**kwargs), exp if ok else ValueError)
        if alias:
            expect_ref("create_virtual", lambda: TableReference.create_virtual(alias, full_name=full, schema=schema), (full, alias, True, schema))
        expect_ref("load_table_json", lambda: load_table_json(pb_json(t)), f)
        for how, fn in COPIES:
            expect_ref(how, lambda: fn(t), f)
            if fn(t) != t or hash(fn(t)) != hash(t):
                acc.violate(f"{how} differs", f"{t!r}")
        acc.case(repr(f))


def pb_json(x):
    return jsonize.to_json(x)


COPIES = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [(f"pickle protocol {p}", lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]


def order(acc, items, what, idx, n):
    """items: (key, object); the objects are totally ordered, the order agrees with equality and does not depend on the arrangement"""
    for i in range(idx, len(items), n):
        kx, x = items[i]
        for ky, y in items:
            acc.step()
            eq = kx == ky
            if (x == y) != eq or (x != y) == eq:
                acc.violate(f"{what} equality", f"{x!r} and {y!r}: equality is {x == y}, expected {eq}")
            if eq and hash(x) != hash(y):
                acc.violate(f"{what} hash", f"{x!r} and {y!r} are equal but have different hashes")
            if (x < y) + (y < x) + eq != 1:
                acc.violate(f"{what} order", f"{x!r} < {y!r}: {x < y}, reversed: {y < x}, equal: {eq}")
        acc.case((what, i))
    ranked = sorted(items, key=lambda kv: Key(kv[1]))
    back = sorted(reversed(items), key=lambda kv: Key(kv[1]))
    if [k for k, _ in ranked] != [k for k, _ in back]:
        acc.violate(f"{what} sorting", "sorting depends on the order of the input")
    for i in range(idx, len(ranked), n):
        for j in range(i + 1, len(ranked)):
            if ranked[j][1] < ranked[i][1]:
                acc.violate(f"{what} transitivity", f"{ranked[j][1]!r} is smaller than {ranked[i][1]!r} which has been sorted before it")
    return ranked


class Key:
    def __init__(self, o):
        self.o = o

    def __lt__(self, other):
        return self.o < other.o


def p_pairs(acc, idx, n):
    ranked = order(acc, [(key(f), t) for f, t in refs()], "tables", idx, n)
    names = [t.identifier().lower() for _, t in ranked]
    if names != sorted(names):
        acc.violate("tables not lexicographic", str(names)[:300])
    for f, t in refs():
        if t == f or t == str(t) or t == None or outcome(lambda: t < str(t)) is not TypeError:  # noqa: E711
            acc.violate("tables and other values", repr(t))


def columns():
    for name in ("a", "b", "A", "a b", "select"):
        yield (name.lower(), None), ColumnReference(name)
        for f, t in refs(["", "a", "b", "A"], ["", "s", "S"]):
            yield (name.lower(), key(f)), ColumnReference(name, t)


def p_columns(acc, idx, n):
    items = list(columns())
    order(acc, items, "columns", idx, n)
    tables = [t for _, t in refs(["", "a", "b"], ["", "s"])]
    for i, (k, c) in enumerate(items):
        if i % n != idx:
            continue
        t = c.table

        def expect(what, cond, got):
            acc.step()
            if not cond:
                acc.violate(f"column {what} bound={t is not None}", f"{c!r}: {got!r}")

        expect("class", isinstance(c, BoundColumnReference) == (t is not None), type(c))
        expect("is_bound", c.is_bound() is (t is not None) and ColumnReference.assert_bound(c) is (t is not None), c.is_bound())
        exp = f"{quote(t.identifier())}.{quote(c.name)}" if t is not None else quote(c.name)
        expect("text", str(c) == exp, str(c))
        u = c.as_unbound()
        expect("as_unbound", u.name == c.name and u.table is None and type(u) is ColumnReference, u)
        for x in tables:
            b = c.bind_to(x)
            expect("bind_to", isinstance(b, BoundColumnReference) and b.name == c.name and fields(b.table) == fields(x) and b == ColumnReference(c.name, x) and b.belongs_to(x) and b.is_bound(), b)
            expect("belongs_to", c.belongs_to(x) is (t is not None and key(fields(t)) == key(fields(x))), x)
        expect("modified", c.table is t, c)
        d = outcome(c.drop_table_alias)
        if t is None:
            expect("drop_table_alias", d == c, d)
        elif t.virtual:
            expect("drop_table_alias", d is StateError, d)
        elif t.full_name:
            expect("drop_table_alias", isinstance(d, BoundColumnReference) and d.name == c.name and fields(d.table) == (t.full_name, "", False, t.schema), d)
        l = load_column_json(pb_json(c))
        expect("json", l == c and l.name == c.name and type(l) is type(c) and (t is None or fields(l.table) == fields(t)), l)
        for how, fn in COPIES:
            x = fn(c)
            expect(how, x == c and hash(x) == hash(c) and x.name == c.name and type(x) is type(c) and str(x) == str(c) and (t is None or fields(x.table) == fields(t)), x)
        if t is not None and t.full_name and not t.alias and not t.virtual and not t.schema:
            x = ColumnReference.create(c.name, table=t.full_name)
            expect("create", x == c and isinstance(x, BoundColumnReference), x)
    for name in ("", None):
        for t in [None, TableReference("a")]:
            if outcome(lambda: ColumnReference(name, t)) is not ValueError:
                acc.violate("column without name", repr(t))


KEYWORDS = sorted(kw.RESERVED_KEYWORDS | kw.COL_NAME_KEYWORDS | kw.TYPE_FUNC_NAME_KEYWORDS | kw.UNRESERVED_KEYWORDS)
CHARS = "aZ_0$ .\"'-;()*,\\%é{}:[]"


def spellings(thorough):
    yield from KEYWORDS
    yield from (k.upper() for k in KEYWORDS)
    for length in range(1, 4 if thorough else 3):
        for c in itertools.product(CHARS, repeat=length):
            yield "".join(c)


def p_spelling(acc, idx, n, thorough):
    """the SQL text of a reference denotes this reference: each name is used in each position"""
    for name in sliced(spellings(thorough), idx, n):
        variants = [TableReference(name), TableReference("t", name), TableReference(name, "x"), TableReference("t", schema=name)]
        for pos, t in enumerate(variants):
            for cname in [name, "c"]:
                c = ColumnReference(cname, t)
                text = f"SELECT {c} FROM {t}"
                try:
                    q = parse_query(text, bind_columns=False)
                    tabs = list(q.tables())
                    cols = [x for x in q.columns()]
                except Exception as e:
                    acc.violate(f"spelling rejected position {pos}", f"{text}: {short(e)}")
                    continue
                if len(tabs) != 1 or fold(tabs[0]) != fold(t) or len(cols) != 1 or (cols[0].name.lower(), fold(cols[0].table)) != (cname.lower(), fold(t)):
                    acc.violate(f"spelling changed position {pos}", f"{text} becomes {tabs!r} and {cols!r}")
                again = str(q).rstrip(";")
                if again.lower() != text.lower():
                    acc.violate(f"spelling unstable position {pos}", f"{text} becomes {again}")
                acc.step()
        acc.case(name)


def fold(t):
    return tuple(x.lower() if isinstance(x, str) else x for x in fields(t))


def p_operators(acc, idx, n):
    if idx:
        return
    for kind in (ScanOperator, JoinOperator, IntermediateOperator):
        order(acc, [(o.name, o) for o in kind], kind.__name__, 0, 1)
        for how, fn in COPIES:
            for o in kind:
                if fn(o) is not o:
                    acc.violate("operator copies", f"{o} {how}")
        for o in kind:
            if outcome(lambda: o < "x") is not TypeError:
                acc.violate("operators and other values", str(o))


def statements():
    seen = set()
    for gen in (sqlspace.singles(), sqlspace.setops(), sqlspace.nested()):
        for x in gen:
            s = x if isinstance(x, str) else x[0]
            if s not in seen:
                seen.add(s)
                yield s


def parts(q):
    yield q
    for c in q.clauses() if hasattr(q, "clauses") else ():
        yield c
        if callable(getattr(c, "expressions", None)):
            yield from c.expressions()
    try:
        p = q.predicates()
    except Exception:
        return
    if not p.is_empty():
        yield p.root
        yield from p.root.iterexpressions()


def p_copies(acc, idx, n):
    """queries and everything in them: copies are equal, with the same hash and text, and are usable in place of the original"""
    for s in sliced(statements(), idx, n):
        try:
            q = parse_query(s, bind_columns=False)
        except Exception:
            acc.count("not supported by the parser")
            continue
        for x in parts(q):
            for how, fn in COPIES[:2] + COPIES[-1:]:
                acc.step()
                c = outcome(lambda: fn(x))
                if isinstance(c, type) or type(c) is not type(x) or c != x or x != c or hash(c) != hash(x) or str(c) != str(x) or c not in {x}:
                    acc.violate(f"{how} of {type(x).__name__}", f"{x} of {s}: {c!r}"[:400])
        if q.tables() != copy.deepcopy(q).tables() or q.columns() != pickle.loads(pickle.dumps(q)).columns():
            acc.violate("content of copies", s)
        acc.case(s)


def p_plans(acc, idx, n):
    """plans: copies carry the same content, and their parameters are independent of the original if a deep copy was requested"""
    a, b, c = (TableReference(x, al, schema=s) for x, al, s in (("a", "", ""), ("b", "y", ""), ("c", "z", "s")))
    leaves = lambda t: [pb.QueryPlan(op.value, base_table=t, operator=op, estimated_cardinality=5, estimated_cost=3.5, actual_cardinality=7, execution_time=0.5, cache_hits=2, parallel_workers=w, lst=[1, 2])
                        for op in (ScanOperator.SequentialScan, ScanOperator.IndexScan) for w in (None, 2)]
    plans = []
    for x, y in itertools.product(leaves(a), leaves(b)):
        for jo in JoinOperator:
            j = pb.QueryPlan(jo.value, children=[x, y], operator=jo, estimated_cardinality=50)
            plans.append(j)
            plans.append(pb.QueryPlan("Hash Join", children=[j, leaves(c)[0]], operator=JoinOperator.HashJoin, subplan_root=pb.QueryPlan("Seq Scan", base_table=a, operator=ScanOperator.SequentialScan), subplan_target_name="s"))
    for i, p in enumerate(plans):
        if i % n != idx:
            continue
        ref = content(p)
        for how, fn in COPIES + [("clone", lambda x: x.clone()), ("clone deep", lambda x: x.clone(deep=True))]:
            acc.step()
            try:
                q = fn(p)
                got = content(q)
            except Exception as e:
                acc.violate(f"plan {how} fails", short(e))
                continue
            if got != ref or q != p or hash(q) != hash(p):
                acc.violate(f"plan {how}", f"{got} instead of {ref}"[:500])
            for x, y in zip(walk(p), walk(q)):
                for part in ("params", "estimates", "measures"):
                    px, py = getattr(x, part), getattr(y, part)
                    if "deep" in how or "pickle" in how:
                        if x is y or px is py or px._params is py._params or (px._params.get("lst") is not None and px._params["lst"] is py._params["lst"]):
                            acc.violate(f"plan {how} shares {part}", str(x))
                            continue
                        py["extra"] = 1
                        py.other = 2
                        if "extra" in px or "other" in px or py["extra"] != 1 or py.extra != 1 or py["other"] != 2:
                            acc.violate(f"plan {how} shares {part}", str(x))
            if content(p) != ref:
                acc.violate(f"plan {how} modifies the original", str(p))
        acc.case(repr(ref))
    for trees in (JoinTree.join(JoinTree.scan(a), JoinTree.join(JoinTree.scan(b), JoinTree.scan(c))), JoinTree.scan(c), pb.LogicalJoinTree.join(pb.LogicalJoinTree.scan(a, annotation=pb.Cardinality(3)), pb.LogicalJoinTree.scan(b), annotation=pb.Cardinality(9))):
        for how, fn in COPIES:
            t = fn(trees)
            if t != trees or hash(t) != hash(trees) or [fields(x) for x in t.iternodes() if isinstance(x, TableReference)] != [fields(x) for x in trees.iternodes() if isinstance(x, TableReference)] or str(t) != str(trees) or t.annotation != trees.annotation:
                acc.violate(f"join tree {how}", str(trees))


def walk(p):
    yield p
    for c in p.children:
        yield from walk(c)
    if p.subplan:
        yield from walk(p.subplan.root)


def content(p):
    d = lambda x: {k: (fields(v) if isinstance(v, TableReference) else repr(v)) for k, v in x._params.items()}
    return (p.node_type, p.operator, d(p.params), d(p.estimates), d(p.measures), [content(c) for c in p.children], (p.subplan.target_name, content(p.subplan.root)) if p.subplan else None)


def run(c: Check):
    c.part("tables", p_tables)
    c.part("pairs of tables", p_pairs)
    c.part("columns", p_columns)
    c.part("spelling", lambda acc, i, n: p_spelling(acc, i, n, c.thorough))
    c.part("operators", p_operators)
    c.part("copies of queries", p_copies)
    c.part("copies of plans", p_plans)
    c.finish()


run(Check("P32", "exploration",
          "every combination of names, aliases, schemas and kinds of tables with every derived reference and every pair; every SQL keyword and every short name over an alphabet of special characters in each "
          "position of a reference; every statement of the catalogue with everything in it, every small plan; a case is distinct by its input"))
