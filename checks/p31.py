"""P31: catalog lookups on Postgres, MySQL and standard-conforming systems report the declared schema."""
import contextlib
import itertools
import re
import warnings

import quacklab as duckdb

from vlib import Check, short, sliced

warnings.simplefilter("ignore")
from postbound import ColumnReference, TableReference, mysql, postgres  # noqa: E402
from postbound import db as pbdb  # noqa: E402
from postbound._core import UnboundColumnError, VirtualTableError  # noqa: E402

TYPE = {"a": "int", "b": "int", "c": "text", "x": "int", "y": "int", "z": "text", "zz": "date"}
TYPES = {"Postgres": {"int": "integer", "text": "character varying", "date": "date"}, "Standard": {"int": "integer", "text": "character varying", "date": "date"}, "MySQL": {"int": "int", "text": "varchar(20)", "date": "date"}}
INDEXES = (("a",), ("c",), ("a", "c"), ("b", "a"))
FKS = ("none", "a", "c", "a+c", "a,b", "b,a", "other", "self")


# -- the declared schema -----------------------------------------------------------------------------------------------------------
class Table:
    def __init__(self, ns, name, cols, *, pk=(), uniq=(), notnull=(), index=(), kind="BASE TABLE"):
        self.ns, self.name, self.cols, self.pk, self.kind = ns, name, cols, tuple(pk), kind
        self.notnull = set(notnull) | set(pk)
        self.indexes = {}  # name -> (columns, primary, unique)
        if pk:
            self.indexes[f"{name}_pkey"] = (tuple(pk), True, True)
        self.uniq = tuple(uniq)
        for u in uniq:
            self.indexes[f"{name}_{'_'.join(u)}_key"] = (tuple(u), False, True)
        for k, cs in enumerate(index):
            self.indexes[f"{name}_idx{k}"] = (tuple(cs), False, False)
        self.fks = []  # (constraint name, columns, target table, target columns)


def declare(s, main, other):
    """the tables of both namespaces; the other one has tables of the same names, but with a different definition"""
    r = Table(main, "r", "abc", pk=s["pk"], uniq=[("c",)] if s["uniq"] else [], notnull=("b",), index=s["index"])
    t = Table(main, "s", "xyz", notnull=("y",))
    u = Table(main, "t", "xa")
    v = Table(main, "v", "ax", kind="VIEW")
    r2 = Table(other, "r", ["zz", "c", "a"], pk=("zz",), index=[("c",), ("a",)])
    s2 = Table(other, "s", ["x", "zz", "y"], uniq=[("x",)], notnull=("x",))
    v2 = Table(other, "v", "ab", pk=("a",))
    w2 = Table(other, "w", "a", kind="VIEW")
    name = "fk" if s["same"] else None
    for k, fk in enumerate(s["fk"].split("+")):
        if fk in ("a", "c"):
            t.fks.append((name if name and not k else f"s_fk{k}", ("x",), r, (fk,)))
        elif fk in ("a,b", "b,a"):
            t.fks.append((name or "s_fk", ("x", "y"), r, tuple(fk.split(","))))
        elif fk == "other":
            t.fks.append((name or "s_fk", ("x",), r2, ("zz",)))
        elif fk == "self":
            r.fks.append((name or "s_fk", ("c",), r, ("a",)))
    if s["fk"] != "none":
        u.fks.append(("fk", ("x",), r2, ("zz",)))
    s2.fks.append(("fk", ("y",), r2, ("zz",)))
    return [r, t, u, v, r2, s2, v2, w2]


def states(deep):
    for pk in ((), ("a",), ("a", "b")):
        for k in range(3 if deep else 2):
            for index in itertools.combinations(INDEXES, k):
                for uniq in (False, True):
                    for fk in FKS:
                        if ("a" in fk.split("+") or fk == "self") and pk != ("a",) or "c" in fk.split("+") and not uniq or "," in fk and pk != ("a", "b"):
                            continue
                        for same in (False, True) if fk != "none" else (False,):
                            yield dict(pk=pk, index=index, uniq=uniq, fk=fk, same=same)


# -- the catalogs ------------------------------------------------------------------------------------------------------------------
STD = [
    "CREATE TABLE std.tables (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, table_type VARCHAR, table_rows BIGINT)",
    "CREATE TABLE std.columns (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, ordinal_position INTEGER, is_nullable VARCHAR, data_type VARCHAR, column_type VARCHAR, column_key VARCHAR)",
    "CREATE TABLE std.table_constraints (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, constraint_type VARCHAR)",
    "CREATE TABLE std.key_column_usage (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, ordinal_position INTEGER, "
    "position_in_unique_constraint INTEGER, referenced_table_schema VARCHAR, referenced_table_name VARCHAR, referenced_column_name VARCHAR)",
    "CREATE TABLE std.constraint_column_usage (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR)",
    "CREATE TABLE std.referential_constraints (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, unique_constraint_catalog VARCHAR, unique_constraint_schema VARCHAR, unique_constraint_name VARCHAR, "
    "table_name VARCHAR, referenced_table_name VARCHAR)",
    "CREATE TABLE std.statistics (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, non_unique INTEGER, index_schema VARCHAR, index_name VARCHAR, seq_in_index INTEGER, column_name VARCHAR, cardinality BIGINT)",
]
PG = [
    "CREATE TYPE regclass AS VARCHAR", "CREATE TYPE regnamespace AS VARCHAR",
    "CREATE TABLE pg_namespace (oid INTEGER, nspname VARCHAR)",
    "CREATE TABLE pg_class (oid INTEGER, relname VARCHAR, relnamespace INTEGER, relkind VARCHAR)",
    "CREATE TABLE pg_attribute (attrelid INTEGER, attname VARCHAR, attnum SMALLINT, attnotnull BOOLEAN, attisdropped BOOLEAN)",
    "CREATE TABLE pg_index (indexrelid INTEGER, indrelid INTEGER, indnatts SMALLINT, indnkeyatts SMALLINT, indisunique BOOLEAN, indisprimary BOOLEAN, indisvalid BOOLEAN, indkey SMALLINT[])",
    "CREATE TABLE pg_constraint (oid INTEGER, conname VARCHAR, connamespace INTEGER, contype VARCHAR, conrelid INTEGER, confrelid INTEGER, conindid INTEGER, conkey SMALLINT[], confkey SMALLINT[])",
]
CATALOG = {"Postgres": "pgdb", "Standard": "pgdb", "MySQL": "def"}
MAIN = {"Postgres": "public", "Standard": "public", "MySQL": "mydb"}


class Server:
    """the catalogs of one system, filled for a declared schema"""

    template = None

    def __init__(self, kind, tables):
        self.kind = kind
        self.con = duckdb.connect(":memory:")
        self.con.execute("CREATE SCHEMA std")
        for ddl in STD + (PG if kind == "Postgres" else []):
            self.con.execute(ddl)
        self.rows = {}
        cat = CATALOG[kind]
        oid = itertools.count(100)
        ns = {}
        for t in tables:
            if t.ns not in ns:
                ns[t.ns] = next(oid)
                self.add("pg_namespace", ns[t.ns], t.ns)
        oids = {id(t): next(oid) for t in tables}
        for t in reversed(tables):
            self.add("std.tables", cat, t.ns, t.name, t.kind, 100 + len(t.cols) if kind == "MySQL" else None)
            self.add("pg_class", oids[id(t)], t.name, ns[t.ns], "r" if t.kind != "VIEW" else "v")
            for k, c in reversed(list(enumerate(t.cols, 1))):  # the order of rows in the catalogs carries no meaning
                key = ""
                if kind == "MySQL":
                    first = [(cs, p, u) for cs, p, u in t.indexes.values() if cs[0] == c]
                    key = "PRI" if c in t.pk else "UNI" if any(u and len(cs) == 1 for cs, _, u in first) else "MUL" if first or any(f[1][0] == c for f in t.fks) else ""
                typ = TYPES[kind][TYPE[c]]
                self.add("std.columns", cat, t.ns, t.name, c, k, "NO" if c in t.notnull else "YES", typ.split("(")[0], typ, key)
                self.add("pg_attribute", oids[id(t)], c, k, c in t.notnull, False)
            for name, (cs, primary, unique) in t.indexes.items():
                i = next(oid)
                self.add("pg_class", i, name, ns[t.ns], "i")
                self.add("pg_index", i, oids[id(t)], len(cs), len(cs), unique, primary, True, [t.cols.index(c) + 1 for c in cs])
                shown = "PRIMARY" if primary and kind == "MySQL" else name
                for k, c in enumerate(cs, 1):
                    self.add("std.statistics", cat, t.ns, t.name, 0 if unique else 1, t.ns, shown, k, c, 10 * k + len(t.cols))
                if unique:
                    self.add("std.table_constraints", cat, t.ns, shown, cat, t.ns, t.name, "PRIMARY KEY" if primary else "UNIQUE")
                    self.add("pg_constraint", next(oid), name, ns[t.ns], "p" if primary else "u", oids[id(t)], 0, i, [t.cols.index(c) + 1 for c in cs], None)
                    for k, c in enumerate(cs, 1):
                        self.add("std.key_column_usage", cat, t.ns, shown, cat, t.ns, t.name, c, k, None, None, None, None)
                        self.add("std.constraint_column_usage", cat, t.ns, t.name, c, cat, t.ns, shown)
            for name, cs, target, tcs in t.fks:
                self.add("std.table_constraints", cat, t.ns, name, cat, t.ns, t.name, "FOREIGN KEY")
                self.add("pg_constraint", next(oid), name, ns[t.ns], "f", oids[id(t)], oids[id(target)], 0, [t.cols.index(c) + 1 for c in cs], [target.cols.index(c) + 1 for c in tcs])
                uname, ucols = next((n, x[0]) for n, x in target.indexes.items() if x[2] and set(x[0]) == set(tcs))
                self.add("std.referential_constraints", cat, t.ns, name, cat, target.ns, "PRIMARY" if kind == "MySQL" and target.indexes[uname][1] else uname, t.name, target.name)
                for k, (c, tc) in enumerate(zip(cs, tcs), 1):
                    ref = (target.ns, target.name, tc) if kind == "MySQL" else (None, None, None)
                    self.add("std.key_column_usage", cat, t.ns, name, cat, t.ns, t.name, c, k, ucols.index(tc) + 1, *ref)
                    self.add("std.constraint_column_usage", cat, target.ns, target.name, tc, cat, t.ns, name)
                if kind == "MySQL":  # an index is created for each foreign key
                    for k, c in enumerate(cs, 1):
                        self.add("std.statistics", cat, t.ns, t.name, 1, t.ns, name, k, c, 10 * k + len(t.cols))
        for table, rows in self.rows.items():
            if table.startswith("std.") or kind == "Postgres":
                self.con.executemany(f"INSERT INTO {table} VALUES ({', '.join('?' * len(rows[0]))})", rows)
        self.cur = Cursor(self)
        self.answers = {}

    def add(self, table, *row):
        self.rows.setdefault(table, []).append(row)

    # what the schema interfaces use of a database
    def cursor(self):
        return self.cur

    def database_name(self):
        return "mydb" if self.kind == "MySQL" else CATALOG[self.kind]

    def close(self):
        self.con.close()


class ProgrammingError(Exception):
    pass


class Cursor:
    def __init__(self, server):
        self.server = server
        self.result = None

    def execute(self, query, parameters=None, **kw):
        q = str(query)
        low = q.lower()
        kind = self.server.kind
        if kind == "MySQL":
            if parameters is not None and not isinstance(parameters, (tuple, list, dict)):
                raise ProgrammingError(f"Could not process parameters: {type(parameters).__name__}({parameters}), it must be of type list, tuple or dict")
            for missing in ("current_schema()", "current_database()", "constraint_column_usage"):
                if missing in low:
                    raise ProgrammingError(f"{missing} does not exist in MySQL")
        elif "std." in low or "database()" in low.replace("current_database()", ""):
            raise ProgrammingError(q)
        sub = [(r"current_database\(\)", f"'{CATALOG[kind]}'"), (r"current_schema\(\)", f"'{MAIN[kind]}'"), (r"\b(database|schema)\(\)", f"'{MAIN[kind]}'"), (r"information_schema\.", "std."), (r"%s", "?"), (r"::regnamespace|::regclass", "")]
        for a, b in sub:
            q = re.sub(a, b, q, flags=re.I)
        key = (q, tuple(parameters or ()))
        if key not in self.server.answers:  # the catalogs do not change
            self.server.answers[key] = self.server.con.execute(q, list(key[1])).fetchall() if key[1] else self.server.con.execute(q).fetchall()
        self.result = list(self.server.answers[key])
        return self

    def fetchall(self):
        out, self.result = self.result, []
        return out

    def fetchone(self):
        return self.result.pop(0) if self.result else None

    def close(self):
        pass


# -- the questions -----------------------------------------------------------------------------------------------------------------
class Standard(pbdb.DatabaseSchema):
    pass


def interface(kind, server):
    if kind == "Postgres":
        return postgres.PostgresSchemaInterface(server)
    if kind == "MySQL":
        return mysql.MysqlSchemaInterface(server)
    return Standard(server)


def p_lookups(deep):
    def fn(acc, i, n):
        for kind, s in sliced([(kind, s) for kind in ("Postgres", "MySQL", "Standard") for s in states(deep) if kind == "Postgres" or not s["same"]], i, n):
            tables = declare(s, MAIN[kind], "s2")
            server = Server(kind, tables)
            try:
                for ns in ("", "s2", MAIN[kind]):
                    acc.case((kind, str(s), ns), kind)
                    one(acc, kind, s, ns, {t.name: t for t in tables if t.ns == (ns or MAIN[kind])}, tables, interface(kind, server), server)
            finally:
                server.close()

    return fn


def one(acc, kind, s, ns, declared, tables, schema, server):
    where = f"[{kind}{' named schema' if ns else ''}]"

    def ask(what, call, want, detail, *errors):
        acc.step()
        try:
            got = call()
        except errors:
            got = "error"
        except Exception as e:  # noqa: BLE001
            acc.violate(f"{what} fails {type(e).__name__} {where}", f"{s} {detail}: {short(e)}")
            return
        if got != want:
            acc.violate(f"{what} {where}", f"{s} {ns!r} {detail}: {got} instead of {want}")

    def name_of(col):
        return (col.table.schema, col.table.full_name, col.name)

    for t in declared.values():
        ref = TableReference(t.name, schema=ns)
        ask("columns", lambda: [(c.name, c.table) for c in schema.columns(ref)], [(c, ref) for c in t.cols], t.name)
        ask("is_view", lambda: schema.is_view(ref), t.kind == "VIEW", t.name)
        if not ns:
            ask("columns by name", lambda: [c.name for c in schema.columns(t.name)], list(t.cols), t.name)
            ask("is_view by name", lambda: schema.is_view(t.name), t.kind == "VIEW", t.name)
        want = "error" if len(t.pk) > 1 else (t.pk[0], ref) if t.pk else None
        ask("primary_key_column", lambda: (lambda c: c and (c.name, c.table))(schema.primary_key_column(ref)), want, t.name, ValueError)
        for c in t.cols:
            col = ColumnReference(c, ref)
            on = {name: x for name, x in t.indexes.items() if c in x[0]}
            fks = [f for f in t.fks if c in f[1]]
            if kind != "Postgres":  # foreign keys are associated with an index
                on |= {f[0]: (f[1], False, False) for f in fks}
            if kind == "MySQL":
                on = {"PRIMARY" if x[1] else name: x for name, x in on.items()}
            if kind == "Standard":  # other indexes are not visible
                on = {name: x for name, x in on.items() if x[2] or name in {f[0] for f in fks}}
            single = any(len(x[0]) == 1 and not x[1] for x in on.values())
            ask("is_primary_key", lambda: bool(schema.is_primary_key(col)), c in t.pk, col)
            if kind != "Standard" or all(len(x[0]) == 1 for x in on.values()):
                ask("has_secondary_index", lambda: schema.has_secondary_index(col), single, col)
                ask("has_index", lambda: schema.has_index(col), single or c in t.pk, col)
            ask("indexes_on", lambda: set(schema.indexes_on(col)), set(on), col)
            want = set()
            for _, cs, target, tcs in fks:
                tns = ns if target.ns == t.ns else target.ns
                want.add((tns, target.name, tcs[cs.index(c)]))
            ask("foreign_keys_on", lambda: {name_of(x) for x in schema.foreign_keys_on(col)}, want, col)
            ask("datatype", lambda: schema.datatype(col), TYPES[kind][TYPE[c]], col)
            ask("is_nullable", lambda: schema.is_nullable(col), c not in t.notnull, col)
        if kind == "Postgres":
            for name, (cs, *_) in t.indexes.items():
                args = {} if not ns else {"schema": ns}
                ask("indexed_column", lambda: (lambda c: (c.table.full_name, c.name, c.table.schema in (ns, "" if ns == "public" else ns)))(schema.indexed_column(name, **args)), (t.name, cs[0], True), name)
    if not ns:  # the columns that are connected by foreign keys
        classes = []
        for t in declared.values():
            for _, cs, target, tcs in t.fks:
                tns = "" if target.ns == t.ns else target.ns
                for x, y in zip(cs, tcs):
                    link = {("", t.name, x), (tns, target.name, y)}
                    hit = [k for k in classes if k & link]
                    classes = [k for k in classes if k not in hit] + [link.union(*hit)]
        ask("join_equivalence_classes", lambda: sorted(sorted(map(name_of, k)) for k in schema.join_equivalence_classes()), sorted(map(sorted, classes)), "")
        ask("join_equivalence_keys", lambda: {name_of(x): set(map(name_of, k)) for x, k in schema.join_equivalence_keys().items()}, {x: k for k in classes for x in k}, "")
    # the table that provides a column
    if s["index"] or s["fk"] not in ("none", "a"):
        return
    refs = [TableReference(t.name, schema=ns) for t in declared.values()]
    for cand in itertools.permutations(refs, 2):
        for c in ("a", "x", "zz", "nope"):
            want = next((r for r in cand if c in declared[r.full_name].cols), None)
            for arg in (c, ColumnReference(c)):
                ask("lookup_column", lambda: schema.lookup_column(arg, cand), want, f"{c} in {cand}")
                ask("lookup_column from a generator", lambda: schema.lookup_column(arg, (x for x in cand)), want, f"{c} in {cand}")
                ask("lookup_column with expected match", lambda: schema.lookup_column(arg, list(cand), expect_match=True), want or "error", f"{c} in {cand}", ValueError)
    if ns == "s2":
        mixed = [TableReference("r"), TableReference("r", schema="s2")]
        for cand in (mixed, mixed[::-1]):
            ask("lookup_column in both schemas", lambda: schema.lookup_column("zz", cand), mixed[1], cand)
            ask("lookup_column in both schemas", lambda: schema.lookup_column("b", cand), mixed[0], cand)
    virtual = ColumnReference("a", TableReference.create_virtual("r"))
    for f in ("is_primary_key", "has_secondary_index", "has_index", "indexes_on", "foreign_keys_on", "datatype", "is_nullable"):
        ask(f"{f} of an unbound column", lambda: getattr(schema, f)(ColumnReference("a")), "error", f, UnboundColumnError)
        if kind != "Standard":
            ask(f"{f} of a virtual table", lambda: getattr(schema, f)(virtual), "error", f, VirtualTableError)
    if not ns:
        ask("is_view of a missing table", lambda: schema.is_view("nope"), "error", "nope", ValueError)
        with contextlib.suppress(AttributeError):
            if kind == "Postgres":
                ask("indexed_column of a missing index", lambda: schema.indexed_column("nope"), None, "nope")


def p_tables(acc, i, n):
    """sequences of requests for the tables of the database; what the caller does with an answer must not matter"""
    for kind in ("Postgres", "MySQL", "Standard"):
        calls = [{}, {"include_system_tables": False}]
        if kind == "Postgres":
            calls += [{"schema": "s2"}, {"include_system_tables": True}, {"schema": "s2", "include_system_tables": True}]
        for hist in sliced(list(itertools.chain.from_iterable(itertools.product(calls, repeat=k) for k in (1, 2, 3))), i, n):
            acc.case((kind, str(hist)), kind)
            s = dict(pk=("a",), index=(), uniq=False, fk="none", same=False)
            tables = declare(s, MAIN[kind], "s2")
            if kind == "Postgres":
                tables.append(Table("public", "pg_x", "a"))
            server = Server(kind, tables)
            schema = interface(kind, server)
            for args in hist:
                acc.step()
                want = {t.name for t in tables if t.ns == args.get("schema", MAIN[kind]) and (args.get("include_system_tables") or not t.name.startswith("pg_"))}
                try:
                    got = schema.tables(**args)
                    if {t.full_name for t in got} != want:
                        acc.violate(f"tables after {len(hist) > 1} [{kind}]", f"{hist}: {got} instead of {want} for {args}")
                        break
                    got.clear()
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"tables fails {type(e).__name__} [{kind}]", f"{hist}: {short(e)}")
                    break
            server.close()


def p_mysql_stats(acc, i, n):
    """the statistics that MySQL stores in its catalogs"""
    for s in sliced(list(states(False)), i, n):
        tables = declare(s, "mydb", "s2")
        server = Server("MySQL", tables)
        for ns in ("", "s2"):
            acc.case((str(s), ns), "MySQL")
            stats = mysql.MysqlStatisticsInterface(server)
            stats.emulated, stats.enable_emulation_fallback = False, False
            for t in tables:
                if t.ns != (ns or "mydb") or t.kind == "VIEW":
                    continue
                ref = TableReference(t.name, schema=ns)
                acc.step()
                try:
                    got = stats.total_rows(ref)
                    if got != 100 + len(t.cols):
                        acc.violate("MySQL: row count", f"{s} {ref!r}: {got}")
                    for c in t.cols:
                        leading = any(cs[0] == c for cs, *_ in t.indexes.values()) or any(f[1][0] == c for f in t.fks)
                        got = stats.distinct_values(ColumnReference(c, ref))
                        if got != (10 + len(t.cols) if leading else None):
                            acc.violate("MySQL: distinct values", f"{s} {ref!r} {c}: {got}")
                except Exception as e:  # noqa: BLE001
                    acc.violate(f"MySQL: statistics fail {type(e).__name__}", f"{s} {ref!r}: {short(e)}")
        server.close()


def run(c: Check):
    c.part("lookups", p_lookups(c.thorough))
    c.part("tables", p_tables)
    c.part("statistics of MySQL", p_mysql_stats)
    c.finish()


run(Check("P31", "model_checking",
          "every combination of primary key, unique constraint, (compound) indexes and foreign keys (compound, several, self, cross-schema, same constraint name) over small tables in two schemas with equally named tables; "
          "each lookup on every table and column is compared with the declaration; all sequences of up to three requests for the tables; the catalogs are tables of an embedded engine that executes the actual catalog queries",
          ["the catalog tables have the content that the manuals of Postgres and MySQL describe", "the embedded engine evaluates the catalog queries like Postgres and MySQL"]))
