"""Independent name resolution for SELECT statements: PostgreSQL's scoping rules on PostgreSQL's AST."""
from __future__ import annotations

import copy


class Invalid(Exception):
    """a reference that no visible table can supply; args: qualifier or None, column"""


class Skip(Exception):
    """outside of the checked space: ambiguous names, duplicate aliases, unknown columns of a visible table, whole-row references"""


class Rel:
    __slots__ = ("alias", "ident", "cols", "function")

    def __init__(self, alias, ident, cols, function=False):
        self.alias, self.ident, self.cols, self.function = alias, ident, list(cols), function  # ident: (full name, alias, virtual)


class Resolver:
    def __init__(self, catalog):
        self.catalog = catalog
        self.bound = []  # (column, ident) of every bound reference
        self.declared = set()  # columns which VALUES lists introduce
        self.bad = []  # unresolvable references: (qualifier, column)

    def resolve(self, stmt):
        """qualifies the references of the statement in place"""
        self.query(stmt, [], {})
        return stmt

    # -- queries

    def query(self, s, outer, ctes):
        ctes = dict(ctes)
        if "withClause" in s:
            w = s["withClause"]
            rec = w.get("recursive", False)
            for e in w["ctes"]:
                cte = e["CommonTableExpr"]
                if rec:  # visible in itself, with the columns of the non-recursive part
                    base = cte["ctequery"]["SelectStmt"]
                    while base.get("op", "SETOP_NONE") != "SETOP_NONE":
                        base = base["larg"]
                    names = [c["String"]["sval"] for c in cte.get("aliascolnames", ())]
                    cols = Resolver(self.catalog).query(copy.deepcopy(base), outer, ctes)
                    ctes[cte["ctename"]] = names + cols[len(names):]
                cols = self.query(cte["ctequery"]["SelectStmt"], outer, ctes)
                names = [c["String"]["sval"] for c in cte.get("aliascolnames", ())]
                ctes[cte["ctename"]] = names + cols[len(names):]
        if s.get("op", "SETOP_NONE") != "SETOP_NONE":
            cols = self.query(s["larg"], outer, ctes)
            self.query(s["rarg"], outer, ctes)
            for item in s.get("sortClause", ()):
                node = item["SortBy"]["node"]
                name = bare(node)
                if name is None:
                    if "ColumnRef" in node:
                        raise Skip("qualified order of a set operation")
                    raise Skip("order of set operation")
                if name not in cols:
                    self.bad.append((None, name))
            return cols
        if "valuesLists" in s:
            for row in s["valuesLists"]:
                for x in row["List"]["items"]:
                    self.expr(x, outer, ctes)
            return [f"column{k + 1}" for k in range(len(s["valuesLists"][0]["List"]["items"]))]
        rels = []
        for item in s.get("fromClause", ()):
            rels += self.source(item, rels, outer, ctes)
        names = [r.alias for r in rels if r.alias]
        if len(set(names)) != len(names):
            raise Skip("duplicate alias")
        scopes = [rels] + outer
        out, aliases = [], []
        for t in s.get("targetList", ()):
            target = t["ResTarget"]
            val = target["val"]
            if "ColumnRef" in val and "A_Star" in val["ColumnRef"]["fields"][-1]:
                f = val["ColumnRef"]["fields"]
                if len(f) == 1:
                    out += [c for r in rels for c in r.cols]
                else:
                    out += self.find_rel(f[0]["String"]["sval"], scopes).cols
                continue
            name = target.get("name")
            if name is None:
                name = val["ColumnRef"]["fields"][-1]["String"]["sval"] if "ColumnRef" in val else None
            out.append(name or "?column?")
            if name:
                aliases.append(name)
            self.expr(val, scopes, ctes)
        # a target without alias produces the name of its column, which denotes the same value
        explicit = [t["ResTarget"].get("name") for t in s.get("targetList", ())]
        plain = {}
        for t in s.get("targetList", ()):
            v = t["ResTarget"]["val"]
            if t["ResTarget"].get("name") is None and "ColumnRef" in v and "A_Star" not in v["ColumnRef"]["fields"][-1]:
                plain[v["ColumnRef"]["fields"][-1]["String"]["sval"]] = v["ColumnRef"]["fields"]
        for x in s.get("distinctClause", ()):
            if x:
                self.output_ref(x, explicit, plain, scopes, ctes, True)
        if "whereClause" in s:
            self.expr(s["whereClause"], scopes, ctes)
        for x in s.get("groupClause", ()):
            self.output_ref(x, explicit, plain, scopes, ctes, False)
        if "havingClause" in s:
            self.expr(s["havingClause"], scopes, ctes)
        for x in s.get("sortClause", ()):
            self.output_ref(x["SortBy"]["node"], explicit, plain, scopes, ctes, True)
        for k in ("limitCount", "limitOffset"):
            if k in s:
                self.expr(s[k], scopes, ctes)
        return out

    def output_ref(self, node, explicit, plain, scopes, ctes, output_first):
        """ORDER BY and DISTINCT ON prefer output names, GROUP BY prefers the columns of the tables in FROM"""
        name = bare(node)
        if name is None:
            self.expr(node, scopes, ctes)
            return
        n_out = explicit.count(name) + (name in plain)
        if not output_first:
            matches = [r for r in scopes[0] if name in r.cols] if scopes else []
            if matches or not n_out:
                self.expr(node, scopes, ctes)
                return
        if n_out > 1:
            raise Skip("ambiguous output name")
        if name in explicit:
            return  # refers to the result
        if name in plain:
            node["ColumnRef"]["fields"] = copy.deepcopy(plain[name])
            f = plain[name]
            if len(f) == 2:
                self.find(f[0]["String"]["sval"], name, scopes, ctes)
            return
        self.expr(node, scopes, ctes)

    # -- FROM

    def source(self, item, left, outer, ctes):
        (kind, v), = ((k, x) for k, x in item.items())
        if kind == "RangeVar":
            al = v.get("alias", {}).get("aliasname", "")
            name = v["relname"]
            if name in ctes and "schemaname" not in v:
                ident = (name, al, True) if al else ("", name, True)
                return [Rel(al or name, ident, ctes[name])]
            if name not in self.catalog:
                raise Skip("unknown relation")
            return [Rel(al or name, (name, al, False), self.catalog[name])]
        if kind == "RangeSubselect":
            sub = v["subquery"]["SelectStmt"]
            cols = self.query(sub, ([list(left)] if v.get("lateral") else []) + outer, ctes)
            al = v.get("alias", {})
            names = [c["String"]["sval"] for c in al.get("colnames", ())]
            if "valuesLists" in sub:
                self.declared |= {(c, ("", al.get("aliasname", ""), True)) for c in names}
            return [Rel(al.get("aliasname", ""), ("", al.get("aliasname", ""), True), names + cols[len(names):])]
        if kind == "RangeFunction":
            self.expr(v["functions"], [list(left)] + outer, ctes)
            al = v.get("alias", {}).get("aliasname", "")
            if not al:
                raise Skip("unnamed function")
            return [Rel(al, ("", al, True), [al], True)]
        if kind == "JoinExpr":
            a = self.source(v["larg"], left, outer, ctes)
            b = self.source(v["rarg"], left + a, outer, ctes)
            if "quals" in v:
                self.expr(v["quals"], [a + b] + outer, ctes)
            return a + b
        raise Skip(kind)

    # -- expressions

    def expr(self, n, scopes, ctes):
        if isinstance(n, list):
            for x in n:
                self.expr(x, scopes, ctes)
            return
        if not isinstance(n, dict):
            return
        for k, v in n.items():
            if k == "ColumnRef":
                self.colref(v, scopes, ctes)
            elif k == "SelectStmt":
                self.query(v, scopes, ctes)
            else:
                self.expr(v, scopes, ctes)

    def colref(self, v, scopes, ctes):
        f = v["fields"]
        if "A_Star" in f[-1]:
            return
        if len(f) == 1:
            rel = self.find(None, f[0]["String"]["sval"], scopes, ctes)
            if rel is not None and rel.alias:
                v["fields"] = [{"String": {"sval": rel.alias}}, f[0]]
        else:
            self.find(f[0]["String"]["sval"], f[1]["String"]["sval"], scopes, ctes)

    def find_rel(self, qual, scopes):
        for rels in scopes:
            for r in rels:
                if r.alias == qual:
                    return r
        raise Skip("unknown star")

    def find(self, qual, col, scopes, ctes):
        for rels in scopes:
            if qual is not None:
                hits = [r for r in rels if r.alias == qual]
                if hits and col not in hits[0].cols:
                    raise Skip("unknown column of a visible table")
            else:
                hits = [r for r in rels if col in r.cols]
            if len(hits) > 1:
                raise Skip("ambiguous")
            if not hits and qual is None and any(r.function for r in rels):
                raise Skip("a function might provide the column")
            if hits:
                self.bound.append((col, hits[0].ident))
                return hits[0]
        if qual is None and any(r.alias == col for rels in scopes for r in rels):
            raise Skip("whole row")
        if qual in ctes:
            raise Skip("reference to a CTE that is not part of FROM")  # the library accepts this extension
        self.bad.append((qual, col))
        return None


def bare(node):
    if "ColumnRef" not in node:
        return None
    f = node["ColumnRef"]["fields"]
    return f[0]["String"]["sval"] if len(f) == 1 and "String" in f[0] else None


def colrefs(n, out=None):
    """all references in syntactic order"""
    out = [] if out is None else out
    if isinstance(n, list):
        for x in n:
            colrefs(x, out)
    elif isinstance(n, dict):
        for k in sorted(n):
            v = n[k]
            if k == "ColumnRef":
                out.append(tuple(f["String"]["sval"] if "String" in f else "*" for f in v["fields"]))
            else:
                colrefs(v, out)
    return out
