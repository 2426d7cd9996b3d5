"""Independent reading of SQL text through PostgreSQL's own grammar (pglast), normalised for comparison."""
from __future__ import annotations

import json
from decimal import Decimal

from pglast import parser as _p

_DROP = {"location", "stmt_len", "stmt_location", "rexpr_list_start", "rexpr_list_end", "list_start", "list_end", "funcformat", "coerceformat", "name_location", "version", "stmtLocation"}


def raw(sql: str):
    return json.loads(_p.parse_sql_json(sql))["stmts"]


def norm(node):
    if isinstance(node, list):
        return [norm(x) for x in node]
    if not isinstance(node, dict):
        return node
    out = {}
    for k, v in node.items():
        if k in _DROP:
            continue
        out[k] = norm(v)
    if "BoolExpr" in out:
        be = out["BoolExpr"]
        if be["boolop"] in ("AND_EXPR", "OR_EXPR"):
            args = []
            for a in be["args"]:
                if isinstance(a, dict) and "BoolExpr" in a and a["BoolExpr"]["boolop"] == be["boolop"]:
                    args.extend(a["BoolExpr"]["args"])
                else:
                    args.append(a)
            be["args"] = args
        elif be["boolop"] == "NOT_EXPR" and be["args"][0].get("A_Expr", {}).get("kind") == "AEXPR_IN" and be["args"][0]["A_Expr"]["name"] == [{"String": {"sval": "="}}]:
            inner = out.pop("BoolExpr")["args"][0]["A_Expr"]  # NOT (a IN b) is a NOT IN b
            out["A_Expr"] = {**inner, "name": [{"String": {"sval": "<>"}}]}
    if "FuncCall" in out:
        names = out["FuncCall"]["funcname"]
        if len(names) > 1 and names[0]["String"]["sval"] == "pg_catalog":
            out["FuncCall"]["funcname"] = names[1:]
    if "limitCount" in out and out["limitCount"].get("A_Const", {}).get("isnull"):
        out.pop("limitCount")  # LIMIT ALL
    if out.get("limitOffset") == {"A_Const": {"ival": {}}} or out.get("limitOffset", {}).get("A_Const", {}).get("isnull"):
        out.pop("limitOffset")  # OFFSET 0, OFFSET NULL
    if "limitOption" in out and "limitCount" not in out and "limitOffset" not in out:
        out["limitOption"] = "LIMIT_OPTION_DEFAULT"
    if "fval" in out and isinstance(out["fval"], str):
        out["fval"] = str(Decimal(out["fval"]).normalize())
    if "CommonTableExpr" in out and "aliascolnames" in out["CommonTableExpr"]:
        _fold_aliases(out["CommonTableExpr"]["ctequery"]["SelectStmt"], out["CommonTableExpr"], "aliascolnames")
    if "RangeFunction" in out:
        out["RangeFunction"].pop("lateral", None)  # functions may always refer to the tables before them
    if "RangeSubselect" in out and "colnames" in out["RangeSubselect"].get("alias", {}):
        _fold_aliases(out["RangeSubselect"]["subquery"]["SelectStmt"], out["RangeSubselect"]["alias"], "colnames")
    if "typeName" in out and isinstance(out["typeName"], dict):
        _typ(out["typeName"])
    if "ExplainStmt" in out:
        opts = {}
        for o in out["ExplainStmt"].get("options", []):
            d = o["DefElem"]
            a = d.get("arg")
            val = True if a is None else (list(a.values())[0])
            if isinstance(val, dict):
                val = list(val.values())[0] if val else 0
            if isinstance(val, str):
                val = {"true": True, "on": True, "false": False, "off": False}.get(val.lower(), val.lower())
            if isinstance(val, int) and not isinstance(val, bool):
                val = bool(val)
            opts[d["defname"]] = val
        if opts.get("format") == "text":
            opts.pop("format")
        if opts.get("analyze") is False:
            opts.pop("analyze")
        out["ExplainStmt"]["options"] = opts
    return out


def _fold_aliases(stmt, holder, key):
    """c(x) AS (SELECT a ...) is the same relation as c AS (SELECT a AS x ...)"""
    while stmt.get("op") != "SETOP_NONE":
        stmt = stmt["larg"]
    targets = stmt.get("targetList")
    if not targets or len(holder[key]) > len(targets):
        return
    for t, a in zip(targets, holder[key]):
        t["ResTarget"]["name"] = a["String"]["sval"]
    holder.pop(key)


def _typ(t):
    if "arrayBounds" in t:
        t["arrayBounds"] = True
    n = t.get("names")
    if n and len(n) > 1 and n[0]["String"]["sval"] == "pg_catalog":
        t["names"] = n[1:]
    if t.get("typemod") == -1:
        t.pop("typemod")


def canon(sql: str) -> str:
    return json.dumps(norm(raw(sql)), sort_keys=True)


def comments(sql: str) -> list[str]:
    """block comments (outside of strings), as the scanner of PostgreSQL sees them"""
    enc = sql.encode()
    return [enc[t.start : t.end + 1].decode() for t in _p.scan(sql) if t.name == "C_COMMENT"]


def walk(node, visit, path=()):
    """pre-order walk over the raw JSON tree; visit(kind, payload, path) for each node object."""
    if isinstance(node, list):
        for i, x in enumerate(node):
            walk(x, visit, path)
    elif isinstance(node, dict):
        for k, v in node.items():
            if isinstance(v, dict) and k[:1].isupper():
                visit(k, v, path)
                walk(v, visit, path + (k,))
            else:
                walk(v, visit, path + (k,))


def diff(a, b, path="") -> str:
    if type(a) is not type(b):
        return f"{path}: {json.dumps(a)[:150]} != {json.dumps(b)[:150]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}: {json.dumps(a.get(k, '<none>'))[:150]} != {json.dumps(b.get(k, '<none>'))[:150]}"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return ""
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: len {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return ""
    return "" if a == b else f"{path}: {a!r} != {b!r}"
