From cfbfd88ca9ea522dd4482dbe7a0130ef8feb689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 001/252] fix: keep operator grouping when formatting
 arithmetic expressions

---
 postbound/qal/_qal.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..89e6ac0 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,10 +648,20 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
+    def _requires_brackets(
+        self, child: SqlExpression, *, right_operand: bool = False
+    ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        if isinstance(child, AbstractPredicate):
+            return True
         if not isinstance(child, MathExpression):
             return False
+        if child.second_arg is None:
+            # unary minus binds stronger than all other operators, but must not be merged with another minus
+            return self.second_arg is None
+        if self.second_arg is None or right_operand:
+            # all operators are left-associative, hence the right operand must never be regrouped
+            return True
         if child.operator == self.operator:
             return False
         if (
@@ -660,13 +670,18 @@ class MathExpression(SqlExpression):
         ):
             return True
 
-        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
-        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
-
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
+        # multiplicative operators bind stronger than additive ones
+        additive_ops = {MathOperator.Add, MathOperator.Subtract}
+        strict_brackets = (
+            child.operator in additive_ops and self.operator not in additive_ops
+        )
 
         # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
+        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
+        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
+        pretty_brackets = (
+            self.operator in lazy_ops and child.operator in eager_ops
+        ) or (self.operator in eager_ops and child.operator in lazy_ops)
 
         return strict_brackets or pretty_brackets
 
@@ -683,7 +698,10 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            first_str = str(self.first_arg)
+            if self._requires_brackets(self.first_arg) or first_str.startswith("-"):
+                first_str = f"({first_str})"
+            return f"{operator_str}{first_str}"
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
@@ -696,7 +714,7 @@ class MathExpression(SqlExpression):
         assert isinstance(self.second_arg, SqlExpression)
         second_str = (
             f"({self.second_arg})"
-            if self._requires_brackets(self.second_arg)
+            if self._requires_brackets(self.second_arg, right_operand=True)
             else str(self.second_arg)
         )
         return f"{first_str} {operator_str} {second_str}"
-- 
2.43.0


From c64176c110423019d5dbffeecc49597cb895060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 002/252] fix: keep nested predicates grouped when formatting
 operands and negations

---
 postbound/qal/_qal.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 89e6ac0..3d5c27c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2476,6 +2476,20 @@ class AbstractPredicate(SqlExpression, abc.ABC):
         raise NotImplementedError
 
 
+def _stringify_operand(expression: SqlExpression) -> str:
+    """Formats the operand of a base predicate. Nested predicates are wrapped in brackets to retain the evaluation order."""
+    if isinstance(expression, UnaryPredicate) and not expression.operation:
+        return _stringify_operand(expression.column)
+    if not isinstance(expression, AbstractPredicate):
+        return str(expression)
+    operand_str = str(expression)
+    already_enclosed = (
+        isinstance(expression, CompoundPredicate)
+        and expression.operation == CompoundOperator.Or
+    )
+    return operand_str if already_enclosed else f"({operand_str})"
+
+
 class BasePredicate(AbstractPredicate, abc.ABC):
     """A base predicate is a predicate that is not composed of any additional child predicates, such as a binary predicate.
 
@@ -2644,7 +2658,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first_str = _stringify_operand(self.first_argument)
+        second_str = _stringify_operand(self.second_argument)
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2807,7 +2823,10 @@ class BetweenPredicate(BasePredicate):
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        column_str = _stringify_operand(self.column)
+        start_str = _stringify_operand(interval_start)
+        end_str = _stringify_operand(interval_end)
+        return f"{column_str} BETWEEN {start_str} AND {end_str}"
 
 
 class InPredicate(BasePredicate):
@@ -2983,7 +3002,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3367,9 +3386,16 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
-        if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        child = self.children
+        if isinstance(child, InPredicate):
+            column_str = _stringify_operand(child.column)
+            return f"{column_str} NOT IN {child._stringify_values()}"
+        if (
+            isinstance(child, CompoundPredicate)
+            and child.operation == CompoundOperator.And
+        ):
+            return f"NOT ({child})"
+        return f"NOT {child}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 79401dce40b65a549d8178fcdea88e374461b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 003/252] fix: retain zero row counts, large integers and
 disabled EXPLAIN options when parsing and formatting

---
 postbound/parser.py         | 67 +++++++++++++++++++++++++++++--------
 postbound/qal/_formatter.py | 12 +++----
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..3c82572 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -663,8 +663,10 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val = pglast_data["ival"]["ival"] if "ival" in pglast_data["ival"] else 0
             return StaticValueExpression(val)
         case "fval":
-            val = pglast_data["fval"]["fval"]
-            return StaticValueExpression(float(val))
+            val: str = pglast_data["fval"]["fval"]
+            # integers that exceed 32 bits are also supplied as fval
+            numeric_val = int(val) if val.lstrip("-").isdigit() else float(val)
+            return StaticValueExpression(numeric_val)
         case "sval":
             return StaticValueExpression(pglast_data["sval"]["sval"])
         case "boolval":
@@ -1838,6 +1840,34 @@ def _pglast_parse_orderby(
     return OrderBy(orderings)
 
 
+def _pglast_parse_row_count(pglast_data: Optional[dict]) -> Optional[int]:
+    """Handler method to parse the number of rows in a *LIMIT* or *OFFSET* clause.
+
+    Parameters
+    ----------
+    pglast_data : Optional[dict]
+        JSON encoding of the row count. Can be *None* if the corresponding clause is not used at all.
+
+    Returns
+    -------
+    Optional[int]
+        The number of rows, or *None* if the number of rows is not restricted (e.g. for **LIMIT ALL**).
+    """
+    if pglast_data is None:
+        return None
+    if "A_Const" not in pglast_data:
+        raise ParserError("Only constants are supported for LIMIT and OFFSET")
+    constant: dict = pglast_data["A_Const"]
+    if constant.get("isnull", False):
+        return None
+    if "ival" in constant:
+        # pglast does not materialize zeros
+        return constant["ival"].get("ival", 0)
+    if "fval" in constant and constant["fval"]["fval"].isdigit():
+        return int(constant["fval"]["fval"])
+    raise ParserError("Unsupported row count: " + str(constant))
+
+
 def _pglast_parse_limit(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> Optional[Limit]:
@@ -1866,18 +1896,16 @@ def _pglast_parse_limit(
     if raw_limit is None and raw_offset is None:
         return None
 
-    if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
-    else:
-        nrows = None
-    if raw_offset is not None:
-        offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
-    else:
-        offset = None
+    if pglast_data.get("limitOption") == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("FETCH FIRST ... WITH TIES is currently not supported")
 
-    normalized_query = query_txt.lower()
+    nrows = _pglast_parse_row_count(raw_limit)
+    offset = _pglast_parse_row_count(raw_offset)
+    if nrows is None and offset is None:
+        # e.g. LIMIT ALL
+        return None
+
+    normalized_query = " ".join(query_txt.lower().split())
     contains_standard_limit = (
         "limit" in normalized_query or "fetch first" in normalized_query
     )
@@ -1978,6 +2006,17 @@ def _pglast_parse_setop(
     )
 
 
+def _pglast_parse_flag(pglast_data: Optional[dict]) -> bool:
+    """Handler method to parse the value of a boolean option, e.g. **EXPLAIN (ANALYZE FALSE)**."""
+    if pglast_data is None:
+        return True
+    if "Boolean" in pglast_data:
+        return pglast_data["Boolean"].get("boolval", False)
+    if "Integer" in pglast_data:
+        return pglast_data["Integer"].get("ival", 0) != 0
+    return pglast_data["String"]["sval"].lower() in ("true", "on")
+
+
 def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
     """Handler method to extract the *EXPLAIN* clause from a query.
 
@@ -2005,7 +2044,7 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
         definition: dict = option["DefElem"]
         match definition["defname"]:
             case "analyze":
-                use_analyze = True
+                use_analyze = _pglast_parse_flag(definition.get("arg"))
             case "format":
                 output_format = definition["arg"]["String"]["sval"]
             case _:
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..0aabae1 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -588,24 +588,24 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From 58d34be4c74e160b38a237ab5e3d70d72aa42caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 004/252] fix: reject or retain SQL features that the parser
 silently dropped

---
 postbound/parser.py | 279 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 212 insertions(+), 67 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 3c82572..b4da027 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -38,7 +38,7 @@ from typing import Literal, Optional, overload
 import pglast
 
 from . import util
-from ._core import ColumnReference, TableReference
+from ._core import ColumnReference, TableReference, quote
 from .db import DatabasePool, DatabaseSchema
 from .qal import (
     AbstractPredicate,
@@ -518,6 +518,26 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+def _pglast_reject_unsupported(pglast_data: dict, unsupported: dict[str, str]) -> None:
+    """Raises an error if a parse tree node uses features that cannot be represented by our query abstraction.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the parse tree node
+    unsupported : dict[str, str]
+        The keys that must not be present, mapped to a human-readable description of the corresponding feature.
+
+    Raises
+    ------
+    ParserError
+        If any of the features is used
+    """
+    for key, description in unsupported.items():
+        if pglast_data.get(key, False):
+            raise ParserError(f"{description} is currently not supported")
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -758,9 +778,17 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     if len(names) > 2:
         raise ParserError("Unknown type format: " + str(pglast_data))
     raw_type = names[-1]["String"]["sval"]
+    if len(names) == 2 and names[0]["String"]["sval"] != "pg_catalog":
+        schema = names[0]["String"]["sval"]
+        return f"{quote(schema)}.{quote(raw_type)}"
+    if raw_type == "interval" and "typmods" in pglast_data:
+        raise ParserError("Interval types with restrictions are not supported")
 
-    # for user-defined types we use get with the same type as argument
-    return _PglastTypeMap.get(raw_type, raw_type)
+    if raw_type in _PglastTypeMap:
+        return _PglastTypeMap[raw_type]
+
+    # this is a user-defined types or a type that we do not know about
+    return quote(raw_type)
 
 
 def _pglast_parse_case(
@@ -810,6 +838,30 @@ def _pglast_parse_case(
     return CaseExpression(cases, simple_expr=simple_expr, else_expr=default_result)
 
 
+_PglastDefaultFrameOptions = 1058
+"""The frame options that the PG parser assigns to window functions that do not specify any frame."""
+
+
+def _pglast_parse_funcname(pglast_data: list[dict]) -> str:
+    """Handler method to parse the (qualified) name of a function.
+
+    Parameters
+    ----------
+    pglast_data : list[dict]
+        JSON encoding of the individual components of the function name.
+
+    Returns
+    -------
+    str
+        The function name
+    """
+    names: list[str] = [elem["String"]["sval"] for elem in pglast_data]
+    if any(name != name.lower() or not name.isidentifier() for name in names):
+        # functions are always formatted as unquoted uppercase identifiers
+        raise ParserError(f"Quoted function names are not supported: {names}")
+    return ".".join(names)
+
+
 def _pglast_parse_expression(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> SqlExpression:
@@ -1008,9 +1060,15 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
+            _pglast_reject_unsupported(
+                expression,
+                {
+                    "agg_order": "ORDER BY in aggregate functions",
+                    "agg_within_group": "WITHIN GROUP",
+                    "func_variadic": "VARIADIC",
+                },
             )
+            funcname = _pglast_parse_funcname(expression["funcname"])
             distinct = expression.get("agg_distinct", False)
             if expression.get("agg_filter", False):
                 filter_expr = _pglast_parse_predicate(
@@ -1037,17 +1095,34 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
+            _pglast_reject_unsupported(
+                expression,
+                {
+                    "agg_order": "ORDER BY in aggregate functions",
+                    "agg_distinct": "DISTINCT in window functions",
+                    "func_variadic": "VARIADIC",
+                },
             )
+            funcname = _pglast_parse_funcname(expression["funcname"])
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
             fn = FunctionExpression(funcname, args)
 
             window_spec: dict = expression["over"]
+            _pglast_reject_unsupported(
+                window_spec,
+                {"name": "Named windows", "refname": "Named windows"},
+            )
+            if window_spec.get("frameOptions") != _PglastDefaultFrameOptions:
+                raise ParserError("Window frames are currently not supported")
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1133,12 +1208,16 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
-                subquery_expression = QuantifierExpression.any(subquery)
+                operator = _pglast_parse_operator(expression["operName"])
+                subquery_expression = QuantifierExpression.any(
+                    SubqueryExpression(subquery)
+                )
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
-                subquery_expression = QuantifierExpression.all(subquery)
+                operator = _pglast_parse_operator(expression["operName"])
+                subquery_expression = QuantifierExpression.all(
+                    SubqueryExpression(subquery)
+                )
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
                 raise NotImplementedError("Subquery handling is not yet implemented")
@@ -1270,6 +1349,12 @@ def _pglast_parse_ctes(
             case "CTEMaterializeNever":
                 force_materialization = False
 
+        _pglast_reject_unsupported(
+            current_cte,
+            {"search_clause": "SEARCH in a CTE", "cycle_clause": "CYCLE in a CTE"},
+        )
+        if "SelectStmt" not in current_cte["ctequery"]:
+            raise ParserError("Only SELECT queries are supported in CTEs")
         query_data = current_cte["ctequery"]["SelectStmt"]
         child_nsp = parent_namespace.open_nested(alias=target_name, source="cte")
         if "targetList" not in query_data and query_data["op"] == "SETOP_NONE":
@@ -1284,8 +1369,11 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _pglast_apply_column_aliases(
+                query_data, current_cte.get("aliascolnames", [])
+            )
             cte_query = _pglast_parse_query(
-                current_cte["ctequery"]["SelectStmt"],
+                query_data,
                 namespace=child_nsp,
                 query_txt=query_txt,
             )
@@ -1299,6 +1387,44 @@ def _pglast_parse_ctes(
     return CommonTableExpression(parsed_ctes, recursive=recursive)
 
 
+def _pglast_apply_column_aliases(query: dict, aliases: list[dict]) -> None:
+    """Renames the output columns of a CTE or a subquery according to its column aliases.
+
+    Our query abstraction does not have a notion of such aliases, but we can assign the names directly to the targets of the
+    *SELECT* clause.
+
+    Parameters
+    ----------
+    query : dict
+        JSON encoding of the query whose columns should be renamed. This will be updated in-place.
+    aliases : list[dict]
+        JSON encoding of the aliases. Can be empty in which case nothing needs to be done.
+
+    Raises
+    ------
+    ParserError
+        If the renaming cannot be expressed by the *SELECT* clause
+    """
+    if not aliases:
+        return
+    if "sortClause" in query or query["limitOption"] != "LIMIT_OPTION_DEFAULT":
+        raise ParserError("Column aliases for ordered queries are not supported")
+    while query["op"] != "SETOP_NONE":
+        query = query["larg"]
+
+    targets: list[dict] = query.get("targetList", [])
+    contains_star = any(
+        "A_Star" in field
+        for target in targets
+        for field in target["ResTarget"]["val"].get("ColumnRef", {}).get("fields", [])
+    )
+    references_output = "groupClause" in query or "distinctClause" in query
+    if contains_star or references_output or len(aliases) > len(targets):
+        raise ParserError("Column aliases cannot be assigned to the SELECT clause")
+    for target, alias in zip(targets, aliases):
+        target["ResTarget"]["name"] = alias["String"]["sval"]
+
+
 def _pglast_try_select_star(
     target: dict, *, distinct: list[SqlExpression] | bool
 ) -> Optional[Select]:
@@ -1408,6 +1534,12 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
         The parsed table reference.
     """
     name = rangevar["relname"]
+    if not rangevar.get("inh", False):
+        raise ParserError("ONLY is currently not supported")
+    _pglast_reject_unsupported(rangevar, {"catalogname": "Referencing catalogs"})
+    _pglast_reject_unsupported(
+        rangevar.get("alias", {}), {"colnames": "Renaming the columns of a table"}
+    )
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
     schema = rangevar.get("schemaname", "")
     return TableReference(name, alias, schema=schema)
@@ -1475,6 +1607,14 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _pglast_reject_unsupported(
+                join_expr,
+                {
+                    "isNatural": "NATURAL JOIN",
+                    "usingClause": "JOIN ... USING",
+                    "alias": "Using an alias for a join",
+                },
+            )
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
@@ -1523,6 +1663,10 @@ def _pglast_parse_from_entry(
 
             if "alias" in raw_subquery:
                 alias: str = raw_subquery["alias"]["aliasname"]
+                _pglast_apply_column_aliases(
+                    raw_subquery["subquery"]["SelectStmt"],
+                    raw_subquery["alias"].get("colnames", []),
+                )
             else:
                 alias = ""
 
@@ -1540,8 +1684,20 @@ def _pglast_parse_from_entry(
 
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
+            _pglast_reject_unsupported(
+                raw_function,
+                {
+                    "is_rowsfrom": "ROWS FROM",
+                    "ordinality": "WITH ORDINALITY",
+                    "coldeflist": "Specifying the columns of a function",
+                },
+            )
 
             if "alias" in raw_function:
+                _pglast_reject_unsupported(
+                    raw_function["alias"],
+                    {"colnames": "Renaming the columns of a function"},
+                )
                 alias: str = raw_function["alias"]["aliasname"]
             else:
                 alias = ""
@@ -1896,9 +2052,6 @@ def _pglast_parse_limit(
     if raw_limit is None and raw_offset is None:
         return None
 
-    if pglast_data.get("limitOption") == "LIMIT_OPTION_WITH_TIES":
-        raise ParserError("FETCH FIRST ... WITH TIES is currently not supported")
-
     nrows = _pglast_parse_row_count(raw_limit)
     offset = _pglast_parse_row_count(raw_offset)
     if nrows is None and offset is None:
@@ -1974,6 +2127,8 @@ def _pglast_parse_setop(
                 if pglast_data.get("all", False)
                 else SetOperator.Union
             )
+        case "SETOP_INTERSECT" | "SETOP_EXCEPT" if pglast_data.get("all", False):
+            raise ParserError("INTERSECT ALL and EXCEPT ALL are not supported")
         case "SETOP_INTERSECT":
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
@@ -2080,6 +2235,18 @@ def _pglast_parse_query(
     SelectStatement
         The parsed query
     """
+    _pglast_reject_unsupported(
+        stmt,
+        {
+            "intoClause": "SELECT INTO",
+            "lockingClause": "Row locking",
+            "windowClause": "Named windows",
+            "groupDistinct": "GROUP BY DISTINCT",
+        },
+    )
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("FETCH FIRST ... WITH TIES is currently not supported")
+
     if stmt["op"] != "SETOP_NONE":
         return _pglast_parse_setop(
             stmt, parent_namespace=namespace, query_txt=query_txt
@@ -2131,9 +2298,8 @@ def _pglast_parse_query(
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
         )
-        if limit_clause is None:
-            raise ParserError(f"Malformed LIMIT/OFFSET clause for query {query_txt}")
-        clauses.append(limit_clause)
+        if limit_clause is not None:
+            clauses.append(limit_clause)
 
     return build_query(clauses)
 
@@ -2163,18 +2329,21 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         var_set_stmt: dict = stmt["VariableSetStmt"]
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
+        _pglast_reject_unsupported(var_set_stmt, {"is_local": "SET LOCAL"})
         var_name = var_set_stmt["name"]
-        var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
+        var_args: list[dict] = var_set_stmt["args"]
+        if len(var_args) != 1 or "A_Const" not in var_args[0]:
+            raise ParserError(f"Unknown variable value: {var_set_stmt}")
+        var_value = _pglast_parse_const(var_args[0]["A_Const"]).value
+        escaped_value = str(var_value).replace("'", "''")
 
-        parsed_stmt = f"SET {var_name} TO '{var_value}';"
+        parsed_stmt = f"SET {var_name} TO '{escaped_value}';"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
 
 
-def _parse_hint_block(
-    raw_query: str, *, set_cmds: list[str], _current_hint_text: list[str] | None = None
-) -> Optional[Hint]:
+def _parse_hint_block(raw_query: str, *, set_cmds: list[str]) -> Optional[Hint]:
     """Handler method to extract the hint block (i.e. preceding comments) from a query
 
     Parameters
@@ -2184,53 +2353,29 @@ def _parse_hint_block(
         comments and does not represent them in the AST in any way.
     set_cmds: list[str]
         *SET* commands that have already been parsed. These will be added to the hint block.
-    _current_hint_text : list[str], optional
-        Internal parameter to keep track of the current hint text. This is used because the parsing logic uses a recursive
-        implementation.
 
     Returns
     -------
     Optional[Hint]
         The hint block if any hints were found, or *None* otherwise.
     """
-    _current_hint_text = _current_hint_text or []
-
-    raw_query = raw_query.lstrip()
-    block_hint = "/*" in raw_query
-    line_hint = raw_query.startswith("--")
-    if not block_hint and not line_hint:
-        prep_stms = "\n".join(set_cmds)
-        hints = "\n".join(_current_hint_text)
-        return Hint(prep_stms, hints) if prep_stms or hints else None
-
-    if line_hint:
-        line_end = raw_query.find("\n")
-        if line_end == -1:
-            # should never be raised b/c parsing should have failed already at this point
-            raise ParserError(f"Unterminated line comment: {raw_query}")
-
-        line_comment = raw_query[:line_end].strip()
-        _current_hint_text.append(line_comment)
-        return _parse_hint_block(
-            raw_query[line_end:],
-            set_cmds=set_cmds,
-            _current_hint_text=_current_hint_text,
-        )
+    hint_text: list[str] = []
+
+    # line comments only count as hints if they precede the query or directly follow another hint
+    allow_line_comment = True
+    for token in pglast.parser.scan(raw_query):
+        match token.name:
+            case "C_COMMENT":
+                hint_text.append(raw_query[token.start : token.end + 1].strip())
+                allow_line_comment = True
+            case "SQL_COMMENT" if allow_line_comment:
+                hint_text.append(raw_query[token.start : token.end + 1].strip())
+            case _:
+                allow_line_comment = False
 
-    # must be block hint
-    block_start = raw_query.find("/*")
-    block_end = raw_query.find("*/")
-    if block_end == -1:
-        # should never be raised b/c parsing should have failed already at this point
-        raise ParserError(f"Unterminated block comment: {raw_query}")
-
-    block_comment = raw_query[block_start : block_end + 2].strip()
-    _current_hint_text.append(block_comment)
-    return _parse_hint_block(
-        raw_query[block_end + 2 :],
-        set_cmds=set_cmds,
-        _current_hint_text=_current_hint_text,
-    )
+    prep_stms = "\n".join(set_cmds)
+    hints = "\n".join(hint_text)
+    return Hint(prep_stms, hints) if prep_stms or hints else None
 
 
 def _apply_extra_clauses(
-- 
2.43.0


From aff5bda098c3be5db4672398b37c2f06b70807df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 005/252] fix: keep operand structure of set operations, nested
 joins and array accesses when formatting

---
 postbound/qal/_formatter.py |  5 ++++-
 postbound/qal/_qal.py       | 43 ++++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 0aabae1..bf1bb01 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -418,7 +418,10 @@ def _quick_format_tablesource(
             elems: list[str] = []
             elems += _quick_format_tablesource(table_source.left, flavor=flavor)
             elems.append(f"{table_source.join_type}")
-            elems += _quick_format_tablesource(table_source.right, flavor=flavor)
+            right_elems = _quick_format_tablesource(table_source.right, flavor=flavor)
+            if isinstance(table_source.right, JoinTableSource):
+                right_elems = ["("] + right_elems + [")"]
+            elems += right_elems
             if table_source.join_condition:
                 elems[-1] += f" ON {table_source.join_condition}"
             elems = [((" " * DefaultIndent) + str(child)) for child in elems]
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3d5c27c..9494966 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1256,6 +1256,8 @@ class ArrayAccessExpression(FunctionExpression):
             index_str = f"[{self._lower_idx}:]"
         else:
             index_str = f"[:{self._upper_idx}]"
+        if isinstance(self._array, ArrayAccessExpression):
+            return f"{self._array}{index_str}"
         return f"({self._array}){index_str}"
 
 
@@ -6959,9 +6961,14 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        joined_str = (
+            f"({self.joined_table})"
+            if isinstance(self.joined_table, JoinTableSource)
+            else str(self.joined_table)
+        )
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.source} {self.join_type} {joined_str}"
+        return f"{self.source} {self.join_type} {joined_str} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
@@ -7702,6 +7709,16 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_set_operand(query: SelectStatement) -> str:
+    """Formats an input query of a set operation, including brackets if they are required to retain the query structure."""
+    query_str = query.stringify(trailing_delimiter=False)
+    requires_brackets = isinstance(query, SetQuery) or any(
+        clause is not None
+        for clause in (query.cte_clause, query.orderby_clause, query.limit_clause)
+    )
+    return f"({query_str})" if requires_brackets else query_str
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7824,8 +7841,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7899,12 +7916,13 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -7994,12 +8012,13 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -10007,9 +10026,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 2304db74e6854e2301831e283253b6fc750f3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 006/252] fix: retain CTE structure, array types and signs in
 pretty-printed queries

---
 postbound/qal/_formatter.py | 65 +++++++++++--------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index bf1bb01..e3a54c1 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -178,12 +178,19 @@ def _quick_format_cte(
     """
     recursive_info = "RECURSIVE " if cte_clause.recursive else ""
 
-    if len(cte_clause.queries) == 1:
-        cte_query = cte_clause.queries[0]
+    formatted_parts: list[str] = []
+    for i, cte_query in enumerate(cte_clause.queries):
+        match cte_query.materialized:
+            case None:
+                mat_info = ""
+            case True:
+                mat_info = "MATERIALIZED "
+            case False:
+                mat_info = "NOT MATERIALIZED "
+
         if isinstance(cte_query, ValuesWithQuery):
             cte_structure = ", ".join(quote(target.name) for target in cte_query.cols)
             cte_structure = f"({cte_structure})" if cte_structure else ""
-            cte_header = f"WITH {quote(cte_query.target_name)}{cte_structure} AS ("
             cte_rows: list[str] = []
             for row in cte_query.rows:
                 row_values = ", ".join(str(value) for value in row)
@@ -191,53 +198,16 @@ def _quick_format_cte(
             cte_rows[0] = f"VALUES {cte_rows[0]}" if cte_rows else ""
             cte_content = ",\n".join(cte_rows)
         else:
-            match cte_query.materialized:
-                case None:
-                    mat_info = ""
-                case True:
-                    mat_info = "MATERIALIZED "
-                case False:
-                    mat_info = "NOT MATERIALIZED "
-
-            cte_header = (
-                f"WITH {recursive_info}{quote(cte_query.target_name)} AS {mat_info}("
-            )
+            cte_structure = ""
             cte_content = format_quick(
                 cte_query.query, flavor=flavor, trailing_semicolon=False
             )
-        cte_content = _increase_indentation(cte_content)
-        cte_footer = ")"
-        return [cte_header, cte_content, cte_footer]
 
-    first_cte, *remaining_ctes = cte_clause.queries
-    first_content = _increase_indentation(
-        format_quick(first_cte.query, flavor=flavor, trailing_semicolon=False)
-    )
-    mat_info = (
-        ""
-        if first_cte.materialized is None
-        else ("MATERIALIZED " if first_cte.materialized else "NOT MATERIALIZED ")
-    )
-    formatted_parts: list[str] = [
-        f"WITH {recursive_info} {quote(first_cte.target_name)} AS {mat_info}(",
-        first_content,
-    ]
-    for next_cte in remaining_ctes:
-        match next_cte.materialized:
-            case None:
-                mat_info = ""
-            case True:
-                mat_info = "MATERIALIZED "
-            case False:
-                mat_info = "NOT MATERIALIZED "
-
-        current_header = f"), {quote(next_cte.target_name)} AS {mat_info}("
-        cte_content = _increase_indentation(
-            format_quick(next_cte.query, flavor=flavor, trailing_semicolon=False)
+        cte_prefix = f"WITH {recursive_info}" if i == 0 else "), "
+        formatted_parts.append(
+            f"{cte_prefix}{quote(cte_query.target_name)}{cte_structure} AS {mat_info}("
         )
-
-        formatted_parts.append(current_header)
-        formatted_parts.append(cte_content)
+        formatted_parts.append(_increase_indentation(cte_content))
 
     formatted_parts.append(")")
     return formatted_parts
@@ -712,7 +682,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
@@ -1030,6 +1000,9 @@ class _PostgresCastExpression(CastExpression):
             )
             else f"({self.casted_expression})"
         )
+        if casted_str.startswith("-"):
+            # the cast binds stronger than the sign of a negative number
+            casted_str = f"({casted_str})"
         return f"{casted_str}::{type_str}"
 
 
-- 
2.43.0


From 7bf7b1ccc6dd004d8a774b451094c4ed89289bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 007/252] fix: keep unary operators and EXPLAIN formats stable
 when formatting and re-parsing

---
 postbound/parser.py         | 2 +-
 postbound/qal/_formatter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index b4da027..f86336f 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2201,7 +2201,7 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
             case "analyze":
                 use_analyze = _pglast_parse_flag(definition.get("arg"))
             case "format":
-                output_format = definition["arg"]["String"]["sval"]
+                output_format = definition["arg"]["String"]["sval"].upper()
             case _:
                 raise ParserError("Unknown explain option: " + str(definition))
 
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index e3a54c1..92af9fc 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -702,7 +702,7 @@ def _expression_prettifier(
                 )
                 for expr in rhs
             ]
-            replaced_rhs = util.simplify(replaced_rhs)
+            replaced_rhs = util.simplify(replaced_rhs) if replaced_rhs else None
             return target(op, replaced_lhs, replaced_rhs)
         case ArrayAccessExpression(array, ind, lo, hi):
             replaced_array = _expression_prettifier(
-- 
2.43.0


From b8779d710ca1b946c977bb743c1ad9ae1caa4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 008/252] fix: order, compare and divide infinite and unknown
 cardinalities consistently

---
 postbound/_core.py | 106 ++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 65 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..55e9718 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -2,7 +2,9 @@ from __future__ import annotations
 
 import copy
 import math
+import operator
 import re
+from collections.abc import Callable
 from enum import Enum
 from numbers import Number
 from typing import Optional, SupportsFloat, SupportsIndex, TypeGuard, TypeVar
@@ -232,11 +234,15 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        if isinstance(other, (Cardinality, int, float)):
+            return _floor_division(self, other)
+        return NotImplemented
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> Cardinality:
+        if isinstance(other, (int, float)):
+            return _floor_division(other, self)
+        return NotImplemented
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
@@ -272,73 +278,31 @@ class Cardinality(Number):
             return Cardinality(float(other))
         return Cardinality(float(other) % self.value)
 
-    def __lt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
+    def _compare(
+        self, other: object, comparison: Callable[[float, float], bool]
+    ) -> bool:
+        own_value = math.inf if self._inf else self._value
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
+            case Cardinality():
+                if self._nan or other._nan:
                     return False
-                if other._inf:
-                    return True
-                return self.value < otherval
-
+                other_value = math.inf if other._inf else other._value
+                return comparison(own_value, other_value)
             case int() | float():
-                return self.value < other
-
+                return not self._nan and comparison(own_value, other)
         return NotImplemented
 
-    def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
-        match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value <= otherval
-
-            case int() | float():
-                return self.value <= other
+    def __lt__(self, other: object) -> bool:
+        return self._compare(other, operator.lt)
 
-        return NotImplemented
+    def __le__(self, other: object) -> bool:
+        return self._compare(other, operator.le)
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
-        match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value > otherval
-
-            case int() | float():
-                return self.value > other
-
-        return NotImplemented
+        return self._compare(other, operator.gt)
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
-        match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value >= otherval
-
-            case int() | float():
-                return self.value >= other
-
-        return NotImplemented
+        return self._compare(other, operator.ge)
 
     def __float__(self) -> float:
         if self._nan:
@@ -368,7 +332,7 @@ class Cardinality(Number):
                     return True
                 if self._inf and other._inf:
                     return True
-                return self.value == other.value
+                return self._valid and other._valid and self._value == other._value
 
             case int():
                 return self._valid and self.value == other
@@ -376,15 +340,17 @@ class Cardinality(Number):
             case float():
                 if self._nan and math.isnan(other):
                     return True
-                if self._inf and math.isinf(other):
+                if self._inf and other == math.inf:
                     return True
                 return self._valid and self.value == other
 
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # Cardinalities are equal to plain numbers of the same value, so their hashes have to agree
+        if self._nan:
+            return hash((self._nan, self._value))
+        return hash(math.inf) if self._inf else hash(self._value)
 
     def __repr__(self) -> str:
         return str(self)
@@ -397,6 +363,16 @@ class Cardinality(Number):
         return str(self.value)
 
 
+def _floor_division(
+    numerator: Cardinality | int | float, denominator: Cardinality | int | float
+) -> Cardinality:
+    """Provides the rounded-down quotient (dividing the raw values, since quotients of cardinalities are rounded already)."""
+    num, denom = float(numerator), float(denominator)
+    if math.isinf(num):
+        return Cardinality(num / denom)
+    return Cardinality(num // denom)
+
+
 class ScanOperator(Enum):
     """The scan operators supported by PostBOUND.
 
-- 
2.43.0


From a6c2ed5c924dd5f76e23bac6228d5efd2f5638cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 009/252] fix: enumerate linear join orders, partial operator
 assignments and complete plans

---
 postbound/opt/enumeration.py | 32 ++++++++++++++++++--------------
 postbound/opt/randomized.py  | 26 ++++++++++++++++----------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..f8e01b4 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -153,10 +153,6 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
-            return
-
         join_graph = query.predicates().join_graph()
         if len(join_graph.nodes) == 0:
             return
@@ -170,14 +166,18 @@ class ExhaustiveJoinOrderEnumerator:
                 "Cross products are not yet supported for random join order generation!"
             )
 
-        join_order_hashes = set()
-        join_order_generator = _enumerate_join_graph(query, join_graph)
+        join_order_generator = (
+            _enumerate_join_graph(query, join_graph)
+            if self._tree_structure == "bushy"
+            else self._linear_join_orders(query)
+        )
+
+        known_join_orders: set[JoinTree] = set()
         for join_order in join_order_generator:
-            current_hash = hash(join_order)
-            if current_hash in join_order_hashes:
+            if join_order in known_join_orders:
                 continue
 
-            join_order_hashes.add(current_hash)
+            known_join_orders.add(join_order)
             yield join_order
 
     def _linear_join_orders(self, query: SqlQuery) -> Generator[JoinTree, None, None]:
@@ -294,11 +294,13 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
-        tables = list(query.tables())
+        tables = list(join_order.itertables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
         joins = [join.tables() for join in join_order.iterjoins()]
         join_ops = [list(self.allowed_join_ops)] * len(joins)
@@ -365,7 +367,7 @@ class ExhaustiveOperatorEnumerator:
         Generator[PhysicalOperatorAssignment, None, None]
             A generator producing all possible operator assignments. The assignments will not contain any cost estimates, nor
             will they specify join directions or parallization data."""
-        tables = list(query.tables())
+        tables = list(join_order.itertables())
         scans = [list(self.allowed_scan_ops)] * len(tables)
         for scan_selection in itertools.product(*scans):
             current_scan_pairs = zip(tables, scan_selection)
@@ -430,4 +432,6 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(
+                    join_order, query=query, physical_ops=operator_assignment
+                )
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..279b058 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -193,8 +193,10 @@ class RandomJoinOrderGenerator:
         elif len(join_graph.nodes) == 1:
             base_table = list(join_graph.nodes)[0]
             join_tree = JoinTree.scan(base_table)
-            while True:
+            yield join_tree
+            while not self._eliminate_duplicates:
                 yield join_tree
+            return
         elif not nx.is_connected(join_graph):
             raise ValueError(
                 "Cross products are not yet supported for random join order generation!"
@@ -206,14 +208,13 @@ class RandomJoinOrderGenerator:
             else self._linear_join_orders(query, join_graph, base_table=base_table)
         )
 
-        join_order_hashes = set()
+        known_join_orders: set[JoinTree] = set()
         for current_join_order in join_order_generator:
             if self._eliminate_duplicates:
-                current_hash = hash(current_join_order)
-                if current_hash in join_order_hashes:
+                if current_join_order in known_join_orders:
                     continue
                 else:
-                    join_order_hashes.add(current_hash)
+                    known_join_orders.add(current_join_order)
 
             yield current_join_order
 
@@ -559,8 +560,7 @@ class RandomPlanGenerator:
         """
         join_order_generator = self._join_order_generator.random_join_orders_for(query)
         plan_hashes = set()
-        while True:
-            join_order = next(join_order_generator)
+        for join_order in join_order_generator:
             operator_generator = (
                 self._operator_generator.random_operator_assignments_for(
                     query, join_order
@@ -568,7 +568,9 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(
+                join_order, query=query, physical_ops=physical_operators
+            )
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
@@ -646,6 +648,10 @@ class RandomPlanOptimizer(CompleteOptimizationAlgorithm):
 
     def pre_check(self) -> OptimizationPreCheck:
         return CompoundCheck(
-            CrossProductPreCheck(),
-            SupportedHintCheck(self._generator._operator_generator.necessary_hints()),
+            [
+                CrossProductPreCheck(),
+                SupportedHintCheck(
+                    self._generator._operator_generator.necessary_hints()
+                ),
+            ]
         )
-- 
2.43.0


From 29a7c79fbecd82139c07ccd034adb24af6e32a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 010/252] fix: determine plan shapes for all joins and retain
 estimates and measures when updating plans

---
 postbound/_qep.py | 90 ++++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 48 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..5cc52a6 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
@@ -1281,22 +1281,18 @@ class QueryPlan:
 
         As a special case, scan nodes are considered to be linear as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return not self.is_bushy()
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return any(
+            join.outer_child._contains_join() and join.inner_child._contains_join()
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1304,10 +1300,11 @@ class QueryPlan:
         Left deep order means that the plan is linear and all joins are performed with the base table as the inner relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return not any(
+            join.inner_child._contains_join()
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1315,10 +1312,11 @@ class QueryPlan:
         Right deep order means that the plan is linear and all joins are performed with the base table as the outer relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return not any(
+            join.outer_child._contains_join()
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
@@ -1327,10 +1325,14 @@ class QueryPlan:
         to be performed with the base table as the outer relation and another join with the base table as the inner relation.
         As a special case, scan nodes are considered to be zig-zag as well.
         """
-        if self.is_scan():
+        if not self._contains_join():
             return True
         return self.is_linear() and not self.is_left_deep() and not self.is_right_deep()
 
+    def _contains_join(self) -> bool:
+        """Checks, whether the current node or any of its (transitive) child nodes is a join."""
+        return any(node.is_join() for node in self.iternodes())
+
     def is_scan_branch(self) -> bool:
         """Checks, whether the current node directly leads to a scan node.
 
@@ -1341,7 +1343,9 @@ class QueryPlan:
 
         If a plan is a scan branch, `fetch_base_table()` can be used to directly retrieve the base table that is being scanned.
         """
-        return self.is_scan() or (self.input_node and self.input_node.is_scan_branch())
+        return self.is_scan() or (
+            self.input_node is not None and self.input_node.is_scan_branch()
+        )
 
     def is_base_join(self) -> bool:
         """Checks, whether the current node is a join node that joins two base tables.
@@ -1483,30 +1487,14 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
 
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        candidates = self.children if direction == "outer" else self.children[::-1]
+        for candidate in candidates:
+            match = candidate.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match is not None:
+                return match
 
         return (
             self._subplan.root.find_first_node(
@@ -1636,7 +1624,11 @@ class QueryPlan:
         """
         cardinality = self.estimated_cardinality if cardinality is None else cardinality
         cost = self.estimated_cost if cost is None else cost
-        updated_estimates = PlanEstimates(cardinality=cardinality, cost=cost)
+        updated_estimates = PlanEstimates(
+            cardinality=cardinality,
+            cost=cost,
+            **(self._estimates.additional_estimates),
+        )
         updated_measures = self._measures if keep_measures else None
         return QueryPlan(
             self.node_type,
@@ -1761,6 +1753,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1772,13 +1766,13 @@ class QueryPlan:
         else:
             updated_children = self.children
 
-        if self.subplan:
+        if self.subplan and recursive:
             updated_subplan_root = self.subplan.root.scale_cardinality(
-                factor, kind=kind, recursive=recursive
+                factor, kind=kind, recursive=True
             )
             updated_subplan = Subplan(updated_subplan_root, self.subplan.target_name)
         else:
-            updated_subplan = None
+            updated_subplan = self.subplan
 
         return QueryPlan(
             self.node_type,
@@ -1927,13 +1921,13 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif isinstance(key, Iterable) and not isinstance(key, str):
             return set(key).issubset(self.tables())
 
         return (
             key in self._plan_params
             or key in self._estimates
-            or (self._measures and key in self._measures)
+            or (bool(self._measures) and key in self._measures)
         )
 
     def __getitem__(self, key: str) -> Any:
-- 
2.43.0


From 4c1401e20d3a1b1f68c23abf1840d2681e972485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 011/252] fix: look up, compare, merge and export operator
 assignments, parameters and join trees completely

---
 postbound/_hints.py | 106 ++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 38 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..825c2a0 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -501,11 +501,15 @@ class PhysicalOperatorAssignment:
         jsonized = {
             "global_settings": [],
             "scan_operators": [
-                {"table": scan.table, "operator": scan.operator}
+                {
+                    "table": scan.table,
+                    "operator": scan.operator,
+                    "parallel_workers": scan.parallel_workers,
+                }
                 for scan in self.scan_operators.values()
             ],
             "join_operators": [
-                {"intermediate": join.join, "operator": join.operator}
+                join.__json__() | {"intermediate": join.join}
                 for join in self.join_operators.values()
             ],
             "intermediate_operators": [
@@ -555,7 +559,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
@@ -564,12 +568,10 @@ class PhysicalOperatorAssignment:
         self,
         item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, PhysicalOperator):
             return self.global_settings.get(item, None)
-        elif isinstance(item, TableReference):
-            return self.scan_operators.get(item, None)
-        elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+        elif isinstance(item, (TableReference, Iterable)):
+            return self.get(item)
         else:
             return None
 
@@ -579,6 +581,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -588,6 +591,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
@@ -826,6 +830,9 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode or self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
@@ -865,8 +872,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"tables": tables, "cardinality": card}
+                for tables, card in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"tables": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
@@ -879,6 +894,16 @@ class PlanParameterization:
         )
 
 
+def _normalize_workers(workers: float | int) -> float | int:
+    """Makes sure that all unspecified worker counts are represented by the same *NaN* object (to obtain stable hashes)."""
+    return math.nan if math.isnan(workers) else workers
+
+
+def _same_workers(first: float | int, second: float | int) -> bool:
+    """Checks, whether two worker counts are the same. Unspecified (i.e. *NaN*) worker counts are considered to be equal."""
+    return first == second or (math.isnan(first) and math.isnan(second))
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -901,7 +926,7 @@ class ScanOperatorAssignment:
     ) -> None:
         self._operator = operator
         self._table = table
-        self._parallel_workers = parallel_workers
+        self._parallel_workers = _normalize_workers(parallel_workers)
         self._hash_val = hash((self._operator, self._table, self._parallel_workers))
 
     __match_args__ = ("operator", "table", "parallel_workers")
@@ -967,7 +992,7 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _same_workers(self.parallel_workers, other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1014,7 +1039,7 @@ class JoinOperatorAssignment:
             raise ValueError("At least 2 join tables must be given")
         self._operator = operator
         self._join = frozenset(join)
-        self._parallel_workers = parallel_workers
+        self._parallel_workers = _normalize_workers(parallel_workers)
 
         self._hash_val = hash((self._operator, self._join, self._parallel_workers))
 
@@ -1105,7 +1130,7 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _same_workers(self._parallel_workers, other._parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1425,7 +1450,11 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        return (
+            (self._outer.is_scan() or self._inner.is_scan())
+            and self._outer.is_linear()
+            and self._inner.is_linear()
+        )
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
@@ -1507,12 +1536,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         """
         if self.is_empty():
             raise StateError("Cannot update annotation of an empty join tree.")
-        return JoinTree(
-            base_table=self._table,
-            outer_child=self._outer,
-            inner_child=self._inner,
-            annotation=new_annotation,
-        )
+        if self.is_scan():
+            return self.scan(self._table, annotation=new_annotation)
+        return self.join(self._outer, self._inner, annotation=new_annotation)
 
     def join_with(
         self,
@@ -1555,12 +1581,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = self.scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return self.join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1596,7 +1622,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return self.scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
@@ -1620,7 +1646,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         return not self.is_empty()
 
     def __contains__(self, x: object) -> bool:
-        return self.lookup(x)
+        return self.lookup(x) is not None
 
     def __len__(self) -> int:
         return len(self.tables())
@@ -1777,11 +1803,11 @@ def jointree_from_plan(
         else plan.actual_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
@@ -1819,11 +1845,6 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if not math.isnan(card):
-        params.add_cardinality(query_plan.tables(), card)
-    if parallel_workers:
-        params.set_workers(query_plan.tables(), parallel_workers)
-
     for child in query_plan.children:
         child_params = parameters_from_plan(
             child,
@@ -1832,6 +1853,13 @@ def parameters_from_plan(
         )
         params = params.merge_with(child_params)
 
+    # parameters of the current node take precedence over nodes further down that compute the same intermediate
+    tables = query_plan.tables()
+    if card is not None and not math.isnan(card):
+        params.add_cardinality(tables, card)
+    if parallel_workers:
+        params.set_workers(tables, parallel_workers)
+
     return params
 
 
@@ -1845,7 +1873,9 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
@@ -1863,10 +1893,10 @@ def operators_from_plan(
                 parallel_workers=workers,
             )
             assignment.add(operator)
-        case _:
+        case IntermediateOperator():
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From 9a82c51e0a6e8b5daf181ec7e3d615f7e3d73dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 012/252] fix: construct, update and load query plans from join
 trees and JSON data

---
 postbound/opt/_helpers.py | 211 ++++++++++++++++++++++----------------
 postbound/parser.py       |   2 +-
 2 files changed, 125 insertions(+), 88 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..0f62394 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -7,6 +7,7 @@ from typing import Literal, Optional, Union
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -26,7 +27,7 @@ from .._hints import (
     parameters_from_plan,
 )
 from .._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
-from ..qal import SqlQuery
+from ..qal import AbstractPredicate, SqlQuery
 
 
 def read_operator_json(
@@ -119,15 +120,30 @@ def read_operator_assignment_json(json_data: dict | str) -> PhysicalOperatorAssi
     for hint in json_data.get("scan_operators", []):
         parsed_table = parser.load_table_json(hint["table"])
         assignment.scan_operators[parsed_table] = ScanOperatorAssignment(
-            ScanOperator(hint["operator"]), parsed_table
+            ScanOperator(hint["operator"]),
+            parsed_table,
+            hint.get("parallel_workers", math.nan),
         )
 
     for hint in json_data.get("join_operators", []):
         parsed_tables = frozenset(
             parser.load_table_json(tab) for tab in hint["intermediate"]
         )
+        parallel_workers = hint.get("parallel_workers", math.nan)
+        if hint.get("directional", False):
+            assignment.join_operators[parsed_tables] = (
+                DirectionalJoinOperatorAssignment(
+                    JoinOperator(hint["operator"]),
+                    [parser.load_table_json(tab) for tab in hint["inner"]],
+                    [parser.load_table_json(tab) for tab in hint["outer"]],
+                    parallel_workers=parallel_workers,
+                )
+            )
+            continue
         assignment.join_operators[parsed_tables] = JoinOperatorAssignment(
-            JoinOperator(hint["operator"]), parsed_tables
+            JoinOperator(hint["operator"]),
+            parsed_tables,
+            parallel_workers=parallel_workers,
         )
 
     for hint in json_data.get("intermediate_operators", []):
@@ -156,14 +172,14 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     """
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
-    params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
-    }
-    params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
-    }
+    for hint in json_data.get("cardinality_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["tables"]]
+        params.add_cardinality(tables, hint["cardinality"])
+    for hint in json_data.get("parallel_worker_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["tables"]]
+        params.set_workers(tables, hint["workers"])
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode")
     return params
 
 
@@ -212,37 +228,39 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
-    )
+    tables = frozenset(query_plan.tables())
+
+    node_type: str | PhysicalOperator = query_plan.node_type
+    updated_operator = query_plan.operator
+    if operators and not query_plan.is_auxiliary() and tables in operators:
+        updated_operator = operators.get(tables).operator
+        if updated_operator != query_plan.operator:
+            node_type = updated_operator
+
     updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
+        params.cardinalities.get(tables, query_plan.estimated_cardinality)
         if params
         else query_plan.estimated_cardinality
     )
     updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
+        params.parallel_workers.get(tables, query_plan.params.parallel_workers)
         if params
         else query_plan.params.parallel_workers
     )
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=False)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
@@ -306,6 +324,34 @@ def parse_nested_table_sequence(sequence: list[dict | list]) -> NestedTableSeque
         raise TypeError(f"Unknown list element: {sequence}")
 
 
+def _lookup_cardinality(
+    join_tree: JoinTree, plan_params: Optional[PlanParameterization]
+) -> Cardinality:
+    """Determines the cardinality of an intermediate, preferring explicit parameters over annotations of the join tree."""
+    cardinality = (
+        plan_params.cardinalities.get(frozenset(join_tree.tables()))
+        if plan_params
+        else None
+    )
+    if cardinality is None and isinstance(join_tree, LogicalJoinTree):
+        cardinality = join_tree.annotation
+    return Cardinality.unknown() if cardinality is None else Cardinality.of(cardinality)
+
+
+def _lookup_predicate(
+    join_tree: JoinTree, query: Optional[SqlQuery]
+) -> Optional[AbstractPredicate]:
+    """Determines the predicate that has to be evaluated by a specific node of the join tree."""
+    if query is None:
+        return None
+    predicates = query.predicates()
+    if join_tree.is_scan():
+        return predicates.filters_for(join_tree.base_table)
+    return predicates.joins_between(
+        join_tree.outer_child.tables(), join_tree.inner_child.tables()
+    )
+
+
 def _make_simple_plan(
     join_tree: JoinTree,
     *,
@@ -319,12 +365,7 @@ def _make_simple_plan(
     (Estimated) cardinalities can still be customized accroding to the plan parameters. However, parallel workers are ignored.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
-        cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
-        cardinality = join_tree.annotation
-    else:
-        cardinality = math.nan
+    cardinality = _lookup_cardinality(join_tree, plan_params)
 
     if join_tree.is_join():
         operator = join_op
@@ -347,22 +388,15 @@ def _make_simple_plan(
         operator = scan_op
         children = []
 
-    if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
-
-    predicates = query.predicates()
-    filter_condition = (
-        predicates.joins_between(
-            join_tree.outer_child.tables(), join_tree.inner_child.tables()
-        )
-        if join_tree.is_join()
-        else predicates.filters_for(join_tree.base_table)
-    )
     return QueryPlan(
         operator,
         children=children,
+        base_table=None if join_tree.is_join() else join_tree.base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=_lookup_predicate(join_tree, query),
+        parallel_workers=(
+            plan_params.parallel_workers.get(tables, None) if plan_params else None
+        ),
     )
 
 
@@ -384,18 +418,14 @@ def _make_custom_plan(
     parameters. As a fallback, cardinalities from the join tree annotations are used.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
-        cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
-        cardinality = join_tree.annotation
-    else:
-        cardinality = math.nan
+    cardinality = _lookup_cardinality(join_tree, plan_params)
 
     par_workers = (
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assigned_operator = physical_ops.get(tables)
+    operator = assigned_operator.operator if assigned_operator else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
@@ -403,42 +433,37 @@ def _make_custom_plan(
     if not operator:
         raise ValueError("No operator assignment found for join: " + str(tables))
 
+    if par_workers is None and assigned_operator:
+        # NaN indicates an unspecified worker count
+        assigned_workers = assigned_operator.parallel_workers
+        par_workers = None if math.isnan(assigned_workers) else assigned_workers
+
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
-        )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
-        )
+        outer_plan, inner_plan = [
+            _make_custom_plan(
+                child,
+                physical_ops=physical_ops,
+                query=query,
+                plan_params=plan_params,
+                fallback_scan_op=fallback_scan_op,
+                fallback_join_op=fallback_join_op,
+            )
+            for child in join_tree.children
+        ]
         children = (outer_plan, inner_plan)
     else:
         children = []
 
-    if query is None:
-        plan = QueryPlan(
-            operator,
-            children=children,
-            estimated_cardinality=cardinality,
-            parallel_workers=par_workers,
-        )
-    else:
-        predicates = query.predicates()
-        filter_condition = (
-            predicates.joins_between(
-                join_tree.outer_child.tables(), join_tree.inner_child.tables()
-            )
-            if join_tree.is_join()
-            else predicates.filters_for(join_tree.base_table)
-        )
-        plan = QueryPlan(
-            operator,
-            children=children,
-            estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
-            parallel_workers=par_workers,
-        )
+    plan = QueryPlan(
+        operator,
+        children=children,
+        base_table=None if join_tree.is_join() else join_tree.base_table,
+        estimated_cardinality=cardinality,
+        filter_predicate=_lookup_predicate(join_tree, query),
+        parallel_workers=par_workers,
+    )
 
-    intermediate_op = physical_ops.intermediate_operators.get(frozenset(plan.tables()))
+    intermediate_op = physical_ops.intermediate_operators.get(tables)
     if not intermediate_op:
         return plan
     if intermediate_op in {IntermediateOperator.Sort, IntermediateOperator.Memoize}:
@@ -556,18 +581,22 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     sort_keys: list[SortKey] = []
     for sort_key_json in params_json.get("sort_keys", []):
-        sort_column = [
+        sort_columns = [
             parser.load_expression_json(col)
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(
+            SortKey.for_equivalence_class(sort_columns, ascending=ascending)
+        )
 
+    lookup_key = parser.load_expression_json(params_json.get("lookup_key"))
     index = params_json.get("index", "")
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "index", "lookup_key"}
     }
 
     plan_params = PlanParams(
@@ -575,6 +604,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
         index=index,
+        lookup_key=lookup_key,
         **additional_params,
     )
 
@@ -608,9 +638,9 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
         **additional_measures,
     )
 
-    subplan_json: dict = json_data.get("subplan", {})
+    subplan_json: dict | None = json_data.get("subplan")
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
@@ -655,15 +685,19 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    tree_type = JoinTree
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality.of(annotation)
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
 
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
@@ -684,7 +718,10 @@ def explode_query_plan(
         The different components of the query plan
     """
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(
+            query_plan,
+            card_source="estimates" if card_source == "estimated" else card_source,
+        ),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
diff --git a/postbound/parser.py b/postbound/parser.py
index f86336f..feb0c79 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2580,7 +2580,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", ""),
     )
 
 
-- 
2.43.0


From 91dd1ced751130897bc003219be708c953477cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 013/252] fix: falsy queue heads, queue capacities, dictionary
 hashes, inverted multi-dicts and BFS order

---
 postbound/util/collections.py | 12 ++++++------
 postbound/util/dicts.py       | 36 ++++++++++++++++++-----------------
 postbound/util/nx.py          | 23 +++++++++++++++-------
 3 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/postbound/util/collections.py b/postbound/util/collections.py
index 8725046..ca52cce 100644
--- a/postbound/util/collections.py
+++ b/postbound/util/collections.py
@@ -441,10 +441,7 @@ class Queue(Iterable[T], Sized, Container[T]):
         Optional[T]
             The first element if it exists, or ``None`` if the queue is empty.
         """
-        item = self.head()
-        if item:
-            self.data.pop(0)
-        return item
+        return self.data.pop(0) if self.data else None
 
     def __len__(self) -> int:
         return len(self.data)
@@ -486,8 +483,10 @@ class SizedQueue(Collection[T]):
     """
 
     def __init__(self, capacity: int, data: Optional[Iterable[T]] = None) -> None:
-        self.data = list(data) if data else []
+        self.data = []
         self.capacity = capacity
+        if data:
+            self.extend(data)
 
     def append(self, value: T) -> None:
         """Adds a new item to the end of the queue, popping any excess items.
@@ -509,7 +508,8 @@ class SizedQueue(Collection[T]):
         values : Iterable[T]
             The values to add
         """
-        self.data = (self.data + list(values))[: self.capacity]
+        for value in values:
+            self.append(value)
 
     def head(self) -> Optional[T]:
         """Provides the current first item of the queue without removing it.
diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..901e309 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,21 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
+    items = []
+    for key, val in dictionary.items():
         if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
+            items.append((key, hash(val)))
+        elif isinstance(val, list):
+            items.append((key, hash(tuple(val))))
+        elif isinstance(val, set):
+            items.append((key, hash(frozenset(val))))
         elif isinstance(val, dict):
-            values.append(hash_dict(val))
+            items.append((key, hash_dict(val)))
         else:
             warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+            items.append((key, None))
+    # equal dictionaries can store their entries in different orders, the hash must not depend on it
+    return hash(frozenset(items))
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
@@ -178,15 +179,14 @@ def invert_multi(mapping: dict[K, list[V]]) -> dict[V, list[K]]:
     Supppose a multi-dict has the following contents: `{'a': [1, 2], 'b': [2, 3]}`.
     Calling `invert` transforms this mapping to `{1: ['a'], 2: ['a', 'b'], 3: ['b']}`.
     """
-    level1 = {tuple(vs): k for k, vs in mapping.items()}
-    level2: dict[V, list[K]] = {}
-    for vs, k in level1.items():
+    inverted: dict[V, list[K]] = {}
+    for k, vs in mapping.items():
         for v in vs:
-            if v not in level2:
-                level2[v] = [k]
+            if v not in inverted:
+                inverted[v] = [k]
             else:
-                level2[v].append(k)
-    return level2
+                inverted[v].append(k)
+    return inverted
 
 
 def aggregate(dictionaries: Iterable[dict[K, V]]) -> dict[K, Sequence[V]]:
@@ -334,5 +334,7 @@ class frozendict(collections.UserDict[K, V]):
             raise TypeError("Cannot remove frozendict entries after creation")
         return super().__delitem__(key)
 
+    __ior__ = None  # would bypass __setitem__
+
     def __hash__(self) -> int:
         return hash_dict(self)
diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..7d7ef6c 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,10 +167,23 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
+
+
+    def _ordered(
+        neighbors: list[tuple[NodeType, dict]],
+    ) -> list[tuple[NodeType, dict]]:
+        if not node_order:
+            return neighbors
+        return sorted(neighbors, key=lambda neighbor: node_order(*neighbor))
+
+    shell_nodes = Queue(_ordered(list(graph.adj[start_node].items())))
     visited_nodes = {start_node}
+    provided_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
+        if current_node in provided_nodes:
+            # the node was already reached on another path
+            continue
         visited_nodes.add(current_node)
         if condition(current_node, current_edge):
             neighbor_nodes = [
@@ -178,12 +191,8 @@ def nx_bfs_tree(
                 for node, edge in graph.adj[current_node].items()
                 if node not in visited_nodes
             ]
-            if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
-                )
-            shell_nodes.extend(neighbor_nodes)
+            provided_nodes.add(current_node)
+            shell_nodes.extend(_ordered(neighbor_nodes))
             yield current_node, current_edge
 
 
-- 
2.43.0


From 5eeb75237e98defd0676cc6bf4bb30481ad724ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 014/252] fix: introspection of FROM sources, query traversal
 and join graph of non-trivial queries

NATURAL joins, table functions, subquery sources and VALUES lists are now
reported consistently by tables(), columns(), subqueries(), bound_tables() and
predicates(). The join graph contains tables without predicates, and cached
containers can no longer be corrupted by callers.
---
 postbound/qal/_qal.py | 162 ++++++++++++++++++++++++++----------------
 1 file changed, 101 insertions(+), 61 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 9494966..e929719 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4347,6 +4347,17 @@ def _collect_join_predicates(predicate: AbstractPredicate) -> set[AbstractPredic
         raise ValueError(f"Unknown predicate type: {predicate}")
 
 
+def _cache_container(func: Callable) -> Callable:
+    """Caches the container that is computed by a method. Callers receive a copy that they can modify freely."""
+    cached_func = functools.cache(func)
+
+    @functools.wraps(func)
+    def _copy_result(*args, **kwargs):
+        return cached_func(*args, **kwargs).copy()
+
+    return _copy_result
+
+
 class QueryPredicates:
     """The query predicates provide high-level access to all the different predicates in a query.
 
@@ -4407,7 +4418,7 @@ class QueryPredicates:
         """
         return self._root is None
 
-    @functools.cache
+    @_cache_container
     def filters(self) -> Collection[AbstractPredicate]:
         """Provides all filter predicates that are contained in the predicate hierarchy.
 
@@ -4430,7 +4441,7 @@ class QueryPredicates:
             return []
         return _collect_filter_predicates(self._root)
 
-    @functools.cache
+    @_cache_container
     def joins(self) -> Collection[AbstractPredicate]:
         """Provides all join predicates that are contained in the predicate hierarchy.
 
@@ -4453,7 +4464,7 @@ class QueryPredicates:
             return []
         return _collect_join_predicates(self._root)
 
-    @functools.cache
+    @_cache_container
     def join_graph(self, *, merge_aliases: bool = False) -> nx.Graph:
         """Provides the join graph for the predicates.
 
@@ -4558,7 +4569,7 @@ class QueryPredicates:
             else None
         )
 
-    @functools.cache
+    @_cache_container
     def joins_for(self, table: TableReference) -> Collection[AbstractPredicate]:
         """Provides all join predicates that reference a specific table.
 
@@ -6089,16 +6100,16 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        return util.set_union(expr.columns() for expr in self.iterexpressions())
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        return util.flatten(expr.itercolumns() for expr in self.iterexpressions())
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        return [target.expression for target in self.targets] + list(self.distinct_on)
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
@@ -6441,7 +6452,12 @@ class SubqueryTableSource(TableSource):
         ]
 
     def tables(self) -> set[TableReference]:
-        return self._subquery_expression.tables() | {self.target_table}
+        subquery_tables = self._subquery_expression.tables()
+        return (
+            subquery_tables | {self.target_table}
+            if self.target_table
+            else subquery_tables
+        )
 
     def columns(self) -> set[ColumnReference]:
         return self._subquery_expression.columns()
@@ -6453,7 +6469,10 @@ class SubqueryTableSource(TableSource):
         return self._subquery_expression.itercolumns()
 
     def predicates(self) -> QueryPredicates | None:
-        return self._subquery_expression.query.predicates()
+        if self.query.is_set_query():
+            # there is no conjunctive predicate that applies to the set query as a whole
+            return None
+        return self.query.predicates()
 
     def __hash__(self) -> int:
         return self._hash_val
@@ -6463,6 +6482,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
@@ -6567,7 +6587,7 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table}
+        return {self._table} if self._table else set()
 
     def columns(self) -> set[ColumnReference]:
         return set(self._columns)
@@ -6682,7 +6702,7 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        return self._function.tables() | ({self._alias} if self._alias else set())
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
@@ -6793,7 +6813,7 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = join_type
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
@@ -6899,6 +6919,8 @@ class JoinTableSource(TableSource):
                 return self._left.target_table
             case ValuesTableSource():
                 return self._left.table
+            case FunctionTableSource():
+                return self._left.target_table
             case _:
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
@@ -7170,7 +7192,8 @@ class ExplicitFromClause(From[JoinTableSource]):
         Iterable[AbstractPredicate]
             The join conditions.
         """
-        return util.flatten(join.predicates() for join in self.items)
+        join_predicates = self.predicates()
+        return list(join_predicates) if join_predicates else []
 
 
 class Where(BaseClause):
@@ -8167,11 +8190,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
     if isinstance(table_source, SubqueryTableSource):
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
-        source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        source_subqueries = _collect_subqueries_in_table_source(table_source.left)
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8182,7 +8202,10 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         )
         return source_subqueries | nested_subqueries | condition_subqueries
     else:
-        return set()
+        return util.set_union(
+            collect_subqueries_in_expression(expr)
+            for expr in table_source.iterexpressions()
+        )
 
 
 def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
@@ -8222,8 +8245,8 @@ def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
         return set()
     elif isinstance(clause, Select):
         return util.set_union(
-            collect_subqueries_in_expression(target.expression)
-            for target in clause.targets
+            collect_subqueries_in_expression(expression)
+            for expression in clause.iterexpressions()
         )
     elif isinstance(clause, ImplicitFromClause):
         return set()
@@ -8286,17 +8309,23 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        target_table = table_source.target_table
+        own_tables = {target_table} if target_table else set()
+        return own_tables | table_source.query.bound_tables()
+    elif isinstance(table_source, ValuesTableSource):
+        return {table_source.table} if table_source.table else set()
+    elif isinstance(table_source, FunctionTableSource):
+        target_table = table_source.target_table
+        return {target_table} if target_table else set()
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
-        return direct_tables | nested_tables
+        return _collect_bound_tables_from_source(
+            table_source.left
+        ) | _collect_bound_tables_from_source(table_source.right)
+    else:
+        raise ValueError(f"Unknown table source type: {table_source}")
 
 
-def _collect_bound_tables(from_clause: From) -> set[TableReference]:
+def _collect_bound_tables(from_clause: Optional[From]) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
     "Produced" tables are tables that are either directly referenced in the *FROM* clause (e.g. ``FROM R``), referenced as
@@ -8317,7 +8346,9 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     --------
     SqlQuery.bound_tables
     """
-    if isinstance(from_clause, ImplicitFromClause):
+    if from_clause is None:
+        return set()
+    elif isinstance(from_clause, ImplicitFromClause):
         return from_clause.tables()
     else:
         return util.set_union(
@@ -8325,6 +8356,23 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
         )
 
 
+def _collect_source_tables(from_clause: From) -> list[TableReference]:
+    """Provides the tables that are directly available from a *FROM* clause, without the contents of any subqueries."""
+    tables: list[TableReference] = []
+    sources = list(from_clause.items)
+    while sources:
+        match sources.pop(0):
+            case DirectTableSource(table):
+                tables.append(table)
+            case JoinTableSource() as join:
+                sources = [join.left, join.right] + sources
+            case SubqueryTableSource() | FunctionTableSource() as source:
+                tables.append(source.target_table)
+            case ValuesTableSource() as source:
+                tables.append(source.table)
+    return [table for table in tables if table]
+
+
 FromClauseType = TypeVar("FromClauseType", bound=From)
 
 
@@ -8759,7 +8807,7 @@ class SqlQuery:
         """
         return self.explain is not None
 
-    @functools.cache
+    @_cache_container
     def tables(self) -> set[TableReference]:
         """Provides all tables that are referenced at any point in the query.
 
@@ -8881,6 +8929,12 @@ class SqlQuery:
 
         if self.cte_clause:
             for with_query in self.cte_clause.queries:
+                if (
+                    isinstance(with_query, ValuesWithQuery)
+                    or with_query.query.is_set_query()
+                ):
+                    # there is no conjunctive predicate that applies to the CTE as a whole
+                    continue
                 current_predicate = current_predicate.and_(
                     with_query.query.predicates()
                 )
@@ -8888,7 +8942,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
@@ -8914,13 +8968,22 @@ class SqlQuery:
         return self.predicates().joins()
 
     def join_graph(self, *, merge_aliases: bool = False) -> nx.Graph:
-        """Alias for `predicates().join_graph()`.
+        """Provides the join graph of the query.
+
+        This is basically an alias for `predicates().join_graph()`. In addition, all tables from the *FROM* clause that are
+        not restricted by any predicate are included as isolated nodes.
 
         See Also
         --------
         QueryPredicates.join_graph
         """
-        return self.predicates().join_graph(merge_aliases=merge_aliases)
+        join_graph = self.predicates().join_graph(merge_aliases=merge_aliases)
+        if merge_aliases or not self.from_clause:
+            return join_graph
+        for table in _collect_source_tables(self.from_clause):
+            if table not in join_graph:
+                join_graph.add_node(table, predicate=None)
+        return join_graph
 
     def filters_for(self, table: TableReference) -> Optional[AbstractPredicate]:
         """Alias for `predicates().filters_for(table)`.
@@ -9048,28 +9111,7 @@ class SqlQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        if self.from_clause:
-            virtual_subquery_targets = {
-                subquery_source.target_table
-                for subquery_source in self.from_clause.items
-                if isinstance(subquery_source, SubqueryTableSource)
-            }
-        else:
-            virtual_subquery_targets = set()
-
-        if self.cte_clause:
-            virtual_cte_targets = {
-                with_query.target_table for with_query in self.cte_clause.queries
-            }
-        else:
-            virtual_cte_targets = set()
-
-        return (
-            self.tables()
-            - self.bound_tables()
-            - virtual_subquery_targets
-            - virtual_cte_targets
-        )
+        return self.tables() - self.bound_tables()
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -9145,10 +9187,8 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        join_graph = self.join_graph()
+        return len(join_graph) > 0 and not nx.is_connected(join_graph)
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
-- 
2.43.0


From 8c3097acc1c85d5e0f37658f9dac33a681c2138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 015/252] fix: join enumeration and cross product pre-check
 consider tables without join predicates

---
 postbound/opt/enumeration.py | 4 ++--
 postbound/opt/randomized.py  | 2 +-
 postbound/validation.py      | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index f8e01b4..acdddd8 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -153,7 +153,7 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -195,7 +195,7 @@ class ExhaustiveJoinOrderEnumerator:
         Generator[JoinTree]
             A generator that produces all possible join orders for the input query.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
         for join_path in nx_utils.nx_frontier_walks(join_graph):
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 279b058..0ab0f41 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -187,7 +187,7 @@ class RandomJoinOrderGenerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..76d0f66 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,7 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
 
 from . import util
 from ._core import PhysicalOperator
@@ -438,7 +437,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From e7cc6d53e90d285d51e88e176ae1ea806a784090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 016/252] fix: pre-checks keep every failure when they are
 combined and cope with set queries, outer joins and table functions

---
 postbound/validation.py | 138 +++++++++++++++++++++++++++-------------
 1 file changed, 93 insertions(+), 45 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 76d0f66..d88d09c 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,7 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-
 from . import util
 from ._core import PhysicalOperator
 from ._hints import HintType
@@ -29,9 +28,13 @@ from .qal import (
     ExplicitFromClause,
     From,
     ImplicitFromClause,
+    FunctionTableSource,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
+    SelectStatement,
+    SetQuery,
     SqlQuery,
     SubqueryTableSource,
     TableSource,
@@ -97,17 +100,18 @@ class PreCheckResult:
         PreCheckResult
             The merged check result
         """
+        failed_checks = [check for check in checks if not check.passed]
+        if not failed_checks:
+            return PreCheckResult.with_all_passed()
+
         failures: list[str] = []
-        for check in checks:
-            if check.passed:
-                continue
-            failures.extend(util.enlist(check.failure_reason))
-        return (
-            PreCheckResult.with_all_passed()
-            if not failures
-            else PreCheckResult.with_failure(failures)
-        )
+        for check in failed_checks:
+            failures.extend(
+                reason for reason in util.enlist(check.failure_reason) if reason
+            )
+        return PreCheckResult.with_failure(failures)
 
+    @staticmethod
     def with_failure(failure: str | list[str]) -> PreCheckResult:
         """Generates a check result for a specific failure.
 
@@ -148,10 +152,12 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, SelectStatement):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
+        else:
+            raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
 
     def _generate_failure_str(self) -> str:
         """Creates a nice string of the failure messages from `failure_reason`s.
@@ -166,7 +172,7 @@ class PreCheckResult:
         elif isinstance(self.failure_reason, str):
             inner_contents = self.failure_reason
         elif isinstance(self.failure_reason, Iterable):
-            inner_contents = " | ".join(reason for reason in self.failure_reason)
+            inner_contents = " | ".join(str(reason) for reason in self.failure_reason)
         else:
             raise ValueError(
                 "Unexpected failure reason type: " + str(self.failure_reason)
@@ -187,7 +193,7 @@ class UnsupportedQueryError(RuntimeError):
 
     def __init__(self, query: SqlQuery, features: str | list[str] = "") -> None:
         if isinstance(features, list):
-            features = ", ".join(features)
+            features = ", ".join(str(feature) for feature in features)
         features_str = f" [{features}]" if features else ""
 
         super().__init__(f"Query contains unsupported features{features_str}: {query}")
@@ -337,14 +343,19 @@ class CompoundCheck(OptimizationPreCheck):
         ]
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
+        return PreCheckResult.merge(
+            [check.check_supported_query(query) for check in self.checks]
+        )
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        return PreCheckResult.merge(
+            [
+                check.check_supported_database_system(database_instance)
+                for check in self.checks
+            ]
         )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
@@ -387,32 +398,24 @@ def merge_checks(
     OptimizationPreCheck
         A check that combines all of the given checks.
     """
-    if not checks:
-        return EmptyPreCheck()
-    all_checks = (
-        {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
-    ) | set(more_checks)
-    all_checks = {check for check in all_checks if check}
-    compound_checks = [
-        check for check in all_checks if isinstance(check, CompoundCheck)
+    initial_checks = [checks] if isinstance(checks, OptimizationPreCheck) else checks
+    all_checks = [
+        check for check in list(initial_checks or []) + list(more_checks) if check
     ]
-    atomic_checks = {
-        check for check in all_checks if not isinstance(check, CompoundCheck)
-    }
-    compound_check_children = util.set_union(
-        set(check.checks) for check in compound_checks
+    atomic_checks = util.flatten(
+        check.checks if isinstance(check, CompoundCheck) else [check]
+        for check in all_checks
+    )
+
+    # we use a dictionary rather than a set to retain the order of the checks
+    merged_checks = list(
+        dict.fromkeys(
+            check for check in atomic_checks if not isinstance(check, EmptyPreCheck)
+        )
     )
-    merged_checks = atomic_checks | compound_check_children
-    merged_checks = {
-        check for check in merged_checks if not isinstance(check, EmptyPreCheck)
-    }
     if not merged_checks:
         return EmptyPreCheck()
-    return (
-        CompoundCheck(merged_checks)
-        if len(merged_checks) > 1
-        else util.simplify(merged_checks)
-    )
+    return CompoundCheck(merged_checks) if len(merged_checks) > 1 else merged_checks[0]
 
 
 class ImplicitQueryPreCheck(OptimizationPreCheck):
@@ -474,6 +477,9 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         self._allow_nesting = allow_nesting
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if isinstance(query, SetQuery):
+            return _check_set_query(self, query)
+
         join_predicates = query.predicates().joins()
         all_passed = all(
             self._perform_predicate_check(join_pred) for join_pred in join_predicates
@@ -565,6 +571,23 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         return hash((self.name, self._allow_conjunctions, self._allow_nesting))
 
 
+_InnerJoinTypes = {
+    JoinType.InnerJoin,
+    JoinType.CrossJoin,
+    JoinType.NaturalInnerJoin,
+}
+
+
+def _check_set_query(check: OptimizationPreCheck, query: SetQuery) -> PreCheckResult:
+    """Applies a check to both input queries of a set operation."""
+    return PreCheckResult.merge(
+        [
+            check.check_supported_query(query.left_query),
+            check.check_supported_query(query.right_query),
+        ]
+    )
+
+
 class InnerJoinPreCheck(OptimizationPreCheck):
     """Check to assert that a query only contains inner joins."""
 
@@ -572,6 +595,8 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if isinstance(query, SetQuery):
+            return _check_set_query(self, query)
         if not query.from_clause:
             return PreCheckResult.with_all_passed()
 
@@ -592,14 +617,14 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type not in _InnerJoinTypes
                     else []
                 )
                 checks.extend(
@@ -675,7 +700,8 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, hints: HintType | PhysicalOperator | Iterable[HintType | PhysicalOperator]
     ) -> None:
         super().__init__("database-check")
-        self._features = util.enlist(hints)
+        is_single_hint = isinstance(hints, str) or not isinstance(hints, Iterable)
+        self._features = [hints] if is_single_hint else list(hints)
 
     def check_supported_database_system(
         self, database_instance: Database
@@ -691,6 +717,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -731,3 +765,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
-- 
2.43.0


From 9308a275697b50fb4d2b15c558fc80be3409c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 017/252] fix: join partners, join graph and child expressions
 of predicates and expressions cover all of their parts

---
 postbound/qal/_qal.py | 239 +++++++++++++++++++++---------------------
 postbound/relalg.py   |   5 +-
 2 files changed, 121 insertions(+), 123 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e929719..f15b4bd 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
@@ -1015,7 +1015,10 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        children = list(self.arguments)
+        if self._filter_expr is not None:
+            children.append(self._filter_expr)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1419,22 +1422,13 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
-        ordering_children = self.ordering.iterexpressions() if self.ordering else []
-        filter_children = (
-            self.filter_condition.iterexpressions() if self.filter_condition else []
-        )
-        return util.flatten(
-            [
-                function_children,
-                partitioning_children,
-                ordering_children,
-                filter_children,
-            ]
-        )
+        children: list[SqlExpression] = [self.window_function]
+        children.extend(self.partitioning)
+        if self.ordering is not None:
+            children.extend(self.ordering.iterexpressions())
+        if self.filter_condition is not None:
+            children.append(self.filter_condition)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1558,19 +1552,15 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
-        return case_children + expression_children + else_children
+        children: list[SqlExpression] = []
+        if self.simple_expression is not None:
+            children.append(self.simple_expression)
+        for condition, result in self.cases:
+            children.append(condition)
+            children.append(result)
+        if self.else_expression is not None:
+            children.append(self.else_expression)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -2091,7 +2081,9 @@ def _generate_join_pairs(
     return {
         _normalize_join_pair((first_col, second_col))
         for first_col, second_col in itertools.product(first_columns, second_columns)
-        if first_col.table != second_col.table
+        if first_col.is_bound()
+        and second_col.is_bound()
+        and first_col.table != second_col.table
     }
 
 
@@ -2800,9 +2792,10 @@ class BetweenPredicate(BasePredicate):
         end_columns = _collect_column_expression_columns(self.interval_end)
 
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
-        partners |= _generate_join_pairs(predicate_columns, start_columns)
-        partners |= _generate_join_pairs(predicate_columns, end_columns)
-        return set(partners)
+        for interval_columns in (start_columns, end_columns):
+            partners |= _generate_join_pairs(interval_columns, interval_columns)
+            partners |= _generate_join_pairs(predicate_columns, interval_columns)
+        return partners
 
     def accept_visitor(
         self,
@@ -2969,6 +2962,7 @@ class InPredicate(BasePredicate):
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
         for value in self.values:
             value_columns = _collect_column_expression_columns(value)
+            partners |= _generate_join_pairs(value_columns, value_columns)
             partners |= _generate_join_pairs(predicate_columns, value_columns)
         return partners
 
@@ -3363,7 +3357,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
@@ -3630,10 +3627,13 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
+        # only plain columns are equivalent, columns that are modified by an expression are not
+        if not isinstance(predicate.first_argument, ColumnExpression):
+            continue
+        if not isinstance(predicate.second_argument, ColumnExpression):
             continue
-        col_a, col_b = columns
+        col_a = predicate.first_argument.column
+        col_b = predicate.second_argument.column
         equivalence_graph.add_edge(col_a, col_b)
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
@@ -3704,6 +3704,22 @@ def _unwrap_expression(expression: SqlExpression) -> ColumnReference | object:
 
 
 UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
+
+_MirroredOperators = {
+    LogicalOperator.Equal: LogicalOperator.Equal,
+    LogicalOperator.NotEqual: LogicalOperator.NotEqual,
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+}
+"""The operators that have to be used if the operands of a binary predicate are swapped."""
+
+
+def _assert_unwrapped_column(operand: object, predicate: AbstractPredicate) -> None:
+    """Raises an error if the filtered expression of a predicate is not a plain column."""
+    if not isinstance(operand, ColumnReference):
+        raise ValueError("Predicate does not filter a column: " + str(predicate))
 """Type that captures the main components of a filter predicate."""
 
 
@@ -3739,22 +3755,23 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
-            assert isinstance(left, ColumnReference)
-            return left, op, right
+            if isinstance(left, ColumnReference):
+                return left, op, right
+            _assert_unwrapped_column(right, predicate)
+            if op not in _MirroredOperators:
+                raise ValueError("Cannot swap operands of predicate " + str(predicate))
+            return right, _MirroredOperators[op], left
 
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
             lower, upper = _unwrap_expression(lower), _unwrap_expression(upper)
-            assert isinstance(lhs, ColumnReference)
+            _assert_unwrapped_column(lhs, predicate)
             return lhs, LogicalOperator.Between, (lower, upper)
 
         case InPredicate(lhs, values):
             lhs = _unwrap_expression(lhs)
             values = [_unwrap_expression(val) for val in values]
-            assert isinstance(lhs, ColumnReference)
+            _assert_unwrapped_column(lhs, predicate)
             return lhs, LogicalOperator.In, tuple(values)
 
         case _:
@@ -3893,8 +3910,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
     __match_args__ = ("column", "operation", "value")
@@ -4070,10 +4086,13 @@ class SimpleJoin(AbstractPredicate):
             return False
         if not predicate.operation == LogicalOperator.Equal:
             return False
-        lhs, rhs = (
-            _unwrap_expression(predicate.first_argument),
-            _unwrap_expression(predicate.second_argument),
-        )
+        try:
+            lhs, rhs = (
+                _unwrap_expression(predicate.first_argument),
+                _unwrap_expression(predicate.second_argument),
+            )
+        except ValueError:
+            return False
         return isinstance(lhs, ColumnReference) and isinstance(rhs, ColumnReference)
 
     @staticmethod
@@ -4126,8 +4145,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
     __match_args__ = ("lhs", "rhs")
@@ -4497,20 +4515,20 @@ class QueryPredicates:
         assert self._root is not None
 
         if not merge_aliases:
-            for table in self._root.tables():
+            # tables that are only used within subqueries are not part of the join graph
+            for table in self._root.required_tables():
                 filter_predicates = self.filters_for(table)
                 join_graph.add_node(table, predicate=filter_predicates)
 
-            for join in self.joins():
-                for first_col, second_col in join.join_partners():
-                    join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
-                    )
+            for tables, joins in self._join_predicate_map.items():
+                first_table, second_table = tables
+                join_predicate = CompoundPredicate.create_and(joins)
+                join_graph.add_edge(first_table, second_table, predicate=join_predicate)
 
             return join_graph
 
         table2alias = collections.defaultdict(set)
-        for tab in self._root.tables():
+        for tab in self._root.required_tables():
             table2alias[tab.drop_alias()].add(tab)
 
         table2preds = {
@@ -4520,20 +4538,12 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
-        for join in self.joins():
-            for first_col, second_col in join.join_partners():
-                partners = frozenset([first_col, second_col])
-                col2join[partners] = join
-
-        tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
-            tab2join[tabs][partners] = join
-
-        for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
-            join_graph.add_edge(first_tab, second_tab, predicate=joins)
+        for tables, joins in self._join_predicate_map.items():
+            first_table, second_table = (table.drop_alias() for table in tables)
+            if not join_graph.has_edge(first_table, second_table):
+                join_graph.add_edge(first_table, second_table, predicate={})
+            edge_predicates = join_graph.edges[first_table, second_table]["predicate"]
+            edge_predicates[tables] = CompoundPredicate.create_and(joins)
 
         return join_graph
 
@@ -4594,7 +4604,9 @@ class QueryPredicates:
             return []
 
         applicable_joins: list[AbstractPredicate] = [
-            join_pred for join_pred in self.joins() if join_pred.contains_table(table)
+            join_pred
+            for join_pred in self.joins()
+            if table in join_pred.required_tables()
         ]
         distinct_joins: dict[frozenset[TableReference], list[AbstractPredicate]] = (
             collections.defaultdict(list)
@@ -4834,7 +4846,7 @@ class QueryPredicates:
 
     def _init_join_predicate_map(
         self,
-    ) -> dict[frozenset[TableReference], AbstractPredicate]:
+    ) -> dict[frozenset[TableReference], list[AbstractPredicate]]:
         """Generates the necessary mapping for `_map_based_joins_between`.
 
         This is a static data structure and hence can be pre-computed.
@@ -4848,17 +4860,14 @@ class QueryPredicates:
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
+        predicate_map: dict[frozenset[TableReference], list[AbstractPredicate]] = {}
+        for join_predicate in self.joins():
+            joined_tables = {
+                frozenset((first_col.table, second_col.table))
+                for first_col, second_col in join_predicate.join_partners()
+            }
+            for map_key in joined_tables:
+                predicate_map.setdefault(map_key, []).append(join_predicate)
         return predicate_map
 
     def _legacy_joins_between(
@@ -4890,10 +4899,14 @@ class QueryPredicates:
         ):
             if first_table == second_table:
                 return None
-            first_joins: Collection[AbstractPredicate] = self.joins_for(first_table)
-            matching_joins = {
-                join for join in first_joins if join.joins_table(second_table)
-            }
+            matching_joins = [
+                join
+                for join in self.joins()
+                if any(
+                    partner.belongs_to(second_table)
+                    for partner in join.join_partners_of(first_table)
+                )
+            ]
             return (
                 CompoundPredicate.create_and(matching_joins) if matching_joins else None
             )
@@ -4902,10 +4915,12 @@ class QueryPredicates:
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
         for first in frozenset(first_table):
             for second in frozenset(second_table):
-                join_predicate = self.joins_between(first, second)
+                join_predicate = self._legacy_joins_between(first, second)
                 if not join_predicate:
                     continue
-                matching_joins.add(join_predicate)
+                matching_joins.update(
+                    self._join_predicate_map[frozenset((first, second))]
+                )
         return CompoundPredicate.create_and(matching_joins) if matching_joins else None
 
     def _graph_based_joins_between(
@@ -4932,29 +4947,12 @@ class QueryPredicates:
         join_graph = self.join_graph()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
 
-        if len(first_table) > 1:
-            first_first_table, *remaining_first_tables = first_table
-            for remaining_first_table in remaining_first_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_first_table, remaining_first_table
-                )
-            first_hook = first_first_table
-        else:
-            first_hook = util.simplify(first_table)
-
-        if len(second_table) > 1:
-            first_second_table, *remaining_second_tables = second_table
-            for remaining_second_table in remaining_second_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_second_table, remaining_second_table
-                )
-            second_hook = first_second_table
-        else:
-            second_hook = util.simplify(second_table)
-
-        if (first_hook, second_hook) not in join_graph.edges:
+        join_predicates: set[AbstractPredicate] = set()
+        for first, second in nx.edge_boundary(join_graph, first_table, second_table):
+            join_predicates.update(self._join_predicate_map[frozenset((first, second))])
+        if not join_predicates:
             return None
-        return join_graph.edges[first_hook, second_hook]["predicate"]
+        return CompoundPredicate.create_and(join_predicates)
 
     def _map_based_joins_between(
         self,
@@ -4980,15 +4978,12 @@ class QueryPredicates:
             predicate between any of the tables, *None* is returned.
 
         """
-        join_predicates = set()
+        join_predicates: set[AbstractPredicate] = set()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
         for first in first_table:
             for second in second_table:
                 map_key = frozenset((first, second))
-                if map_key not in self._join_predicate_map:
-                    continue
-                current_predicate = self._join_predicate_map[map_key]
-                join_predicates.add(current_predicate)
+                join_predicates.update(self._join_predicate_map.get(map_key, []))
         if not join_predicates:
             return None
         return CompoundPredicate.create_and(join_predicates)
diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..fbfad3d 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -2767,7 +2767,9 @@ def _needs_mapping(expression: SqlExpression) -> bool:
     bool
         *True* if the expression has to be mapped, *False* otherwise.
     """
-    return not isinstance(expression, (StaticValueExpression, StarExpression))
+    return not isinstance(
+        expression, (StaticValueExpression, StarExpression, AbstractPredicate)
+    )
 
 
 def _generate_expression_mapping_dict(
@@ -3170,6 +3172,7 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
             | CaseExpression()
             | QuantifierExpression()
             | ArrayExpression()
+            | AbstractPredicate()
         ):
             own_phase = (
                 EvaluationPhase.Join
-- 
2.43.0


From c8f4be58bd36f0f68fc0756509ba0fd1ecaa309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 018/252] fix: cross-product check no longer confuses the
 tables of subqueries with those of the query, dependent subqueries are found
 at any depth

---
 postbound/qal/_qal.py   | 17 +++++++++++++++--
 postbound/validation.py | 10 +++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index f15b4bd..30747c4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9182,8 +9182,21 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        join_graph = self.join_graph()
-        return len(join_graph) > 0 and not nx.is_connected(join_graph)
+
+        # the join graph also contains the tables from subqueries and CTEs, which never need to be joined with our own tables
+        own_tables = _collect_source_tables(self.from_clause)
+        own_joins = self.join_graph().subgraph(own_tables)
+        if len(own_joins) > 0 and not nx.is_connected(own_joins):
+            return True
+
+        nested_queries = set(_collect_subqueries(self.from_clause))
+        if self.cte_clause:
+            nested_queries |= {
+                with_query.query
+                for with_query in self.cte_clause.queries
+                if not isinstance(with_query, ValuesWithQuery)
+            }
+        return any(query.contains_cross_product() for query in nested_queries)
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
diff --git a/postbound/validation.py b/postbound/validation.py
index d88d09c..fdecdd2 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -652,6 +652,14 @@ class SubqueryPreCheck(OptimizationPreCheck):
         return {"name": "no_subqueries"}
 
 
+def _contains_dependent_subquery(query: SqlQuery) -> bool:
+    """Checks, whether any of the (arbitrarily deeply nested) subqueries of a query is dependent."""
+    return any(
+        subquery.is_dependent() or _contains_dependent_subquery(subquery)
+        for subquery in query.subqueries()
+    )
+
+
 class DependentSubqueryPreCheck(OptimizationPreCheck):
     """Check to assert that a query does not contain any dependent subqueries."""
 
@@ -659,7 +667,7 @@ class DependentSubqueryPreCheck(OptimizationPreCheck):
         super().__init__("no-dependent-subquery")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not any(subquery.is_dependent() for subquery in query.subqueries())
+        passed = not _contains_dependent_subquery(query)
         failure_reason = "" if passed else DependentSubqueryFailure
         return PreCheckResult(passed, failure_reason)
 
-- 
2.43.0


From ee34723625af8c416ad2923082d9167319343a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 019/252] fix: set queries and VALUES lists report the tables,
 columns and subqueries of all of their parts

---
 postbound/qal/_qal.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 30747c4..bae0234 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5596,32 +5596,32 @@ class ValuesWithQuery(WithQuery):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return set()
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def columns(self) -> set[ColumnReference]:
-        if not self._columns:
-            return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self.itercolumns())
 
-    def output_columns(self) -> Sequence[ColumnExpression]:
+    def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this CTE.
 
         Returns
         -------
-        Sequence[ColumnExpression]
+        Sequence[ColumnReference]
             The columns. If no columns were provided, generic column names are used.
         """
         if self._columns:
             return self._columns
         return [
-            ColumnExpression.of(f"column_{i + 1}") for i in range(len(self._values[0]))
+            ColumnReference(f"column_{i + 1}", self._table)
+            for i in range(len(self._values[0]))
         ]
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         return util.flatten(row for row in self._values)
 
-    def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+    def itercolumns(self) -> Iterable[ColumnReference]:
+        value_columns = util.flatten(expr.itercolumns() for expr in self.iterexpressions())
+        return list(self._columns) + value_columns
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -6582,10 +6582,11 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table} if self._table else set()
+        value_tables = util.set_union(expr.tables() for expr in self.iterexpressions())
+        return {self._table} | value_tables if self._table else value_tables
 
     def columns(self) -> set[ColumnReference]:
-        return set(self._columns)
+        return set(self.itercolumns())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation.
@@ -6599,7 +6600,7 @@ class ValuesTableSource(TableSource):
         if self._columns:
             return self._columns
         return [
-            ColumnReference(f"column_{i}", self._table)
+            ColumnReference(f"column_{i + 1}", self._table)
             for i in range(len(self._values[0]))
         ]
 
@@ -6607,7 +6608,8 @@ class ValuesTableSource(TableSource):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return self._columns
+        value_columns = util.flatten(expr.itercolumns() for expr in self.iterexpressions())
+        return list(self._columns) + value_columns
 
     def predicates(self) -> QueryPredicates | None:
         return None
@@ -9802,7 +9804,7 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        return util.set_union(clause.tables() for clause in self.clauses())
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9816,7 +9818,7 @@ class SetQuery:
         set[ColumnReference]
             All columns that are referenced in the query.
         """
-        return self._lhs.columns() | self._rhs.columns()
+        return util.set_union(clause.columns() for clause in self.clauses())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
@@ -9882,7 +9884,10 @@ class SetQuery:
             All subqueries that appear in any of the "inner" clauses of the query
         """
         # as an implementation detail we know for a fact that SqlQuery always returns a set
-        return self._lhs.subqueries() | self._rhs.subqueries()
+        subqueries = self._lhs.subqueries() | self._rhs.subqueries()
+        if self._orderby:
+            subqueries |= _collect_subqueries(self._orderby)
+        return subqueries
 
     def clauses(
         self, *, skip: Optional[Type | Iterable[Type]] = NoneType
-- 
2.43.0


From 746e7566d5049562f0f13f987fda44167a04eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 020/252] fix: the q-error of a plan node is no longer rounded
 to an integer

---
 postbound/_qep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 5cc52a6..449100b 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1581,7 +1581,8 @@ class QueryPlan:
 
         larger = max(self.estimated_cardinality, self.actual_cardinality) + 1
         smaller = min(self.estimated_cardinality, self.actual_cardinality) + 1
-        return larger / smaller
+        # cardinalities are always integers, but the q-error is not
+        return float(larger) / float(smaller)
 
     def parallelize(self, workers: int) -> QueryPlan:
         """Creates a parallel version of the query plan with the specified number of workers.
-- 
2.43.0


From 1b71a1b7abeac3ee290d05c1adbbb8c46595b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 021/252] fix: counters do not deadlock on +x and x**x and
 support all comparisons

---
 postbound/util/num.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 49ac513..9a7369a 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -84,6 +84,16 @@ class AtomicInt(numbers.Integral):
         with self._lock:
             return AtomicInt(self._value // other)
 
+    def __ge__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value >= other
+
+    def __gt__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value > other
+
     def __int__(self) -> int:
         with self._lock:
             return int(self._value)
@@ -129,9 +139,10 @@ class AtomicInt(numbers.Integral):
 
     def __pos__(self) -> Any:
         with self._lock:
-            return +self.value
+            return +self._value
 
     def __pow__(self, exponent: Any, modulus: Any | None = ...) -> AtomicInt:
+        exponent = self._unwrap_atomic(exponent)
         with self._lock:
             res = self._value**exponent
             if res != int(res):
@@ -148,7 +159,7 @@ class AtomicInt(numbers.Integral):
     def __rand__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
         with self._lock:
-            return other + self._value
+            return other & self._value
 
     def __rfloordiv__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
@@ -314,6 +325,14 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return self._value // other_value
 
+    def __ge__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value >= other_value
+
+    def __gt__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value > other_value
+
     def __int__(self) -> int:
         return self._value
 
-- 
2.43.0


From 62fc70d6a7d05184ac0aee5a90445015ef9aff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 022/252] fix: dependency graphs yield tasks after all of their
 dependencies

---
 postbound/util/misc.py | 66 +++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/postbound/util/misc.py b/postbound/util/misc.py
index 188138d..3fe0611 100644
--- a/postbound/util/misc.py
+++ b/postbound/util/misc.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-import collections
 import re
 from collections.abc import Generator, Iterable
 from datetime import datetime
@@ -154,12 +153,15 @@ class Version:
 
 
 class DependencyGraph(Generic[T]):
-    """A simple dependency graph abstraction. Entries are added via `add_task` and iteration yields the source nodes first."""
+    """A simple dependency graph abstraction.
+
+    Entries are added via `add_task`. Iteration yields each entry after all entries that it depends on, i.e. the source nodes
+    are provided first.
+    """
 
     def __init__(self) -> None:
-        self._source_nodes: set[int] = set()
-        self._dependencies: dict[int, list[int]] = collections.defaultdict(list)
-        self._nodes: dict[int, T] = {}
+        # maps each task to the tasks that it depends on, dictionaries are used to retain the insertion order
+        self._dependencies: dict[T, dict[T, None]] = {}
 
     def add_task(self, node: T, *, depends_on: Optional[Iterable[T]] = None) -> None:
         """Queues a new task/entry/whatever.
@@ -172,46 +174,30 @@ class DependencyGraph(Generic[T]):
             Optional other tasks that have to be completed before this one. If those task have not been added yet, this will
             be done automatically.
         """
-        node_id = hash(node)
-        self._nodes[node_id] = node
-
-        if not depends_on:
-            self._source_nodes.add(node_id)
-            return
-
-        if node_id in self._source_nodes:
-            self._source_nodes.remove(node_id)
-
-        for dep in depends_on:
-            dep_id = hash(dep)
-            self._dependencies[dep_id].append(node_id)
-
-            if dep_id not in self._nodes:
-                self._source_nodes.add(dep_id)
-                self._nodes[dep_id] = dep
+        dependencies = self._dependencies.setdefault(node, {})
+        for dep in depends_on or []:
+            self._dependencies.setdefault(dep, {})
+            dependencies[dep] = None
 
     def __iter__(self) -> Generator[T, Any, None]:
-        provided_nodes: set[int] = set()
-        for node_id in self._source_nodes:
-            yield self._nodes[node_id]
-
-            provided_nodes.add(node_id)
-            dependency_stack = list(self._dependencies[node_id])
-
-            while dependency_stack:
-                dep_id = dependency_stack.pop()
-                if dep_id in provided_nodes:
-                    continue
-
-                yield self._nodes[dep_id]
-
-                provided_nodes.add(dep_id)
-                dependency_stack.extend(self._dependencies[dep_id])
-        provided_nodes = set()
+        pending = dict(self._dependencies)
+        provided: set[T] = set()
+        while pending:
+            available = [
+                node for node, deps in pending.items() if provided.issuperset(deps)
+            ]
+            if not available:
+                # the remaining nodes depend on each other
+                return
+
+            for node in available:
+                del pending[node]
+            provided.update(available)
+            yield from available
 
     def __repr__(self) -> str:
         return str(self)
 
     def __str__(self) -> str:
-        nodes_str = ", ".join(str(node) for node in self._nodes.values())
+        nodes_str = ", ".join(str(node) for node in self._dependencies)
         return f"DependencyGraph({nodes_str})"
-- 
2.43.0


From c311cf51a7610f8f622245195783c0fab7a0e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 023/252] fix: write_df does not modify the data frame of its
 caller

---
 postbound/util/_df.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 4e303cf..85b8b52 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -49,6 +49,7 @@ def write_df(
     path = Path(path)
     path.parent.mkdir(parents=True, exist_ok=True)
 
+    df = df.copy(deep=False)  # the data frame of our caller should not be modified
     for col in df.columns:
         if df[col].dtype != "object":
             continue
-- 
2.43.0


From ba43bf3f42a10356f3697a60dea0054cd72805fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 024/252] fix: catalan numbers are computed exactly

---
 postbound/util/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/util/stats.py b/postbound/util/stats.py
index 96671ec..07dc73b 100644
--- a/postbound/util/stats.py
+++ b/postbound/util/stats.py
@@ -12,7 +12,7 @@ import numpy as np
 
 def catalan_number(n: int) -> int:
     """Computes the n-th catalan number. See https://en.wikipedia.org/wiki/Catalan_number."""
-    return round(math.comb(2 * n, n) / (n + 1))
+    return math.comb(2 * n, n) // (n + 1)
 
 
 def jaccard(a: set | frozenset, b: set | frozenset) -> float:
-- 
2.43.0


From f2eb646190690a35c7d8a4fbc278d5b8f75ca68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 025/252] fix: an integrated pipeline has to be build again
 after its algorithm was changed

The new algorithm was used without checking whether it supports the target database. Unmet requirements are now also
reported with the documented error types.
---
 postbound/_pipelines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..3522c80 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
@@ -427,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -440,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From b41f896aa078e5af9f4fbd6183b55e7eedcb541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 026/252] fix: multi-stage pipelines do not retain the checks
 of replaced stages

Checks that report hint types as failures also made the error message fail.
---
 postbound/_pipelines.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 3522c80..9951ac4 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck | None = None
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,14 +958,15 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        # the checks of stages that are replaced later on must not be retained in our own pre-check
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
             failures = (
-                " and ".join(db_check_result.failure_reason)
+                " and ".join(str(reason) for reason in db_check_result.failure_reason)
                 if isinstance(db_check_result.failure_reason, list)
                 else db_check_result.failure_reason
             )
@@ -982,8 +984,8 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        assert self._support_check is not None
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1032,10 +1034,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return s
 
     def describe(self) -> jsondict:
+        query_check = self._support_check if self._build else self._pre_check
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": query_check.describe() if query_check else None,
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
-- 
2.43.0


From 9cb9441d14f84bdbf522d3411d195a8e204fce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 027/252] fix: cardinality estimators are initialized when used
 as complete optimization algorithms

---
 postbound/_stages.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..0b21e40 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,15 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
-        plan_params = (
-            self._plan_parameterization.generate_plan_parameters(query, None, None)
-            if self._plan_parameterization is not None
-            else None
-        )
+        plan_params = None
+        if self._plan_parameterization is not None:
+            if isinstance(self._plan_parameterization, CardinalityEstimator):
+                self._plan_parameterization.initialize(self.database, query)
+            plan_params = self._plan_parameterization.generate_plan_parameters(
+                query, None, None
+            )
+            if isinstance(self._plan_parameterization, CardinalityEstimator):
+                self._plan_parameterization.cleanup()
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
-- 
2.43.0


From 75067baaed9e95d6897f74dcf7a6ae792653f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 028/252] fix: Workload.last(0) provides an empty workload

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..618cbb6 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n > 0 else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From 26694dc775dc6b5643186ad6dd24a0d57d9534f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 029/252] fix: read query files verbatim instead of doubling
 their line breaks

---
 postbound/workloads.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 618cbb6..7a01aa8 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -714,8 +713,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
-- 
2.43.0


From 0ed1edb698e9212249e8622dcdf530a49adcf613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 030/252] fix: skip unparseable queries and use the label
 prefix when reading workloads

---
 postbound/workloads.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 7a01aa8..2dcfafe 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -212,8 +212,9 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         warnings.warn(
                             f"Could not parse query {query_file_path}: {e} ({type(e)})"
                         )
+                        continue
                     case "ignore":
-                        pass
+                        continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -729,11 +730,12 @@ def read_workload(
                     warnings.warn(
                         f"Could not parse query {query_file_path}: {e} ({type(e)})"
                     )
+                    continue
                 case "ignore":
-                    pass
+                    continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
-- 
2.43.0


From efbb6c9855df94d52c28cba1ee5606c23fad937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 031/252] fix: use full directory names and the file encoding
 for workload subdirectories

---
 postbound/workloads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 2dcfafe..8ba34cd 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -749,12 +749,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From fb5879220c7c4cba426c2eb6d4a94c35d1c8a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 032/252] fix: skip blank lines when reading batch workloads

---
 postbound/workloads.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 8ba34cd..7f21a44 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -795,7 +795,9 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [
+            parser.parse_query(raw) for raw in raw_queries if raw.strip()
+        ]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
-- 
2.43.0


From 25e6fbe04b74a1b98488cbaa39f53726d94cbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 033/252] fix: keep duplicate queries when creating workloads

---
 postbound/workloads.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 7f21a44..aae1b91 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -868,14 +868,11 @@ def read_csv_workload(
 
     queries = workload_df[query_column].tolist()
     if label_column:
+        # we cannot use the queries as keys, because the same query might be contained multiple times
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+        return Workload(dict(zip(labels, queries)), name, filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -916,11 +913,10 @@ def generate_workload(
         Path(workload_root) if isinstance(workload_root, str) else workload_root
     )
     name = name if name else (workload_root.stem if workload_root else "")
-    if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+    if labels:
+        workload_contents = util.dicts.invert(labels)
+    else:
+        workload_contents = {idx + 1: query for idx, query in enumerate(queries)}
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From 0e4db45f0b7cfdd4282ab1e15f0225ebea46b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 034/252] fix: interrupted downloads no longer leave unusable
 workload directories behind

---
 postbound/workloads.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index aae1b91..e60434b 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -58,27 +58,33 @@ def _fetch_workload(name: str) -> Path:
     workload_dir = pbdir / "workloads" / name
     if workload_dir.exists():
         return workload_dir
-    workload_dir.mkdir(parents=True, exist_ok=True)
 
     archive_url = _WorkloadSources.get(name)
     if not archive_url:
+        workload_dir.mkdir(parents=True, exist_ok=True)
         raise ValueError(
             f"Could not automatically load queries for workload '{name}': no known data source. "
             f"Please insert the queries manually at {workload_dir} and re-run the operation."
         )
 
+    # The workload directory must only become visible once it is complete. Otherwise, an interrupted download would leave an
+    # empty or partial directory behind that prevents all later attempts from downloading the workload again.
+    workload_dir.parent.mkdir(parents=True, exist_ok=True)
     archive_file = workload_dir.parent / f"{name}.zip"
+    staging_dir = workload_dir.parent / f".{name}.partial"
+    shutil.rmtree(staging_dir, ignore_errors=True)
     urllib.request.urlretrieve(archive_url, archive_file)
 
     with zipfile.ZipFile(archive_file, "r") as zip:
-        zip.extractall(workload_dir)
+        zip.extractall(staging_dir)
 
-    temp_dir = workload_dir / name
+    temp_dir = staging_dir / name
     for file in temp_dir.iterdir():
-        shutil.move(file, workload_dir)
+        shutil.move(file, staging_dir)
     temp_dir.rmdir()
 
     archive_file.unlink()
+    staging_dir.rename(workload_dir)
     return workload_dir
 
 
-- 
2.43.0


From e42b47504597df50aa46a6c36d9d28bf1a1f7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 035/252] fix: rename columns in array accesses

---
 postbound/transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..a0bca03 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1516,9 +1516,9 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
@@ -2253,7 +2253,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2263,8 +2263,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
-- 
2.43.0


From 3a6c29fbfe1d5c77dbb618aa3e19058dcd2ea33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 036/252] fix: renaming columns retains the filter of aggregate
 functions

---
 postbound/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index a0bca03..d1af438 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1525,8 +1525,14 @@ def rename_columns_in_expression(
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
-- 
2.43.0


From 6d56e0096ed85c0293b695fa4b2e407707ab5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 037/252] fix: rename columns in the conditions of simple CASE
 expressions

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index d1af438..7e68082 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1567,7 +1567,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
-- 
2.43.0


From 243c5515f81afb53a9adce65550b975c523db459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 038/252] fix: transformations include the columns of DISTINCT
 ON

---
 postbound/transform.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7e68082..28a489c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1159,7 +1159,10 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [replacement(col) for col in distinct]
+        return Select(replaced_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -1875,7 +1878,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [
+                rename_columns_in_expression(col, available_renamings)
+                for col in distinct
+            ]
+        return Select(renamed_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -1987,7 +1996,10 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [col.accept_visitor(self) for col in distinct]
+        return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
-- 
2.43.0


From c35dfb7e4eb34c1e8076409d4292d63efea3a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 039/252] fix: rename columns in set queries

---
 postbound/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 28a489c..d258435 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1360,7 +1360,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1371,7 +1370,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1385,6 +1384,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
-- 
2.43.0


From e2add37e6f47ea69ddfcd5bf7c34ef6e1d3ce7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 040/252] fix: renaming columns retains VALUES CTEs and applies
 all renamings at once

---
 postbound/transform.py | 95 +++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 48 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index d258435..571f6c6 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1702,6 +1702,39 @@ def rename_columns_in_predicate(
         raise ValueError("Unknown predicate type: " + str(predicate))
 
 
+def _rename_values_columns(
+    table: TableReference,
+    columns: Sequence[ColumnReference],
+    available_renamings: dict[ColumnReference, ColumnReference],
+) -> list[str]:
+    """Handler method to update the column specification of a ``VALUES`` list.
+
+    Parameters
+    ----------
+    table : TableReference
+        The table that is defined by the ``VALUES`` list
+    columns : Sequence[ColumnReference]
+        The current column specification
+    available_renamings : dict[ColumnReference, ColumnReference]
+        A dictionary mapping each of the old column values to the values that should be used instead.
+
+    Returns
+    -------
+    list[str]
+        The names of the columns after the renaming
+    """
+    column_names: dict[str, str] = {}
+    for current_col, target_col in available_renamings.items():
+        if not current_col.belongs_to(table):
+            continue
+        if current_col.table != target_col.table:
+            raise ValueError(
+                "Cannot rename columns in a VALUES table source to a different table"
+            )
+        column_names[current_col.name] = target_col.name
+    return [column_names.get(col.name, col.name) for col in columns]
+
+
 def _rename_columns_in_table_source(
     table_source: TableSource,
     available_renamings: dict[ColumnReference, ColumnReference],
@@ -1760,32 +1793,15 @@ def _rename_columns_in_table_source(
             )
 
         case ValuesTableSource():
-            if not any(
-                col.belongs_to(table_source.table) for col in available_renamings
-            ):
+            if not table_source.table:
                 return table_source
-
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(table_source.table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = table_source.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                table_source = ValuesTableSource(
-                    table_source.rows,
-                    alias=table_source.table.identifier(),
-                    columns=new_col_spec,
-                )
-            return table_source
+            return ValuesTableSource(
+                table_source.rows,
+                alias=table_source.table,
+                columns=_rename_values_columns(
+                    table_source.table, table_source.cols, available_renamings
+                ),
+            )
 
         case FunctionTableSource():
             renamed_function = rename_columns_in_expression(
@@ -1841,33 +1857,16 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
-            renamed_cte = cte
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(cte.target_table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                renamed_cte = ValuesWithQuery(
+            renamed_ctes.append(
+                ValuesWithQuery(
                     cte.rows,
                     target_name=cte.target_table,
-                    columns=new_col_spec,
+                    columns=_rename_values_columns(
+                        cte.target_table, cte.cols, available_renamings
+                    ),
                     materialized=cte.materialized,
                 )
-
-            renamed_ctes.append(renamed_cte)
+            )
 
         return CommonTableExpression(renamed_ctes, recursive=clause.recursive)
     if isinstance(clause, Select):
-- 
2.43.0


From 92d046640201c80a44108cd7f887e4449f870ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 041/252] fix: rename tables in the ORDER BY clause, in set
 queries and in CTEs of values

---
 postbound/transform.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 571f6c6..c1131af 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1978,10 +1978,18 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
-            nested_renamings = cte.query.accept_visitor(self)
-            nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
-
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        cte.rows,
+                        target_name=target_table,
+                        columns=[col.name for col in cte.cols],
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+            nested_query = self._rename_query(cte.query)
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
             )
@@ -2069,28 +2077,28 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
@@ -2207,9 +2215,7 @@ class _TableReferenceRenamer(
     def visit_subquery_expr(
         self, expr: SubqueryExpression, *args, **kwargs
     ) -> SubqueryExpression:
-        subquery_comps = expr.query.accept_visitor(self)
-        renamed_subquery = build_query(subquery_comps.values())
-        return SubqueryExpression(renamed_subquery)
+        return SubqueryExpression(self._rename_query(expr.query))
 
     def visit_star_expr(self, expr: StarExpression, *args, **kwargs) -> StarExpression:
         renamed_table = self._rename_table(expr.from_table) if expr.from_table else None
@@ -2289,6 +2295,10 @@ class _TableReferenceRenamer(
     ) -> AbstractPredicate:
         return expr.accept_visitor(self)
 
+    def _rename_query[Q: SelectStatement](self, query: Q) -> Q:
+        """Handler method to rename all tables in a specific (sub-) query."""
+        return build_query(query.accept_visitor(self).values())
+
     def _rename_table_source[T: TableSource](self, source: T) -> T:
         """Helper method to traverse and rename (the contents of) an arbitrary *FROM* item."""
         match source:
@@ -2297,8 +2307,7 @@ class _TableReferenceRenamer(
                 return DirectTableSource(renamed_table)
 
             case SubqueryTableSource(subquery, target_name, lateral):
-                nested_renamings = subquery.accept_visitor(self)
-                nested_query = build_query(nested_renamings.values())
+                nested_query = self._rename_query(subquery)
                 target_table = self._rename_table(target_name)
                 return SubqueryTableSource(nested_query, target_table, lateral=lateral)
 
-- 
2.43.0


From 79cabde0bf660e3711d40dfce7064a437d790ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 042/252] fix: rename quantified subqueries

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c1131af..0465aef 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2264,7 +2264,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
-- 
2.43.0


From 1720b180dca780e230feed452db5fbfb24f86fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 043/252] fix: rename tables of VALUES lists and table
 functions

---
 postbound/transform.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0465aef..69e9e39 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2324,13 +2324,20 @@ class _TableReferenceRenamer(
                     join_type=join_type,
                 )
 
-            case ValuesTableSource(rows, alias, columns):
-                renamed_alias = self._rename_table(alias)
-                return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
-
-            case FunctionTableSource(function, alias):
-                renamed_function = function.accept_visitor(self)
-                renamed_alias = self._rename_table(alias) if alias else ""
+            case ValuesTableSource():
+                renamed_alias = self._rename_table(source.table) if source.table else ""
+                return ValuesTableSource(
+                    source.rows,
+                    alias=renamed_alias,
+                    columns=[col.name for col in source.cols],
+                )
+            case FunctionTableSource():
+                renamed_function = source.function.accept_visitor(self)
+                renamed_alias = (
+                    self._rename_table(source.target_table)
+                    if source.target_table
+                    else ""
+                )
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
 
             case _:
-- 
2.43.0


From 5bcc83ca44f2fa961ce750ea2ad9b379bb79bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 044/252] fix: rename multiple tables at once without losing
 tables or columns

---
 postbound/transform.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 69e9e39..d85f967 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2009,24 +2009,18 @@ class _TableReferenceRenamer(
         return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
-        used_identifieres = set(tab.identifier() for tab in clause.tables())
-        intersect = used_identifieres & self._renaming_targets
+        remaining_identifiers = set(
+            tab.identifier() for tab in clause.tables() if tab not in self._renamings
+        )
+        intersect = remaining_identifiers & self._renaming_targets
         match clause:
             case ImplicitFromClause(tables):
                 renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
-                    return ImplicitFromClause(renamed_tables)
-
-                separate_tables = used_identifieres - intersect
+                # multiple tables might have been merged into the same target, which should only appear once
                 final_tables: list[DirectTableSource] = []
                 for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
+                    if tab not in final_tables:
                         final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
-                        continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
                 return ImplicitFromClause(final_tables)
 
             case ExplicitFromClause(join):
@@ -2433,14 +2427,13 @@ def rename_table[T: SelectStatement](
     # Despite the convenient _TableReferenceRenamer, we still need to do a little bit of manual gathering/traversal to support
     # column prefixes.
     necessary_renamings: dict[ColumnReference, ColumnReference] = {}
-    for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
-        new_column_name = (
-            f"{column.table.identifier()}_{column.name}"
-            if prefix_column_names
-            else column.name
-        )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
-
+    if prefix_column_names:
+        for column in source_query.columns():
+            if column.table not in tabs_to_rename:
+                continue
+            necessary_renamings[column] = ColumnReference(
+                f"{column.table.identifier()}_{column.name}", column.table
+            )
     renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
 
     tab_renamer = _TableReferenceRenamer(renamings)
-- 
2.43.0


From e0ee07edfa3675b406568479ba33bf61ddd8859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 045/252] fix: drop clauses of all kinds of FROM clauses

---
 postbound/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index d85f967..862ddb7 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -908,7 +908,9 @@ def drop_clause[T: SelectStatement](query: T, clauses_to_drop: ClauseDescription
         for drop in clauses_to_drop
     }
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in clauses_to_drop
+        clause
+        for clause in query.clauses()
+        if not isinstance(clause, tuple(clauses_to_drop))
     ]
     return build_query(remaining_clauses)
 
-- 
2.43.0


From d53b02407c71a5b8a6b76805af405af885f18bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 046/252] fix: rename tables and columns within VALUES lists

---
 postbound/transform.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 862ddb7..46c401e 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1737,6 +1737,17 @@ def _rename_values_columns(
     return [column_names.get(col.name, col.name) for col in columns]
 
 
+def _rename_columns_in_rows(
+    rows: Sequence[Sequence[SqlExpression]],
+    available_renamings: dict[ColumnReference, ColumnReference],
+) -> list[tuple[SqlExpression, ...]]:
+    """Handler method to rename the columns that are used within the rows of a ``VALUES`` list."""
+    return [
+        tuple([rename_columns_in_expression(val, available_renamings) for val in row])
+        for row in rows
+    ]
+
+
 def _rename_columns_in_table_source(
     table_source: TableSource,
     available_renamings: dict[ColumnReference, ColumnReference],
@@ -1796,9 +1807,11 @@ def _rename_columns_in_table_source(
 
         case ValuesTableSource():
             if not table_source.table:
-                return table_source
+                return ValuesTableSource(
+                    _rename_columns_in_rows(table_source.rows, available_renamings)
+                )
             return ValuesTableSource(
-                table_source.rows,
+                _rename_columns_in_rows(table_source.rows, available_renamings),
                 alias=table_source.table,
                 columns=_rename_values_columns(
                     table_source.table, table_source.cols, available_renamings
@@ -1861,7 +1874,7 @@ def rename_columns_in_clause(
 
             renamed_ctes.append(
                 ValuesWithQuery(
-                    cte.rows,
+                    _rename_columns_in_rows(cte.rows, available_renamings),
                     target_name=cte.target_table,
                     columns=_rename_values_columns(
                         cte.target_table, cte.cols, available_renamings
@@ -1984,7 +1997,7 @@ class _TableReferenceRenamer(
             if isinstance(cte, ValuesWithQuery):
                 ctes.append(
                     ValuesWithQuery(
-                        cte.rows,
+                        self._rename_rows(cte.rows),
                         target_name=target_table,
                         columns=[col.name for col in cte.cols],
                         materialized=cte.materialized,
@@ -2291,6 +2304,12 @@ class _TableReferenceRenamer(
     ) -> AbstractPredicate:
         return expr.accept_visitor(self)
 
+    def _rename_rows(
+        self, rows: Sequence[Sequence[SqlExpression]]
+    ) -> list[tuple[SqlExpression, ...]]:
+        """Handler method to rename all tables that are used within the rows of a ``VALUES`` list."""
+        return [tuple([val.accept_visitor(self) for val in row]) for row in rows]
+
     def _rename_query[Q: SelectStatement](self, query: Q) -> Q:
         """Handler method to rename all tables in a specific (sub-) query."""
         return build_query(query.accept_visitor(self).values())
@@ -2323,7 +2342,7 @@ class _TableReferenceRenamer(
             case ValuesTableSource():
                 renamed_alias = self._rename_table(source.table) if source.table else ""
                 return ValuesTableSource(
-                    source.rows,
+                    self._rename_rows(source.rows),
                     alias=renamed_alias,
                     columns=[col.name for col in source.cols],
                 )
-- 
2.43.0


From 4d6971ddea6dc0a41646f84733490cd182dd0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 047/252] fix: query fragments of negated predicates

---
 postbound/transform.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 46c401e..0de2cae 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -276,6 +276,14 @@ def _get_predicate_fragment(
         return predicate if predicate.tables().issubset(referenced_tables) else None
 
     compound_predicate: CompoundPredicate = predicate
+    if compound_predicate.operation == CompoundOperator.Not:
+        negated_fragment = _get_predicate_fragment(
+            compound_predicate.children, referenced_tables
+        )
+        return (
+            CompoundPredicate.create_not(negated_fragment) if negated_fragment else None
+        )
+
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
         for child in compound_predicate.children
@@ -283,10 +291,7 @@ def _get_predicate_fragment(
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
         return None
-    elif (
-        len(child_fragments) == 1
-        and compound_predicate.operation != CompoundOperator.Not
-    ):
+    elif len(child_fragments) == 1:
         return child_fragments[0]
     else:
         return CompoundPredicate(compound_predicate.operation, child_fragments)
-- 
2.43.0


From 258dad3c789e617236f74c411c82f68bd51e867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 048/252] fix: query fragments keep all projections that belong
 to the tables

---
 postbound/transform.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0de2cae..b657aff 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -411,17 +411,19 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
+            distinct = source_query.select_clause.distinct_specifier()
+            if not isinstance(distinct, bool):
+                distinct = [
+                    col for col in distinct if col.tables().issubset(referenced_tables)
+                ]
+
             if select_fragment:
-                select_clause = Select(
-                    select_fragment, distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select(select_fragment, distinct=distinct)
             else:
-                select_clause = Select.star(
-                    distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select.star(distinct=distinct)
 
         case "star" | "*":
             select_clause = Select.star()
-- 
2.43.0


From 93499bfb1917280c079d6c9ae5a6e05b94427cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 049/252] fix: query fragments retain the order of the FROM
 clause and do not unnest the tables of subqueries

---
 postbound/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index b657aff..17e9966 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -437,9 +437,9 @@ def extract_query_fragment(
     if source_query.from_clause:
         from_clause = ImplicitFromClause(
             [
-                DirectTableSource(tab)
-                for tab in source_query.tables()
-                if tab in referenced_tables
+                source
+                for source in source_query.from_clause.items
+                if source.table in referenced_tables
             ]
         )
     else:
-- 
2.43.0


From 293f9da0f089713903e4c8a4674c35772c316d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 050/252] fix: query fragments include all CTEs that are
 required by the extracted CTEs

---
 postbound/transform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 17e9966..83c6c6d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -366,15 +366,18 @@ def extract_query_fragment(
     if not referenced_tables.issubset(source_query.tables()):
         return None
 
-    cte_fragment = (
-        [
-            with_query
-            for with_query in source_query.cte_clause.queries
-            if with_query.target_table in referenced_tables
-        ]
-        if source_query.cte_clause
-        else []
-    )
+    cte_fragment: list[WithQuery] = []
+    required_tables = {tab.full_name or tab.identifier() for tab in referenced_tables}
+    for with_query in reversed(
+        source_query.cte_clause.queries if source_query.cte_clause else []
+    ):
+        # later CTEs can depend on earlier ones, so we need to check them in reverse order
+        if with_query.target_table.identifier() not in required_tables:
+            continue
+        cte_fragment.insert(0, with_query)
+        required_tables |= {
+            tab.full_name or tab.identifier() for tab in with_query.query.tables()
+        }
     cte_clause = (
         CommonTableExpression(cte_fragment, recursive=source_query.cte_clause.recursive)
         if cte_fragment
-- 
2.43.0


From 4ceee98f17fbed1f13afc8d7a555802d9328aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 051/252] fix: query fragments of set queries use the requested
 projection

---
 postbound/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 83c6c6d..33779eb 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -395,9 +395,11 @@ def extract_query_fragment(
         orderby_clause = None
 
     if isinstance(source_query, SetQuery):
-        left_query = extract_query_fragment(source_query.left_query, referenced_tables)
+        left_query = extract_query_fragment(
+            source_query.left_query, referenced_tables, projection=projection
+        )
         right_query = extract_query_fragment(
-            source_query.right_query, referenced_tables
+            source_query.right_query, referenced_tables, projection=projection
         )
         return SetQuery(
             left_query,
-- 
2.43.0


From bcbb46d67b341206afb25419deb1e07922bd74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 052/252] fix: conversion to implicit joins retains the table
 order, hints and EXPLAIN

---
 postbound/transform.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 33779eb..4b37f1c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -149,7 +149,7 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
     if not_operation or or_operation:
         return predicate
 
-    flattened_children = set()
+    flattened_children: list[AbstractPredicate] = []
     for child in predicate.children:
         if (
             isinstance(child, CompoundPredicate)
@@ -157,11 +157,14 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
         ):
             flattened_child = flatten_and_predicate(child)
             if isinstance(flattened_child, CompoundPredicate):
-                flattened_children |= set(flattened_child.children)
+                flattened_children.extend(flattened_child.children)
             else:
-                flattened_children.add(flattened_child)
+                flattened_children.append(flattened_child)
         else:
-            flattened_children.add(child)
+            flattened_children.append(child)
+
+    # remove duplicate predicates, but retain the original order
+    flattened_children = list(dict.fromkeys(flattened_children))
 
     if len(flattened_children) == 1:
         return util.simplify(flattened_children)
@@ -191,7 +194,7 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     """
     additional_predicates: list[AbstractPredicate] = []
     complete_from_tables: list[TableReference] = []
-    join_working_set: list[TableSource] = list(source_query.from_clause.items)
+    join_working_set: list[TableSource] = list(reversed(source_query.from_clause.items))
 
     while join_working_set:
         current_table_source = join_working_set.pop()
@@ -206,8 +209,9 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
             case JoinTableSource() if (
                 current_table_source.join_type == JoinType.InnerJoin
             ):
-                join_working_set.append(current_table_source.left)
+                # the left input has to be processed first to retain the order of the tables
                 join_working_set.append(current_table_source.right)
+                join_working_set.append(current_table_source.left)
                 additional_predicates.append(current_table_source.join_condition)
             case _:
                 raise ValueError(
@@ -235,6 +239,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From 245111d534feff6e46b7d8d1b470811e133dabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 053/252] fix: adding equivalence class predicates retains all
 other join predicates

---
 postbound/transform.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 4b37f1c..4713d2f 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -676,13 +676,23 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
+    # Only top-level conjunctions enforce the equivalence of columns. Joins below an OR or NOT do not.
+    where_predicate = flatten_and_predicate(query.where_clause.predicate)
+    if isinstance(where_predicate, CompoundPredicate) and (
+        where_predicate.operation == CompoundOperator.And
+    ):
+        conjuncts = list(where_predicate.children)
+    else:
+        conjuncts = [where_predicate]
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
+    ec_classes = determine_join_equivalence_classes(conjuncts)
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
-    updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
+    # Equivalence classes only describe equi-joins. All other predicates have to be retained as they are.
+    all_predicates = conjuncts + list(ec_predicates)
+    updated_where_clause = Where(
+        flatten_and_predicate(CompoundPredicate.create_and(all_predicates))
+    )
 
     return replace_clause(query, updated_where_clause)
 
-- 
2.43.0


From 536df048ef75315c5fd6a0b5db9de76c6ed3c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 054/252] fix: precise cardinalities are only cached if the
 cache is enabled

---
 postbound/opt/_cardinalities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..f0508b8 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -66,10 +66,11 @@ class PreciseCardinalities(CardinalityEstimator):
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From 32a3706780da05d4bc43b8ab4cb09479b3df4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 055/252] fix: cardinalities of intermediates ignore grouping,
 ordering and limits of the query

---
 postbound/opt/_cardinalities.py |  8 ++++++--
 postbound/opt/native.py         | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index f0508b8..4b109c1 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -13,7 +13,7 @@ from .._stages import (
     CardinalityEstimator,
 )
 from ..db import Database, DatabasePool
-from ..qal import SqlQuery
+from ..qal import GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..workloads import Workload
 
 
@@ -65,6 +65,7 @@ class PreciseCardinalities(CardinalityEstimator):
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
+        subquery = transform.drop_clause(subquery, [GroupBy, Having, OrderBy, Limit])
         subquery = transform.as_count_star_query(subquery)
         if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
@@ -254,11 +255,14 @@ class PreComputedCardinalities(CardinalityEstimator):
         query_fragment = transform.extract_query_fragment(query, tables)
         if not query_fragment:
             return Cardinality.unknown()
-
+        query_fragment = transform.drop_clause(
+            query_fragment, [GroupBy, Having, OrderBy, Limit]
+        )
         if self._live_fallback_style == "actual":
             true_card_query = transform.as_count_star_query(query_fragment)
             cardinality = Cardinality(self._live_db.execute_query(true_card_query))
         elif self._live_fallback_style == "estimated":
+            query_fragment = transform.as_star_query(query_fragment)
             cardinality = self._live_db.optimizer().cardinality_estimate(query_fragment)
         else:
             raise ValueError(f"Unknown fallback style: '{self._live_fallback_style}'")
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..4ad539d 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -46,7 +46,7 @@ from .._stages import (
 )
 from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
-from ..qal import ColumnExpression, OrderBy, SqlQuery
+from ..qal import ColumnExpression, GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..util import jsondict
 
 
@@ -248,8 +248,10 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            lambda node: (
+                node.node_type == IntermediateOperator.Materialize
+                and node.tables == plan.tables()
+            )
         )
         if not intermediate_node:
             warnings.warn(
@@ -354,8 +356,10 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            lambda node: (
+                node.node_type == IntermediateOperator.Memoize
+                and node.tables == plan.tables()
+            )
         )
         if not intermediate_node:
             warnings.warn(
@@ -422,6 +426,7 @@ class NativeCardinalityEstimator(CardinalityEstimator):
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
+        subquery = transform.drop_clause(subquery, [GroupBy, Having, OrderBy, Limit])
         subquery = transform.as_star_query(subquery)
         return self._target_db.optimizer().cardinality_estimate(subquery)
 
-- 
2.43.0


From ceccfa50d6c52a80b88f852048540381fa2e6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 056/252] fix: missing pre-computed cardinalities raise an
 error unless configured otherwise

---
 postbound/opt/_cardinalities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 4b109c1..63906b0 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -203,12 +203,12 @@ class PreComputedCardinalities(CardinalityEstimator):
                 f"{n_samples} samples found for join {tables_debug} in query {label}. Expected 1."
             )
 
-        fallback_value = self._attempt_fallback_estimate(n_samples, query, tables)
-        if fallback_value is None and self._error_on_missing_card:
+        has_fallback = self._default_card is not None or self._live_db is not None
+        if not has_fallback and self._error_on_missing_card:
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return self._attempt_fallback_estimate(n_samples, query, tables)
 
     def describe(self) -> dict:
         return {
-- 
2.43.0


From ff0d89d70eddaf7ff6cd9e34401f7f4ec7534722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 057/252] fix: saving fallback cardinalities retains the
 existing rows

---
 postbound/opt/_cardinalities.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 63906b0..da67342 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import json
+import os
 import random
 from collections.abc import Iterable
 from typing import Literal, Optional
@@ -290,7 +291,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -305,7 +306,19 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        raw_df = self._true_card_df.assign(
+            **{self._tables_col: self._true_card_df[self._tables_col].map(util.to_json)}
+        )
+
+        # the lookup table is replaced at once, such that it survives any errors while writing the new contents
+        target_path = os.path.realpath(self._lookup_df_path)
+        tmp_path = f"{target_path}.{os.getpid()}.tmp"
+        try:
+            raw_df.to_csv(tmp_path, index=False)
+            os.replace(tmp_path, target_path)
+        finally:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From 3cd4f43f9507fa0656db7ca6df1871cd1e5923e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 058/252] fix: pre-computed cardinalities are found for numeric
 labels

---
 postbound/opt/_cardinalities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index da67342..bbf72c6 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -179,7 +179,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._save_life_fallback = save_live_fallback_results
 
         self._true_card_df = pd.read_csv(
-            lookup_table_path, converters={tables_col: _parse_tables}
+            lookup_table_path, converters={tables_col: _parse_tables, label_col: str}
         )
 
     def calculate_estimate(
@@ -188,7 +188,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         tables = frozenset(util.enlist(tables))
         label = self._workload.label_of(query)
         relevant_samples = self._true_card_df[
-            self._true_card_df[self._label_col] == label
+            self._true_card_df[self._label_col] == str(label)
         ]
         cardinality_sample = relevant_samples[
             relevant_samples[self._tables_col] == tables
@@ -290,7 +290,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             The computed cardinality
         """
         result_row = {}
-        result_row[self._label_col] = [self._workload.label_of(query)]
+        result_row[self._label_col] = [str(self._workload.label_of(query))]
         result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
-- 
2.43.0


From b4497ee45a94a2fb2f87041f9a3867f74f097ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 059/252] fix: distorted cardinalities forward the setup to the
 actual estimator

---
 postbound/opt/_cardinalities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index bbf72c6..384607a 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -365,6 +365,14 @@ class CardinalityDistortion(CardinalityEstimator):
             "distortion_strategy": self.distortion_strategy,
         }
 
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        super().cleanup()
+
     def calculate_estimate(
         self, query: SqlQuery, tables: TableReference | Iterable[TableReference]
     ) -> Cardinality:
-- 
2.43.0


From 3e6dfae0150eccd4f20d8be8ad229d878131f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 060/252] fix: intermediates include base tables without any
 predicates

---
 postbound/_stages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 0b21e40..161a155 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,11 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            is_join = len(candidate_join) > 1
+            if (
+                is_join
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From 3afb6e9a3a8c6e914eec2be02f12d5ce796f8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 061/252] fix: names are resolved according to the scoping
 rules of SQL

---
 postbound/parser.py | 218 ++++++++++++++++++++++++--------------------
 1 file changed, 118 insertions(+), 100 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index feb0c79..f7040b0 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -240,13 +240,17 @@ class QueryNamespace:
         return QueryNamespace(top_level=top_level)
 
     def __init__(
-        self, *, parent: Optional[QueryNamespace] = None, top_level: bool = False
+        self,
+        *,
+        parent: Optional[QueryNamespace] = None,
+        top_level: bool = False,
+        isolated: bool = False,
     ) -> None:
         self._parent = parent
         self._top_level = top_level
 
-        self._subquery_children: dict[str, QueryNamespace] = {}
-        """Nested namespaces that are provided as part of subqueries. Entries map alias -> query."""
+        self._isolated = isolated
+        """Whether the tables in the FROM clause of the parent are invisible, e.g. for subqueries that are not LATERAL."""
 
         self._setop_children: list[QueryNamespace] = []
         """Namespace of the queries that form a set operation in the current namespace."""
@@ -276,10 +280,12 @@ class QueryNamespace:
         self._table_sources: dict[str, TableReference] = {}
         """The tables that are part of the FROM clause of the query. Entries map alias -> table.
 
-        Tables can be contained in this dictionary multiple times: once for each relevant identifier. If a table has both an
-        alias as well as a full name, both keys will be present.
+        A table that has an alias can only be referenced via this alias.
         """
 
+        self._ctx_shapes: list[Optional[QueryNamespace]] = []
+        """The namespaces that define the columns of the (virtual) tables from `_current_ctx`."""
+
         self._output_shape: list[str] = []
         """The column names that are part of the result set produced by the queries in this namespace.
 
@@ -341,23 +347,18 @@ class QueryNamespace:
                     self._output_shape.append(col.name)
 
                 case StarExpression(from_table):
-                    ctx = {from_table} if from_table else self._current_ctx
-                    for table in ctx:
-                        if not table.virtual:
-                            self._output_shape.extend(
-                                self._schema_cache.columns_of(table)
-                            )
+                    if from_table:
+                        ctx = [(from_table, self._lookup_shape(from_table))]
+                    else:
+                        ctx = zip(self._current_ctx, self._ctx_shapes)
+
+                    for table, defining_nsp in ctx:
+                        if defining_nsp:
+                            self._output_shape.extend(defining_nsp._output_shape)
                             continue
-
-                        if table.alias:
-                            defining_nsp = self._lookup_namespace(table.alias)
-                        if not defining_nsp and table.full_name:
-                            # if we try to look up an aliased CTE, we need to use the full name instead
-                            defining_nsp = self._lookup_namespace(table.full_name)
-                        if not defining_nsp:
+                        if table.virtual:
                             raise ParserError(f"No namespace found for table '{table}'")
-                        self._output_shape.extend(defining_nsp._output_shape)
-
+                        self._output_shape.extend(self._schema_cache.columns_of(table))
                 case _ if self._top_level:
                     pass
 
@@ -372,7 +373,9 @@ class QueryNamespace:
                         stacklevel=2,
                     )
 
-    def register_table(self, table: TableReference) -> None:
+    def register_table(
+        self, table: TableReference, *, shape: Optional[QueryNamespace] = None
+    ) -> None:
         """Adds a "physical" table to the current namespace.
 
         In truth, the table does not need to be physical, it can also be a CTE that was defined in an outer namespace and
@@ -380,14 +383,17 @@ class QueryNamespace:
         """
         self._invalidate_column_cache()
         self._current_ctx.append(table)
-        if table.alias:
-            self._table_sources[table.alias] = table
-        if table.full_name:
-            self._table_sources[table.full_name] = table
+        self._ctx_shapes.append(shape)
+        self._table_sources[table.identifier()] = table
 
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
-        return name in self._output_shape
+        if name in self._output_shape:
+            return True
+        # while we are still parsing a recursive CTE, its columns are determined by the part that we already know
+        return bool(self._setop_children) and self._setop_children[0].provides_column(
+            name
+        )
 
     def lookup_column(self, key: str) -> Optional[TableReference]:
         """Searches for the table that provies a specific column.
@@ -401,12 +407,16 @@ class QueryNamespace:
             # This is a column that we just "created" in our select clause. It cannot (yet) belong to any table.
             return None
 
+        return self._lookup_input_column(key)
+
+    def _lookup_input_column(self, key: str) -> Optional[TableReference]:
+        """Searches for a column among the tables of this namespace and the enclosing queries."""
         cached_table = self._column_cache.get(key)
         if cached_table:
             return cached_table
 
         matching_table: Optional[TableReference] = None
-        for table in self._current_ctx:
+        for table, defining_nsp in zip(self._current_ctx, self._ctx_shapes):
             # later tables overwrite unqualified columns of earlier tables
             physical_table = (
                 self._schema_cache.lookup_column(key, [table])
@@ -417,26 +427,39 @@ class QueryNamespace:
                 matching_table = table
                 break
 
-            subquery_nsp = self._subquery_children.get(table.identifier())
-            if subquery_nsp and subquery_nsp.provides_column(key):
+            if defining_nsp and defining_nsp.provides_column(key):
                 matching_table = table
                 break
-
-            cte_nsp = self._cte_sources.get(table.identifier())
-            if cte_nsp and cte_nsp.provides_column(key):
-                matching_table = table
-                break
-
-            parent_nsp = self._lookup_namespace(table.identifier())
-            if parent_nsp and parent_nsp.provides_column(key):
-                matching_table = table
-                break
-
         if not matching_table:
-            return None
-
+            return self._lookup_outer_column(key)
         self._column_cache[key] = matching_table
-        return matching_table
+        return matching_table if matching_table.identifier() else None
+
+    def _lookup_outer_column(self, key: str) -> Optional[TableReference]:
+        """Searches for a column that is provided by one of the enclosing queries."""
+        has_unknown_columns = any(
+            not table.virtual and not self._schema_cache.columns_of(table)
+            for table in self._current_ctx
+        )
+        if has_unknown_columns:
+            # the column could also belong to one of our own tables
+            return None
+        outer_nsp = self._outer_namespace()
+        return outer_nsp._lookup_input_column(key) if outer_nsp else None
+
+    def _outer_namespace(self) -> Optional[QueryNamespace]:
+        """Provides the innermost enclosing namespace whose tables can be referenced from this namespace."""
+        if self._parent and self._isolated:
+            return self._parent._outer_namespace()
+        return self._parent
+
+    def _lookup_shape(self, table: TableReference) -> Optional[QueryNamespace]:
+        """Provides the namespace that defines the columns of a virtual table."""
+        for candidate, shape in zip(self._current_ctx, self._ctx_shapes):
+            if candidate == table:
+                return shape
+        outer_nsp = self._outer_namespace()
+        return outer_nsp._lookup_shape(table) if outer_nsp else None
 
     def resolve_table(self, key: str) -> Optional[TableReference]:
         """Searches for the table that is referenced by a specific key.
@@ -448,26 +471,33 @@ class QueryNamespace:
         if sourced_table:
             return sourced_table
 
-        if key in self._cte_sources:
-            return TableReference.create_virtual(key)
+        outer_nsp = self._outer_namespace()
+        return outer_nsp.resolve_table(key) if outer_nsp else None
 
-        return self._parent.resolve_table(key) if self._parent else None
+    def resolve_cte(self, name: str) -> Optional[QueryNamespace]:
+        """Searches for the namespace of a specific CTE. CTEs can also be defined by any of the enclosing queries."""
+        cte_nsp = self._cte_sources.get(name)
+        if cte_nsp:
+            return cte_nsp
+        return self._parent.resolve_cte(name) if self._parent else None
+
+    def register_cte(self, name: str, namespace: QueryNamespace) -> None:
+        """Makes a CTE available to all subsequent parts of the query."""
+        self._cte_sources[name] = namespace
 
     def open_nested(
         self,
         *,
-        alias: str = "",
         source: Literal["cte", "subquery", "setop", "values", "temporary"],
+        lateral: bool = False,
     ) -> QueryNamespace:
         """Creates a new local namespace for a nested query.
 
-        Depending on the type of nested query, the namespace will be registered in different ways and used for different
-        purposes (see parameters below).
+        Depending on the type of nested query, the namespace will be used for different purposes (see parameters below). The
+        tables that are produced by CTEs, subqueries and VALUES have to be registered once the nested query is parsed.
 
         Parameters
         ----------
-        alias : str, optional
-            The name of the namespace. This is only relevant for CTEs and subqueries in the FROM clause.
         source : Literal["cte", "subquery", "setop", "values", "temporary"]
             The type of nested query. This value is used to determine the use of the subquery namespace as follows:
 
@@ -478,41 +508,15 @@ class QueryNamespace:
             - "values": The namespace is a temporary table that is part of a VALUES clause.
             - "temporary": The namespace is a temporary table that is part of a subquery which is not used in the FROM clause,
               e.g. as a filter condition.
-
+        lateral : bool, optional
+            Whether a namespace in the FROM clause can access the preceding tables of the FROM clause.
         """
-        if source != "temporary":
-            self._invalidate_column_cache()
-
-        child = QueryNamespace(parent=self)
-
-        match source:
-            case "cte":
-                self._cte_sources[alias] = child
-            case "subquery" | "values":
-                table = TableReference.create_virtual(alias)
-                self._subquery_children[alias] = child
-                self._current_ctx.append(table)
-                self._table_sources[alias] = table
-            case "setop":
-                self._setop_children.append(child)
-            case _:
-                # ignore other sources
-                pass
-
+        isolated = source in ("subquery", "values") and not lateral
+        child = QueryNamespace(parent=self, isolated=isolated)
+        if source == "setop":
+            self._setop_children.append(child)
         return child
 
-    def _lookup_namespace(self, table_key: str) -> Optional[QueryNamespace]:
-        """Searches for the (parent) namespace that provides a specific table."""
-        cte_nsp = self._cte_sources.get(table_key)
-        if cte_nsp:
-            return cte_nsp
-
-        subquery_nsp = self._subquery_children.get(table_key)
-        if subquery_nsp:
-            return subquery_nsp
-
-        return self._parent._lookup_namespace(table_key) if self._parent else None
-
     def _invalidate_column_cache(self) -> None:
         """Clears all currently cached columns in case there is fear of a change in the column bindings."""
         self._column_cache.clear()
@@ -586,6 +590,8 @@ def _pglast_create_bound_colref(
         The new column reference
     """
     owning_table = namespace.resolve_table(tab)
+    if not owning_table and namespace.resolve_cte(tab):
+        owning_table = TableReference.create_virtual(tab)
     if not owning_table:
         raise ParserError("Table not found: " + tab)
     parsed_column = ColumnReference(col, owning_table)
@@ -1309,8 +1315,9 @@ def _pglast_parse_values_cte(
     for raw_colname in pglast_data.get("aliascolnames", []):
         colnames.append(raw_colname["String"]["sval"])
 
-    if colnames:
-        namespace.determine_output_shape(colnames)
+    output_names = [f"column{i + 1}" for i in range(len(values[0]))]
+    output_names[: len(colnames)] = colnames
+    namespace.determine_output_shape(output_names)
 
     return values, colnames
 
@@ -1336,6 +1343,7 @@ def _pglast_parse_ctes(
         The parsed CTEs.
     """
     parsed_ctes: list[WithQuery] = []
+    recursive = json_data.get("recursive", False)
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
         target_name = current_cte["ctename"]
@@ -1356,7 +1364,9 @@ def _pglast_parse_ctes(
         if "SelectStmt" not in current_cte["ctequery"]:
             raise ParserError("Only SELECT queries are supported in CTEs")
         query_data = current_cte["ctequery"]["SelectStmt"]
-        child_nsp = parent_namespace.open_nested(alias=target_name, source="cte")
+        child_nsp = parent_namespace.open_nested(source="cte")
+        if recursive:
+            parent_namespace.register_cte(target_name, child_nsp)
         if "targetList" not in query_data and query_data["op"] == "SETOP_NONE":
             # CTE is a VALUES query
             values, columns = _pglast_parse_values_cte(
@@ -1382,8 +1392,8 @@ def _pglast_parse_ctes(
             )
 
         parsed_ctes.append(parsed_cte)
+        parent_namespace.register_cte(target_name, child_nsp)
 
-    recursive = json_data.get("recursive", False)
     return CommonTableExpression(parsed_ctes, recursive=recursive)
 
 
@@ -1592,17 +1602,15 @@ def _pglast_parse_from_entry(
             # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
             # we should not create a new table reference, but rather use the existing one.
             # But, if we alias the virtual table, we still need a new reference
-            similar_table = namespace.resolve_table(table.full_name)
-            if similar_table and similar_table.virtual and not table.alias:
+            cte_nsp = None if table.schema else namespace.resolve_cte(table.full_name)
+            if cte_nsp and not table.alias:
                 # a simple reference to the CTE
-                namespace.register_table(similar_table)
-                return DirectTableSource(similar_table)
-            if similar_table and similar_table.virtual and table.alias:
+                table = TableReference.create_virtual(table.full_name)
+            elif cte_nsp:
                 # an aliased reference to the CTE
                 table = table.make_virtual()
-                # TODO: should we also update the mapping of the full_name here?
 
-            namespace.register_table(table)
+            namespace.register_table(table, shape=cte_nsp)
             return DirectTableSource(table)
 
         case "JoinExpr":
@@ -1670,13 +1678,15 @@ def _pglast_parse_from_entry(
             else:
                 alias = ""
 
-            child_nsp = namespace.open_nested(alias=alias, source="subquery")
+            child_nsp = namespace.open_nested(source="subquery", lateral=is_lateral)
             subquery = _pglast_parse_query(
                 raw_subquery["subquery"]["SelectStmt"],
                 namespace=child_nsp,
                 query_txt=query_txt,
             )
-
+            namespace.register_table(
+                TableReference.create_virtual(alias), shape=child_nsp
+            )
             subquery_source = SubqueryTableSource(
                 subquery, target_name=alias, lateral=is_lateral
             )
@@ -1737,7 +1747,9 @@ def _pglast_parse_values(
 
     raw_alias: dict = pglast_data.get("alias", {})
     alias = raw_alias.get("aliasname", "")
-    child_nsp = parent_namespace.open_nested(alias=alias, source="values")
+    is_lateral = pglast_data.get("lateral", False)
+    child_nsp = parent_namespace.open_nested(source="values", lateral=is_lateral)
+
     raw_values: list[dict] = pglast_data["subquery"]["SelectStmt"]["valuesLists"]
 
     values: ValuesList = []
@@ -1749,6 +1761,14 @@ def _pglast_parse_values(
         ]
         values.append(tuple(parsed_items))
 
+    output_names = [f"column{i + 1}" for i in range(len(values[0]))]
+    for i, raw_colname in enumerate(raw_alias.get("colnames", [])):
+        output_names[i] = raw_colname["String"]["sval"]
+    child_nsp.determine_output_shape(output_names)
+    parent_namespace.register_table(
+        TableReference.create_virtual(alias), shape=child_nsp
+    )
+
     if not alias:
         return ValuesTableSource(values, alias=alias, columns=[])
 
@@ -1758,9 +1778,7 @@ def _pglast_parse_values(
     colnames = []
     for raw_colname in raw_alias["colnames"]:
         colnames.append(raw_colname["String"]["sval"])
-    table_source = ValuesTableSource(values, alias=alias, columns=colnames)
-    child_nsp.determine_output_shape(table_source.cols)
-    return table_source
+    return ValuesTableSource(values, alias=alias, columns=colnames)
 
 
 def _pglast_parse_from(
-- 
2.43.0


From 419ae3a4edd4dc92730df53acea82ca684fdacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 062/252] fix: join conditions can only reference the tables of
 their join

---
 postbound/parser.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index f7040b0..dd74947 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -474,6 +474,19 @@ class QueryNamespace:
         outer_nsp = self._outer_namespace()
         return outer_nsp.resolve_table(key) if outer_nsp else None
 
+    def n_tables(self) -> int:
+        """Provides the number of tables that have been registered in the FROM clause so far."""
+        return len(self._current_ctx)
+
+    def open_join(self, first_table: int) -> QueryNamespace:
+        """Creates a namespace that is restricted to those tables that have been registered starting at a specific position."""
+        join_nsp = QueryNamespace(parent=self, isolated=True)
+        for table, shape in zip(
+            self._current_ctx[first_table:], self._ctx_shapes[first_table:]
+        ):
+            join_nsp.register_table(table, shape=shape)
+        return join_nsp
+
     def resolve_cte(self, name: str) -> Optional[QueryNamespace]:
         """Searches for the namespace of a specific CTE. CTEs can also be defined by any of the enclosing queries."""
         cte_nsp = self._cte_sources.get(name)
@@ -1639,6 +1652,7 @@ def _pglast_parse_from_entry(
                 case _:
                     raise ParserError("Unknown join type: " + join_expr["jointype"])
 
+            n_preceding_tables = namespace.n_tables()
             left = _pglast_parse_from_entry(
                 join_expr["larg"], namespace=namespace, query_txt=query_txt
             )
@@ -1648,8 +1662,11 @@ def _pglast_parse_from_entry(
             if join_type == JoinType.CrossJoin:
                 return JoinTableSource(left, right, join_type=JoinType.CrossJoin)
 
+            # the join condition can only access the tables of the join itself
             join_condition = _pglast_parse_predicate(
-                join_expr["quals"], namespace=namespace, query_txt=query_txt
+                join_expr["quals"],
+                namespace=namespace.open_join(n_preceding_tables),
+                query_txt=query_txt,
             )
 
             # we do not need to store new tables in available_tables here, since this is already handled by the recursion.
-- 
2.43.0


From 1733e027e3a0b73c05c5e01d919a32e4b1c20885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 063/252] fix: columns of table functions can be referenced

---
 postbound/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index dd74947..5e43308 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1733,6 +1733,12 @@ def _pglast_parse_from_entry(
             parsed_function = _pglast_parse_expression(
                 function_expr, namespace=namespace, query_txt=query_txt
             )
+            if alias:
+                function_nsp = namespace.open_nested(source="temporary")
+                function_nsp.determine_output_shape([alias])
+                namespace.register_table(
+                    TableReference.create_virtual(alias), shape=function_nsp
+                )
             return FunctionTableSource(parsed_function, alias=alias)
 
         case _:
-- 
2.43.0


From 2ceb32e722496f66990721dea27471e6a0267070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 064/252] fix: columns of the SELECT clause are only visible in
 ORDER BY, GROUP BY and DISTINCT ON

---
 postbound/parser.py | 155 +++++++++++++++++++++++++++++---------------
 1 file changed, 103 insertions(+), 52 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 5e43308..b9228e4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -295,11 +295,12 @@ class QueryNamespace:
         columns (which arguably they are, just not for our purposes).
         """
 
-        self._produced_columns: set[str] = set()
+        self._produced_columns: dict[str, ColumnReference] = {}
         """Column names that are produced by the SELECT clause of this namespace.
 
         This includes all aliases that are defined in this select clause. These columns cannot be bound to any table in the
-        current context, but have to be bound to the aliased table for subqueries, etc.
+        current context, but have to be bound to the aliased table for subqueries, etc. Columns that are simply passed on by
+        the SELECT clause are also included.
         """
 
         self._column_cache: dict[str, TableReference] = {}
@@ -332,19 +333,21 @@ class QueryNamespace:
                     else projection
                 )
                 self._output_shape.append(colname)
-                self._produced_columns.add(colname)
                 continue
 
             # Must be BaseProjection of a SELECT clause
             if projection.target_name:
                 # If we have an alias on the projection, we need to use this alias to reference to the column in the future
                 self._output_shape.append(projection.target_name)
-                self._produced_columns.add(projection.target_name)
+                self._produced_columns[projection.target_name] = ColumnReference(
+                    projection.target_name
+                )
                 continue
 
             match projection.expression:
                 case ColumnExpression(col):
                     self._output_shape.append(col.name)
+                    self._produced_columns.setdefault(col.name, col)
 
                 case StarExpression(from_table):
                     if from_table:
@@ -403,37 +406,42 @@ class QueryNamespace:
 
         If no table is found , *None* is returned.
         """
-        if key in self._produced_columns:
-            # This is a column that we just "created" in our select clause. It cannot (yet) belong to any table.
-            return None
-
-        return self._lookup_input_column(key)
+        matching_table = self._find_provider(key)
+        if not matching_table:
+            return self._lookup_outer_column(key)
+        return matching_table if matching_table.identifier() else None
 
-    def _lookup_input_column(self, key: str) -> Optional[TableReference]:
-        """Searches for a column among the tables of this namespace and the enclosing queries."""
+    def _find_provider(self, key: str) -> Optional[TableReference]:
+        """Searches for the table of the *FROM* clause that provides a specific column."""
         cached_table = self._column_cache.get(key)
         if cached_table:
             return cached_table
 
-        matching_table: Optional[TableReference] = None
         for table, defining_nsp in zip(self._current_ctx, self._ctx_shapes):
             # later tables overwrite unqualified columns of earlier tables
-            physical_table = (
-                self._schema_cache.lookup_column(key, [table])
-                if not table.virtual
-                else None
-            )
-            if physical_table:
-                matching_table = table
-                break
+            if defining_nsp:
+                provides_column = defining_nsp.provides_column(key)
+            else:
+                provides_column = bool(self._schema_cache.lookup_column(key, [table]))
+            if provides_column:
+                self._column_cache[key] = table
+                return table
 
-            if defining_nsp and defining_nsp.provides_column(key):
-                matching_table = table
-                break
-        if not matching_table:
-            return self._lookup_outer_column(key)
-        self._column_cache[key] = matching_table
-        return matching_table if matching_table.identifier() else None
+        return None
+
+    def lookup_output_column(
+        self, key: str, *, prefer_input: bool = False
+    ) -> Optional[ColumnReference]:
+        """Searches for a column in the output of the current query, e.g. to resolve an alias in the *ORDER BY* clause.
+
+        If no such column is found, *None* is returned. `prefer_input` can be used to ignore output columns if one of the
+        tables in the *FROM* clause contains a column of the same name.
+        """
+        if self._setop_children:
+            return ColumnReference(key)
+        if prefer_input and self._find_provider(key):
+            return None
+        return self._produced_columns.get(key)
 
     def _lookup_outer_column(self, key: str) -> Optional[TableReference]:
         """Searches for a column that is provided by one of the enclosing queries."""
@@ -445,7 +453,7 @@ class QueryNamespace:
             # the column could also belong to one of our own tables
             return None
         outer_nsp = self._outer_namespace()
-        return outer_nsp._lookup_input_column(key) if outer_nsp else None
+        return outer_nsp.lookup_column(key) if outer_nsp else None
 
     def _outer_namespace(self) -> Optional[QueryNamespace]:
         """Provides the innermost enclosing namespace whose tables can be referenced from this namespace."""
@@ -1507,40 +1515,42 @@ def _pglast_parse_select(
         distinct = False  # value not present --> no DISTINCT
     elif pglast_distinct == [{}]:  # that is pglasts encoding of a plain DISTINCT
         distinct = True
-    elif isinstance(pglast_distinct, list):
-        distinct = [
-            _pglast_parse_expression(expr, namespace=namespace, query_txt=query_txt)
-            for expr in pglast_distinct
-        ]
-    else:
+    elif not isinstance(pglast_distinct, list):
         raise ParserError(f"Unknown DISTINCT format: {pglast_distinct}")
+    else:
+        distinct = False  # DISTINCT ON can refer to the target columns, so we need to parse them first
 
     targetlist: list[dict] = pglast_data[
         "targetList"
     ]  # targetlist must always be present, so no need for .get()
 
     # first, try for SELECT * queries
+    clause: Optional[Select] = None
     if len(targetlist) == 1:
         target = targetlist[0]["ResTarget"]["val"]
-        select_star = _pglast_try_select_star(target, distinct=distinct)
-
-        if select_star:
-            namespace.determine_output_shape(select_star)
-            return select_star
+        clause = _pglast_try_select_star(target, distinct=distinct)
         # if this is not a SELECT * query, we can continue with the regular parsing
 
-    targets: list[BaseProjection] = []
-    for target in targetlist:
-        expression = _pglast_parse_expression(
-            target["ResTarget"]["val"], namespace=namespace, query_txt=query_txt
-        )
-        alias = target["ResTarget"].get("name", "")
-        projection = BaseProjection(expression, alias)
-        targets.append(projection)
+    if not clause:
+        targets: list[BaseProjection] = []
+        for target in targetlist:
+            expression = _pglast_parse_expression(
+                target["ResTarget"]["val"], namespace=namespace, query_txt=query_txt
+            )
+            alias = target["ResTarget"].get("name", "")
+            projection = BaseProjection(expression, alias)
+            targets.append(projection)
+        clause = Select(targets, distinct=distinct)
 
-    clause = Select(targets, distinct=distinct)
     namespace.determine_output_shape(clause)
-    return clause
+    if not pglast_distinct or pglast_distinct == [{}]:
+        return clause
+
+    distinct_on = [
+        _pglast_parse_output_expression(expr, namespace=namespace, query_txt=query_txt)
+        for expr in pglast_distinct
+    ]
+    return Select(clause.targets, distinct=distinct_on)
 
 
 def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
@@ -1920,6 +1930,47 @@ def _pglast_parse_where(
     return Where(predicate)
 
 
+def _pglast_parse_output_expression(
+    pglast_data: dict,
+    *,
+    namespace: QueryNamespace,
+    query_txt: str,
+    prefer_input: bool = False,
+) -> SqlExpression:
+    """Handler method to parse expressions that can also reference the columns of the *SELECT* clause.
+
+    Such references must be plain column names. If they are part of a more complex expression, only the columns of the input
+    tables are available.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the expression
+    namespace : QueryNamespace
+        The tables and columns that are available to the expression
+    query_txt : str
+        The raw query text
+    prefer_input : bool, optional
+        Whether columns of the input tables take precedence over the columns of the *SELECT* clause
+
+    Returns
+    -------
+    SqlExpression
+        The parsed expression
+    """
+    fields = pglast_data.get("ColumnRef", {}).get("fields", [])
+    if len(fields) == 1 and "String" in fields[0]:
+        output_column = namespace.lookup_output_column(
+            fields[0]["String"]["sval"], prefer_input=prefer_input
+        )
+        if output_column:
+            return ColumnExpression(output_column)
+
+    return _pglast_parse_expression(
+        pglast_data, namespace=namespace, query_txt=query_txt
+    )
+
+
 def _pglast_parse_groupby(
     groupby_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
 ) -> GroupBy:
@@ -1945,8 +1996,8 @@ def _pglast_parse_groupby(
     for item in groupby_clause:
         if "GroupingSet" in item:
             raise NotImplementedError("Grouping sets are not yet supported")
-        group_expression = _pglast_parse_expression(
-            item, namespace=namespace, query_txt=query_txt
+        group_expression = _pglast_parse_output_expression(
+            item, namespace=namespace, query_txt=query_txt, prefer_input=True
         )
         groupings.append(group_expression)
 
@@ -2003,7 +2054,7 @@ def _pglast_parse_orderby(
 
     for item in order_clause:
         expression = item["SortBy"]
-        sort_key = _pglast_parse_expression(
+        sort_key = _pglast_parse_output_expression(
             expression["node"], namespace=namespace, query_txt=query_txt
         )
 
-- 
2.43.0


From 4bfa256723c0fbfa21cbfcc0b7de8521943e0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 065/252] fix: subqueries in FROM do not need an alias

---
 postbound/parser.py | 55 +++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index b9228e4..6feb50a 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -255,7 +255,7 @@ class QueryNamespace:
         self._setop_children: list[QueryNamespace] = []
         """Namespace of the queries that form a set operation in the current namespace."""
 
-        self._current_ctx: list[TableReference] = []
+        self._current_ctx: list[Optional[TableReference]] = []
         """The tables that are currently in scope, no matter their origin (CTEs or FROM clause).
 
         For the purpose of this dictionary, it does not matter where a table comes from (physical table, CTE, subquery, ...).
@@ -303,7 +303,7 @@ class QueryNamespace:
         the SELECT clause are also included.
         """
 
-        self._column_cache: dict[str, TableReference] = {}
+        self._column_cache: dict[str, int] = {}
         """A cache to resolve common columns in the current context more quickly."""
 
     def determine_output_shape(
@@ -377,7 +377,10 @@ class QueryNamespace:
                     )
 
     def register_table(
-        self, table: TableReference, *, shape: Optional[QueryNamespace] = None
+        self,
+        table: Optional[TableReference],
+        *,
+        shape: Optional[QueryNamespace] = None,
     ) -> None:
         """Adds a "physical" table to the current namespace.
 
@@ -387,7 +390,8 @@ class QueryNamespace:
         self._invalidate_column_cache()
         self._current_ctx.append(table)
         self._ctx_shapes.append(shape)
-        self._table_sources[table.identifier()] = table
+        if table:
+            self._table_sources[table.identifier()] = table
 
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
@@ -406,26 +410,25 @@ class QueryNamespace:
 
         If no table is found , *None* is returned.
         """
-        matching_table = self._find_provider(key)
-        if not matching_table:
+        provider = self._find_provider(key)
+        if provider is None:
             return self._lookup_outer_column(key)
-        return matching_table if matching_table.identifier() else None
+        return self._current_ctx[provider]
 
-    def _find_provider(self, key: str) -> Optional[TableReference]:
+    def _find_provider(self, key: str) -> Optional[int]:
         """Searches for the table of the *FROM* clause that provides a specific column."""
-        cached_table = self._column_cache.get(key)
-        if cached_table:
-            return cached_table
-
-        for table, defining_nsp in zip(self._current_ctx, self._ctx_shapes):
-            # later tables overwrite unqualified columns of earlier tables
-            if defining_nsp:
-                provides_column = defining_nsp.provides_column(key)
+        cached_provider = self._column_cache.get(key)
+        if cached_provider is not None:
+            return cached_provider
+
+        for i, (table, shape) in enumerate(zip(self._current_ctx, self._ctx_shapes)):
+            if shape:
+                provides_column = shape.provides_column(key)
             else:
                 provides_column = bool(self._schema_cache.lookup_column(key, [table]))
             if provides_column:
-                self._column_cache[key] = table
-                return table
+                self._column_cache[key] = i
+                return i
 
         return None
 
@@ -439,15 +442,15 @@ class QueryNamespace:
         """
         if self._setop_children:
             return ColumnReference(key)
-        if prefer_input and self._find_provider(key):
+        if prefer_input and self._find_provider(key) is not None:
             return None
         return self._produced_columns.get(key)
 
     def _lookup_outer_column(self, key: str) -> Optional[TableReference]:
         """Searches for a column that is provided by one of the enclosing queries."""
         has_unknown_columns = any(
-            not table.virtual and not self._schema_cache.columns_of(table)
-            for table in self._current_ctx
+            not shape and not self._schema_cache.columns_of(table)
+            for table, shape in zip(self._current_ctx, self._ctx_shapes)
         )
         if has_unknown_columns:
             # the column could also belong to one of our own tables
@@ -1711,9 +1714,8 @@ def _pglast_parse_from_entry(
                 namespace=child_nsp,
                 query_txt=query_txt,
             )
-            namespace.register_table(
-                TableReference.create_virtual(alias), shape=child_nsp
-            )
+            table = TableReference.create_virtual(alias) if alias else None
+            namespace.register_table(table, shape=child_nsp)
             subquery_source = SubqueryTableSource(
                 subquery, target_name=alias, lateral=is_lateral
             )
@@ -1798,9 +1800,8 @@ def _pglast_parse_values(
     for i, raw_colname in enumerate(raw_alias.get("colnames", [])):
         output_names[i] = raw_colname["String"]["sval"]
     child_nsp.determine_output_shape(output_names)
-    parent_namespace.register_table(
-        TableReference.create_virtual(alias), shape=child_nsp
-    )
+    table = TableReference.create_virtual(alias) if alias else None
+    parent_namespace.register_table(table, shape=child_nsp)
 
     if not alias:
         return ValuesTableSource(values, alias=alias, columns=[])
-- 
2.43.0


From 6002814d119deebff0eae239cede6288b595cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 066/252] fix: static values of different types are not equal

---
 postbound/qal/_qal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index bae0234..c4913ce 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -283,7 +283,12 @@ class StaticValueExpression(SqlExpression, Generic[T]):
     __hash__ = SqlExpression.__hash__
 
     def __eq__(self, other) -> bool:
-        return isinstance(other, type(self)) and self.value == other.value
+        # In Python, True == 1 == 1.0 but these are different values in SQL
+        return (
+            isinstance(other, type(self))
+            and self.value == other.value
+            and str(self) == str(other)
+        )
 
     def __str__(self) -> str:
         if self.value is None:
@@ -3720,6 +3725,8 @@ def _assert_unwrapped_column(operand: object, predicate: AbstractPredicate) -> N
     """Raises an error if the filtered expression of a predicate is not a plain column."""
     if not isinstance(operand, ColumnReference):
         raise ValueError("Predicate does not filter a column: " + str(predicate))
+
+
 """Type that captures the main components of a filter predicate."""
 
 
@@ -5620,7 +5627,9 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        value_columns = util.flatten(expr.itercolumns() for expr in self.iterexpressions())
+        value_columns = util.flatten(
+            expr.itercolumns() for expr in self.iterexpressions()
+        )
         return list(self._columns) + value_columns
 
     def __eq__(self, other: object) -> bool:
@@ -6608,7 +6617,9 @@ class ValuesTableSource(TableSource):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        value_columns = util.flatten(expr.itercolumns() for expr in self.iterexpressions())
+        value_columns = util.flatten(
+            expr.itercolumns() for expr in self.iterexpressions()
+        )
         return list(self._columns) + value_columns
 
     def predicates(self) -> QueryPredicates | None:
-- 
2.43.0


From d17cae9cf9a8b56016d474ac1c23f2d66d36f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 067/252] fix: the order of values does not influence the hash
 of IN predicates

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c4913ce..8175614 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2896,7 +2896,7 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash((LogicalOperator.In, self._column, frozenset(self._values)))
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
-- 
2.43.0


From 453114ddaa7c2e1cf76b3816e644baafe9f61744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 068/252] fix: equal LIMIT clauses have equal hashes

---
 postbound/qal/_qal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 8175614..c19f9e0 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7667,7 +7667,8 @@ class Limit(BaseClause):
         self._fetch_dir = fetch_direction
         self._offset = offset
 
-        hash_val = hash((self._limit, self._offset, self._fetch_dir))
+        # the fetch direction does not influence the result (and is not part of the comparison)
+        hash_val = hash((self._limit, self._offset))
         super().__init__(hash_val)
 
     __slots__ = ("_limit", "_offset", "_fetch_dir")
-- 
2.43.0


From 280710011e82a7370bfe9ab13229d910ca6cf70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 069/252] fix: comparisons between predicates and their
 simplified views are symmetric

---
 postbound/qal/_qal.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c19f9e0..8e9bd73 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2649,9 +2649,10 @@ class BinaryPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            return NotImplemented  # might still be equal to a simplified view
         return (
-            isinstance(other, type(self))
-            and self.operation == other.operation
+            self.operation == other.operation
             and self.first_argument == other.first_argument
             and self.second_argument == other.second_argument
         )
@@ -2815,11 +2816,9 @@ class BetweenPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return (
-            isinstance(other, type(self))
-            and self.column == other.column
-            and self.interval == other.interval
-        )
+        if not isinstance(other, type(self)):
+            return NotImplemented  # might still be equal to a simplified view
+        return self.column == other.column and self.interval == other.interval
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
@@ -2995,11 +2994,9 @@ class InPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return (
-            isinstance(other, type(self))
-            and self.column == other.column
-            and set(self.values) == set(other.values)
-        )
+        if not isinstance(other, type(self)):
+            return NotImplemented  # might still be equal to a simplified view
+        return self.column == other.column and set(self.values) == set(other.values)
 
     def __str__(self) -> str:
         vals = self._stringify_values()
@@ -3111,11 +3108,9 @@ class UnaryPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return (
-            isinstance(other, type(self))
-            and self.operation == other.operation
-            and self.column == other.column
-        )
+        if not isinstance(other, type(self)):
+            return NotImplemented  # might still be equal to a simplified view
+        return self.operation == other.operation and self.column == other.column
 
     def __str__(self) -> str:
         if not self.operation:
@@ -3404,11 +3399,9 @@ class CompoundPredicate(AbstractPredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return (
-            isinstance(other, type(self))
-            and self.operation == other.operation
-            and self.children == other.children
-        )
+        if not isinstance(other, type(self)):
+            return NotImplemented  # might still be equal to a simplified view
+        return self.operation == other.operation and self.children == other.children
 
     def __repr__(self) -> str:
         return super().__repr__()
-- 
2.43.0


From fc6f2d2a138558895dc790edb9fec27849af351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 070/252] fix: the hash of WITH queries is independent of the
 type of their name

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 8e9bd73..724b1e4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5396,7 +5396,7 @@ class WithQuery:
             target_name if isinstance(target_name, str) else target_name.identifier()
         )
         self._materialized = materialized
-        self._hash_val = hash((query, target_name))
+        self._hash_val = hash((self._query, self._target_name))
 
     __slots__ = (
         "_query",
-- 
2.43.0


From c6cb728bd3c7b8033ed8e41b9edffc20b69b1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 071/252] fix: all columns of a table are required if it is
 part of a star expression

---
 postbound/opt/dynprog.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..4f7c9d7 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -69,10 +69,10 @@ def _collect_used_columns(
 ) -> set[ColumnReference]:
     columns = query.columns_of(table)
     for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+        star_tables = star_expression.tables()  # empty for SELECT *
+        if star_tables and table not in star_tables:
             continue
-
-        columns |= schema.columns(table)
+        columns = columns | set(schema.columns(table))
     return columns
 
 
@@ -1317,8 +1317,11 @@ class PostgresDynProg(PlanEnumerator):
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
         required_columns = self.query.columns_of(base_table)
+        used_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
-            ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
+            ScanOperator.IndexOnlyScan in self._scan_ops and len(used_columns) <= 1
         )
         candidate_indexes = {
             column: self.target_db.schema().indexes_on(column)
-- 
2.43.0


From 0dd863a92b6873c244aded72346a0d1eafcfc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 072/252] fix: bitmap scans require an index

---
 postbound/opt/dynprog.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 4f7c9d7..c8b1cc3 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -257,6 +257,9 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             for column in required_columns
         }
 
+        candidate_indexes = {
+            column: indexes for column, indexes in candidate_indexes.items() if indexes
+        }
         if not candidate_indexes:
             return []
 
@@ -1389,6 +1392,9 @@ class PostgresDynProg(PlanEnumerator):
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
         }
+        candidate_indexes = {
+            column: indexes for column, indexes in candidate_indexes.items() if indexes
+        }
         if not candidate_indexes:
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
             # candidate index. This is because we can still perform an index lookup followed by a sequential scan of the pages.
-- 
2.43.0


From 8f943247723258ef3e2facc9ef048aac23636698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 073/252] fix: index and bitmap paths contain their cardinality
 estimate

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index c8b1cc3..86b6b08 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1345,6 +1345,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1355,6 +1356,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1410,6 +1412,7 @@ class PostgresDynProg(PlanEnumerator):
             ScanOperator.BitmapScan,
             base_table=base_table,
             indexes=candidate_indexes,
+            estimated_cardinality=rel.cardinality,
             filter_predicate=filter_condition,
             estimated_workers=workers,
         )
-- 
2.43.0


From d5785efb47d76e41cd8722d90a0b98479dcfbfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 074/252] fix: the Postgres enumerator considers merge joins

---
 postbound/opt/dynprog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 86b6b08..c911a93 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1030,7 +1030,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
@@ -1742,7 +1742,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From 2017b1d668ad023c3397441c6f24ce4755b1626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 075/252] fix: better sorted paths are retained even if they
 are more expensive

---
 postbound/opt/dynprog.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index c911a93..cb152d2 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -756,25 +756,34 @@ class PostgresDynProg(PlanEnumerator):
         new_cost = path.estimated_cost
 
         for i, old_path in enumerate(current_paths):
-            if not self._sorting_subsumes(
-                path.sort_keys, other=old_path.params.sort_keys
-            ):
+            new_subsumes = self._sorting_subsumes(
+                path.sort_keys, other=old_path.sort_keys
+            )
+            old_subsumes = self._sorting_subsumes(
+                old_path.sort_keys, other=path.sort_keys
+            )
+            if not new_subsumes and not old_subsumes:
+                # The paths are sorted differently, we need both of them
                 result_paths.append(old_path)
                 continue
 
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
-            new_dominates = (
+            new_dominates = new_subsumes and (
                 new_cost < old_cost
                 if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
                 else new_cost <= 1.01 * old_cost
             )
+            old_dominates = old_subsumes and old_cost <= new_cost
 
             if new_dominates:
                 # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
                 keep_new = True  # strictly speaking, this is not necessary, but it makes our intention clearer
                 continue  # don't break here, we need to check the remaining paths
+            elif not old_dominates:
+                # One path is cheaper, but the other one is better sorted
+                result_paths.append(old_path)
             else:
                 # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
-- 
2.43.0


From 09f8509b57b9a7487ca71af79d0f975c2fb7286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 076/252] fix: relations without any pages are not parallelized

---
 postbound/opt/dynprog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index cb152d2..9801bc3 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1685,6 +1685,8 @@ class PostgresDynProg(PlanEnumerator):
         if not self._max_workers:
             return 0
         n_pages = self.target_db.statistics().n_pages(relation)
+        if not n_pages:
+            return 0
         workers = math.log(n_pages, 3)
         if self._max_workers is None:
             return round(workers)
-- 
2.43.0


From 1e3d3a46e0f1e16fecbba60bcc4ec5699e9cbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 077/252] fix: intermediates without any legal path do not
 prevent other plans

---
 postbound/opt/dynprog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 9801bc3..6aedd71 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -856,8 +856,12 @@ class PostgresDynProg(PlanEnumerator):
 
             for rel in self.join_rel_level[level]:
                 self._generate_gather_paths(rel)
+            # all paths of an intermediate might be illegal according to the cost model, but there can be alternatives
+            self.join_rel_level[level] = [
+                rel for rel in self.join_rel_level[level] if rel.pathlist
+            ]
+            for rel in self.join_rel_level[level]:
                 self._set_cheapest(rel)
-
         assert len(self.join_rel_level[levels_needed]) == 1, (
             "Final join rel level should only contain one relation."
         )
-- 
2.43.0


From 00f5e3b518f3ef86933e9ef50926b7c4b543eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 078/252] fix: GEQO is disabled for all queries that Postgres
 would use it for

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..f52b0a5 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2220,7 +2220,7 @@ def _generate_pghintplan_hints(
     used_parallel: bool = False
 
     geqo_thresh: str = pg_instance.config["geqo_threshold"]
-    if len(query.tables()) > int(geqo_thresh):
+    if len(query.tables()) >= int(geqo_thresh):
         warnings.warn(
             "Temporarily disabling GEQO. pg_hint_plan only works with the DP optimizer.",
             category=HintWarning,
-- 
2.43.0


From d088c2c8bb5926e4ba9c15df398a90e496de90e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 079/252] fix: pg_hint_plan can only parallelize base tables

---
 postbound/postgres.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index f52b0a5..38517d4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2240,7 +2240,7 @@ def _generate_pghintplan_hints(
             if scan.parallel_workers > 1 and not used_parallel:
                 hints.append(f"Parallel({tab} {scan.parallel_workers} hard)")
                 used_parallel = True
-            elif used_parallel:
+            elif scan.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2262,7 +2262,8 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
-            elif used_parallel:
+                used_parallel = True
+            elif join.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2312,8 +2313,15 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            if len(tabs) > 1:
+                warnings.warn(
+                    "Cannot directly set parallel workers on a join with pg_hint_plan. "
+                    "Setting on all base tables instead.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
-- 
2.43.0


From e37075a04308be4d77b6931064288923c6dbc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 080/252] fix: pg_lab hints for operators are retained if only
 their workers are ignored

---
 postbound/postgres.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 38517d4..1767a90 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2394,13 +2394,13 @@ def _generate_pglab_hints(
                 # TODO: check for off-by-one errors!!!
                 hint = f"{op}({table} (workers={scan.parallel_workers}))"
                 used_parallel = True
-            elif scan.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
+                if scan.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
                 hint = f"{op}({table})"
             hints.append(hint)
 
@@ -2411,13 +2411,13 @@ def _generate_pglab_hints(
             if join.parallel_workers > 1 and not used_parallel:
                 hint = f"{op}({intermediate} (workers={join.parallel_workers}))"
                 used_parallel = True
-            elif join.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
+                if join.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
                 hint = f"{op}({intermediate})"
             hints.append(hint)
 
-- 
2.43.0


From 44c0bc611fa625a2c5e10f95e1dc9f7935ddc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 081/252] fix: parallel workers in pg_lab plans belong to the
 input of the Gather node

---
 postbound/postgres.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 1767a90..0a71cc9 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2478,12 +2478,21 @@ def _extract_plan_join_order(plan: QueryPlan) -> str:
     return f"({outer} {inner})"
 
 
-def _iter_plan_bfs(plan: QueryPlan) -> Generator[QueryPlan, None, None]:
-    queue = collections.deque([plan])
+def _iter_plan_bfs(
+    plan: QueryPlan,
+) -> Generator[tuple[QueryPlan, Optional[int], bool], None, None]:
+    queue = collections.deque([(plan, None, True)])
     while queue:
-        node = queue.popleft()
-        queue.extend(node.children)
-        yield node
+        node, par_workers, in_upperrel = queue.popleft()
+        if node.is_scan() or node.is_join():
+            in_upperrel = False
+        if node.parallel_workers > 0:
+            par_workers = node.parallel_workers
+        yield node, par_workers, in_upperrel
+        if in_upperrel or PGLabOptimizerHints.get(node.operator):
+            # the workers have already been assigned
+            par_workers = None
+        queue.extend((child, par_workers, in_upperrel) for child in node.children)
 
 
 def _generate_pglab_plan(
@@ -2494,15 +2503,7 @@ def _generate_pglab_plan(
     hints.append(f"JoinOrder({join_order})")
 
     used_parallel = False
-    in_upperrel = True
-    par_workers: Optional[int] = None
-    for node in _iter_plan_bfs(plan):
-        if node.is_scan() or node.is_join():
-            in_upperrel = False
-
-        par_workers = (
-            node.parallel_workers if node.parallel_workers > 0 else par_workers
-        )
+    for node, par_workers, in_upperrel in _iter_plan_bfs(plan):
         if in_upperrel and par_workers and not used_parallel:
             hints.append(f"Result(workers={par_workers})")
             used_parallel = True
-- 
2.43.0


From bfae39eef924cb438d3279d31939a0b7b15d7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 082/252] fix: LIMIT 0 and OFFSET 0 are retained

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 0a71cc9..c94ad1b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2180,11 +2180,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
-- 
2.43.0


From 7406435c9c8be9ffce7e6bec398371366956eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 083/252] fix: preparatory statements for DuckDB are valid and
 executed as a whole

---
 postbound/duckdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..e7e174f 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -103,8 +103,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
@@ -894,11 +893,12 @@ class DuckDBHintService(HintService):
         global_settings: list[str] = []
         for param, val in parameters.system_settings.items():
             if isinstance(val, str):
-                val_txt = f"'{val}'"
+                escaped_val = val.replace("'", "''")
+                val_txt = f"'{escaped_val}'"
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From 6c3ae3d96355bd960b4408770a68c602227536ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 084/252] fix: decisions that DuckDB cannot express are
 reported

---
 postbound/duckdb.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e7e174f..231664d 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -44,6 +44,7 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    HintWarning,
     Histogram,
     HistogramApproximation,
     OptimizerInterface,
@@ -824,6 +825,9 @@ class DuckDBHintService(HintService):
         if not ops:
             return HintParts.empty()
 
+        if any(operator.parallel_workers > 1 for operator in ops):
+            raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
+
         hints: list[str] = []
         for tab, scan in ops.scan_operators.items():
             match scan.operator:
@@ -882,6 +886,12 @@ class DuckDBHintService(HintService):
 
         hints: list[str] = []
         for intermediate, card in parameters.cardinalities.items():
+            if card.isinf():
+                warnings.warn(
+                    f"Ignoring infinite cardinality for intermediate {self._intermediate_to_hint(intermediate)}",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
             if not card.is_valid():
                 continue
             intermediate_txt = self._intermediate_to_hint(intermediate)
@@ -890,6 +900,13 @@ class DuckDBHintService(HintService):
         if parameters.parallel_workers:
             raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
 
+        if parameters.execution_mode is not None:
+            warnings.warn(
+                "DuckDB does not support execution mode hints",
+                category=HintWarning,
+                stacklevel=3,
+            )
+
         global_settings: list[str] = []
         for param, val in parameters.system_settings.items():
             if isinstance(val, str):
-- 
2.43.0


From ce54fbbc9eae90035d60725a7620d77fbe19287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 085/252] fix: quotes in settings are escaped

---
 postbound/mysql.py    | 9 +++++----
 postbound/postgres.py | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..efc6f63 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -553,11 +553,12 @@ MysqlSwitchableOptimizations = {JoinOperator.HashJoin: "block_nested_loop"}
 
 def _escape_setting(setting) -> str:
     """Transforms the setting variable into a string that can be used in an SQL query."""
-    if isinstance(setting, float) or isinstance(setting, int):
-        return str(setting)
-    elif isinstance(setting, bool):
+    if isinstance(setting, bool):
         return "TRUE" if setting else "FALSE"
-    return f"'{setting}'"
+    elif isinstance(setting, float) or isinstance(setting, int):
+        return str(setting)
+    escaped_setting = str(setting).replace("'", "''")
+    return f"'{escaped_setting}'"
 
 
 def _generate_prep_statements(
diff --git a/postbound/postgres.py b/postbound/postgres.py
index c94ad1b..cd2c732 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2332,7 +2332,8 @@ def _generate_pghintplan_hints(
             # For now, we mitigate this issue in a different way: we emit SET LOCAL statements which only modify the
             # current transaction. Since the Postgres interface runs in autocommit mode, each query is executed within
             # its own transaction. Therefore, all changes are reverted immediately after the query has finished.
-            prep_statements.append(f"SET LOCAL {setting} TO '{val}';")
+            escaped_val = str(val).replace("'", "''")
+            prep_statements.append(f"SET LOCAL {setting} TO '{escaped_val}';")
 
         if plan_params.execution_mode is not None:
             warnings.warn(
-- 
2.43.0


From 383b7adca9068b779f7ae6946faffd4fd01d15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 086/252] fix: MySQL join order hints follow the sequence of
 the joins

---
 postbound/mysql.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index efc6f63..ab60102 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -509,7 +509,18 @@ def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
     if not join_order:
         return ""
 
-    join_order_text = ", ".join(table.identifier() for table in join_order.itertables())
+    # MySQL joins the tables in the given sequence, i.e. we need to start with the innermost join
+    join_sequence: list[TableReference] = []
+    while join_order.is_join():
+        outer_child, inner_child = join_order.outer_child, join_order.inner_child
+        if inner_child.is_join():
+            join_sequence.append(outer_child.base_table)
+            join_order = inner_child
+        else:
+            join_sequence.append(inner_child.base_table)
+            join_order = outer_child
+    join_sequence.append(join_order.base_table)
+    join_order_text = ", ".join(table.identifier() for table in reversed(join_sequence))
     return f"  JOIN_ORDER({join_order_text})"
 
 
@@ -598,17 +609,18 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
-        if join_order and not join_order.is_linear():
-            raise UnsupportedDatabaseFeatureError(
-                self._mysql_instance,
-                "Can only enforce join order for linear join trees for now",
-            )
 
         if plan is not None:
             join_order = jointree_from_plan(plan)
             physical_operators = operators_from_plan(plan)
             plan_parameters = parameters_from_plan(plan)
 
+        if join_order and not join_order.is_linear():
+            raise UnsupportedDatabaseFeatureError(
+                self._mysql_instance,
+                "Can only enforce join order for linear join trees for now",
+            )
+
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
-- 
2.43.0


From 7c5e1c8ac54b7f99eda7b7870beae0d261635e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 087/252] fix: decisions that MySQL cannot express are reported

---
 postbound/mysql.py | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index ab60102..ee3a4df 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -69,6 +69,7 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    HintWarning,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -558,6 +559,12 @@ def _generate_operator_hints(
     return "\n".join(hints)
 
 
+def _has_parallel_workers(plan: QueryPlan) -> bool:
+    return plan.parallel_workers > 0 or any(
+        _has_parallel_workers(child) for child in plan.children
+    )
+
+
 MysqlSwitchableOptimizations = {JoinOperator.HashJoin: "block_nested_loop"}
 """See https://dev.mysql.com/doc/refman/8.0/en/switchable-optimizations.html"""
 
@@ -610,6 +617,32 @@ class MysqlHintService(HintService):
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
 
+        has_partial_hints = any(
+            param is not None
+            for param in (join_order, physical_operators, plan_parameters)
+        )
+        if plan is not None and has_partial_hints:
+            raise ValueError(
+                "Can only hint an entire query plan, or individual parts, not both."
+            )
+
+        has_workers = (
+            physical_operators is not None
+            and any(operator.parallel_workers > 1 for operator in physical_operators)
+        ) or (plan_parameters is not None and plan_parameters.parallel_workers)
+        if has_workers or (plan is not None and _has_parallel_workers(plan)):
+            warnings.warn(
+                "Cannot generate parallel worker hints for MySQL.", category=HintWarning
+            )
+        if plan_parameters is not None and plan_parameters.cardinalities:
+            warnings.warn(
+                "Cannot generate cardinality hints for MySQL.", category=HintWarning
+            )
+        if plan_parameters is not None and plan_parameters.execution_mode is not None:
+            warnings.warn(
+                "MySQL does not support execution mode hints", category=HintWarning
+            )
+
         if plan is not None:
             join_order = jointree_from_plan(plan)
             physical_operators = operators_from_plan(plan)
@@ -626,7 +659,12 @@ class MysqlHintService(HintService):
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
         if not join_order_hint and not operator_hint:
-            return query
+            # there might still be some settings
+            return (
+                transform.add_clause(query, Hint(prep_statements))
+                if prep_statements
+                else query
+            )
 
         final_hint_block = (
             "/*+\n"
-- 
2.43.0


From f248f7bc3ad69391cafdfcc1fd321c695a540823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 088/252] fix: queries are formatted in the MySQL dialect

---
 postbound/mysql.py | 47 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index ee3a4df..01dba6a 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -477,25 +477,37 @@ class _MysqlStaticValueExpression(StaticValueExpression):
         super().__init__(original_expression.value)
 
     def __str__(self) -> str:
-        return (
-            f"{self.value}"
-            if isinstance(self.value, numbers.Number)
-            else f'"{self.value}"'
-        )
+        if self.value is None:
+            return "NULL"
+        if isinstance(self.value, numbers.Number):
+            return f"{self.value}"
+        escaped_value = str(self.value).replace("\\", "\\\\").replace('"', '""')
+        return f'"{escaped_value}"'
 
 
 class _MysqlCastExpression(CastExpression):
-    def __init__(self, original_expression: CastExpression) -> None:
-        if original_expression.array_type:
+    def __init__(
+        self,
+        expression: SqlExpression,
+        target_type: str,
+        *,
+        type_params: Optional[Sequence[SqlExpression]] = None,
+        array_type: bool = False,
+    ) -> None:
+        if array_type:
             warnings.warn(
                 "MySQL does not support array types in CAST expressions. Ignoring array type."
             )
-        super().__init__(
-            original_expression.casted_expression, original_expression.target_type
-        )
+
+        super().__init__(expression, target_type, type_params=type_params)
 
     def __str__(self) -> str:
-        return f"CAST({self.casted_expression} AS {self.target_type})"
+        type_args = (
+            f"({', '.join(str(param) for param in self.type_params)})"
+            if self.type_params
+            else ""
+        )
+        return f"CAST({self.casted_expression} AS {self.target_type}{type_args})"
 
 
 def _replace_static_vals(e: SqlExpression) -> SqlExpression:
@@ -503,7 +515,14 @@ def _replace_static_vals(e: SqlExpression) -> SqlExpression:
 
 
 def _replace_casts(e: SqlExpression) -> SqlExpression:
-    return _MysqlCastExpression(e) if isinstance(e, CastExpression) else e
+    if not isinstance(e, CastExpression) or isinstance(e, _MysqlCastExpression):
+        return e
+    return _MysqlCastExpression(
+        e.casted_expression,
+        e.target_type,
+        type_params=e.type_params,
+        array_type=e.array_type,
+    )
 
 
 def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
@@ -678,7 +697,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
-- 
2.43.0


From 6805d9d0fdd938a09e7bc1cb0a5c99c3d780c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 089/252] fix: ignored execution failures corrupt the benchmark
 results

---
 postbound/bench.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..0bea440 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -666,6 +666,7 @@ class _ResultSample:
         self._max_query_reps = max_query_reps
         self._optimization_failure: Exception | None = None
         self._initial_idx = initial_exec_idx
+        self._exec_start: datetime | None = None
 
     def optimization_results(
         self,
@@ -691,11 +692,12 @@ class _ResultSample:
         self.db_configs += [{}] * self._max_query_reps
 
     def start_execution(self) -> None:
-        self.timestamps.append(datetime.now())
+        self._exec_start = datetime.now()
 
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
+        self.timestamps.append(self._exec_start)
         self.status.append("ok")
         self.failure_reasons.append("")
         self.result_sets.append(result_set)
@@ -703,6 +705,7 @@ class _ResultSample:
         self.db_configs.append(db_config)
 
     def add_exec_timeout(self, timeout: float, *, db_config: util.jsondict) -> None:
+        self.timestamps.append(self._exec_start)
         self.status.append("timeout")
         self.failure_reasons.append("")
         self.result_sets.append(None)
@@ -710,6 +713,7 @@ class _ResultSample:
         self.db_configs.append(db_config)
 
     def add_exec_failure(self, reason: Exception, *, db_config: util.jsondict) -> None:
+        self.timestamps.append(self._exec_start)
         self.status.append("execution-error")
         self.failure_reasons.append(str(reason))
         self.result_sets.append(None)
@@ -944,7 +948,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            # nothing was recorded for this execution, so there is nothing to report either
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From 9149be1d8eab01219e4e660ae4951e93406e0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 090/252] fix: failed executions are missing in the progressive
 output

---
 postbound/bench.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 0bea440..eef616a 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -803,11 +803,13 @@ class _ResultSample:
             results.append(sample)
         return results
 
-    def write_progressive(self, file: Path | None, output_args: dict) -> None:
+    def write_progressive(
+        self, file: Path | None, output_args: dict, *, only_last: bool = True
+    ) -> None:
         if file is None:
             return
 
-        df = self.to_df(only_last=True)
+        df = self.to_df(only_last=only_last)
         df = prepare_export(df)
 
         match file.suffix:
@@ -955,7 +957,7 @@ def _exec_ctl_loop(
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
@@ -989,7 +991,9 @@ def _workload_ctl_loop(
         if sample.failed_optimization():
             match cfg.error_action:
                 case "log" if cfg.output:
-                    sample.write_progressive(cfg.output, cfg.output_args)
+                    sample.write_progressive(
+                        cfg.output, cfg.output_args, only_last=False
+                    )
                 case "log" if not cfg.output:
                     # we handle the output to CSV as part of the normal result export, no need to do anything here
                     pass
-- 
2.43.0


From 66926975a36ac7c20cc93fbd4ce5092a9b90aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 091/252] fix: failed executions and timeouts are reported with
 an empty result set

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index eef616a..e7cdf1a 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -627,6 +627,11 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _simplify_sample(result_set: ResultSet | None) -> Any:
+    """Simplifies the result set of a query execution. Executions without a result keep *None*."""
+    return None if result_set is None else simplify_result_set(result_set)
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -733,7 +738,7 @@ class _ResultSample:
         if self._optimization_failure or not self.result_sets:
             return None
 
-        result_set = simplify_result_set(self.result_sets[-1])
+        result_set = _simplify_sample(self.result_sets[-1])
         return ExecutionResult(
             query=self.query,
             status=self.status[-1],
@@ -748,7 +753,7 @@ class _ResultSample:
             return pd.DataFrame()
 
         if only_last:
-            result_set = simplify_result_set(self.result_sets[-1])
+            result_set = _simplify_sample(self.result_sets[-1])
             rows = {
                 "exec_index": [self._initial_idx + n_samples - 1],
                 "label": [self.label],
@@ -775,7 +780,7 @@ class _ResultSample:
                 "query_repetition": [i + 1 for i in range(n_samples)],
                 "query": [self.query] * n_samples,
                 "status": self.status,
-                "query_result": [simplify_result_set(rs) for rs in self.result_sets],
+                "query_result": [_simplify_sample(rs) for rs in self.result_sets],
                 "exec_time": self.exec_times,
                 "failure_reason": self.failure_reasons,
                 "db_config": self.db_configs,
-- 
2.43.0


From 52c1ee70d916c034f6f3870224b658635afbd815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 092/252] fix: benchmarks without any recorded execution fail

---
 postbound/bench.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index e7cdf1a..679ebc0 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -923,7 +923,9 @@ class _ExecutionResults:
 
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
-        samples = [sample.to_df() for sample in self._samples]
+        samples = [sample.to_df() for sample in self._samples if len(sample)]
+        if not samples:
+            return pd.DataFrame()
         return pd.concat(samples, ignore_index=True)
 
 
-- 
2.43.0


From 14ed9bc8f18377c78ceecab5ef871b8ab7e3e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 093/252] fix: timeouts abort benchmarks with online training

---
 postbound/bench.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 679ebc0..263a774 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1025,7 +1025,9 @@ def _workload_ctl_loop(
             continue
 
         for exec_result in sample.to_execution_results():
-            assert exec_result.query_result is not None
+            if exec_result.query_result is None:
+                # timeout, there is nothing to learn from
+                continue
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
                 query, exec_result.query_result, exec_time=exec_time
-- 
2.43.0


From 3e52d135cb359713e8aefc56429258f1114eba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 094/252] fix: error handling and database configuration ignore
 the query preparation

---
 postbound/bench.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 263a774..1b880b8 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -532,9 +532,9 @@ def _execute_query(
     *,
     on: Database,
     timeout: Optional[float] = None,
-    query_prep: Optional[QueryPreparation] = None,
+    preparation_failure: Optional[Exception] = None,
 ) -> _InternalExecResult:
-    """Prepares and executes a query on an actual database system while gracefully handling timeouts and errors.
+    """Executes a prepared query on an actual database system while gracefully handling timeouts and errors.
 
     This is a simple handler that does not care about the larger control flow of the benchmarking process. It simply executes
     stuff and lets the more high-level control loops deal with the rest (e.g. proper error handling, etc).
@@ -542,8 +542,8 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
+    if preparation_failure is not None:
+        return _FailedExecution(error=preparation_failure)
 
     try:
         if timeout:
@@ -943,10 +943,20 @@ def _exec_ctl_loop(
     """
     cfg.log.next_query_rep()
 
+    preparation_failure: Exception | None = None
+    if cfg.query_prep:
+        try:
+            query = cfg.query_prep.prepare_query(query, on=cfg.target_db)
+        except Exception as e:
+            preparation_failure = e
+
     db_config = cfg.target_db.describe()
     sample.start_execution()
     match _execute_query(
-        query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
+        query,
+        on=cfg.target_db,
+        timeout=cfg.timeout,
+        preparation_failure=preparation_failure,
     ):
         case _SuccessfullExecution(result_set, exec_time):
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
-- 
2.43.0


From 979f07b325843244ec02a9ef312accc52e15200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 095/252] fix: online training receives queries that have not
 been executed

---
 postbound/bench.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 1b880b8..7a4ba05 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -666,6 +666,7 @@ class _ResultSample:
         self.result_sets: list[ResultSet | None] = []
         self.exec_times: list[float] = []
         self.db_configs: list[util.jsondict] = []
+        self.executed_queries: dict[int, SqlQuery] = {}
 
         # internal fields
         self._max_query_reps = max_query_reps
@@ -700,8 +701,14 @@ class _ResultSample:
         self._exec_start = datetime.now()
 
     def add_exec_sample(
-        self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
+        self,
+        result_set: ResultSet,
+        *,
+        exec_time: float,
+        db_config: util.jsondict,
+        executed_query: SqlQuery,
     ) -> None:
+        self.executed_queries[len(self.status)] = executed_query
         self.timestamps.append(self._exec_start)
         self.status.append("ok")
         self.failure_reasons.append("")
@@ -799,7 +806,7 @@ class _ResultSample:
                 continue
 
             sample = ExecutionResult(
-                query=self.query,
+                query=self.executed_queries.get(i, self.query),
                 status=status,
                 query_result=self.result_sets[i],
                 optimization_time=self.optimization_time,
@@ -959,7 +966,12 @@ def _exec_ctl_loop(
         preparation_failure=preparation_failure,
     ):
         case _SuccessfullExecution(result_set, exec_time):
-            sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
+            sample.add_exec_sample(
+                result_set,
+                exec_time=exec_time,
+                db_config=db_config,
+                executed_query=query,
+            )
         case _TimeoutExecution(exec_time):
             sample.add_exec_timeout(exec_time, db_config=db_config)
         case _FailedExecution(err) if cfg.error_action == "log":
@@ -1040,7 +1052,7 @@ def _workload_ctl_loop(
                 continue
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
-                query, exec_result.query_result, exec_time=exec_time
+                exec_result.query, exec_result.query_result, exec_time=exec_time
             )
 
 
-- 
2.43.0


From 6af58f4047ac65ed51a15ef07f70d2fc748e5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 096/252] fix: appending to JSON results changes previous
 entries

---
 postbound/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 7a4ba05..c0a418c 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -872,7 +872,7 @@ class _ResultSample:
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
         if file.is_file():
-            existing_results = pd.read_json(file)
+            existing_results = pd.read_json(file, dtype=False, convert_dates=False)
             df = pd.concat([existing_results, df], ignore_index=True)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 58d062ba65e7fbc0e8afad3f587cbab51e97cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 097/252] fix: benchmark results with an optimization pipeline
 cannot be exported

---
 postbound/_pipelines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 9951ac4..f72403f 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -316,6 +316,9 @@ class OptimizationPipeline(abc.ABC):
         """
         raise NotImplementedError
 
+    def __json__(self) -> jsondict:
+        return self.describe()
+
 
 class IntegratedOptimizationPipeline(OptimizationPipeline):
     """This pipeline is intended for algorithms that calculate the entire query plan in a single process.
-- 
2.43.0


From 902fa6b4f164ade4219929929adcb484444cf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 098/252] fix: exporting mixed benchmark results ignores all
 but the first one

---
 postbound/bench.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index c0a418c..64bdb5c 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1304,9 +1304,11 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
 
     prepared_df = results_df.copy()
 
-    example_result = prepared_df.iloc[0]
-    for col in example_result.index:
-        if not isinstance(example_result[col], (list, tuple, dict, Jsonizable)):
+    for col in prepared_df.columns:
+        needs_export = (
+            isinstance(val, (list, tuple, dict, Jsonizable)) for val in prepared_df[col]
+        )
+        if not any(needs_export):
             continue
 
         prepared_df[col] = prepared_df[col].apply(util.to_json)
-- 
2.43.0


From ed74a84b412e891cc067791d400735b4e459f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 099/252] fix: DuckDB interface cannot be created with caching
 enabled

---
 postbound/duckdb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 231664d..fffa899 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -65,11 +65,10 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
         self._dbfile = db
-
         self._cur = quacklab.connect(db)
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
+
         self._last_query_runtime = math.nan
 
         self._stats = DuckDBStatistics(self)
-- 
2.43.0


From ff6833441ec519cdb7f3e199504864c8ece9c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 100/252] fix: DuckDB interface ignores the global cache
 setting

---
 postbound/duckdb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index fffa899..28d29d7 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -110,6 +110,7 @@ class DuckDBInterface(Database):
         elif isinstance(query, UserString):
             query = str(query)
 
+        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         if cache_enabled:
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
-- 
2.43.0


From d8e32c417c9d0d7c539edfad3bc83eb5d67e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 101/252] fix: query cache loses all results and their types
 when it is stored

---
 postbound/db/_db.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..971ffdd 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -27,7 +27,9 @@ import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from typing import Any, Literal, Optional, Protocol, Type, overload, runtime_checkable
+from uuid import UUID
 
 import networkx as nx
 
@@ -296,6 +298,12 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
             return {"$timedelta": o.total_seconds()}
+        elif isinstance(o, Decimal):
+            return {"$decimal": str(o)}
+        elif isinstance(o, UUID):
+            return {"$uuid": str(o)}
+        elif isinstance(o, (bytes, bytearray, memoryview)):
+            return {"$bytes": bytes(o).hex()}
         return super().default(o)
 
 
@@ -316,6 +324,12 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
             return timedelta(seconds=obj["$timedelta"])
+        elif "$decimal" in obj:
+            return Decimal(obj["$decimal"])
+        elif "$uuid" in obj:
+            return UUID(obj["$uuid"])
+        elif "$bytes" in obj:
+            return bytes.fromhex(obj["$bytes"])
         return obj
 
 
@@ -644,7 +658,14 @@ class Database(abc.ABC):
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
                 try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    stored_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    # JSON does not distinguish between lists and tuples, but our result rows are always tuples
+                    self._query_cache = {
+                        query: [tuple(row) for row in result_set]
+                        if result_set is not None
+                        else None
+                        for query, result_set in stored_cache.items()
+                    }
                 except json.JSONDecodeError as e:
                     warnings.warn(
                         f"Could not read query cache: {e}",
@@ -669,8 +690,22 @@ class Database(abc.ABC):
         query_cache_name : str
             The path where to write the file to. If it exists, it will be overwritten.
         """
-        with open(query_cache_name, "w") as cache_file:
-            json.dump(self._query_cache, cache_file, cls=_DBCacheJsonEncoder)
+        entries: list[str] = []
+        for query, result_set in self._query_cache.items():
+            try:
+                encoded = json.dumps(result_set, cls=_DBCacheJsonEncoder)
+            except TypeError as e:
+                warnings.warn(
+                    f"Could not store query in cache: {e}", category=QueryCacheWarning
+                )
+                continue
+            entries.append(f"{json.dumps(query)}: {encoded}")
+
+        # Only replace the existing cache once the new one is complete
+        partial_cache = f"{query_cache_name}.tmp"
+        with open(partial_cache, "w") as cache_file:
+            cache_file.write("{" + ", ".join(entries) + "}")
+        os.replace(partial_cache, query_cache_name)
 
     def _query_cache_name(self) -> str:
         """Provides a normalized file name for the query cache.
-- 
2.43.0


From f0405b060ed85f12729e8ff2c3d7f38d4225c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 102/252] fix: emulated statistics ignore the schema of the
 table

---
 postbound/db/_db.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 971ffdd..8a0cb9b 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2749,7 +2749,7 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.qualified_name())
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2777,7 +2777,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=column.name, tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2806,7 +2806,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=column.name, tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2851,7 +2851,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                col=column.name, tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
@@ -2860,7 +2860,9 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                LIMIT {k}""".format(
+                    col=column.name, tab=column.table.qualified_name(), k=k
+                )
             )
 
         return self._db.execute_query(
@@ -2886,7 +2888,7 @@ class DatabaseStatistics(abc.ABC):
             FROM {tab}
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=column.name, tab=column.table.qualified_name())
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
-- 
2.43.0


From 0b16c4455d5665be0ba6bdf211194529e663cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 103/252] fix: emulated column statistics fail for NULL values

---
 postbound/db/_db.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 8a0cb9b..942e8ff 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2849,6 +2849,7 @@ class DatabaseStatistics(abc.ABC):
             query_template = """
                 SELECT {col}, COUNT(*) AS n
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
                 col=column.name, tab=column.table.qualified_name()
@@ -2858,6 +2859,7 @@ class DatabaseStatistics(abc.ABC):
                 """
                 SELECT {col}, COUNT(*) AS n
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
                 LIMIT {k}""".format(
@@ -2879,13 +2881,11 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
 
         query_template = """
             SELECT {col}, COUNT(*) AS n
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
             """.format(col=column.name, tab=column.table.qualified_name())
@@ -2894,8 +2894,9 @@ class DatabaseStatistics(abc.ABC):
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
-
+        if not result_set:
+            return None
+        n_rows = sum(freq for _, freq in result_set)
         lo, bounds, buckets = _infer_histogram_bounds(
             result_set, n_bins=n_bins, n_rows=n_rows
         )
-- 
2.43.0


From e07f69e4570c2c651df7c21d17a655ef4ede80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 104/252] fix: emulated histograms do not cover all values

---
 postbound/db/_db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 942e8ff..42603a0 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1774,7 +1774,7 @@ def _infer_histogram_bounds[T](
     if not frequencies:
         raise ValueError("Cannot infer histogram bounds from empty frequency list")
 
-    bucket_size = n_rows // n_bins
+    bucket_size = -(-n_rows // n_bins)
 
     bounds: list[T] = []
     buckets: list[int] = []
@@ -1787,6 +1787,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq:
+        # the last bucket is not completely filled
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
-- 
2.43.0


From afebf94c3b36d1d6f01204c7cf6ce1a79dc5b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 105/252] fix: histogram frequencies do not match the buckets

---
 postbound/db/_db.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 42603a0..a821122 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1907,14 +1907,15 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        upper_idx = bisect.bisect_right(self._bounds, value)
-        if upper_idx == 0:
+        if value < self._lower:
             return 0
-        elif upper_idx == len(self._bounds):
-            return self._n_rows
+        bucket = bisect.bisect_right(self._bounds, value)
+        complete_freq = sum(self._frequencies[:bucket])
+        if bucket == len(self._bounds) or self._on_bucket_bound(value, bucket):
+            return complete_freq
 
         if self._bucket_interpolation == "bound":
-            return upper_idx * self._freq_per_bucket
+            return complete_freq + self._frequencies[bucket]
 
         assert self._bucket_interpolation == "approx-uni"
 
@@ -1925,11 +1926,10 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        lower_idx = upper_idx - 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
+        upper_bound = self._bounds[bucket]
+        lower_bound = self._bounds[bucket - 1] if bucket else self._lower
         in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (lower_idx + in_bucket_frac) * self._freq_per_bucket
+        return complete_freq + in_bucket_frac * self._frequencies[bucket]
 
     def frequency_above(self, value: T) -> int:
         """Estimate the frequency of values that are greater than a given value.
@@ -1940,14 +1940,16 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        lower_idx = bisect.bisect_left(self._bounds, value)
-        if lower_idx == 0:
+        if value < self._lower:
             return self._n_rows
-        elif lower_idx == len(self._bounds):
+        bucket = bisect.bisect_right(self._bounds, value)
+        if bucket == len(self._bounds):
             return 0
-
-        if self._bucket_interpolation == "bound":
-            return lower_idx * self._freq_per_bucket
+        complete_freq = sum(self._frequencies[bucket + 1 :])
+        if self._bucket_interpolation == "bound" or self._on_bucket_bound(
+            value, bucket
+        ):
+            return complete_freq + self._frequencies[bucket]
 
         assert self._bucket_interpolation == "approx-uni"
 
@@ -1958,11 +1960,14 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        upper_idx = lower_idx + 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
+        upper_bound = self._bounds[bucket]
+        lower_bound = self._bounds[bucket - 1] if bucket else self._lower
         in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (upper_idx + in_bucket_frac) * self._freq_per_bucket
+        return complete_freq + (1 - in_bucket_frac) * self._frequencies[bucket]
+
+    def _on_bucket_bound(self, value: T, bucket: int) -> bool:
+        """Checks, whether a value is exactly the bound between a bucket and its predecessor."""
+        return bucket > 0 and self._bounds[bucket - 1] == value
 
     def __len__(self) -> int:
         return len(self._bounds)
-- 
2.43.0


From 92238a1b5c9d35052b8ef27630274acc7779453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 106/252] fix: columns cannot be looked up by their name

---
 postbound/db/_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index a821122..0d0bec8 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -977,9 +977,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        col_name = column if isinstance(column, str) else column.name
         for candidate in candidate_tables:
             candidate_cols = self.columns(candidate)
-            if column in candidate_cols:
+            if ColumnReference(col_name, candidate) in candidate_cols:
                 return candidate
 
         if expect_match:
-- 
2.43.0


From becebf6b504d1243d6fed48bacb28c92071d4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 107/252] fix: foreign keys mix up schema, table and column

---
 postbound/db/_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0d0bec8..28aac19 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1253,7 +1253,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
+            BoundColumnReference(row[2], TableReference(row[1], schema=table.schema))
             for row in result_set
         }
 
-- 
2.43.0


From bc00e5e5f22006f99e7b8870c8623da3d7037a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 108/252] fix: schema graph cannot be constructed for tables
 with compound primary keys

---
 postbound/db/_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 28aac19..6443fdc 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1497,7 +1497,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
             cols = self.columns(table)
             dtypes = {col: self.datatype(col) for col in cols}
-            pkey = self.primary_key_column(table)
+            pkey_cols = [col for col in cols if self.is_primary_key(col)]
+            pkey = pkey_cols[0] if len(pkey_cols) == 1 else None
             g.add_node(table, columns=cols, data_type=dtypes, primary_key=pkey)
 
             all_columns |= set(cols)
-- 
2.43.0


From 1b04f4cfa156341acb31e0e9dce278619baa1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 109/252] fix: unique columns in DuckDB are reported without an
 index

---
 postbound/duckdb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 28d29d7..5a964f7 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -272,11 +272,19 @@ class DuckDBSchema(DatabaseSchema):
                 AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
+            UNION
+            SELECT constraint_name
+            FROM duckdb_constraints()
+            WHERE constraint_type = 'UNIQUE'
+                AND table_name = ?
+                AND constraint_column_names = array_value(?)
+                AND database_name = current_database()
+                AND schema_name = {schema_placeholder}
             """)
-
         params = [column.table.full_name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
+        params *= 2
 
         cur = self._db.cursor()
         cur.execute(query_template, parameters=params)
-- 
2.43.0


From 124e5b8bbe97aadaf5f2746ec063c0b19a107329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 110/252] fix: key-based schema access fails for columns, views
 and other schemas

---
 postbound/db/_db.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 6443fdc..bbf86ef 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1572,6 +1572,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
     def __getitem__(self, key):
         match key:
             case ColumnReference():
+                if key.table is None:
+                    raise UnboundColumnError(key)
+                if key not in self.columns(key.table):
+                    raise KeyError(f"Column '{key}' not found in database schema")
                 return ColumnInfo(
                     column=key,
                     table=key.table,
@@ -1581,18 +1585,28 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
-                schema_graph = self.as_graph()
                 col_infos = [self[col] for col in self.columns(key)]
-                outgoing_fks = set_union(
-                    edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
-                )
-                incoming_fks = set_union(
-                    edge[2] for edge in schema_graph.in_edges(key, data="foreign_keys")
+                if not col_infos:
+                    raise KeyError(f"Table '{key}' not found in database schema")
+                pkey_cols = [info.column for info in col_infos if info.primary_key]
+                outgoing_fks = {
+                    ForeignKeyRef(info.column, fk_target)
+                    for info in col_infos
+                    for fk_target in self.foreign_keys_on(info.column)
+                }
+                schema_graph = self.as_graph()
+                incoming_fks = (
+                    set_union(
+                        edge[2]
+                        for edge in schema_graph.in_edges(key, data="foreign_keys")
+                    )
+                    if key in schema_graph
+                    else set()
                 )
                 return TableInfo(
                     table=key,
                     columns=col_infos,
-                    primary_key=self.primary_key_column(key),
+                    primary_key=pkey_cols[0] if len(pkey_cols) == 1 else None,
                     outgoing_foreign_keys=outgoing_fks,
                     incoming_foreign_keys=incoming_fks,
                 )
@@ -1604,10 +1618,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     pass
 
                 try:
-                    col, tab = key.split(".", 1)
+                    tab, col = key.split(".", 1)
                     ref = ColumnReference(col, TableReference(tab))
                     return self[ref]
-                except KeyError:
+                except (KeyError, ValueError):
                     raise KeyError(f"Key '{key}' not found in database schema")
             case _:
                 raise KeyError(
-- 
2.43.0


From df713390a291b64d3772382f46935fc53c89365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 111/252] fix: lower bound and order of histograms from the
 Postgres statistics

---
 postbound/postgres.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index cd2c732..5dde061 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1977,6 +1977,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         bucket_freq = n_rows // len(bounds)
 
         mcvs = self._retrieve_most_common_values_from_stats(column, k=None)
+        # MCVs are ordered by frequency, but we need to merge them with the histogram based on their values
+        mcvs = sorted(mcvs, key=lambda mcv: mcv[0])
 
         normalized_bounds = []
         normalized_frequencies = []
@@ -1992,10 +1994,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 cur_mcv_val, cur_mcv_freq = None, None
 
             if lo is None:
-                lo = min(
-                    filter(None, [cur_hist, cur_mcv_val]),
-                    default=None,
-                )
+                lo = min(val for val in (cur_hist, cur_mcv_val) if val is not None)
 
             if cur_hist is None:
                 assert cur_mcv_val is not None
-- 
2.43.0


From 751bf13047b4aee82c32a395f64e0de03dc91eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 112/252] fix: Postgres statistics use the data type of equally
 named tables from other schemas

---
 postbound/postgres.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5dde061..ef3d487 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2037,10 +2037,14 @@ class PostgresStatisticsInterface(DatabaseStatistics):
 
     def _array_cast(self, column: BoundColumnReference) -> str:
         # determine the attributes data type to figure out how it should be converted
-        attribute_query = "SELECT data_type FROM information_schema.columns WHERE table_name = %s AND column_name = %s"
+        schema = column.table.schema or "public"
+        attribute_query = (
+            "SELECT data_type FROM information_schema.columns "
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
 
         self._db.cursor().execute(
-            attribute_query, (column.table.full_name, column.name)
+            attribute_query, (column.table.full_name, column.name, schema)
         )
         result_set = self._db.cursor().fetchone()
         assert result_set
@@ -2049,7 +2053,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         converter = _DTypeArrayConverters.get(attribute_dtype)
         if not converter:
             raise ValueError(
-                "Cannot cast column array of type {attribute_dtype} - no converter found."
+                f"Cannot cast column array of type {attribute_dtype} - no converter found."
             )
         return converter
 
-- 
2.43.0


From 617890fbe8366155ddd6bd06b4521d6912a79f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 113/252] fix: relative number of distinct values is truncated

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index ef3d487..7d04150 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1901,7 +1901,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         n_rows = self._retrieve_total_rows_from_stats(column.table)
         assert n_rows is not None, "Could not retrieve total row count for table"
 
-        return int(-1 * n_rows * dist_values)
+        return round(-1 * n_rows * dist_values)
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
-- 
2.43.0


From a0f83b8f637bdd7bcdd5ea98b8b5927990baac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 114/252] fix: DuckDB interface cannot analyze plans

---
 postbound/duckdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 5a964f7..83f1742 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -637,7 +637,9 @@ class DuckDBOptimizer(OptimizerInterface):
 
         raw_explain = result_set[1]
         parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        # in contrast to plain EXPLAIN, EXPLAIN ANALYZE produces the root operator directly
+        raw_plan = parsed[0] if isinstance(parsed, list) else parsed
+        return parse_duckdb_plan(raw_plan, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From 42ef554278104011e0e030bdbff620cc18ff088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 115/252] fix: DuckDB plans with multiple filters on a scan
 cannot be parsed

---
 postbound/duckdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 83f1742..ce27bc8 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -489,7 +489,9 @@ def _bind_node_to_table(
         candidate: "".join(pred.split()) for candidate, pred in query_filters.items()
     }
 
-    plan_filter: str = scan_node.get("extra_info", {}).get("Filters", "")
+    plan_filter: str | list[str] = scan_node.get("extra_info", {}).get("Filters", "")
+    if isinstance(plan_filter, list):
+        plan_filter = " AND ".join(plan_filter)
     plan_filter = "".join(plan_filter.split())
 
     node_trigram = set(stats.trigrams(plan_filter))
-- 
2.43.0


From 18f1bcdf705151c99c5e30e9f8bca920cfce57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 116/252] fix: nested-loop and merge joins are not recognized
 in DuckDB plans

---
 postbound/duckdb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index ce27bc8..f0e272b 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -549,6 +549,13 @@ def parse_duckdb_plan(
     match node_type:
         case "HASH_JOIN":
             node_type = JoinOperator.HashJoin
+
+        case "NESTED_LOOP_JOIN" | "BLOCKWISE_NL_JOIN":
+            node_type = JoinOperator.NestedLoopJoin
+
+        case "PIECEWISE_MERGE_JOIN":
+            node_type = JoinOperator.SortMergeJoin
+
         case (
             "SEQ_SCAN" | "SEQ_SCAN "  # DuckDB has a weird typo in the SEQ_SCAN label
         ) if extras.get("Type", "") == "Sequential Scan":
-- 
2.43.0


From bae1e72eb1bf1a27cde05a787da81deaec8ae0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 117/252] fix: measured cardinalities of DuckDB plans are plain
 numbers

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index f0e272b..3b368e0 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -594,7 +594,7 @@ def parse_duckdb_plan(
         children=children,
         base_table=base_table,
         estimated_cardinality=Cardinality(card_est),
-        actual_cardinality=card_act,
+        actual_cardinality=Cardinality(card_act),
         execution_time=total_runtime,
     )
 
-- 
2.43.0


From d33a8b50399edf504c0614cd42ed469dbd19d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 118/252] fix: parsing raw MySQL plans fails

---
 postbound/mysql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 01dba6a..b833b93 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -734,7 +734,13 @@ class MysqlOptimizer(OptimizerInterface):
         raise NotImplementedError("MySQL interface does not support ANALYZE plans yet")
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
-        mysql_plan = MysqlExplainPlan(plan)
+        if isinstance(plan, list):
+            plan = plan[0]
+        if isinstance(plan, tuple):
+            plan = plan[0]
+        if isinstance(plan, str):
+            plan = json.loads(plan)
+        mysql_plan = parse_mysql_explain_plan(query, plan)
         return mysql_plan.as_qep()
 
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
-- 
2.43.0


From a19a8bb9b8c0f338a7ffab14080f21cd688cd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 119/252] fix: MySQL plans treat estimates of zero as missing

---
 postbound/mysql.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index b833b93..0bdb492 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -980,15 +980,17 @@ def _parse_cardinality_info(explain_data: dict) -> tuple[float, float]:
         cardinality can be determined, a ``NaN`` is used instead.
     """
     table_cardinality = explain_data.get("rows_examined_per_scan", "")
-    table_cardinality = float(table_cardinality) if table_cardinality else math.nan
+    table_cardinality = (
+        float(table_cardinality) if table_cardinality != "" else math.nan
+    )
 
-    filtered = explain_data.get("filtered")
-    filtered = float(filtered) if filtered else math.nan
+    filtered = explain_data.get("filtered", "")
+    filtered = float(filtered) if filtered != "" else math.nan
     selectivity = filtered / 100
     scan_cardinality = selectivity * table_cardinality
 
     join_cardinality = explain_data.get("rows_produced_per_join", "")
-    join_cardinality = float(join_cardinality) if join_cardinality else math.nan
+    join_cardinality = float(join_cardinality) if join_cardinality != "" else math.nan
     return scan_cardinality, join_cardinality
 
 
-- 
2.43.0


From b08f5ab1e03ba36d94620039883bbb9d6a669745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 120/252] fix: MySQL plans of DISTINCT queries cannot be parsed

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 0bdb492..f846723 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -871,7 +871,7 @@ _MysqlExplainNodeTypes = {
     "optimized_away_subqueries",
     "grouping_operation",
     "ordering_operation",
-    "duplicate_removal",
+    "duplicates_removal",
     "union_result",
     "buffer_result",
     "select_list_subqueries",
-- 
2.43.0


From 1a38847e8c3c87d901ca2582c5c0a4c04bca686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 121/252] fix: MySQL plans with derived tables cannot be parsed

---
 postbound/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index f846723..9c12463 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -1030,7 +1030,7 @@ def _parse_mysql_table_node(
 
     subquery = (
         _parse_next_mysql_explain_node(
-            query, explain_data["materialized_from_subquery"]
+            query, explain_data["materialized_from_subquery"]["query_block"]
         )
         if "materialized_from_subquery" in explain_data
         else None
@@ -1237,6 +1237,7 @@ class MysqlExplainNode:
             operator=_MysqlExplainScanNodes.get(self.scan_type),
             estimated_cost=self.scan_cost,
             estimated_cardinality=Cardinality(self.scan_cardinality_estimate),
+            subplan_root=self.subquery.as_qep() if self.subquery else None,
         )
 
     def _join_str(self) -> str:
-- 
2.43.0


From 4efa455b4e1930a99293954fbdaf5f4acb3a50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 122/252] fix: total cost of MySQL plans is a string

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 9c12463..8290836 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -1101,7 +1101,7 @@ def parse_mysql_explain_plan(
     query: Optional[SqlQuery], explain_data: dict
 ) -> MysqlExplainPlan:
     explain_data = explain_data["query_block"]
-    query_cost = explain_data.get("cost_info", {}).get("query_cost", math.nan)
+    query_cost = float(explain_data.get("cost_info", {}).get("query_cost", math.nan))
 
     # the EXPLAIN plan should only have a single root node, but we do not know which operator it is (the JSON document
     # contains the nodes directly as keys, not under a normalized name, remember?). Therefore, we simply iterate over
-- 
2.43.0


From bafb9aeb9926a70c5f27b7a771e0f69f90c397cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 123/252] fix: Postgres plans with custom scan nodes cannot be
 parsed

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 7d04150..63bb4f8 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4274,7 +4274,7 @@ class PostgresExplainNode:
                     outer_child = qep_child
                 case "SubPlan" | "InitPlan" | "Subquery":
                     subplan_child = qep_child
-                case "Member":
+                case "Member" | "child" | "children":
                     child_nodes.append(qep_child)
                 case _:
                     raise ValueError(
-- 
2.43.0


From 14497dacb45f945d42cceb43ccda0daa4c341788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 124/252] fix: equal Postgres plans have different hashes

---
 postbound/postgres.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 63bb4f8..b9c7bc8 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4388,6 +4388,16 @@ class PostgresExplainNode:
             and self.node_type == other.node_type
             and self.relation_name == other.relation_name
             and self.relation_alias == other.relation_alias
+            and self.index_name == other.index_name
+            and self.subplan_name == other.subplan_name
+            and self.cte_name == other.cte_name
+            and self.filter_condition == other.filter_condition
+            and self.index_condition == other.index_condition
+            and self.join_filter == other.join_filter
+            and self.hash_condition == other.hash_condition
+            and self.recheck_condition == other.recheck_condition
+            and self.parent_relationship == other.parent_relationship
+            and self.launched_workers == other.launched_workers
             and self.children == other.children
         )
 
-- 
2.43.0


From 00aa02eff95be5f915fa1fe32f8c951aa2b6b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 125/252] fix: conditions of merge joins are missing in
 Postgres plans

---
 postbound/postgres.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index b9c7bc8..3274ac4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4080,6 +4080,7 @@ class PostgresExplainNode:
         self.index_condition: str | None = explain_data.get("Index Cond", None)
         self.join_filter: str | None = explain_data.get("Join Filter", None)
         self.hash_condition: str | None = explain_data.get("Hash Cond", None)
+        self.merge_condition: str | None = explain_data.get("Merge Cond", None)
         self.recheck_condition: str | None = explain_data.get("Recheck Cond", None)
         self.parent_relationship: str | None = explain_data.get(
             "Parent Relationship", None
@@ -4184,6 +4185,8 @@ class PostgresExplainNode:
             conditions["Index Cond"] = self.index_condition
         if self.join_filter is not None:
             conditions["Join Filter"] = self.join_filter
+        if self.merge_condition is not None:
+            conditions["Merge Cond"] = self.merge_condition
         if self.hash_condition is not None:
             conditions["Hash Cond"] = self.hash_condition
         if self.recheck_condition is not None:
-- 
2.43.0


From 2386057e3f4b16db521834d52c50cfff8f6a4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 126/252] fix: walk the joins of a query plan along the branch
 that contains them

---
 postbound/opt/tonic.py | 67 ++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..1d361ba 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -88,6 +88,33 @@ def _right_query_plan_child(node: QueryPlan) -> QueryPlan:
     return node.inner_child
 
 
+def _join_depth(node: QueryPlan | JoinTree) -> int:
+    """Provides the number of joins on the longest path to a base table. Auxiliary nodes of query plans do not count."""
+    if node.is_scan():
+        return 0
+    if not node.is_join():
+        return max((_join_depth(child) for child in node.children), default=0)
+    return 1 + max(_join_depth(node.outer_child), _join_depth(node.inner_child))
+
+
+def _smaller_branch_first(
+    outer: QueryPlan | JoinTree, inner: QueryPlan | JoinTree
+) -> tuple[QueryPlan, QueryPlan] | tuple[JoinTree, JoinTree]:
+    """Orders the inputs of a join such that the QEP-S path of the join continues the path of the second input.
+
+    The first input is either a base table, or forms its own subquery in the QEP-S. Query plans and join trees have to agree
+    on this, otherwise the costs of a plan would not be found again for its join order.
+    """
+    if _join_depth(inner) < _join_depth(outer):
+        return inner, outer
+    return outer, inner
+
+
+def _joins_intermediates(join: QueryPlan | JoinTree) -> bool:
+    """Checks, whether both inputs of a join are themselves joins."""
+    return _join_depth(join.outer_child) > 0 and _join_depth(join.inner_child) > 0
+
+
 def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     """Provides all joins along the deepest join path in the query plan.
 
@@ -110,11 +137,8 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
         _left_query_plan_child(current_node),
         _right_query_plan_child(current_node),
     )
-    left_child, right_child = (
-        (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
-        else (left_child, right_child)
-    )
+    left_child, right_child = _smaller_branch_first(left_child, right_child)
+
     return list(_iterate_query_plan(right_child)) + [current_node]
 
 
@@ -135,11 +159,8 @@ def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
         return []
     assert current_node.is_join()
     left_child, right_child = current_node.outer_child, current_node.inner_child
-    left_child, right_child = (
-        (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
-        else (left_child, right_child)
-    )
+    left_child, right_child = _smaller_branch_first(left_child, right_child)
+
     return list(_iterate_join_tree(right_child)) + [current_node]
 
 
@@ -461,12 +482,9 @@ class QEPsNode:
                 JoinOperatorAssignment(recommendation, self.tables())
             )
 
-        if next_join.is_bushy():
-            subquery_child = (
-                next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
-                else next_join.inner_child
+        if _joins_intermediates(next_join):
+            subquery_child, _ = _smaller_branch_first(
+                next_join.outer_child, next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
@@ -558,12 +576,8 @@ class QEPsNode:
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
-            first_child, second_child = (
-                (second_child, first_child)
-                if second_child.plan_depth() < first_child.plan_depth()
-                else (first_child, second_child)
-            )
+        if _joins_intermediates(next_node):
+            first_child, second_child = _smaller_branch_first(first_child, second_child)
             qeps_subquery_id = QepsIdentifier(first_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
             qeps_subquery_node.update_costs(
@@ -643,12 +657,9 @@ class QEPsNode:
             unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
 
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
-            subquery_child = (
-                next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
-                else next_join.inner_child
+        if _joins_intermediates(next_join):
+            subquery_child, _ = _smaller_branch_first(
+                next_join.outer_child, next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
-- 
2.43.0


From e475be430453c666b07326ecfed839f9bd6aae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 127/252] fix: recommend the join operators at the joins that
 they were observed for

---
 postbound/opt/tonic.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 1d361ba..e52fe8b 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -476,18 +476,13 @@ class QEPsNode:
             return
 
         next_join, *remaining_joins = join_order
-        recommendation = self.current_recommendation()
-        if recommendation:
-            current_assignment.set_join_operator(
-                JoinOperatorAssignment(recommendation, self.tables())
-            )
-
         if _joins_intermediates(next_join):
             subquery_child, _ = _smaller_branch_first(
                 next_join.outer_child, next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._recommend_join_operator(next_join, current_assignment)
             qeps_subquery_node.subquery_root.recommend_operators(
                 query, _iterate_join_tree(subquery_child), current_assignment
             )
@@ -521,11 +516,12 @@ class QEPsNode:
             next_table = (
                 next_join.inner_child.base_table
                 if next_join.inner_child.is_scan()
-                else next_join.inner_child.outer_child.base_table
+                else next_join.outer_child.base_table
             )
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._recommend_join_operator(next_join, current_assignment)
         qeps_child_node.recommend_operators(query, remaining_joins, current_assignment)
 
     def integrate_costs(
@@ -724,6 +720,16 @@ class QEPsNode:
             util.argmin(self.operator_costs) if len(self.operator_costs) > 1 else None
         )
 
+    def _recommend_join_operator(
+        self, join: JoinTree, assignment: PhysicalOperatorAssignment
+    ) -> None:
+        """Assigns the current recommendation of this node (if there is one) to a specific join of the query."""
+        recommendation = self.current_recommendation()
+        if recommendation:
+            assignment.set_join_operator(
+                JoinOperatorAssignment(recommendation, join.tables())
+            )
+
     def update_costs(self, operator: JoinOperator, cost: float) -> None:
         """Updates the cost of a specific operator for this node.
 
-- 
2.43.0


From 05c4c5b5eeb800cd3b59cc192d4d8e66d414ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 128/252] fix: detect the unknown operator costs of all joins
 in TONIC

---
 postbound/opt/tonic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index e52fe8b..fa7a4b2 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -211,7 +211,7 @@ def _tables_in_qeps_path(
     frozenset[TableReference]
         All tables in the path
     """
-    return util.set_union(identifier.tables() for identifier in qeps_path)
+    return frozenset(util.set_union(identifier.tables for identifier in qeps_path))
 
 
 class QepsIdentifier:
@@ -639,10 +639,7 @@ class QEPsNode:
             Internal parameter that should only be set by the QEP-S implementation. This parameter is required to correctly
             start the path traversal at the bottom join.
         """
-        if not join_order:
-            return
-
-        if not self.is_root_node() and not self._parent.is_root_node():
+        if len(self.path()) > 1:
             own_unknown_ops = frozenset(
                 [
                     operator
@@ -652,6 +649,9 @@ class QEPsNode:
             )
             unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
 
+        if not join_order:
+            return
+
         next_join, *remaining_joins = join_order
         if _joins_intermediates(next_join):
             subquery_child, _ = _smaller_branch_first(
-- 
2.43.0


From 6e320c488eee8b1435ed69921b26503af419219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 129/252] fix: load TONIC models with nested QEP-S nodes

---
 postbound/opt/tonic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index fa7a4b2..da38667 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1059,7 +1059,7 @@ def _load_qeps_id_from_json(json_data: dict) -> QepsIdentifier:
     tables = [
         parser.load_table_json(json_table) for json_table in json_data.get("tables", [])
     ]
-    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"), {})
+    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"))
     return QepsIdentifier(tables, filter_pred)
 
 
@@ -1105,20 +1105,20 @@ def _load_qeps_from_json(
     }
     subquery = (
         _load_qeps_from_json(json_data["subquery"], None, None, filter_aware, gamma)
-        if "subquery" in json_data
+        if json_data.get("subquery")
         else None
     )
     children: dict[QepsIdentifier, QEPsNode] = {}
     for child_json in json_data.get("children", []):
         child_id = _load_qeps_id_from_json(child_json["identifier"])
         child_node = _load_qeps_from_json(
-            json_data["node"], child_id, node, filter_aware, gamma
+            child_json["node"], child_id, node, filter_aware, gamma
         )
         children[child_id] = child_node
 
-    node.operator_costs = cost_info
+    node.operator_costs.update(cost_info)
     node._subquery_root = subquery
-    node.child_nodes = children
+    node.child_nodes.update(children)
     return node
 
 
-- 
2.43.0


From 641c4b27823e0c3f4a4b71fe810112fa41120890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 130/252] fix: exploring operator combinations with TONIC fails

---
 postbound/opt/tonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index da38667..e5efa9a 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1454,7 +1454,7 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
         allowed_operators = frozenset(allowed_operators & supported_operators)
 
         unknown_costs = {
-            intermediate.tables(): allowed_operators
+            frozenset(intermediate.tables()): allowed_operators
             for intermediate in join_order.iterjoins()
         }
         total_unknown_combinations = math.prod(
@@ -1465,7 +1465,8 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
             _sample_cost_estimates(
                 query, join_order, unknown_costs, max_combinations, self._db
             )
-            if total_unknown_combinations > max_combinations
+            if max_combinations is not None
+            and total_unknown_combinations > max_combinations
             else _generate_all_cost_estimates(
                 query, join_order, unknown_costs, self._db
             )
-- 
2.43.0


From 49ed81bcbbbecc58d09f22a186e2b56264187396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 131/252] fix: UES n:m bounds are too small because distinct
 values are rounded

---
 postbound/opt/ues.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..8977c3b 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -772,11 +772,10 @@ class UESBoundEstimator(JoinEstimator):
         ):
             return 0
 
-        first_distinct_vals = first_bound / first_freq
-        second_distinct_vals = second_bound / second_freq
-
-        n_m_bound = (
-            min(first_distinct_vals, second_distinct_vals) * first_freq * second_freq
+        # this is min(distinct values) * first_freq * second_freq. We must not calculate the number of distinct values
+        # explicitly, because cardinalities are rounded to integers.
+        n_m_bound = min(
+            float(first_bound) * second_freq, float(second_bound) * first_freq
         )
         return Cardinality(math.ceil(n_m_bound))
 
-- 
2.43.0


From a340c209c10d2dd91e510498a1670b59e0c48d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 132/252] fix: UES fails for queries with cross products to
 individual tables

---
 postbound/opt/ues.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 8977c3b..72ae4d0 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1049,20 +1049,27 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         join_graph = JoinGraph(query, self.database.schema())
 
-        if len(query.tables()) == 2:
-            final_join_tree = self._binary_join_optimization(query, join_graph)
-        elif join_graph.contains_cross_products():
+        if join_graph.contains_cross_products():
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
+                if len(component) == 1:
+                    (table,) = component
+                    optimized_components.append(
+                        LogicalJoinTree.scan(
+                            table,
+                            annotation=self.stats_container.base_table_estimates[table],
+                        )
+                    )
+                    continue
+
                 optimized_component = self._clone().optimize_join_order(component.query)
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1071,6 +1078,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 final_join_tree = final_join_tree.join_with(
                     remaining_join, annotation=output_cardinality
                 )
+        elif len(query.tables()) == 2:
+            final_join_tree = self._binary_join_optimization(query, join_graph)
+
         elif join_graph.contains_free_n_m_joins():
             final_join_tree = self._default_ues_optimizer(query, join_graph)
         else:
@@ -1488,7 +1498,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             join_estimation=copy.copy(self.join_estimation),
             subquery_policy=copy.copy(self.subquery_policy),
             stats_container=copy.copy(self.stats_container),
+            pull_eager_pk_tables=self._pull_eager_pk_tables,
             database=self.database,
+            verbose=self._logging_enabled,
         )
 
     def _log_information(self, info: str) -> None:
-- 
2.43.0


From 0e1e4e40e76f06f479a4c12136ec3dff87df3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 133/252] fix: join graph disagrees about joins that combine a
 primary key with other columns

---
 postbound/opt/_joingraph.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..6739924 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -491,14 +491,12 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             Whether there are still n:m joins with at least one free table.
         """
         is_first_join = self.initial()
-        for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
+        for first_tab, second_tab in self._graph.edges:
             if not self.is_available_join(first_tab, second_tab) and not is_first_join:
                 continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
+
+            if self.is_n_m_join(first_tab, second_tab):
+                return True
         return False
 
     def count_consumed_tables(self) -> int:
-- 
2.43.0


From 71622449227e8eaaa450c2096484e51203ff0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 134/252] fix: UES leaves tables of snowflake queries out

---
 postbound/opt/ues.py | 66 ++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 72ae4d0..377283b 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1138,7 +1138,13 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         self._log_information("Using default UES optimizer")
         join_tree = LogicalJoinTree.empty()
 
-        while join_graph.contains_free_n_m_joins():
+        while join_graph.contains_free_tables():
+            if not join_graph.contains_free_n_m_joins():
+                # All remaining joins that are currently available are primary key/foreign key joins (e.g. because the table is
+                # not directly connected to one of the n:m tables). Execute the cheapest one, this might enable new n:m joins
+                join_tree = self._insert_cheapest_join(query, join_tree, join_graph)
+                continue
+
             # Update the current upper bounds
             lowest_bound = np.inf
             lowest_bound_table = None
@@ -1235,7 +1241,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 subquery_join=create_subquery,
             )
             if create_subquery:
-                subquery_tree = JoinTree.scan(
+                subquery_tree = LogicalJoinTree.scan(
                     candidate_table, annotation=candidate_base_cardinality
                 )
                 join_graph.mark_joined(candidate_table)
@@ -1264,8 +1270,6 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 join_tree, candidate_table, selected_candidate.join_condition
             )
 
-        if join_graph.contains_free_tables():
-            raise AssertionError("Join graph still has free tables remaining!")
         return join_tree
 
     def _binary_join_optimization(
@@ -1356,26 +1360,46 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         # join partner selection
         while join_graph.contains_free_tables():
-            lowest_bound = np.inf
-            lowest_bound_join = None
-            for candidate_join in join_graph.available_join_paths():
-                current_bound = self.join_estimation.estimate_for(
-                    candidate_join.join_condition, join_graph
-                )
-                if current_bound < lowest_bound:
-                    lowest_bound = current_bound
-                    lowest_bound_join = candidate_join
-
-            join_tree = self._apply_pk_fk_join(
-                query,
-                lowest_bound_join,
-                join_bound=lowest_bound,
-                join_graph=join_graph,
-                current_join_tree=join_tree,
-            )
+            join_tree = self._insert_cheapest_join(query, join_tree, join_graph)
 
         return join_tree
 
+    def _insert_cheapest_join(
+        self, query: SqlQuery, join_tree: LogicalJoinTree, join_graph: JoinGraph
+    ) -> LogicalJoinTree:
+        """Extends a join tree by the available join that has the smallest bound.
+
+        Parameters
+        ----------
+        query : SqlQuery
+            The query that is being optimized.
+        join_tree : LogicalJoinTree
+            The current join tree, containing at least one table.
+        join_graph : JoinGraph
+            Join graph describing the current state of the optimization. The selected table will be marked as joined.
+
+        Returns
+        -------
+        LogicalJoinTree
+            The extended join tree
+        """
+        lowest_bound = np.inf
+        lowest_bound_join = None
+        for candidate_join in join_graph.available_join_paths():
+            current_bound = self.join_estimation.estimate_for(
+                candidate_join.join_condition, join_graph
+            )
+            if current_bound < lowest_bound:
+                lowest_bound = current_bound
+                lowest_bound_join = candidate_join
+        return self._apply_pk_fk_join(
+            query,
+            lowest_bound_join,
+            join_bound=lowest_bound,
+            join_graph=join_graph,
+            current_join_tree=join_tree,
+        )
+
     def _table_base_cardinality_ordering(
         self, table: TableReference, join_edge: dict
     ) -> int:
-- 
2.43.0


From 8a97655fbc0b4b7633098db705676fc07104ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 135/252] fix: breadth-first traversal misses nodes that do not
 match on their first visit

---
 postbound/util/nx.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 7d7ef6c..266ba92 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -168,7 +168,6 @@ def nx_bfs_tree(
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
 
-
     def _ordered(
         neighbors: list[tuple[NodeType, dict]],
     ) -> list[tuple[NodeType, dict]]:
@@ -177,21 +176,19 @@ def nx_bfs_tree(
         return sorted(neighbors, key=lambda neighbor: node_order(*neighbor))
 
     shell_nodes = Queue(_ordered(list(graph.adj[start_node].items())))
-    visited_nodes = {start_node}
     provided_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
         if current_node in provided_nodes:
             # the node was already reached on another path
             continue
-        visited_nodes.add(current_node)
         if condition(current_node, current_edge):
+            provided_nodes.add(current_node)
             neighbor_nodes = [
                 (node, edge)
                 for node, edge in graph.adj[current_node].items()
-                if node not in visited_nodes
+                if node not in provided_nodes
             ]
-            provided_nodes.add(current_node)
             shell_nodes.extend(_ordered(neighbor_nodes))
             yield current_node, current_edge
 
-- 
2.43.0


From e075dfa2d8556635988710a5ec3a654bca3528fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 136/252] fix: join graph mixes up the joined table when it has
 several partners

---
 postbound/opt/_joingraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 6739924..a0d4af6 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -1018,10 +1018,10 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if pk_fk_join:
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
+            for other_table, is_free in self._graph.nodes.data("free"):
+                if is_free or other_table == partner_table:
                     continue
-                self._invalidate_indexes_on(table)
+                self._invalidate_indexes_on(other_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
-- 
2.43.0


From 06ca654142d423d2e859471f1e9346308453641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 137/252] fix: UES subquery policy fails for joins between
 primary keys

---
 postbound/opt/ues.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 377283b..d96720b 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -942,9 +942,10 @@ class UESSubqueryPolicy(BranchingPolicy):
             else:
                 continue
 
+            base_estimate = stats_container.base_table_estimates[joined_table]
             generate_subquery = (
-                stats_container.upper_bounds[joined_table]
-                < stats_container.base_table_estimates[joined_table]
+                stats_container.upper_bounds.get(joined_table, base_estimate)
+                < base_estimate
             )
             if generate_subquery:
                 return True
-- 
2.43.0


From 109fb236c1c81b713b7e930818d1c04168f7caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 138/252] fix: timeout queries hang if the worker process dies

---
 postbound/postgres.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 3274ac4..2a731c3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3526,10 +3526,20 @@ class _ResultEvent:
         return _ResultEvent("failure", None, math.nan, error=error)
 
 
+def _recv_worker_event(status_pipe: mp_conn.Connection) -> object:
+    """Waits for the next event of the timeout worker. A worker that died without further notice is reported as an error."""
+    try:
+        return status_pipe.recv()
+    except EOFError as e:
+        return _WorkerErrorEvent(
+            DatabaseServerError("Timeout worker terminated unexpectedly", e)
+        )
+
+
 def _timeout_worker_ctl(
     status_pipe: mp_conn.Connection, *, timeout: float, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _recv_worker_event(status_pipe)
     match event:
         case _BackendConnectedEvent(pid):
             return _timeout_worker_prep(
@@ -3548,7 +3558,7 @@ def _timeout_worker_prep(
     backend_pid: int,
     executor: TimeoutQueryExecutor,
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _recv_worker_event(status_pipe)
     match event:
         case _QueryReadyEvent():
             return _timeout_worker_run_query(
@@ -3574,7 +3584,7 @@ def _timeout_worker_run_query(
             timeout, backend_pid=backend_pid, executor=executor
         )
 
-    event = status_pipe.recv()
+    event = _recv_worker_event(status_pipe)
     match event:
         case _QueryFinishedEvent():
             return _timeout_worker_await_result(
@@ -3590,7 +3600,7 @@ def _timeout_worker_run_query(
 def _timeout_worker_await_result(
     status_pipe: mp_conn.Connection, *, backend_pid: int, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _recv_worker_event(status_pipe)
     match event:
         case _ResultEvent():
             return event
@@ -3819,6 +3829,9 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
+        # from now on the worker is the only process that can send events: this lets us notice if it terminates
+        status_send.close()
+
         result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
         timed_out = result.status == "timeout"
         if timed_out:
@@ -3826,7 +3839,6 @@ class TimeoutQueryExecutor:
 
         query_worker.join()
         query_worker.close()
-        status_send.close()
         status_recv.close()
 
         match result.status:
-- 
2.43.0


From dfc4913f0ae17cf9c444001595180ad6bafcdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 139/252] fix: queries can continue to run after their timeout

---
 postbound/postgres.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 2a731c3..a4ee994 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3578,7 +3578,11 @@ def _timeout_worker_run_query(
     backend_pid: int,
     executor: TimeoutQueryExecutor,
 ) -> _ResultEvent:
-    query_finished = status_pipe.poll(timeout)
+    try:
+        query_finished = status_pipe.poll(timeout)
+    except BaseException:
+        executor._abort_backend(backend_pid)
+        raise
     if not query_finished:
         return _timeout_worker_timeout(
             timeout, backend_pid=backend_pid, executor=executor
@@ -3752,6 +3756,7 @@ class TimeoutQueryExecutor:
             else DatabasePool.get_instance().current_database()
         )
         self._timeout_watchdog = None
+        self._query_worker: mp.Process | None = None
 
     def execute_query(self, query: SqlQuery | str, timeout: float, **kwargs) -> Any:
         """Runs a query on the database connection, cancelling if it takes longer than a specific timeout.
@@ -3829,17 +3834,21 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
+        self._query_worker = query_worker
         # from now on the worker is the only process that can send events: this lets us notice if it terminates
         status_send.close()
 
-        result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
-        timed_out = result.status == "timeout"
-        if timed_out:
+        try:
+            result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+        except BaseException:
             query_worker.terminate()
-
-        query_worker.join()
-        query_worker.close()
-        status_recv.close()
+            raise
+        finally:
+            self._query_worker = None
+            query_worker.join()
+            query_worker.close()
+            status_recv.close()
+        timed_out = result.status == "timeout"
 
         match result.status:
             case "success" | "timeout":
@@ -3894,9 +3903,25 @@ class TimeoutQueryExecutor:
         )
 
     def _abort_backend(self, pid: int) -> None:
+        # The worker has to be gone before we can stop the backend, otherwise it could still submit its query afterwards.
+        # For the same reason it is not sufficient to just cancel the current query of the backend: the query might be on its
+        # way to the server.
+        if self._query_worker is not None:
+            self._query_worker.terminate()
+            self._query_worker.join()
+
+        try:
+            self._terminate_backend(pid)
+        except psycopg.OperationalError:
+            # the watchdog lost its connection, try again with a new one
+            self.close()
+            self._terminate_backend(pid)
+
+    def _terminate_backend(self, pid: int) -> None:
+        self._init_watchdog()
         assert self._timeout_watchdog is not None
         with self._timeout_watchdog.cursor() as cursor:
-            cursor.execute(f"SELECT pg_cancel_backend({pid});")  # type: ignore
+            cursor.execute(f"SELECT pg_terminate_backend({pid});")  # type: ignore
         self._timeout_watchdog.rollback()
 
     def __call__(self, query: SqlQuery | str, timeout: float, **kwargs) -> Any:
-- 
2.43.0


From e9da07b39357f15bf79cdebc954a8a186a8bd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 140/252] fix: statements without result fail if they are
 executed with a timeout

---
 postbound/postgres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a4ee994..2304756 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -779,7 +779,8 @@ class PostgresInterface(Database):
             result = self.execute_query(
                 query, timeout=timeout, cache_enabled=False, raw=True
             )
-            return result
+            # None is reserved for timeouts
+            return result if result is not None else []
         except TimeoutError:
             return None
 
@@ -3687,6 +3688,7 @@ def _timeout_query_worker(
             cursor.execute(query)  # type: ignore
             end_time = time.perf_counter_ns()
             status_pipe.send(_QueryFinishedEvent())
+            raw_result_set = cursor.fetchall() if cursor.rowcount >= 0 else None
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
                 [
@@ -3713,7 +3715,6 @@ def _timeout_query_worker(
         runtime = (end_time - start_time) / 10**9
         pg_instance._last_query_runtime = runtime
 
-        raw_result_set = cursor.fetchall()
         if kwargs.get("raw", False):
             result = raw_result_set
         else:
-- 
2.43.0


From 42bb64ef78deaeefc6f0befe4b0e59558f8a5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 141/252] fix: timeout executor does not find cached results of
 queries

---
 postbound/postgres.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 2304756..e1580e9 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3786,12 +3786,19 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
-        cached_query: bool = (
-            kwargs.get("cache_enabled", False)
-            and query in self._pg_instance._query_cache
-        )
-        if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+        if kwargs.get("cache_enabled", False):
+            cache_key = (
+                self._pg_instance._hinting_backend.format_query(
+                    transform.drop_hints(query, preparatory_statements_only=True)
+                )
+                if isinstance(query, SqlQuery)
+                else str(query)
+            )
+            if cache_key in self._pg_instance._query_cache:
+                cached = self._pg_instance._query_cache[cache_key]
+                return (
+                    cached if kwargs.get("raw", False) else simplify_result_set(cached)
+                )
 
         self._init_watchdog()
 
-- 
2.43.0


From 58ed4d0b4f1e19c8392920a8dc7967244ce0057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 142/252] fix: timeout worker ignores the client encoding

---
 postbound/postgres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e1580e9..ecee928 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3665,6 +3665,7 @@ def _timeout_query_worker(
         pg_instance = PostgresInterface(
             connect_string,
             application_name="PostBOUND Timeout Worker",
+            client_encoding=pg_config.get("client_encoding", "UTF8"),
             cache_enabled=cache_enabled,
         )
         status_pipe.send(_BackendConnectedEvent(pg_instance.backend_pid()))
@@ -3895,6 +3896,7 @@ class TimeoutQueryExecutor:
         return {
             "connect_string": self._pg_instance.connect_string,
             "cache_enabled": self._pg_instance.cache_enabled,
+            "client_encoding": self._pg_instance._client_encoding,
             "config": self._pg_instance.current_configuration(
                 runtime_changeable_only=True
             ),
-- 
2.43.0


From 0ba5e62fa34557937e36911c09b8275bea10ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 143/252] fix: parallel query executor passes wrong results to
 its callback

---
 postbound/postgres.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index ecee928..a8dd53d 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3450,13 +3450,12 @@ class ParallelQueryExecutor:
             If some queries have not completed after the given `timeout`.
         """
         for future in concurrent.futures.as_completed(self._tasks, timeout=timeout):
-            result_set = future.result()
-            self._results.append(result_set)
+            query, result_set = future.result()
+            self._results.append((query, result_set))
 
             if not callback:
                 continue
 
-            query = self._queries[future]
             callback(query, result_set)
 
     def result_set(self) -> dict[str | SqlQuery, ResultSet | None]:
-- 
2.43.0


From 3750291822253e4adcf2775040312307667b6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 144/252] fix: parallel query executor fails for statements
 without result

---
 postbound/postgres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a8dd53d..88f9cb3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3327,7 +3327,7 @@ def _parallel_query_worker(
             f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Executed query {query}"
         )
     except psycopg.errors.QueryCanceled as e:
-        if "canceling statement due to statement timeout" in e.args:
+        if "canceling statement due to statement timeout" in str(e):
             log(
                 f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Query {query} timed out"
             )
@@ -3335,7 +3335,7 @@ def _parallel_query_worker(
         else:
             raise e
 
-    result_set = cursor.fetchall()
+    result_set = cursor.fetchall() if cursor.rowcount >= 0 else []
     cursor.close()
 
     return query, result_set
-- 
2.43.0


From b240510cd63c5d3ee872a0a01f47ef0bcc9ff5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 145/252] fix: timeouts of DuckDB queries raise an error

---
 postbound/duckdb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 3b368e0..cbc03fa 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -147,8 +147,11 @@ class DuckDBInterface(Database):
             result_set = self._cur.fetchall()
             return result_set
         except concurrent.futures.TimeoutError:
-            self._cur.interrupt()
-            promise.result()
+            # The interrupt gets lost if the worker has not started the query yet, hence we repeat it if necessary.
+            # The outcome of the query (typically an error due to the interrupt) does not matter anymore.
+            while not promise.done():
+                self._cur.interrupt()
+                concurrent.futures.wait([promise], timeout=0.05)
 
             # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
             # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-- 
2.43.0


From c39937f42b29c5345da9b14c24b6902d48aa3199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 146/252] fix: DuckDB timeout queries ignore preparatory
 statements

---
 postbound/duckdb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index cbc03fa..043b0d4 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -138,6 +138,13 @@ class DuckDBInterface(Database):
     def execute_with_timeout(
         self, query: SqlQuery | str, *, timeout: float = 60.0
     ) -> Optional[ResultSet]:
+        if (
+            isinstance(query, SqlQuery)
+            and query.hints
+            and query.hints.preparatory_statements
+        ):
+            self._cur.execute(query.hints.preparatory_statements)
+            query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
 
-- 
2.43.0


From 34c7506a6fcd2c521b2e874ec15485511bfa27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 147/252] fix: training data is not renamed to its features

---
 postbound/train/_train.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..4eafb87 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -409,16 +409,17 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
-
         if requested_spec is None:
+            renamings = {col: feature for feature, col in self._feature_map.items()}
             return self._samples.rename(columns=renamings)
 
         if not self._spec.satisfies(requested_spec):
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        samples = self._samples[columns].copy()
+        samples.columns = list(requested_spec.features)
+        return samples
 
     def merge_with(
         self,
@@ -437,8 +438,11 @@ class TrainingData:
             )
 
         other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat(
+            [self.as_df(self._spec), other_samples], ignore_index=True
+        )
+        feature_map = {feature: feature for feature in self._spec.features}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
-- 
2.43.0


From f7ff6a37dd75ecea80afe552f62b3e9582367421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 148/252] fix: conforming training data ignores the requested
 order of features

---
 postbound/train/_train.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 4eafb87..d0816ca 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -395,12 +395,10 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: feature for feature in spec.features
         }
         return TrainingData(
-            self._samples, source=self._source, feature_map=reduced_spec
+            self.as_df(spec), source=self._source, feature_map=reduced_spec
         )
 
     def as_df(self, requested_spec: Optional[TrainingSpec] = None) -> pd.DataFrame:
-- 
2.43.0


From f51f10fdc50b7c508ead97406d0fdde92758d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 149/252] fix: training data can only be merged if all datasets
 have the same features

---
 postbound/train/_train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index d0816ca..67f6223 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -303,10 +303,10 @@ class TrainingData:
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
         datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -501,6 +501,6 @@ class TrainingDataRepository:
         if not matching:
             return None
         elif len(matching) == 1:
-            return matching[0]
+            return matching[0].conform_to(spec)
         else:
             return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From 9447b86edbcaa60e6602fc1e1a00bca5cde3ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 150/252] fix: iterating over training data yields column names
 instead of samples

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 67f6223..6398cef 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -446,7 +446,7 @@ class TrainingData:
         return len(self._samples)
 
     def __iter__(self):
-        return iter(self._samples)
+        return (self[idx] for idx in range(len(self)))
 
     def __getitem__(self, idx) -> list:
         sample = self._samples.iloc[idx]
-- 
2.43.0


From 5c2e05fc2d3e0ff8b67dc164b7ce03b73c0b0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 151/252] fix: loading training data modifies the data frame of
 the caller

---
 postbound/train/_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6398cef..bbf919f 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -288,7 +288,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(parse_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
-- 
2.43.0


From 22bbc90155c0a607f10ef3690180b0fd88f4ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 152/252] fix: query generator loses single filter predicates

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 98c0593..eb81ef8 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -323,7 +323,7 @@ def generate_query(
                 case CompoundPredicate(op, children) if op == CompoundOperator.And:
                     where_parts.extend(children)
                 case _:
-                    where_parts.append(join_predicates)
+                    where_parts.append(predicates)
 
         where_clause = (
             Where(CompoundPredicate.create_and(where_parts)) if where_parts else None
-- 
2.43.0


From e2ba23da7bf210b6c47edb19cf45b1c0b114b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 153/252] fix: query generator ignores upper bounds of zero and
 hangs on exact filter bounds

---
 postbound/experiments/querygen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index eb81ef8..c5d3765 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -237,7 +237,7 @@ def generate_query(
     min_tables = min_tables or 1
     if not min_tables:
         raise ValueError("min_tables must be at least 1")
-    max_tables = max_tables or len(schema_graph.nodes)
+    max_tables = len(schema_graph.nodes) if max_tables is None else max_tables
     max_tables = min(max_tables, len(schema_graph.nodes))
     if max_tables < min_tables:
         raise ValueError(
@@ -248,7 +248,11 @@ def generate_query(
         cols for __, cols in schema_graph.nodes(data="columns")
     )
     min_filters = min_filters or 0
-    max_filters = max_filters or len(filter_columns)
+    max_filters = len(filter_columns) if max_filters is None else max_filters
+    if max_filters < min_filters:
+        raise ValueError(
+            f"max_filters must be at least as large as min_filters. Got {max_filters} (max) and {min_filters} (min)."
+        )
 
     select_clause = Select.count_star() if count_star else Select.star()
 
@@ -292,7 +296,7 @@ def generate_query(
         )
 
         current_max_filters = min(max_filters, len(available_columns))
-        if current_max_filters <= min_filters:
+        if current_max_filters < min_filters:
             # too few columns available, let's just try again
             continue
         else:
-- 
2.43.0


From 5c882e22c9e57ac8213248c50e11023bf5c466a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 154/252] fix: query generator produces cross products on
 disconnected schemas

---
 postbound/experiments/querygen.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index c5d3765..e080ab3 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -238,7 +238,11 @@ def generate_query(
     if not min_tables:
         raise ValueError("min_tables must be at least 1")
     max_tables = len(schema_graph.nodes) if max_tables is None else max_tables
-    max_tables = min(max_tables, len(schema_graph.nodes))
+    # tables of different connected components cannot be joined with each other
+    largest_component = max(
+        (len(comp) for comp in nx.weakly_connected_components(schema_graph)), default=0
+    )
+    max_tables = min(max_tables, largest_component)
     if max_tables < min_tables:
         raise ValueError(
             f"max_tables must be at least as large as min_tables. Got {max_tables} (max) and {min_tables} (min)."
@@ -267,6 +271,10 @@ def generate_query(
             next(table_walk) for _ in range(n_tables)
         ]
 
+        if not nx.is_weakly_connected(schema_graph.subgraph(joined_tables)):
+            # the walk had to jump to another connected component, let's just try again
+            continue
+
         available_columns: list[ColumnReference] = util.flatten(
             [
                 cols
-- 
2.43.0


From 29e2a597777d632b3fcd2555609c8f41fe2524ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 155/252] fix: query generator mixes up candidate values of
 filters

---
 postbound/experiments/querygen.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index e080ab3..eb2eee6 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -9,7 +9,7 @@ from typing import Optional
 import networkx as nx
 
 from .. import postgres, util
-from .._core import ColumnReference, TableReference
+from .._core import ColumnReference, TableReference, quote
 from ..db import Database, DatabasePool, ForeignKeyRef
 from ..qal import (
     AbstractPredicate,
@@ -116,16 +116,22 @@ def _generate_filter(
         distinct_template = (
             """SELECT DISTINCT {col} FROM {tab} TABLESAMPLE BERNOULLI(1)"""
         )
+        distinct_query = distinct_template.format(
+            col=quote(column.name), tab=column.table
+        )
     else:
-        distinct_template = """SELECT DISTINCT {col} FROM {tab}"""
+        distinct_query = build_query(
+            [
+                Select.create_for(column, distinct=True),
+                ImplicitFromClause.create_for(column.table),
+            ]
+        )
 
-    candidate_values = target_db.execute_query(
-        distinct_template.format(col=column.name, tab=column.table.full_name),
-        cache_enabled=False,
-    )
+    # NULL values cannot be compared, therefore they are no useful candidates
+    result_set = target_db.execute_query(distinct_query, cache_enabled=False, raw=True)
+    candidate_values = [row[0] for row in result_set if row[0] is not None]
     if not candidate_values:
         return None
-    candidate_values = util.enlist(candidate_values)
 
     selected_value = random.choice(candidate_values)
     selected_operator = random.choice(candidate_operators)
-- 
2.43.0


From be01d65daff39fbaeff5d3dff2970ee822be269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 156/252] fix: query generator does not recognize all numeric
 data types

---
 postbound/experiments/querygen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index eb2eee6..30f299c 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -141,12 +141,19 @@ def _generate_filter(
 
 def _is_numeric(data_type: str) -> bool:
     """Checks, whether a data type is numeric."""
+    data_type = data_type.lower().partition("(")[0].strip()
     return data_type in {
         "integer",
+        "int",
+        "tinyint",
+        "mediumint",
+        "hugeint",
         "smallint",
         "bigint",
         "date",
         "double precision",
+        "double",
+        "float",
         "real",
         "numeric",
         "decimal",
-- 
2.43.0


From a6121a5dbf5b4d87a3ce16b6b3df7d4121bed90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 157/252] fix: query generator falls short of the minimum
 number of filters

---
 postbound/experiments/querygen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 30f299c..b81a721 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -331,6 +331,10 @@ def generate_query(
             individual_filters = [
                 pred for pred in individual_filters if pred is not None
             ]
+            if len(individual_filters) < min_filters:
+                # some columns did not contain any values, let's just try again
+                continue
+
             filter_predicates = (
                 CompoundPredicate.create_and(individual_filters)
                 if individual_filters
-- 
2.43.0


From 026f6ab14f854b2870340c5dac53ddf8e29ca45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 158/252] fix: template values are not escaped for their column
 type

---
 postbound/experiments/ceb.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 61191d2..15f906b 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -71,6 +71,24 @@ def _make_options_list(
     return [(opt,) for opt in options]
 
 
+def _is_unquoted_type(dtype: str) -> bool:
+    """Checks, whether values of a specific column type can be inserted into a query as-is, i.e. without any quotes."""
+    base_type = dtype.lower().partition("(")[0].strip()
+    return "int" in base_type.replace("interval", "").replace("point", "") or (
+        base_type
+        in {
+            "numeric",
+            "decimal",
+            "real",
+            "float",
+            "double",
+            "double precision",
+            "boolean",
+            "bool",
+        }
+    )
+
+
 def _remove_weight_col(
     val: tuple[PlaceHolderValue], col_idx: int
 ) -> tuple[PlaceHolderValue]:
@@ -655,12 +673,16 @@ class QueryTemplate:
             value_text = ", ".join(escaped_values)
             return f"({value_text})"
 
-        if dtype in {"text", "varchar", "char", "character varying"}:
-            if pred_type == "LIKE" or pred_type == "ILIKE":
-                value = f"'%{value}%'"
-            return f"'{value}'"
+        if value is None:
+            return "NULL"
+
+        if pred_type == "LIKE" or pred_type == "ILIKE":
+            value = f"%{value}%"
+        elif _is_unquoted_type(dtype):
+            return str(value)
 
-        return str(value)
+        escaped_value = str(value).replace("'", "''")
+        return f"'{escaped_value}'"
 
     def __hash__(self) -> int:
         return hash(self.label)
-- 
2.43.0


From 38503fbda77feecd8a23c3f402b77f3a6792e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 159/252] fix: template predicates on columns without table
 alias fail

---
 postbound/experiments/ceb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 15f906b..ee9e971 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -648,7 +648,7 @@ class QueryTemplate:
         if "." not in colname:
             tables_without_alias = [
                 TableReference(tab)
-                for tab, alias in self._table_aliases
+                for alias, tab in self._table_aliases.items()
                 if tab == alias
             ]
             target_table = self._db_conn.schema().lookup_column(
-- 
2.43.0


From b044934b816f587dd2af10a4b9b5415d4843cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 160/252] fix: IN predicates of templates cannot be sampled

---
 postbound/experiments/ceb.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index ee9e971..46a960f 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -405,9 +405,8 @@ class PredicateGenerator:
         self, candidate_values: list[tuple[PlaceHolderValue]]
     ) -> tuple[PlaceHolderValue]:
         """Selects placeholder values for *IN* predicates according to the specified sampling strategy."""
-        if len(candidate_values[0]) != 1 or (
-            self._count_col_idx and len(candidate_values[0]) != 2
-        ):
+        expected_cols = 1 if self._count_col_idx is None else 2
+        if len(candidate_values[0]) != expected_cols:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
@@ -417,13 +416,14 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # Uniform sampling is easy: we just need to determine which unique values are available and then choose a
             # correctly-sized subset from them
-            candidate_values = list(set(candidate_values))
-
+            candidate_values = list({val[0] for val in candidate_values})
             max_values = (
                 len(candidate_values)
                 if self._in_pred_max_samples is None
                 else min(self._in_pred_max_samples, len(candidate_values))
             )
+            if max_values < min_values:
+                raise SamplingError(f"Too few values found for predicate '{self.name}'")
             n_values = random.randint(min_values, max_values)
 
             selected_val = random.sample(candidate_values, k=n_values)
@@ -445,6 +445,8 @@ class PredicateGenerator:
             if self._in_pred_max_samples is None
             else min(self._in_pred_max_samples, len(population))
         )
+        if max_values < min_values:
+            raise SamplingError(f"Too few values found for predicate '{self.name}'")
         n_values = random.randint(min_values, max_values)
 
         # We use numpy's random module here because it supports sampling from a population with custom weights as well as
@@ -454,10 +456,10 @@ class PredicateGenerator:
         weights = weights / weights.sum()
 
         rng = np.random.default_rng()
-        selected_val: list[PlaceHolderValue] = rng.choice(
-            population, size=n_values, p=weights, replace=False
+        selected_idxs = rng.choice(
+            len(population), size=n_values, p=weights, replace=False
         )
-        return [tuple(selected_val)]
+        return [tuple(population[idx] for idx in selected_idxs)]
 
     def _value_passes_constraints(
         self, key: PlaceholderName, value: list[PlaceHolderValue]
@@ -466,12 +468,13 @@ class PredicateGenerator:
         if self.predicate_for(key) != "IN":
             return True
 
+        n_values = len(value[self._key_lookup[key]])
         max_allowed_values = (
             self._in_pred_max_samples
             if self._in_pred_max_samples is not None
-            else len(value)
+            else n_values
         )
-        return self._in_pred_min_samples <= len(value) <= max_allowed_values
+        return self._in_pred_min_samples <= n_values <= max_allowed_values
 
     def _assert_values_available(self) -> None:
         """Raises an error if no values have been selected yet."""
-- 
2.43.0


From 199200800833807e6e8b6a09f718c74fe57781c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 161/252] fix: templates ignore the weights column

---
 postbound/experiments/ceb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 46a960f..4afb2fd 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -733,6 +733,7 @@ def _parse_template_toml(
             ],
             in_pred_min_samples=raw_predicate.get("min_samples", 1),
             in_pred_max_samples=raw_predicate.get("max_samples"),
+            count_column_idx=raw_predicate.get("weights_column"),
             dependencies=[
                 PredicateName(d) for d in raw_predicate.get("dependencies", [])
             ],
-- 
2.43.0


From 423ca32e8641fe6906d030e5db51637c142572a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 162/252] fix: templates use the weights column for uniform
 sampling

---
 postbound/experiments/ceb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 4afb2fd..43633a7 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -204,7 +204,9 @@ class PredicateGenerator:
         )
 
         self._count_col_idx = (
-            count_column_idx - 1 if count_column_idx is not None else None
+            count_column_idx - 1
+            if count_column_idx is not None and sampling_method == "weighted"
+            else None
         )
 
         self._in_pred_min_samples = in_pred_min_samples
-- 
2.43.0


From 40ca3f3f709ed26a6cf9d3d6eee3832241ac9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 163/252] fix: documented template example with a single
 operator is rejected

---
 postbound/experiments/ceb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 43633a7..c6f4006 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -24,7 +24,7 @@ from typing import Any, Literal, NewType, Optional
 
 import numpy as np
 
-from .. import parser, postgres
+from .. import parser, postgres, util
 from .._core import ColumnReference, TableReference
 from ..db import Database
 from ..qal import SqlQuery, format_quick
@@ -727,7 +727,7 @@ def _parse_template_toml(
             ],
             template_type=raw_predicate["type"],
             sampling_method=raw_predicate["sampling_method"],
-            pred_type=raw_predicate["pred_type"],
+            pred_type=util.enlist(raw_predicate["pred_type"]),
             target_columns=[ColumnName(c) for c in raw_predicate["columns"]],
             sql_query=raw_predicate.get("sql"),
             list_allowed_values=[
-- 
2.43.0


From f84637812394e59af4ad3957f27fb63676a56405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 164/252] fix: template generator silently produces too few
 queries

---
 postbound/experiments/ceb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index c6f4006..b2240f2 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -802,14 +802,14 @@ def generate_raw_workload(
     workload_queries: dict[str, str] = {}
     for template in templates:
         generated_count, num_tries = 0, 0
-        while generated_count < queries_per_template and num_tries <= max_tries:
+        while generated_count < queries_per_template:
+            if num_tries >= max_tries:
+                raise SamplingError(
+                    f"Could not generate enough unique queries for template {template.label}"
+                )
             num_tries += 1
             query = template.generate_raw_query()
             if query in generated_queries:
-                if num_tries == max_tries:
-                    raise SamplingError(
-                        "Could not generate enough unique queries for template {template.label}"
-                    )
                 continue
             else:
                 generated_queries.add(query)
-- 
2.43.0


From 09808b6ceba4e49342ce428867c50cd8e2727919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 165/252] fix: template values contradict the values that they
 depend on

---
 postbound/experiments/ceb.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index b2240f2..cf4d985 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -216,6 +216,7 @@ class PredicateGenerator:
         self._db_connection = db_connection
 
         self._selected_values: list = []
+        self._dependent_values: dict[PredicateName, dict] = {}
 
     @property
     def placeholders(self) -> Iterable[PlaceholderName]:
@@ -262,6 +263,13 @@ class PredicateGenerator:
             )
         self._selected_values = selected_value
 
+    def is_up_to_date(self) -> bool:
+        """Checks, whether none of the dependencies changed since the values of this predicate have been selected."""
+        return all(
+            self._parent_generator.selected_values(dep) == values
+            for dep, values in self._dependent_values.items()
+        )
+
     def fetch_value(self, key: PlaceholderName) -> PlaceHolderValue:
         """Provides the selected value for a specific placeholder key.
 
@@ -353,10 +361,11 @@ class PredicateGenerator:
         """
         sql_query = self._sql_query
 
-        for dep in self.dependencies:
+        for dep in self.dependencies or []:
             dependent_values = self._parent_generator.selected_values(
                 dep, refresh=redraw_dependent_values
             )
+            self._dependent_values[dep] = dependent_values
             sql_query = self._parent_generator.substitute_placeholders(
                 sql_query, dependent_values
             )
@@ -633,8 +642,18 @@ class QueryTemplate:
             )
             dep_graph.add_task(generator, depends_on=dependencies)
 
-        for generator in dep_graph:
-            generator.choose_predicate_values()
+        # If a generator cannot find a valid value, it re-draws the values of its dependencies. This potentially invalidates
+        # the values of other generators that have already been selected based on the same dependencies.
+        # In this case, we need to start over.
+        for _ in range(self.max_tries):
+            for generator in dep_graph:
+                generator.choose_predicate_values()
+            if all(gen.is_up_to_date() for gen in self._predicate_generators.values()):
+                break
+        else:
+            raise SamplingError(
+                f"Did not find a consistent set of values for template '{self.label}'"
+            )
 
         final_query = self.base_query
         for generator in self._predicate_generators.values():
-- 
2.43.0


From cb93afbad907ffe4856eb56f1cdbfe7f3840a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 166/252] fix: relational algebra sorts in descending order by
 default

---
 postbound/relalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index fbfad3d..f7b2b74 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3663,7 +3663,9 @@ class _ImplicitRelalgParser:
             final_fragment = self._add_expression(
                 order.column, input_node=final_fragment
             )
-            sorting.append((order.column, "asc" if order.ascending else "desc"))
+            sorting.append(
+                (order.column, "desc" if order.ascending is False else "asc")
+            )
 
         final_fragment = Sort(final_fragment, sorting)
         return final_fragment
-- 
2.43.0


From 5aeeb6251690ed434a8f736f928e408eb13658d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 167/252] fix: relational algebra loses HAVING conditions

---
 postbound/relalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index f7b2b74..3213b71 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3700,7 +3700,9 @@ class _ImplicitRelalgParser:
         --------
         _filter_eval_phase
         """
-        predicate = _filter_eval_phase(predicate, eval_phase)
+        if eval_phase != EvaluationPhase.PostAggregation:
+            # the HAVING condition is always evaluated as a whole, no matter which expressions it consists of
+            predicate = _filter_eval_phase(predicate, eval_phase)
         if predicate is None:
             return input_node
 
-- 
2.43.0


From 676119c2f418782ba05e4d855d570c93c3cead2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 168/252] fix: mutating relational algebra trees with shared
 nodes fails or corrupts their links

---
 postbound/relalg.py | 169 +++++++++++---------------------------------
 1 file changed, 43 insertions(+), 126 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 3213b71..e8e9401 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -328,6 +328,8 @@ class RelNode(abc.ABC):
             if child._parent is None:
                 child._parent = self
                 continue
+            if child._parent is self:
+                continue
             child._sideways_pass.add(self)
 
         if not recursive:
@@ -391,9 +393,10 @@ class RelNode(abc.ABC):
 
     def _rehash(self) -> None:
         """Re-calculates the hash value of the current node and all its children."""
-        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
+        # the hash value depends on the child nodes
         for child in self.children():
             child._rehash()
+        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
 
     def _assert_correct_update_child_count(self, children: Sequence[RelNode]) -> None:
         """Ensures that the correct number of child nodes is supplied for updating the current node.
@@ -2521,28 +2524,6 @@ class RelNodeVisitor(abc.ABC, typing.Generic[VisitorResult]):
         raise NotImplementedError
 
 
-def _collect_leaf_nodes(root: RelNode) -> set[Relation]:
-    """Provides all leaf nodes of a relational algebra tree.
-
-    For relation nodes with subquery input, only the leaf nodes of the subquery are returned.
-
-    Parameters
-    ----------
-    root : RelNode
-        The root node of the tree
-
-    Returns
-    -------
-    set[Relation]
-        The leaf nodes
-    """
-    if isinstance(root, Relation) and not root.subquery_input:
-        nodes = {root}
-    else:
-        nodes = util.set_union(_collect_leaf_nodes(child) for child in root.children())
-    return nodes
-
-
 @dataclasses.dataclass
 class _RelTreeUpdateSet:
     """Holds the root node of the updated tree and the node that asked for the tree update in the first place."""
@@ -2566,7 +2547,6 @@ class _RelNodeUpdateManager:
         self._root = root
         self._initiator = initiator
         self._updated_nodes: dict[RelNode, RelNode] = {}
-        self._node_working_set: list[RelNode] = list(_collect_leaf_nodes(root))
 
     def make_relalg_copy(self, **kwargs) -> _RelTreeUpdateSet:
         """Creates a copy of the relational algebra tree and applies modifications to it.
@@ -2582,47 +2562,52 @@ class _RelNodeUpdateManager:
             The updated relalg tree.
         """
         as_root: bool = kwargs.get("as_root", False)
-        updated_root: RelNode = None
-        updated_initiator: RelNode = None
+        self._root._rehash()
 
-        while self._node_working_set:
-            current_node = self._node_working_set.pop(0)
-            self._update_node_working_set(current_node)
+        updated_root = self._copy_tree(
+            self._initiator if as_root else self._root, update_args=kwargs
+        )
+        updated_initiator = self._updated_nodes[self._initiator]
 
-            already_updated = current_node in self._updated_nodes
-            pending_child_update = any(
-                child not in self._updated_nodes for child in current_node.children()
-            )
-            if already_updated or pending_child_update:
-                continue
+        updated_root._rehash()
+        updated_root._rebuild_linkage()
+        self._root._rebuild_linkage()
 
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
+        return _RelTreeUpdateSet(updated_root, updated_initiator)
 
-            if current_node == self._initiator:
-                self._perform_node_update(updated_node, **kwargs)
-                updated_initiator = updated_node
-                if as_root:
-                    updated_root = updated_node
-                    break
+    def _copy_tree(
+        self, node: RelNode, *, update_args: Optional[dict[str, object]] = None
+    ) -> RelNode:
+        """Copies a node along with all of its input nodes. Equal subtrees are merged into a single copy.
 
-            self._updated_nodes[current_node] = updated_node
+        Parameters
+        ----------
+        node : RelNode
+            The *original* version of the node
+        update_args : Optional[dict[str, object]], optional
+            The arguments to apply to the initiator of the update. If there are no such arguments, the initiator is copied just
+            like all other nodes.
 
-            if not as_root and current_node == self._root:
-                updated_root = updated_node
+        Returns
+        -------
+        RelNode
+            The copied node
+        """
+        if node in self._updated_nodes:
+            return self._updated_nodes[node]
 
-        assert updated_initiator is not None
-        assert updated_root is not None
+        updated_children = [
+            self._copy_tree(child, update_args=update_args) for child in node.children()
+        ]
+        updated_node = node.clone()
+        updated_node._update_child_nodes(updated_children)
+        updated_node._clear_parent_links()
 
-        updated_root._rebuild_linkage()
-        updated_root._rehash()
-        self._root._rebuild_linkage()
-        self._root._rehash()
+        if update_args is not None and node == self._initiator:
+            self._perform_node_update(updated_node, **update_args)
 
-        return _RelTreeUpdateSet(updated_root, updated_initiator)
+        self._updated_nodes[node] = updated_node
+        return updated_node
 
     def _perform_node_update(self, node: RelNode, **kwargs) -> None:
         """Updates the initiator of a tree mutation with node-specific arguments.
@@ -2643,78 +2628,10 @@ class _RelNodeUpdateManager:
                 continue
 
             if isinstance(value, RelNode):
-                value = self._merge_new_child(value)
+                value._rehash()
+                value = self._copy_tree(value)
             setattr(node, actual_attr_name, value)
 
-    def _merge_new_child(self, child_node: RelNode) -> RelNode:
-        """Merges a new child node into the tree update process.
-
-        This ensures that all child nodes of the new node correctly reference their updated counterparts.
-
-        Parameters
-        ----------
-        child_node : RelNode
-            The new child node to merge. Must be the *original* version of the child node.
-
-        Returns
-        -------
-        RelNode
-            The updated child node
-        """
-        internal_node_working_set: list[RelNode] = list(_collect_leaf_nodes(child_node))
-        updated_child: RelNode = None
-
-        while internal_node_working_set:
-            current_node = internal_node_working_set.pop(0)
-            already_updated = current_node in self._updated_nodes
-            if already_updated and current_node == child_node:
-                updated_child = self._updated_nodes[current_node]
-                break
-            if already_updated:
-                self._update_node_working_set(
-                    current_node, working_set=internal_node_working_set
-                )
-                continue
-            if any(
-                child not in self._updated_nodes for child in current_node.children()
-            ):
-                continue
-
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            self._updated_nodes[current_node] = updated_node
-            if current_node == child_node:
-                updated_child = updated_node
-                break
-
-            self._update_node_working_set(
-                current_node, working_set=internal_node_working_set
-            )
-
-        assert updated_child is not None
-        return updated_child
-
-    def _update_node_working_set(
-        self, node: RelNode, *, working_set: Optional[list[RelNode]] = None
-    ) -> None:
-        """Utility method to quickly include all relevant parent nodes into a node working set.
-
-        Parameters
-        ----------
-        node : RelNode
-            The node whose upwards links should be added to the working set
-        working_set : Optional[list[RelNode]], optional
-            The working set to update. If *None*, the internal working set of the update manager is used.
-        """
-        working_set = self._node_working_set if working_set is None else working_set
-        if node.parent_node:
-            working_set.append(node.parent_node)
-        working_set.extend(node.sideways_pass)
-
 
 def _is_aggregation(expression: SqlExpression) -> bool:
     """Utility to check whether an arbitrary SQL expression is an aggregation function.
-- 
2.43.0


From 700ec2d49daba4cfbed36873879b2dc2fa96e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 169/252] fix: relational algebra fails for CTEs and set
 operations with nested queries

---
 postbound/relalg.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index e8e9401..64d3e8e 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3257,6 +3257,7 @@ class _ImplicitRelalgParser:
         query: ImplicitSqlQuery,
         *,
         provided_base_tables: Optional[dict[TableReference, RelNode]] = None,
+        provided_ctes: Optional[dict[str, RelNode]] = None,
     ) -> None:
         self._query = query
         self._base_table_fragments: dict[TableReference, RelNode] = {}
@@ -3266,6 +3267,9 @@ class _ImplicitRelalgParser:
         self._provided_base_tables: dict[TableReference, RelNode] = (
             provided_base_tables if provided_base_tables else {}
         )
+        self._cte_fragments: dict[str, RelNode] = (
+            dict(provided_ctes) if provided_ctes else {}
+        )
 
         if query:
             query_cols = self._query.columns()
@@ -3287,9 +3291,7 @@ class _ImplicitRelalgParser:
         # TODO: robustness: query without FROM clause
 
         if self._query.cte_clause:
-            for cte in self._query.cte_clause.queries:
-                cte_root = self._add_subquery(cte.query)
-                self._add_table(cte.target_table, input_node=cte_root)
+            self._add_ctes(self._query)
 
         # we add the WHERE clause before all explicit JOIN statements to make sure filters are already present and we can
         # stitch together the correct fragments in OUTER JOINs
@@ -3330,6 +3332,19 @@ class _ImplicitRelalgParser:
         final_fragment = self._add_final_projection(final_fragment)
         return final_fragment
 
+    def _add_ctes(self, query: SqlQuery) -> None:
+        """Determines the algebra fragments for all CTEs of a query. They are used once the CTEs are referenced.
+
+        Parameters
+        ----------
+        query : SqlQuery
+            The query that contains the CTEs
+        """
+        for cte in query.cte_clause.queries:
+            self._cte_fragments[cte.target_table.full_name] = self._add_subquery(
+                cte.query
+            )
+
     def _update_query(self, query: SelectStatement) -> None:
         self._query = query
         query_cols = self._query.columns()
@@ -3426,9 +3441,12 @@ class _ImplicitRelalgParser:
         match table_source:
             case DirectTableSource():
                 if table_source.table.virtual:
-                    # Virtual tables in direct table sources are only created through references to CTEs. However, these CTEs
-                    # have already been included in the base table fragments.
-                    return self._base_table_fragments[table_source.table]
+                    # Virtual tables in direct table sources are only created through references to CTEs. These CTEs have
+                    # already been processed
+                    return self._add_table(
+                        table_source.table,
+                        input_node=self._cte_fragments[table_source.table.full_name],
+                    )
                 return self._add_table(table_source.table)
             case SubqueryTableSource():
                 subquery_root = self._add_subquery(table_source.query)
@@ -4048,12 +4066,14 @@ class _ImplicitRelalgParser:
     def _add_subquery(self, subquery: SqlQuery) -> SubqueryScan:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
         subquery_parser = _ImplicitRelalgParser(
-            subquery, provided_base_tables=self._base_table_fragments
+            subquery,
+            provided_base_tables=self._provided_base_tables
+            | self._base_table_fragments,
+            provided_ctes=self._cte_fragments,
         )
         subquery_root = subquery_parser.generate_relnode()
-        self._required_columns = util.dicts.merge(
-            subquery_parser._required_columns, self._required_columns
-        )
+        for table, columns in subquery_parser._required_columns.items():
+            self._required_columns[table] |= columns
         # We do not include the subquery base tables in our _base_table_fragments since the subquery base tables are already
         # processed completely and this would contradict the interpretation of the _base_table_fragments in
         # _generate_initial_join_order()
-- 
2.43.0


From 78b6019b2aabcd0a2f0a6f5661cbe02500e8cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 170/252] fix: both sides of a set operation share their tables

---
 postbound/relalg.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 64d3e8e..f9787b0 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3345,13 +3345,6 @@ class _ImplicitRelalgParser:
                 cte.query
             )
 
-    def _update_query(self, query: SelectStatement) -> None:
-        self._query = query
-        query_cols = self._query.columns()
-        util.collections.foreach(
-            query_cols, lambda col: self._required_columns[col.table].add(col)
-        )
-
     def _parse_set_query(self, query: SetQuery) -> RelNode:
         """Handler method to translate a set query into a relational algebra fragment.
 
@@ -3370,17 +3363,17 @@ class _ImplicitRelalgParser:
         ValueError
             _description_
         """
-        parser = _ImplicitRelalgParser(None)
-
         if query.cte_clause:
-            for cte in query.cte_clause.queries:
-                parser._update_query(cte.query)
-                parser.generate_relnode()  # we don't care about the result, we just want to add the CTE to the base tables
-
-        parser._update_query(query.left_query)
-        left_relalg = parser.generate_relnode()
-        parser._update_query(query.right_query)
-        right_relalg = parser.generate_relnode()
+            self._add_ctes(query)
+
+        left_relalg, right_relalg = (
+            _ImplicitRelalgParser(
+                input_query,
+                provided_base_tables=self._provided_base_tables,
+                provided_ctes=self._cte_fragments,
+            ).generate_relnode()
+            for input_query in (query.left_query, query.right_query)
+        )
 
         match query.set_operation:
             case SetOperator.Union:
-- 
2.43.0


From acb7f99ecf45177574825f0422d0c17640f42759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 171/252] fix: relational algebra rejects predicates that can
 only be evaluated after the join

---
 postbound/relalg.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index f9787b0..2c952e6 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3097,8 +3097,11 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
                 else EvaluationPhase.BaseTable
             )
             child_phase = max(
-                _determine_expression_phase(child_expr)
-                for child_expr in expression.iterchildren()
+                (
+                    _determine_expression_phase(child_expr)
+                    for child_expr in expression.iterchildren()
+                ),
+                default=EvaluationPhase.BaseTable,
             )
             return max(own_phase, child_phase)
         case SubqueryExpression():
@@ -3131,6 +3134,13 @@ def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
         )
     )
     n_tables = len(predicate.tables()) - subquery_tables
+    if (
+        isinstance(predicate, CompoundPredicate)
+        and predicate.operation == CompoundOperator.And
+    ):
+        # the different parts are evaluated independently of each other
+        return max(_determine_predicate_phase(child) for child in predicate.children)
+
     if n_tables == 1:
         # It could actually be that the number of tables is negative. E.g. HAVING count(*) < (SELECT min(r_a) FROM R)
         # Therefore, we only check for exactly 1 table
@@ -3142,16 +3152,21 @@ def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
         return EvaluationPhase.PostJoin
 
     expression_phase = max(
-        _determine_expression_phase(expression)
-        for expression in predicate.iterexpressions()
-        if type(expression) not in {StarExpression, StaticValueExpression}
+        (
+            _determine_expression_phase(expression)
+            for expression in predicate.iterexpressions()
+            if type(expression) not in {StarExpression, StaticValueExpression}
+        ),
+        default=EvaluationPhase.BaseTable,
     )
     if expression_phase > EvaluationPhase.Join:
         return expression_phase
 
+    # joins can only compare an expression of one input with an expression of the other input
     return (
         EvaluationPhase.Join
         if isinstance(predicate, BinaryPredicate)
+        and all(len(arg.tables()) == 1 for arg in predicate.iterexpressions())
         else EvaluationPhase.PostJoin
     )
 
-- 
2.43.0


From bb696fb5e979d32c917ce95d2d4013dcae85bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 172/252] fix: relational algebra confuses the tables of nested
 subqueries with the tables of the query

---
 postbound/relalg.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 2c952e6..6ed429c 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3035,6 +3035,11 @@ class _BaseTableLookup(
         if isinstance(elem, AbstractPredicate) and elem.is_join():
             raise ValueError(f"Cannot determine base table for join predicate '{elem}'")
         tables = elem.tables()
+        if len(tables) == 1:
+            return util.simplify(tables)
+        # the tables of nested subqueries are not available to the predicate
+        nested_subqueries = elem.accept_visitor(_SubqueryDetector()).subqueries
+        tables -= util.set_union(query.bound_tables() for query in nested_subqueries)
         if len(tables) == 1:
             return util.simplify(tables)
         base_table = elem.accept_visitor(self)
@@ -3655,15 +3660,22 @@ class _ImplicitRelalgParser:
                     predicate
                 ).items():
                     base_table_fragment = self._convert_predicate(
-                        base_pred, input_node=self._base_table_fragments[base_table]
+                        base_pred, input_node=self._resolve(base_table)
                     )
                     self._base_table_fragments[base_table] = base_table_fragment
                 return base_table_fragment
             case EvaluationPhase.Join:
                 for join_predicate in self._split_join_predicate(predicate):
+                    joined_fragments = {
+                        self._resolve(table) for table in join_predicate.tables()
+                    }
                     join_node = self._convert_join_predicate(join_predicate)
-                    for outer_table in join_node.tables():
-                        self._base_table_fragments[outer_table] = join_node
+                    available_fragments = (
+                        self._provided_base_tables | self._base_table_fragments
+                    )
+                    for table, fragment in available_fragments.items():
+                        if fragment in joined_fragments:
+                            self._base_table_fragments[table] = join_node
                 return join_node
             case EvaluationPhase.PostJoin | EvaluationPhase.PostAggregation:
                 assert input_node is not None
@@ -3674,12 +3686,19 @@ class _ImplicitRelalgParser:
                 # are not available). We solve this situation by introducing cross products between the dependent subquery
                 # and the outer table _within the subquery_. This is because the subquery needs to reference the outer table
                 # in its join predicate.
-                if not predicate.tables().issubset(input_node.tables()):
-                    missing_tables = predicate.tables() - input_node.tables()
-                    for outer_table in missing_tables:
+                nested_subqueries = predicate.accept_visitor(_SubqueryDetector())
+                required_tables = predicate.tables() - util.set_union(
+                    subquery.bound_tables() for subquery in nested_subqueries.subqueries
+                )
+                if not required_tables.issubset(
+                    input_node.tables(ignore_subqueries=True)
+                ):
+                    for outer_table in required_tables:
                         if outer_table not in self._provided_base_tables:
                             # the table will be supplied by a subquery
                             continue
+                        if outer_table in input_node.tables(ignore_subqueries=True):
+                            continue
                         input_node = CrossProduct(
                             input_node, self._provided_base_tables[outer_table]
                         )
-- 
2.43.0


From a525381ff6136aaf7b42f5907d8826ccf8dc378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 173/252] fix: relational algebra mistranslates disjunctions of
 subqueries

---
 postbound/relalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 6ed429c..33a8e5b 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3859,6 +3859,7 @@ class _ImplicitRelalgParser:
                         subquery_predicates.append(child_pred)
                     else:
                         regular_predicates.append(child_pred)
+                branches: list[RelNode] = []
                 if regular_predicates:
                     simplified_composite = CompoundPredicate.create(
                         predicate.operation, regular_predicates
@@ -3867,6 +3868,7 @@ class _ImplicitRelalgParser:
                         simplified_composite, final_fragment
                     )
                     final_fragment = Selection(final_fragment, simplified_composite)
+                    branches.append(final_fragment)
                 for subquery_pred in subquery_predicates:
                     if predicate.operation == CompoundOperator.And:
                         final_fragment = self._convert_predicate(
@@ -3876,7 +3878,9 @@ class _ImplicitRelalgParser:
                     subquery_branch = self._convert_predicate(
                         subquery_pred, input_node=input_node
                     )
-                    final_fragment = Union(final_fragment, subquery_branch)
+                    branches.append(subquery_branch)
+                if predicate.operation == CompoundOperator.Or:
+                    final_fragment = functools.reduce(Union, branches)
                 return final_fragment
 
             case CompoundOperator.Not:
-- 
2.43.0


From cac97001778e967fb0d282740a748ec6b8f3933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 174/252] fix: relational algebra fails for aliased CTEs

---
 postbound/relalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 33a8e5b..76077af 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3361,7 +3361,7 @@ class _ImplicitRelalgParser:
             The query that contains the CTEs
         """
         for cte in query.cte_clause.queries:
-            self._cte_fragments[cte.target_table.full_name] = self._add_subquery(
+            self._cte_fragments[cte.target_table.identifier()] = self._add_subquery(
                 cte.query
             )
 
@@ -3456,9 +3456,11 @@ class _ImplicitRelalgParser:
                 if table_source.table.virtual:
                     # Virtual tables in direct table sources are only created through references to CTEs. These CTEs have
                     # already been processed
+                    cte_name = (
+                        table_source.table.full_name or table_source.table.identifier()
+                    )
                     return self._add_table(
-                        table_source.table,
-                        input_node=self._cte_fragments[table_source.table.full_name],
+                        table_source.table, input_node=self._cte_fragments[cte_name]
                     )
                 return self._add_table(table_source.table)
             case SubqueryTableSource():
-- 
2.43.0


From 78c75208fcb48f3c08d3202549eede9cc5551ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 175/252] fix: algebra relations with different columns or
 contents are treated as the same relation

---
 postbound/relalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 76077af..4523f50 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -1125,12 +1125,17 @@ class Relation(RelNode):
             self._subquery_input = children[0]
 
     def _recalc_hash_val(self) -> int:
-        return hash((self._table, self._subquery_input))
+        return hash((self._table, self._provided_cols, self._subquery_input))
 
     __hash__ = RelNode.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self._table == other._table
+        return (
+            isinstance(other, type(self))
+            and self._table == other._table
+            and self._provided_cols == other._provided_cols
+            and self._subquery_input == other._subquery_input
+        )
 
     def __repr__(self) -> str:
         return self._table.identifier()
-- 
2.43.0


From 919f21491e5f4d3f3a6cb90bafbf4e81a604c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 176/252] fix: relational algebra mistranslates negated
 predicates with subqueries

---
 postbound/relalg.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 4523f50..6fd0d2a 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3897,6 +3897,40 @@ class _ImplicitRelalgParser:
                     )
                     final_fragment = Selection(final_fragment, predicate)
                     return final_fragment
+                match predicate.children:
+                    case CompoundPredicate(operation=CompoundOperator.Not) as negation:
+                        return self._convert_predicate(
+                            negation.children, input_node=input_node
+                        )
+                    case CompoundPredicate() as compound:
+                        # the parts of the predicate could be NULL, therefore we negate them individually
+                        negated_operation = (
+                            CompoundOperator.Or
+                            if compound.operation == CompoundOperator.And
+                            else CompoundOperator.And
+                        )
+                        negated_predicate = CompoundPredicate.create(
+                            negated_operation,
+                            [
+                                CompoundPredicate.create_not(child)
+                                for child in compound.children
+                            ],
+                        )
+                        return self._convert_predicate(
+                            negated_predicate, input_node=input_node
+                        )
+                    case BinaryPredicate() | BetweenPredicate() as simple_predicate:
+                        for expression in simple_predicate.iterexpressions():
+                            final_fragment = self._add_expression(
+                                expression, input_node=final_fragment
+                            )
+                        final_fragment = self._ensure_predicate_applicability(
+                            simple_predicate, final_fragment
+                        )
+                        return Selection(final_fragment, predicate)
+                    case _:
+                        pass
+
                 subquery_branch = self._convert_predicate(
                     predicate.children, input_node=input_node
                 )
-- 
2.43.0


From 9982b156592c05cc4859bbdd744a2e0c5b97fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 177/252] fix: relational algebra fails for IN predicates with
 set operations

---
 postbound/relalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 6fd0d2a..698f956 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -4120,6 +4120,9 @@ class _ImplicitRelalgParser:
                         return CrossProduct(input_node, subquery_root)
                     case "in" if not expression.query.is_scalar():
                         unwrapped_scan = subquery_root.input_node
+                        while not isinstance(unwrapped_scan, Projection):
+                            # set operations use the columns of their first input
+                            unwrapped_scan = unwrapped_scan.children()[0]
                         assert (
                             isinstance(unwrapped_scan, Projection)
                             and len(unwrapped_scan.columns) == 1
-- 
2.43.0


From 1c3b12dd080eca2a349d3d978a0f390e70d2decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 178/252] fix: mutating columns or orderings of relational
 algebra nodes is ignored or corrupts them

---
 postbound/relalg.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 698f956..7091532 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -1117,6 +1117,11 @@ class Relation(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if provided_columns is not None:
+            params["provided_cols"] = frozenset(
+                col if isinstance(col, ColumnExpression) else ColumnExpression(col)
+                for col in provided_columns
+            )
         return super().mutate(**params)
 
     def _update_child_nodes(self, children: Sequence[RelNode]) -> None:
@@ -1764,6 +1769,11 @@ class Sort(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if sorting is not None:
+            params["sorting"] = tuple(
+                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
+                for sort_item in sorting
+            )
         return super().mutate(**params)
 
     def _recalc_hash_val(self) -> int:
@@ -2635,6 +2645,10 @@ class _RelNodeUpdateManager:
             if isinstance(value, RelNode):
                 value._rehash()
                 value = self._copy_tree(value)
+            elif isinstance(value, list):
+                value = tuple(value)
+            elif isinstance(value, dict):
+                value = util.frozendict(value)
             setattr(node, actual_attr_name, value)
 
 
-- 
2.43.0


From 3c4de1c86dc0b33f944faa4968bba4c03cb1f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 179/252] fix: relational algebra drops repeated subqueries

---
 postbound/relalg.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 7091532..38cc647 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -727,6 +727,13 @@ class Union(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        # expressions that are only computed by one of the branches are not available afterwards. If the branches have entirely
+        # different columns, the first one determines the names.
+        left_expressions = self._left_input.provided_expressions()
+        common = left_expressions & self._right_input.provided_expressions()
+        return common if common else left_expressions
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_union(visitor)
 
@@ -838,6 +845,9 @@ class Intersection(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._left_input.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_intersection(visitor)
 
@@ -950,6 +960,9 @@ class Difference(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._left_input.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_difference(visitor)
 
@@ -2111,6 +2124,10 @@ class SemiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        # the subquery only filters the input
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_semijoin(self)
 
@@ -2269,6 +2286,10 @@ class AntiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        # the subquery only filters the input
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_antijoin(self)
 
@@ -4115,7 +4136,10 @@ class _ImplicitRelalgParser:
         RelNode
             The expanded algebra fragment
         """
-        if expression in input_node.provided_expressions():
+        if (
+            subquery_target == "scalar"
+            and expression in input_node.provided_expressions()
+        ):
             return input_node
 
         match expression:
-- 
2.43.0


From f3d4df2b4561abd179f132a4c6ea6c360ce46240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:18 +0000
Subject: [PATCH 180/252] fix: LATERAL is lost for VALUES lists

---
 postbound/parser.py    |  6 +++---
 postbound/qal/_qal.py  | 23 ++++++++++++++++++++---
 postbound/transform.py |  6 +++++-
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 6feb50a..4a14b14 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1804,15 +1804,15 @@ def _pglast_parse_values(
     parent_namespace.register_table(table, shape=child_nsp)
 
     if not alias:
-        return ValuesTableSource(values, alias=alias, columns=[])
+        return ValuesTableSource(values, alias=alias, columns=[], lateral=is_lateral)
 
     if "colnames" not in raw_alias:
-        return ValuesTableSource(values, alias=alias, columns=[])
+        return ValuesTableSource(values, alias=alias, columns=[], lateral=is_lateral)
 
     colnames = []
     for raw_colname in raw_alias["colnames"]:
         colnames.append(raw_colname["String"]["sval"])
-    return ValuesTableSource(values, alias=alias, columns=colnames)
+    return ValuesTableSource(values, alias=alias, columns=colnames, lateral=is_lateral)
 
 
 def _pglast_parse_from(
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 724b1e4..1fe2536 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6510,6 +6510,8 @@ class ValuesTableSource(TableSource):
         The names of the columns that are available in the virtual table. The length of this list must match the length
         of the tuples in the `values` list. Alternatively, an empty list can be provided, in which case the columns will
         be named automatically.
+    lateral : bool, optional
+        Whether the rows may use columns of preceding tables. Defaults to *False*.
     """
 
     def __init__(
@@ -6518,8 +6520,10 @@ class ValuesTableSource(TableSource):
         *,
         alias: str | TableReference = "",
         columns: Optional[Iterable[str | ColumnReference]] = None,
+        lateral: bool = False,
     ) -> None:
         self._values = tuple(values)
+        self._lateral = lateral
 
         if isinstance(alias, TableReference):
             self._table = alias
@@ -6534,9 +6538,9 @@ class ValuesTableSource(TableSource):
             parsed_columns.append(ColumnReference(col, self._table))
         self._columns = tuple(parsed_columns)
 
-        self._hash_val = hash((self._table, self._columns, self._values))
+        self._hash_val = hash((self._table, self._columns, self._values, self._lateral))
 
-    __slots__ = ("_values", "_table", "_columns", "_hash_val")
+    __slots__ = ("_values", "_table", "_columns", "_lateral", "_hash_val")
     __match_args__ = ("rows", "alias", "cols")
 
     @property
@@ -6583,6 +6587,17 @@ class ValuesTableSource(TableSource):
         """
         return self._columns
 
+    @property
+    def lateral(self) -> bool:
+        """Get, whether the rows may use columns of preceding tables.
+
+        Returns
+        -------
+        bool
+            Whether this is a lateral join
+        """
+        return self._lateral
+
     def tables(self) -> set[TableReference]:
         value_tables = util.set_union(expr.tables() for expr in self.iterexpressions())
         return {self._table} | value_tables if self._table else value_tables
@@ -6627,6 +6642,7 @@ class ValuesTableSource(TableSource):
             and self._table == other._table
             and self._columns == other._columns
             and self._values == other._values
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
@@ -6645,7 +6661,8 @@ class ValuesTableSource(TableSource):
             f" AS {quote(self._table.identifier())}{cols_str}" if self._table else ""
         )
 
-        return f"(VALUES {complete_vals_str}){tab_str}"
+        lateral_str = "LATERAL " if self._lateral else ""
+        return f"{lateral_str}(VALUES {complete_vals_str}){tab_str}"
 
 
 class FunctionTableSource(TableSource):
diff --git a/postbound/transform.py b/postbound/transform.py
index 4713d2f..e30654a 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1119,6 +1119,7 @@ def _replace_expression_in_table_source(
                 replaced_values,
                 alias=table_source.table.identifier(),
                 columns=table_source.cols,
+                lateral=table_source.lateral,
             )
         case FunctionTableSource():
             replaced_function = replacement(table_source.function)
@@ -1836,7 +1837,8 @@ def _rename_columns_in_table_source(
         case ValuesTableSource():
             if not table_source.table:
                 return ValuesTableSource(
-                    _rename_columns_in_rows(table_source.rows, available_renamings)
+                    _rename_columns_in_rows(table_source.rows, available_renamings),
+                    lateral=table_source.lateral,
                 )
             return ValuesTableSource(
                 _rename_columns_in_rows(table_source.rows, available_renamings),
@@ -1844,6 +1846,7 @@ def _rename_columns_in_table_source(
                 columns=_rename_values_columns(
                     table_source.table, table_source.cols, available_renamings
                 ),
+                lateral=table_source.lateral,
             )
 
         case FunctionTableSource():
@@ -2373,6 +2376,7 @@ class _TableReferenceRenamer(
                     self._rename_rows(source.rows),
                     alias=renamed_alias,
                     columns=[col.name for col in source.cols],
+                    lateral=source.lateral,
                 )
             case FunctionTableSource():
                 renamed_function = source.function.accept_visitor(self)
-- 
2.43.0


From d75ea2518b826a44858f7593bacc3a647fd887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:18 +0000
Subject: [PATCH 181/252] fix: anonymous VALUES lists break the replacement of
 expressions

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index e30654a..f7dd323 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1117,7 +1117,7 @@ def _replace_expression_in_table_source(
             ]
             return ValuesTableSource(
                 replaced_values,
-                alias=table_source.table.identifier(),
+                alias=table_source.table if table_source.table else "",
                 columns=table_source.cols,
                 lateral=table_source.lateral,
             )
-- 
2.43.0


From a54d36cc77ab67932bebcd13c586a66220035c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 182/252] fix: ignored optimization failures count earlier
 executions twice

---
 postbound/bench.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 64bdb5c..24c48ee 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -907,9 +907,9 @@ class _ExecutionResults:
         self._workload_rep += 1
 
     def next_query(self, query: SqlQuery, *, label: str) -> _ResultSample:
-        if self._samples:
-            last_sample = self._samples[-1]
-            self._execution_counter += last_sample.num_executions()
+        self._execution_counter = 1 + sum(
+            sample.num_executions() for sample in self._samples
+        )
 
         sample = _ResultSample(
             query=query,
-- 
2.43.0


From bc9c1f21b670cfa0b010b48b2aa2ab5b703624ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:22 +0000
Subject: [PATCH 183/252] fix: queries with CTEs report wrong bound and unbound
 tables

---
 postbound/qal/_qal.py | 47 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 1fe2536..dbea682 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8344,6 +8344,35 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
         raise ValueError(f"Unknown table source type: {table_source}")
 
 
+def _collect_bound_tables_from_cte(
+    cte_clause: Optional[CommonTableExpression],
+) -> set[TableReference]:
+    """Handler method to provide all tables that are "produced" by the given CTEs.
+
+    These are the CTEs themselves, as well as all tables that are bound in their queries.
+
+    Parameters
+    ----------
+    cte_clause : Optional[CommonTableExpression]
+        The clause to check
+
+    Returns
+    -------
+    set[TableReference]
+        The "produced" tables
+
+    See Also
+    --------
+    SqlQuery.bound_tables
+    """
+    if cte_clause is None:
+        return set()
+    return util.set_union(
+        {with_query.target_table} | with_query.query.bound_tables()
+        for with_query in cte_clause.queries
+    )
+
+
 def _collect_bound_tables(from_clause: Optional[From]) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
@@ -9114,7 +9143,7 @@ class SqlQuery:
         subquery_produced_tables = util.set_union(
             subquery.bound_tables() for subquery in self.subqueries()
         )
-        cte_produced_tables = self.cte_clause.tables() if self.cte_clause else set()
+        cte_produced_tables = _collect_bound_tables_from_cte(self.cte_clause)
         own_produced_tables = _collect_bound_tables(self.from_clause)
         return own_produced_tables | subquery_produced_tables | cte_produced_tables
 
@@ -9969,7 +9998,11 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        return self._lhs.bound_tables() | self._rhs.bound_tables()
+        return (
+            self._lhs.bound_tables()
+            | self._rhs.bound_tables()
+            | _collect_bound_tables_from_cte(self.cte_clause)
+        )
 
     def unbound_tables(self) -> set[TableReference]:
         """Provides all tables that are referenced in this query but not bound.
@@ -9983,7 +10016,13 @@ class SetQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        return self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        unbound = self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        if not self.cte_clause:
+            return unbound
+        unbound |= util.set_union(
+            with_query.query.unbound_tables() for with_query in self.cte_clause.queries
+        )
+        return unbound - _collect_bound_tables_from_cte(self.cte_clause)
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -10009,7 +10048,7 @@ class SetQuery:
         # we cannot apply the same check as in SqlQuery, since a unbound table in one inner query might be unbound in the other
         # TODO: the above situation would likely lead to an invalid SQL query anyway, so it would be nice to assert that this
         # is not the case during intialization of the SetQuery
-        return self._lhs.is_dependent() or self._rhs.is_dependent()
+        return bool(self.unbound_tables())
 
     def is_scalar(self) -> bool:
         """Checks, whether the query is guaranteed to provide a single scalar value as a result.
-- 
2.43.0


From d571f60dd219e753613423a05a65ecac28644a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:22 +0000
Subject: [PATCH 184/252] fix: aggregates with HAVING or LIMIT count as scalar

---
 postbound/qal/_qal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index dbea682..d3e9bc0 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9204,6 +9204,8 @@ class SqlQuery:
             isinstance(target, FunctionExpression)
             and target.is_aggregate()
             and not self._groupby_clause
+            and not self._having_clause
+            and not self._limit_clause
         )
 
     def is_set_query(self) -> bool:
-- 
2.43.0


From 7c8ef89258fa077fbca089c96c668362bd1d3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 185/252] fix: array operators lose the brackets around
 concatenations

---
 postbound/qal/_qal.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index d3e9bc0..8974c33 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -64,6 +64,14 @@ UnarySqlOperators = frozenset(
 """The `LogicalSqlOperators` that can be used as unary operators."""
 
 
+ArrayOperators = {
+    LogicalOperator.Contains,
+    LogicalOperator.ContainedBy,
+    LogicalOperator.Overlaps,
+}
+"""The (binary) operators that work on arrays."""
+
+
 class CompoundOperator(enum.Enum):
     """The supported compound operators."""
 
@@ -2660,6 +2668,13 @@ class BinaryPredicate(BasePredicate):
     def __str__(self) -> str:
         first_str = _stringify_operand(self.first_argument)
         second_str = _stringify_operand(self.second_argument)
+        if (
+            self.operation in ArrayOperators
+            and isinstance(self.second_argument, MathExpression)
+            and self.second_argument.operator == MathOperator.Concatenate
+        ):
+            # these operators have the same precedence and are left-associative
+            second_str = f"({second_str})"
         return f"{first_str} {self.operation.value} {second_str}"
 
 
-- 
2.43.0


From b11d51a00370e3f6378ac722e0ec2b997ed1c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 186/252] fix: brackets around array accesses are lost

---
 postbound/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 4a14b14..903750e 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1254,6 +1254,12 @@ def _pglast_parse_expression(
 
         case "A_Indirection":
             expression: dict = pglast_data["A_Indirection"]
+            if "A_Indirection" in expression["arg"]:
+                # (a[1:2])[1] is not the same as a[1:2][1]
+                raise ParserError(
+                    "Nested array accesses are currently not supported. "
+                    f"Query: '{query_txt}'"
+                )
             array_expression = _pglast_parse_expression(
                 expression["arg"], namespace=namespace, query_txt=query_txt
             )
-- 
2.43.0


From 198772d6a2095a4cd9b3d29fc5c0be716b088ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 187/252] fix: join depths cannot be determined for join trees
 with joins

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index ace8cbd..36ff016 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -403,7 +403,7 @@ def _traverse_join_tree_depth(
     if current_node.is_scan():
         return _DepthState(1, current_depth.depths | {current_node.base_table: 1})
 
-    if current_node.is_join():
+    if not current_node.is_join():
         raise TypeError("Unknown current node type: " + str(current_node))
 
     inner_child, outer_child = current_node.inner_child, current_node.outer_child
@@ -423,7 +423,7 @@ def _traverse_join_tree_depth(
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
         updated_depth = inner_depth.current_level + 1
         return _DepthState(
-            updated_depth, inner_depth.depths | {outer_child.table: updated_depth}
+            updated_depth, inner_depth.depths | {outer_child.base_table: updated_depth}
         )
     else:
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
-- 
2.43.0


From 0e6b67efaf8ac271bdcd601afd99bc7f5ba6579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 188/252] fix: comparison of query plans matches up the wrong
 children

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 36ff016..8737d93 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -625,7 +625,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
             )
         )
     if left_cost != right_cost and not (
-        math.isnan(left_cost) and math.isnan(left_cost)
+        math.isnan(left_cost) and math.isnan(right_cost)
     ):
         changes.append(
             PlanChangeEntry(
@@ -667,7 +667,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
                 compare_query_plans(left.inner_child, right.inner_child).changes
             )
             changes.extend(
-                compare_query_plans(left.outer_child, right.inner_child).changes
+                compare_query_plans(left.outer_child, right.outer_child).changes
             )
 
     return PlanChangeset(changes)
-- 
2.43.0


From 1c6f6bc4e0de5e508df8af379fce4240ea1083ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 189/252] fix: bottom-up similarity of join trees raises an
 error

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 8737d93..bae4fa1 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -337,8 +337,8 @@ def jointree_similarity_bottomup(a: JoinTree, b: JoinTree) -> float:
     -----
     TODO: add discussion of the algorithm
     """
-    a_subtrees = {join.tables() for join in a.iterjoins()}
-    b_subtrees = {join.tables() for join in b.iterjoins()}
+    a_subtrees = {frozenset(join.tables()) for join in a.iterjoins()}
+    b_subtrees = {frozenset(join.tables()) for join in b.iterjoins()}
     return util.jaccard(a_subtrees, b_subtrees)
 
 
-- 
2.43.0


From 23d5e2546abf750ad056a45245feeb5583ec9191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 190/252] fix: bound on the number of query plans is no upper
 bound

---
 postbound/opt/_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index bae4fa1..2a3198a 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -60,9 +60,10 @@ def possible_plans_bound(
     """
     n_tables = len(query.tables())
 
-    join_orders = util.stats.catalan_number(n_tables)
-    joins = (n_tables - 1) * len(join_operators)
-    scans = n_tables * len(scan_operators)
+    # each arrangement of the tables can be combined with each shape of the join tree
+    join_orders = math.factorial(n_tables) * util.stats.catalan_number(n_tables - 1)
+    joins = len(join_operators) ** (n_tables - 1)
+    scans = len(scan_operators) ** n_tables
 
     return join_orders * joins * scans
 
-- 
2.43.0


From d419e2dd7b3c72f351d16cb1bf7f89938e500b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 191/252] fix: text_diff drops the surplus lines of the longer
 text

---
 postbound/opt/_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 2a3198a..4d6102d 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import collections
+import itertools
 import math
 from collections.abc import Collection
 from dataclasses import dataclass
@@ -118,12 +119,13 @@ def text_diff(left: str, right: str, *, sep: str = " | ") -> str:
     left_lines = left.splitlines()
     right_lines = right.splitlines()
 
-    max_left_len = max(len(line) for line in left_lines)
-    left_lines_padded = [line.ljust(max_left_len) for line in left_lines]
+    max_left_len = max((len(line) for line in left_lines), default=0)
 
     merged_lines = [
-        f"{left_line}{sep}{right_line}"
-        for left_line, right_line in zip(left_lines_padded, right_lines)
+        f"{left_line.ljust(max_left_len)}{sep}{right_line}"
+        for left_line, right_line in itertools.zip_longest(
+            left_lines, right_lines, fillvalue=""
+        )
     ]
     return "\n".join(merged_lines)
 
-- 
2.43.0


From 5ee053fa29036e2ad42805b78f28de09ccfdd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 192/252] fix: actual_plan_cost does not determine the current
 database

---
 postbound/opt/_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 4d6102d..60e123f 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -90,7 +90,11 @@ def actual_plan_cost(
     """
     if not analyze_plan.is_analyze():
         raise ValueError("The provided plan is not an ANALYZE plan")
-    database = database if database is not None else DatabasePool().get_instance()
+    database = (
+        database
+        if database is not None
+        else DatabasePool.get_instance().current_database()
+    )
     hinted_query = database.hinting().generate_hints(
         query, analyze_plan.with_actual_card()
     )
-- 
2.43.0


From bc5a87e8cce0ea1eebf9a38b8bacedecc5f5fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 193/252] fix: star_query_cardinality fails for fact tables
 with a single row

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 60e123f..a898b82 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -199,7 +199,7 @@ def star_query_cardinality(
     if query.predicates().filters_for(fact_table):
         filter_clause = Where(query.predicates().filters_for(fact_table))
         id_vals_query = transform.add_clause(id_vals_query, filter_clause)
-    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query)
+    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query, raw=True)
 
     base_query_fragments: dict[AbstractPredicate, SqlQuery] = {}
     for join_pred in query.predicates().joins_for(fact_table):
-- 
2.43.0


From 866e76916909cab3427cc48ec16cc2c2cfe982f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 194/252] fix: swapped join directions cannot be inspected

---
 postbound/opt/_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index a898b82..312bb41 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -517,8 +517,12 @@ class PlanChangeEntry:
                 right_str = [tab.identifier() for tab in self.right_state]
                 return f"Different subtrees: left={left_str} right={right_str}"
             case "join-direction":
-                left_str = [tab.identifier() for tab in self.left_state]
-                right_str = [tab.identifier() for tab in self.right_state]
+                left_str = [
+                    tab.identifier() for tab in self.left_state.outer_child.tables()
+                ]
+                right_str = [
+                    tab.identifier() for tab in self.right_state.outer_child.tables()
+                ]
                 return f"Swapped join direction: left={left_str} right={right_str}"
             case "physical-op":
                 return f"Different physical operators on node {self.context}: left={self.left_state} right={self.right_state}"
-- 
2.43.0


From 9d54dd3e3315af57b68421a8344c6cb75444637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 195/252] fix: native plan parameters are not returned

---
 postbound/opt/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 4ad539d..3c98929 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -520,7 +520,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
-- 
2.43.0


From 0802470aa9a9e5a3a3271a80222a1755e3f27170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 196/252] fix: costs of materialize and memoize nodes are never
 found

---
 postbound/opt/native.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 3c98929..47a258b 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -249,8 +249,8 @@ class NativeCostModel(CostModel):
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
             lambda node: (
-                node.node_type == IntermediateOperator.Materialize
-                and node.tables == plan.tables()
+                node.operator == IntermediateOperator.Materialize
+                and node.tables() == plan.tables()
             )
         )
         if not intermediate_node:
@@ -357,8 +357,8 @@ class NativeCostModel(CostModel):
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
             lambda node: (
-                node.node_type == IntermediateOperator.Memoize
-                and node.tables == plan.tables()
+                node.operator == IntermediateOperator.Memoize
+                and node.tables() == plan.tables()
             )
         )
         if not intermediate_node:
-- 
2.43.0


From e60b488d139731f80d1867eec3bf674dc57875c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 197/252] fix: native costs of sort nodes cannot be estimated

---
 postbound/opt/native.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 47a258b..ceecd8e 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -46,7 +46,15 @@ from .._stages import (
 )
 from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
-from ..qal import ColumnExpression, GroupBy, Having, Limit, OrderBy, SqlQuery
+from ..qal import (
+    ColumnExpression,
+    GroupBy,
+    Having,
+    Limit,
+    OrderBy,
+    OrderByExpression,
+    SqlQuery,
+)
 from ..util import jsondict
 
 
@@ -392,7 +400,7 @@ class NativeCostModel(CostModel):
             [self.target_db.schema().columns(tab) for tab in plan.tables()]
         )
 
-        orderby_cols: list[ColumnReference] = []
+        orderby_cols: list[OrderByExpression] = []
         for sort_key in plan.sort_keys:
             col = next(
                 (
@@ -400,14 +408,28 @@ class NativeCostModel(CostModel):
                     for col in sort_key.equivalence_class
                     if isinstance(col, ColumnExpression)
                     and col.column in target_columns
+                ),
+                None,
+            )
+            if col is None:
+                return self._costing_failed(
+                    f"Could not find a column for sort key {sort_key}."
                 )
+            orderby_cols.append(
+                OrderByExpression(col, None if sort_key.ascending else False)
             )
-            orderby_cols.append(col)
-        orderby_clause = OrderBy.create_for(orderby_cols)
+        orderby_clause = OrderBy(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
 
         return self.estimate_cost(query_fragment, plan.input_node)
 
+    def _costing_failed(self, msg: str) -> Cost:
+        """Handles situations where the cost of a plan cannot be estimated, according to the settings of the cost model."""
+        if self._raise_on_error:
+            raise DatabaseServerError(msg)
+        self._warn(f"{msg} Returning infinite costs.")
+        return math.inf
+
     def _warn(self, msg: str) -> None:
         if not self._verbose:
             return
-- 
2.43.0


From b573848f672398bb9ed8e8fa339f9590014c32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 198/252] fix: native cost model ignores its error and warning
 settings for intermediate operators

---
 postbound/opt/native.py | 54 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index ceecd8e..2f3fdad 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -209,22 +209,18 @@ class NativeCostModel(CostModel):
         # restrict this cost function to Postgres backends.
 
         if not isinstance(self.target_db, PostgresInterface):
-            warnings.warn(
-                "Can only estimate the cost of materialize operators for Postgres.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                "Can only estimate the cost of materialize operators for Postgres."
             )
-            return math.inf
 
         # Our join partner has to be a table that is not already part of the plan. Based on these tables, we need to determine
         # all tables that have a suitable join condition with the tables that are already part of the plan.
         free_tables = query.tables() - plan.tables()
         candidate_joins = query.predicates().joins_between(free_tables, plan.tables())
         if not candidate_joins:
-            warnings.warn(
-                "Could not find a suitable consumer of the materialized table. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                "Could not find a suitable consumer of the materialized table."
             )
-            return math.inf
         candidate_tables = free_tables & candidate_joins.tables()
 
         # Materialization of the child node should always cost the same, no matter what we join afterwards. Therefore, it does
@@ -248,11 +244,9 @@ class NativeCostModel(CostModel):
         try:
             topped_explain = self.target_db.optimizer().query_plan(topped_query)
         except (DatabaseServerError, DatabaseUserError):
-            warnings.warn(
-                f"Could not estimate the cost of materialize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                f"Could not estimate the cost of materialize plan {plan}."
             )
-            return math.inf
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
@@ -262,11 +256,9 @@ class NativeCostModel(CostModel):
             )
         )
         if not intermediate_node:
-            warnings.warn(
-                f"Could not estimate cost of materialize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                f"Could not estimate cost of materialize plan {plan}."
             )
-            return math.inf
         return intermediate_node.estimated_cost
 
     def _cost_memoize_op(self, query: SqlQuery, plan: QueryPlan) -> Cost:
@@ -303,11 +295,9 @@ class NativeCostModel(CostModel):
         # restrict this cost function to Postgres backends.
 
         if not isinstance(self.target_db, PostgresInterface):
-            warnings.warn(
-                "Can only estimate the cost of memoize operators for Postgres. Returning infinte costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                "Can only estimate the cost of memoize operators for Postgres."
             )
-            return math.inf
 
         cache_key = plan.lookup_key
         if not cache_key:
@@ -315,11 +305,9 @@ class NativeCostModel(CostModel):
                 "Cannot estimate the cost of memoize operators without a lookup key."
             )
         if not isinstance(cache_key, ColumnExpression):
-            warnings.warn(
-                "Can only estimate the cost of memoize for single column cache keys. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                "Can only estimate the cost of memoize for single column cache keys."
             )
-            return math.inf
 
         # Our join partner has to be a table that is not already part of the plan. Based on these tables, we need to determine
         # all tables that have a suitable join condition with our cache key.
@@ -328,11 +316,9 @@ class NativeCostModel(CostModel):
             free_tables, cache_key.column.table
         )
         if not candidate_joins:
-            warnings.warn(
-                "Could not find a suitable consumer of the materialized table. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                "Could not find a suitable consumer of the materialized table."
             )
-            return math.inf
         candidate_tables = free_tables & candidate_joins.tables()
 
         # Memoization of the child node should always cost the same as long as the same cache key to construct the lookup table
@@ -356,11 +342,9 @@ class NativeCostModel(CostModel):
         try:
             topped_explain = self.target_db.optimizer().query_plan(topped_query)
         except (DatabaseServerError, DatabaseUserError):
-            warnings.warn(
-                f"Could not estimate the cost of memoize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                f"Could not estimate the cost of memoize plan {plan}."
             )
-            return math.inf
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
@@ -370,11 +354,9 @@ class NativeCostModel(CostModel):
             )
         )
         if not intermediate_node:
-            warnings.warn(
-                f"Could not estimate cost of memoize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            return self._costing_failed(
+                f"Could not estimate cost of memoize plan {plan}."
             )
-            return math.inf
         return intermediate_node.estimated_cost
 
     def _cost_sort_op(self, query: SqlQuery, plan: QueryPlan) -> Cost:
-- 
2.43.0


From 2a2bf9363a806261b95fc8e927307eeabd52943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 199/252] fix: fetch does not ignore the casing of the native
 presets

---
 postbound/opt/presets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/presets.py b/postbound/opt/presets.py
index 46146c3..23ce41a 100644
--- a/postbound/opt/presets.py
+++ b/postbound/opt/presets.py
@@ -149,7 +149,7 @@ def fetch(
     """
     if key.upper() == "UES":
         return UESOptimizationSettings(database)
-    elif key == "native":
+    elif key.upper() == "NATIVE":
         return NativeOptimizationSettings(database)
     else:
         raise ValueError(f"Unknown presets for key '{key}'")
-- 
2.43.0


From a834a6714b3ec8fa971b295fe320e843e54b2b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 200/252] fix: native presets do not infer the database

---
 postbound/opt/presets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/presets.py b/postbound/opt/presets.py
index 23ce41a..2ebe789 100644
--- a/postbound/opt/presets.py
+++ b/postbound/opt/presets.py
@@ -105,7 +105,9 @@ class NativeOptimizationSettings(OptimizationSettings):
     """
 
     def __init__(self, database: Optional[Database] = None) -> None:
-        self.database = database
+        self.database = (
+            database if database else DatabasePool.get_instance().current_database()
+        )
 
     def build_join_order_optimizer(self) -> Optional[JoinOrderOptimization]:
         return native.NativeJoinOrderOptimizer(self.database)
-- 
2.43.0


From e57cf15b70b03f8a54139ecb2b7f95629d62b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 201/252] fix: configurations mistake PostgresSetting objects
 for setting names

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 88f9cb3..e71057f 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -409,7 +409,7 @@ class PostgresConfiguration(collections.UserString):
         PostgresConfiguration
             The updated configuration. The original config is not modified.
         """
-        if isinstance(setting, str):
+        if isinstance(setting, str) and not isinstance(setting, PostgresSetting):
             setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
@@ -461,10 +461,10 @@ class PostgresConfiguration(collections.UserString):
             The updated configuration. The original config is not modified.
         """
         match setting:
-            case str():
-                setting = PostgresSetting(setting, value)
             case PostgresSetting(name, _):
                 setting = PostgresSetting(name, value)
+            case str():
+                setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
         target_settings[setting.parameter] = setting
-- 
2.43.0


From 63f8748af0905ccae5cae543026370a4c495221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 202/252] fix: item assignment on configurations stores raw
 values instead of settings

---
 postbound/postgres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e71057f..293d1b6 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -497,7 +497,10 @@ class PostgresConfiguration(collections.UserString):
         return super().__getitem__(index)
 
     def __setitem__(self, key: str, value: object) -> None:
-        self._settings[key] = value
+        if not isinstance(value, PostgresSetting):
+            value = PostgresSetting(key, value)
+        # copies of the configuration must not be affected
+        self._settings = {**self._settings, key: value}
         self.data = self._format()
 
 
-- 
2.43.0


From db097dd4ddcfc19a4c1b2df4dc9cfa8290821325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 203/252] fix: PostgresConfiguration.as_dict provides settings
 instead of their values

---
 postbound/postgres.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 293d1b6..d264336 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -479,7 +479,9 @@ class PostgresConfiguration(collections.UserString):
         dict[str, object]
             The settings. Changes to this dictionary will not be reflected in the configuration object.
         """
-        return dict(self._settings)
+        return {
+            parameter: setting.value for parameter, setting in self._settings.items()
+        }
 
     def _format(self) -> str:
         """Provides the string representation of the configuration.
-- 
2.43.0


From 0e49878895dc55f4e17576bf8c47cbd99f243b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 204/252] fix: string operations on configurations fail

---
 postbound/postgres.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index d264336..086b193 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -357,6 +357,15 @@ class PostgresConfiguration(collections.UserString):
             list(args) + [PostgresSetting(key, val) for key, val in kwargs.items()]
         )
 
+    def __new__(cls, settings: Iterable[PostgresSetting] | str = ()):
+        if isinstance(settings, str):
+            # UserString uses the class to wrap the result of all string operations, but these are no longer configurations
+            return collections.UserString(settings)
+        return super().__new__(cls)
+
+    def __getnewargs__(self):
+        return (self.settings,)
+
     def __init__(self, settings: Iterable[PostgresSetting]) -> None:
         self._settings = {setting.parameter: setting for setting in settings}
         super().__init__(self._format())
-- 
2.43.0


From 33b68a15745443b09d685582befa2d8771d4171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 205/252] fix: quotes in the values of settings are not escaped

---
 postbound/postgres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 086b193..95414e7 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -269,7 +269,8 @@ class PostgresSetting(str):
 
     def __new__(cls, parameter: str, value: object):
         value = "on" if value is True else "off" if value is False else value
-        return super().__new__(cls, f"SET {parameter} = '{value}';")
+        escaped = str(value).replace("'", "''")
+        return super().__new__(cls, f"SET {parameter} = '{escaped}';")
 
     __match_args__ = ("parameter", "value")
 
-- 
2.43.0


From 2ab8b022993ff3cd9db9e29e1d2992bcb2fae6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 206/252] fix: autovacuum settings are not monitored

---
 postbound/postgres.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 95414e7..1a30ea2 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -182,20 +182,21 @@ _SignificantPostgresSettings = {
     "jit",
     "join_collapse_limit",
     "plan_cache_mode",
-    "recursive_worktable_factor"
+    "recursive_worktable_factor",
     # Automatic Vacuuming (https://www.postgresql.org/docs/current/runtime-config-autovacuum.html)
     "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
-    "autovacuum_threshold",
-    "autovacuum_insert_threshold",
+    "autovacuum_vacuum_threshold",
+    "autovacuum_vacuum_insert_threshold",
     "autovacuum_analyze_threshold",
-    "autovacuum_scale_factor",
+    "autovacuum_vacuum_scale_factor",
+    "autovacuum_vacuum_insert_scale_factor",
     "autovacuum_analyze_scale_factor",
     "autovacuum_freeze_max_age",
     "autovacuum_multixact_freeze_max_age",
-    "autovacuum_cost_delay",
-    "autovacuum_cost_limit",
+    "autovacuum_vacuum_cost_delay",
+    "autovacuum_vacuum_cost_limit",
 }
 """Postgres settings that are relevant to many PostBOUND workflows.
 
@@ -219,17 +220,19 @@ All settings are up-to-date as of Postgres version 16.
 _RuntimeChangeablePostgresSettings = {
     setting for setting in _SignificantPostgresSettings
 } - {
+    "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
-    "autovacuum_threshold",
-    "autovacuum_insert_threshold",
+    "autovacuum_vacuum_threshold",
+    "autovacuum_vacuum_insert_threshold",
     "autovacuum_analyze_threshold",
-    "autovacuum_scale_factor",
+    "autovacuum_vacuum_scale_factor",
+    "autovacuum_vacuum_insert_scale_factor",
     "autovacuum_analyze_scale_factor",
     "autovacuum_freeze_max_age",
     "autovacuum_multixact_freeze_max_age",
-    "autovacuum_cost_delay",
-    "autovacuum_cost_limit",
+    "autovacuum_vacuum_cost_delay",
+    "autovacuum_vacuum_cost_limit",
     "autovacuum_work_mem",
     "bgwriter_delay",
     "bgwriter_lru_maxpages",
-- 
2.43.0


From a81bae3e71f5b5729b0b25b6d7be6664ddcf9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 207/252] fix: infinite timestamps are not sent as infinity

---
 postbound/postgres.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 1a30ea2..3e64cd9 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -608,13 +608,17 @@ class _PsycopgTimestampLoader(psycopg_datetime.TimestampLoader):
 
 class _PsycopgTimestampTzDumper(psycopg_datetime.DatetimeDumper):
     def dump(self, obj):
-        if obj == datetime.datetime.max:
+        if obj.replace(tzinfo=None) == datetime.datetime.max:
             return b"infinity"
-        elif obj == datetime.datetime.min:
+        elif obj.replace(tzinfo=None) == datetime.datetime.min:
             return b"-infinity"
 
         return super().dump(obj)
 
+    def upgrade(self, obj, format):
+        # values without time zone are handled by a different dumper
+        return self if obj.tzinfo else _PsycopgTimestampDumper(self.cls)
+
 
 class _PsycopgTimestampTzLoader(psycopg_datetime.TimestamptzLoader):
     def load(self, data):
-- 
2.43.0


From 1b1db90795db5018cb15ab0ba3fa903dfa86a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 208/252] fix: connection parameters from config files are not
 quoted

---
 postbound/postgres.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 3e64cd9..53ebf85 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3012,7 +3012,7 @@ def _reconnect(name: str, *, pool: DatabasePool) -> PostgresInterface:
 
 
 def _ini_config_reader(file: TextIO, *, path: Path) -> dict[str, str]:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read_file(file)
     if len(config.sections()) != 1:
         raise ValueError(
@@ -3050,8 +3050,7 @@ def _read_connection_from_file(config_file: Path) -> str:
 
     with open(config_file, mode) as f:
         config_data = reader(f)
-    parts = (f"{param} = '{value}'" for param, value in config_data.items())
-    return " ".join(parts)
+    return psycopg.conninfo.make_conninfo("", **config_data)
 
 
 def connect(
@@ -3176,13 +3175,13 @@ def connect(
             "PGPASSWORD": "password",
             "PGPASSFILE": "passfile",
         }
-        components: list[str] = []
+        components: dict[str, str] = {}
         for var, key in env_vars.items():
             val = os.getenv(var)
             if not val:
                 continue
-            components.append(f"{key} = '{val}'")
-        connect_string = " ".join(components)
+            components[key] = val
+        connect_string = psycopg.conninfo.make_conninfo("", **components)
     else:
         raise ValueError(
             "Failed to obtain a database connection. Please either supply the connect string directly to the "
-- 
2.43.0


From 722a2eca8aefe7382d892ba87ac1293cb4464be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 209/252] fix: cooling down virtual tables fails

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 53ebf85..0a0574d 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1082,7 +1082,7 @@ class PostgresInterface(Database):
         if not tables:
             return
         tables = set(
-            tab.full_name for tab in tables
+            tab.full_name for tab in tables if not tab.virtual
         )  # eliminate duplicates if tables are selected multiple times
 
         table_indexes = (
-- 
2.43.0


From 8b50875b0675cb2528d00c1d084d098573601749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 210/252] fix: is_view confuses equally named tables of
 different schemas

---
 postbound/db/_db.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index bbf86ef..34ac2d2 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -923,8 +923,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if isinstance(table, TableReference) and table.virtual:
             raise VirtualTableError(table)
-        table = table if isinstance(table, str) else table.full_name
+        table = table if isinstance(table, TableReference) else TableReference(table)
         db_name = self._db.database_name()
+        schema_placeholder = (
+            self._prep_placeholder if table.schema else "current_schema()"
+        )
 
         query_template = textwrap.dedent(f"""
             SELECT table_type
@@ -932,9 +935,13 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
                 AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+        params = [db_name, table.full_name]
+        if table.schema:
+            params.append(table.schema)
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
-- 
2.43.0


From 6b70090181a696a15a6720cee79c144085ceb9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 211/252] fix: Postgres reports the tables of the first
 requested schema for all schemas

---
 postbound/postgres.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 0a0574d..81a3148 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1370,13 +1370,14 @@ class PostgresSchemaInterface(DatabaseSchema):
 
     def __init__(self, postgres_db: PostgresInterface) -> None:
         super().__init__(postgres_db)
-        self._tables: set[TableReference] = set()
+        self._tables: dict[tuple[str, bool], set[TableReference]] = {}
 
     def tables(
         self, *, include_system_tables: bool = False, schema: str = "public"
     ) -> set[TableReference]:
-        if self._tables:
-            return self._tables
+        cache_key = (schema, include_system_tables)
+        if self._tables.get(cache_key):
+            return set(self._tables[cache_key])
 
         query_template = textwrap.dedent("""
                                          SELECT table_name
@@ -1389,8 +1390,8 @@ class PostgresSchemaInterface(DatabaseSchema):
         tables = {TableReference(row[0]) for row in result_set}
         if not include_system_tables:
             tables = {tab for tab in tables if not tab.full_name.startswith("pg_")}
-        self._tables = tables
-        return self._tables
+        self._tables[cache_key] = tables
+        return set(tables)
 
     def lookup_column(
         self,
-- 
2.43.0


From d37a8d1fec359c4b7d0d017dd9435174a33a6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 212/252] fix: Postgres indexes on several columns or next to
 the primary key are mistaken for each other

---
 postbound/postgres.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 81a3148..d68b970 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1427,22 +1427,23 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise UnboundColumnError(column)
         if column.table.virtual:
             raise VirtualTableError(column.table)
-        index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        indexes = self._fetch_indexes(column.table)
+        return any(
+            col == column.name and primary_key for col, primary_key, _ in indexes
+        )
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
             raise UnboundColumnError(column)
         if column.table.virtual:
             raise VirtualTableError(column.table)
-        index_map = self._fetch_indexes(column.table)
+        indexes = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        # compound indexes as well as primary key indexes do not count
+        return any(
+            col == column.name and not primary_key and n_columns == 1
+            for col, primary_key, n_columns in indexes
+        )
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -1604,7 +1605,7 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> list[tuple[str, bool, int]]:
         """Retrieves all index structures for a given table based on the PG metadata catalogs.
 
         Parameters
@@ -1614,9 +1615,9 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         Returns
         -------
-        dict
-            Contains a key for each column that has an index. The column keys map to booleans that indicate whether
-            the corresponding index is a primary key index. Columns without any index do not appear in the dictionary.
+        list[tuple[str, bool, int]]
+            Contains an entry for each column of each index. The entry consists of the name of the column, whether the
+            index is a primary key index, and the number of columns in the index.
 
         Raises
         ------
@@ -1629,7 +1630,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         table_name = table.full_name
         schema = table.schema or "public"
         index_query = textwrap.dedent("""
-            SELECT attr.attname, idx.indisprimary
+            SELECT attr.attname, idx.indisprimary, idx.indnatts
             FROM pg_index idx
                 JOIN pg_attribute attr ON idx.indrelid = attr.attrelid AND attr.attnum = ANY(idx.indkey)
                 JOIN pg_class cls ON idx.indrelid = cls.oid
@@ -1642,8 +1643,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        index_map = dict(result_set)
-        return index_map
+        return list(result_set)
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, type(self)) and self._db == other._db
-- 
2.43.0


From 6d7bf93e4a4381c5113a76c097ab313bf3a777a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 213/252] fix: Postgres provides an arbitrary column of
 compound indexes instead of the first one

---
 postbound/postgres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index d68b970..968a2fe 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1491,6 +1491,7 @@ class PostgresSchemaInterface(DatabaseSchema):
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid AND rel.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+            ORDER BY array_position(idx.indkey::int2[], att.attnum)
         """)
 
         self._db.cursor().execute(query_template, (index, schema))
@@ -1507,7 +1508,9 @@ class PostgresSchemaInterface(DatabaseSchema):
             result_set = result_set[:1]
 
         col, tab = result_set[0]
-        return ColumnReference.create(col, table=tab)
+        return BoundColumnReference(
+            col, TableReference(tab, schema=schema if schema != "public" else "")
+        )
 
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not column.table:
-- 
2.43.0


From a1461d18fb850b4be3900cf8858288dc2a5ce6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 214/252] fix: Postgres confuses foreign keys with several
 columns, equal names or targets in other schemas

---
 postbound/postgres.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 968a2fe..41db6d1 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1519,18 +1519,19 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         schema = column.table.schema or "public"
         query_template = textwrap.dedent("""
-            SELECT target.table_name, target.column_name
-            FROM information_schema.key_column_usage AS fk_sources
-                JOIN information_schema.table_constraints AS all_constraints
-                ON fk_sources.constraint_name = all_constraints.constraint_name
-                    AND fk_sources.table_schema = all_constraints.table_schema
-                JOIN information_schema.constraint_column_usage AS target
-                ON fk_sources.constraint_name = target.constraint_name
-                    AND fk_sources.table_schema = target.table_schema
-            WHERE fk_sources.table_name = %s
-                AND fk_sources.column_name = %s
-                AND fk_sources.table_schema = %s
-                AND all_constraints.constraint_type = 'FOREIGN KEY'
+            SELECT target_nsp.nspname, target.relname, target_att.attname
+            FROM pg_constraint con
+                JOIN pg_class rel ON con.conrelid = rel.oid
+                JOIN pg_namespace nsp ON rel.relnamespace = nsp.oid
+                JOIN pg_attribute att ON att.attrelid = rel.oid AND att.attnum = ANY(con.conkey)
+                JOIN pg_class target ON con.confrelid = target.oid
+                JOIN pg_namespace target_nsp ON target.relnamespace = target_nsp.oid
+                JOIN pg_attribute target_att ON target_att.attrelid = target.oid
+                    AND target_att.attnum = con.confkey[array_position(con.conkey, att.attnum)]
+            WHERE rel.relname = %s
+                AND att.attname = %s
+                AND nsp.nspname = %s
+                AND con.contype = 'f'
             """)
 
         self._db.cursor().execute(
@@ -1540,7 +1541,16 @@ class PostgresSchemaInterface(DatabaseSchema):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0])) for row in result_set
+            BoundColumnReference(
+                col,
+                TableReference(
+                    tab,
+                    schema=column.table.schema
+                    if target_schema == schema
+                    else target_schema,
+                ),
+            )
+            for target_schema, tab, col in result_set
         }
 
     def datatype(self, column: ColumnReference) -> str:
-- 
2.43.0


From 3e5c44825fdbf81e5ec9e832e9a28aa9d20c3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 215/252] fix: MySQL connections cannot be created because
 histograms are not implemented

---
 postbound/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 8290836..77915c3 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -70,6 +70,8 @@ from .db import (
     DatabaseStatistics,
     HintService,
     HintWarning,
+    Histogram,
+    HistogramApproximation,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -453,6 +455,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From f35585a54bbc1b0116d453953316824baacf4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 216/252] fix: MySQL catalog lookups confuse equally named
 tables of different databases

---
 postbound/mysql.py | 96 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 29 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 77915c3..9042d7e 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -310,22 +310,23 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise UnboundColumnError(column)
         if column.table.virtual:
             raise VirtualTableError(column.table)
-        index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        indexes = self._fetch_indexes(column.table)
+        return any(
+            col == column.name and primary_key for col, primary_key, _ in indexes
+        )
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
             raise UnboundColumnError(column)
         if column.table.virtual:
             raise VirtualTableError(column.table)
-        index_map = self._fetch_indexes(column.table)
+        indexes = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        # compound indexes as well as primary key indexes do not count
+        return any(
+            col == column.name and not primary_key and n_columns == 1
+            for col, primary_key, n_columns in indexes
+        )
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -334,9 +335,12 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT index_name FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
+        schema = self._schema_of(column.table)
+        self._db.cursor().execute(
+            query_template, (column.table.full_name, column.name, schema)
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return {index[0] for index in result_set}
@@ -347,16 +351,28 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         query_template = (
-            "SELECT referenced_table_name, referenced_column_name "
+            "SELECT referenced_table_schema, referenced_table_name, referenced_column_name "
             "FROM information_schema.key_column_usage "
-            "WHERE table_name = %s AND column_name = %s AND referenced_column_name IS NOT NULL"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s "
+            "AND referenced_column_name IS NOT NULL"
+        )
+        schema = self._schema_of(column.table)
+        self._db.cursor().execute(
+            query_template, (column.table.full_name, column.name, schema)
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return {
-            BoundColumnReference(col, TableReference(table))
-            for table, col in result_set
+            BoundColumnReference(
+                col,
+                TableReference(
+                    table,
+                    schema=column.table.schema
+                    if target_schema == schema
+                    else target_schema,
+                ),
+            )
+            for target_schema, table, col in result_set
         }
 
     def datatype(self, column: ColumnReference) -> str:
@@ -366,9 +382,12 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT column_type FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
+        schema = self._schema_of(column.table)
+        self._db.cursor().execute(
+            query_template, (column.table.full_name, column.name, schema)
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return str(result_set[0])
@@ -380,33 +399,52 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT is_nullable FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
+        schema = self._schema_of(column.table)
+        self._db.cursor().execute(
+            query_template, (column.table.full_name, column.name, schema)
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return result_set[0] == "YES"
 
     def _fetch_columns(self, table: TableReference) -> list[str]:
+        if table.virtual:
+            raise VirtualTableError(table)
         query_template = (
-            "SELECT column_name FROM information_schema.columns WHERE table_name = %s"
+            "SELECT column_name FROM information_schema.columns "
+            "WHERE table_name = %s AND table_schema = %s ORDER BY ordinal_position"
         )
-        self._db.cursor().execute(query_template, (table.full_name,))
+        schema = self._schema_of(table)
+        self._db.cursor().execute(query_template, (table.full_name, schema))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _schema_of(self, table: TableReference) -> str:
+        """MySQL schemas are databases. Unqualified tables are contained in the current database."""
+        return table.schema or self._db.database_name()
+
+    def _fetch_indexes(self, table: TableReference) -> list[tuple[str, bool, int]]:
+        """Provides the column name, whether it is a primary key and the number of columns for each column of each index."""
         index_query = textwrap.dedent("""
-            SELECT column_name, column_key = 'PRI'
-            FROM information_schema.columns
-            WHERE table_name = %s AND column_key <> ''
+            SELECT stats.column_name, stats.index_name = 'PRIMARY', n_columns
+            FROM information_schema.statistics stats
+                JOIN (SELECT index_name, COUNT(*) AS n_columns
+                    FROM information_schema.statistics
+                    WHERE table_name = %s AND table_schema = %s
+                    GROUP BY index_name) idx
+                ON stats.index_name = idx.index_name
+            WHERE stats.table_name = %s AND stats.table_schema = %s
         """)
-        self._db.cursor().execute(index_query, table.full_name)
+        schema = self._schema_of(table)
+        self._db.cursor().execute(
+            index_query, (table.full_name, schema, table.full_name, schema)
+        )
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-        index_map = dict(result_set)
-        return index_map
+        return list(result_set)
 
 
 class MysqlStatisticsInterface(DatabaseStatistics):
-- 
2.43.0


From 3c27ed7397982f6a147a55d0d57ed2030a1ef3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 217/252] fix: MySQL lookups of tables and primary keys use
 catalogs that do not exist

---
 postbound/mysql.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 9042d7e..bbacf0f 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -284,6 +284,45 @@ class MysqlSchemaInterface(DatabaseSchema):
     def __init__(self, mysql_db: MysqlInterface):
         super().__init__(mysql_db)
 
+    def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
+        query_template = (
+            "SELECT table_name FROM information_schema.tables WHERE table_schema = %s"
+        )
+        self._db.cursor().execute(query_template, (self._db.database_name(),))
+        result_set = self._db.cursor().fetchall()
+        assert result_set is not None
+        return {TableReference(row[0]) for row in result_set}
+
+    def columns(self, table: TableReference | str) -> Sequence[BoundColumnReference]:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        return [BoundColumnReference(col, table) for col in self._fetch_columns(table)]
+
+    def is_view(self, table: TableReference | str) -> bool:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
+        query_template = (
+            "SELECT table_type FROM information_schema.tables "
+            "WHERE table_name = %s AND table_schema = %s"
+        )
+        schema = self._schema_of(table)
+        self._db.cursor().execute(query_template, (table.full_name, schema))
+        result_set = self._db.cursor().fetchall()
+        if not result_set:
+            raise ValueError(f"Table '{table}' not found in database '{schema}'")
+        return result_set[0][0] == "VIEW"
+
+    def primary_key_column(
+        self, table: TableReference | str
+    ) -> Optional[BoundColumnReference]:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        pk_columns = [col for col, primary, _ in self._fetch_indexes(table) if primary]
+        if len(pk_columns) > 1:
+            raise ValueError(
+                f"Table {table} has multiple primary key columns: {pk_columns}"
+            )
+        return BoundColumnReference(pk_columns[0], table) if pk_columns else None
+
     def lookup_column(
         self,
         column: ColumnReference | str,
-- 
2.43.0


From d7a3916e534ad635fb429949f325c3fab976ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 218/252] fix: MySQL statistics from the catalogs fail or
 confuse equally named tables

---
 postbound/mysql.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index bbacf0f..d14b66c 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -492,9 +492,11 @@ class MysqlStatisticsInterface(DatabaseStatistics):
 
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         count_query = (
-            "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
+            "SELECT table_rows FROM information_schema.tables "
+            "WHERE table_name = %s AND table_schema = %s"
         )
-        self._db.cursor().execute(count_query, table.full_name)
+        schema = table.schema or self._db.database_name()
+        self._db.cursor().execute(count_query, (table.full_name, schema))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
@@ -505,16 +507,20 @@ class MysqlStatisticsInterface(DatabaseStatistics):
     ) -> Optional[int]:
         stats_query = (
             "SELECT cardinality FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s "
+            "AND seq_in_index = 1"
+        )
+        schema = column.table.schema or self._db.database_name()
+        self._db.cursor().execute(
+            stats_query, (column.table.full_name, column.name, schema)
         )
-        self._db.cursor().execute(stats_query, (column.table.full_name, column.name))
         distinct_vals = self._db.cursor().fetchone()
         if distinct_vals is None and not self.enable_emulation_fallback:
             return distinct_vals
         elif distinct_vals is None:
             return self._calculate_distinct_values(column, cache_enabled=True)
         else:
-            return distinct_vals
+            return distinct_vals[0]
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
-- 
2.43.0


From b166f58531e8a41dceaefa06c716efc93260c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 219/252] fix: foreign keys with several columns or targets in
 other schemas are confused

---
 postbound/db/_db.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 34ac2d2..be37a85 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1231,7 +1231,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             self._prep_placeholder if table.schema else "current_schema()"
         )
         query_template = f"""
-            SELECT ccu.table_schema, ccu.table_name, ccu.column_name
+            SELECT tc.table_schema, target.table_schema, target.table_name, target.column_name
             FROM information_schema.table_constraints tc
                 JOIN information_schema.key_column_usage kcu
                 ON tc.table_name = kcu.table_name
@@ -1240,10 +1240,15 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.constraint_catalog = kcu.constraint_catalog
                     AND tc.constraint_schema = kcu.constraint_schema
                     AND tc.constraint_name = kcu.constraint_name
-                JOIN information_schema.constraint_column_usage ccu
-                ON tc.constraint_catalog = ccu.constraint_catalog
-                    AND tc.constraint_schema = ccu.constraint_schema
-                    AND tc.constraint_name = ccu.constraint_name
+                JOIN information_schema.referential_constraints rc
+                ON tc.constraint_catalog = rc.constraint_catalog
+                    AND tc.constraint_schema = rc.constraint_schema
+                    AND tc.constraint_name = rc.constraint_name
+                JOIN information_schema.key_column_usage target
+                ON rc.unique_constraint_catalog = target.constraint_catalog
+                    AND rc.unique_constraint_schema = target.constraint_schema
+                    AND rc.unique_constraint_name = target.constraint_name
+                    AND kcu.position_in_unique_constraint = target.ordinal_position
             WHERE tc.table_catalog = current_database()
                 AND tc.constraint_type = 'FOREIGN KEY'
                 AND tc.table_schema = {schema_placeholder}
@@ -1260,8 +1265,14 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[2], TableReference(row[1], schema=table.schema))
-            for row in result_set
+            BoundColumnReference(
+                col,
+                TableReference(
+                    tab,
+                    schema=table.schema if target_schema == schema else target_schema,
+                ),
+            )
+            for schema, target_schema, tab, col in result_set
         }
 
     def has_index(self, column: ColumnReference) -> bool:
-- 
2.43.0


From 10db4bb2577fa993e4541981366df8e6d43bf1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 220/252] fix: columns are bound with the catalog of equally
 named tables from other schemas

---
 postbound/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 903750e..abe075a 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -127,7 +127,7 @@ class SchemaCache:
 
     def __init__(self, schema: Optional[DatabaseSchema] = None) -> None:
         self._schema = schema
-        self._lookup_cache: dict[str, tuple[list[str], set[str]]] = {}
+        self._lookup_cache: dict[str | TableReference, tuple[list[str], set[str]]] = {}
 
     def initialize_with(self, schema: Optional[DatabaseSchema]) -> None:
         """Sets the catalog if necessary"""
@@ -188,7 +188,13 @@ class SchemaCache:
         tuple[list[str], set[str]]
             The columns of the table in their defined order, as well as the same columns as a set.
         """
-        table = table.full_name if isinstance(table, TableReference) else table
+        if isinstance(table, TableReference):
+            # equally named tables of different schemas are different tables
+            table = (
+                TableReference(table.full_name, schema=table.schema)
+                if table.schema
+                else table.full_name
+            )
         cached_res = self._lookup_cache.get(table)
         if cached_res:
             return cached_res
-- 
2.43.0


From 348536bef80f13cabf8f077cd0fc1a6fe0156c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:31 +0000
Subject: [PATCH 221/252] fix: results cannot be sorted by several columns

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 24c48ee..ec7fb9b 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1341,6 +1341,11 @@ def sort_results(
     pd.DataFrame
         A reordered data frame. The original data frame is not modified
     """
-    return results_df.sort_values(
-        by=by_column, key=lambda series: np.argsort(natsort.index_natsorted(series))
-    )
+
+    def natural_ranks(series: pd.Series) -> pd.Series:
+        # equal values have to receive the same rank, otherwise all subsequent sort columns would be ignored
+        ranks = {val: i for i, val in enumerate(natsort.natsorted(series.unique()))}
+        return series.map(ranks)
+
+    sort_columns = [by_column] if isinstance(by_column, str) else list(by_column)
+    return results_df.sort_values(by=sort_columns, key=natural_ranks)
-- 
2.43.0


From d6ea8001e9ce377983c9cbe5ad58df624e958bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:25 +0000
Subject: [PATCH 222/252] fix: schema and kind of tables are lost when loading
 nested table sequences

---
 postbound/opt/_helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 0f62394..f603ca8 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -318,8 +318,7 @@ def parse_nested_table_sequence(sequence: list[dict | list]) -> NestedTableSeque
     if isinstance(sequence, list):
         return [parse_nested_table_sequence(item) for item in sequence]
     elif isinstance(sequence, dict):
-        table_name, alias = sequence["full_name"], sequence.get("alias", "")
-        return TableReference(table_name, alias)
+        return parser.load_table_json(sequence)
     else:
         raise TypeError(f"Unknown list element: {sequence}")
 
-- 
2.43.0


From 00264a5a9944f38b00cd7ff8a8f102765afb6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:25 +0000
Subject: [PATCH 223/252] fix: operators that are stored as JSON strings cannot
 be loaded

---
 postbound/opt/_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index f603ca8..65d04cd 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -58,6 +58,9 @@ def read_operator_json(
             return IntermediateOperator(json_data)
         else:
             json_data = json.loads(json_data)
+            if isinstance(json_data, str):
+                # the operator itself was encoded as a JSON string
+                return read_operator_json(json_data)
 
     parallel_workers = json_data.get("parallel_workers", math.nan)
 
-- 
2.43.0


From 668d9c2c74613a72c3920cde2f64efaa9c33dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 224/252] fix: plans and estimates of queries with preparatory
 statements fail on Postgres

---
 postbound/postgres.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 41db6d1..db61158 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2897,7 +2897,6 @@ class PostgresOptimizer(OptimizerInterface):
     def query_plan(self, query: SqlQuery | str) -> QueryPlan:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         raw_query_plan: list = self._pg_instance.execute_query(
@@ -2952,7 +2951,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
@@ -2962,7 +2960,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cost_estimate(self, query: SqlQuery | str) -> float:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
-- 
2.43.0


From bd5f97a720e64ae3890d3763291c052a69a5f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 225/252] fix: operators of Postgres cannot be switched on or
 off

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index db61158..b896c1a 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2986,7 +2986,7 @@ class PostgresOptimizer(OptimizerInterface):
                 f"Cannot configure operator {operator} as it is not supported by Postgres"
             )
         status = "on" if enabled else "off"
-        self._pg_instance.cursor.execute(f"SET {setting_name} TO {status}")  # type: ignore
+        self._pg_instance.cursor().execute(f"SET {setting_name} TO {status}")  # type: ignore
 
     def uses_geqo(self, query: SqlQuery) -> bool:
         pass
-- 
2.43.0


From 67e8cf4a2b3a8c2c19f1f7e6ff66b46a2024592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 226/252] fix: hinted queries are not executed in the MySQL
 dialect

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index d14b66c..e263432 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -270,7 +270,7 @@ class MysqlInterface(Database):
         if query.hints and query.hints.preparatory_statements:
             self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
-        return str(query)
+        return self.hinting().format_query(query)
 
     def _obtain_query_plan(self, query: str) -> dict:
         if not query.startswith("EXPLAIN FORMAT = JSON"):
-- 
2.43.0


From 4aa8ee7730b09b55a9d7a27de6fda9630c083523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 227/252] fix: MySQL sessions are not usable after a reset

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index e263432..f06218c 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -244,7 +244,7 @@ class MysqlInterface(Database):
     def reset_connection(self) -> None:
         self._cur.close()
         self._cnx.cmd_reset_connection()
-        self._cur = self._cnx.cursor()
+        self._cur = self._cnx.cursor(buffered=True)
 
     def cursor(self) -> Cursor:
         return self._cur
-- 
2.43.0


From 92a38b352a2cd1aaf90fe4671f125206b4dafceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 228/252] fix: MySQL connection details from files are rejected
 or misinterpreted

---
 postbound/mysql.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index f06218c..8a7b42e 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -845,7 +845,7 @@ class MysqlOptimizer(OptimizerInterface):
 
 
 def _parse_mysql_connection(config_file: str) -> MysqlConnectionArguments:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_file)
     if "MYSQL" not in config:
         raise ValueError("Malformed MySQL config file: no [MYSQL] section found.")
@@ -871,7 +871,14 @@ def _parse_mysql_connection(config_file: str) -> MysqlConnectionArguments:
     ]:
         if key not in mysql_config:
             continue
-        optional_settings[util.camel_case2snake_case(key)] = mysql_config[key]
+        if key == "AutoCommit":
+            optional_settings["autocommit"] = mysql_config.getboolean(key)
+        elif key == "UseUnicode":
+            optional_settings["use_unicode"] = mysql_config.getboolean(key)
+        elif key == "Port":
+            optional_settings["port"] = mysql_config.getint(key)
+        else:
+            optional_settings[util.camel_case2snake_case(key)] = mysql_config[key]
     return MysqlConnectionArguments(user, database, **optional_settings)
 
 
-- 
2.43.0


From b5f09604eaf60de235ab7e4bc5cb4b5032db18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 229/252] fix: derived table references lose their schema

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 55e9718..b341796 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -834,7 +834,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -854,7 +856,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From c38539a98d00cdba4a8df7e27c552e03c6397600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 230/252] fix: different tables with the same identifier are
 not ordered

---
 postbound/_core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index b341796..a667bba 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -875,7 +875,17 @@ class TableReference:
     def __lt__(self, other: object) -> bool:
         if not isinstance(other, TableReference):
             return NotImplemented
-        return self._normalized_identifier < other._normalized_identifier
+        return (
+            self._normalized_identifier,
+            self._normalized_full_name,
+            self._normalized_alias,
+            self._normalized_schema,
+        ) < (
+            other._normalized_identifier,
+            other._normalized_full_name,
+            other._normalized_alias,
+            other._normalized_schema,
+        )
 
     def __hash__(self) -> int:
         return self._hash_val
-- 
2.43.0


From d653e084f8e544d1a9c9a3ca83666238d1ca5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 231/252] fix: identifiers that contain quotes are not escaped

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index a667bba..a28b075 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -576,7 +576,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped_identifier = identifier.replace('"', '""')
+    return f'"{escaped_identifier}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From 95dde3a043400c61c667f72e1c5f89d0011a0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 232/252] fix: query plans cannot be unpickled

---
 postbound/_qep.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 449100b..2465615 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -219,6 +219,12 @@ class PlanParams:
         Additional metadata that should be attached to the plan parameters.
     """
 
+    def __new__(cls, *args, **kwargs) -> PlanParams:
+        # attribute access requires the parameters, even if an instance has not been initialized (yet), e.g. when unpickling
+        instance = super().__new__(cls)
+        object.__setattr__(instance, "_params", {})
+        return instance
+
     def __init__(
         self,
         *,
@@ -443,6 +449,12 @@ class PlanEstimates:
     worker execution time or some other measure.
     """
 
+    def __new__(cls, *args, **kwargs) -> PlanEstimates:
+        # attribute access requires the parameters, even if an instance has not been initialized (yet), e.g. when unpickling
+        instance = super().__new__(cls)
+        object.__setattr__(instance, "_params", {})
+        return instance
+
     def __init__(
         self,
         *,
@@ -589,6 +601,12 @@ class PlanMeasures:
     worker execution time or some other measure.
     """
 
+    def __new__(cls, *args, **kwargs) -> PlanMeasures:
+        # attribute access requires the parameters, even if an instance has not been initialized (yet), e.g. when unpickling
+        instance = super().__new__(cls)
+        object.__setattr__(instance, "_params", {})
+        return instance
+
     def __init__(
         self,
         *,
-- 
2.43.0


From 0adc51f7ec618d8b9622229e1c03307ffeb8809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 233/252] fix: some reserved keywords are used as identifiers
 without quotes

---
 postbound/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index a28b075..4f4c821 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -458,6 +458,8 @@ References
 SqlKeywords = frozenset(
     {
         "ALL",
+        "ANALYSE",
+        "ANALYZE",
         "AND",
         "ANY",
         "ARRAY",
@@ -465,13 +467,16 @@ SqlKeywords = frozenset(
         "ASC",
         "ASYMMETRIC",
         "AT",
+        "AUTHORIZATION",
         "BINARY",
         "BOTH",
         "CASE",
         "CAST",
         "CHECK",
         "COLLATE",
+        "COLLATION",
         "COLUMN",
+        "CONCURRENTLY",
         "CONSTRAINT",
         "CREATE",
         "CROSS",
@@ -494,6 +499,7 @@ SqlKeywords = frozenset(
         "FETCH",
         "FOR",
         "FOREIGN",
+        "FREEZE",
         "FROM",
         "FULL",
         "GRANT",
@@ -506,6 +512,7 @@ SqlKeywords = frozenset(
         "INTERSECT",
         "INTO",
         "IS",
+        "ISNULL",
         "JOIN",
         "LATERAL",
         "LEADING",
@@ -516,6 +523,7 @@ SqlKeywords = frozenset(
         "LOCALTIMESTAMP",
         "NATURAL",
         "NOT",
+        "NOTNULL",
         "NULL",
         "OFFSET",
         "ON",
@@ -534,7 +542,9 @@ SqlKeywords = frozenset(
         "SIMILAR",
         "SOME",
         "SYMMETRIC",
+        "SYSTEM_USER",
         "TABLE",
+        "TABLESAMPLE",
         "THEN",
         "TO",
         "TRAILING",
-- 
2.43.0


From a0bb27159ba35973f959581dc409a1f184cee68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 234/252] fix: visitors of set operations do not receive the
 algebra node

---
 postbound/relalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 38cc647..3baf478 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -735,7 +735,7 @@ class Union(RelNode):
         return common if common else left_expressions
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_union(visitor)
+        return visitor.visit_union(self)
 
     def mutate(
         self,
@@ -849,7 +849,7 @@ class Intersection(RelNode):
         return self._left_input.provided_expressions()
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_intersection(visitor)
+        return visitor.visit_intersection(self)
 
     def mutate(
         self,
@@ -964,7 +964,7 @@ class Difference(RelNode):
         return self._left_input.provided_expressions()
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_difference(visitor)
+        return visitor.visit_difference(self)
 
     def mutate(
         self,
-- 
2.43.0


From 412e688498c322b596ee79a23a265368fd0c2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 235/252] fix: additional arguments are not passed to some
 visitors

---
 postbound/qal/_qal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 8974c33..3996093 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -787,7 +787,7 @@ class ColumnExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_column_expr(self)
+        return visitor.visit_column_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -1446,7 +1446,7 @@ class WindowExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_window_expr(self)
+        return visitor.visit_window_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -5345,7 +5345,7 @@ class Explain(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_explain_clause(self)
+        return visitor.visit_explain_clause(self, *args, **kwargs)
 
     __hash__ = BaseClause.__hash__
 
@@ -7633,7 +7633,7 @@ class OrderBy(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_orderby_clause(self)
+        return visitor.visit_orderby_clause(self, *args, **kwargs)
 
     def __len__(self) -> int:
         return len(self._expressions)
-- 
2.43.0


From 766adc5bb4e5b6f17d81997c32245015dfd71986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 236/252] fix: syntax trees of queries are incomplete or cannot
 be created

---
 postbound/qal/_qal.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3996093..cee4ac4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8489,7 +8489,8 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
             return f"{prefix}+-{item_str} [{item.quantifier.value}]\n{child}"
         case FunctionExpression():
             arguments = [
-                _create_ast(arg, indentation=indentation + 2) for arg in item.arguments
+                _create_ast(arg, indentation=indentation + 2)
+                for arg in item.iterchildren()
             ]
             argument_str = "\n".join(arguments)
             item_str = f"{item_str} [{item.function}]"
@@ -8508,14 +8509,21 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
 
         # Clauses
         case Where() | Having():
-            predicate_str = _create_ast(item.predicate, indentation=indentation + 2)
+            predicate = item.predicate if isinstance(item, Where) else item.condition
+            predicate_str = _create_ast(predicate, indentation=indentation + 2)
             return f"{prefix}+-{item_str}\n{predicate_str}"
         case DirectTableSource():
             return f"{prefix}+-{item_str} [{item.table}]"
         case JoinTableSource():
             left_str = _create_ast(item.left, indentation=indentation + 2)
             right_str = _create_ast(item.right, indentation=indentation + 2)
-            return f"{prefix}+-{item_str}\n{left_str}\n{right_str}"
+            join_str = f"{prefix}+-{item_str}\n{left_str}\n{right_str}"
+            if item.join_condition is None:
+                return join_str
+            condition_str = _create_ast(
+                item.join_condition, indentation=indentation + 2
+            )
+            return f"{join_str}\n{condition_str}"
         case SubqueryTableSource():
             subquery_str = _create_ast(item.query, indentation=indentation + 2)
             if item.target_name:
@@ -8523,6 +8531,9 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
             return f"{prefix}+-{item_str}\n{subquery_str}"
         case ValuesTableSource():
             return f"{prefix}+-{item_str}"
+        case FunctionTableSource():
+            function_str = _create_ast(item.function, indentation=indentation + 2)
+            return f"{prefix}+-{item_str}\n{function_str}"
         case From():
             tables = [_create_ast(t, indentation=indentation + 2) for t in item.items]
             table_str = "\n".join(tables)
@@ -8545,12 +8556,16 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
             item_str = f"{item_str} [{item.target_name}]"
             return f"{prefix}+-{item_str}\n{child_expression}"
         case SetQuery():
-            subqueries = [
-                _create_ast(q, indentation=indentation + 2)
-                for q in (item.left_query, item.right_query)
-            ]
-            subquery_str = "\n".join(subqueries)
-            return f"{prefix}+-{item_str}\n{subquery_str}"
+            components: list[SqlQuery | SetQuery | BaseClause] = []
+            for clause in item.clauses():
+                if isinstance(clause, (UnionClause, ExceptClause, IntersectClause)):
+                    components.extend((item.left_query, item.right_query))
+                else:
+                    components.append(clause)
+            component_str = "\n".join(
+                _create_ast(c, indentation=indentation + 2) for c in components
+            )
+            return f"{prefix}+-{item_str}\n{component_str}"
         case SqlQuery():
             clauses = [
                 _create_ast(c, indentation=indentation + 2) for c in item.clauses()
-- 
2.43.0


From 95893f56231f79b5ffbddcead25d5509a5626f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 237/252] fix: views of plans with subplans are incomplete

---
 postbound/_qep.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 2465615..23e8308 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -2085,7 +2085,11 @@ def _explainify(
         else ""
     )
     if subplan_explains:
-        child_explains = f"{child_explains}\n{subplan_explains}"
+        child_explains = (
+            f"{child_explains}\n{subplan_explains}"
+            if child_explains
+            else subplan_explains
+        )
 
     if not child_explains:
         return f"{prefix}{header}\n{explain_data}"
@@ -2100,7 +2104,10 @@ def _astify(plan: QueryPlan, *, indentation: int = _starting_indentation) -> str
         item_str = f"{prefix}{plan.node_type}({plan.base_table})"
     else:
         item_str = f"{prefix}{plan.node_type}"
+    child_nodes = list(plan.children)
+    if plan.subplan:
+        child_nodes.append(plan.subplan.root)
     child_str = "\n".join(
-        _astify(child, indentation=indentation + 2) for child in plan.children
+        _astify(child, indentation=indentation + 2) for child in child_nodes
     )
     return f"{item_str}\n{child_str}" if child_str else item_str
-- 
2.43.0


From 3fd8493d9cdda842c3cd55a5c292adc724d8e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 238/252] fix: names of settings are not quoted

---
 postbound/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index abe075a..d8800e4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2442,7 +2442,8 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         var_value = _pglast_parse_const(var_args[0]["A_Const"]).value
         escaped_value = str(var_value).replace("'", "''")
 
-        parsed_stmt = f"SET {var_name} TO '{escaped_value}';"
+        quoted_name = ".".join(quote(part) for part in var_name.split("."))
+        parsed_stmt = f"SET {quoted_name} TO '{escaped_value}';"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
-- 
2.43.0


From 46b07ecb9762023a3dd0b76c3749631f8e2b702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 239/252] fix: working directory is not restored if a command
 fails to execute

---
 postbound/util/proc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index d88e560..32ee658 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -101,7 +101,9 @@ def run_cmd(
     invocation = [cmd] + [str(arg) for arg in args]
 
     os.chdir(work_dir)
-    res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
-    os.chdir(current_dir)
+    try:
+        res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
+    finally:
+        os.chdir(current_dir)
 
     return ProcResult(res.stdout, res.stderr, res.returncode)
-- 
2.43.0


From e5362584d9fb3662e70d06f520e5da7288a1b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 240/252] fix: commands can only be passed as lists

---
 postbound/util/proc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index 32ee658..7ce884b 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -97,7 +97,8 @@ def run_cmd(
     current_dir = os.getcwd()
 
     if isinstance(cmd, Iterable) and not isinstance(cmd, str):
-        cmd, args = str(cmd[0]), cmd[1:] + list(args)
+        cmd, *cmd_args = cmd
+        cmd, args = str(cmd), cmd_args + list(args)
     invocation = [cmd] + [str(arg) for arg in args]
 
     os.chdir(work_dir)
-- 
2.43.0


From 0af32f807228e4485d70a2aa38cdd24b614d33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 241/252] fix: pretty loggers drop the prefix and do not accept
 multiple arguments

---
 postbound/util/logging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/util/logging.py b/postbound/util/logging.py
index f9d4e87..877c9a6 100644
--- a/postbound/util/logging.py
+++ b/postbound/util/logging.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import atexit
-import functools
 import inspect
 import pprint
 import sys
@@ -69,11 +68,17 @@ def make_logger(
             args = [prefix()] + list(args)
         print(*args, file=file, **kwargs)
 
+    def _pretty_log(*args, **kwargs) -> None:
+        if prefix:
+            print(prefix if isinstance(prefix, str) else prefix(), file=file)
+        for arg in args:
+            pprint.pprint(arg, stream=file, **kwargs)
+
     def _dummy_log(*args, **kwargs) -> None:
         pass
 
     if pretty and enabled:
-        return functools.partial(pprint.pprint, stream=file)
+        return _pretty_log
 
     return _log if enabled else _dummy_log
 
-- 
2.43.0


From b6bf7a507c945e172745fdf93b0e691b9aea70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 242/252] fix: texts are altered when written next to missing
 values

---
 postbound/util/_df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 85b8b52..5f17534 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -53,7 +53,7 @@ def write_df(
     for col in df.columns:
         if df[col].dtype != "object":
             continue
-        if all(t is str for t in df[col].map(type)):
+        if all(t is str for t in df[col].dropna().map(type)):
             continue
         df[col] = df[col].map(to_json)
 
-- 
2.43.0


From c133b577deb6718a190c50c5100069a260165f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 243/252] fix: printing with flush fails while the output is
 recorded

---
 postbound/util/logging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/util/logging.py b/postbound/util/logging.py
index 877c9a6..74462ba 100644
--- a/postbound/util/logging.py
+++ b/postbound/util/logging.py
@@ -134,6 +134,10 @@ class _TeeLogger:
         self._original_stdout.write(message)
         self._log_out.write(message)
 
+    def flush(self) -> None:
+        self._original_stdout.flush()
+        self._log_out.flush()
+
 
 def tee_stdout(target_file: str, output_mode: str = "a") -> None:
     sys.stdout = _TeeLogger(target_file, output_mode)
-- 
2.43.0


From 5ff2fc916f27ea2519406649baede728448c60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 244/252] fix: join graphs of queries cannot be plotted

---
 postbound/vis/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/vis/optimizer.py b/postbound/vis/optimizer.py
index 4783c00..1296719 100644
--- a/postbound/vis/optimizer.py
+++ b/postbound/vis/optimizer.py
@@ -87,7 +87,7 @@ def _plot_join_graph_from_query(
     if not query.predicates():
         return gv.Graph()
     join_graph: nx.Graph = query.predicates().join_graph()
-    gv_graph = gv.Digraph() if include_pk_fk_joins else gv.Graph
+    gv_graph = gv.Digraph() if include_pk_fk_joins else gv.Graph()
     for table in join_graph.nodes:
         node_label = str(table)
         node_label += (
-- 
2.43.0


From cafb76ee91ee4851e933027d23a4cfac5a3bfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 245/252] fix: equal operators of a plan are merged in its plot

---
 postbound/vis/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/vis/optimizer.py b/postbound/vis/optimizer.py
index 1296719..6cdbee6 100644
--- a/postbound/vis/optimizer.py
+++ b/postbound/vis/optimizer.py
@@ -407,6 +407,8 @@ def plot_query_plan(
     """
     if not plan:
         return gv.Graph()
+    # different operators can be equal, e.g. if the same table is scanned twice
+    kwargs.setdefault("node_id_generator", id)
     return trees.plot_tree(
         plan,
         functools.partial(
@@ -436,6 +438,7 @@ def plot_analyze_plan(
     """
     if not plan:
         return gv.Graph()
+    kwargs.setdefault("node_id_generator", id)
     return trees.plot_tree(
         plan,
         functools.partial(
-- 
2.43.0


From 41efeaf2098fc782ef3089294a8dde0bb9ffa5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 246/252] fix: operators with subplans are plotted as the root
 of the subplan

---
 postbound/vis/optimizer.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/postbound/vis/optimizer.py b/postbound/vis/optimizer.py
index 6cdbee6..2637255 100644
--- a/postbound/vis/optimizer.py
+++ b/postbound/vis/optimizer.py
@@ -328,17 +328,8 @@ def _query_plan_labels(
     node: QueryPlan,
     *,
     annotation_generator: Optional[Callable[[QueryPlan], str]],
-    subplan_target: str = "",
 ) -> tuple[str, dict]:
-    if node.subplan:
-        label, params = _query_plan_labels(
-            node.subplan.root,
-            annotation_generator=annotation_generator,
-            subplan_target=node.subplan.target_name,
-        )
-        label = f"<<SubPlan>> {subplan_target}\n{label}"
-        params["style"] = "dashed"
-    elif node.is_join():
+    if node.is_join():
         label, params = node.node_type, {"style": "bold"}
     elif node.is_scan():
         label, params = f"<<{node.node_type}>>\n{node.base_table}", {"color": "grey"}
-- 
2.43.0


From 1c9d03d45b8f3789498015890de50bf0d8704d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 247/252] fix: labels of algebra nodes are not valid if they
 contain ampersands

---
 postbound/vis/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/vis/optimizer.py b/postbound/vis/optimizer.py
index 2637255..48b31b6 100644
--- a/postbound/vis/optimizer.py
+++ b/postbound/vis/optimizer.py
@@ -441,7 +441,7 @@ def plot_analyze_plan(
 
 
 def _escape_label(text: str) -> str:
-    return text.replace("<", "&lt;").replace(">", "&gt;")
+    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
 
 
 def _make_sub(text: str) -> str:
-- 
2.43.0


From 30cd5c588962fc5ae328f5a710ecd651d0e7d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 248/252] fix: plotting a QEP synopsis modifies it

---
 postbound/vis/tonic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/vis/tonic.py b/postbound/vis/tonic.py
index f674316..46fac89 100644
--- a/postbound/vis/tonic.py
+++ b/postbound/vis/tonic.py
@@ -51,13 +51,14 @@ def plot_tonic_qeps(
         _current_graph.node(_current_node, style="dotted")
         qeps = qeps.root
 
-    if qeps.subquery_root:
-        _render_subquery_path(qeps.subquery_root, _current_node, _current_graph)
+    # the subquery_root property would create a missing subquery
+    if qeps._subquery_root:
+        _render_subquery_path(qeps._subquery_root, _current_node, _current_graph)
 
     for identifier, qeps_child in qeps.child_nodes.items():
         child_node = _make_node_label(identifier, qeps_child)
         node_identifier = _unique_node_identifier(identifier)
-        if qeps_child.subquery_root:
+        if qeps_child._subquery_root:
             _current_graph.node(node_identifier, label=child_node, style="dashed")
         else:
             _current_graph.node(node_identifier, label=child_node)
-- 
2.43.0


From ae101773db186b30308d920750b80d2d9d9fc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 249/252] fix: random numbers cannot be seeded after plotting

---
 postbound/vis/fdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/vis/fdl.py b/postbound/vis/fdl.py
index 9c8d7ca..4f9b47f 100644
--- a/postbound/vis/fdl.py
+++ b/postbound/vis/fdl.py
@@ -14,7 +14,7 @@ T = typing.TypeVar("T", bound=Hashable)
 Debug = True
 
 if Debug:
-    random.seed = 321
+    random.seed(321)
     np.random.seed(321)
 
 
-- 
2.43.0


From 19e805000f91c3495e08c3ef089c86d58de9182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 250/252] fix: grids with a single row or column cannot be
 plotted

---
 postbound/vis/plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/vis/plots.py b/postbound/vis/plots.py
index bfa62b7..b793e16 100644
--- a/postbound/vis/plots.py
+++ b/postbound/vis/plots.py
@@ -24,12 +24,15 @@ def make_grid_plot(
     labels = data[label_col].unique()
     nrows = math.ceil(len(labels) / ncols)
     fig, ax = plt.subplots(
-        ncols=ncols, nrows=nrows, figsize=(ncols * base_widht, nrows * base_height)
+        ncols=ncols,
+        nrows=nrows,
+        figsize=(ncols * base_widht, nrows * base_height),
+        squeeze=False,
     )
     current_col, current_row = 0, 0
 
     for label in labels:  # label is accessed using @ syntax
-        current_ax = ax[current_row][current_col] if nrows > 1 else ax[current_col]
+        current_ax = ax[current_row][current_col]
         current_samples = data.query(f"{label_col} == @label")
 
         plot_func(label, current_samples, current_ax)
@@ -41,7 +44,7 @@ def make_grid_plot(
     for extra_col in extra_rows:
         ax[current_row][ncols - extra_col - 1].axis("off")
 
-    return fig, ax
+    return fig, ax.squeeze() if ax.size > 1 else ax.item()
 
 
 def make_facetted_grid_plot(
-- 
2.43.0


From 21c969e59fc9fb25401430d633713f03a58d02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 251/252] fix: refreshed DuckDB connections replace the
 registered connection in the database pool

connect() promises to suffix the registration key to prevent collisions, as the Postgres connector does.
---
 postbound/duckdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 043b0d4..e00c28b 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -1011,6 +1011,11 @@ def connect(
     duckdb_instance = DuckDBInterface(db)
 
     if not private:
+        orig_name = name
+        instance_idx = 2
+        while name in db_pool:
+            name = f"{orig_name} - {instance_idx}"
+            instance_idx += 1
         db_pool.register_database(name, duckdb_instance)
 
     return duckdb_instance
-- 
2.43.0


From fdc47e31b5c078800b04756b47835a30fa4023ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:22 +0000
Subject: [PATCH 252/252] fix: results of external processes cannot be copied
 or pickled

---
 postbound/util/proc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index 7ce884b..77535dc 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -36,6 +36,9 @@ class ProcResult(str):
     def __new__(cls, out_data: str, err_data: str, exit_code: int):
         return str.__new__(cls, out_data)
 
+    def __getnewargs__(self) -> tuple[str, str, int]:
+        return self.out_data, self.err_data, self.exit_code
+
     def echo(self) -> None:
         """Provides the contents of stdout and stderr in a format for debugging by humans."""
         print("stdout:")
-- 
2.43.0

