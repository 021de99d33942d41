From b2f6830369a6b852420d5231993529ba02cb96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 001/248] fix: floor division of cardinalities must not round
 the quotient first

Cardinality(7) // 2 evaluated the true division first, whose result is already
rounded to the nearest cardinality (4).
---
 postbound/_core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..e1bbbfa 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -232,11 +232,17 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        if isinstance(other, Cardinality):
+            return Cardinality(self.get() // other.get())
+        if isinstance(other, (int, float)):
+            return Cardinality(self.get() // other)
+        return NotImplemented
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> Cardinality:
+        if isinstance(other, (int, float)):
+            return Cardinality(other // self.get())
+        return NotImplemented
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
-- 
2.43.0


From 17ac1071b92d680bdc81079002b71a279f051a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 002/248] fix: cardinality comparisons and hashes must agree
 with the numbers they wrap

Comparing a valid with an infinite or unknown cardinality raised a StateError, > and >= were
wrong for infinite operands, and cardinalities hashed differently than the equal plain numbers.
---
 postbound/_core.py | 64 ++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index e1bbbfa..9f1985f 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -279,73 +279,49 @@ class Cardinality(Number):
         return Cardinality(float(other) % self.value)
 
     def __lt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value < otherval
+            case Cardinality():
+                return self._number() < other._number()
 
             case int() | float():
-                return self.value < other
+                return self._number() < other
 
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value <= otherval
+            case Cardinality():
+                return self._number() <= other._number()
 
             case int() | float():
-                return self.value <= other
+                return self._number() <= other
 
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value > otherval
+            case Cardinality():
+                return self._number() > other._number()
 
             case int() | float():
-                return self.value > other
+                return self._number() > other
 
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value >= otherval
+            case Cardinality():
+                return self._number() >= other._number()
 
             case int() | float():
-                return self.value >= other
+                return self._number() >= other
 
         return NotImplemented
 
+    def _number(self) -> int | float:
+        # the raw value for comparisons, never truncated to a float for valid cardinalities
+        return self.value if self._valid else float(self)
+
     def __float__(self) -> float:
         if self._nan:
             return math.nan
@@ -372,9 +348,7 @@ class Cardinality(Number):
             case Cardinality():
                 if self._nan and other._nan:
                     return True
-                if self._inf and other._inf:
-                    return True
-                return self.value == other.value
+                return self._number() == other._number()
 
             case int():
                 return self._valid and self.value == other
@@ -389,8 +363,8 @@ class Cardinality(Number):
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # cardinalities compare equal to plain numbers, hence they need to share their hash values
+        return hash("NaN") if self._nan else hash(self._number())
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 762fab43332b09d44f0f2c0cfcb4d17f2fc5c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 003/248] fix: parse comparisons with ANY/ALL subqueries

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..d8d981d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1131,11 +1131,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From c6b7c4c8bd0d6ee1ee4da7f3ab4f91b739725607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 004/248] fix: parse LIMIT 0 and LIMIT ALL

---
 postbound/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index d8d981d..21aac2e 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1867,9 +1867,14 @@ def _pglast_parse_limit(
         return None
 
     if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
+        # for LIMIT ALL there is no ival, but instead an "isnull" member that is set to true
+        # for LIMIT 0 there is an ival, but it does not contain a second ival
+        limit_const: dict = raw_limit["A_Const"]
+        nrows: int | None = (
+            None
+            if limit_const.get("isnull", False)
+            else limit_const["ival"].get("ival", 0)
+        )
     else:
         nrows = None
     if raw_offset is not None:
-- 
2.43.0


From 96aa80bd58aae65d801bac2015c8cccf4ee1a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 005/248] fix: parse SET commands with numeric values

---
 postbound/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 21aac2e..a408e9b 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2130,7 +2130,10 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
         var_name = var_set_stmt["name"]
-        var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
+        if len(var_set_stmt["args"]) != 1 or "A_Const" not in var_set_stmt["args"][0]:
+            raise ParserError(f"Unknown variable set value: {var_set_stmt}")
+        var_const = _pglast_parse_const(var_set_stmt["args"][0]["A_Const"])
+        var_value = str(var_const.value).replace("'", "''")
 
         parsed_stmt = f"SET {var_name} TO '{var_value}';"
         prep_stmts.append(parsed_stmt)
-- 
2.43.0


From 4d5147955c1557c2013c8c817f1de4917f010abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 006/248] fix: parse empty string literals

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index a408e9b..20a202c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -666,7 +666,7 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val = pglast_data["fval"]["fval"]
             return StaticValueExpression(float(val))
         case "sval":
-            return StaticValueExpression(pglast_data["sval"]["sval"])
+            return StaticValueExpression(pglast_data["sval"].get("sval", ""))
         case "boolval":
             val = pglast_data["boolval"].get("boolval", False)
             return StaticValueExpression(val)
-- 
2.43.0


From 32e847d3ef46b02878c4f555911aba7a7780f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 007/248] fix: natural joins are no cross joins

---
 postbound/parser.py   | 15 +++++++++++++--
 postbound/qal/_qal.py |  4 ++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 20a202c..4ff70a8 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -96,6 +96,7 @@ from .qal import (
     WithQuery,
     build_query,
 )
+from .qal._qal import AutoJoins
 
 auto_bind_columns: bool = True
 """Indicates whether the parser should use the database catalog to obtain column bindings."""
@@ -1474,6 +1475,16 @@ def _pglast_parse_from_entry(
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
             match join_expr["jointype"]:
+                case "JOIN_INNER" if join_expr.get("isNatural", False):
+                    join_type = JoinType.NaturalInnerJoin
+                case "JOIN_LEFT" if join_expr.get("isNatural", False):
+                    join_type = JoinType.NaturalLeftJoin
+                case "JOIN_RIGHT" if join_expr.get("isNatural", False):
+                    join_type = JoinType.NaturalRightJoin
+                case "JOIN_FULL" if join_expr.get("isNatural", False):
+                    join_type = JoinType.NaturalOuterJoin
+                case _ if "usingClause" in join_expr:
+                    raise ParserError("JOIN ... USING is not yet supported")
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
                 case "JOIN_INNER" if "quals" not in join_expr:
@@ -1495,8 +1506,8 @@ def _pglast_parse_from_entry(
             right = _pglast_parse_from_entry(
                 join_expr["rarg"], namespace=namespace, query_txt=query_txt
             )
-            if join_type == JoinType.CrossJoin:
-                return JoinTableSource(left, right, join_type=JoinType.CrossJoin)
+            if join_type in AutoJoins:
+                return JoinTableSource(left, right, join_type=join_type)
 
             join_condition = _pglast_parse_predicate(
                 join_expr["quals"], namespace=namespace, query_txt=query_txt
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..01bd7df 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6683,7 +6683,7 @@ class JoinType(enum.Enum):
     CrossJoin = "CROSS JOIN"
 
     NaturalInnerJoin = "NATURAL JOIN"
-    NaturalOuterJoin = "NATURAL OUTER JOIN"
+    NaturalOuterJoin = "NATURAL FULL JOIN"
     NaturalLeftJoin = "NATURAL LEFT JOIN"
     NaturalRightJoin = "NATURAL RIGHT JOIN"
 
@@ -6747,7 +6747,7 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = join_type
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
-- 
2.43.0


From 19bf402f781b05ce7208eb97b6efce7e6557c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 008/248] fix: reject SQL features that the query abstraction
 cannot represent

---
 postbound/parser.py | 56 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 4ff70a8..528900a 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -519,6 +519,21 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+def _pglast_reject(pglast_data: dict, *features: str) -> None:
+    """Raises an error if the query uses SQL features that cannot be represented by our query abstraction.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the current part of the query
+    features : str
+        The keys of the unsupported features.
+    """
+    for feature in features:
+        if feature in pglast_data:
+            raise ParserError(f"Unsupported SQL feature {feature}: {pglast_data}")
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -725,6 +740,9 @@ def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     return _PglastOperatorMap[sval]
 
 
+_PglastDefaultFrame = 1058
+"""The frame options of windows that do not specify an explicit frame."""
+
 _PglastTypeMap: dict[str, str] = {
     "bpchar": "char",
     "serial8": "bigserial",
@@ -1007,6 +1025,9 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject(
+                expression, "agg_order", "agg_within_group", "func_variadic"
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1036,17 +1057,28 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject(expression, "agg_order", "agg_distinct", "func_variadic")
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
             fn = FunctionExpression(funcname, args)
 
             window_spec: dict = expression["over"]
+            _pglast_reject(
+                window_spec, "name", "refname", "startOffset", "endOffset"
+            )
+            if window_spec["frameOptions"] != _PglastDefaultFrame:
+                raise ParserError("Unsupported window frame: " + str(window_spec))
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1258,6 +1290,7 @@ def _pglast_parse_ctes(
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
+        _pglast_reject(current_cte, "search_clause", "cycle_clause")
         target_name = current_cte["ctename"]
         target_table = TableReference.create_virtual(target_name)
 
@@ -1283,6 +1316,7 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _pglast_reject(current_cte, "aliascolnames")
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1406,6 +1440,10 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     TableReference
         The parsed table reference.
     """
+    _pglast_reject(rangevar, "catalogname")
+    if not rangevar.get("inh", False):
+        raise ParserError("FROM ONLY is not supported: " + str(rangevar))
+    _pglast_reject(rangevar.get("alias", {}), "colnames")
     name = rangevar["relname"]
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
     schema = rangevar.get("schemaname", "")
@@ -1474,6 +1512,7 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _pglast_reject(join_expr, "alias", "join_using_alias")
             match join_expr["jointype"]:
                 case "JOIN_INNER" if join_expr.get("isNatural", False):
                     join_type = JoinType.NaturalInnerJoin
@@ -1528,6 +1567,7 @@ def _pglast_parse_from_entry(
 
         case "RangeSubselect":
             raw_subquery: dict = pglast_data["RangeSubselect"]
+            _pglast_reject(raw_subquery.get("alias", {}), "colnames")
             is_lateral = raw_subquery.get("lateral", False)
 
             if "alias" in raw_subquery:
@@ -1549,6 +1589,8 @@ def _pglast_parse_from_entry(
 
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
+            _pglast_reject(raw_function, "ordinality", "is_rowsfrom", "coldeflist")
+            _pglast_reject(raw_function.get("alias", {}), "colnames")
 
             if "alias" in raw_function:
                 alias: str = raw_function["alias"]["aliasname"]
@@ -1963,8 +2005,10 @@ def _pglast_parse_setop(
                 else SetOperator.Union
             )
         case "SETOP_INTERSECT":
+            _pglast_reject(pglast_data, "all")
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
+            _pglast_reject(pglast_data, "all")
             operator = SetOperator.Except
         case _:
             raise ParserError("Unknown set operation: " + pglast_data["op"])
@@ -2057,6 +2101,10 @@ def _pglast_parse_query(
     SelectStatement
         The parsed query
     """
+    _pglast_reject(stmt, "lockingClause", "windowClause", "groupDistinct", "intoClause")
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError(f"FETCH ... WITH TIES is not supported: {query_txt}")
+
     if stmt["op"] != "SETOP_NONE":
         return _pglast_parse_setop(
             stmt, parent_namespace=namespace, query_txt=query_txt
-- 
2.43.0


From d39f039286fe25db4caefde4b3db63cd1c6bbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 009/248] fix: keep the fields of interval types

---
 postbound/parser.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 528900a..501243f 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -740,6 +740,23 @@ def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     return _PglastOperatorMap[sval]
 
 
+_PglastIntervalFields: dict[int, str] = {
+    1 << 2: "year",
+    1 << 1: "month",
+    1 << 3: "day",
+    1 << 10: "hour",
+    1 << 11: "minute",
+    1 << 12: "second",
+    (1 << 2) | (1 << 1): "year to month",
+    (1 << 3) | (1 << 10): "day to hour",
+    (1 << 3) | (1 << 10) | (1 << 11): "day to minute",
+    (1 << 3) | (1 << 10) | (1 << 11) | (1 << 12): "day to second",
+    (1 << 10) | (1 << 11): "hour to minute",
+    (1 << 10) | (1 << 11) | (1 << 12): "hour to second",
+    (1 << 11) | (1 << 12): "minute to second",
+}
+"""Map from the internal bitmasks of interval fields to their SQL names."""
+
 _PglastDefaultFrame = 1058
 """The frame options of windows that do not specify an explicit frame."""
 
@@ -1128,6 +1145,14 @@ def _pglast_parse_expression(
                 )
                 for param in expression["typeName"].get("typmods", [])
             ]
+            if target_type == "interval" and type_params:
+                # Postgres encodes the fields of the interval, e.g. INTERVAL '1' DAY, as first type modifier
+                fields = _PglastIntervalFields.get(type_params[0].value)
+                target_type += f" {fields}" if fields else ""
+                type_params = type_params[1:]
+                if fields and type_params:
+                    raise ParserError(f"Unsupported interval type: {expression}")
+
             array_type = "arrayBounds" in expression["typeName"]
 
             return CastExpression(
-- 
2.43.0


From e320012049811ba3afe63d408d674f1bb20e03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 010/248] fix: table aliases hide the names of their tables

---
 postbound/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 501243f..6caf8ea 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -382,8 +382,9 @@ class QueryNamespace:
         self._invalidate_column_cache()
         self._current_ctx.append(table)
         if table.alias:
+            # an alias completely hides the actual name of the table
             self._table_sources[table.alias] = table
-        if table.full_name:
+        elif table.full_name:
             self._table_sources[table.full_name] = table
 
     def provides_column(self, name: str) -> bool:
-- 
2.43.0


From 48c2dedadceeee6fe29315b6bbe6230547c04aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 011/248] fix: distinguish tables of different schemas when
 binding columns

---
 postbound/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 6caf8ea..4ac4a28 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -189,8 +189,12 @@ class SchemaCache:
         tuple[list[str], set[str]]
             The columns of the table in their defined order, as well as the same columns as a set.
         """
-        table = table.full_name if isinstance(table, TableReference) else table
-        cached_res = self._lookup_cache.get(table)
+        if isinstance(table, TableReference) and table.schema:
+            cache_key = f"{table.schema}.{table.full_name}"
+        else:
+            table = table.full_name if isinstance(table, TableReference) else table
+            cache_key = table
+        cached_res = self._lookup_cache.get(cache_key)
         if cached_res:
             return cached_res
         if not self._schema:
@@ -198,7 +202,7 @@ class SchemaCache:
 
         cols: list[str] = [col.name for col in self._schema.columns(table)]
         cols_set = set(cols)
-        self._lookup_cache[table] = cols, cols_set
+        self._lookup_cache[cache_key] = cols, cols_set
         return cols, cols_set
 
 
-- 
2.43.0


From 95667c19472b80804efb321a982c1cbe7b49b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 012/248] fix: parse large integers exactly

---
 postbound/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 4ac4a28..4a69b44 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -684,8 +684,9 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val = pglast_data["ival"]["ival"] if "ival" in pglast_data["ival"] else 0
             return StaticValueExpression(val)
         case "fval":
-            val = pglast_data["fval"]["fval"]
-            return StaticValueExpression(float(val))
+            val: str = pglast_data["fval"]["fval"]
+            # integers beyond 32 bits are also represented as floats
+            return StaticValueExpression(int(val) if val.isdigit() else float(val))
         case "sval":
             return StaticValueExpression(pglast_data["sval"].get("sval", ""))
         case "boolval":
-- 
2.43.0


From 197e9c8e3e6457156a1645d38e72d8f8239b7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 013/248] fix: only comments are hints

---
 postbound/parser.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 4a69b44..8332c12 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2255,7 +2255,9 @@ def _parse_hint_block(
     _current_hint_text = _current_hint_text or []
 
     raw_query = raw_query.lstrip()
-    block_hint = "/*" in raw_query
+    block_hint = next(
+        (tok for tok in pglast.parser.scan(raw_query) if tok.name == "C_COMMENT"), None
+    )
     line_hint = raw_query.startswith("--")
     if not block_hint and not line_hint:
         prep_stms = "\n".join(set_cmds)
@@ -2277,16 +2279,10 @@ def _parse_hint_block(
         )
 
     # must be block hint
-    block_start = raw_query.find("/*")
-    block_end = raw_query.find("*/")
-    if block_end == -1:
-        # should never be raised b/c parsing should have failed already at this point
-        raise ParserError(f"Unterminated block comment: {raw_query}")
-
-    block_comment = raw_query[block_start : block_end + 2].strip()
+    block_comment = raw_query[block_hint.start : block_hint.end + 1].strip()
     _current_hint_text.append(block_comment)
     return _parse_hint_block(
-        raw_query[block_end + 2 :],
+        raw_query[block_hint.end + 1 :],
         set_cmds=set_cmds,
         _current_hint_text=_current_hint_text,
     )
-- 
2.43.0


From bd6fb018ee36fdf9709cf87b896cd4d14c281282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 014/248] fix: brackets of nested arithmetic

---
 postbound/qal/_qal.py | 51 +++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 01bd7df..588c4e4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,27 +648,29 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
+    def _requires_brackets(
+        self, child: SqlExpression, *, first_operand: bool = False
+    ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
-        if not isinstance(child, MathExpression):
+        if isinstance(child, AbstractPredicate):
+            return True
+        if not isinstance(child, MathExpression) or child.second_arg is None:
             return False
         if child.operator == self.operator:
-            return False
-        if (
-            self.operator == MathOperator.Concatenate
-            or child.operator == MathOperator.Concatenate
-        ):
-            return True
-
-        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
-        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
-
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
-
-        # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
+            # operators are evaluated from left to right
+            return not first_operand and self.operator in {
+                MathOperator.Subtract,
+                MathOperator.Divide,
+                MathOperator.Modulo,
+            }
 
-        return strict_brackets or pretty_brackets
+        # multiplication and friends bind stronger than addition. All other combinations need brackets (some of them just for
+        # better readability)
+        return not (
+            self.operator in {MathOperator.Add, MathOperator.Subtract}
+            and child.operator
+            in {MathOperator.Multiply, MathOperator.Divide, MathOperator.Modulo}
+        )
 
     __hash__ = SqlExpression.__hash__
 
@@ -682,14 +684,21 @@ class MathExpression(SqlExpression):
 
     def __str__(self) -> str:
         operator_str = self.operator.value
-        if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+        if self.second_arg is None:
+            first_str = str(self.first_arg)
+            if (
+                isinstance(self.first_arg, (MathExpression, AbstractPredicate))
+                # don't start a comment by accident
+                or first_str.startswith(operator_str)
+            ):
+                first_str = f"({first_str})"
+            return f"{operator_str}{first_str}"
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
-            return operator_str.join(f"({arg})" for arg in all_args)
+            return f" {operator_str} ".join(f"({arg})" for arg in all_args)
         first_str = (
             f"({self.first_arg})"
-            if self._requires_brackets(self.first_arg)
+            if self._requires_brackets(self.first_arg, first_operand=True)
             else str(self.first_arg)
         )
 
-- 
2.43.0


From 91488efd706130dc162fba082f57f1b674643e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 015/248] fix: brackets of nested predicates

---
 postbound/qal/_qal.py | 67 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 588c4e4..c161772 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -652,6 +652,7 @@ class MathExpression(SqlExpression):
         self, child: SqlExpression, *, first_operand: bool = False
     ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        child = _unwrap_predicate(child)
         if isinstance(child, AbstractPredicate):
             return True
         if not isinstance(child, MathExpression) or child.second_arg is None:
@@ -687,7 +688,10 @@ class MathExpression(SqlExpression):
         if self.second_arg is None:
             first_str = str(self.first_arg)
             if (
-                isinstance(self.first_arg, (MathExpression, AbstractPredicate))
+                isinstance(
+                    _unwrap_predicate(self.first_arg),
+                    (MathExpression, AbstractPredicate),
+                )
                 # don't start a comment by accident
                 or first_str.startswith(operator_str)
             ):
@@ -2467,6 +2471,39 @@ class AbstractPredicate(SqlExpression, abc.ABC):
         raise NotImplementedError
 
 
+def _unwrap_predicate(predicate: SqlExpression) -> SqlExpression:
+    """Strips all wrappers around some predicate that have no textual representation on their own."""
+    if isinstance(predicate, UnaryPredicate) and not predicate.operation:
+        return _unwrap_predicate(predicate.column)
+    if isinstance(predicate, (SimpleFilter, SimpleJoin)):
+        return _unwrap_predicate(predicate.unwrap())
+    return predicate
+
+
+def _is_conjunction(predicate: SqlExpression) -> bool:
+    """Checks, whether some predicate is an *AND* predicate."""
+    predicate = _unwrap_predicate(predicate)
+    return (
+        isinstance(predicate, CompoundPredicate)
+        and predicate.operation == CompoundOperator.And
+    )
+
+
+def _stringify_operand(expression: SqlExpression) -> str:
+    """Provides the string representation of an expression that is compared to something else.
+
+    In contrast to a plain *str* call, this adds brackets if they are necessary to ensure the correct evaluation order.
+    """
+    if isinstance(_unwrap_predicate(expression), AbstractPredicate):
+        return f"({expression})"
+    return str(expression)
+
+
+_GenericOperators = frozenset(
+    {LogicalOperator.Contains, LogicalOperator.ContainedBy, LogicalOperator.Overlaps}
+)
+
+
 class BasePredicate(AbstractPredicate, abc.ABC):
     """A base predicate is a predicate that is not composed of any additional child predicates, such as a binary predicate.
 
@@ -2635,7 +2672,16 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first_str = _stringify_operand(self.first_argument)
+        second_str = _stringify_operand(self.second_argument)
+        if (
+            self.operation in _GenericOperators
+            and isinstance(self.second_argument, MathExpression)
+            and self.second_argument.operator == MathOperator.Concatenate
+        ):
+            # these operators have the same precedence as the concatenation
+            second_str = f"({second_str})"
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2798,7 +2844,10 @@ class BetweenPredicate(BasePredicate):
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        return (
+            f"{_stringify_operand(self.column)} BETWEEN "
+            f"{_stringify_operand(interval_start)} AND {_stringify_operand(interval_end)}"
+        )
 
 
 class InPredicate(BasePredicate):
@@ -2974,7 +3023,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3358,9 +3407,13 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
-        if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        if isinstance(self.children, InPredicate):
+            return f"{_stringify_operand(self.children.column)} NOT IN {self.children._stringify_values()}"
+        child_str = str(self.children)
+        # all base predicates bind stronger than NOT, and OR predicates already include brackets
+        return (
+            f"NOT ({child_str})" if _is_conjunction(self.children) else f"NOT {child_str}"
+        )
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 0b26f803e738bc7d1edba7fa2574f126708dea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 016/248] fix: don't turn quantified subqueries into scalar
 subqueries

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c161772..6325175 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1687,6 +1687,9 @@ class QuantifierExpression(SqlExpression):
         )
 
     def __str__(self) -> str:
+        if isinstance(self.expression, SubqueryExpression):
+            # subqueries are already wrapped in brackets, and additional ones turn them into scalar subqueries
+            return f"{self.quantifier.value} {self.expression}"
         return f"{self.quantifier.value} ({self.expression})"
 
 
-- 
2.43.0


From effcd2652de449831960590d4a371cc8295845d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 017/248] fix: brackets of nested joins

---
 postbound/qal/_qal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 6325175..3ef0882 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6980,9 +6980,12 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        joined_str = str(self.joined_table)
+        if isinstance(self.joined_table, JoinTableSource):
+            joined_str = f"({joined_str})"
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.source} {self.join_type} {joined_str}"
+        return f"{self.source} {self.join_type} {joined_str} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
-- 
2.43.0


From 358a9f37180f0b3d21fded115c8cbb9256d189c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 018/248] fix: brackets and whitespace of set operations

---
 postbound/qal/_qal.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3ef0882..4fa586e 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7726,6 +7726,21 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_set_operand(query: SelectStatement) -> str:
+    """Provides the string representation of a query that is part of a set operation.
+
+    The query is wrapped in brackets, if its clauses would otherwise be associated with the set operation.
+    """
+    query_str = query.stringify(trailing_delimiter=False)
+    is_plain_select = (
+        isinstance(query, SqlQuery)
+        and query.cte_clause is None
+        and query.orderby_clause is None
+        and query.limit_clause is None
+    )
+    return query_str if is_plain_select else f"({query_str})"
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7848,8 +7863,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7927,8 +7942,8 @@ class ExceptClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -8022,8 +8037,8 @@ class IntersectClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -10031,9 +10046,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 058b733646133513255dcdd8512785d64cc66121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 019/248] fix: brackets of nested concatenations

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4fa586e..056cf27 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -663,6 +663,7 @@ class MathExpression(SqlExpression):
                 MathOperator.Subtract,
                 MathOperator.Divide,
                 MathOperator.Modulo,
+                MathOperator.Concatenate,  # not associative for arrays
             }
 
         # multiplication and friends bind stronger than addition. All other combinations need brackets (some of them just for
-- 
2.43.0


From ec8881ae644d729db2593d032227a2154a37e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 020/248] fix: parse decimals exactly

---
 postbound/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 8332c12..4f325e9 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -32,6 +32,7 @@ from __future__ import annotations
 import json
 import warnings
 from collections.abc import Iterable
+from decimal import Decimal
 from pathlib import Path
 from typing import Literal, Optional, overload
 
@@ -686,7 +687,13 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
         case "fval":
             val: str = pglast_data["fval"]["fval"]
             # integers beyond 32 bits are also represented as floats
-            return StaticValueExpression(int(val) if val.isdigit() else float(val))
+            if val.isdigit():
+                return StaticValueExpression(int(val))
+            # numeric literals are exact, so we can only use floats if they don't lose precision
+            num, exact_num = float(val), Decimal(val)
+            return StaticValueExpression(
+                num if Decimal(repr(num)) == exact_num else exact_num
+            )
         case "sval":
             return StaticValueExpression(pglast_data["sval"].get("sval", ""))
         case "boolval":
-- 
2.43.0


From fccf35dbce0e1eb53173e5088b41227f6d5f0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 021/248] fix: keep the sign of unary expressions when
 formatting

---
 postbound/qal/_formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..35e8061 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -719,7 +719,7 @@ def _expression_prettifier(
             replaced_lhs = _expression_prettifier(
                 lhs, flavor=flavor, inline_hints=inline_hints, indentation=indentation
             )
-            rhs = util.enlist(rhs) if rhs else []
+            rhs = util.enlist(rhs) if rhs is not None else []
             replaced_rhs = [
                 _expression_prettifier(
                     expr,
@@ -729,7 +729,7 @@ def _expression_prettifier(
                 )
                 for expr in rhs
             ]
-            replaced_rhs = util.simplify(replaced_rhs)
+            replaced_rhs = util.simplify(replaced_rhs) if replaced_rhs else None
             return target(op, replaced_lhs, replaced_rhs)
         case ArrayAccessExpression(array, ind, lo, hi):
             replaced_array = _expression_prettifier(
-- 
2.43.0


From 391f68aeb06e78adef9e758f6cbc1d3535781c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 022/248] fix: keep array types of casts when formatting

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 35e8061..c31ad0b 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -709,7 +709,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
-- 
2.43.0


From 5bd04ac4eefde378f06a329f0775969f07b4000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 023/248] fix: keep LIMIT 0 when formatting

---
 postbound/qal/_formatter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index c31ad0b..2687450 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -588,24 +588,24 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From 028984cf9a6bb56788f35fb26845402b22ad22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 024/248] fix: brackets of negative numbers in Postgres casts

---
 postbound/qal/_formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 2687450..0dbde34 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -1027,6 +1027,9 @@ class _PostgresCastExpression(CastExpression):
             )
             else f"({self.casted_expression})"
         )
+        if casted_str.startswith("-"):
+            # the cast has a higher precedence than the sign
+            casted_str = f"({casted_str})"
         return f"{casted_str}::{type_str}"
 
 
-- 
2.43.0


From 4b7100f4a9ee98d2ab901f99291c7593c8af1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 025/248] fix: preparatory statements are not inlined

---
 postbound/qal/_formatter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 0dbde34..4aa6a2d 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -1101,7 +1101,11 @@ def format_quick(
 
     for clause in query.clauses():
         if inline_hint_block and isinstance(clause, Hint):
-            inlined_hint_block = clause
+            # preparatory statements are no comments and can only be placed in front of the query
+            if clause.preparatory_statements:
+                pretty_query_parts.append(clause.preparatory_statements)
+            if clause.query_hints:
+                inlined_hint_block = Hint(query_hints=clause.query_hints)
             continue
 
         match clause:
-- 
2.43.0


From 6c7709ca84301750a02604f1301216aa3e4a0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 026/248] fix: don't indent string literals

---
 postbound/qal/_formatter.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 4aa6a2d..9249348 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -63,6 +63,23 @@ SqlDialect = Literal["vanilla", "postgres"]
 """The different flavors of SQL syntax that are supported by the formatter."""
 
 
+def _split_lines(content: str) -> list[str]:
+    """Splits a query into its lines.
+
+    Line breaks within string literals do not start a new line, because additional whitespace would change the literal.
+    """
+    lines: list[str] = []
+    in_literal = False
+    for line in content.split("\n"):
+        if in_literal:
+            lines[-1] += "\n" + line
+        else:
+            lines.append(line)
+        if line.count("'") % 2 == 1:
+            in_literal = not in_literal
+    return lines
+
+
 def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str:
     """Prefixes all lines in a string by a given amount of whitespace.
 
@@ -82,7 +99,7 @@ def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str
         The indented string
     """
     indent_prefix = "\n" + " " * indentation
-    return " " * indentation + indent_prefix.join(content.split("\n"))
+    return " " * indentation + indent_prefix.join(_split_lines(content))
 
 
 class FormattingSubqueryExpression(SubqueryExpression):
@@ -133,7 +150,7 @@ class FormattingSubqueryExpression(SubqueryExpression):
         if "\n" not in formatted:
             return prefix + formatted
 
-        lines = formatted.split("\n")
+        lines = _split_lines(formatted)
         indented_lines = [f"\n{prefix}{lines[0]}"] + [
             prefix + line for line in lines[1:]
         ]
@@ -358,9 +375,11 @@ def _quick_format_tablesource(
 
         case SubqueryTableSource():
             elems: list[str] = ["LATERAL ("] if table_source.lateral else ["("]
-            subquery_elems = format_quick(
-                table_source.query, flavor=flavor, trailing_semicolon=False
-            ).split("\n")
+            subquery_elems = _split_lines(
+                format_quick(
+                    table_source.query, flavor=flavor, trailing_semicolon=False
+                )
+            )
             subquery_elems = [
                 ((" " * DefaultIndent) + str(child)) for child in subquery_elems
             ]
-- 
2.43.0


From 4cec582ba03bc72a5a290c7babb0c3b827ca1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 027/248] fix: parse FROM clauses with multiple joins

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 4f325e9..8a4d5ef 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1749,7 +1749,7 @@ def _pglast_parse_from(
 
     if not contains_join and not contains_mixed:
         return ImplicitFromClause(table_sources)
-    if contains_join and not contains_mixed:
+    if contains_join and not contains_mixed and len(table_sources) == 1:
         return ExplicitFromClause(table_sources)
 
     return From(table_sources)
-- 
2.43.0


From 58a5f4bdb1bfb9c365afd16c1bfd1baf9cd1ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 028/248] fix: escape quotes in identifiers

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 9f1985f..c387f1c 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -580,7 +580,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From fb0276d7a38e1d48cb9966e7f533896a0693e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 029/248] fix: quote all reserved keywords

---
 postbound/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index c387f1c..6fdeea9 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -462,6 +462,8 @@ References
 SqlKeywords = frozenset(
     {
         "ALL",
+        "ANALYSE",
+        "ANALYZE",
         "AND",
         "ANY",
         "ARRAY",
@@ -469,13 +471,16 @@ SqlKeywords = frozenset(
         "ASC",
         "ASYMMETRIC",
         "AT",
+        "AUTHORIZATION",
         "BINARY",
         "BOTH",
         "CASE",
         "CAST",
         "CHECK",
         "COLLATE",
+        "COLLATION",
         "COLUMN",
+        "CONCURRENTLY",
         "CONSTRAINT",
         "CREATE",
         "CROSS",
@@ -498,6 +503,7 @@ SqlKeywords = frozenset(
         "FETCH",
         "FOR",
         "FOREIGN",
+        "FREEZE",
         "FROM",
         "FULL",
         "GRANT",
@@ -510,6 +516,7 @@ SqlKeywords = frozenset(
         "INTERSECT",
         "INTO",
         "IS",
+        "ISNULL",
         "JOIN",
         "LATERAL",
         "LEADING",
@@ -520,6 +527,7 @@ SqlKeywords = frozenset(
         "LOCALTIMESTAMP",
         "NATURAL",
         "NOT",
+        "NOTNULL",
         "NULL",
         "OFFSET",
         "ON",
@@ -538,7 +546,9 @@ SqlKeywords = frozenset(
         "SIMILAR",
         "SOME",
         "SYMMETRIC",
+        "SYSTEM_USER",
         "TABLE",
+        "TABLESAMPLE",
         "THEN",
         "TO",
         "TRAILING",
-- 
2.43.0


From f589ca608376621887ed912930abb48254b7dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 030/248] fix: keep the schema when updating table references

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 6fdeea9..5a7035e 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -851,7 +851,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -871,7 +873,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From b9af452365bc39c3e27923290f2123d07f00e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 031/248] fix: load table schemas from JSON

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 8a4d5ef..5209fee 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2497,7 +2497,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", ""),
     )
 
 
-- 
2.43.0


From 237874f0eeafcbf658a72877639ebd4e5e52d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 032/248] fix: make the ordering of tables and columns total

---
 postbound/_core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5a7035e..276b8ae 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -892,7 +892,19 @@ class TableReference:
     def __lt__(self, other: object) -> bool:
         if not isinstance(other, TableReference):
             return NotImplemented
-        return self._normalized_identifier < other._normalized_identifier
+        own_key = (
+            self._normalized_identifier,
+            self._normalized_full_name,
+            self._normalized_alias,
+            self._normalized_schema,
+        )
+        other_key = (
+            other._normalized_identifier,
+            other._normalized_full_name,
+            other._normalized_alias,
+            other._normalized_schema,
+        )
+        return own_key < other_key
 
     def __hash__(self) -> int:
         return self._hash_val
-- 
2.43.0


From 3029714bde0f1fa5b81fea00db76e3ea0aa6eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 033/248] fix: hash IN predicates consistently with their
 equality

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 056cf27..e6db4f2 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2921,7 +2921,7 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash((LogicalOperator.In, self._column, frozenset(self._values)))
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
-- 
2.43.0


From f4be0e8d5bc98a2773e558c67c2c0ecaafa0f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 034/248] fix: compare and hash simplified predicate views
 consistently

---
 postbound/qal/_qal.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e6db4f2..44e5345 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2668,9 +2668,11 @@ class BinaryPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            # simplified views know how to compare themselves
+            return NotImplemented
         return (
-            isinstance(other, type(self))
-            and self.operation == other.operation
+            self.operation == other.operation
             and self.first_argument == other.first_argument
             and self.second_argument == other.second_argument
         )
@@ -2840,9 +2842,11 @@ class BetweenPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            # simplified views know how to compare themselves
+            return NotImplemented
         return (
-            isinstance(other, type(self))
-            and self.column == other.column
+            self.column == other.column
             and self.interval == other.interval
         )
 
@@ -3019,9 +3023,11 @@ class InPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            # simplified views know how to compare themselves
+            return NotImplemented
         return (
-            isinstance(other, type(self))
-            and self.column == other.column
+            self.column == other.column
             and set(self.values) == set(other.values)
         )
 
@@ -3913,8 +3919,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
     __match_args__ = ("column", "operation", "value")
@@ -4146,8 +4151,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
     __match_args__ = ("lhs", "rhs")
-- 
2.43.0


From 68832c131ca00211b8c5a9f68c336178fc8b57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 035/248] fix: compare the materialization of CTEs

---
 postbound/qal/_qal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 44e5345..5cf8e3b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5522,6 +5522,7 @@ class WithQuery:
             isinstance(other, type(self))
             and self._target_name == other._target_name
             and self._query == other._query
+            and self._materialized == other._materialized
         )
 
     def __repr__(self) -> str:
@@ -5647,6 +5648,7 @@ class ValuesWithQuery(WithQuery):
             and self._values == other._values
             and self._columns == other._columns
             and self._table == other._table
+            and self._materialized == other._materialized
         )
 
     __hash__ = WithQuery.__hash__
-- 
2.43.0


From 2904fa08b24a703139320bd1769fd609452325fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 036/248] fix: compare LATERAL subqueries

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5cf8e3b..5ebda7e 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6489,6 +6489,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 25725cf765795605cb27ec474c71d1ab0eba01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 037/248] fix: compare the fetch direction of LIMIT clauses

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5ebda7e..5cde880 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7715,6 +7715,7 @@ class Limit(BaseClause):
             isinstance(other, type(self))
             and self.limit == other.limit
             and self.offset == other.offset
+            and self.fetch_direction == other.fetch_direction
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From 621c8e8d094566939e8da8cd62f750c146b10ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 038/248] fix: fix comparison of EXCEPT and INTERSECT clauses

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5cde880..2e4395a 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7947,7 +7947,8 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
@@ -8042,7 +8043,8 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From 55f5d922fc191994473b8186718886b5332a2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 039/248] fix: don't confuse boolean with numeric constants

---
 postbound/qal/_qal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2e4395a..aeb4053 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -283,7 +283,12 @@ class StaticValueExpression(SqlExpression, Generic[T]):
     __hash__ = SqlExpression.__hash__
 
     def __eq__(self, other) -> bool:
-        return isinstance(other, type(self)) and self.value == other.value
+        return (
+            isinstance(other, type(self))
+            # in Python, booleans are numbers
+            and isinstance(self.value, bool) == isinstance(other.value, bool)
+            and self.value == other.value
+        )
 
     def __str__(self) -> str:
         if self.value is None:
-- 
2.43.0


From 42b7d730d6cc2230beae9f0d1b95f18ae46d9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 040/248] fix: collect the tables and columns of all operands
 of n-ary math expressions

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index aeb4053..11dd049 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -606,7 +606,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -614,7 +614,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
-- 
2.43.0


From a183f76e64222f0db407ace24878eeae56aee7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 041/248] fix: iterate over the direct children of CASE and
 window expressions

---
 postbound/qal/_qal.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 11dd049..6a400d7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1419,9 +1419,7 @@ class WindowExpression(SqlExpression):
 
     def iterchildren(self) -> Iterable[SqlExpression]:
         function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
+        partitioning_children = self.partitioning
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
         filter_children = (
             self.filter_condition.iterexpressions() if self.filter_condition else []
@@ -1557,19 +1555,10 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
-        return case_children + expression_children + else_children
+        expression_children = [self.simple_expression] if self.simple_expression else []
+        case_children = util.flatten(self.cases)
+        else_children = [self.else_expression] if self.else_expression else []
+        return expression_children + case_children + else_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
-- 
2.43.0


From 7c746cf259ba126503562deaf00854abb8ca9d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 042/248] fix: include the FILTER predicate in the children of
 function expressions

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 6a400d7..7ef6e14 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1016,7 +1016,10 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        children: list[SqlExpression] = list(self.arguments)
+        if self._filter_expr:
+            children.append(self._filter_expr)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
-- 
2.43.0


From 725252fa36e14db6916bc9fbdfa3d6fa1376b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 043/248] fix: tables and columns of VALUES lists, functions
 and anonymous subqueries in the FROM clause

---
 postbound/qal/_qal.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 7ef6e14..7bf5a6c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5612,12 +5612,10 @@ class ValuesWithQuery(WithQuery):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return set()
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def columns(self) -> set[ColumnReference]:
-        if not self._columns:
-            return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self.itercolumns())
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5637,7 +5635,10 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        value_columns = util.flatten(
+            expr.itercolumns() for expr in self.iterexpressions()
+        )
+        return value_columns + list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -6464,7 +6465,8 @@ class SubqueryTableSource(TableSource):
         ]
 
     def tables(self) -> set[TableReference]:
-        return self._subquery_expression.tables() | {self.target_table}
+        query_tables = self._subquery_expression.tables()
+        return query_tables | {self.target_table} if self.target_table else query_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._subquery_expression.columns()
@@ -6591,10 +6593,11 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table}
+        value_tables = util.set_union(expr.tables() for expr in self.iterexpressions())
+        return value_tables | {self._table} if self._table else value_tables
 
     def columns(self) -> set[ColumnReference]:
-        return set(self._columns)
+        return set(self.itercolumns())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation.
@@ -6616,7 +6619,10 @@ class ValuesTableSource(TableSource):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return self._columns
+        value_columns = util.flatten(
+            expr.itercolumns() for expr in self.iterexpressions()
+        )
+        return value_columns + list(self._columns)
 
     def predicates(self) -> QueryPredicates | None:
         return None
@@ -6706,7 +6712,8 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        function_tables = self._function.tables()
+        return function_tables | {self._alias} if self._alias else function_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
-- 
2.43.0


From 5eff7906657a40b4cd8cc86eb700f98ddd96567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 044/248] fix: include the DISTINCT ON expressions in the
 accessors of the SELECT clause

---
 postbound/qal/_qal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 7bf5a6c..5cb80eb 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6113,16 +6113,16 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        return util.set_union(expr.columns() for expr in self.iterexpressions())
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        return util.flatten(expr.itercolumns() for expr in self.iterexpressions())
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        return list(self.distinct_on) + [target.expression for target in self.targets]
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
-- 
2.43.0


From 72ed36c00f22dc76ca4d08803d78ecd35ee3e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 045/248] fix: find the subqueries of explicit joins, VALUES
 lists, table functions and DISTINCT ON expressions

---
 postbound/qal/_qal.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5cb80eb..ab4dc49 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8202,11 +8202,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
     if isinstance(table_source, SubqueryTableSource):
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
-        source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        source_subqueries = _collect_subqueries_in_table_source(table_source.left)
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8217,7 +8214,10 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         )
         return source_subqueries | nested_subqueries | condition_subqueries
     else:
-        return set()
+        return util.set_union(
+            collect_subqueries_in_expression(expression)
+            for expression in table_source.iterexpressions()
+        )
 
 
 def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
@@ -8257,8 +8257,8 @@ def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
         return set()
     elif isinstance(clause, Select):
         return util.set_union(
-            collect_subqueries_in_expression(target.expression)
-            for target in clause.targets
+            collect_subqueries_in_expression(expression)
+            for expression in clause.iterexpressions()
         )
     elif isinstance(clause, ImplicitFromClause):
         return set()
-- 
2.43.0


From 6d70504aebfc76371133b0ed5b1d674169ceb9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 046/248] fix: determine the bound tables of subqueries, joins,
 VALUES lists and table functions

---
 postbound/qal/_qal.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ab4dc49..4ab5430 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8321,14 +8321,19 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        target_table = table_source.target_table
+        subquery_tables = table_source.query.bound_tables()
+        return subquery_tables | {target_table} if target_table else subquery_tables
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        direct_tables = _collect_bound_tables_from_source(table_source.left)
+        nested_tables = _collect_bound_tables_from_source(table_source.right)
         return direct_tables | nested_tables
+    elif isinstance(table_source, ValuesTableSource):
+        return {table_source.table} if table_source.table else set()
+    elif isinstance(table_source, FunctionTableSource):
+        return {table_source.target_table} if table_source.target_table else set()
+    else:
+        raise ValueError(f"Unknown table source: {table_source}")
 
 
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
@@ -9067,8 +9072,17 @@ class SqlQuery:
         subquery_produced_tables = util.set_union(
             subquery.bound_tables() for subquery in self.subqueries()
         )
-        cte_produced_tables = self.cte_clause.tables() if self.cte_clause else set()
-        own_produced_tables = _collect_bound_tables(self.from_clause)
+        cte_produced_tables = (
+            util.set_union(
+                with_query.query.bound_tables() | {with_query.target_table}
+                for with_query in self.cte_clause.queries
+            )
+            if self.cte_clause
+            else set()
+        )
+        own_produced_tables = (
+            _collect_bound_tables(self.from_clause) if self.from_clause else set()
+        )
         return own_produced_tables | subquery_produced_tables | cte_produced_tables
 
     def unbound_tables(self) -> set[TableReference]:
-- 
2.43.0


From 78e94a649539183c431b0e2eb6db7f1db007e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 047/248] fix: allow queries without FROM and set queries as
 CTEs/subqueries in SqlQuery.predicates()

---
 postbound/qal/_qal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4ab5430..439bc4d 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6478,7 +6478,10 @@ class SubqueryTableSource(TableSource):
         return self._subquery_expression.itercolumns()
 
     def predicates(self) -> QueryPredicates | None:
-        return self._subquery_expression.query.predicates()
+        if self.query.is_set_query():
+            # set queries do not have predicates by themselves
+            return None
+        return self.query.predicates()
 
     def __hash__(self) -> int:
         return self._hash_val
@@ -8921,6 +8924,8 @@ class SqlQuery:
 
         if self.cte_clause:
             for with_query in self.cte_clause.queries:
+                if with_query.query.is_set_query():
+                    continue
                 current_predicate = current_predicate.and_(
                     with_query.query.predicates()
                 )
@@ -8928,7 +8933,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
-- 
2.43.0


From acc40d09994eb977ff8a50afa512aef853736b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 048/248] fix: queries with HAVING or LIMIT/OFFSET are not
 guaranteed to produce a row

---
 postbound/qal/_qal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 439bc4d..054b793 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9168,6 +9168,8 @@ class SqlQuery:
             isinstance(target, FunctionExpression)
             and target.is_aggregate()
             and not self._groupby_clause
+            and not self._having_clause
+            and not self._limit_clause
         )
 
     def is_set_query(self) -> bool:
-- 
2.43.0


From 1fac171c858d79bfb5b735b3909f3f6601239546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 049/248] fix: include the CTEs and the ORDER BY clause in the
 accessors of set queries

---
 postbound/qal/_qal.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 054b793..fe5b746 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9810,7 +9810,9 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        cte_tables = self._cte.referenced_tables() if self._cte else set()
+        orderby_tables = self._orderby.tables() if self._orderby else set()
+        return self._lhs.tables() | self._rhs.tables() | cte_tables | orderby_tables
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9824,7 +9826,7 @@ class SetQuery:
         set[ColumnReference]
             All columns that are referenced in the query.
         """
-        return self._lhs.columns() | self._rhs.columns()
+        return util.set_union(clause.columns() for clause in self.clauses())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
@@ -9950,7 +9952,17 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        return self._lhs.bound_tables() | self._rhs.bound_tables()
+        cte_produced_tables = (
+            util.set_union(
+                with_query.query.bound_tables() | {with_query.target_table}
+                for with_query in self._cte.queries
+            )
+            if self._cte
+            else set()
+        )
+        return (
+            self._lhs.bound_tables() | self._rhs.bound_tables() | cte_produced_tables
+        )
 
     def unbound_tables(self) -> set[TableReference]:
         """Provides all tables that are referenced in this query but not bound.
@@ -9964,7 +9976,13 @@ class SetQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        return self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        own_tables = self._cte.referenced_tables() if self._cte else set()
+        own_tables |= self._orderby.tables() if self._orderby else set()
+        return (
+            self._lhs.unbound_tables()
+            | self._rhs.unbound_tables()
+            | (own_tables - self.bound_tables())
+        )
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -9990,7 +10008,7 @@ class SetQuery:
         # we cannot apply the same check as in SqlQuery, since a unbound table in one inner query might be unbound in the other
         # TODO: the above situation would likely lead to an invalid SQL query anyway, so it would be nice to assert that this
         # is not the case during intialization of the SetQuery
-        return self._lhs.is_dependent() or self._rhs.is_dependent()
+        return len(self.unbound_tables()) > 0
 
     def is_scalar(self) -> bool:
         """Checks, whether the query is guaranteed to provide a single scalar value as a result.
-- 
2.43.0


From ad49c921ad8bc5e9e71ee3c69ff93a6ae4f26c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 050/248] fix: iterate over the columns of window expressions
 in their textual order

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index fe5b746..54b6efe 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1430,9 +1430,9 @@ class WindowExpression(SqlExpression):
         return util.flatten(
             [
                 function_children,
+                filter_children,
                 partitioning_children,
                 ordering_children,
-                filter_children,
             ]
         )
 
-- 
2.43.0


From d2636256759b90ea7265fa27836281f125834606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 051/248] fix: Determine the join partners of compound
 predicates that also contain filters

---
 postbound/qal/_qal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 54b6efe..e080c40 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3122,6 +3122,7 @@ class UnaryPredicate(BasePredicate):
         return [self.column]
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
+        self._assert_join_predicate()
         columns = _collect_column_expression_columns(self.column)
         return _generate_join_pairs(columns, columns)
 
@@ -3389,7 +3390,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
-- 
2.43.0


From 5592a8d9a48dae5310f8ecc78ec60f4b08b726fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 052/248] fix: Include joins within the bounds and values of
 BETWEEN and IN

---
 postbound/qal/_qal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e080c40..059ac38 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2822,9 +2822,10 @@ class BetweenPredicate(BasePredicate):
         end_columns = _collect_column_expression_columns(self.interval_end)
 
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
-        partners |= _generate_join_pairs(predicate_columns, start_columns)
-        partners |= _generate_join_pairs(predicate_columns, end_columns)
-        return set(partners)
+        for bound_columns in (start_columns, end_columns):
+            partners |= _generate_join_pairs(predicate_columns, bound_columns)
+            partners |= _generate_join_pairs(bound_columns, bound_columns)
+        return partners
 
     def accept_visitor(
         self,
@@ -2994,6 +2995,7 @@ class InPredicate(BasePredicate):
         for value in self.values:
             value_columns = _collect_column_expression_columns(value)
             partners |= _generate_join_pairs(predicate_columns, value_columns)
+            partners |= _generate_join_pairs(value_columns, value_columns)
         return partners
 
     def accept_visitor(
-- 
2.43.0


From feed6e686e3741847173e142c0b17af98b013da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 053/248] fix: Provide all join predicates between two tables

---
 postbound/qal/_qal.py | 67 ++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 059ac38..332cc06 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4517,11 +4517,9 @@ class QueryPredicates:
                 filter_predicates = self.filters_for(table)
                 join_graph.add_node(table, predicate=filter_predicates)
 
-            for join in self.joins():
-                for first_col, second_col in join.join_partners():
-                    join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
-                    )
+            for tables, join in self._join_predicate_map.items():
+                first_tab, second_tab = tables
+                join_graph.add_edge(first_tab, second_tab, predicate=join)
 
             return join_graph
 
@@ -4858,24 +4856,26 @@ class QueryPredicates:
         Returns
         -------
         dict[frozenset[TableReference], AbstractPredicate]
-            A mapping from a set of tables to the join predicate that is specified between those tables. If a set of tables
-            does not appear in the dictionary, there is no join predicate between the specific tables.
+            A mapping from a pair of tables to the (conjunctive) join predicate that is specified between those tables. If a
+            pair does not appear in the dictionary, there is no join predicate between the specific tables.
         """
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
-        return predicate_map
+        joins: dict[frozenset[TableReference], list[AbstractPredicate]] = (
+            collections.defaultdict(list)
+        )
+        for join_predicate in self.joins():
+            joined_tables = {
+                frozenset((first_col.table, second_col.table))
+                for first_col, second_col in join_predicate.join_partners()
+            }
+            for tables in joined_tables:
+                joins[tables].append(join_predicate)
+        return {
+            tables: CompoundPredicate.create_and(predicates)
+            for tables, predicates in joins.items()
+        }
 
     def _legacy_joins_between(
         self,
@@ -4948,29 +4948,12 @@ class QueryPredicates:
         join_graph = self.join_graph()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
 
-        if len(first_table) > 1:
-            first_first_table, *remaining_first_tables = first_table
-            for remaining_first_table in remaining_first_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_first_table, remaining_first_table
-                )
-            first_hook = first_first_table
-        else:
-            first_hook = util.simplify(first_table)
-
-        if len(second_table) > 1:
-            first_second_table, *remaining_second_tables = second_table
-            for remaining_second_table in remaining_second_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_second_table, remaining_second_table
-                )
-            second_hook = first_second_table
-        else:
-            second_hook = util.simplify(second_table)
-
-        if (first_hook, second_hook) not in join_graph.edges:
-            return None
-        return join_graph.edges[first_hook, second_hook]["predicate"]
+        join_predicates = {
+            join_graph.edges[first, second]["predicate"]
+            for first, second in itertools.product(first_table, second_table)
+            if join_graph.has_edge(first, second)
+        }
+        return CompoundPredicate.create_and(join_predicates) if join_predicates else None
 
     def _map_based_joins_between(
         self,
-- 
2.43.0


From 17347ad93919e5ff613856fc493058332dedb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 054/248] fix: Connect the base tables in join graphs with
 merged aliases

---
 postbound/qal/_qal.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 332cc06..3c37f52 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4534,19 +4534,15 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
-        for join in self.joins():
-            for first_col, second_col in join.join_partners():
-                partners = frozenset([first_col, second_col])
-                col2join[partners] = join
-
         tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
+        for partners, join in self._join_predicate_map.items():
+            tabs = frozenset(tab.drop_alias() for tab in partners)
             tab2join[tabs][partners] = join
 
         for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
+            # self-joins connect a base table with itself
+            first_tab, *other_tab = tabs
+            second_tab = other_tab[0] if other_tab else first_tab
             join_graph.add_edge(first_tab, second_tab, predicate=joins)
 
         return join_graph
-- 
2.43.0


From 47c5a65e82f3ebcc9c25da169858c05e9eaf243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 055/248] fix: Use the correct operator for simple filters with
 swapped arguments

---
 postbound/qal/_qal.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3c37f52..b4c7060 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3736,6 +3736,23 @@ UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
 """Type that captures the main components of a filter predicate."""
 
 
+_MirroredOperators = {
+    LogicalOperator.Equal: LogicalOperator.Equal,
+    LogicalOperator.NotEqual: LogicalOperator.NotEqual,
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+}
+"""The operators that can be used if the arguments of a comparison are swapped."""
+
+
+def _assert_filter_column(column: object, predicate: AbstractPredicate) -> None:
+    """Raises an error if the filtered value of a predicate is not a plain column."""
+    if not isinstance(column, ColumnReference):
+        raise ValueError(f"Predicate does not filter a column: {predicate}")
+
+
 def _attempt_filter_unwrap(
     predicate: AbstractPredicate,
 ) -> tuple[ColumnReference, LogicalOperator, Any]:
@@ -3768,22 +3785,23 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
-            assert isinstance(left, ColumnReference)
+            if not isinstance(left, ColumnReference):
+                if op not in _MirroredOperators:
+                    raise ValueError(f"Cannot unwrap predicate {predicate}")
+                left, op, right = right, _MirroredOperators[op], left
+            _assert_filter_column(left, predicate)
             return left, op, right
 
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
             lower, upper = _unwrap_expression(lower), _unwrap_expression(upper)
-            assert isinstance(lhs, ColumnReference)
+            _assert_filter_column(lhs, predicate)
             return lhs, LogicalOperator.Between, (lower, upper)
 
         case InPredicate(lhs, values):
             lhs = _unwrap_expression(lhs)
             values = [_unwrap_expression(val) for val in values]
-            assert isinstance(lhs, ColumnReference)
+            _assert_filter_column(lhs, predicate)
             return lhs, LogicalOperator.In, tuple(values)
 
         case _:
-- 
2.43.0


From e6868c622478e677cd47f75d09ae26e3f806387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 056/248] fix: Do not fail when checking whether complex joins
 can be simplified

---
 postbound/qal/_qal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index b4c7060..4625322 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4116,10 +4116,13 @@ class SimpleJoin(AbstractPredicate):
             return False
         if not predicate.operation == LogicalOperator.Equal:
             return False
-        lhs, rhs = (
-            _unwrap_expression(predicate.first_argument),
-            _unwrap_expression(predicate.second_argument),
-        )
+        try:
+            lhs, rhs = (
+                _unwrap_expression(predicate.first_argument),
+                _unwrap_expression(predicate.second_argument),
+            )
+        except ValueError:
+            return False
         return isinstance(lhs, ColumnReference) and isinstance(rhs, ColumnReference)
 
     @staticmethod
-- 
2.43.0


From deb25e3029c84d215a098590d5eed8bcc1c7de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 057/248] fix: Accept simplified views as query predicates

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4625322..ed241f7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4303,7 +4303,7 @@ def _collect_filter_predicates(predicate: AbstractPredicate) -> set[AbstractPred
     --------
     _collect_join_predicates
     """
-    if isinstance(predicate, BasePredicate):
+    if predicate.is_base():
         return {predicate} if predicate.is_filter() else set()
     elif isinstance(predicate, CompoundPredicate):
         if predicate.operation == CompoundOperator.Or:
@@ -4367,7 +4367,7 @@ def _collect_join_predicates(predicate: AbstractPredicate) -> set[AbstractPredic
     --------
     _collect_filter_predicates
     """
-    if isinstance(predicate, BasePredicate):
+    if predicate.is_base():
         return {predicate} if predicate.is_join() else set()
     elif isinstance(predicate, CompoundPredicate):
         if predicate.operation == CompoundOperator.Or:
-- 
2.43.0


From 9fba6ec604e65d07ef9f10c3d36bec5a1e67e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 058/248] fix: Only compare plain columns in equivalence
 classes

---
 postbound/qal/_qal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ed241f7..d43b201 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3655,6 +3655,8 @@ def determine_join_equivalence_classes(
         if isinstance(pred, BinaryPredicate)
         and pred.is_join()
         and pred.operation == LogicalOperator.Equal
+        and isinstance(pred.first_argument, ColumnExpression)
+        and isinstance(pred.second_argument, ColumnExpression)
     }
 
     equivalence_graph = nx.Graph()
-- 
2.43.0


From 936d0867989045fdced679fe57f2db3e4584cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 059/248] fix: Keep function aliases and update DISTINCT ON
 when replacing expressions

---
 postbound/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..34398cd 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1087,13 +1087,13 @@ def _replace_expression_in_table_source(
             ]
             return ValuesTableSource(
                 replaced_values,
-                alias=table_source.table.identifier(),
+                alias=table_source.table or "",
                 columns=table_source.cols,
             )
         case FunctionTableSource():
             replaced_function = replacement(table_source.function)
             return FunctionTableSource(
-                replaced_function, alias=table_source.target_table
+                replaced_function, alias=table_source.target_table or ""
             )
         case _:
             raise TypeError("Unknown table source type: " + str(table_source))
@@ -1159,7 +1159,12 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        return Select(
+            replaced_targets,
+            distinct=[replacement(expr) for expr in clause.distinct_on]
+            if clause.distinct == "on"
+            else clause.distinct_specifier(),
+        )
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
-- 
2.43.0


From 10e13d84a1431ac12c01a70c4f61b2be63f8603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 060/248] fix: Rename columns in set queries

---
 postbound/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 34398cd..2cd7e3b 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -80,6 +80,7 @@ from .qal import (
     TableSource,
     UnaryPredicate,
     UnionClause,
+    ValuesList,
     ValuesTableSource,
     ValuesWithQuery,
     Where,
@@ -1362,7 +1363,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1373,7 +1373,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1387,6 +1387,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
-- 
2.43.0


From 4129126cf5b341da00b97f6b7486f9fbe738e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 061/248] fix: Rename columns in n-ary expressions, array
 accesses, aggregate filters and DISTINCT ON

---
 postbound/transform.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 2cd7e3b..b128eba 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1493,9 +1493,15 @@ def rename_columns_in_expression(
         renamed_first_arg = rename_columns_in_expression(
             expression.first_arg, available_renamings
         )
-        renamed_second_arg = rename_columns_in_expression(
-            expression.second_arg, available_renamings
-        )
+        if isinstance(expression.second_arg, tuple):
+            renamed_second_arg = [
+                rename_columns_in_expression(arg, available_renamings)
+                for arg in expression.second_arg
+            ]
+        else:
+            renamed_second_arg = rename_columns_in_expression(
+                expression.second_arg, available_renamings
+            )
         return MathExpression(
             expression.operator, renamed_first_arg, renamed_second_arg
         )
@@ -1522,17 +1528,23 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
@@ -1875,7 +1887,15 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        renamed_distinct = (
+            [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in clause.distinct_on
+            ]
+            if clause.distinct == "on"
+            else clause.distinct_specifier()
+        )
+        return Select(renamed_targets, distinct=renamed_distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
-- 
2.43.0


From c74c3871376d5302a8c79717ae9395040144f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 062/248] fix: Keep VALUES lists when renaming columns

---
 postbound/transform.py | 107 ++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 50 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index b128eba..0c03d2c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1711,6 +1711,40 @@ def rename_columns_in_predicate(
         raise ValueError("Unknown predicate type: " + str(predicate))
 
 
+def _rename_values_columns(
+    columns: Sequence[ColumnReference],
+    available_renamings: dict[ColumnReference, ColumnReference],
+) -> list[ColumnReference]:
+    """Handler to rename the column specification of a *VALUES* list.
+
+    Parameters
+    ----------
+    columns : Sequence[ColumnReference]
+        The current columns of the list
+    available_renamings : dict[ColumnReference, ColumnReference]
+        A dictionary mapping each of the old column values to the values that should be used instead.
+
+    Returns
+    -------
+    list[ColumnReference]
+        The renamed columns
+
+    Raises
+    ------
+    ValueError
+        If a column should be moved to a different table
+    """
+    renamed_columns: list[ColumnReference] = []
+    for current_col in columns:
+        target_col = available_renamings.get(current_col, current_col)
+        if current_col.table != target_col.table:
+            raise ValueError(
+                "Cannot rename columns in a VALUES table source to a different table"
+            )
+        renamed_columns.append(target_col)
+    return renamed_columns
+
+
 def _rename_columns_in_table_source(
     table_source: TableSource,
     available_renamings: dict[ColumnReference, ColumnReference],
@@ -1769,39 +1803,24 @@ def _rename_columns_in_table_source(
             )
 
         case ValuesTableSource():
-            if not any(
-                col.belongs_to(table_source.table) for col in available_renamings
-            ):
-                return table_source
-
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(table_source.table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
+            return ValuesTableSource(
+                [
+                    tuple(
+                        rename_columns_in_expression(val, available_renamings)
+                        for val in row
                     )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = table_source.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                table_source = ValuesTableSource(
-                    table_source.rows,
-                    alias=table_source.table.identifier(),
-                    columns=new_col_spec,
-                )
-            return table_source
+                    for row in table_source.rows
+                ],
+                alias=table_source.table or "",
+                columns=_rename_values_columns(table_source.cols, available_renamings),
+            )
 
         case FunctionTableSource():
             renamed_function = rename_columns_in_expression(
                 table_source.function, available_renamings
             )
             return FunctionTableSource(
-                renamed_function, alias=table_source.target_table
+                renamed_function, alias=table_source.target_table or ""
             )
 
         case _:
@@ -1850,33 +1869,21 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
-            renamed_cte = cte
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(cte.target_table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                renamed_cte = ValuesWithQuery(
-                    cte.rows,
+            renamed_rows = [
+                tuple(
+                    rename_columns_in_expression(val, available_renamings)
+                    for val in row
+                )
+                for row in cte.rows
+            ]
+            renamed_ctes.append(
+                ValuesWithQuery(
+                    renamed_rows,
                     target_name=cte.target_table,
-                    columns=new_col_spec,
+                    columns=_rename_values_columns(cte.cols, available_renamings),
                     materialized=cte.materialized,
                 )
-
-            renamed_ctes.append(renamed_cte)
+            )
 
         return CommonTableExpression(renamed_ctes, recursive=clause.recursive)
     if isinstance(clause, Select):
-- 
2.43.0


From efa43c60864d741b9bad1bee25ed91f9bdeaabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 063/248] fix: Rename tables in all parts of a query

---
 postbound/transform.py | 64 ++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0c03d2c..38e625c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1997,9 +1997,19 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
-            nested_renamings = cte.query.accept_visitor(self)
-            nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        self._rename_values(cte.rows),
+                        target_name=target_table,
+                        columns=cte.cols,
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+
+            nested_query = self._rename_query(cte.query)
 
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
@@ -2014,7 +2024,12 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        renamed_distinct = (
+            [expr.accept_visitor(self) for expr in clause.distinct_on]
+            if clause.distinct == "on"
+            else clause.distinct_specifier()
+        )
+        return Select(projections, distinct=renamed_distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
@@ -2085,28 +2100,28 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
@@ -2274,7 +2289,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
@@ -2286,7 +2301,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2296,8 +2311,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
@@ -2332,17 +2347,30 @@ class _TableReferenceRenamer(
                 )
 
             case ValuesTableSource(rows, alias, columns):
-                renamed_alias = self._rename_table(alias)
-                return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
+                renamed_alias = self._rename_table(alias) if alias else ""
+                return ValuesTableSource(
+                    self._rename_values(rows), alias=renamed_alias, columns=columns
+                )
 
-            case FunctionTableSource(function, alias):
+            case FunctionTableSource(function):
                 renamed_function = function.accept_visitor(self)
-                renamed_alias = self._rename_table(alias) if alias else ""
+                renamed_alias = (
+                    self._rename_table(source.target_name) if source.target_name else ""
+                )
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
 
             case _:
                 raise ValueError("Unknown table source type: " + str(source))
 
+    def _rename_query[T: SelectStatement](self, query: T) -> T:
+        """Helper method to rename all tables in a nested query."""
+        renamed_clauses = query.accept_visitor(self)
+        return build_query(renamed_clauses.values())
+
+    def _rename_values(self, rows: ValuesList) -> list[tuple[SqlExpression, ...]]:
+        """Helper method to rename all tables in the rows of a *VALUES* list."""
+        return [tuple(val.accept_visitor(self) for val in row) for row in rows]
+
     @overload
     def _rename_table(self, table: TableReference) -> TableReference: ...
 
-- 
2.43.0


From 14b2b95307b36557410d1e1c68bcac1c794273fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 064/248] fix: Do not drop other tables when renaming to a
 table that is already part of the query

---
 postbound/transform.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 38e625c..5290edb 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2032,24 +2032,22 @@ class _TableReferenceRenamer(
         return Select(projections, distinct=renamed_distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
-        used_identifieres = set(tab.identifier() for tab in clause.tables())
+        used_identifieres = set(
+            tab.identifier() for tab in clause.tables() if tab not in self._renamings
+        )
         intersect = used_identifieres & self._renaming_targets
         match clause:
             case ImplicitFromClause(tables):
-                renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
-                    return ImplicitFromClause(renamed_tables)
-
-                separate_tables = used_identifieres - intersect
+                # if multiple tables are renamed to the same target, it should only appear once
                 final_tables: list[DirectTableSource] = []
-                for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
+                for src in tables:
+                    renamed_src = self._rename_table_source(src)
+                    if (
+                        renamed_src.identifier() in self._renaming_targets
+                        and renamed_src in final_tables
+                    ):
                         continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
+                    final_tables.append(renamed_src)
                 return ImplicitFromClause(final_tables)
 
             case ExplicitFromClause(join):
-- 
2.43.0


From 95d1f9dcfbcbb0397d741026a396fd3d82dea250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 065/248] fix: Bind columns to the correct table when renaming
 multiple tables

---
 postbound/transform.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 5290edb..de14c77 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2460,12 +2460,11 @@ def rename_table[T: SelectStatement](
     # column prefixes.
     necessary_renamings: dict[ColumnReference, ColumnReference] = {}
     for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
-        new_column_name = (
-            f"{column.table.identifier()}_{column.name}"
-            if prefix_column_names
-            else column.name
-        )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
+        if not prefix_column_names:
+            continue
+        # the _TableReferenceRenamer takes care of binding the new columns to the correct table
+        new_column_name = f"{column.table.identifier()}_{column.name}"
+        necessary_renamings[column] = ColumnReference(new_column_name, column.table)
 
     renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
 
-- 
2.43.0


From 125e24eb2ade95a66753731b1422489f03860309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 066/248] fix: Keep all predicates when adding equivalence
 class predicates

---
 postbound/transform.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index de14c77..3e73dbb 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -61,6 +61,7 @@ from .qal import (
     JoinTableSource,
     JoinType,
     Limit,
+    LogicalOperator,
     MathExpression,
     MixedSqlQuery,
     OrderBy,
@@ -659,12 +660,31 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
+    # only predicates that have to be satisfied by all tuples allow us to infer additional predicates
+    predicate = flatten_and_predicate(query.where_clause.predicate)
+    if (
+        isinstance(predicate, CompoundPredicate)
+        and predicate.operation == CompoundOperator.And
+    ):
+        conjuncts = list(predicate.children)
+    else:
+        conjuncts = [predicate]
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
+    ec_classes = determine_join_equivalence_classes(conjuncts)
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
+    existing_joins = {
+        frozenset((pred.first_argument, pred.second_argument))
+        for pred in conjuncts
+        if isinstance(pred, BinaryPredicate) and pred.operation == LogicalOperator.Equal
+    }
+    inferred_predicates = [
+        pred
+        for pred in ec_predicates
+        if frozenset((pred.first_argument, pred.second_argument)) not in existing_joins
+    ]
+
+    all_predicates = conjuncts + inferred_predicates
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From 197ad58646a18f22a0ebc59254e856bbe92b3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 067/248] fix: Also drop subclasses of the requested clause
 types

---
 postbound/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 3e73dbb..795a486 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -929,7 +929,9 @@ def drop_clause[T: SelectStatement](query: T, clauses_to_drop: ClauseDescription
         for drop in clauses_to_drop
     }
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in clauses_to_drop
+        clause
+        for clause in query.clauses()
+        if not isinstance(clause, tuple(clauses_to_drop))
     ]
     return build_query(remaining_clauses)
 
-- 
2.43.0


From 6c1d249d7289bc8ef14c7527689fd257c26ed038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 068/248] fix: Retain table order, hints and cross joins in
 explicit_to_implicit

---
 postbound/transform.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 795a486..764df3c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -208,9 +208,15 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
             case JoinTableSource() if (
                 current_table_source.join_type == JoinType.InnerJoin
             ):
-                join_working_set.append(current_table_source.left)
+                # the left side needs to be processed first to retain the order of the tables
                 join_working_set.append(current_table_source.right)
+                join_working_set.append(current_table_source.left)
                 additional_predicates.append(current_table_source.join_condition)
+            case JoinTableSource() if (
+                current_table_source.join_type == JoinType.CrossJoin
+            ):
+                join_working_set.append(current_table_source.right)
+                join_working_set.append(current_table_source.left)
             case _:
                 raise ValueError(
                     "Unsupported table source type: " + str(type(current_table_source))
@@ -219,14 +225,14 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     final_from_clause = ImplicitFromClause.create_for(complete_from_tables)
 
     if source_query.where_clause:
-        final_predicate = CompoundPredicate.create_and(
-            [source_query.where_clause.predicate] + additional_predicates
-        )
-    else:
-        final_predicate = CompoundPredicate.create_and(additional_predicates)
+        additional_predicates.insert(0, source_query.where_clause.predicate)
 
-    final_predicate = flatten_and_predicate(final_predicate)
-    final_where_clause = Where(final_predicate)
+    if additional_predicates:
+        final_predicate = CompoundPredicate.create_and(additional_predicates)
+        final_predicate = flatten_and_predicate(final_predicate)
+        final_where_clause = Where(final_predicate)
+    else:
+        final_where_clause = None
 
     return ImplicitSqlQuery(
         select_clause=source_query.select_clause,
@@ -237,6 +243,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From 1597645b5f6b0fea357316a1f0c9a159a45586b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 069/248] fix: Extract fragments of negated predicates

---
 postbound/transform.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 764df3c..3a20712 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -286,6 +286,14 @@ def _get_predicate_fragment(
         return predicate if predicate.tables().issubset(referenced_tables) else None
 
     compound_predicate: CompoundPredicate = predicate
+    if compound_predicate.operation == CompoundOperator.Not:
+        negated_fragment = _get_predicate_fragment(
+            compound_predicate.children, referenced_tables
+        )
+        return (
+            CompoundPredicate.create_not(negated_fragment) if negated_fragment else None
+        )
+
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
         for child in compound_predicate.children
@@ -293,10 +301,7 @@ def _get_predicate_fragment(
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
         return None
-    elif (
-        len(child_fragments) == 1
-        and compound_predicate.operation != CompoundOperator.Not
-    ):
+    elif len(child_fragments) == 1:
         return child_fragments[0]
     else:
         return CompoundPredicate(compound_predicate.operation, child_fragments)
-- 
2.43.0


From 139f8fe6c8385f3d84c0dedd828a9dee6c68f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 070/248] fix: Keep all suitable projections and DISTINCT ON
 expressions in query fragments

---
 postbound/transform.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 3a20712..48f32c8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -421,17 +421,22 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
+            if source_query.select_clause.distinct == "on":
+                distinct_fragment = [
+                    expr
+                    for expr in source_query.select_clause.distinct_on
+                    if expr.tables().issubset(referenced_tables)
+                ]
+            else:
+                distinct_fragment = source_query.select_clause.is_distinct()
+
             if select_fragment:
-                select_clause = Select(
-                    select_fragment, distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select(select_fragment, distinct=distinct_fragment)
             else:
-                select_clause = Select.star(
-                    distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select.star(distinct=distinct_fragment)
 
         case "star" | "*":
             select_clause = Select.star()
-- 
2.43.0


From 106255282b7db354d325c2dacec6af301985bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 071/248] fix: Retain the table order in query fragments

---
 postbound/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 48f32c8..9e508de 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -448,10 +448,13 @@ def extract_query_fragment(
             raise ValueError("Invalid projection type: " + str(projection))
 
     if source_query.from_clause:
+        # retain the order of the original FROM clause, it determines the columns of a SELECT * query
+        from_tables = [src.table for src in source_query.from_clause.items]
+        nested_tables = sorted(referenced_tables - set(from_tables))
         from_clause = ImplicitFromClause(
             [
                 DirectTableSource(tab)
-                for tab in source_query.tables()
+                for tab in from_tables + nested_tables
                 if tab in referenced_tables
             ]
         )
-- 
2.43.0


From 638aa75e76f16ef23ffd398bf31313a55cc26909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 072/248] fix: Extract fragments of set queries over different
 tables

---
 postbound/transform.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 9e508de..f5e8d7e 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -402,10 +402,19 @@ def extract_query_fragment(
         orderby_clause = None
 
     if isinstance(source_query, SetQuery):
-        left_query = extract_query_fragment(source_query.left_query, referenced_tables)
+        left_tables = source_query.left_query.tables() & referenced_tables
+        right_tables = source_query.right_query.tables() & referenced_tables
+        if not left_tables or not right_tables:
+            return None
+
+        left_query = extract_query_fragment(
+            source_query.left_query, left_tables, projection=projection
+        )
         right_query = extract_query_fragment(
-            source_query.right_query, referenced_tables
+            source_query.right_query, right_tables, projection=projection
         )
+        if left_query is None or right_query is None:
+            return None
         return SetQuery(
             left_query,
             right_query,
-- 
2.43.0


From ab6681891cbcd38973602fe2ae41253b8311ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 073/248] fix: Keep the CTEs that are required by a query
 fragment

---
 postbound/transform.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index f5e8d7e..753cd4a 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -376,15 +376,17 @@ def extract_query_fragment(
     if not referenced_tables.issubset(source_query.tables()):
         return None
 
-    cte_fragment = (
-        [
-            with_query
-            for with_query in source_query.cte_clause.queries
-            if with_query.target_table in referenced_tables
-        ]
-        if source_query.cte_clause
-        else []
-    )
+    cte_fragment: list[WithQuery] = []
+    if source_query.cte_clause:
+        # CTEs can only reference the CTEs that have been defined before (or themselves)
+        required_ctes = {tab.full_name or tab.identifier() for tab in referenced_tables}
+        for with_query in reversed(source_query.cte_clause.queries):
+            if with_query.target_name not in required_ctes:
+                continue
+            cte_fragment.insert(0, with_query)
+            required_ctes |= {
+                tab.full_name or tab.identifier() for tab in with_query.query.tables()
+            }
     cte_clause = (
         CommonTableExpression(cte_fragment, recursive=source_query.cte_clause.recursive)
         if cte_fragment
-- 
2.43.0


From 79a5fea18116470ef755a648c73375d0787d2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 074/248] fix: Repair moving tables into subqueries

---
 postbound/transform.py | 83 ++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 753cd4a..c4764a5 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -587,6 +587,8 @@ def move_into_subquery(
         If the query contains virtual tables
     ValueError
         If `tables` contains less than 2 entries. In this case, using a subquery is completely pointless.
+    ValueError
+        If some of the `tables` are part of an explicit join with other tables.
     ValueError
         If the tables that should become part of the subquery both provide columns of the same name, and these columns are used
         in the rest of the query. This level of renaming is currently not accounted for.
@@ -602,10 +604,42 @@ def move_into_subquery(
     if len(tables) < 2:
         raise ValueError("At least two tables required")
 
-    predicates = query.predicates()
+    subquery_sources: list[TableSource] = []
+    remaining_sources: list[TableSource] = []
+    for table_source in query.from_clause.items:
+        source_tables = table_source.tables()
+        if source_tables <= tables:
+            subquery_sources.append(table_source)
+        elif source_tables & tables:
+            raise ValueError(
+                "Cannot create subquery: tables are joined explicitly with other tables"
+            )
+        else:
+            remaining_sources.append(table_source)
+
+    # we can only move predicates that have to be satisfied by all tuples
+    subquery_predicates: list[AbstractPredicate] = []
+    remaining_predicates: list[AbstractPredicate] = []
+    if query.where_clause:
+        predicate = flatten_and_predicate(query.where_clause.predicate)
+        if (
+            isinstance(predicate, CompoundPredicate)
+            and predicate.operation == CompoundOperator.And
+        ):
+            conjuncts = list(predicate.children)
+        else:
+            conjuncts = [predicate]
+        for conjunct in conjuncts:
+            if conjunct.tables() and conjunct.tables() <= tables:
+                subquery_predicates.append(conjunct)
+            else:
+                remaining_predicates.append(conjunct)
+
     all_referenced_columns = util.set_union(
-        clause.columns() for clause in query.clauses() if not isinstance(clause, From)
-    )
+        clause.columns()
+        for clause in query.clauses()
+        if not isinstance(clause, (From, Where))
+    ) | util.set_union(pred.columns() for pred in remaining_predicates)
     columns_from_subquery_tables = {
         column for column in all_referenced_columns if column.table in tables
     }
@@ -616,25 +650,23 @@ def move_into_subquery(
             "Cannot create subquery: subquery tables export columns of the same name"
         )
 
-    subquery_name = subquery_name if subquery_name else _default_subquery_name(tables)
+    subquery_name = (
+        subquery_name if subquery_name else _default_subquery_name(sorted(tables))
+    )
     subquery_table = TableReference.create_virtual(subquery_name)
     renamed_columns = {
         column: ColumnReference(column.name, subquery_table)
         for column in columns_from_subquery_tables
     }
 
-    subquery_predicates: list[AbstractPredicate] = []
-    for table in tables:
-        filter_predicate = predicates.filters_for(table)
-        if not filter_predicate:
-            continue
-        subquery_predicates.append(filter_predicate)
-    join_predicates = predicates.joins_between(tables, tables)
-    if join_predicates:
-        subquery_predicates.append(join_predicates)
-
-    subquery_select = Select.create_for(columns_from_subquery_tables)
-    subquery_from = ImplicitFromClause.create_for(tables)
+    if columns_from_subquery_tables:
+        subquery_select = Select.create_for(sorted(columns_from_subquery_tables))
+    else:
+        subquery_select = Select(BaseProjection(StaticValueExpression(1)))
+    if all(isinstance(source, DirectTableSource) for source in subquery_sources):
+        subquery_from = ImplicitFromClause(subquery_sources)
+    else:
+        subquery_from = From(subquery_sources)
     subquery_where = (
         Where(CompoundPredicate.create_and(subquery_predicates))
         if subquery_predicates
@@ -644,22 +676,17 @@ def move_into_subquery(
     subquery = build_query(clause for clause in subquery_clauses if clause)
     subquery_table_source = SubqueryTableSource(subquery, subquery_name)
 
-    updated_from_sources = [
-        table_source
-        for table_source in query.from_clause.items
-        if not table_source.tables() < tables
-    ]
-    update_from_clause = ImplicitFromClause.create_for(
-        updated_from_sources + [subquery_table_source]
+    updated_from_clause = From(remaining_sources + [subquery_table_source])
+    updated_where_clause = (
+        Where(CompoundPredicate.create_and(remaining_predicates))
+        if remaining_predicates
+        else None
     )
-    updated_predicate = query.where_clause.predicate if query.where_clause else None
-    for predicate in subquery_predicates:
-        updated_predicate = remove_predicate(updated_predicate, predicate)
-    updated_where_clause = Where(updated_predicate) if updated_predicate else None
 
     updated_query = drop_clause(query, [From, Where])
     updated_query = add_clause(
-        updated_query, [update_from_clause, updated_where_clause]
+        updated_query,
+        [clause for clause in (updated_from_clause, updated_where_clause) if clause],
     )
 
     updated_other_clauses: list[BaseClause] = []
-- 
2.43.0


From 484af6619c1db3c7a32f3c66da65b5737fa024d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 075/248] fix: JoinTree.is_linear considers all joins of the
 tree

---
 postbound/_hints.py    |  4 +++-
 postbound/opt/tonic.py | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..c4330af 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1425,7 +1425,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        return all(
+            join._outer.is_scan() or join._inner.is_scan() for join in self.iterjoins()
+        )
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..5400008 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -143,6 +143,13 @@ def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
     return list(_iterate_join_tree(right_child)) + [current_node]
 
 
+def _joins_intermediates(node: JoinTree | QueryPlan) -> bool:
+    """Checks, whether both inputs of a join are themselves the result of a join."""
+    if isinstance(node, QueryPlan):
+        return not any(child.is_scan_branch() for child in node.children)
+    return node.outer_child.is_join() and node.inner_child.is_join()
+
+
 def _normalize_filter_predicate(
     tables: TableReference | Iterable[TableReference],
     filter_predicate: Optional[qal.AbstractPredicate],
@@ -461,7 +468,7 @@ class QEPsNode:
                 JoinOperatorAssignment(recommendation, self.tables())
             )
 
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
@@ -558,7 +565,7 @@ class QEPsNode:
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
+        if _joins_intermediates(next_node):
             first_child, second_child = (
                 (second_child, first_child)
                 if second_child.plan_depth() < first_child.plan_depth()
@@ -643,7 +650,7 @@ class QEPsNode:
             unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
 
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
-- 
2.43.0


From 11e9c4230fb1806ed504e2baec1ec3737813cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 076/248] fix: update_annotation and join_with of logical join
 trees return logical join trees

---
 postbound/_hints.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index c4330af..2515c56 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1509,12 +1509,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         """
         if self.is_empty():
             raise StateError("Cannot update annotation of an empty join tree.")
-        return JoinTree(
-            base_table=self._table,
-            outer_child=self._outer,
-            inner_child=self._inner,
-            annotation=new_annotation,
-        )
+        if self.is_scan():
+            return type(self).scan(self._table, annotation=new_annotation)
+        return type(self).join(self._outer, self._inner, annotation=new_annotation)
 
     def join_with(
         self,
@@ -1557,12 +1554,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = type(self).scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return type(self).join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1598,7 +1595,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return type(self).scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
-- 
2.43.0


From c0832b13c59dd5f398b49520975e6c390a047d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 077/248] fix: join trees of query plans are logical join trees

---
 postbound/_hints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 2515c56..e9b3a78 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1771,16 +1771,16 @@ def jointree_from_plan(
     actual cardinalities of the query plan.
     """
     card = (
-        plan.estimated_cardinality
-        if card_source == "estimates"
-        else plan.actual_cardinality
+        plan.actual_cardinality
+        if card_source == "actual"
+        else plan.estimated_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
-- 
2.43.0


From 0273d69728bdb895898d28c6e4743d41c7bd1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 078/248] fix: reading logical join trees from JSON

---
 postbound/opt/_helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..2d808b1 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -7,6 +7,7 @@ from typing import Literal, Optional, Union
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -655,15 +656,19 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    tree_type = JoinTree
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality.of(annotation)
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
 
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
-- 
2.43.0


From 62bb8763790d92d66a2a328d720b3b0ab296b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 079/248] fix: find_first_node searches the subplans of all
 nodes

---
 postbound/_qep.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..543c029 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1483,30 +1483,14 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
 
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        candidates = self.children if direction == "outer" else self.children[::-1]
+        for candidate in candidates:
+            match = candidate.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match is not None:
+                return match
 
         return (
             self._subplan.root.find_first_node(
-- 
2.43.0


From 1cf6b91911b53521dda58501dbc2460ea7dc9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 080/248] fix: shape checks of query plans consider all joins

---
 postbound/_qep.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 543c029..fe8716d 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1281,22 +1281,18 @@ class QueryPlan:
 
         As a special case, scan nodes are considered to be linear as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return all(
+            any(not child._contains_joins() for child in join.children)
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return not self.is_linear()
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1304,10 +1300,11 @@ class QueryPlan:
         Left deep order means that the plan is linear and all joins are performed with the base table as the inner relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return not any(
+            join.inner_child._contains_joins()
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1315,10 +1312,11 @@ class QueryPlan:
         Right deep order means that the plan is linear and all joins are performed with the base table as the outer relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return not any(
+            join.outer_child._contains_joins()
+            for join in self.iternodes()
+            if join.is_join()
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
@@ -1331,6 +1329,10 @@ class QueryPlan:
             return True
         return self.is_linear() and not self.is_left_deep() and not self.is_right_deep()
 
+    def _contains_joins(self) -> bool:
+        """Checks, whether the current node or any of its inputs is a join. Subplans are not considered."""
+        return any(node.is_join() for node in self.iternodes())
+
     def is_scan_branch(self) -> bool:
         """Checks, whether the current node directly leads to a scan node.
 
-- 
2.43.0


From 6f1549c5a27da4062375b18a3cf8e138cbc52120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 081/248] fix: q-errors are not rounded and undefined without
 estimate or measurement

---
 postbound/_qep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index fe8716d..100b79d 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1574,12 +1574,12 @@ class QueryPlan:
         numerator as well as the denominator to prevent infinity errors for nodes that do not process any rows (e.g. due to
         pruning).
         """
-        if not self.is_analyze():
+        if self.estimated_cardinality.isnan() or self.actual_cardinality.isnan():
             return math.nan
 
-        larger = max(self.estimated_cardinality, self.actual_cardinality) + 1
-        smaller = min(self.estimated_cardinality, self.actual_cardinality) + 1
-        return larger / smaller
+        estimated = self.estimated_cardinality.get()
+        actual = self.actual_cardinality.get()
+        return (max(estimated, actual) + 1) / (min(estimated, actual) + 1)
 
     def parallelize(self, workers: int) -> QueryPlan:
         """Creates a parallel version of the query plan with the specified number of workers.
-- 
2.43.0


From 50396db872f37e7a0b43c84b89d3d99e5970bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 082/248] fix: with_actual_card updates nodes without
 measurements

---
 postbound/_qep.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 100b79d..5d6ec5c 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1661,26 +1661,19 @@ class QueryPlan:
             A new query plan with the actual cardinality as the estimated cardinality and the actual execution time as the
             estimated cost. The current plan is not changed.
         """
-        if self.actual_cardinality:
-            updated_cardinality = (
-                self.estimated_cardinality
-                if ignore_nan and self.actual_cardinality.isnan()
-                else self.actual_cardinality
-            )
-            updated_cost = (
-                cost_estimator(self, updated_cardinality)
-                if cost_estimator
-                else math.nan
-            )
-            updated_estimates = PlanEstimates(
-                cardinality=updated_cardinality,
-                cost=updated_cost,
-                **(self._estimates.additional_estimates),
-            )
-            updated_measures = None
-        else:
-            updated_estimates = self._estimates
-            updated_measures = None
+        updated_cardinality = (
+            self.estimated_cardinality
+            if ignore_nan and self.actual_cardinality.isnan()
+            else self.actual_cardinality
+        )
+        updated_cost = (
+            cost_estimator(self, updated_cardinality) if cost_estimator else math.nan
+        )
+        updated_estimates = PlanEstimates(
+            cardinality=updated_cardinality,
+            cost=updated_cost,
+            **(self._estimates.additional_estimates),
+        )
 
         updated_children = [
             child.with_actual_card(cost_estimator=cost_estimator, ignore_nan=ignore_nan)
@@ -1701,7 +1694,7 @@ class QueryPlan:
             children=updated_children,
             plan_params=self.params,
             estimates=updated_estimates,
-            measures=updated_measures,
+            measures=None,
             subplan=updated_subplan,
         )
 
-- 
2.43.0


From 538b6765565c89a2d4566840b9280e5477b10631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 083/248] fix: scale_cardinality keeps cache measurements and
 only scales subplans recursively

---
 postbound/_qep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 5d6ec5c..d8040ca 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1740,6 +1740,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1751,13 +1753,13 @@ class QueryPlan:
         else:
             updated_children = self.children
 
-        if self.subplan:
+        if self.subplan and recursive:
             updated_subplan_root = self.subplan.root.scale_cardinality(
                 factor, kind=kind, recursive=recursive
             )
             updated_subplan = Subplan(updated_subplan_root, self.subplan.target_name)
         else:
-            updated_subplan = None
+            updated_subplan = self.subplan
 
         return QueryPlan(
             self.node_type,
-- 
2.43.0


From b1f7cf574a0b275c39fc70261892a703d9e99396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 084/248] fix: containment checks of plans and sort keys

---
 postbound/_qep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index d8040ca..74cf9db 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
@@ -328,7 +328,8 @@ class PlanParams:
         set[ColumnReference]
             The columns
         """
-        return self.filter_predicate.columns() if self.filter_predicate else set()
+        columns = self.filter_predicate.columns() if self.filter_predicate else set()
+        return columns | self.lookup_key.columns() if self.lookup_key else columns
 
     def get(self, key: str, default: Any = None) -> Any:
         """Retrieves the value of a specific key from the parameters.
@@ -1908,7 +1909,7 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif isinstance(key, Iterable) and not isinstance(key, str):
             return set(key).issubset(self.tables())
 
         return (
-- 
2.43.0


From fca67a4d2aa3be46e2747f8e37f7439d7d9b28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 085/248] fix: operator lookup of single tables

---
 postbound/_hints.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index e9b3a78..8a5aa22 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -458,11 +458,9 @@ class PhysicalOperatorAssignment:
             return self.scan_operators.get(intermediate, default)
 
         intermediate_set = frozenset(intermediate)
-        return (
-            self.scan_operators.get(intermediate)
-            if len(intermediate_set) == 1
-            else self.join_operators.get(intermediate_set, default)
-        )
+        if len(intermediate_set) == 1:
+            return self.scan_operators.get(util.simplify(intermediate_set), default)
+        return self.join_operators.get(intermediate_set, default)
 
     def inspect(self) -> str:
         padding = "  "
@@ -554,22 +552,18 @@ class PhysicalOperatorAssignment:
             return item in self.scan_operators
 
         items = frozenset(item)
-        return (
-            item in self.scan_operators
-            if len(items) == 1
-            else items in self.join_operators
-        )
+        if len(items) == 1:
+            return util.simplify(items) in self.scan_operators
+        return items in self.join_operators
 
     def __getitem__(
         self,
-        item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
+        item: TableReference | Iterable[TableReference] | PhysicalOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, PhysicalOperator):
             return self.global_settings.get(item, None)
-        elif isinstance(item, TableReference):
-            return self.scan_operators.get(item, None)
-        elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+        elif isinstance(item, (TableReference, Iterable)):
+            return self.get(item)
         else:
             return None
 
-- 
2.43.0


From ca34768383339fd43638cfb1c7c0d3b9612d7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 086/248] fix: overwrite_fine_grained_selection removes
 contradicting assignments

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 8a5aa22..f0f0462 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
-- 
2.43.0


From 071d337a55c38b82f74ab83230581b7b026fefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 087/248] fix: equality of operator assignments considers
 intermediate operators

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index f0f0462..2ec4b82 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -573,6 +573,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -582,6 +583,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From cda243e68c987c7c057d27d1e58e0eedd2148211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 088/248] fix: equality of operator assignments without
 parallel workers

---
 postbound/_hints.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 2ec4b82..23990a5 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -875,6 +875,11 @@ class PlanParameterization:
         )
 
 
+def _workers_or_none(workers: float | int) -> Optional[float | int]:
+    """Provides a representation of the parallel workers that is comparable, even if no choice has been made."""
+    return None if math.isnan(workers) else workers
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -898,7 +903,9 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._table, _workers_or_none(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -963,7 +970,8 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _workers_or_none(self.parallel_workers)
+            == _workers_or_none(other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1012,7 +1020,9 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._join, _workers_or_none(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1101,7 +1111,8 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _workers_or_none(self._parallel_workers)
+            == _workers_or_none(other._parallel_workers)
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 80ef0b41452fb03f5c1ba4a73f0cebd9e26d83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 089/248] fix: string representation of intermediate operators

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 23990a5..716584e 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -608,11 +608,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (op, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, op in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {op.value}" for op, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 9f2b057e754b0b794a199ad798b85c5ebdf02834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 090/248] fix: JSON of operator assignments keeps workers and
 directions

---
 postbound/_hints.py       |  8 ++++++--
 postbound/opt/_helpers.py | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 716584e..ba5e12e 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -499,11 +499,15 @@ class PhysicalOperatorAssignment:
         jsonized = {
             "global_settings": [],
             "scan_operators": [
-                {"table": scan.table, "operator": scan.operator}
+                {
+                    "table": scan.table,
+                    "operator": scan.operator,
+                    "parallel_workers": scan.parallel_workers,
+                }
                 for scan in self.scan_operators.values()
             ],
             "join_operators": [
-                {"intermediate": join.join, "operator": join.operator}
+                {"intermediate": join.join} | join.__json__()
                 for join in self.join_operators.values()
             ],
             "intermediate_operators": [
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 2d808b1..30a9adf 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -120,16 +120,28 @@ def read_operator_assignment_json(json_data: dict | str) -> PhysicalOperatorAssi
     for hint in json_data.get("scan_operators", []):
         parsed_table = parser.load_table_json(hint["table"])
         assignment.scan_operators[parsed_table] = ScanOperatorAssignment(
-            ScanOperator(hint["operator"]), parsed_table
+            ScanOperator(hint["operator"]),
+            parsed_table,
+            hint.get("parallel_workers", math.nan),
         )
 
     for hint in json_data.get("join_operators", []):
         parsed_tables = frozenset(
             parser.load_table_json(tab) for tab in hint["intermediate"]
         )
-        assignment.join_operators[parsed_tables] = JoinOperatorAssignment(
-            JoinOperator(hint["operator"]), parsed_tables
-        )
+        join_operator = JoinOperator(hint["operator"])
+        parallel_workers = hint.get("parallel_workers", math.nan)
+        if hint.get("directional", False):
+            inner = [parser.load_table_json(tab) for tab in hint["inner"]]
+            outer = [parser.load_table_json(tab) for tab in hint["outer"]]
+            join_assignment = DirectionalJoinOperatorAssignment(
+                join_operator, inner, outer, parallel_workers=parallel_workers
+            )
+        else:
+            join_assignment = JoinOperatorAssignment(
+                join_operator, parsed_tables, parallel_workers=parallel_workers
+            )
+        assignment.join_operators[parsed_tables] = join_assignment
 
     for hint in json_data.get("intermediate_operators", []):
         parsed_tables = frozenset(
-- 
2.43.0


From 59aff69f6032f46fd5f0c0dcf6be6db9488c7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 091/248] fix: merge_with keeps the execution mode

---
 postbound/_hints.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index ba5e12e..fc9ed62 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -826,6 +826,11 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            self.execution_mode
+            if other_parameters.execution_mode is None
+            else other_parameters.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
-- 
2.43.0


From 0d8f7bede98269b883c9b1efdc9f88de8744cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 092/248] fix: JSON representation of plan parameters

---
 postbound/_hints.py       | 12 ++++++++++--
 postbound/opt/_helpers.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index fc9ed62..94afd83 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -870,8 +870,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"tables": tables, "cardinality": cardinality}
+                for tables, cardinality in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"tables": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 30a9adf..19764b5 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -169,14 +169,14 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     """
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
-    params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
-    }
-    params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
-    }
+    for hint in json_data.get("cardinality_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["tables"]]
+        params.add_cardinality(tables, hint["cardinality"])
+    for hint in json_data.get("parallel_worker_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["tables"]]
+        params.set_workers(tables, hint["workers"])
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode")
     return params
 
 
-- 
2.43.0


From c81407315eaed84ad2fa7952c2427435b81d09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 093/248] fix: update_plan

---
 postbound/opt/_helpers.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 19764b5..62d5f1b 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -225,37 +225,41 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
+    tables = frozenset(query_plan.tables())
+    new_operator = (
+        operators.get(tables)
+        if operators and not query_plan.is_auxiliary()
+        else None
     )
+    if new_operator and new_operator.operator != query_plan.operator:
+        node_type = new_operator.operator.name
+        updated_operator = new_operator.operator
+    else:
+        node_type, updated_operator = query_plan.node_type, query_plan.operator
     updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
+        params.cardinalities.get(tables, query_plan.estimated_cardinality)
         if params
         else query_plan.estimated_cardinality
     )
     updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
+        params.parallel_workers.get(tables, query_plan.params.parallel_workers)
         if params
         else query_plan.params.parallel_workers
     )
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=simplify)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
-- 
2.43.0


From 1f8f27f2c2ddad5635e66607d3f0a3b32b4a064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 094/248] fix: query plans from join trees

---
 postbound/opt/_helpers.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 62d5f1b..e024d59 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -365,7 +365,12 @@ def _make_simple_plan(
         children = []
 
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=join_tree.base_table if join_tree.is_scan() else None,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
     filter_condition = (
@@ -378,8 +383,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=join_tree.base_table if join_tree.is_scan() else None,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_condition,
     )
 
 
@@ -412,7 +418,8 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assignment = physical_ops.get(tables)
+    operator = assignment.operator if assignment else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
@@ -421,20 +428,28 @@ def _make_custom_plan(
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
-        )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        base_table = None
+        outer_plan, inner_plan = (
+            _make_custom_plan(
+                child,
+                physical_ops=physical_ops,
+                query=query,
+                plan_params=plan_params,
+                fallback_scan_op=fallback_scan_op,
+                fallback_join_op=fallback_join_op,
+            )
+            for child in join_tree.children
         )
         children = (outer_plan, inner_plan)
     else:
+        base_table = join_tree.base_table
         children = []
 
     if query is None:
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
@@ -450,8 +465,9 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_condition,
             parallel_workers=par_workers,
         )
 
-- 
2.43.0


From fd8d67d2e1a6cb829ddec8978213c9c464c64b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 095/248] fix: operators_from_plan includes the workers of all
 nodes

---
 postbound/_hints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 94afd83..eaeebd9 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1868,7 +1868,9 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
@@ -1886,10 +1888,10 @@ def operators_from_plan(
                 parallel_workers=workers,
             )
             assignment.add(operator)
-        case _:
+        case IntermediateOperator():
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From aa8870d3525345c28b8f71e7c9789b9ad8d3f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 096/248] fix: parameters of join trees without cardinalities

---
 postbound/_hints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index eaeebd9..843e692 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1842,7 +1842,7 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if not math.isnan(card):
+    if card is not None and not math.isnan(card):
         params.add_cardinality(query_plan.tables(), card)
     if parallel_workers:
         params.set_workers(query_plan.tables(), parallel_workers)
-- 
2.43.0


From f98d49d35e6e3ca8193a3650845fb18a8b6ef907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 097/248] fix: reading query plans from JSON

---
 postbound/opt/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index e024d59..5adbd19 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -594,13 +594,15 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(SortKey(sort_column, ascending=ascending))
 
     index = params_json.get("index", "")
+    lookup_key = parser.load_expression_json(params_json.get("lookup_key"))
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "index", "lookup_key"}
     }
 
     plan_params = PlanParams(
@@ -608,6 +610,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
         index=index,
+        lookup_key=lookup_key,
         **additional_params,
     )
 
@@ -643,7 +646,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     subplan_json: dict = json_data.get("subplan", {})
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
-- 
2.43.0


From be69451d13118060064e874326458a4254aa065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 098/248] fix: intermediates of plan nodes do not contain
 tables of lookup keys and subplans

---
 postbound/_hints.py       | 20 ++++++++++++++++----
 postbound/opt/_helpers.py |  3 ++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 843e692..39d1b4b 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1810,6 +1810,18 @@ def jointree_from_plan(
         return jointree_from_plan(plan.input_node, card_source=card_source)
 
 
+def _intermediate_of(
+    plan: QueryPlan | LogicalJoinTree,
+) -> frozenset[TableReference]:
+    """Provides the tables that are scanned by a plan node and its inputs.
+
+    In contrast to `QueryPlan.tables`, this ignores tables that are merely referenced, e.g. by lookup keys or in subplans.
+    """
+    if isinstance(plan, JoinTree):
+        return frozenset(plan.tables())
+    return frozenset(node.base_table for node in plan.iternodes() if node.base_table)
+
+
 def parameters_from_plan(
     query_plan: QueryPlan | LogicalJoinTree,
     *,
@@ -1843,9 +1855,9 @@ def parameters_from_plan(
         parallel_workers = query_plan.params.parallel_workers
 
     if card is not None and not math.isnan(card):
-        params.add_cardinality(query_plan.tables(), card)
+        params.add_cardinality(_intermediate_of(query_plan), card)
     if parallel_workers:
-        params.set_workers(query_plan.tables(), parallel_workers)
+        params.set_workers(_intermediate_of(query_plan), parallel_workers)
 
     for child in query_plan.children:
         child_params = parameters_from_plan(
@@ -1884,12 +1896,12 @@ def operators_from_plan(
         case JoinOperator():
             operator = JoinOperatorAssignment(
                 query_plan.operator,
-                query_plan.tables(),
+                _intermediate_of(query_plan),
                 parallel_workers=workers,
             )
             assignment.add(operator)
         case IntermediateOperator():
-            assignment.add(query_plan.operator, query_plan.tables())
+            assignment.add(query_plan.operator, _intermediate_of(query_plan))
 
     for child in query_plan.children:
         child_assignment = operators_from_plan(child, include_workers=include_workers)
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 5adbd19..f2aec16 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -22,6 +22,7 @@ from .._hints import (
     PhysicalOperatorAssignment,
     PlanParameterization,
     ScanOperatorAssignment,
+    _intermediate_of,
     jointree_from_plan,
     operators_from_plan,
     parameters_from_plan,
@@ -225,7 +226,7 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    tables = frozenset(query_plan.tables())
+    tables = _intermediate_of(query_plan)
     new_operator = (
         operators.get(tables)
         if operators and not query_plan.is_auxiliary()
-- 
2.43.0


From 353325ae08c8168027e99807d7e9c30316a3e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 099/248] fix: LIMIT 0 and EXPLAIN without format on Postgres

---
 postbound/postgres.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..7970f05 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2156,7 +2156,7 @@ class PostgresExplainClause(Explain):
         explain_args = "(SETTINGS, "
         if self.analyze:
             explain_args += "ANALYZE, BUFFERS, "
-        explain_args += f"FORMAT {self.target_format})"
+        explain_args += f"FORMAT {self.target_format or 'TEXT'})"
         return f"EXPLAIN {explain_args}"
 
 
@@ -2180,11 +2180,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
-- 
2.43.0


From f09cec1e46ecf625172f2a81de29a1edeb096b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 100/248] fix: pg_lab operator hints of multiple parallel
 operators

---
 postbound/postgres.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 7970f05..f9979b2 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2386,13 +2386,13 @@ def _generate_pglab_hints(
                 # TODO: check for off-by-one errors!!!
                 hint = f"{op}({table} (workers={scan.parallel_workers}))"
                 used_parallel = True
-            elif scan.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
+                if scan.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
                 hint = f"{op}({table})"
             hints.append(hint)
 
@@ -2403,13 +2403,13 @@ def _generate_pglab_hints(
             if join.parallel_workers > 1 and not used_parallel:
                 hint = f"{op}({intermediate} (workers={join.parallel_workers}))"
                 used_parallel = True
-            elif join.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
+                if join.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
                 hint = f"{op}({intermediate})"
             hints.append(hint)
 
-- 
2.43.0


From a1f61a928e577a2ebdc029cf1c04b85651c154ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 101/248] fix: intermediate operators without pg_lab hint

---
 postbound/postgres.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index f9979b2..49a4442 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2414,7 +2414,14 @@ def _generate_pglab_hints(
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-            op = PGLabOptimizerHints[intermediate_op]
+            op = PGLabOptimizerHints.get(intermediate_op)
+            if not op:
+                warnings.warn(
+                    f"Cannot enforce operator {intermediate_op} with pg_lab. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
             intermediate = " ".join(tab.identifier() for tab in tabs)
             hints.append(f"{op}({intermediate})")
 
-- 
2.43.0


From 0b641337cc54a09b27e9b52703cc060b86cbe08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 102/248] fix: pg_hint_plan hints for parallel joins

---
 postbound/postgres.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 49a4442..43c0763 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2262,6 +2262,7 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
+                used_parallel = True
             elif used_parallel:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
@@ -2312,8 +2313,15 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            if len(tabs) > 1:
+                warnings.warn(
+                    "Cannot directly set parallel workers on a join with pg_hint_plan. "
+                    "Setting on all base tables instead.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
-- 
2.43.0


From 6105421e7d31d3f290526b28768229e5f123f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 103/248] fix: workers and intermediates of pg_lab plan hints

---
 postbound/postgres.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 43c0763..9bee0ca 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -56,6 +56,7 @@ from ._hints import (
     JoinTree,
     PhysicalOperatorAssignment,
     PlanParameterization,
+    _intermediate_of,
     jointree_from_plan,
     operators_from_plan,
     parameters_from_plan,
@@ -2485,12 +2486,20 @@ def _extract_plan_join_order(plan: QueryPlan) -> str:
     return f"({outer} {inner})"
 
 
-def _iter_plan_bfs(plan: QueryPlan) -> Generator[QueryPlan, None, None]:
-    queue = collections.deque([plan])
+def _iter_plan_workers_bfs(
+    plan: QueryPlan,
+) -> Generator[tuple[QueryPlan, Optional[int]], None, None]:
+    """Provides all nodes along with the workers of their closest ancestor that cannot be hinted itself (e.g. Gather nodes)."""
+    queue: collections.deque[tuple[QueryPlan, Optional[int]]]
+    queue = collections.deque([(plan, None)])
     while queue:
-        node = queue.popleft()
-        queue.extend(node.children)
-        yield node
+        node, workers = queue.popleft()
+        yield node, workers
+        if node.operator is not None and node.operator in PGLabOptimizerHints:
+            child_workers = None
+        else:
+            child_workers = node.parallel_workers or workers
+        queue.extend((child, child_workers) for child in node.children)
 
 
 def _generate_pglab_plan(
@@ -2502,13 +2511,12 @@ def _generate_pglab_plan(
 
     used_parallel = False
     in_upperrel = True
-    par_workers: Optional[int] = None
-    for node in _iter_plan_bfs(plan):
+    for node, inherited_workers in _iter_plan_workers_bfs(plan):
         if node.is_scan() or node.is_join():
             in_upperrel = False
 
         par_workers = (
-            node.parallel_workers if node.parallel_workers > 0 else par_workers
+            node.parallel_workers if node.parallel_workers > 0 else inherited_workers
         )
         if in_upperrel and par_workers and not used_parallel:
             hints.append(f"Result(workers={par_workers})")
@@ -2526,7 +2534,7 @@ def _generate_pglab_plan(
         operator = PGLabOptimizerHints.get(node.operator)
         if not operator:
             continue
-        intermediate = " ".join(tab.identifier() for tab in node.tables())
+        intermediate = " ".join(tab.identifier() for tab in _intermediate_of(node))
 
         if par_workers and not used_parallel:
             metadata = f" (workers={par_workers})"
-- 
2.43.0


From 44a426f5858ce75c0c7b746970ee5e3096a5ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 104/248] fix: system settings on DuckDB

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..7eb7880 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -898,7 +898,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From 74985f606e6869703daef3802419501ae42d5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 105/248] fix: join order hints on MySQL

---
 postbound/mysql.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..4e4f528 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -509,7 +509,16 @@ def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
     if not join_order:
         return ""
 
-    join_order_text = ", ".join(table.identifier() for table in join_order.itertables())
+    # the hint specifies the sequence in which the tables are joined, independent of the join direction
+    join_sequence: list[TableReference] = []
+    while join_order.is_join():
+        outer, inner = join_order.outer_child, join_order.inner_child
+        intermediate, table = (outer, inner) if inner.is_scan() else (inner, outer)
+        join_sequence.append(table.base_table)
+        join_order = intermediate
+    join_sequence.append(join_order.base_table)
+
+    join_order_text = ", ".join(table.identifier() for table in reversed(join_sequence))
     return f"  JOIN_ORDER({join_order_text})"
 
 
@@ -597,17 +606,17 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
+        if plan is not None:
+            join_order = jointree_from_plan(plan)
+            physical_operators = operators_from_plan(plan)
+            plan_parameters = parameters_from_plan(plan)
+
         if join_order and not join_order.is_linear():
             raise UnsupportedDatabaseFeatureError(
                 self._mysql_instance,
                 "Can only enforce join order for linear join trees for now",
             )
 
-        if plan is not None:
-            join_order = jointree_from_plan(plan)
-            physical_operators = operators_from_plan(plan)
-            plan_parameters = parameters_from_plan(plan)
-
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
-- 
2.43.0


From 2a609dea093f1b353e826d8d3fcd2e0b2d5ba509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 106/248] fix: global settings on MySQL without further hints

---
 postbound/mysql.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 4e4f528..bafff47 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -621,14 +621,17 @@ class MysqlHintService(HintService):
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
-        if not join_order_hint and not operator_hint:
+        if not join_order_hint and not operator_hint and not prep_statements:
             return query
 
-        final_hint_block = (
-            "/*+\n"
-            + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
-            + "\n*/"
-        )
+        if join_order_hint or operator_hint:
+            final_hint_block = (
+                "/*+\n"
+                + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
+                + "\n*/"
+            )
+        else:
+            final_hint_block = ""
         hint_clause = Hint(prep_statements, final_hint_block)
         return transform.add_clause(query, hint_clause)
 
-- 
2.43.0


From dc0b67bdb79b5ce5fde7df802f021921e1e2fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 107/248] fix: literals, casts, limits and EXPLAIN on MySQL

---
 postbound/mysql.py          | 31 ++++++++++++++++++++-----------
 postbound/qal/_formatter.py | 14 ++++++++++++--
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index bafff47..3aad1d5 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -476,24 +476,31 @@ class _MysqlStaticValueExpression(StaticValueExpression):
         super().__init__(original_expression.value)
 
     def __str__(self) -> str:
-        return (
-            f"{self.value}"
-            if isinstance(self.value, numbers.Number)
-            else f'"{self.value}"'
-        )
+        if self.value is None:
+            return "NULL"
+        if isinstance(self.value, numbers.Number):
+            return f"{self.value}"
+        escaped_value = str(self.value).replace("\\", "\\\\").replace('"', '""')
+        return f'"{escaped_value}"'
 
 
 class _MysqlCastExpression(CastExpression):
-    def __init__(self, original_expression: CastExpression) -> None:
+    @staticmethod
+    def of(original_expression: CastExpression) -> _MysqlCastExpression:
         if original_expression.array_type:
             warnings.warn(
                 "MySQL does not support array types in CAST expressions. Ignoring array type."
             )
-        super().__init__(
-            original_expression.casted_expression, original_expression.target_type
+        return _MysqlCastExpression(
+            original_expression.casted_expression,
+            original_expression.target_type,
+            type_params=original_expression.type_params,
         )
 
     def __str__(self) -> str:
+        if self.type_params:
+            params = ", ".join(str(param) for param in self.type_params)
+            return f"CAST({self.casted_expression} AS {self.target_type}({params}))"
         return f"CAST({self.casted_expression} AS {self.target_type})"
 
 
@@ -502,7 +509,7 @@ def _replace_static_vals(e: SqlExpression) -> SqlExpression:
 
 
 def _replace_casts(e: SqlExpression) -> SqlExpression:
-    return _MysqlCastExpression(e) if isinstance(e, CastExpression) else e
+    return _MysqlCastExpression.of(e) if isinstance(e, CastExpression) else e
 
 
 def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
@@ -639,7 +646,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
@@ -647,7 +656,7 @@ class MysqlHintService(HintService):
             )
         updated_query = transform.replace_expressions(updated_query, _replace_casts)
 
-        return qal.format_quick(updated_query, inline_hint_block=True)
+        return qal.format_quick(updated_query, flavor="mysql", inline_hint_block=True)
 
     def supports_hint(self, hint: PhysicalOperator | HintType) -> bool:
         return hint in MysqlJoinHints | MysqlScanHints | MysqlPlanHints
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 9249348..73e35f0 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -59,7 +59,7 @@ from ._qal import (
 DefaultIndent = 2
 """The default amount of whitespace that is used to indent specific parts of the SQL query."""
 
-SqlDialect = Literal["vanilla", "postgres"]
+SqlDialect = Literal["vanilla", "postgres", "mysql"]
 """The different flavors of SQL syntax that are supported by the formatter."""
 
 
@@ -628,6 +628,16 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
+        case "mysql" if limit_clause.fetch_direction in {"first", "next"}:
+            if limit_clause.limit is None and limit_clause.offset is None:
+                return []
+            # MySQL does not support OFFSET without LIMIT
+            limit = limit_clause.limit if limit_clause.limit is not None else 2**64 - 1
+            limit_text = [f"LIMIT {limit}"]
+            if limit_clause.offset is not None:
+                limit_text.append(f"OFFSET {limit_clause.offset}")
+            return limit_text
+
         case "postgres" if limit_clause.fetch_direction in {"prior", "last"}:
             warnings.warn(
                 "Postgres does not support FETCH PRIOR and FETCH LAST. Falling back to naive formatting"
@@ -729,7 +739,7 @@ def _expression_prettifier(
             )
             return (
                 target(replaced_cast, typ, type_params=params, array_type=array)
-                if flavor == "vanilla"
+                if flavor != "postgres"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
                 )
-- 
2.43.0


From adf0162abf80f35caa5d7b65e61bc98d06d81408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 108/248] fix: join predicates of plans of the dynamic
 programming enumerator

---
 postbound/opt/dynprog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..1543d4b 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -398,7 +398,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.NestedLoopJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -407,7 +407,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.HashJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -418,7 +418,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.SortMergeJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
-- 
2.43.0


From 100e7ad244bfd0f0385500057f9003e095cb8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 109/248] fix: bitmap scans without an index

---
 postbound/opt/dynprog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 1543d4b..1b487a0 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -257,7 +257,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             for column in required_columns
         }
 
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             return []
 
         candidate_plans: list[QueryPlan] = []
@@ -1386,7 +1386,7 @@ class PostgresDynProg(PlanEnumerator):
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
         }
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
             # candidate index. This is because we can still perform an index lookup followed by a sequential scan of the pages.
             # This might be better than doing a full sequential scan or a full random I/O index scan.
-- 
2.43.0


From ccb472bbb7606c1826374686c050aed774c0af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 110/248] fix: columns of star projections for index-only scans

---
 postbound/opt/dynprog.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 1b487a0..a342a35 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -34,6 +34,7 @@ from ..qal import (
     CompoundPredicate,
     QueryPredicates,
     SqlQuery,
+    StarExpression,
 )
 from ..util import LogicError, jsondict
 from ..validation import (
@@ -67,9 +68,12 @@ def _calc_plan_estimates(
 def _collect_used_columns(
     query: SqlQuery, table: TableReference, *, schema: DatabaseSchema
 ) -> set[ColumnReference]:
-    columns = query.columns_of(table)
-    for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+    columns = set(query.columns_of(table))
+    for target in query.select_clause.targets:
+        star_expression = target.expression
+        if not isinstance(star_expression, StarExpression):
+            continue
+        if star_expression.from_table and star_expression.from_table != table:
             continue
 
         columns |= schema.columns(table)
@@ -1316,7 +1320,9 @@ class PostgresDynProg(PlanEnumerator):
 
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
             ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
         )
@@ -1381,7 +1387,9 @@ class PostgresDynProg(PlanEnumerator):
         # Notice that the hinting backend is responsible for selecting the appropriate bitmap index hierarchies.
 
         base_table = util.simplify(rel.intermediate)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         candidate_indexes = {
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
-- 
2.43.0


From ac9589d09975235ccceba6981fae349bd71f93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 111/248] fix: merge joins of PostgresDynProg

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index a342a35..a327874 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1738,7 +1738,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From 3510154249ace9ca35e11a43b9563fb9fac58cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 112/248] fix: pruning of differently sorted paths in
 PostgresDynProg

---
 postbound/opt/dynprog.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index a327874..f4f2922 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -756,34 +756,36 @@ class PostgresDynProg(PlanEnumerator):
         keep_new = True  # we assume that we want to keep the new path to handle new sort orders correctly
         new_cost = path.estimated_cost
 
-        for i, old_path in enumerate(current_paths):
-            if not self._sorting_subsumes(
-                path.sort_keys, other=old_path.params.sort_keys
-            ):
-                result_paths.append(old_path)
-                continue
+        for old_path in current_paths:
+            new_subsumes = self._sorting_subsumes(
+                path.sort_keys, other=old_path.sort_keys
+            )
+            old_subsumes = self._sorting_subsumes(
+                old_path.sort_keys, other=path.sort_keys
+            )
 
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
-            new_dominates = (
-                new_cost < old_cost
-                if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
-                else new_cost <= 1.01 * old_cost
-            )
-
-            if new_dominates:
-                # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
-                keep_new = True  # strictly speaking, this is not necessary, but it makes our intention clearer
-                continue  # don't break here, we need to check the remaining paths
+            if new_subsumes and old_subsumes:
+                new_dominates = new_cost < old_cost
+                old_dominates = not new_dominates
             else:
+                new_dominates = new_subsumes and new_cost <= 1.01 * old_cost
+                old_dominates = old_subsumes and old_cost <= 1.01 * new_cost
+
+            if old_dominates:
                 # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
                 # successfully competed against the path that just beat our new one. We can keep them all.
-                result_paths.extend(current_paths[i:])
+                result_paths = current_paths
                 keep_new = False
                 break
 
+            if not new_dominates:
+                # The paths are sorted differently, or the better sorted one is more expensive: we need both of them
+                result_paths.append(old_path)
+
         if keep_new:
             result_paths.append(path)
 
-- 
2.43.0


From a5575927d5af1e1a7b08896294ae8a5d94d1711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 113/248] fix: cardinalities of index and bitmap paths in
 PostgresDynProg

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index f4f2922..6a7d235 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1345,6 +1345,7 @@ class PostgresDynProg(PlanEnumerator):
                     idx_path = QueryPlan(
                         ScanOperator.IndexScan,
                         base_table=base_table,
+                        estimated_cardinality=rel.cardinality,
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
@@ -1355,6 +1356,7 @@ class PostgresDynProg(PlanEnumerator):
                     idx_path = QueryPlan(
                         ScanOperator.IndexOnlyScan,
                         base_table=base_table,
+                        estimated_cardinality=rel.cardinality,
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
@@ -1410,6 +1412,7 @@ class PostgresDynProg(PlanEnumerator):
         bitmap_path = QueryPlan(
             ScanOperator.BitmapScan,
             base_table=base_table,
+            estimated_cardinality=rel.cardinality,
             indexes=candidate_indexes,
             filter_predicate=filter_condition,
             estimated_workers=workers,
-- 
2.43.0


From 748ebaf26182df6df8c152c81e9985d3afd9422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 114/248] fix: outer inputs of parallel merge joins in
 PostgresDynProg

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 6a7d235..b5f2922 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1033,7 +1033,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
-- 
2.43.0


From f4561d8f5a70c06eee50e54758d19869c9781e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 115/248] fix: nested parallel plans in PostgresDynProg

---
 postbound/opt/dynprog.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index b5f2922..ede9e60 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -774,6 +774,11 @@ class PostgresDynProg(PlanEnumerator):
                 new_dominates = new_subsumes and new_cost <= 1.01 * old_cost
                 old_dominates = old_subsumes and old_cost <= 1.01 * new_cost
 
+            # Parallel paths cannot be used below other parallel paths, therefore they must not replace sequential ones
+            if self._is_parallel(path) != self._is_parallel(old_path):
+                new_dominates = new_dominates and not self._is_parallel(path)
+                old_dominates = old_dominates and not self._is_parallel(old_path)
+
             if old_dominates:
                 # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
@@ -1039,6 +1044,8 @@ class PostgresDynProg(PlanEnumerator):
                 )
 
                 for inner_path in inner_rel.pathlist:
+                    if self._is_parallel(inner_path):
+                        continue
                     if (
                         not self._is_sorted_by(inner_path, inner_col)
                         and not self._enable_sort
@@ -1119,7 +1126,8 @@ class PostgresDynProg(PlanEnumerator):
             self._add_path(join_rel, mat_nlj)
 
         outer_partial = outer_rel.cheapest_partial_path
-        if not outer_partial:
+        inner_path = self._cheapest_sequential_path(inner_rel)
+        if not outer_partial or not inner_path:
             return
         par_nlj = self._create_nestloop_path(
             join_rel, outer_path=outer_partial, inner_path=inner_path
@@ -1177,7 +1185,8 @@ class PostgresDynProg(PlanEnumerator):
         self._add_path(join_rel, hash_path)
 
         outer_partial = outer_rel.cheapest_partial_path
-        if not outer_partial:
+        inner_path = self._cheapest_sequential_path(inner_rel)
+        if not outer_partial or not inner_path:
             return
         par_hash = self._create_hashjoin_path(
             join_rel, outer_path=outer_partial, inner_path=inner_path
@@ -1209,6 +1218,19 @@ class PostgresDynProg(PlanEnumerator):
         else:
             self.standard_add_path(rel, path, is_partial=is_partial)
 
+    def _is_parallel(self, path: QueryPlan) -> bool:
+        """Checks, whether some part of the path is executed in parallel."""
+        return any(node.parallel_workers for node in path.iternodes())
+
+    def _cheapest_sequential_path(self, rel: RelOptInfo) -> Optional[QueryPlan]:
+        """Determines the cheapest path that can be used below a parallel node (parallel parts cannot be nested)."""
+        sequential_paths = [
+            path for path in rel.pathlist if not self._is_parallel(path)
+        ]
+        return min(
+            sequential_paths, key=lambda path: path.estimated_cost, default=None
+        )
+
     def _set_cheapest(self, rel: RelOptInfo) -> None:
         """Determines the cheapest path in terms of costs from the pathlist and partial pathlist."""
         if rel.pathlist:
-- 
2.43.0


From ff36da2eaf961c61f7b1760be25739bf2a88e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 116/248] fix: free n:m joins of the join graph

---
 postbound/opt/_joingraph.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..557dfd6 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -490,16 +490,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         bool
             Whether there are still n:m joins with at least one free table.
         """
-        is_first_join = self.initial()
-        for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
-            if not self.is_available_join(first_tab, second_tab) and not is_first_join:
-                continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
-        return False
+        return any(
+            self.is_n_m_join(first_tab, second_tab)
+            for first_tab, second_tab in self._graph.edges
+            if self.is_free_table(first_tab) or self.is_free_table(second_tab)
+        )
 
     def count_consumed_tables(self) -> int:
         """Determines the number of tables that have been joined already.
-- 
2.43.0


From 175e4a38a1531072d7de72bcd3447e05705ad861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 117/248] fix: pk/fk joins of the join graph are equijoins

---
 postbound/opt/_joingraph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 557dfd6..ed0d081 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -15,8 +15,10 @@ from .._core import ColumnReference, TableReference
 from ..db import DatabasePool, DatabaseSchema
 from ..qal import (
     AbstractPredicate,
+    BinaryPredicate,
     CompoundPredicate,
     ImplicitSqlQuery,
+    LogicalOperator,
     determine_join_equivalence_classes,
     generate_predicates_for_equivalence_classes,
 )
@@ -775,6 +777,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             "predicate"
         ]
         for base_predicate in predicate.base_predicates():
+            if not self._is_equi_join(base_predicate):
+                continue
             fk_col = util.simplify(base_predicate.columns_of(fk_table))
             pk_col = util.simplify(base_predicate.columns_of(pk_table))
             if (
@@ -1073,6 +1077,14 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                 return True
         return False
 
+    @staticmethod
+    def _is_equi_join(predicate: AbstractPredicate) -> bool:
+        """Checks, whether a base predicate compares its columns for equality."""
+        return (
+            isinstance(predicate, BinaryPredicate)
+            and predicate.operation == LogicalOperator.Equal
+        )
+
     def _invalidate_indexes_on(self, table: TableReference) -> None:
         """Invalidates all indexes on all columns that belong to the given table.
 
-- 
2.43.0


From 422a8339c3d97c890ed16886f6ebab05b5a2d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 118/248] fix: equivalence classes in join graph components

---
 postbound/opt/_joingraph.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index ed0d081..d731a41 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -416,6 +416,7 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
 
         self.query = query
         self._db_schema = db_schema
+        self._include_equivalence_classes = include_predicate_equivalence_classes
         self._index_structures: dict[ColumnReference, IndexInfo] = {}
 
         graph = nx.Graph()
@@ -528,7 +529,13 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         components = []
         for component in nx.connected_components(self._graph):
             component_query = transform.extract_query_fragment(self.query, component)
-            components.append(JoinGraph(component_query, self._db_schema))
+            components.append(
+                JoinGraph(
+                    component_query,
+                    self._db_schema,
+                    include_predicate_equivalence_classes=self._include_equivalence_classes,
+                )
+            )
         return components
 
     def joined_tables(self) -> frozenset[TableReference]:
@@ -1032,7 +1039,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         JoinGraph
             The copy. It can be safely modified without affecting the original join graph.
         """
-        cloned = JoinGraph(self.query, self._db_schema)
+        cloned = JoinGraph(
+            self.query,
+            self._db_schema,
+            include_predicate_equivalence_classes=self._include_equivalence_classes,
+        )
         cloned._graph = self.nx_graph()
         cloned._index_structures = copy.deepcopy(self._index_structures)
         return cloned
-- 
2.43.0


From 33ca4a48ab4089dc64558b2e8e70bad31b0ba972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 119/248] fix: index invalidation of the join graph

---
 postbound/opt/_joingraph.py | 55 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index d731a41..badf062 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -993,21 +993,25 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         if len(self.joined_tables()) == 1:
             return
 
-        join_edge = (
-            join_edge
-            if join_edge
-            else self.query.predicates().joins_between(table, self.joined_tables())
-        )
         if not join_edge:
-            # We still need this check even though we already know that there are at least two tables joined, since
-            # these two tables might have nothing to do with each other (e.g. different components in the join graph)
-            return
+            candidates = self.join_predicates_between(
+                table, self.joined_tables() - {table}
+            )
+            if not candidates:
+                # We still need this check even though we already know that there are at least two tables joined, since
+                # these two tables might have nothing to do with each other (e.g. different components in the join graph)
+                return
+            join_edge = CompoundPredicate.create_and(candidates)
 
         partner_tables = {col.table for col in join_edge.join_partners_of(table)}
-        for partner_table in partner_tables:
-            pk_fk_join = self.is_pk_fk_join(table, partner_table)
-            fk_pk_join = self.is_pk_fk_join(partner_table, table)
-
+        join_types = {
+            partner_table: (
+                self.is_pk_fk_join(table, partner_table),
+                self.is_pk_fk_join(partner_table, table),
+            )
+            for partner_table in partner_tables
+        }
+        for partner_table, (pk_fk_join, fk_pk_join) in join_types.items():
             if pk_fk_join and fk_pk_join:  # PK/PK join
                 continue
 
@@ -1015,6 +1019,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                 joined_col, partner_col = (
                     (col1, col2) if col1.table == table else (col2, col1)
                 )
+                if partner_col.table != partner_table:
+                    continue
                 if pk_fk_join:
                     self._index_structures[partner_col].invalidate()
                 elif fk_pk_join:
@@ -1023,13 +1029,18 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                     self._index_structures[partner_col].invalidate()
                     self._index_structures[joined_col].invalidate()
 
-            if pk_fk_join:
+            if fk_pk_join:
+                # Each tuple of the intermediate finds at most one join partner, hence all other keys remain unique
+                self._invalidate_indexes_on(table)
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
+            for joined_table in self.joined_tables():
+                if pk_fk_join and joined_table == table:
                     continue
-                self._invalidate_indexes_on(table)
+                if pk_fk_join or joined_table == partner_table:
+                    self._invalidate_primary_keys_of(joined_table)
+                else:
+                    self._invalidate_indexes_on(joined_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
@@ -1108,6 +1119,18 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if column.table == table:
                 index.invalidate()
 
+    def _invalidate_primary_keys_of(self, table: TableReference) -> None:
+        """Marks the primary key indexes of a specific table as invalid.
+
+        Parameters
+        ----------
+        table : TableReference
+            The table
+        """
+        for column, index in self._index_structures.items():
+            if column.table == table and index.is_primary():
+                index.invalidate()
+
     def _fetch_join_predicate(
         self, first_table: TableReference, second_table: TableReference
     ) -> Optional[AbstractPredicate]:
-- 
2.43.0


From 4f138ab37a8c2812d75a166ee4d920c528955076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 120/248] fix: breadth-first search of nx_bfs_tree

---
 postbound/util/nx.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..beb40de 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,23 +167,28 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
+
+    def neighbors_of(parent: NodeType) -> list[tuple[NodeType, dict]]:
+        neighbor_nodes = [
+            (node, edge)
+            for node, edge in graph.adj[parent].items()
+            if node not in visited_nodes
+        ]
+        if node_order:
+            neighbor_nodes.sort(
+                key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
+            )
+        return neighbor_nodes
+
     visited_nodes = {start_node}
+    shell_nodes = Queue(neighbors_of(start_node))
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
-        visited_nodes.add(current_node)
+        if current_node in visited_nodes:
+            continue
         if condition(current_node, current_edge):
-            neighbor_nodes = [
-                (node, edge)
-                for node, edge in graph.adj[current_node].items()
-                if node not in visited_nodes
-            ]
-            if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
-                )
-            shell_nodes.extend(neighbor_nodes)
+            visited_nodes.add(current_node)
+            shell_nodes.extend(neighbors_of(current_node))
             yield current_node, current_edge
 
 
-- 
2.43.0


From 58718acbeed9447ee7cd1ab61038178f13a127db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 121/248] fix: rounding in the UES bounds

---
 postbound/opt/ues.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..27060a0 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -667,6 +667,11 @@ class JoinEstimator(abc.ABC):
         return f"JoinCardinalityEstimator[{self.name}]"
 
 
+def _round_up(bound: float) -> float:
+    """Provides the smallest integer that is not lower than the bound. Unknown and infinite bounds are retained."""
+    return math.ceil(bound) if math.isfinite(bound) else bound
+
+
 class UESBoundEstimator(JoinEstimator):
     """Implementation of the UES formula to calculate upper bounds of join cardinalities.
 
@@ -741,7 +746,7 @@ class UESBoundEstimator(JoinEstimator):
             self.stats_container.base_table_estimates[pk_column.table]
         )
         fk_frequency = self.stats_container.attribute_frequencies[fk_column]
-        return math.ceil(fk_frequency * pk_cardinality)
+        return Cardinality(_round_up(fk_frequency * pk_cardinality.get()))
 
     def _estimate_n_m_join(
         self, first_column: ColumnReference, second_column: ColumnReference
@@ -772,13 +777,12 @@ class UESBoundEstimator(JoinEstimator):
         ):
             return 0
 
-        first_distinct_vals = first_bound / first_freq
-        second_distinct_vals = second_bound / second_freq
-
-        n_m_bound = (
-            min(first_distinct_vals, second_distinct_vals) * first_freq * second_freq
+        # equivalent to min(first_distinct, second_distinct) * first_freq * second_freq, but without rounding the (cardinality)
+        # number of distinct values
+        n_m_bound = min(
+            first_bound.get() * second_freq, second_bound.get() * first_freq
         )
-        return Cardinality(math.ceil(n_m_bound))
+        return Cardinality(_round_up(n_m_bound))
 
     def _fetch_bound(self, column: ColumnReference) -> Cardinality:
         """Provides the appropriate table bound (based on upper bound or base table estimate) for the given column.
-- 
2.43.0


From a2762aa2b578c8b32325a5173e7277dc70e84d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 122/248] fix: cross products in UES

---
 postbound/opt/ues.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 27060a0..55fec7c 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1047,27 +1047,38 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         self.base_table_estimation.setup_for_query(query)
         self.stats_container.setup_for_query(query, self.base_table_estimation)
         self.join_estimation.setup_for_query(query)
-        self.join_estimation.setup_for_stats(self.stats_container)
+        if "setup_for_stats" in dir(self.join_estimation):
+            self.join_estimation.setup_for_stats(self.stats_container)
         self.subquery_policy.setup_for_query(query)
         if "setup_for_stats_container" in dir(self.subquery_policy):
             self.subquery_policy.setup_for_stats_container(self.stats_container)
 
         join_graph = JoinGraph(query, self.database.schema())
 
-        if len(query.tables()) == 2:
+        if len(query.tables()) == 2 and not join_graph.contains_cross_products():
             final_join_tree = self._binary_join_optimization(query, join_graph)
         elif join_graph.contains_cross_products():
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
+                if len(component) == 1:
+                    (single_table,) = component
+                    optimized_components.append(
+                        LogicalJoinTree.scan(
+                            single_table,
+                            annotation=self.stats_container.base_table_estimates[
+                                single_table
+                            ],
+                        )
+                    )
+                    continue
                 optimized_component = self._clone().optimize_join_order(component.query)
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1493,7 +1504,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             join_estimation=copy.copy(self.join_estimation),
             subquery_policy=copy.copy(self.subquery_policy),
             stats_container=copy.copy(self.stats_container),
+            pull_eager_pk_tables=self._pull_eager_pk_tables,
             database=self.database,
+            verbose=self._logging_enabled,
         )
 
     def _log_information(self, info: str) -> None:
-- 
2.43.0


From f65e05e8d4f865eb23595b9ff6be7d32db0f3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 123/248] fix: UES subquery policy for pk/pk joins

---
 postbound/opt/ues.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 55fec7c..21808e9 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -947,9 +947,10 @@ class UESSubqueryPolicy(BranchingPolicy):
             else:
                 continue
 
+            base_estimate = stats_container.base_table_estimates[joined_table]
             generate_subquery = (
-                stats_container.upper_bounds[joined_table]
-                < stats_container.base_table_estimates[joined_table]
+                stats_container.upper_bounds.get(joined_table, base_estimate)
+                < base_estimate
             )
             if generate_subquery:
                 return True
-- 
2.43.0


From a18f256029ad053b8d6b0c2e34771f001542d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 124/248] fix: upper bounds of UES over several joins

---
 postbound/opt/ues.py | 180 ++++++++++++++++++++++++++++---------------
 1 file changed, 117 insertions(+), 63 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 21808e9..659e08a 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -164,7 +164,7 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
         joined_table: TableReference,
         join_condition: AbstractPredicate,
     ) -> None:
-        """Updates the `attribute_frequencies` according to a new n:m join.
+        """Updates the `attribute_frequencies` according to a new join.
 
         The update procedure distinguishes between two different types of column statistics and uses different
         (and statistics-dependent) update methods for each: partner columns and third-party columns.
@@ -184,24 +184,32 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
             updates.
         joined_table : TableReference
             The actual table that was joined. Remember that UES performs either primary key/foreign key joins, or joins with
-            exactly one n:m table join partner. In the first case, no frequency updates are necessary since cardinalities may
-            never increase when the foreign key is already part of an intermediate result. In the second case, there is exactly
-            one partner table that is denoted by this parameter.
+            exactly one n:m table join partner.
         join_condition : AbstractPredicate
             The predicate that was used for the join. This is required to determine the columns that were directly involved in
             the join. These columns have to be updated in a different way compared to other columns in the intermediate result.
         """
-        partner_tables = join_tree.tables() - {joined_table}
-
-        third_party_columns: set[ColumnReference] = set()
-        for third_party_table in partner_tables:
-            potential_partners = partner_tables - {third_party_table}
-            join_pred = self.query.predicates().joins_between(
-                third_party_table, potential_partners
-            )
-            if not join_pred:
-                continue
-            third_party_columns |= join_pred.columns()
+        join_columns = join_condition.columns()
+        joined_columns = join_condition.columns_of(joined_table)
+        joined_tables = (
+            join_tree.inner_child.tables()
+            if joined_table in join_tree.inner_child.tables()
+            else join_tree.outer_child.tables()
+        )
+        lowest_joined_column = self._lowest_frequency(joined_columns)
+        lowest_partner_column = self._lowest_frequency(join_columns - joined_columns)
+
+        # The third party columns have to be updated first: the growth of their frequencies depends on the frequencies of the
+        # join columns before the join. This includes all columns that are only required by subsequent joins.
+        for third_party_column in self.attribute_frequencies.keys() - join_columns:
+            if third_party_column.table in joined_tables:
+                self._update_third_party_column_frequency(
+                    lowest_partner_column, third_party_column
+                )
+            elif third_party_column.table in join_tree.tables():
+                self._update_third_party_column_frequency(
+                    lowest_joined_column, third_party_column
+                )
 
         for col1, col2 in join_condition.join_partners():
             joined_column, partner_column = (
@@ -209,15 +217,29 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
             )
             self._update_partner_column_frequency(joined_column, partner_column)
 
-        joined_columns_frequencies = {
-            joined_col: self.attribute_frequencies[joined_col]
-            for joined_col in join_condition.columns_of(joined_table)
-        }
-        lowest_joined_column_frequency = util.argmin(joined_columns_frequencies)
-        for third_party_column in third_party_columns:
-            self._update_third_party_column_frequency(
-                lowest_joined_column_frequency, third_party_column
-            )
+    def store_bound(
+        self, join_tree: LogicalJoinTree, bound: Cardinality, *, max_bound=None
+    ) -> None:
+        """Makes the upper bound of an intermediate result available for the subsequent joins of its tables.
+
+        Parameters
+        ----------
+        join_tree : LogicalJoinTree
+            The intermediate
+        bound : Cardinality
+            The upper bound of the intermediate
+        max_bound : Optional[Cardinality], optional
+            Another upper bound, e.g. for joins that cannot increase the cardinality.
+        """
+        self.upper_bounds[join_tree] = bound
+        if max_bound is not None and max_bound < bound:
+            bound = max_bound
+        for table in join_tree.tables():
+            self.upper_bounds[table] = bound
+
+    def _lowest_frequency(self, columns: Iterable[ColumnReference]) -> ColumnReference:
+        """Provides the column with the smallest attribute frequency."""
+        return util.argmin({col: self.attribute_frequencies[col] for col in columns})
 
     @abc.abstractmethod
     def describe(self) -> dict:
@@ -1176,28 +1198,20 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             )
 
             if join_tree.is_empty():
+                initial_cardinality = self.stats_container.base_table_estimates[
+                    lowest_bound_table
+                ]
                 join_tree = LogicalJoinTree.scan(
-                    lowest_bound_table, annotation=lowest_bound
+                    lowest_bound_table, annotation=initial_cardinality
                 )
                 join_graph.mark_joined(lowest_bound_table)
-                self.stats_container.upper_bounds[join_tree] = lowest_bound
+                self.stats_container.store_bound(join_tree, initial_cardinality)
                 pk_joins = join_graph.available_deep_pk_join_paths_for(
                     lowest_bound_table, self._table_base_cardinality_ordering
                 )
-                for pk_join in pk_joins:
-                    target_table = pk_join.target_table
-                    base_cardinality = self.stats_container.base_table_estimates[
-                        target_table
-                    ]
-                    join_bound = self.join_estimation.estimate_for(
-                        pk_join.join_condition, join_graph
-                    )
-                    join_graph.mark_joined(target_table, pk_join.join_condition)
-                    join_tree = join_tree.join_with(
-                        pk_join.target_table,
-                        annotation=join_bound,
-                        partner_annotation=base_cardinality,
-                    )
+                join_tree = self._insert_pk_joins(
+                    query, pk_joins, join_tree, join_graph
+                )
                 self._log_optimization_progress(
                     "Initial table selection", lowest_bound_table, pk_joins
                 )
@@ -1246,31 +1260,37 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                     candidate_table, annotation=candidate_base_cardinality
                 )
                 join_graph.mark_joined(candidate_table)
+                self.stats_container.store_bound(
+                    subquery_tree, candidate_base_cardinality
+                )
                 subquery_tree = self._insert_pk_joins(
                     query, all_pk_joins, subquery_tree, join_graph
                 )
 
                 join_tree = join_tree.join_with(subquery_tree, annotation=lowest_bound)
-                self.stats_container.upper_bounds[join_tree] = lowest_bound
+                self._finish_join(
+                    join_tree, lowest_bound, candidate_table, selected_candidate
+                )
 
             else:
-                join_tree = join_tree.join_with(
-                    candidate_table,
-                    annotation=lowest_bound,
-                    partner_annotation=candidate_base_cardinality,
+                # the primary key joins are executed after the n:m join and cannot reduce the candidate table
+                self.stats_container.upper_bounds[candidate_table] = (
+                    candidate_base_cardinality
                 )
-                join_graph.mark_joined(
-                    candidate_table, selected_candidate.join_condition
+                lowest_bound = self.join_estimation.estimate_for(
+                    selected_candidate.join_condition, join_graph
+                )
+                join_tree = self._apply_pk_fk_join(
+                    query,
+                    selected_candidate,
+                    join_bound=lowest_bound,
+                    join_graph=join_graph,
+                    current_join_tree=join_tree,
                 )
-                self.stats_container.upper_bounds[join_tree] = lowest_bound
                 join_tree = self._insert_pk_joins(
                     query, all_pk_joins, join_tree, join_graph
                 )
 
-            self.stats_container.trigger_frequency_update(
-                join_tree, candidate_table, selected_candidate.join_condition
-            )
-
         if join_graph.contains_free_tables():
             raise AssertionError("Join graph still has free tables remaining!")
         return join_tree
@@ -1353,6 +1373,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         start_card = self.stats_container.base_table_estimates[start_table]
         join_tree = LogicalJoinTree.scan(start_table, annotation=start_card)
         join_graph.mark_joined(start_table)
+        self.stats_container.store_bound(join_tree, start_card)
         join_tree = self._apply_pk_fk_join(
             query,
             lowest_bound_join,
@@ -1444,10 +1465,46 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         updated_join_tree = current_join_tree.join_with(
             target_table, annotation=join_bound, partner_annotation=target_cardinality
         )
+        max_bound = (
+            self.stats_container.upper_bounds.get(pk_fk_join.start_table)
+            if join_graph.is_pk_fk_join(pk_fk_join.start_table, target_table)
+            else None
+        )
         join_graph.mark_joined(target_table, pk_fk_join.join_condition)
-        self.stats_container.upper_bounds[updated_join_tree] = join_bound
+        self._finish_join(
+            updated_join_tree, join_bound, target_table, pk_fk_join, max_bound=max_bound
+        )
         return updated_join_tree
 
+    def _finish_join(
+        self,
+        join_tree: LogicalJoinTree,
+        join_bound: Cardinality,
+        joined_table: TableReference,
+        join_path: JoinPath,
+        *,
+        max_bound: Optional[Cardinality] = None,
+    ) -> None:
+        """Updates the statistics after the last join of the join tree has been added.
+
+        Parameters
+        ----------
+        join_tree : LogicalJoinTree
+            The join tree, including the new join
+        join_bound : Cardinality
+            The upper bound of the new join
+        joined_table : TableReference
+            The table that was joined
+        join_path : JoinPath
+            The actual join
+        max_bound : Optional[Cardinality], optional
+            Another upper bound for the join
+        """
+        self.stats_container.trigger_frequency_update(
+            join_tree, joined_table, join_path.join_condition
+        )
+        self.stats_container.store_bound(join_tree, join_bound, max_bound=max_bound)
+
     def _insert_pk_joins(
         self,
         query: SqlQuery,
@@ -1474,22 +1531,19 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             An updated join tree that includes all of the join paths. Join paths that appear earlier in the iterable are
             inserted deeper within the tree.
         """
-        # TODO: refactor in terms of _apply_pk_fk_join
         for pk_join in pk_joins:
-            pk_table = pk_join.target_table
-            if not join_graph.is_free_table(pk_table):
+            if not join_graph.is_free_table(pk_join.target_table):
                 continue
             pk_join_bound = self.join_estimation.estimate_for(
                 pk_join.join_condition, join_graph
             )
-            pk_base_cardinality = self.stats_container.base_table_estimates[pk_table]
-            join_tree = join_tree.join_with(
-                pk_table,
-                annotation=pk_join_bound,
-                partner_annotation=pk_base_cardinality,
+            join_tree = self._apply_pk_fk_join(
+                query,
+                pk_join,
+                join_bound=pk_join_bound,
+                join_graph=join_graph,
+                current_join_tree=join_tree,
             )
-            join_graph.mark_joined(pk_table, pk_join.join_condition)
-            self.stats_container.upper_bounds[join_tree] = pk_join_bound
         return join_tree
 
     def _clone(self) -> UESJoinOrderOptimizer:
-- 
2.43.0


From 403d52092a8edd1aa42b416295894351ef46b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 125/248] fix: linear join orders and partial assignments of
 the exhaustive enumerators

---
 postbound/opt/enumeration.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..f000fb6 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -153,10 +153,6 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
-            return
-
         join_graph = query.predicates().join_graph()
         if len(join_graph.nodes) == 0:
             return
@@ -171,7 +167,11 @@ class ExhaustiveJoinOrderEnumerator:
             )
 
         join_order_hashes = set()
-        join_order_generator = _enumerate_join_graph(query, join_graph)
+        join_order_generator = (
+            _enumerate_join_graph(query, join_graph)
+            if self._tree_structure == "bushy"
+            else self._linear_join_orders(query)
+        )
         for join_order in join_order_generator:
             current_hash = hash(join_order)
             if current_hash in join_order_hashes:
@@ -294,9 +294,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
-- 
2.43.0


From b34976893fd1a37cbef81cbf7c4e75124120f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 126/248] fix: plans of the exhaustive and random plan
 generators

---
 postbound/opt/enumeration.py | 4 +++-
 postbound/opt/randomized.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index f000fb6..1755912 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -432,4 +432,6 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(
+                    join_order, query=query, physical_ops=operator_assignment
+                )
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..5e22998 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -568,7 +568,9 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(
+                join_order, query=query, physical_ops=physical_operators
+            )
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 4343858a492e0182e2bd295c182872f203152bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 127/248] fix: cross products with tables that are not part of
 any predicate

---
 postbound/opt/enumeration.py |  4 ++--
 postbound/opt/randomized.py  |  2 +-
 postbound/qal/_qal.py        | 36 ++++++++++++++++++++++++++++++------
 postbound/validation.py      |  2 +-
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1755912..f02e344 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -153,7 +153,7 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -195,7 +195,7 @@ class ExhaustiveJoinOrderEnumerator:
         Generator[JoinTree]
             A generator that produces all possible join orders for the input query.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
         for join_path in nx_utils.nx_frontier_walks(join_graph):
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5e22998..126af1f 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -187,7 +187,7 @@ class RandomJoinOrderGenerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query.join_graph()
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index d43b201..2dec1a3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8347,6 +8347,20 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
         raise ValueError(f"Unknown table source: {table_source}")
 
 
+def _collect_source_tables(table_source: TableSource) -> set[TableReference]:
+    """Handler method to provide the tables that a table source adds to the *FROM* clause of its own query.
+
+    In contrast to `_collect_bound_tables_from_source`, this does not include the tables of subqueries.
+    """
+    if isinstance(table_source, SubqueryTableSource):
+        target_table = table_source.target_table
+        return {target_table} if target_table else set()
+    elif isinstance(table_source, JoinTableSource):
+        left_tables = _collect_source_tables(table_source.left)
+        return left_tables | _collect_source_tables(table_source.right)
+    return _collect_bound_tables_from_source(table_source)
+
+
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
@@ -8967,13 +8981,26 @@ class SqlQuery:
         return self.predicates().joins()
 
     def join_graph(self, *, merge_aliases: bool = False) -> nx.Graph:
-        """Alias for `predicates().join_graph()`.
+        """Provides the join graph for the query.
+
+        This is the join graph of the `predicates()`. In addition, it contains all tables of the *FROM* clause that are not
+        part of any predicate (unless aliases are merged).
 
         See Also
         --------
         QueryPredicates.join_graph
         """
-        return self.predicates().join_graph(merge_aliases=merge_aliases)
+        join_graph = self.predicates().join_graph(merge_aliases=merge_aliases)
+        if merge_aliases or not self.from_clause:
+            return join_graph
+
+        # the graph of the predicates is cached and must not be modified
+        join_graph = join_graph.copy()
+        for source in self.from_clause.items:
+            for table in _collect_source_tables(source):
+                if table not in join_graph:
+                    join_graph.add_node(table, predicate=None)
+        return join_graph
 
     def filters_for(self, table: TableReference) -> Optional[AbstractPredicate]:
         """Alias for `predicates().filters_for(table)`.
@@ -9209,10 +9236,7 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        return nx.number_connected_components(self.join_graph()) > 1
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..73b698a 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -438,7 +438,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From d17981953718446cbd15c7fd29254dbd967d1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 128/248] fix: operator recommendations of TONIC

---
 postbound/opt/tonic.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 5400008..80945c2 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -462,21 +462,16 @@ class QEPsNode:
             return
 
         next_join, *remaining_joins = join_order
-        recommendation = self.current_recommendation()
-        if recommendation:
-            current_assignment.set_join_operator(
-                JoinOperatorAssignment(recommendation, self.tables())
-            )
-
         if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                <= next_join.inner_child.plan_depth()
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._assign_recommendation(next_join, current_assignment)
             qeps_subquery_node.subquery_root.recommend_operators(
                 query, _iterate_join_tree(subquery_child), current_assignment
             )
@@ -510,11 +505,12 @@ class QEPsNode:
             next_table = (
                 next_join.inner_child.base_table
                 if next_join.inner_child.is_scan()
-                else next_join.inner_child.outer_child.base_table
+                else next_join.outer_child.base_table
             )
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._assign_recommendation(next_join, current_assignment)
         qeps_child_node.recommend_operators(query, remaining_joins, current_assignment)
 
     def integrate_costs(
@@ -802,6 +798,25 @@ class QEPsNode:
             self.filter_aware, self.gamma, parent=self, identifier=identifier
         )
 
+    def _assign_recommendation(
+        self, join: JoinTree, current_assignment: PhysicalOperatorAssignment
+    ) -> None:
+        """Inserts the current recommendation of this node (if there is any) for a specific join.
+
+        Parameters
+        ----------
+        join : JoinTree
+            The join that is described by this node
+        current_assignment : PhysicalOperatorAssignment
+            The assignment that should receive the recommendation
+        """
+        recommendation = self.current_recommendation()
+        if not recommendation:
+            return
+        current_assignment.set_join_operator(
+            JoinOperatorAssignment(recommendation, join.tables())
+        )
+
     def _make_identifier(
         self, query: qal.SqlQuery, table: TableReference | Iterable[TableReference]
     ) -> QepsIdentifier:
-- 
2.43.0


From 6594be2410154dd5282b025ad4a6b20ad57386ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 129/248] fix: detection of unknown costs in TONIC

---
 postbound/opt/tonic.py | 61 ++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 80945c2..3865374 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -182,24 +182,6 @@ def _normalize_filter_predicate(
     return transform.rename_columns_in_predicate(filter_predicate, renamed_columns)
 
 
-def _tables_in_qeps_path(
-    qeps_path: Sequence[QepsIdentifier],
-) -> frozenset[TableReference]:
-    """Extracts all tables along a QEP-S path
-
-    Parameters
-    ----------
-    qeps_path : Sequence[QepsIdentifier]
-        The path to analyze
-
-    Returns
-    -------
-    frozenset[TableReference]
-        All tables in the path
-    """
-    return util.set_union(identifier.tables() for identifier in qeps_path)
-
-
 class QepsIdentifier:
     """Models the identifiers of QEP-S nodes.
 
@@ -635,26 +617,19 @@ class QEPsNode:
         if not join_order:
             return
 
-        if not self.is_root_node() and not self._parent.is_root_node():
-            own_unknown_ops = frozenset(
-                [
-                    operator
-                    for operator in allowed_operators
-                    if operator not in self.operator_costs
-                ]
-            )
-            unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
-
         next_join, *remaining_joins = join_order
         if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                <= next_join.inner_child.plan_depth()
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._collect_unknown_costs(
+                next_join, allowed_operators, unknown_ops
+            )
             qeps_subquery_node.subquery_root.detect_unknown_costs(
                 query,
                 _iterate_join_tree(subquery_child),
@@ -700,6 +675,9 @@ class QEPsNode:
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._collect_unknown_costs(
+            next_join, allowed_operators, unknown_ops
+        )
         qeps_child_node.detect_unknown_costs(
             query, remaining_joins, allowed_operators, unknown_ops
         )
@@ -817,6 +795,31 @@ class QEPsNode:
             JoinOperatorAssignment(recommendation, join.tables())
         )
 
+    def _collect_unknown_costs(
+        self,
+        join: JoinTree,
+        allowed_operators: frozenset[JoinOperator],
+        unknown_ops: dict[frozenset[TableReference], frozenset[JoinOperator]],
+    ) -> None:
+        """Stores all operators without cost information for a specific join.
+
+        Parameters
+        ----------
+        join : JoinTree
+            The join that is described by this node
+        allowed_operators : frozenset[JoinOperator]
+            Operators for which cost information should exist
+        unknown_ops : dict[frozenset[TableReference], frozenset[JoinOperator]]
+            The unknown operators that have been detected so far
+        """
+        own_unknown_ops = frozenset(
+            operator
+            for operator in allowed_operators
+            if operator not in self.operator_costs
+        )
+        if own_unknown_ops:
+            unknown_ops[join.tables()] = own_unknown_ops
+
     def _make_identifier(
         self, query: qal.SqlQuery, table: TableReference | Iterable[TableReference]
     ) -> QepsIdentifier:
-- 
2.43.0


From 7e2fb8ca625cb07e4fa2a64d952b23cc457c5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 130/248] fix: QEP-S traversal of plans with auxiliary nodes

---
 postbound/opt/tonic.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 3865374..7e2469b 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -88,6 +88,16 @@ def _right_query_plan_child(node: QueryPlan) -> QueryPlan:
     return node.inner_child
 
 
+def _join_depth(node: QueryPlan) -> int:
+    """Calculates the length of the longest path to a leaf node, considering only the joins and scans along the path.
+
+    In contrast to `QueryPlan.plan_depth`, auxiliary nodes such as sorts or hashes do not contribute to the depth. Therefore,
+    the depth of a query plan is always equal to the depth of its join tree.
+    """
+    input_depth = max((_join_depth(child) for child in node.children), default=0)
+    return input_depth + 1 if node.is_join() or node.is_scan() else input_depth
+
+
 def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     """Provides all joins along the deepest join path in the query plan.
 
@@ -112,7 +122,7 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     )
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_query_plan(right_child)) + [current_node]
@@ -536,8 +546,9 @@ class QEPsNode:
             return
 
         next_node, *remaining_nodes = query_plan
-        if not next_node.is_join:
+        if not next_node.is_join():
             self.integrate_costs(query, remaining_nodes)
+            return
 
         first_child, second_child = (
             _left_query_plan_child(next_node),
@@ -546,7 +557,7 @@ class QEPsNode:
         if _joins_intermediates(next_node):
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.plan_depth() < first_child.plan_depth()
+                if _join_depth(second_child) < _join_depth(first_child)
                 else (first_child, second_child)
             )
             qeps_subquery_id = QepsIdentifier(first_child.tables())
-- 
2.43.0


From e3e837dafdd2b8823e012238c8a055555b0acd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 131/248] fix: loading of TONIC models

---
 postbound/opt/tonic.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 7e2469b..b54cfeb 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1078,7 +1078,7 @@ def _load_qeps_id_from_json(json_data: dict) -> QepsIdentifier:
     tables = [
         parser.load_table_json(json_table) for json_table in json_data.get("tables", [])
     ]
-    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"), {})
+    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"))
     return QepsIdentifier(tables, filter_pred)
 
 
@@ -1124,20 +1124,18 @@ def _load_qeps_from_json(
     }
     subquery = (
         _load_qeps_from_json(json_data["subquery"], None, None, filter_aware, gamma)
-        if "subquery" in json_data
+        if json_data.get("subquery")
         else None
     )
-    children: dict[QepsIdentifier, QEPsNode] = {}
     for child_json in json_data.get("children", []):
         child_id = _load_qeps_id_from_json(child_json["identifier"])
         child_node = _load_qeps_from_json(
-            json_data["node"], child_id, node, filter_aware, gamma
+            child_json["node"], child_id, node, filter_aware, gamma
         )
-        children[child_id] = child_node
+        node.child_nodes[child_id] = child_node
 
-    node.operator_costs = cost_info
+    node.operator_costs.update(cost_info)
     node._subquery_root = subquery
-    node.child_nodes = children
     return node
 
 
-- 
2.43.0


From 9d7f21b32ec5e47b0102951b127f4ae1a1003d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 132/248] fix: exhaustive cost exploration of TONIC

---
 postbound/opt/tonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index b54cfeb..59c47ed 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1482,7 +1482,8 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
             _sample_cost_estimates(
                 query, join_order, unknown_costs, max_combinations, self._db
             )
-            if total_unknown_combinations > max_combinations
+            if max_combinations is not None
+            and total_unknown_combinations > max_combinations
             else _generate_all_cost_estimates(
                 query, join_order, unknown_costs, self._db
             )
-- 
2.43.0


From 26c27f67bbb488eca243718076dda3685bf923b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 133/248] fix: normalization of base joins in the QEP-S

---
 postbound/opt/tonic.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 59c47ed..be38a8d 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -160,6 +160,16 @@ def _joins_intermediates(node: JoinTree | QueryPlan) -> bool:
     return node.outer_child.is_join() and node.inner_child.is_join()
 
 
+def _base_join_order(
+    table: TableReference,
+) -> tuple[TableReference, TableReference]:
+    """Provides the sort key of the input tables of a base join.
+
+    Since the QEP-S ignores table aliases, the order must not depend on them either (except for self joins).
+    """
+    return table.drop_alias(), table
+
+
 def _normalize_filter_predicate(
     tables: TableReference | Iterable[TableReference],
     filter_predicate: Optional[qal.AbstractPredicate],
@@ -477,10 +487,8 @@ class QEPsNode:
                 next_join.outer_child.base_table,
                 next_join.inner_child.base_table,
             )
-            first_table, second_table = (
-                (second_table, first_table)
-                if second_table < first_table
-                else (first_table, second_table)
+            first_table, second_table = sorted(
+                (first_table, second_table), key=_base_join_order
             )
 
             if not _skip_first_table:
@@ -573,7 +581,8 @@ class QEPsNode:
         elif next_node.is_base_join():
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.fetch_base_table() < first_child.fetch_base_table()
+                if _base_join_order(second_child.fetch_base_table())
+                < _base_join_order(first_child.fetch_base_table())
                 else (first_child, second_child)
             )
             if not _skip_first_table:
@@ -657,10 +666,8 @@ class QEPsNode:
                 next_join.outer_child.base_table,
                 next_join.inner_child.base_table,
             )
-            first_table, second_table = (
-                (second_table, first_table)
-                if second_table < first_table
-                else (first_table, second_table)
+            first_table, second_table = sorted(
+                (first_table, second_table), key=_base_join_order
             )
 
             if not _skip_first_table:
-- 
2.43.0


From aeda5b8bb7eaf610b6b8c94a5cf289aeaedaabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 134/248] fix: cost exploration of TONIC

---
 postbound/opt/tonic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index be38a8d..1023007 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -836,7 +836,7 @@ class QEPsNode:
             if operator not in self.operator_costs
         )
         if own_unknown_ops:
-            unknown_ops[join.tables()] = own_unknown_ops
+            unknown_ops[frozenset(join.tables())] = own_unknown_ops
 
     def _make_identifier(
         self, query: qal.SqlQuery, table: TableReference | Iterable[TableReference]
@@ -1478,7 +1478,7 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
         allowed_operators = frozenset(allowed_operators & supported_operators)
 
         unknown_costs = {
-            intermediate.tables(): allowed_operators
+            frozenset(intermediate.tables()): allowed_operators
             for intermediate in join_order.iterjoins()
         }
         total_unknown_combinations = math.prod(
-- 
2.43.0


From 9bf462e58da9b4e9416cbde3199561d18fdc7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 135/248] fix: database checks of compound checks

---
 postbound/validation.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 73b698a..53e8ad7 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -98,17 +98,15 @@ class PreCheckResult:
         PreCheckResult
             The merged check result
         """
+        failed_checks = [check for check in checks if not check.passed]
+        if not failed_checks:
+            return PreCheckResult.with_all_passed()
         failures: list[str] = []
-        for check in checks:
-            if check.passed:
-                continue
+        for check in failed_checks:
             failures.extend(util.enlist(check.failure_reason))
-        return (
-            PreCheckResult.with_all_passed()
-            if not failures
-            else PreCheckResult.with_failure(failures)
-        )
+        return PreCheckResult.with_failure(failures)
 
+    @staticmethod
     def with_failure(failure: str | list[str]) -> PreCheckResult:
         """Generates a check result for a specific failure.
 
@@ -339,13 +337,16 @@ class CompoundCheck(OptimizationPreCheck):
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
         check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
-        )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
+        return PreCheckResult.merge(check_results)
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        check_results = [
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
+        ]
+        return PreCheckResult.merge(check_results)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
-- 
2.43.0


From 0fd0d7b6bbbd65d04df068ea19a1a242c7af1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 136/248] fix: merging of different checks

---
 postbound/validation.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 53e8ad7..54a130b 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -357,10 +357,10 @@ class CompoundCheck(OptimizationPreCheck):
         )
 
     def __hash__(self) -> int:
-        return hash(tuple(self.checks))
+        return hash(frozenset(self.checks))
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self.checks == other.checks
+        return isinstance(other, type(self)) and set(self.checks) == set(other.checks)
 
     def __str__(self) -> str:
         child_checks_str = "|".join(str(child_check) for child_check in self.checks)
@@ -389,10 +389,8 @@ def merge_checks(
     OptimizationPreCheck
         A check that combines all of the given checks.
     """
-    if not checks:
-        return EmptyPreCheck()
     all_checks = (
-        {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
+        {checks} if isinstance(checks, OptimizationPreCheck) else set(checks or [])
     ) | set(more_checks)
     all_checks = {check for check in all_checks if check}
     compound_checks = [
@@ -693,6 +691,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -733,3 +739,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
-- 
2.43.0


From 6d0dbaeb6fb1a07f43f8d29c514e4696adfeba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 137/248] fix: inner join check

---
 postbound/validation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 54a130b..43e4d69 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -29,10 +29,14 @@ from .qal import (
     DirectTableSource,
     ExplicitFromClause,
     From,
+    FunctionTableSource,
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
+    SelectStatement,
+    SetQuery,
     SqlQuery,
     SubqueryTableSource,
     TableSource,
@@ -572,6 +576,13 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if isinstance(query, SetQuery):
+            return PreCheckResult.merge(
+                [
+                    self.check_supported_query(query.left_query),
+                    self.check_supported_query(query.right_query),
+                ]
+            )
         if not query.from_clause:
             return PreCheckResult.with_all_passed()
 
@@ -592,14 +603,14 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type not in (JoinType.InnerJoin, JoinType.NaturalInnerJoin)
                     else []
                 )
                 checks.extend(
-- 
2.43.0


From 07d508b07d9c489c4598dce98f6e6adbb2972af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 138/248] fix: error reporting of failed pre-checks

---
 postbound/_pipelines.py | 2 +-
 postbound/validation.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..ecdf50c 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -963,7 +963,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         )
         if not db_check_result.passed:
             failures = (
-                " and ".join(db_check_result.failure_reason)
+                " and ".join(str(reason) for reason in db_check_result.failure_reason)
                 if isinstance(db_check_result.failure_reason, list)
                 else db_check_result.failure_reason
             )
diff --git a/postbound/validation.py b/postbound/validation.py
index 43e4d69..fccdee0 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -151,7 +151,7 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, SelectStatement):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
@@ -169,7 +169,7 @@ class PreCheckResult:
         elif isinstance(self.failure_reason, str):
             inner_contents = self.failure_reason
         elif isinstance(self.failure_reason, Iterable):
-            inner_contents = " | ".join(reason for reason in self.failure_reason)
+            inner_contents = " | ".join(str(reason) for reason in self.failure_reason)
         else:
             raise ValueError(
                 "Unexpected failure reason type: " + str(self.failure_reason)
@@ -190,7 +190,7 @@ class UnsupportedQueryError(RuntimeError):
 
     def __init__(self, query: SqlQuery, features: str | list[str] = "") -> None:
         if isinstance(features, list):
-            features = ", ".join(features)
+            features = ", ".join(str(feature) for feature in features)
         features_str = f" [{features}]" if features else ""
 
         super().__init__(f"Query contains unsupported features{features_str}: {query}")
-- 
2.43.0


From f25e33182135c42f39200c0a9800d764c8c428bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 139/248] fix: pre-checks of the integrated pipeline

---
 postbound/_pipelines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index ecdf50c..d11ffdc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
@@ -427,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -440,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From 524c262faab76545e03c40240a4f126dc62a4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 140/248] fix: pre-checks of replaced stages

---
 postbound/_pipelines.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index d11ffdc..be2babb 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._merged_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._merged_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._merged_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -982,8 +983,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._merged_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1032,10 +1032,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return s
 
     def describe(self) -> jsondict:
+        pre_check = self._merged_check if self._build else self._pre_check
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": pre_check.describe() if pre_check else None,
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
-- 
2.43.0


From ae80c3f725400b85380c532dd2f4e63382d1027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 141/248] fix: native plan parameters and costs

---
 postbound/opt/native.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..a43ef27 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -249,7 +249,7 @@ class NativeCostModel(CostModel):
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
             lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -355,7 +355,7 @@ class NativeCostModel(CostModel):
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
             lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -515,7 +515,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
-- 
2.43.0


From 42cce56075811863c03f4c5e1ee356f7b5cf5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 142/248] fix: native presets

---
 postbound/opt/presets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/presets.py b/postbound/opt/presets.py
index 46146c3..2ebe789 100644
--- a/postbound/opt/presets.py
+++ b/postbound/opt/presets.py
@@ -105,7 +105,9 @@ class NativeOptimizationSettings(OptimizationSettings):
     """
 
     def __init__(self, database: Optional[Database] = None) -> None:
-        self.database = database
+        self.database = (
+            database if database else DatabasePool.get_instance().current_database()
+        )
 
     def build_join_order_optimizer(self) -> Optional[JoinOrderOptimization]:
         return native.NativeJoinOrderOptimizer(self.database)
@@ -149,7 +151,7 @@ def fetch(
     """
     if key.upper() == "UES":
         return UESOptimizationSettings(database)
-    elif key == "native":
+    elif key.upper() == "NATIVE":
         return NativeOptimizationSettings(database)
     else:
         raise ValueError(f"Unknown presets for key '{key}'")
-- 
2.43.0


From b4c87cada5addb8a3df298fde7d12e1db89d2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 143/248] fix: costs of materialize and memoize operators

---
 postbound/opt/native.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index a43ef27..5f8071b 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -248,7 +248,7 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
+            lambda node: node.operator == IntermediateOperator.Materialize
             and node.tables() == plan.tables()
         )
         if not intermediate_node:
@@ -354,7 +354,7 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
+            lambda node: node.operator == IntermediateOperator.Memoize
             and node.tables() == plan.tables()
         )
         if not intermediate_node:
-- 
2.43.0


From 97904de83dee6c556f5b9624bfb4954dd89173aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 144/248] fix: caching of precise cardinalities

---
 postbound/opt/_cardinalities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..f0508b8 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -66,10 +66,11 @@ class PreciseCardinalities(CardinalityEstimator):
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From dd15a6ddd2c3aa1080989d56591e3a32944fe236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 145/248] fix: missing pre-computed cardinalities

---
 postbound/opt/_cardinalities.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index f0508b8..5f3b177 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -207,7 +207,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return Cardinality.unknown() if fallback_value is None else fallback_value
 
     def describe(self) -> dict:
         return {
@@ -218,7 +218,7 @@ class PreComputedCardinalities(CardinalityEstimator):
 
     def _attempt_fallback_estimate(
         self, n_samples: int, query: SqlQuery, tables: frozenset[TableReference]
-    ) -> Cardinality:
+    ) -> Optional[Cardinality]:
         """Tries to infer the fallback value for a specific estimate, if this is necessary.
 
         The inference strategy applies the following rules:
@@ -239,8 +239,8 @@ class PreComputedCardinalities(CardinalityEstimator):
 
         Returns
         -------
-        Cardinality
-            The fallback value if it could be inferred, otherwise *NaN*.
+        Optional[Cardinality]
+            The fallback value if it could be inferred, otherwise *None*.
         """
         if n_samples == 1:
             # If we found exactly one sample, we did not need to fall back at all
@@ -249,11 +249,11 @@ class PreComputedCardinalities(CardinalityEstimator):
         if self._default_card is not None:
             return self._default_card
         if self._live_db is None:
-            return Cardinality.unknown()
+            return None
 
         query_fragment = transform.extract_query_fragment(query, tables)
         if not query_fragment:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             true_card_query = transform.as_count_star_query(query_fragment)
-- 
2.43.0


From eb9b9158f8c0c1db4748c2d0205671336b67c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 146/248] fix: storing of live cardinalities

---
 postbound/opt/_cardinalities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 5f3b177..f99f188 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -286,7 +286,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [tables]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -295,13 +295,16 @@ class PreComputedCardinalities(CardinalityEstimator):
                 str(transform.extract_query_fragment(query, tables))
             ]
 
-        result_row[self._card_col] = [cardinality]
+        result_row[self._card_col] = [float(cardinality)]
         result_df = pd.DataFrame(result_row)
 
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        export_df = self._true_card_df.assign(
+            **{self._tables_col: self._true_card_df[self._tables_col].map(util.to_json)}
+        )
+        export_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From ad16926695c2969852090fdf76c690ac4b1c4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 147/248] fix: numeric labels of pre-computed cardinalities

---
 postbound/opt/_cardinalities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index f99f188..8306919 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -177,7 +177,9 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._save_life_fallback = save_live_fallback_results
 
         self._true_card_df = pd.read_csv(
-            lookup_table_path, converters={tables_col: _parse_tables}
+            lookup_table_path,
+            converters={tables_col: _parse_tables},
+            dtype={label_col: str},
         )
 
     def calculate_estimate(
@@ -186,7 +188,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         tables = frozenset(util.enlist(tables))
         label = self._workload.label_of(query)
         relevant_samples = self._true_card_df[
-            self._true_card_df[self._label_col] == label
+            self._true_card_df[self._label_col] == str(label)
         ]
         cardinality_sample = relevant_samples[
             relevant_samples[self._tables_col] == tables
@@ -285,7 +287,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             The computed cardinality
         """
         result_row = {}
-        result_row[self._label_col] = [self._workload.label_of(query)]
+        result_row[self._label_col] = [str(self._workload.label_of(query))]
         result_row[self._tables_col] = [tables]
 
         if "query" in self._true_card_df.columns:
-- 
2.43.0


From 9a83c64569ab4a3b697d753af8b657af89d78fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 148/248] fix: cardinalities of intermediates of queries with
 LIMIT or GROUP BY

---
 postbound/opt/_cardinalities.py | 18 +++++++++++++++---
 postbound/opt/native.py         |  4 ++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 8306919..99e60d5 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -13,10 +13,22 @@ from .._stages import (
     CardinalityEstimator,
 )
 from ..db import Database, DatabasePool
-from ..qal import SqlQuery
+from ..qal import GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..workloads import Workload
 
 
+def _intermediate_query(
+    query: SqlQuery, tables: Iterable[TableReference]
+) -> Optional[SqlQuery]:
+    """Provides the query fragment that computes an intermediate, i.e. without grouping, ordering or limiting its tuples."""
+    fragment = transform.extract_query_fragment(query, tables)
+    if fragment is None:
+        return None
+    return transform.drop_clause(
+        transform.as_star_query(fragment), [GroupBy, Having, OrderBy, Limit]
+    )
+
+
 class PreciseCardinalities(CardinalityEstimator):
     """Cardinality "estimator" that calculates exact cardinalities.
 
@@ -64,7 +76,7 @@ class PreciseCardinalities(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
+        subquery = _intermediate_query(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
         if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
@@ -253,7 +265,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         if self._live_db is None:
             return None
 
-        query_fragment = transform.extract_query_fragment(query, tables)
+        query_fragment = _intermediate_query(query, tables)
         if not query_fragment:
             return None
 
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 5f8071b..d0c6d9c 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -48,6 +48,7 @@ from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
 from ..qal import ColumnExpression, OrderBy, SqlQuery
 from ..util import jsondict
+from ._cardinalities import _intermediate_query
 
 
 class CostEstimationWarning(UserWarning):
@@ -421,8 +422,7 @@ class NativeCardinalityEstimator(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
-        subquery = transform.as_star_query(subquery)
+        subquery = _intermediate_query(query, intermediate)
         return self._target_db.optimizer().cardinality_estimate(subquery)
 
     def describe(self) -> jsondict:
-- 
2.43.0


From 88465bf2baf3d83a7a2260346ea5802b3c48218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 149/248] fix: distortion of estimators with state

---
 postbound/opt/_cardinalities.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 99e60d5..ded614f 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -14,6 +14,7 @@ from .._stages import (
 )
 from ..db import Database, DatabasePool
 from ..qal import GroupBy, Having, Limit, OrderBy, SqlQuery
+from ..validation import OptimizationPreCheck
 from ..workloads import Workload
 
 
@@ -382,3 +383,14 @@ class CardinalityDistortion(CardinalityEstimator):
                 f"Unknown distortion strategy: '{self.distortion_strategy}'"
             )
         return round(card_est * distortion_factor)
+
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        super().cleanup()
+        self.estimator.cleanup()
+
+    def pre_check(self) -> OptimizationPreCheck:
+        return self.estimator.pre_check()
-- 
2.43.0


From a7c60b66951fa33a32f9d0973efd33c52d972ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 150/248] fix: cardinalities of tables without predicates

---
 postbound/_stages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..5dc7e4c 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,10 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            if (
+                len(candidate_join) > 1
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From af2b83f2fd6be441a9eab9b616584b2bda35d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 151/248] fix: online learning after timeouts

---
 postbound/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..47b5286 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -786,7 +786,7 @@ class _ResultSample:
     def to_execution_results(self) -> list[ExecutionResult]:
         results: list[ExecutionResult] = []
         for i, status in enumerate(self.status):
-            if status in ["optimization-error", "execution-error"]:
+            if status != "ok":
                 continue
 
             sample = ExecutionResult(
-- 
2.43.0


From 5cdae015957df2f04a686795afc70db60c9ba9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 152/248] fix: executed queries and results of the benchmark

---
 postbound/bench.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 47b5286..099a6c3 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -532,9 +532,8 @@ def _execute_query(
     *,
     on: Database,
     timeout: Optional[float] = None,
-    query_prep: Optional[QueryPreparation] = None,
 ) -> _InternalExecResult:
-    """Prepares and executes a query on an actual database system while gracefully handling timeouts and errors.
+    """Executes a query on an actual database system while gracefully handling timeouts and errors.
 
     This is a simple handler that does not care about the larger control flow of the benchmarking process. It simply executes
     stuff and lets the more high-level control loops deal with the rest (e.g. proper error handling, etc).
@@ -542,9 +541,6 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
-
     try:
         if timeout:
             exec_start = time.perf_counter_ns()
@@ -627,6 +623,11 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _export_result_set(result_set: ResultSet | None) -> Any:
+    """Simplifies a result set, but keeps missing result sets (due to errors or timeouts) apart from empty ones."""
+    return None if result_set is None else simplify_result_set(result_set)
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -657,6 +658,7 @@ class _ResultSample:
         self.optimization_time: float = np.nan
         self.optimization_pipeline: OptimizationPipeline | None = None
         self.optimized_query: SqlQuery | None = None
+        self.executed_query: SqlQuery | None = None
         self.failure_reasons: list[str] = []
         self.result_sets: list[ResultSet | None] = []
         self.exec_times: list[float] = []
@@ -690,7 +692,8 @@ class _ResultSample:
         self.exec_times += [np.nan] * self._max_query_reps
         self.db_configs += [{}] * self._max_query_reps
 
-    def start_execution(self) -> None:
+    def start_execution(self, query: SqlQuery) -> None:
+        self.executed_query = query
         self.timestamps.append(datetime.now())
 
     def add_exec_sample(
@@ -729,11 +732,10 @@ class _ResultSample:
         if self._optimization_failure or not self.result_sets:
             return None
 
-        result_set = simplify_result_set(self.result_sets[-1])
         return ExecutionResult(
-            query=self.query,
+            query=self.executed_query or self.query,
             status=self.status[-1],
-            query_result=result_set,
+            query_result=_export_result_set(self.result_sets[-1]),
             optimization_time=self.optimization_time,
             execution_time=self.exec_times[-1],
         )
@@ -744,7 +746,6 @@ class _ResultSample:
             return pd.DataFrame()
 
         if only_last:
-            result_set = simplify_result_set(self.result_sets[-1])
             rows = {
                 "exec_index": [self._initial_idx + n_samples - 1],
                 "label": [self.label],
@@ -753,7 +754,7 @@ class _ResultSample:
                 "query_repetition": [n_samples],
                 "query": [self.query],
                 "status": [self.status[-1]],
-                "query_result": [result_set],
+                "query_result": [_export_result_set(self.result_sets[-1])],
                 "exec_time": [self.exec_times[-1]],
                 "failure_reason": [self.failure_reasons[-1]],
                 "db_config": [self.db_configs[-1]],
@@ -771,7 +772,7 @@ class _ResultSample:
                 "query_repetition": [i + 1 for i in range(n_samples)],
                 "query": [self.query] * n_samples,
                 "status": self.status,
-                "query_result": [simplify_result_set(rs) for rs in self.result_sets],
+                "query_result": [_export_result_set(rs) for rs in self.result_sets],
                 "exec_time": self.exec_times,
                 "failure_reason": self.failure_reasons,
                 "db_config": self.db_configs,
@@ -790,7 +791,7 @@ class _ResultSample:
                 continue
 
             sample = ExecutionResult(
-                query=self.query,
+                query=self.executed_query or self.query,
                 status=status,
                 query_result=self.result_sets[i],
                 optimization_time=self.optimization_time,
@@ -930,11 +931,12 @@ def _exec_ctl_loop(
     """
     cfg.log.next_query_rep()
 
+    if cfg.query_prep:
+        query = cfg.query_prep.prepare_query(query, on=cfg.target_db)
+
     db_config = cfg.target_db.describe()
-    sample.start_execution()
-    match _execute_query(
-        query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
-    ):
+    sample.start_execution(query)
+    match _execute_query(query, on=cfg.target_db, timeout=cfg.timeout):
         case _SuccessfullExecution(result_set, exec_time):
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
         case _TimeoutExecution(exec_time):
@@ -1012,7 +1014,7 @@ def _workload_ctl_loop(
             assert exec_result.query_result is not None
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
-                query, exec_result.query_result, exec_time=exec_time
+                exec_result.query, exec_result.query_result, exec_time=exec_time
             )
 
 
-- 
2.43.0


From 599d90d9e923affcc3ffa2bc09cdb3c237300dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 153/248] fix: ignored errors of the benchmark

---
 postbound/bench.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 099a6c3..87639ee 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -654,6 +654,7 @@ class _ResultSample:
 
         # collected data
         self.timestamps: list[datetime | None] = []
+        self.repetitions: list[int] = []
         self.status: list[ExecStatus] = []
         self.optimization_time: float = np.nan
         self.optimization_pipeline: OptimizationPipeline | None = None
@@ -668,6 +669,7 @@ class _ResultSample:
         self._max_query_reps = max_query_reps
         self._optimization_failure: Exception | None = None
         self._initial_idx = initial_exec_idx
+        self._current_rep = 0
 
     def optimization_results(
         self,
@@ -686,6 +688,7 @@ class _ResultSample:
         self._optimization_failure = reason
         self.optimization_pipeline = pipeline
         self.timestamps += [None] * self._max_query_reps
+        self.repetitions += list(range(1, self._max_query_reps + 1))
         self.status += ["optimization-error"] * self._max_query_reps  # type: ignore[list-item]]
         self.failure_reasons += [str(reason)] * self._max_query_reps
         self.result_sets += [None] * self._max_query_reps
@@ -694,8 +697,15 @@ class _ResultSample:
 
     def start_execution(self, query: SqlQuery) -> None:
         self.executed_query = query
+        self._current_rep += 1
+        self.repetitions.append(self._current_rep)
         self.timestamps.append(datetime.now())
 
+    def scratch_execution(self) -> None:
+        """Forgets about the current execution, i.e. it will not be part of the results."""
+        self.timestamps.pop()
+        self.repetitions.pop()
+
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
@@ -751,7 +761,7 @@ class _ResultSample:
                 "label": [self.label],
                 "timestamp": [self.timestamps[-1]],
                 "workload_repetition": [self.current_workload_rep],
-                "query_repetition": [n_samples],
+                "query_repetition": [self.repetitions[-1]],
                 "query": [self.query],
                 "status": [self.status[-1]],
                 "query_result": [_export_result_set(self.result_sets[-1])],
@@ -769,7 +779,7 @@ class _ResultSample:
                 "label": [self.label] * n_samples,
                 "timestamp": self.timestamps,
                 "workload_repetition": [self.current_workload_rep] * n_samples,
-                "query_repetition": [i + 1 for i in range(n_samples)],
+                "query_repetition": self.repetitions,
                 "query": [self.query] * n_samples,
                 "status": self.status,
                 "query_result": [_export_result_set(rs) for rs in self.result_sets],
@@ -882,7 +892,6 @@ class _ExecutionResults:
         self.query_reps = query_reps
         self.query_prep = query_prep
 
-        self._execution_counter = 1
         self._workload_rep = 0
         self._samples: list[_ResultSample] = []
 
@@ -890,14 +899,12 @@ class _ExecutionResults:
         self._workload_rep += 1
 
     def next_query(self, query: SqlQuery, *, label: str) -> _ResultSample:
-        if self._samples:
-            last_sample = self._samples[-1]
-            self._execution_counter += last_sample.num_executions()
+        num_executions = sum(sample.num_executions() for sample in self._samples)
 
         sample = _ResultSample(
             query=query,
             label=label,
-            initial_exec_idx=self._execution_counter,
+            initial_exec_idx=1 + num_executions,
             current_workload_rep=self._workload_rep,
             query_prep=self.query_prep,
             max_query_reps=self.query_reps,
@@ -914,7 +921,7 @@ class _ExecutionResults:
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
         samples = [sample.to_df() for sample in self._samples]
-        return pd.concat(samples, ignore_index=True)
+        return pd.concat(samples, ignore_index=True) if samples else pd.DataFrame()
 
 
 def _exec_ctl_loop(
@@ -946,7 +953,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.scratch_execution()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From 75cfde7aae8943415668e42b169712430fb36279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 154/248] fix: progressive output of failures

---
 postbound/bench.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 87639ee..9cc990a 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -814,7 +814,7 @@ class _ResultSample:
         if file is None:
             return
 
-        df = self.to_df(only_last=True)
+        df = self.to_df(only_last=self._optimization_failure is None)
         df = prepare_export(df)
 
         match file.suffix:
@@ -960,7 +960,7 @@ def _exec_ctl_loop(
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
-- 
2.43.0


From 5f032ad1bf28efb2e0b3609dadbd734345f41b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 155/248] fix: progressive output to JSON

---
 postbound/bench.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 9cc990a..a71f751 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -864,13 +864,21 @@ class _ResultSample:
             df.to_hdf(file, mode="w", index=False, **writer_args)
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
+        writer_args = {"orient": "records"} | writer_args
         if file.is_file():
-            existing_results = pd.read_json(file)
+            existing_results = pd.read_json(
+                file,
+                orient=writer_args["orient"],
+                lines=writer_args.get("lines", False),
+                dtype=False,
+                convert_dates=["timestamp"],
+                keep_default_dates=False,
+            )
             df = pd.concat([existing_results, df], ignore_index=True)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
-        df.to_json(file, index=False, **writer_args)
+        df.to_json(file, **writer_args)
 
     def __len__(self) -> int:
         return self.num_executions()
-- 
2.43.0


From d8de1b4f36b7f56580934a7ea226171b45b3becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 156/248] fix: export of results with different types

---
 postbound/bench.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index a71f751..6a444f2 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1282,9 +1282,11 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
 
     prepared_df = results_df.copy()
 
-    example_result = prepared_df.iloc[0]
-    for col in example_result.index:
-        if not isinstance(example_result[col], (list, tuple, dict, Jsonizable)):
+    for col in prepared_df.columns:
+        if not any(
+            isinstance(value, (list, tuple, dict, Jsonizable))
+            for value in prepared_df[col]
+        ):
             continue
 
         prepared_df[col] = prepared_df[col].apply(util.to_json)
-- 
2.43.0


From 7faa6a50b06cdbf322fb017061b70429803d33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 157/248] fix: sorting of benchmark results

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6a444f2..88380f6 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1319,6 +1319,11 @@ def sort_results(
     pd.DataFrame
         A reordered data frame. The original data frame is not modified
     """
-    return results_df.sort_values(
-        by=by_column, key=lambda series: np.argsort(natsort.index_natsorted(series))
-    )
+
+    def natural_rank(series: pd.Series) -> pd.Series:
+        # equal values need the same rank, otherwise the remaining columns would not matter
+        ranks = {val: i for i, val in enumerate(natsort.natsorted(series.unique()))}
+        return series.map(ranks)
+
+    columns = [by_column] if isinstance(by_column, str) else list(by_column)
+    return results_df.sort_values(by=columns, key=natural_rank)
-- 
2.43.0


From 05382a2485ce84b9c2ecb29253eef5873eb5ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 158/248] fix: export of optimization pipelines

---
 postbound/_pipelines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index be2babb..ff2742d 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -316,6 +316,9 @@ class OptimizationPipeline(abc.ABC):
         """
         raise NotImplementedError
 
+    def __json__(self) -> jsondict:
+        return self.describe()
+
 
 class IntegratedOptimizationPipeline(OptimizationPipeline):
     """This pipeline is intended for algorithms that calculate the entire query plan in a single process.
-- 
2.43.0


From 153b960da892b14b03b34cff17a88227bf230ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 159/248] fix: hashing of Postgres explain nodes

---
 postbound/postgres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 9bee0ca..4c5f6dd 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4395,6 +4395,7 @@ class PostgresExplainNode:
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
+            and self._hash_val == other._hash_val
             and self.node_type == other.node_type
             and self.relation_name == other.relation_name
             and self.relation_alias == other.relation_alias
-- 
2.43.0


From ea3a16232b78ccac604493a79500cd38389c2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 160/248] fix: inner and outer children of identical explain
 nodes

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 4c5f6dd..c2ccae3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4219,7 +4219,7 @@ class PostgresExplainNode:
         inner_child = (
             first_child if first_child.parent_relationship == "Inner" else second_child
         )
-        outer_child = first_child if second_child == inner_child else second_child
+        outer_child = first_child if second_child is inner_child else second_child
         return (inner_child, outer_child)
 
     def parse_table(self) -> Optional[TableReference]:
-- 
2.43.0


From 8a4e6a10ee2ac3be5d2586b2ed7630bff81e586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 161/248] fix: DuckDB scans with multiple filters

---
 postbound/duckdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 7eb7880..d5fa481 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -481,7 +481,10 @@ def _bind_node_to_table(
         candidate: "".join(pred.split()) for candidate, pred in query_filters.items()
     }
 
-    plan_filter: str = scan_node.get("extra_info", {}).get("Filters", "")
+    plan_filter: str | list[str] = scan_node.get("extra_info", {}).get("Filters", "")
+    if isinstance(plan_filter, list):
+        # DuckDB reports multiple filters as a list
+        plan_filter = "AND".join(plan_filter)
     plan_filter = "".join(plan_filter.split())
 
     node_trigram = set(stats.trigrams(plan_filter))
-- 
2.43.0


From 8521641ecd89c56593c6c5ee54c73959f89b513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 162/248] fix: analyzed and raw plans of DuckDB

---
 postbound/duckdb.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index d5fa481..8250bfd 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -509,7 +509,7 @@ def _bind_node_to_table(
 
 
 def parse_duckdb_plan(
-    raw_plan: dict | str, *, query: Optional[SqlQuery] = None
+    raw_plan: dict | list | str, *, query: Optional[SqlQuery] = None
 ) -> QueryPlan:
     """Parses a DuckDB query plan from its JSON representation.
 
@@ -524,6 +524,9 @@ def parse_duckdb_plan(
     """
     if isinstance(raw_plan, str):
         raw_plan = json.loads(raw_plan)
+    if isinstance(raw_plan, list):
+        # plain EXPLAIN plans are wrapped in a list, EXPLAIN ANALYZE plans are not
+        raw_plan = raw_plan[0]
 
     node_type = raw_plan.get("name") or raw_plan.get("operator_name")
     if not node_type:
@@ -631,8 +634,7 @@ class DuckDBOptimizer(OptimizerInterface):
         assert len(result_set) == 2
 
         raw_explain = result_set[1]
-        parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        return parse_duckdb_plan(raw_explain, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From eb9821aab077a1f3fccbb4fe53d3ed31774c2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 163/248] fix: import of raw MySQL plans

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 3aad1d5..5fa9baa 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -683,7 +683,7 @@ class MysqlOptimizer(OptimizerInterface):
         raise NotImplementedError("MySQL interface does not support ANALYZE plans yet")
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
-        mysql_plan = MysqlExplainPlan(plan)
+        mysql_plan = parse_mysql_explain_plan(query, plan)
         return mysql_plan.as_qep()
 
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
-- 
2.43.0


From 1c585cfd9fa9158b05d0bb5ca4808248317b25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 164/248] fix: total costs of MySQL plans

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 5fa9baa..1ba1f20 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -1042,7 +1042,7 @@ def parse_mysql_explain_plan(
     query: Optional[SqlQuery], explain_data: dict
 ) -> MysqlExplainPlan:
     explain_data = explain_data["query_block"]
-    query_cost = explain_data.get("cost_info", {}).get("query_cost", math.nan)
+    query_cost = float(explain_data.get("cost_info", {}).get("query_cost", math.nan))
 
     # the EXPLAIN plan should only have a single root node, but we do not know which operator it is (the JSON document
     # contains the nodes directly as keys, not under a normalized name, remember?). Therefore, we simply iterate over
-- 
2.43.0


From 2bf27f7050cb40efe84a15b8701b3cf8485cb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 165/248] fix: tables of MySQL plans with self joins

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 1ba1f20..62c0a59 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -804,7 +804,7 @@ def _lookup_table(
     table_map = {tab.full_name: tab for tab in candidate_tables}
 
     # alias takes precedence over full_name in case of conflicts
-    table_map |= {tab.alias: tab for tab in candidate_tables}
+    table_map |= {tab.identifier(): tab for tab in candidate_tables}
     return table_map[alias]
 
 
-- 
2.43.0


From f975383bfd74ee61b066886bc3317fc242e05116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 166/248] fix: preparatory statements of DuckDB queries

---
 postbound/duckdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 8250bfd..e8c8818 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -103,8 +103,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
-- 
2.43.0


From 1ce0aed7ccf84ad33810c20b5838c906ccf29a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 167/248] fix: query cache of DuckDB databases

---
 postbound/duckdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e8c8818..fae32ff 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -64,12 +64,11 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
         self._dbfile = db
 
         self._cur = quacklab.connect(db)
         self._last_query_runtime = math.nan
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
 
         self._stats = DuckDBStatistics(self)
         self._schema = DuckDBSchema(self)
@@ -98,6 +97,7 @@ class DuckDBInterface(Database):
         raw: bool = False,
         timeout: Optional[float] = None,
     ) -> Any:
+        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         if (
             isinstance(query, SqlQuery)
             and query.hints
-- 
2.43.0


From 6171b9e6770419a63865231ee57c217733157897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 168/248] fix: timeouts of DuckDB queries

---
 postbound/duckdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index fae32ff..bf84abc 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -147,7 +147,8 @@ class DuckDBInterface(Database):
             return result_set
         except concurrent.futures.TimeoutError:
             self._cur.interrupt()
-            promise.result()
+            # the worker fails if its query was interrupted and succeeds if it has been finished in the meantime
+            promise.exception()
 
             # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
             # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-- 
2.43.0


From d889db7afe910b5b3fe5960b3ca0b5e0a879f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 169/248] fix: statements without results on MySQL

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 62c0a59..dd116be 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -177,7 +177,7 @@ class MysqlInterface(Database):
             query_result = self._query_cache[query]
         else:
             self._cur.execute(query)
-            query_result = self._cur.fetchall()
+            query_result = self._cur.fetchall() if self._cur.with_rows else None
             if cache_enabled:
                 self._inflate_query_cache()
                 self._query_cache[query] = query_result
-- 
2.43.0


From 2e759a72d902eeb02c946fffa519a05081599a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 170/248] fix: formatting of MySQL queries

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index dd116be..685a823 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -267,7 +267,7 @@ class MysqlInterface(Database):
         if query.hints and query.hints.preparatory_statements:
             self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
-        return str(query)
+        return self.hinting().format_query(query)
 
     def _obtain_query_plan(self, query: str) -> dict:
         if not query.startswith("EXPLAIN FORMAT = JSON"):
-- 
2.43.0


From 426c6813d3d0b140a0c51748ac24123b2fbaa849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 171/248] fix: cursors of reset MySQL connections

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 685a823..c419fba 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -241,7 +241,7 @@ class MysqlInterface(Database):
     def reset_connection(self) -> None:
         self._cur.close()
         self._cnx.cmd_reset_connection()
-        self._cur = self._cnx.cursor()
+        self._cur = self._cnx.cursor(buffered=True)
 
     def cursor(self) -> Cursor:
         return self._cur
-- 
2.43.0


From 340365cd3e4a911520421ab7be4d761c3904b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 172/248] fix: Postgres optimizer for queries with preparatory
 statements

---
 postbound/postgres.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index c2ccae3..adb2812 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2870,7 +2870,6 @@ class PostgresOptimizer(OptimizerInterface):
     def query_plan(self, query: SqlQuery | str) -> QueryPlan:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         raw_query_plan: list = self._pg_instance.execute_query(
@@ -2925,7 +2924,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
@@ -2935,7 +2933,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cost_estimate(self, query: SqlQuery | str) -> float:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
-- 
2.43.0


From 1d88b11a8f2f99c5307efe4c2086f84d58d52b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 173/248] fix: callbacks of parallel queries

---
 postbound/postgres.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index adb2812..139776b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3409,6 +3409,7 @@ class ParallelQueryExecutor:
         self._tasks: list[concurrent.futures.Future] = []
         self._results: list[Any] = []
         self._queries: dict[concurrent.futures.Future, SqlQuery | str] = {}
+        self._drained: set[concurrent.futures.Future] = set()
 
     def queue_query(self, query: SqlQuery | str) -> None:
         """Adds a new query to the queue, to be executed as soon as possible.
@@ -3455,14 +3456,15 @@ class ParallelQueryExecutor:
         TimeoutError or concurrent.futures.TimeoutError
             If some queries have not completed after the given `timeout`.
         """
-        for future in concurrent.futures.as_completed(self._tasks, timeout=timeout):
-            result_set = future.result()
-            self._results.append(result_set)
+        pending = [task for task in self._tasks if task not in self._drained]
+        for future in concurrent.futures.as_completed(pending, timeout=timeout):
+            self._drained.add(future)
+            query, result_set = future.result()
+            self._results.append((query, result_set))
 
             if not callback:
                 continue
 
-            query = self._queries[future]
             callback(query, result_set)
 
     def result_set(self) -> dict[str | SqlQuery, ResultSet | None]:
-- 
2.43.0


From 4524345c0a0673261f76e629b940b17193ceb0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 174/248] fix: formatting of parallel queries

---
 postbound/postgres.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 139776b..3362b3f 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3328,7 +3328,15 @@ def _parallel_query_worker(
         f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Now executing query {query}"
     )
     try:
-        cursor.execute(str(query))
+        if isinstance(query, SqlQuery):
+            prepared_query = _apply_preparatory_statements(query, cur=cursor)
+            if prepared_query.explain:
+                prepared_query = transform.replace_clause(
+                    prepared_query, PostgresExplainClause(prepared_query.explain)
+                )
+            cursor.execute(qal.format_quick(prepared_query, flavor="postgres"))
+        else:
+            cursor.execute(str(query))
         log(
             f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Executed query {query}"
         )
-- 
2.43.0


From 1f8f0e4ea8e836cbf4bf7083af976c1bee22450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 175/248] fix: statements without results on Postgres

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 3362b3f..a41c623 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -743,7 +743,7 @@ class PostgresInterface(Database):
             ) / 10**9  # convert to seconds
 
             query_result = (
-                self._cursor.fetchall() if self._cursor.rowcount >= 0 else None
+                self._cursor.fetchall() if self._cursor.description else None
             )
             if cache_enabled:
                 self._inflate_query_cache()
@@ -3349,7 +3349,7 @@ def _parallel_query_worker(
         else:
             raise e
 
-    result_set = cursor.fetchall()
+    result_set = cursor.fetchall() if cursor.description else None
     cursor.close()
 
     return query, result_set
@@ -3716,7 +3716,7 @@ def _timeout_query_worker(
         runtime = (end_time - start_time) / 10**9
         pg_instance._last_query_runtime = runtime
 
-        raw_result_set = cursor.fetchall()
+        raw_result_set = cursor.fetchall() if cursor.description else None
         if kwargs.get("raw", False):
             result = raw_result_set
         else:
-- 
2.43.0


From 4833e069b86eff3d53c73134972d39fa8286fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 176/248] fix: query cache for Postgres queries with timeouts

---
 postbound/postgres.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a41c623..47fba53 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3787,12 +3787,21 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
-        cached_query: bool = (
-            kwargs.get("cache_enabled", False)
-            and query in self._pg_instance._query_cache
-        )
-        if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+        cache_enabled: Optional[bool] = kwargs.get("cache_enabled", False)
+        if cache_enabled is None:
+            cache_enabled = self._pg_instance.cache_enabled
+        if isinstance(query, SqlQuery):
+            # the cache contains the formatted queries without their preparatory statements
+            cache_key = self._pg_instance.hinting().format_query(
+                transform.drop_hints(query, preparatory_statements_only=True)
+            )
+        else:
+            cache_key = str(query)
+        if cache_enabled and cache_key in self._pg_instance._query_cache:
+            cached_result = self._pg_instance._query_cache[cache_key]
+            if kwargs.get("raw", False):
+                return cached_result
+            return simplify_result_set(cached_result)
 
         self._init_watchdog()
 
@@ -3857,7 +3866,7 @@ class TimeoutQueryExecutor:
             case _:
                 raise StateError("Unexpected result status", result.status)
 
-        if not timed_out and kwargs.get("cache_enabled", False):
+        if not timed_out and cache_enabled:
             warnings.warn(
                 "Cannot cache query results that were obtained with a timeout.",
                 category=QueryCacheWarning,
-- 
2.43.0


From f45223a53b1491c6b13c53d91f4ac2abfed516d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 177/248] fix: terminated timeout workers

---
 postbound/postgres.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 47fba53..e250e77 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3845,14 +3845,20 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
-        result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+        # the worker now has the only open writer, such that we notice if it terminates without sending its result
+        status_send.close()
+        try:
+            result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+        except EOFError:
+            result = _ResultEvent.failed(
+                DatabaseServerError("Query worker terminated unexpectedly", query)
+            )
         timed_out = result.status == "timeout"
         if timed_out:
             query_worker.terminate()
 
         query_worker.join()
         query_worker.close()
-        status_send.close()
         status_recv.close()
 
         match result.status:
-- 
2.43.0


From 31035cf55932e795a9547aeb00e090b7fe83fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 178/248] fix: caching of numeric query results

---
 postbound/db/_db.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..0d547db 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -27,6 +27,7 @@ import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from typing import Any, Literal, Optional, Protocol, Type, overload, runtime_checkable
 
 import networkx as nx
@@ -296,6 +297,8 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
             return {"$timedelta": o.total_seconds()}
+        elif isinstance(o, Decimal):
+            return {"$decimal": str(o)}
         return super().default(o)
 
 
@@ -316,6 +319,8 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
             return timedelta(seconds=obj["$timedelta"])
+        elif "$decimal" in obj:
+            return Decimal(obj["$decimal"])
         return obj
 
 
-- 
2.43.0


From 9e8c3380fdcc235b3f0e35c1ae8a21af99b151d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 179/248] fix: rows of stored query results

---
 postbound/db/_db.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0d547db..0a11b16 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -649,7 +649,11 @@ class Database(abc.ABC):
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
                 try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    cached_results = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    self._query_cache = {
+                        query: [tuple(row) for row in result_set] if result_set else result_set
+                        for query, result_set in cached_results.items()
+                    }
                 except json.JSONDecodeError as e:
                     warnings.warn(
                         f"Could not read query cache: {e}",
-- 
2.43.0


From f0749e4d77ffff8f00c6b641d31c99c4fce82ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 180/248] fix: inflation of the query cache

---
 postbound/db/_db.py   | 9 ++++++---
 postbound/duckdb.py   | 1 +
 postbound/mysql.py    | 3 ++-
 postbound/postgres.py | 5 ++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0a11b16..660095d 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -366,11 +366,13 @@ class Database(abc.ABC):
     cache file, which in turn depends on the system name, system version and database name of the connection.
     """
 
+    _cache_inflated = False
+
     def __init__(self, system_name: str, *, cache_enabled: bool = True) -> None:
         self.system_name = system_name
 
         self._cache_enabled = cache_enabled
-        self._query_cache: dict[str, ResultSet] = {}
+        self._query_cache: dict[str, ResultSet | None] = {}
         if self._cache_enabled:
             self._inflate_query_cache()
         atexit.register(self.close)
@@ -627,7 +629,7 @@ class Database(abc.ABC):
         enabled : bool
             Whether caching should be enabled
         """
-        if enabled and not self._query_cache:
+        if enabled and not self._cache_inflated:
             self._inflate_query_cache()
         self._cache_enabled = enabled
 
@@ -643,8 +645,9 @@ class Database(abc.ABC):
         This reads a JSON file that contains all cached queries and their result sets. It should not be edited
         manually.
         """
-        if self._query_cache:
+        if self._cache_inflated:
             return
+        self._cache_inflated = True
         query_cache_name = self._query_cache_name()
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index bf84abc..3dfc0a7 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -111,6 +111,7 @@ class DuckDBInterface(Database):
             query = str(query)
 
         if cache_enabled:
+            self._inflate_query_cache()
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
                 return cached_res if raw else simplify_result_set(cached_res)
diff --git a/postbound/mysql.py b/postbound/mysql.py
index c419fba..b3232f6 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -173,13 +173,14 @@ class MysqlInterface(Database):
         cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         query = self._prepare_query_execution(query)
 
+        if cache_enabled:
+            self._inflate_query_cache()
         if cache_enabled and query in self._query_cache:
             query_result = self._query_cache[query]
         else:
             self._cur.execute(query)
             query_result = self._cur.fetchall() if self._cur.with_rows else None
             if cache_enabled:
-                self._inflate_query_cache()
                 self._query_cache[query] = query_result
 
         if raw:
diff --git a/postbound/postgres.py b/postbound/postgres.py
index e250e77..e1671a7 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -730,6 +730,8 @@ class PostgresInterface(Database):
             query = _apply_preparatory_statements(query, cur=self._cursor)
             query = self._hinting_backend.format_query(query)
 
+        if cache_enabled:
+            self._inflate_query_cache()
         if cache_enabled and query in self._query_cache:
             query_result = self._query_cache[query]
             return query_result if raw else simplify_result_set(query_result)
@@ -746,7 +748,6 @@ class PostgresInterface(Database):
                 self._cursor.fetchall() if self._cursor.description else None
             )
             if cache_enabled:
-                self._inflate_query_cache()
                 self._query_cache[query] = query_result
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
@@ -3797,6 +3798,8 @@ class TimeoutQueryExecutor:
             )
         else:
             cache_key = str(query)
+        if cache_enabled:
+            self._pg_instance._inflate_query_cache()
         if cache_enabled and cache_key in self._pg_instance._query_cache:
             cached_result = self._pg_instance._query_cache[cache_key]
             if kwargs.get("raw", False):
-- 
2.43.0


From c4c7733911220b5fc4bb5f9dd6d5de816c866b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 181/248] fix: names of refreshed DuckDB connections

---
 postbound/duckdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 3dfc0a7..8536ac1 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -971,6 +971,11 @@ def connect(
     duckdb_instance = DuckDBInterface(db)
 
     if not private:
+        orig_name = name
+        instance_idx = 2
+        while name in db_pool:
+            name = f"{orig_name} - {instance_idx}"
+            instance_idx += 1
         db_pool.register_database(name, duckdb_instance)
 
     return duckdb_instance
-- 
2.43.0


From 5e8d7497b24cb31524a70f5fe0f663e826bc44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 182/248] fix: connections to MySQL

---
 postbound/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index b3232f6..8f5e955 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -69,6 +69,8 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    Histogram,
+    HistogramApproximation,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -453,6 +455,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From d8334147b9fac1e01aad119125a7966d033f129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 183/248] fix: escape Postgres settings

---
 postbound/postgres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e1671a7..a9eebdc 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -269,7 +269,8 @@ class PostgresSetting(str):
         self._val = value
 
     def __new__(cls, parameter: str, value: object):
-        value = "on" if value is True else "off" if value is False else value
+        value = "on" if value is True else "off" if value is False else str(value)
+        value = value.replace("'", "''")
         return super().__new__(cls, f"SET {parameter} = '{value}';")
 
     __match_args__ = ("parameter", "value")
-- 
2.43.0


From 478b1b20770c747475435e1f791c5e009930ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 184/248] fix: names of Postgres settings

---
 postbound/postgres.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a9eebdc..56a46ad 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -183,20 +183,21 @@ _SignificantPostgresSettings = {
     "jit",
     "join_collapse_limit",
     "plan_cache_mode",
-    "recursive_worktable_factor"
+    "recursive_worktable_factor",
     # Automatic Vacuuming (https://www.postgresql.org/docs/current/runtime-config-autovacuum.html)
     "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
-    "autovacuum_threshold",
-    "autovacuum_insert_threshold",
+    "autovacuum_vacuum_threshold",
+    "autovacuum_vacuum_insert_threshold",
     "autovacuum_analyze_threshold",
-    "autovacuum_scale_factor",
+    "autovacuum_vacuum_scale_factor",
+    "autovacuum_vacuum_insert_scale_factor",
     "autovacuum_analyze_scale_factor",
     "autovacuum_freeze_max_age",
     "autovacuum_multixact_freeze_max_age",
-    "autovacuum_cost_delay",
-    "autovacuum_cost_limit",
+    "autovacuum_vacuum_cost_delay",
+    "autovacuum_vacuum_cost_limit",
 }
 """Postgres settings that are relevant to many PostBOUND workflows.
 
@@ -220,17 +221,19 @@ All settings are up-to-date as of Postgres version 16.
 _RuntimeChangeablePostgresSettings = {
     setting for setting in _SignificantPostgresSettings
 } - {
+    "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
-    "autovacuum_threshold",
-    "autovacuum_insert_threshold",
+    "autovacuum_vacuum_threshold",
+    "autovacuum_vacuum_insert_threshold",
     "autovacuum_analyze_threshold",
-    "autovacuum_scale_factor",
+    "autovacuum_vacuum_scale_factor",
+    "autovacuum_vacuum_insert_scale_factor",
     "autovacuum_analyze_scale_factor",
     "autovacuum_freeze_max_age",
     "autovacuum_multixact_freeze_max_age",
-    "autovacuum_cost_delay",
-    "autovacuum_cost_limit",
+    "autovacuum_vacuum_cost_delay",
+    "autovacuum_vacuum_cost_limit",
     "autovacuum_work_mem",
     "bgwriter_delay",
     "bgwriter_lru_maxpages",
-- 
2.43.0


From 9bed5dfc6400a1c42de7655da62f3f4a3692fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 185/248] fix: add Postgres settings to a configuration

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 56a46ad..d7a6cd8 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -414,7 +414,7 @@ class PostgresConfiguration(collections.UserString):
         PostgresConfiguration
             The updated configuration. The original config is not modified.
         """
-        if isinstance(setting, str):
+        if isinstance(setting, str) and not isinstance(setting, PostgresSetting):
             setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
@@ -466,10 +466,10 @@ class PostgresConfiguration(collections.UserString):
             The updated configuration. The original config is not modified.
         """
         match setting:
-            case str():
-                setting = PostgresSetting(setting, value)
             case PostgresSetting(name, _):
                 setting = PostgresSetting(name, value)
+            case str():
+                setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
         target_settings[setting.parameter] = setting
-- 
2.43.0


From 732dce327b859cb537dc762e2b56093ef57dd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 186/248] fix: access to the settings of a configuration

---
 postbound/postgres.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index d7a6cd8..dc973cd 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -484,7 +484,7 @@ class PostgresConfiguration(collections.UserString):
         dict[str, object]
             The settings. Changes to this dictionary will not be reflected in the configuration object.
         """
-        return dict(self._settings)
+        return {name: setting.value for name, setting in self._settings.items()}
 
     def _format(self) -> str:
         """Provides the string representation of the configuration.
@@ -499,10 +499,12 @@ class PostgresConfiguration(collections.UserString):
     def __getitem__(self, index):
         if isinstance(index, str):
             return self._settings[index]
-        return super().__getitem__(index)
+        return self.data[index]
 
     def __setitem__(self, key: str, value: object) -> None:
-        self._settings[key] = value
+        if isinstance(value, PostgresSetting):
+            value = value.value
+        self._settings[key] = PostgresSetting(key, value)
         self.data = self._format()
 
 
-- 
2.43.0


From 60980adc555296f56361fcecb3408c6338cc178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 187/248] fix: string methods of Postgres configurations

---
 postbound/postgres.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index dc973cd..5ef8262 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -508,6 +508,24 @@ class PostgresConfiguration(collections.UserString):
         self.data = self._format()
 
 
+def _plain_string_method(name: str) -> Callable:
+    """Creates a `UserString` method for configurations. The result is a normal string, not another configuration."""
+    method = getattr(collections.UserString, name)
+
+    @functools.wraps(method)
+    def _wrapper(self, *args, **kwargs):
+        return method(collections.UserString(self.data), *args, **kwargs)
+
+    return _wrapper
+
+
+for _method_name in (
+    "__add__ __radd__ __mul__ __rmul__ __mod__ __rmod__ capitalize casefold center expandtabs ljust lower lstrip "
+    "removeprefix removesuffix replace rjust rstrip strip swapcase title translate upper zfill"
+).split():
+    setattr(PostgresConfiguration, _method_name, _plain_string_method(_method_name))
+
+
 class PostgresConfigInterface:
     """A thin wrapper that provides read-only access to Postgres configuration settings using __getitem__ syntax."""
 
-- 
2.43.0


From 5e5a0465ed56543eb25dec093d927663f8ab6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 188/248] fix: configure operators on Postgres

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5ef8262..0e07b38 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2984,7 +2984,7 @@ class PostgresOptimizer(OptimizerInterface):
                 f"Cannot configure operator {operator} as it is not supported by Postgres"
             )
         status = "on" if enabled else "off"
-        self._pg_instance.cursor.execute(f"SET {setting_name} TO {status}")  # type: ignore
+        self._pg_instance.cursor().execute(f"SET {setting_name} TO {status}")  # type: ignore
 
     def uses_geqo(self, query: SqlQuery) -> bool:
         pass
-- 
2.43.0


From d206cae566587b7560b99ed7bf533e446575299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 189/248] fix: read connection files with percent signs

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 0e07b38..e7359d4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3021,7 +3021,7 @@ def _reconnect(name: str, *, pool: DatabasePool) -> PostgresInterface:
 
 
 def _ini_config_reader(file: TextIO, *, path: Path) -> dict[str, str]:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read_file(file)
     if len(config.sections()) != 1:
         raise ValueError(
-- 
2.43.0


From 455680efa4e82413561df188a725765ef843fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 190/248] fix: escape connection parameters

---
 postbound/postgres.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e7359d4..cde04eb 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3059,10 +3059,16 @@ def _read_connection_from_file(config_file: Path) -> str:
 
     with open(config_file, mode) as f:
         config_data = reader(f)
-    parts = (f"{param} = '{value}'" for param, value in config_data.items())
+    parts = (_conninfo_param(param, value) for param, value in config_data.items())
     return " ".join(parts)
 
 
+def _conninfo_param(param: str, value: object) -> str:
+    """Formats a single parameter of a connect string. Quotes and backslashes of the value are escaped."""
+    value = str(value).replace("\\", "\\\\").replace("'", "\\'")
+    return f"{param} = '{value}'"
+
+
 def connect(
     *,
     name: str = "postgres",
@@ -3190,7 +3196,7 @@ def connect(
             val = os.getenv(var)
             if not val:
                 continue
-            components.append(f"{key} = '{val}'")
+            components.append(_conninfo_param(key, val))
         connect_string = " ".join(components)
     else:
         raise ValueError(
-- 
2.43.0


From be923198e77ee5b94ec9ac0446f8115670f6b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 191/248] fix: do not cool down virtual tables

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index cde04eb..8880af6 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1085,7 +1085,7 @@ class PostgresInterface(Database):
         if not tables:
             return
         tables = set(
-            tab.full_name for tab in tables
+            tab.full_name for tab in tables if not tab.virtual
         )  # eliminate duplicates if tables are selected multiple times
 
         table_indexes = (
-- 
2.43.0


From 688785776e2820f67c69a3a96cae6cd85e5fc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 192/248] fix: names in emulated statistics

---
 postbound/db/_db.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 660095d..bd9a03e 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -44,6 +44,7 @@ from .._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from .._hints import (
     HintType,
@@ -2726,7 +2727,7 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.qualified_name())
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2754,7 +2755,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2783,7 +2784,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2828,7 +2829,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
@@ -2837,7 +2838,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                LIMIT {k}""".format(col=quote(column.name), tab=column.table.qualified_name(), k=k)
             )
 
         return self._db.execute_query(
@@ -2863,7 +2864,7 @@ class DatabaseStatistics(abc.ABC):
             FROM {tab}
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=quote(column.name), tab=column.table.qualified_name())
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
-- 
2.43.0


From 8641ad0e5158342afbdd79c6f9f49478a7987a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:15 +0000
Subject: [PATCH 193/248] fix: NULL values in emulated statistics

---
 postbound/db/_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index bd9a03e..f79c392 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2827,6 +2827,7 @@ class DatabaseStatistics(abc.ABC):
             query_template = """
                 SELECT {col}, COUNT(*) AS n
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
                 col=quote(column.name), tab=column.table.qualified_name()
@@ -2836,6 +2837,7 @@ class DatabaseStatistics(abc.ABC):
                 """
                 SELECT {col}, COUNT(*) AS n
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
                 LIMIT {k}""".format(col=quote(column.name), tab=column.table.qualified_name(), k=k)
@@ -2862,6 +2864,7 @@ class DatabaseStatistics(abc.ABC):
         query_template = """
             SELECT {col}, COUNT(*) AS n
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
             """.format(col=quote(column.name), tab=column.table.qualified_name())
-- 
2.43.0


From 3c4039f75e5ed44fc4d85354be3eb63a2c0ed2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:15 +0000
Subject: [PATCH 194/248] fix: final bucket of emulated histograms

---
 postbound/db/_db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index f79c392..f473460 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1752,7 +1752,7 @@ def _infer_histogram_bounds[T](
     if not frequencies:
         raise ValueError("Cannot infer histogram bounds from empty frequency list")
 
-    bucket_size = n_rows // n_bins
+    bucket_size = -(-n_rows // n_bins)  # rounded up
 
     bounds: list[T] = []
     buckets: list[int] = []
@@ -1765,6 +1765,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq:
+        # the final bucket contains the remaining values
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
-- 
2.43.0


From 67c42834c67da11cc6afe86ed83bb5bced9c210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 195/248] fix: number of rows of emulated histograms

---
 postbound/db/_db.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index f473460..950b115 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2862,10 +2862,6 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
-
         query_template = """
             SELECT {col}, COUNT(*) AS n
             FROM {tab}
@@ -2878,7 +2874,9 @@ class DatabaseStatistics(abc.ABC):
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
+        if not result_set:
+            return None
+        n_rows = sum(freq for _, freq in result_set)
 
         lo, bounds, buckets = _infer_histogram_bounds(
             result_set, n_bins=n_bins, n_rows=n_rows
-- 
2.43.0


From 2c34fe65133471004a3169c88762a74a59b5cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 196/248] fix: frequency estimates of histograms

---
 postbound/db/_db.py | 55 +++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 950b115..113882c 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1885,29 +1885,18 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        upper_idx = bisect.bisect_right(self._bounds, value)
-        if upper_idx == 0:
+        if value < self._lower:
             return 0
-        elif upper_idx == len(self._bounds):
+        elif value >= self.upper:
             return self._n_rows
 
-        if self._bucket_interpolation == "bound":
-            return upper_idx * self._freq_per_bucket
-
-        assert self._bucket_interpolation == "approx-uni"
-
-        if not isinstance(value, (int, float, date, datetime)):
-            raise ValueError(
-                "Cannot estimate frequency within bucket. "
-                f"Strategy '{self._bucket_interpolation}' is unknown or unsupported "
-                f"for histograms of type {type(value).__name__}."
-            )
-
-        lower_idx = upper_idx - 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (lower_idx + in_bucket_frac) * self._freq_per_bucket
+        bucket = bisect.bisect_left(self._bounds, value)
+        preceding = sum(self._frequencies[:bucket])
+        if value == self._bounds[bucket] or self._bucket_interpolation == "bound":
+            return preceding + self._frequencies[bucket]
+        return preceding + self._frequencies[bucket] * self._bucket_fraction(
+            bucket, value
+        )
 
     def frequency_above(self, value: T) -> int:
         """Estimate the frequency of values that are greater than a given value.
@@ -1918,15 +1907,23 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        lower_idx = bisect.bisect_left(self._bounds, value)
-        if lower_idx == 0:
+        if value < self._lower:
             return self._n_rows
-        elif lower_idx == len(self._bounds):
+        elif value >= self.upper:
             return 0
 
-        if self._bucket_interpolation == "bound":
-            return lower_idx * self._freq_per_bucket
+        bucket = bisect.bisect_left(self._bounds, value)
+        following = sum(self._frequencies[bucket + 1 :])
+        if value == self._bounds[bucket]:
+            return following
+        elif self._bucket_interpolation == "bound":
+            return following + self._frequencies[bucket]
+        return following + self._frequencies[bucket] * (
+            1 - self._bucket_fraction(bucket, value)
+        )
 
+    def _bucket_fraction(self, bucket: int, value: T) -> float:
+        """Estimates the fraction of a bucket that is less than a given value, assuming a uniform distribution."""
         assert self._bucket_interpolation == "approx-uni"
 
         if not isinstance(value, (int, float, date, datetime)):
@@ -1936,11 +1933,9 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        upper_idx = lower_idx + 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (upper_idx + in_bucket_frac) * self._freq_per_bucket
+        lower_bound = self._bounds[bucket - 1] if bucket > 0 else self._lower
+        upper_bound = self._bounds[bucket]
+        return (value - lower_bound) / (upper_bound - lower_bound)
 
     def __len__(self) -> int:
         return len(self._bounds)
-- 
2.43.0


From 251b8c1c2204bf47535be0579f34a793c89edc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 197/248] fix: tables of Postgres statistics

---
 postbound/postgres.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 8880af6..f955c72 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1709,7 +1709,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 AND relnamespace = %s::regnamespace
         """
 
-        self._db.cursor().execute(query_template, (table.full_name, schema))
+        self._db.cursor().execute(query_template, (table.qualified_name(), schema))
         result_set = self._db.cursor().fetchone()
         if result_set is None:
             raise ValueError(f"Relation not found: {table}")
@@ -1888,7 +1888,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         schema = table.schema or "public"
         count_query = "SELECT reltuples FROM pg_class WHERE oid = %s::regclass AND relnamespace = %s::regnamespace"
-        self._db.cursor().execute(count_query, (table.full_name, schema))
+        self._db.cursor().execute(count_query, (table.qualified_name(), schema))
         result_set = self._db.cursor().fetchone()
         if not result_set:
             return None
@@ -1965,7 +1965,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         # NB: we have to repeat a few parameters here. Unfortunately, it seems that psycopg
         # does not support casts for named parameters - %(tab)s::regclass does not work
         self._db.cursor().execute(
-            mcv_query, (table.full_name, schema, table.full_name, column.name, schema)
+            mcv_query,
+            (table.qualified_name(), schema, table.full_name, column.name, schema),
         )
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-- 
2.43.0


From 0c1705301ca3447c028d5ee5ffd5f22be800f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 198/248] fix: data types of Postgres statistics

---
 postbound/postgres.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index f955c72..fb290e0 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2065,10 +2065,14 @@ class PostgresStatisticsInterface(DatabaseStatistics):
 
     def _array_cast(self, column: BoundColumnReference) -> str:
         # determine the attributes data type to figure out how it should be converted
-        attribute_query = "SELECT data_type FROM information_schema.columns WHERE table_name = %s AND column_name = %s"
+        schema = column.table.schema or "public"
+        attribute_query = (
+            "SELECT data_type FROM information_schema.columns "
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
 
         self._db.cursor().execute(
-            attribute_query, (column.table.full_name, column.name)
+            attribute_query, (column.table.full_name, column.name, schema)
         )
         result_set = self._db.cursor().fetchone()
         assert result_set
@@ -2077,7 +2081,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         converter = _DTypeArrayConverters.get(attribute_dtype)
         if not converter:
             raise ValueError(
-                "Cannot cast column array of type {attribute_dtype} - no converter found."
+                f"Cannot cast column array of type {attribute_dtype} - no converter found."
             )
         return converter
 
-- 
2.43.0


From 1ce2851629a369a4236270b4bdfdb2d562edb8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 199/248] fix: unknown number of rows in Postgres statistics

---
 postbound/postgres.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index fb290e0..822daf0 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1890,7 +1890,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         count_query = "SELECT reltuples FROM pg_class WHERE oid = %s::regclass AND relnamespace = %s::regnamespace"
         self._db.cursor().execute(count_query, (table.qualified_name(), schema))
         result_set = self._db.cursor().fetchone()
-        if not result_set:
+        if not result_set or result_set[0] < 0:
+            # Postgres uses negative values for tables that have not been analyzed yet
             return None
         count = result_set[0]
         return int(count)
@@ -1925,7 +1926,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
 
         # correct negative values
         n_rows = self._retrieve_total_rows_from_stats(column.table)
-        assert n_rows is not None, "Could not retrieve total row count for table"
+        if n_rows is None:
+            return None
 
         return int(-1 * n_rows * dist_values)
 
@@ -1960,6 +1962,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 AND attname = %s
                 AND schemaname = %s
         """
+        if self._retrieve_total_rows_from_stats(table) is None:
+            return []
         mcv_query = mcv_query.format(conv=attribute_converter)
 
         # NB: we have to repeat a few parameters here. Unfortunately, it seems that psycopg
-- 
2.43.0


From 452a7550edcaeb888cb1bd1fa540a2d107616aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 200/248] fix: histograms of Postgres statistics

---
 postbound/postgres.py | 70 ++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 822daf0..e163a4c 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2003,63 +2003,31 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         bounds = [row[0] for row in result_set]
 
         n_rows = self._retrieve_total_rows_from_stats(column.table)
-        assert n_rows
-
-        bucket_freq = n_rows // len(bounds)
+        if n_rows is None:
+            return None
 
+        # the histogram describes all values that are not part of the MCV list, with an equal number of rows between each pair
+        # of consecutive bounds. The first bound is the smallest value, rather than the end of a bucket.
         mcvs = self._retrieve_most_common_values_from_stats(column, k=None)
+        n_remaining = max(n_rows - sum(freq for _, freq in mcvs), 0)
+        bucket_ends = bounds[1:] or bounds
+        bucket_freq = n_remaining / len(bucket_ends)
+
+        buckets = [(bound, bucket_freq) for bound in bucket_ends] + list(mcvs)
+        buckets.sort(key=lambda bucket: bucket[0])
+        lo = min(bounds[0], buckets[0][0])
 
         normalized_bounds = []
         normalized_frequencies = []
-        lo = None
-        hist_iter = iter(bounds)
-        mcv_iter = iter(mcvs)
-        cur_hist = next(hist_iter, None)
-        cur_mcv = next(mcv_iter, None)
-        while cur_hist is not None or cur_mcv is not None:
-            if cur_mcv is not None:
-                cur_mcv_val, cur_mcv_freq = cur_mcv
-            else:
-                cur_mcv_val, cur_mcv_freq = None, None
-
-            if lo is None:
-                lo = min(
-                    filter(None, [cur_hist, cur_mcv_val]),
-                    default=None,
-                )
-
-            if cur_hist is None:
-                assert cur_mcv_val is not None
-                normalized_bounds.append(cur_mcv_val)
-                normalized_frequencies.append(cur_mcv_freq)
-                cur_mcv = next(mcv_iter, None)
-
-            elif cur_mcv_val is None:
-                normalized_bounds.append(cur_hist)
-                normalized_frequencies.append(bucket_freq)
-
-                prev_hist = cur_hist
-                while (cur_hist := next(hist_iter, None)) == prev_hist:
-                    # for very frequent values, Postgres might put the same value into multiple (equi-depth) buckets
-                    # in this case, we need to sum up the frequencies of all buckets with the same bound value
-                    normalized_frequencies[-1] += bucket_freq
-
-            elif cur_hist < cur_mcv_val:
-                normalized_bounds.append(cur_hist)
-                normalized_frequencies.append(bucket_freq)
-
-                prev_hist = cur_hist
-                while (cur_hist := next(hist_iter, None)) == prev_hist:
-                    # see comment above for the case of duplicate histogram bounds
-                    normalized_frequencies[-1] += bucket_freq
-
-            else:
-                assert cur_mcv_val < cur_hist
-                normalized_bounds.append(cur_mcv_val)
-                normalized_frequencies.append(cur_mcv_freq)
-                cur_mcv = next(mcv_iter, None)
+        for bound, freq in buckets:
+            if normalized_bounds and normalized_bounds[-1] == bound:
+                # for very frequent values, Postgres might put the same value into multiple (equi-depth) buckets
+                # in this case, we need to sum up the frequencies of all buckets with the same bound value
+                normalized_frequencies[-1] += freq
+                continue
+            normalized_bounds.append(bound)
+            normalized_frequencies.append(freq)
 
-        assert lo is not None
         return Histogram(
             normalized_bounds,
             normalized_frequencies,
-- 
2.43.0


From 184c47e7d9b274340e55ca165d2cb64893e9013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 201/248] fix: native MySQL statistics

---
 postbound/mysql.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 8f5e955..5a3daad 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -415,9 +415,10 @@ class MysqlStatisticsInterface(DatabaseStatistics):
 
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         count_query = (
-            "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
+            "SELECT table_rows FROM information_schema.tables "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())"
         )
-        self._db.cursor().execute(count_query, table.full_name)
+        self._db.cursor().execute(count_query, (table.full_name, table.schema or None))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
@@ -428,16 +429,20 @@ class MysqlStatisticsInterface(DatabaseStatistics):
     ) -> Optional[int]:
         stats_query = (
             "SELECT cardinality FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            stats_query,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(stats_query, (column.table.full_name, column.name))
-        distinct_vals = self._db.cursor().fetchone()
-        if distinct_vals is None and not self.enable_emulation_fallback:
-            return distinct_vals
-        elif distinct_vals is None:
+        result_set = self._db.cursor().fetchone()
+        if result_set is not None:
+            return result_set[0]
+        elif self.enable_emulation_fallback:
             return self._calculate_distinct_values(column, cache_enabled=True)
         else:
-            return distinct_vals
+            return None
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
-- 
2.43.0


From 0dd5fb2c494113efdc24a0bad2aa6811f43ceeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:59 +0000
Subject: [PATCH 202/248] fix: views of other schemas

---
 postbound/db/_db.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 113882c..f541ec0 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -899,20 +899,27 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         -----
         **Hint for implementors:** the default implementation of this method relies on the *information_schema.tables* view.
         """
-        if isinstance(table, TableReference) and table.virtual:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
             raise VirtualTableError(table)
-        table = table if isinstance(table, str) else table.full_name
         db_name = self._db.database_name()
 
+        schema_placeholder = (
+            self._prep_placeholder if table.schema else "current_schema()"
+        )
         query_template = textwrap.dedent(f"""
             SELECT table_type
             FROM information_schema.tables
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
                 AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+        params = [db_name, table.full_name]
+        if table.schema:
+            params.append(table.schema)
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
-- 
2.43.0


From a37561e51c7cce792132d31df75e6a580f3616a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:59 +0000
Subject: [PATCH 203/248] fix: lookup of columns

---
 postbound/db/_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index f541ec0..763dce2 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -962,8 +962,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        column = column.name if isinstance(column, ColumnReference) else column
         for candidate in candidate_tables:
-            candidate_cols = self.columns(candidate)
+            candidate_cols = {col.name for col in self.columns(candidate)}
             if column in candidate_cols:
                 return candidate
 
-- 
2.43.0


From b3016d75dc5c01b4fd011218248689f0e629cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 204/248] fix: virtual tables in database schemas

---
 postbound/db/_db.py | 14 ++++++++++++++
 postbound/duckdb.py |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 763dce2..c08986a 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1001,6 +1001,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1052,6 +1054,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         *information_schema.table_constraints* and *information_schema.constraint_column_usage* views.
         """
         table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
         )
@@ -1122,6 +1126,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1204,6 +1210,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1301,6 +1309,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1385,6 +1395,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1435,6 +1447,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 8536ac1..9684c5d 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -27,6 +27,7 @@ from ._core import (
     ScanOperator,
     TableReference,
     UnboundColumnError,
+    VirtualTableError,
 )
 from ._hints import (
     HintType,
@@ -263,6 +264,8 @@ class DuckDBSchema(DatabaseSchema):
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -288,6 +291,8 @@ class DuckDBSchema(DatabaseSchema):
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -339,6 +344,8 @@ class DuckDBSchema(DatabaseSchema):
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
         query_template = f"""
-- 
2.43.0


From cbe60f7962ade8a9d9d28611c1bcba7bfecff61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 205/248] fix: compound primary keys

---
 postbound/db/_db.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index c08986a..15724c8 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1017,21 +1017,22 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'PRIMARY KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
             """)
 
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
+        assert result_set is not None
 
-        return result_set is not None
+        # compound primary keys have multiple columns
+        return [row[0] for row in result_set] == [column.name]
 
     def primary_key_column(
         self, table: TableReference | str
-- 
2.43.0


From 124dc92dfb7324f8ef6663338a2d97377fd359f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 206/248] fix: schemas with compound primary keys

---
 postbound/db/_db.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 15724c8..2caa22c 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1497,7 +1497,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
             cols = self.columns(table)
             dtypes = {col: self.datatype(col) for col in cols}
-            pkey = self.primary_key_column(table)
+            pkey = next((col for col in cols if self.is_primary_key(col)), None)
             g.add_node(table, columns=cols, data_type=dtypes, primary_key=pkey)
 
             all_columns |= set(cols)
@@ -1582,6 +1582,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             case TableReference():
                 schema_graph = self.as_graph()
                 col_infos = [self[col] for col in self.columns(key)]
+                primary_key = next(
+                    (col.column for col in col_infos if col.primary_key), None
+                )
                 outgoing_fks = set_union(
                     edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
                 )
@@ -1591,7 +1594,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                 return TableInfo(
                     table=key,
                     columns=col_infos,
-                    primary_key=self.primary_key_column(key),
+                    primary_key=primary_key,
                     outgoing_foreign_keys=outgoing_fks,
                     incoming_foreign_keys=incoming_fks,
                 )
-- 
2.43.0


From 8ea8fd3ebbedaf913eb821cd86a55048ef478174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 207/248] fix: compound secondary indexes

---
 postbound/db/_db.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 2caa22c..86d2778 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1138,7 +1138,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         # view. For UNIQUE constraints, the column is the column that is constrained. However, for foreign keys, the column
         # is the column that is being referenced.
         query_template = textwrap.dedent(f"""
-            SELECT ccu.column_name
+            SELECT tc.constraint_name, ccu.column_name
             FROM information_schema.table_constraints tc
                 JOIN information_schema.constraint_column_usage ccu
                 ON tc.constraint_name = ccu.constraint_name
@@ -1147,12 +1147,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'UNIQUE'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder}
             UNION
-            SELECT kcu.column_name
+            SELECT tc.constraint_name, kcu.column_name
             FROM information_schema.table_constraints tc
                 JOIN information_schema.key_column_usage kcu
                 ON tc.constraint_name = kcu.constraint_name
@@ -1161,7 +1160,6 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = kcu.table_name
                     AND tc.constraint_catalog = kcu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND kcu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'FOREIGN KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
@@ -1170,18 +1168,21 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         # Due to the UNION query, we need to repeat the placeholders. While the implementation is definitely not elegant,
         # this solution is arguably better than relying on named parameters which might or might not be supported by the
         # target database.
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
-        params.extend([table.full_name, column.name])
+        params.append(table.full_name)
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
+        assert result_set is not None
 
-        return result_set is not None
+        # compound indexes cover multiple columns
+        indexes = util.dicts.generate_multi(result_set)
+        return any(set(columns) == {column.name} for columns in indexes.values())
 
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         """Fetches all foreign key constraints that are specified on a specific column.
-- 
2.43.0


From 65a9119c83ed725d58e2f8611de4bb449ae199cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 208/248] fix: foreign keys of generic schemas

---
 postbound/db/_db.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 86d2778..82e781f 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1219,7 +1219,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             self._prep_placeholder if table.schema else "current_schema()"
         )
         query_template = f"""
-            SELECT ccu.table_schema, ccu.table_name, ccu.column_name
+            SELECT ccu.table_schema, ccu.table_name, ccu.column_name, ccu.table_schema = tc.table_schema
             FROM information_schema.table_constraints tc
                 JOIN information_schema.key_column_usage kcu
                 ON tc.table_name = kcu.table_name
@@ -1248,8 +1248,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
-            for row in result_set
+            BoundColumnReference(
+                col, TableReference(tab, schema=table.schema if same_schema else schema)
+            )
+            for schema, tab, col, same_schema in result_set
         }
 
     def has_index(self, column: ColumnReference) -> bool:
-- 
2.43.0


From 1b46730b2b823f602d8b83d0ca8e2ad571e5300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 209/248] fix: lookup in database schemas

---
 postbound/db/_db.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 82e781f..7c6bbd2 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1574,6 +1574,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
     def __getitem__(self, key):
         match key:
             case ColumnReference():
+                if key.table is None:
+                    raise UnboundColumnError(key)
+                if all(col.name != key.name for col in self.columns(key.table)):
+                    raise KeyError(f"Column '{key}' not found in database schema")
                 return ColumnInfo(
                     column=key,
                     table=key.table,
@@ -1583,8 +1587,12 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
+                columns = self.columns(key)
+                if not columns:
+                    raise KeyError(f"Table '{key}' not found in database schema")
                 schema_graph = self.as_graph()
-                col_infos = [self[col] for col in self.columns(key)]
+                schema_graph.add_node(key)  # e.g. views do not have foreign keys
+                col_infos = [self[col] for col in columns]
                 primary_key = next(
                     (col.column for col in col_infos if col.primary_key), None
                 )
@@ -1602,18 +1610,14 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     incoming_foreign_keys=incoming_fks,
                 )
             case str():
-                try:
-                    ref = TableReference(key)
-                    return self[ref]
-                except KeyError:
-                    pass
+                table = TableReference(key)
+                if self.columns(table):
+                    return self[table]
 
-                try:
-                    col, tab = key.split(".", 1)
-                    ref = ColumnReference(col, TableReference(tab))
-                    return self[ref]
-                except KeyError:
+                tab, _, col = key.rpartition(".")
+                if not tab:
                     raise KeyError(f"Key '{key}' not found in database schema")
+                return self[ColumnReference(col, TableReference(tab))]
             case _:
                 raise KeyError(
                     f"Unsupported key type: {type(key).__name__}. "
-- 
2.43.0


From e22173c5b2296ab457bd0cf10603d68ab15d5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 210/248] fix: indexes on quoted DuckDB columns

---
 postbound/duckdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 9684c5d..104b486 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -273,7 +273,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND trim(ddbi.expressions, '[]''"') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             """)
@@ -306,7 +306,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND trim(ddbi.expressions, '[]''"') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
-- 
2.43.0


From 4b3498253c1a37a950ad06dcb72541bb31429ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 211/248] fix: unique constraints of DuckDB

---
 postbound/duckdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 104b486..e58d2f4 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -276,11 +276,20 @@ class DuckDBSchema(DatabaseSchema):
                 AND trim(ddbi.expressions, '[]''"') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
+            UNION
+            SELECT ddbc.constraint_name
+            FROM duckdb_constraints() ddbc
+            WHERE ddbc.table_name = ?
+                AND ddbc.constraint_column_names = array_value(?)
+                AND ddbc.constraint_type = 'UNIQUE'
+                AND ddbc.database_name = current_database()
+                AND ddbc.schema_name = {schema_placeholder}
             """)
 
         params = [column.table.full_name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
+        params *= 2  # once for each part of the UNION query
 
         cur = self._db.cursor()
         cur.execute(query_template, parameters=params)
-- 
2.43.0


From 2c2e0d8da0db7a09ccf1ede4e4d4e0bb3ea4930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 212/248] fix: tables of Postgres schemas

---
 postbound/postgres.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e163a4c..c99f93d 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1373,13 +1373,14 @@ class PostgresSchemaInterface(DatabaseSchema):
 
     def __init__(self, postgres_db: PostgresInterface) -> None:
         super().__init__(postgres_db)
-        self._tables: set[TableReference] = set()
+        self._tables: dict[tuple[bool, str], set[TableReference]] = {}
 
     def tables(
         self, *, include_system_tables: bool = False, schema: str = "public"
     ) -> set[TableReference]:
-        if self._tables:
-            return self._tables
+        cached_tables = self._tables.get((include_system_tables, schema))
+        if cached_tables:
+            return set(cached_tables)
 
         query_template = textwrap.dedent("""
                                          SELECT table_name
@@ -1389,11 +1390,13 @@ class PostgresSchemaInterface(DatabaseSchema):
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        tables = {TableReference(row[0]) for row in result_set}
+        table_schema = "" if schema == "public" else schema
+        tables = {TableReference(row[0], schema=table_schema) for row in result_set}
         if not include_system_tables:
             tables = {tab for tab in tables if not tab.full_name.startswith("pg_")}
-        self._tables = tables
-        return self._tables
+
+        self._tables[(include_system_tables, schema)] = tables
+        return set(tables)
 
     def lookup_column(
         self,
-- 
2.43.0


From d697594f43defa7480765551b37da6abff4923b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 213/248] fix: cached tables of DuckDB

---
 postbound/duckdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e58d2f4..0b65db9 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -243,7 +243,7 @@ class DuckDBSchema(DatabaseSchema):
 
     def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
         if self._tables:
-            return self._tables
+            return set(self._tables)
 
         cur = self._db.cursor()
         cur.execute(
@@ -259,7 +259,7 @@ class DuckDBSchema(DatabaseSchema):
 
         tables = {TableReference(row[0]) for row in result_set}
         self._tables = tables
-        return self._tables
+        return set(tables)
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
-- 
2.43.0


From b23e8e56c2ca40d2d479ffcfaf2f55c120831f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 214/248] fix: order of candidate tables

---
 postbound/postgres.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index c99f93d..79efa8c 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -28,7 +28,7 @@ import time
 import tomllib
 import warnings
 from collections import UserString
-from collections.abc import Callable, Generator, Iterable, Sequence, Sized
+from collections.abc import Callable, Generator, Iterable, Sequence
 from dataclasses import dataclass
 from multiprocessing import connection as mp_conn
 from pathlib import Path
@@ -1405,13 +1405,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         *,
         expect_match: bool = False,
     ) -> Optional[TableReference]:
-        if not isinstance(candidate_tables, Sized):
-            candidate_tables = list(candidate_tables)
-        candidate_tables = (
-            set(candidate_tables)
-            if len(candidate_tables) > 5
-            else list(candidate_tables)
-        )
+        candidate_tables = list(candidate_tables)
         column = column.name if isinstance(column, ColumnReference) else column
         lower_col = column.lower()
 
-- 
2.43.0


From 5f6fcee5215417528e370afd51c606561fc3abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 215/248] fix: columns with multiple Postgres indexes

---
 postbound/postgres.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 79efa8c..d30c41b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1427,7 +1427,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        return True in index_map.get(column.name, [])
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
@@ -1436,12 +1436,7 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        return False in index_map.get(column.name, [])
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -1603,7 +1598,7 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> dict[str, list[bool]]:
         """Retrieves all index structures for a given table based on the PG metadata catalogs.
 
         Parameters
@@ -1614,8 +1609,9 @@ class PostgresSchemaInterface(DatabaseSchema):
         Returns
         -------
         dict
-            Contains a key for each column that has an index. The column keys map to booleans that indicate whether
-            the corresponding index is a primary key index. Columns without any index do not appear in the dictionary.
+            Contains a key for each column that has an index. The column keys map to booleans that indicate for each of the
+            indexes, whether it is a primary key index. Columns without any index do not appear in the dictionary. Likewise,
+            compound indexes are not considered.
 
         Raises
         ------
@@ -1630,19 +1626,19 @@ class PostgresSchemaInterface(DatabaseSchema):
         index_query = textwrap.dedent("""
             SELECT attr.attname, idx.indisprimary
             FROM pg_index idx
-                JOIN pg_attribute attr ON idx.indrelid = attr.attrelid AND attr.attnum = ANY(idx.indkey)
+                JOIN pg_attribute attr ON idx.indrelid = attr.attrelid AND attr.attnum = idx.indkey[0]
                 JOIN pg_class cls ON idx.indrelid = cls.oid
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+                AND idx.indnkeyatts = 1
         """)
 
         self._db.cursor().execute(index_query, (table_name, schema))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        index_map = dict(result_set)
-        return index_map
+        return util.dicts.generate_multi(result_set)
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, type(self)) and self._db == other._db
-- 
2.43.0


From 066f9369592b682c8deab4de83d2d950bb76def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 216/248] fix: columns of Postgres indexes

---
 postbound/postgres.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index d30c41b..e8b313b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1476,11 +1476,11 @@ class PostgresSchemaInterface(DatabaseSchema):
             multiple columns, this returns the first column only.
         """
         query_template = textwrap.dedent("""
-            SELECT att.attname, rel.relname
+            SELECT att.attname, rel.relname, idx.indnkeyatts
             FROM pg_index idx
                 JOIN pg_class cls ON idx.indexrelid = cls.oid
                 JOIN pg_class rel ON idx.indrelid = rel.oid
-                JOIN pg_attribute att ON att.attnum = ANY(idx.indkey) AND idx.indrelid = att.attrelid
+                JOIN pg_attribute att ON att.attnum = idx.indkey[0] AND idx.indrelid = att.attrelid
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid AND rel.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
@@ -1492,15 +1492,14 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         if not result_set:
             return None
-        if len(result_set) > 1:
+        col, tab, n_columns = result_set[0]
+        if n_columns > 1:
             warnings.warn(
                 f"Multi-index {index} detected. Only returning the first column",
                 stacklevel=2,
             )
-            result_set = result_set[:1]
-
-        col, tab = result_set[0]
-        return ColumnReference.create(col, table=tab)
+        table_schema = "" if schema == "public" else schema
+        return BoundColumnReference(col, TableReference(tab, schema=table_schema))
 
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not column.table:
-- 
2.43.0


From 5f7eb0ab082d6faf4a02bed9fcd8f4cd3ca7c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 217/248] fix: foreign keys of Postgres schemas

---
 postbound/postgres.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e8b313b..2116981 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1508,14 +1508,14 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         schema = column.table.schema or "public"
         query_template = textwrap.dedent("""
-            SELECT target.table_name, target.column_name
+            SELECT target.table_schema, target.table_name, target.column_name
             FROM information_schema.key_column_usage AS fk_sources
                 JOIN information_schema.table_constraints AS all_constraints
                 ON fk_sources.constraint_name = all_constraints.constraint_name
-                    AND fk_sources.table_schema = all_constraints.table_schema
+                    AND fk_sources.constraint_schema = all_constraints.constraint_schema
                 JOIN information_schema.constraint_column_usage AS target
                 ON fk_sources.constraint_name = target.constraint_name
-                    AND fk_sources.table_schema = target.table_schema
+                    AND fk_sources.constraint_schema = target.constraint_schema
             WHERE fk_sources.table_name = %s
                 AND fk_sources.column_name = %s
                 AND fk_sources.table_schema = %s
@@ -1528,9 +1528,15 @@ class PostgresSchemaInterface(DatabaseSchema):
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        return {
-            BoundColumnReference(row[1], TableReference(row[0])) for row in result_set
-        }
+        foreign_keys: set[BoundColumnReference] = set()
+        for target_schema, target_table, target_column in result_set:
+            if target_schema == schema:
+                target_schema = column.table.schema
+            elif target_schema == "public":
+                target_schema = ""
+            table = TableReference(target_table, schema=target_schema)
+            foreign_keys.add(BoundColumnReference(target_column, table))
+        return foreign_keys
 
     def datatype(self, column: ColumnReference) -> str:
         if not column.table:
-- 
2.43.0


From 570208c0fe2c9b89e2a8c1e0eb16904667a77875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 218/248] fix: MySQL schemas

---
 postbound/mysql.py | 137 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 108 insertions(+), 29 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 5a3daad..ee6254d 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -284,6 +284,63 @@ class MysqlSchemaInterface(DatabaseSchema):
     def __init__(self, mysql_db: MysqlInterface):
         super().__init__(mysql_db)
 
+    def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
+        query_template = (
+            "SELECT table_name FROM information_schema.tables "
+            "WHERE table_schema = DATABASE()"
+        )
+        self._db.cursor().execute(query_template)
+        result_set = self._db.cursor().fetchall()
+        assert result_set is not None
+        return {TableReference(row[0]) for row in result_set}
+
+    def columns(self, table: TableReference | str) -> Sequence[BoundColumnReference]:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
+        return [BoundColumnReference(col, table) for col in self._fetch_columns(table)]
+
+    def is_view(self, table: TableReference | str) -> bool:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
+        query_template = (
+            "SELECT table_type FROM information_schema.tables "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template, (table.full_name, table.schema or None)
+        )
+        result_set = self._db.cursor().fetchone()
+        if not result_set:
+            raise ValueError(
+                f"Table '{table}' not found in database '{self._db.database_name()}'"
+            )
+        return result_set[0] == "VIEW"
+
+    def primary_key_column(
+        self, table: TableReference | str
+    ) -> Optional[BoundColumnReference]:
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        if table.virtual:
+            raise VirtualTableError(table)
+        query_template = (
+            "SELECT column_name FROM information_schema.statistics "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE()) "
+            "AND index_name = 'PRIMARY'"
+        )
+        self._db.cursor().execute(
+            query_template, (table.full_name, table.schema or None)
+        )
+        result_set = self._db.cursor().fetchall()
+        if not result_set:
+            return None
+        elif len(result_set) > 1:
+            raise ValueError(
+                f"Table {table} has multiple primary key columns: {result_set}"
+            )
+        return BoundColumnReference(result_set[0][0], table)
+
     def lookup_column(
         self,
         column: ColumnReference | str,
@@ -311,7 +368,7 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        return True in index_map.get(column.name, [])
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
@@ -319,13 +376,7 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        return False in index_map.get(column.name, [])
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -334,9 +385,13 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT index_name FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return {index[0] for index in result_set}
@@ -347,17 +402,24 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         query_template = (
-            "SELECT referenced_table_name, referenced_column_name "
+            "SELECT referenced_table_schema, table_schema, referenced_table_name, referenced_column_name "
             "FROM information_schema.key_column_usage "
-            "WHERE table_name = %s AND column_name = %s AND referenced_column_name IS NOT NULL"
+            "WHERE table_name = %s AND column_name = %s AND referenced_column_name IS NOT NULL "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-        return {
-            BoundColumnReference(col, TableReference(table))
-            for table, col in result_set
-        }
+        foreign_keys: set[BoundColumnReference] = set()
+        for target_schema, schema, target_table, target_column in result_set:
+            if target_schema == schema:
+                target_schema = column.table.schema
+            table = TableReference(target_table, schema=target_schema)
+            foreign_keys.add(BoundColumnReference(target_column, table))
+        return foreign_keys
 
     def datatype(self, column: ColumnReference) -> str:
         if not column.table:
@@ -366,9 +428,13 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT column_type FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return str(result_set[0])
@@ -380,32 +446,45 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT is_nullable FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return result_set[0] == "YES"
 
     def _fetch_columns(self, table: TableReference) -> list[str]:
         query_template = (
-            "SELECT column_name FROM information_schema.columns WHERE table_name = %s"
+            "SELECT column_name FROM information_schema.columns "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE()) "
+            "ORDER BY ordinal_position"
+        )
+        self._db.cursor().execute(
+            query_template, (table.full_name, table.schema or None)
         )
-        self._db.cursor().execute(query_template, (table.full_name,))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> dict[str, list[bool]]:
         index_query = textwrap.dedent("""
-            SELECT column_name, column_key = 'PRI'
-            FROM information_schema.columns
-            WHERE table_name = %s AND column_key <> ''
+            SELECT index_name, column_name
+            FROM information_schema.statistics
+            WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())
         """)
-        self._db.cursor().execute(index_query, table.full_name)
+        self._db.cursor().execute(index_query, (table.full_name, table.schema or None))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-        index_map = dict(result_set)
+
+        # compound indexes are not considered
+        index_map: dict[str, list[bool]] = {}
+        for index, columns in util.dicts.generate_multi(result_set).items():
+            if len(columns) == 1:
+                index_map.setdefault(columns[0], []).append(index == "PRIMARY")
         return index_map
 
 
-- 
2.43.0


From 1d0e24d86c1904539f10caf6977c6d87ec8dea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 219/248] fix: read workload files as they are, even if
 literals span several lines

---
 postbound/workloads.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..5cfb8bb 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -714,8 +713,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
-- 
2.43.0


From 651f33b9ca0fc249090574818d365c8ebba5f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 220/248] fix: skip workload files that cannot be parsed, if
 errors should not be raised

---
 postbound/workloads.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 5cfb8bb..e25806c 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -214,6 +214,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -731,6 +732,7 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
         query_label = query_file_path.stem
         queries[query_label] = parsed_query
-- 
2.43.0


From 35701d0d1c512439c83a8fb6b00d85ffe43ce061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 221/248] fix: apply label prefixes and file encodings while
 reading nested workloads

---
 postbound/workloads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index e25806c..e27ee28 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -735,7 +735,7 @@ def read_workload(
             continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -749,12 +749,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From 2e99448a51f7f7c59b608924f0439c6edddf5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 222/248] fix: the last 0 queries of a workload are no queries

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index e27ee28..8289950 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From c47e3e062205317f3177e6494fbde189f5bca4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 223/248] fix: iterate over workloads in the order of their
 queries

---
 postbound/workloads.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 8289950..7322d07 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -29,7 +29,7 @@ import urllib.request
 import warnings
 import zipfile
 from collections import UserDict
-from collections.abc import Callable, Hashable, Iterable, Sequence
+from collections.abc import Callable, Hashable, Iterable, Iterator, Sequence
 from pathlib import Path
 from typing import Literal, Optional
 
@@ -231,7 +231,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         self._name = name
         self._root = root
 
-        self._sorted_labels = natsort.natsorted(list(self.keys()))
+        self._sorted_labels = natsort.natsorted(list(self.data.keys()))
         self._sorted_queries: list[SqlQuery] = []
         self._update_query_order()
 
@@ -586,6 +586,9 @@ class Workload(UserDict[LabelType, SqlQuery]):
         """Enforces that the order of the queries matches the order of the labels."""
         self._sorted_queries = [self.data[label] for label in self._sorted_labels]
 
+    def __iter__(self) -> Iterator[LabelType]:
+        return iter(self._sorted_labels)
+
     def __add__(self, other: Workload[LabelType]) -> Workload[LabelType]:
         if not isinstance(other, Workload):
             raise TypeError("Can only add workloads together")
-- 
2.43.0


From ab805e545ab8088eab09f3ff4400b687fb357663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 224/248] fix: keep duplicate queries and leave out foreign
 ones when generating workloads

---
 postbound/workloads.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 7322d07..bd34c05 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -870,13 +870,8 @@ def read_csv_workload(
     queries = workload_df[query_column].tolist()
     if label_column:
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
-
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+        return Workload(dict(zip(labels, queries)), name, filepath)
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -917,11 +912,10 @@ def generate_workload(
         Path(workload_root) if isinstance(workload_root, str) else workload_root
     )
     name = name if name else (workload_root.stem if workload_root else "")
-    if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+    if labels:
+        workload_contents = {labels[query]: query for query in queries}
+    else:
+        workload_contents = {idx + 1: query for idx, query in enumerate(queries)}
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From a7734c0042d114163b55a6f2f6b86efa919c8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 225/248] fix: skip empty lines in batch workloads

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index bd34c05..f5b87bd 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -798,7 +798,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
-- 
2.43.0


From e2726c4b4417d90b9b24a4d5a48f5c8b36326800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 226/248] fix: do not leave incomplete workloads behind

---
 postbound/workloads.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index f5b87bd..7e8a397 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import random
 import shutil
+import tempfile
 import typing
 import urllib.request
 import warnings
@@ -58,7 +59,7 @@ def _fetch_workload(name: str) -> Path:
     workload_dir = pbdir / "workloads" / name
     if workload_dir.exists():
         return workload_dir
-    workload_dir.mkdir(parents=True, exist_ok=True)
+    workload_dir.parent.mkdir(parents=True, exist_ok=True)
 
     archive_url = _WorkloadSources.get(name)
     if not archive_url:
@@ -67,18 +68,17 @@ def _fetch_workload(name: str) -> Path:
             f"Please insert the queries manually at {workload_dir} and re-run the operation."
         )
 
-    archive_file = workload_dir.parent / f"{name}.zip"
-    urllib.request.urlretrieve(archive_url, archive_file)
+    # the workload only becomes visible once it is complete
+    with tempfile.TemporaryDirectory(dir=workload_dir.parent) as temp_dir:
+        archive_file = Path(temp_dir) / f"{name}.zip"
+        urllib.request.urlretrieve(archive_url, archive_file)
 
-    with zipfile.ZipFile(archive_file, "r") as zip:
-        zip.extractall(workload_dir)
+        contents_dir = Path(temp_dir) / "contents"
+        with zipfile.ZipFile(archive_file, "r") as zip:
+            zip.extractall(contents_dir)
 
-    temp_dir = workload_dir / name
-    for file in temp_dir.iterdir():
-        shutil.move(file, workload_dir)
-    temp_dir.rmdir()
+        shutil.move(contents_dir / name, workload_dir)
 
-    archive_file.unlink()
     return workload_dir
 
 
-- 
2.43.0


From d934291269364d08c72fcdddf83880d3c5b53fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 227/248] fix: name the columns of training data according to
 their features

---
 postbound/train/_train.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..0f16ee4 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -409,7 +409,7 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
+        renamings = {col: feature for feature, col in self._feature_map.items()}
 
         if requested_spec is None:
             return self._samples.rename(columns=renamings)
@@ -418,7 +418,7 @@ class TrainingData:
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        return self._samples[columns].set_axis(requested_spec.features, axis="columns")
 
     def merge_with(
         self,
@@ -436,9 +436,11 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
+        own_samples = self.as_df(self._spec)
         other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat([own_samples, other_samples], ignore_index=True)
+        feature_map = {feature: feature for feature in self._spec.features}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
-- 
2.43.0


From 9e36bcdf6e6d7bfe6f4407d6980f2c0b3b1d711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 228/248] fix: merge all training datasets that satisfy the
 requested spec

---
 postbound/train/_train.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 0f16ee4..78e41cb 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -302,11 +302,10 @@ class TrainingData:
         will contain the features required by the spec and nothing more.
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
-        datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -501,6 +500,6 @@ class TrainingDataRepository:
         if not matching:
             return None
         elif len(matching) == 1:
-            return matching[0]
+            return matching[0].conform_to(spec)
         else:
             return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From cf473b28a55af33c66d5449ae5d79acb9d4d1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 229/248] fix: training data conforms to exactly the requested
 features in the requested order

---
 postbound/train/_train.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 78e41cb..ae852ca 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -394,12 +394,11 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
+        columns = list(dict.fromkeys(reduced_spec.values()))
         return TrainingData(
-            self._samples, source=self._source, feature_map=reduced_spec
+            self._samples[columns], source=self._source, feature_map=reduced_spec
         )
 
     def as_df(self, requested_spec: Optional[TrainingSpec] = None) -> pd.DataFrame:
-- 
2.43.0


From 7d3e0fb3a674f35dc20357ee71936dbf698aef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 230/248] fix: read training data which was written before, and
 do not modify data frames

---
 postbound/train/_train.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index ae852ca..52612fa 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import json
 from collections.abc import Iterable, Mapping, Sequence
 from dataclasses import dataclass
 from pathlib import Path
@@ -9,6 +10,7 @@ import pandas as pd
 
 from .. import util
 from ..parser import parse_query
+from ..qal import SqlQuery
 from ..util import jsondict
 
 type TrainingMetrics = jsondict
@@ -213,6 +215,13 @@ class SpecViolations:
         return f"SpecViolations(missing_features={missing})"
 
 
+def _parse_raw_query(query: SqlQuery | str) -> SqlQuery:
+    """Loads a query from its raw representation, which is either plain text or JSON (see `util.write_df`)."""
+    if isinstance(query, SqlQuery):
+        return query
+    return parse_query(json.loads(query) if query.startswith('"') else query)
+
+
 @dataclass
 class TrainingData:
     """Represents a dataset of training samples, along with metadata about the features it provides.
@@ -288,7 +297,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(_parse_raw_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
@@ -444,7 +453,7 @@ class TrainingData:
         return len(self._samples)
 
     def __iter__(self):
-        return iter(self._samples)
+        return (self[idx] for idx in range(len(self)))
 
     def __getitem__(self, idx) -> list:
         sample = self._samples.iloc[idx]
-- 
2.43.0


From c6f33a7fc9d8efeec3b3e57bf6ba9823a2327958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 231/248] fix: export text with missing values as it is, and do
 not modify exported data frames

---
 postbound/util/_df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 4e303cf..c381f73 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -49,10 +49,11 @@ def write_df(
     path = Path(path)
     path.parent.mkdir(parents=True, exist_ok=True)
 
+    df = df.copy(deep=False)
     for col in df.columns:
         if df[col].dtype != "object":
             continue
-        if all(t is str for t in df[col].map(type)):
+        if all(t is str for t in df[col].dropna().map(type)):
             continue
         df[col] = df[col].map(to_json)
 
-- 
2.43.0


From d1ea8977178cd250aa64983ed314f062ff515d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 232/248] fix: compare the matching children of query plans

---
 postbound/opt/_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index ace8cbd..f653ca2 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -510,8 +510,8 @@ class PlanChangeEntry:
                 right_str = [tab.identifier() for tab in self.right_state]
                 return f"Different subtrees: left={left_str} right={right_str}"
             case "join-direction":
-                left_str = [tab.identifier() for tab in self.left_state]
-                right_str = [tab.identifier() for tab in self.right_state]
+                left_str = [tab.identifier() for tab in self.left_state.tables()]
+                right_str = [tab.identifier() for tab in self.right_state.tables()]
                 return f"Swapped join direction: left={left_str} right={right_str}"
             case "physical-op":
                 return f"Different physical operators on node {self.context}: left={self.left_state} right={self.right_state}"
@@ -625,7 +625,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
             )
         )
     if left_cost != right_cost and not (
-        math.isnan(left_cost) and math.isnan(left_cost)
+        math.isnan(left_cost) and math.isnan(right_cost)
     ):
         changes.append(
             PlanChangeEntry(
@@ -667,7 +667,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
                 compare_query_plans(left.inner_child, right.inner_child).changes
             )
             changes.extend(
-                compare_query_plans(left.outer_child, right.inner_child).changes
+                compare_query_plans(left.outer_child, right.outer_child).changes
             )
 
     return PlanChangeset(changes)
-- 
2.43.0


From 690495efce136f0237de9aa5b275f0a561bdfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 233/248] fix: compute the depths of joined tables

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index f653ca2..f9cbb32 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -403,7 +403,7 @@ def _traverse_join_tree_depth(
     if current_node.is_scan():
         return _DepthState(1, current_depth.depths | {current_node.base_table: 1})
 
-    if current_node.is_join():
+    if not current_node.is_join():
         raise TypeError("Unknown current node type: " + str(current_node))
 
     inner_child, outer_child = current_node.inner_child, current_node.outer_child
@@ -423,7 +423,7 @@ def _traverse_join_tree_depth(
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
         updated_depth = inner_depth.current_level + 1
         return _DepthState(
-            updated_depth, inner_depth.depths | {outer_child.table: updated_depth}
+            updated_depth, inner_depth.depths | {outer_child.base_table: updated_depth}
         )
     else:
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
-- 
2.43.0


From fc05133299b78b9e154be4838a17d6b0c7313ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 234/248] fix: the bound on the number of plans is an upper
 bound

---
 postbound/opt/_analysis.py | 9 ++++++---
 postbound/util/stats.py    | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index f9cbb32..2ecb6e3 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -59,10 +59,13 @@ def possible_plans_bound(
         An upper bound on the number of possible query execution plans
     """
     n_tables = len(query.tables())
+    if not n_tables:
+        return 1
 
-    join_orders = util.stats.catalan_number(n_tables)
-    joins = (n_tables - 1) * len(join_operators)
-    scans = n_tables * len(scan_operators)
+    # all binary trees with n leaves, and all assignments of tables to these leaves
+    join_orders = util.stats.catalan_number(n_tables - 1) * math.factorial(n_tables)
+    joins = len(join_operators) ** (n_tables - 1)
+    scans = len(scan_operators) ** n_tables
 
     return join_orders * joins * scans
 
diff --git a/postbound/util/stats.py b/postbound/util/stats.py
index 96671ec..07dc73b 100644
--- a/postbound/util/stats.py
+++ b/postbound/util/stats.py
@@ -12,7 +12,7 @@ import numpy as np
 
 def catalan_number(n: int) -> int:
     """Computes the n-th catalan number. See https://en.wikipedia.org/wiki/Catalan_number."""
-    return round(math.comb(2 * n, n) / (n + 1))
+    return math.comb(2 * n, n) // (n + 1)
 
 
 def jaccard(a: set | frozenset, b: set | frozenset) -> float:
-- 
2.43.0


From 10d9dee71a689f2d93049ecc3d9603aa4d8f74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 235/248] fix: compute the similarity of join trees

---
 postbound/opt/_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 2ecb6e3..cc4efdb 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -340,8 +340,10 @@ def jointree_similarity_bottomup(a: JoinTree, b: JoinTree) -> float:
     -----
     TODO: add discussion of the algorithm
     """
-    a_subtrees = {join.tables() for join in a.iterjoins()}
-    b_subtrees = {join.tables() for join in b.iterjoins()}
+    a_subtrees = {frozenset(join.tables()) for join in a.iterjoins()}
+    b_subtrees = {frozenset(join.tables()) for join in b.iterjoins()}
+    if not a_subtrees and not b_subtrees:
+        return float(a.tables() == b.tables())
     return util.jaccard(a_subtrees, b_subtrees)
 
 
-- 
2.43.0


From 65a17150ec1fe11ae20e077ffb57056e5582290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 236/248] fix: text diffs contain all lines

---
 postbound/opt/_analysis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index cc4efdb..311b10a 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import collections
+import itertools
 import math
 from collections.abc import Collection
 from dataclasses import dataclass
@@ -120,12 +121,12 @@ def text_diff(left: str, right: str, *, sep: str = " | ") -> str:
     left_lines = left.splitlines()
     right_lines = right.splitlines()
 
-    max_left_len = max(len(line) for line in left_lines)
-    left_lines_padded = [line.ljust(max_left_len) for line in left_lines]
-
+    max_left_len = max((len(line) for line in left_lines), default=0)
     merged_lines = [
-        f"{left_line}{sep}{right_line}"
-        for left_line, right_line in zip(left_lines_padded, right_lines)
+        f"{left_line.ljust(max_left_len)}{sep}{right_line}"
+        for left_line, right_line in itertools.zip_longest(
+            left_lines, right_lines, fillvalue=""
+        )
     ]
     return "\n".join(merged_lines)
 
-- 
2.43.0


From a6c5b7305214e4d23f36d579ea191b42411df94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 237/248] fix: use the current database for actual plan costs

---
 postbound/opt/_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 311b10a..7c15223 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -92,7 +92,11 @@ def actual_plan_cost(
     """
     if not analyze_plan.is_analyze():
         raise ValueError("The provided plan is not an ANALYZE plan")
-    database = database if database is not None else DatabasePool().get_instance()
+    database = (
+        database
+        if database is not None
+        else DatabasePool.get_instance().current_database()
+    )
     hinted_query = database.hinting().generate_hints(
         query, analyze_plan.with_actual_card()
     )
-- 
2.43.0


From 3d7220ebc77b918b6e9bb09a50748680fd6c41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 238/248] fix: compute star query cardinalities for single fact
 tuples

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 7c15223..5387532 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -200,7 +200,7 @@ def star_query_cardinality(
     if query.predicates().filters_for(fact_table):
         filter_clause = Where(query.predicates().filters_for(fact_table))
         id_vals_query = transform.add_clause(id_vals_query, filter_clause)
-    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query)
+    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query, raw=True)
 
     base_query_fragments: dict[AbstractPredicate, SqlQuery] = {}
     for join_pred in query.predicates().joins_for(fact_table):
-- 
2.43.0


From 56c8f8300e6532749749c493b09b9e6ef04302c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 239/248] fix: add single filters to generated queries

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 98c0593..eb81ef8 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -323,7 +323,7 @@ def generate_query(
                 case CompoundPredicate(op, children) if op == CompoundOperator.And:
                     where_parts.extend(children)
                 case _:
-                    where_parts.append(join_predicates)
+                    where_parts.append(predicates)
 
         where_clause = (
             Where(CompoundPredicate.create_and(where_parts)) if where_parts else None
-- 
2.43.0


From c55207aa9730d391882f3c01e222878da40f1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 240/248] fix: respect the requested number of filters in
 generated queries

---
 postbound/experiments/querygen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index eb81ef8..9472211 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -248,7 +248,11 @@ def generate_query(
         cols for __, cols in schema_graph.nodes(data="columns")
     )
     min_filters = min_filters or 0
-    max_filters = max_filters or len(filter_columns)
+    max_filters = len(filter_columns) if max_filters is None else max_filters
+    if max_filters < min_filters:
+        raise ValueError(
+            f"max_filters must be at least as large as min_filters. Got {max_filters} (max) and {min_filters} (min)."
+        )
 
     select_clause = Select.count_star() if count_star else Select.star()
 
@@ -292,7 +296,7 @@ def generate_query(
         )
 
         current_max_filters = min(max_filters, len(available_columns))
-        if current_max_filters <= min_filters:
+        if current_max_filters < min_filters:
             # too few columns available, let's just try again
             continue
         else:
-- 
2.43.0


From 26e660e2e2c0a5b8742fd87263f58714947716f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 241/248] fix: generate filters for all values and columns

---
 postbound/experiments/querygen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 9472211..7bfa941 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -9,7 +9,7 @@ from typing import Optional
 import networkx as nx
 
 from .. import postgres, util
-from .._core import ColumnReference, TableReference
+from .._core import ColumnReference, TableReference, quote
 from ..db import Database, DatabasePool, ForeignKeyRef
 from ..qal import (
     AbstractPredicate,
@@ -119,13 +119,17 @@ def _generate_filter(
     else:
         distinct_template = """SELECT DISTINCT {col} FROM {tab}"""
 
-    candidate_values = target_db.execute_query(
-        distinct_template.format(col=column.name, tab=column.table.full_name),
+    table = quote(column.table.full_name)
+    if column.table.schema:
+        table = f"{quote(column.table.schema)}.{table}"
+    result_set = target_db.execute_query(
+        distinct_template.format(col=quote(column.name), tab=table),
         cache_enabled=False,
+        raw=True,
     )
+    candidate_values = [row[0] for row in result_set if row[0] is not None]
     if not candidate_values:
         return None
-    candidate_values = util.enlist(candidate_values)
 
     selected_value = random.choice(candidate_values)
     selected_operator = random.choice(candidate_operators)
-- 
2.43.0


From 868d3f36f51bae57c7d7a7829bd6e959d0c44a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 242/248] fix: detect numeric columns of all database systems

---
 postbound/experiments/querygen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 7bfa941..a20fccc 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -139,12 +139,20 @@ def _generate_filter(
 
 def _is_numeric(data_type: str) -> bool:
     """Checks, whether a data type is numeric."""
+    data_type = data_type.lower().split("(")[0].strip()
     return data_type in {
         "integer",
+        "int",
+        "tinyint",
         "smallint",
+        "mediumint",
         "bigint",
+        "hugeint",
         "date",
+        "datetime",
         "double precision",
+        "double",
+        "float",
         "real",
         "numeric",
         "decimal",
-- 
2.43.0


From 7b51b6493c0b887ddabd1bdf827bd84b4dbaa8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 243/248] fix: accept predicates without dependencies and
 scalar operands in CEB templates

---
 postbound/experiments/ceb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 61191d2..dce63da 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -153,13 +153,15 @@ class PredicateGenerator:
     ) -> None:
         self.name = name
 
+        if isinstance(pred_type, str):
+            pred_type = [pred_type]
         if "IN" in pred_type and len(provided_keys) > 1:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
         self.pred_type = pred_type
 
-        self.dependencies = dependencies
+        self.dependencies = dependencies or []
 
         if not (len(provided_keys) == len(target_columns) == len(pred_type)):
             raise ValueError(
-- 
2.43.0


From 7bc9115ac390dcbdd22bb54922287e7e8519c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 244/248] fix: sample IN predicates and pre-weighted values of
 CEB templates

---
 postbound/experiments/ceb.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index dce63da..37867b6 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -355,7 +355,7 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # For uniform selection duplicate occurences of the same value should not increase their chance of selection.
             # Therefore we need to make sure that no value is present more than once.
-            unique_values = list(set(candidate_values))
+            unique_values = list(set(self._drop_weights(candidate_values)))
             selected_val = random.choice(unique_values)
             return selected_val
 
@@ -385,13 +385,20 @@ class PredicateGenerator:
         else:
             raise ValueError(f"Unknown sampling method: '{self._sampling_method}'")
 
+    def _drop_weights(
+        self, candidate_values: list[tuple[PlaceHolderValue]]
+    ) -> list[tuple[PlaceHolderValue]]:
+        """Removes the weight column from all candidates, if there is one."""
+        if self._count_col_idx is None:
+            return candidate_values
+        return [_remove_weight_col(val, self._count_col_idx) for val in candidate_values]
+
     def _draw_multi_values(
         self, candidate_values: list[tuple[PlaceHolderValue]]
     ) -> tuple[PlaceHolderValue]:
         """Selects placeholder values for *IN* predicates according to the specified sampling strategy."""
-        if len(candidate_values[0]) != 1 or (
-            self._count_col_idx and len(candidate_values[0]) != 2
-        ):
+        n_columns = 1 if self._count_col_idx is None else 2
+        if len(candidate_values[0]) != n_columns:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
@@ -401,13 +408,17 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # Uniform sampling is easy: we just need to determine which unique values are available and then choose a
             # correctly-sized subset from them
-            candidate_values = list(set(candidate_values))
+            candidate_values = list(
+                {val[0] for val in self._drop_weights(candidate_values)}
+            )
 
             max_values = (
                 len(candidate_values)
                 if self._in_pred_max_samples is None
                 else min(self._in_pred_max_samples, len(candidate_values))
             )
+            if max_values < min_values:
+                raise SamplingError(f"Not enough values for predicate '{self.name}'")
             n_values = random.randint(min_values, max_values)
 
             selected_val = random.sample(candidate_values, k=n_values)
@@ -429,6 +440,8 @@ class PredicateGenerator:
             if self._in_pred_max_samples is None
             else min(self._in_pred_max_samples, len(population))
         )
+        if max_values < min_values:
+            raise SamplingError(f"Not enough values for predicate '{self.name}'")
         n_values = random.randint(min_values, max_values)
 
         # We use numpy's random module here because it supports sampling from a population with custom weights as well as
@@ -450,12 +463,13 @@ class PredicateGenerator:
         if self.predicate_for(key) != "IN":
             return True
 
+        in_values = value[self._key_lookup[key]]
         max_allowed_values = (
             self._in_pred_max_samples
             if self._in_pred_max_samples is not None
-            else len(value)
+            else len(in_values)
         )
-        return self._in_pred_min_samples <= len(value) <= max_allowed_values
+        return self._in_pred_min_samples <= len(in_values) <= max_allowed_values
 
     def _assert_values_available(self) -> None:
         """Raises an error if no values have been selected yet."""
@@ -710,6 +724,7 @@ def _parse_template_toml(
             ],
             in_pred_min_samples=raw_predicate.get("min_samples", 1),
             in_pred_max_samples=raw_predicate.get("max_samples"),
+            count_column_idx=raw_predicate.get("weights_column"),
             dependencies=[
                 PredicateName(d) for d in raw_predicate.get("dependencies", [])
             ],
-- 
2.43.0


From a22b9990c59b3c34d56008c446de7ab72b37d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 245/248] fix: escape values of CEB templates correctly

---
 postbound/experiments/ceb.py | 38 +++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 37867b6..8e7a475 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -16,6 +16,7 @@ References
 from __future__ import annotations
 
 import collections
+import numbers
 import pathlib
 import random
 import tomllib
@@ -52,6 +53,25 @@ PlaceHolderValue = Any
 """The selected value to bind and replace a placeholder."""
 
 
+_NumericTypes = {
+    "tinyint",
+    "smallint",
+    "integer",
+    "int",
+    "mediumint",
+    "bigint",
+    "hugeint",
+    "real",
+    "float",
+    "double",
+    "double precision",
+    "numeric",
+    "decimal",
+    "boolean",
+}
+"""SQL types whose values do not require quotes."""
+
+
 def _tuplelize_value(val: Any) -> Any:
     """Leaves scalar values as they are, but converts lists to tuples. This ensures that we can hash them."""
     if isinstance(val, list):
@@ -671,12 +691,20 @@ class QueryTemplate:
             value_text = ", ".join(escaped_values)
             return f"({value_text})"
 
-        if dtype in {"text", "varchar", "char", "character varying"}:
-            if pred_type == "LIKE" or pred_type == "ILIKE":
-                value = f"'%{value}%'"
-            return f"'{value}'"
+        if value is None:
+            return "NULL"
+
+        dtype = dtype.lower().split("(")[0].strip()
+        is_text = dtype in {"text", "varchar", "char", "bpchar", "character varying"}
+        is_text |= dtype == "character"
+        is_numeric = dtype in _NumericTypes or isinstance(value, numbers.Number)
+        if is_numeric and not is_text:
+            return str(value)
 
-        return str(value)
+        value = str(value).replace("'", "''")
+        if pred_type == "LIKE" or pred_type == "ILIKE":
+            value = f"%{value}%"
+        return f"'{value}'"
 
     def __hash__(self) -> int:
         return hash(self.label)
-- 
2.43.0


From f5811a4cf9eb33e5efe2564be13516ba97dcac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 246/248] fix: look up unqualified columns of CEB templates

---
 postbound/experiments/ceb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 8e7a475..5b94349 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -666,7 +666,7 @@ class QueryTemplate:
         if "." not in colname:
             tables_without_alias = [
                 TableReference(tab)
-                for tab, alias in self._table_aliases
+                for alias, tab in self._table_aliases.items()
                 if tab == alias
             ]
             target_table = self._db_conn.schema().lookup_column(
-- 
2.43.0


From 884d6bd6b8769396e4b23660048470ef1f3b31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 247/248] fix: provide all dependencies of a task before the
 task

---
 postbound/util/misc.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/postbound/util/misc.py b/postbound/util/misc.py
index 188138d..9e82368 100644
--- a/postbound/util/misc.py
+++ b/postbound/util/misc.py
@@ -191,23 +191,20 @@ class DependencyGraph(Generic[T]):
                 self._nodes[dep_id] = dep
 
     def __iter__(self) -> Generator[T, Any, None]:
-        provided_nodes: set[int] = set()
-        for node_id in self._source_nodes:
-            yield self._nodes[node_id]
-
-            provided_nodes.add(node_id)
-            dependency_stack = list(self._dependencies[node_id])
+        missing_dependencies = collections.Counter(
+            node_id for tasks in self._dependencies.values() for node_id in tasks
+        )
+        available_nodes = list(self._source_nodes)
 
-            while dependency_stack:
-                dep_id = dependency_stack.pop()
-                if dep_id in provided_nodes:
-                    continue
-
-                yield self._nodes[dep_id]
+        while available_nodes:
+            node_id = available_nodes.pop()
+            yield self._nodes[node_id]
 
-                provided_nodes.add(dep_id)
-                dependency_stack.extend(self._dependencies[dep_id])
-        provided_nodes = set()
+            # a node is only available once all of its dependencies have been provided
+            for dep_id in self._dependencies.get(node_id, []):
+                missing_dependencies[dep_id] -= 1
+                if not missing_dependencies[dep_id]:
+                    available_nodes.append(dep_id)
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 0c2697f792effe616e79c9836164ab12e500c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 248/248] fix: redraw all dependent values of CEB templates

---
 postbound/experiments/ceb.py | 42 ++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 5b94349..06d4232 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -218,6 +218,7 @@ class PredicateGenerator:
         self._db_connection = db_connection
 
         self._selected_values: list = []
+        self._currently_drawing = False
 
     @property
     def placeholders(self) -> Iterable[PlaceholderName]:
@@ -235,6 +236,14 @@ class PredicateGenerator:
         if self._max_tries is None:
             self._max_tries = self._parent_generator.max_tries
 
+        self._currently_drawing = True
+        try:
+            self._selected_values = self._find_predicate_values()
+        finally:
+            self._currently_drawing = False
+
+    def _find_predicate_values(self) -> list[PlaceHolderValue]:
+        """Implements `choose_predicate_values`."""
         selected_value: list[PlaceHolderValue] | None = None
         current_try = 0
         redraw_dependent_values = False
@@ -262,7 +271,7 @@ class PredicateGenerator:
             raise SamplingError(
                 f"Did not find a valid value for predicate '{self.name}'"
             )
-        self._selected_values = selected_value
+        return selected_value
 
     def fetch_value(self, key: PlaceholderName) -> PlaceHolderValue:
         """Provides the selected value for a specific placeholder key.
@@ -355,10 +364,12 @@ class PredicateGenerator:
         """
         sql_query = self._sql_query
 
+        if redraw_dependent_values:
+            for dep in self.dependencies:
+                self._parent_generator.redraw_values(dep, requested_by=self)
+
         for dep in self.dependencies:
-            dependent_values = self._parent_generator.selected_values(
-                dep, refresh=redraw_dependent_values
-            )
+            dependent_values = self._parent_generator.selected_values(dep)
             sql_query = self._parent_generator.substitute_placeholders(
                 sql_query, dependent_values
             )
@@ -614,6 +625,27 @@ class QueryTemplate:
             generator.choose_predicate_values()
         return generator.selected_values()
 
+    def redraw_values(
+        self, predicate: PredicateName, *, requested_by: PredicateGenerator
+    ) -> None:
+        """Selects new values for a predicate and all predicates that already selected their values based on it.
+
+        Parameters
+        ----------
+        predicate : PredicateName
+            The generator name.
+        requested_by : PredicateGenerator
+            The generator that requires the new values. It is responsible for updating itself.
+        """
+        self._predicate_generators[predicate].choose_predicate_values()
+        for generator in self._predicate_generators.values():
+            if generator == requested_by or generator._currently_drawing:
+                continue
+            if not generator._selected_values:
+                continue
+            if predicate in generator.dependencies:
+                self.redraw_values(generator.name, requested_by=requested_by)
+
     def substitute_placeholders(
         self,
         query: TemplatedQuery,
@@ -646,6 +678,8 @@ class QueryTemplate:
             )
             dep_graph.add_task(generator, depends_on=dependencies)
 
+        for generator in self._predicate_generators.values():
+            generator._selected_values = []
         for generator in dep_graph:
             generator.choose_predicate_values()
 
-- 
2.43.0

