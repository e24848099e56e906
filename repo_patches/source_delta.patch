From 7f1b988c2d5bd11971d70df615cb52333fd40eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 01/49] fix: refuse a functional primary key when sibling
 one_to_many joins repeat both sides

Two one_to_many joins from the same (already repeated) view cross-multiply the two
joined views, so neither primary key is unique in the joined relation. The last
joined view was taken as functional primary key and its measures were double counted.
---
 metrics_layer/core/sql/query_design.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index a1113e5..bd86b21 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -235,6 +235,8 @@ class MetricsLayerDesign:
 
         previous_join_type = None
         base_sequence = deepcopy([base_view.name])
+        # The views that have at most one joined row for each value of their primary key
+        unrepeated_views = {base_view.name}
         for i, j in enumerate(sorted_joins):
             previous_join_type = None if i == 0 else sorted_joins[i - 1].relationship
             if j.relationship == ZenlyticJoinRelationship.many_to_many:
@@ -246,7 +248,16 @@ class MetricsLayerDesign:
             ):
                 return Definitions.does_not_exist
             elif j.relationship == ZenlyticJoinRelationship.one_to_many:
+                # If the view we're fanning out from is already repeated, both sides are repeated
+                if j.base_view_name not in unrepeated_views:
+                    return Definitions.does_not_exist
                 base_sequence.append(j.join_view_name)
+                unrepeated_views = {j.join_view_name}
+            elif (
+                j.relationship == ZenlyticJoinRelationship.one_to_one
+                and j.base_view_name in unrepeated_views
+            ):
+                unrepeated_views.add(j.join_view_name)
         primary_key = base_sequence[-1]
         return primary_key
 
-- 
2.43.0


From 25ee806973ffda9b9ea3fe31d87ec5b856a69902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 02/49] fix: keep the meaning of not_equal_to and is_null
 filters on yes/no fields

A yes/no filter was rewritten to the field itself whenever its value was True, so
not_equal_to True kept exactly the wrong rows, and expressions that need no value
(is_null, boolean_true, ...) failed with a KeyError.
---
 metrics_layer/core/sql/query_filter.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 5993e31..0a0e824 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -141,15 +141,18 @@ class MetricsLayerFilter(MetricsLayerBase):
                     pass
 
             if self.design.query_type in Definitions.needs_datetime_cast and isinstance(
-                definition["value"], datetime.datetime
+                definition.get("value"), datetime.datetime
             ):
                 definition["value"] = datatype_cast(self.field, definition["value"])
 
-            if self.field.type == "yesno" and "False" in str(definition["value"]):
-                definition["expression"] = "boolean_false"
-
-            if self.field.type == "yesno" and "True" in str(definition["value"]):
-                definition["expression"] = "boolean_true"
+            # Comparing a yes/no field with a boolean is the field itself or its negation. Other
+            # expressions (e.g. is_null, isin) keep their meaning
+            if self.field.type == "yesno" and definition["expression"] in {"equal_to", "not_equal_to"}:
+                negate = definition["expression"] == "not_equal_to"
+                if "False" in str(definition["value"]):
+                    definition["expression"] = "boolean_true" if negate else "boolean_false"
+                elif "True" in str(definition["value"]):
+                    definition["expression"] = "boolean_false" if negate else "boolean_true"
 
     def group_sql_query(
         self,
-- 
2.43.0


From 607c94c811d6d07ba5eb0b5e25a8261e95de5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 03/49] fix: keep an or inside a literal filter from widening
 the access filters and other filters

---
 metrics_layer/core/sql/query_filter.py    | 13 +++++++++++--
 metrics_layer/core/sql/query_generator.py |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 0a0e824..f179900 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -1,4 +1,5 @@
 import datetime
+import re
 from typing import Dict
 
 import pandas as pd
@@ -196,10 +197,18 @@ class MetricsLayerFilter(MetricsLayerBase):
         raise ParseError(f"Invalid logical operator: {self.logical_operator}")
 
     def sql_query(
-        self, alias_query: bool = False, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
+        self,
+        alias_query: bool = False,
+        cte_alias_lookup: dict = {},
+        raise_if_not_in_lookup: bool = False,
+        is_combined: bool = False,
     ):
         if self.is_literal_filter:
-            return LiteralValueCriterion(self.replace_fields_literal_filter())
+            literal_sql = self.replace_fields_literal_filter()
+            # When combined with other conditions using AND, an OR in the literal must not apply to them
+            if is_combined and re.search(r"\bor\b", literal_sql, re.IGNORECASE):
+                literal_sql = f"({literal_sql})"
+            return LiteralValueCriterion(literal_sql)
 
         if alias_query and self.is_filter_group:
             return self.group_sql_query("NA", alias_query, cte_alias_lookup, raise_if_not_in_lookup)
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5fea256..3241336 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -170,7 +170,10 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         # Apply the where filters
         if self.where_filters:
-            where = [f.sql_query() for f in self.where_filters]
+            is_combined = len(self.where_filters) > 1 or bool(
+                self.having_group_by_filters or self.funnel_filters
+            )
+            where = [f.sql_query(is_combined=is_combined) for f in self.where_filters]
             base_query = base_query.where(Criterion.all(where))
 
         # Group by
-- 
2.43.0


From b5e86ddf241d9d50d24cb1193529675cd4c8d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 04/49] fix: join the views referred to by group-by filters and
 field-to-field comparisons

---
 metrics_layer/core/sql/single_query_resolve.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 8438af3..046434e 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -180,6 +180,21 @@ class SingleSQLQueryResolver:
         for name in self._order_by_field_names:
             self.field_lookup[name] = self.get_field_with_error_handling(name, "Order by field")
 
+        # Fields that filters refer to besides the filtered field itself must be joined in as well
+        for condition in self.flatten_filters([self.where, self.having]):
+            if condition.get("group_by") is not None:
+                name = condition["group_by"]
+                self.field_lookup[name] = self.get_field_with_error_handling(name, "Group by field")
+                continue
+
+            value = condition.get("value")
+            if isinstance(value, str) and "." in value:
+                try:
+                    self.field_lookup[value] = self.project.get_field(value, model=self.model)
+                except Exception:
+                    # The value is plain text, not a field reference
+                    pass
+
     def get_field_with_error_handling(self, field_name: str, error_prefix: str):
         field = self.project.get_field(field_name, model=self.model)
         if field is None:
-- 
2.43.0


From 187d5997e8a630ac893b24edce3e6f778a0d665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 05/49] fix: combine mandatory view filters with literal or
 single-dict filters, leave the caller's list alone

---
 metrics_layer/core/sql/resolve.py              | 11 ++++++++++-
 metrics_layer/core/sql/single_query_resolve.py | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f248065..cb5f931 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -41,7 +41,12 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.where = where if where else []
         always_where = self._apply_always_filter(metrics + dimensions)
         if always_where:
-            self.where.extend(always_where)
+            # The caller's filters can be a list, a single filter or a literal string
+            if isinstance(self.where, str):
+                self.where = [{"literal": self.where}]
+            elif isinstance(self.where, dict):
+                self.where = [self.where]
+            self.where = [*self.where, *always_where]
         self.where = self._clean_conditional_filter_syntax(self.where)
         self.having = self._clean_conditional_filter_syntax(having)
         self.order_by = order_by
@@ -397,6 +402,10 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             for w in where:
                 if "field" in w and w["field"] == to_replace:
                     result.append({**w, "field": field.id()})
+                elif "literal" in w:
+                    result.append(
+                        {**w, "literal": self._replace_dict_or_literal(w["literal"], to_replace, field)}
+                    )
                 elif "field" not in w and "conditions" in w:
                     result.append(
                         {**w, "conditions": self._replace_dict_or_literal(w["conditions"], to_replace, field)}
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 046434e..59de770 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -238,8 +238,16 @@ class SingleSQLQueryResolver:
     @staticmethod
     def parse_identifiers_from_dicts(conditions: list):
         flattened_conditions = SingleSQLQueryResolver.flatten_filters(conditions)
+        literal_field_names = []
+        for cond in flattened_conditions:
+            if "literal" in cond:
+                literal_field_names.extend(MetricsLayerQuery.parse_identifiers_from_clause(cond["literal"]))
         try:
-            return [cond["field"] for cond in flattened_conditions if "group_by" not in cond]
+            return literal_field_names + [
+                cond["field"]
+                for cond in flattened_conditions
+                if "group_by" not in cond and "literal" not in cond
+            ]
         except KeyError:
             for cond in conditions:
                 if "field" not in cond:
-- 
2.43.0


From aa622085fe6045ac8b941e340ebc641e52438bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:04 +0000
Subject: [PATCH 06/49] fix: keep the operands of a referenced dimension
 together when it is placed in another expression

---
 metrics_layer/core/model/base.py  | 37 +++++++++++++++++++++++++++++++
 metrics_layer/core/model/field.py |  2 +-
 metrics_layer/core/model/join.py  |  2 +-
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/base.py b/metrics_layer/core/model/base.py
index 9da1ec1..461803c 100644
--- a/metrics_layer/core/model/base.py
+++ b/metrics_layer/core/model/base.py
@@ -5,6 +5,16 @@ from typing import List
 from metrics_layer.core.exceptions import QueryError
 
 NAME_REGEX = re.compile(r"([A-Za-z0-9\_]+)")
+SQL_TOKEN_REGEX = re.compile(r"""'(?:[^']|'')*'|"[^"]*"|`[^`]*`|\$\{.*?\}|\w+|::|\|\||[<>!]=|<>|[^\s\w]""")
+SQL_OPERATOR_PRECEDENCE = {
+    "or": 1,
+    "and": 2,
+    "not": 3,
+    **{op: 4 for op in ["=", "<", ">", "<=", ">=", "<>", "!=", "is", "in", "like", "ilike", "between"]},
+    **{op: 5 for op in ["+", "-", "||"]},
+    **{op: 6 for op in ["*", "/", "%"]},
+    "::": 7,
+}
 
 
 class MetricsLayerBase:
@@ -92,3 +102,30 @@ class SQLReplacement:
     def fields_to_replace(text: str):
         matches = re.finditer(r"\$\{(.*?)\}", text, re.MULTILINE)
         return [match.group(1) for match in matches]
+
+    @staticmethod
+    def substitute_reference(sql: str, reference: str, sql_replace: str):
+        """Replaces the reference in the sql, putting the replacement in parentheses
+        where the operators next to the reference would otherwise take it apart"""
+        operators, depth = [], 0
+        for token in SQL_TOKEN_REGEX.findall(sql_replace):
+            if token.lower() in {"(", "case"}:
+                depth += 1
+            elif token.lower() in {")", "end"}:
+                depth -= 1
+            elif depth == 0 and token.lower() in SQL_OPERATOR_PRECEDENCE:
+                operators.append(SQL_OPERATOR_PRECEDENCE[token.lower()])
+        loosest = min(operators, default=None)
+
+        first, *rest = sql.split(reference)
+        result = first
+        for before, after in zip([first] + rest, rest):
+            left_tokens, right_tokens = SQL_TOKEN_REGEX.findall(before), SQL_TOKEN_REGEX.findall(after)
+            left = SQL_OPERATOR_PRECEDENCE.get(left_tokens[-1].lower(), 0) if left_tokens else 0
+            right = SQL_OPERATOR_PRECEDENCE.get(right_tokens[0].lower(), 0) if right_tokens else 0
+            # Operators with the same precedence associate to the left, besides comparisons which do not
+            if loosest and (left >= loosest or right > loosest or right == loosest == 4):
+                result += f"({sql_replace})" + after
+            else:
+                result += sql_replace + after
+        return result
diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 8408d23..1597666 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2599,7 +2599,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                         f"if you reference other measures in your expression (like {to_replace} "
                         "referenced here)"
                     )
-                clean_sql = clean_sql.replace("${" + to_replace + "}", sql_replace)
+                clean_sql = self.substitute_reference(clean_sql, "${" + to_replace + "}", sql_replace)
         return clean_sql.strip()
 
     def get_field_with_view_info(self, field: str, specified_view: str = None):
diff --git a/metrics_layer/core/model/join.py b/metrics_layer/core/model/join.py
index 84f24aa..9c05a31 100644
--- a/metrics_layer/core/model/join.py
+++ b/metrics_layer/core/model/join.py
@@ -199,7 +199,7 @@ class Join(MetricsLayerBase, SQLReplacement):
                 replace_with = column_name
 
             replace_text = "${" + field + "}"
-            sql_on = sql_on.replace(replace_text, replace_with)
+            sql_on = self.substitute_reference(sql_on, replace_text, replace_with)
 
         return sql_on
 
-- 
2.43.0


From 676a990406f33cfed900589a8a6eea94f3837503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 07/49] fix: count the elapsed days of to-date filters on the
 calendar, not in 24 hour steps across daylight saving changes

---
 metrics_layer/core/model/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 9be8867..7340110 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -311,7 +311,8 @@ class Filter(MetricsLayerBase):
 
             # We need to figure out how many days are between now and the start of the period
             start_of_period = Filter._start_date(lag=0, date_part=date_part, tz=tz, return_date=True)
-            time_change = Filter._today(tz=tz) - start_of_period
+            # (calendar days, an hour lost or gained to daylight saving must not change the count)
+            time_change = Filter._today(tz=tz).date() - start_of_period.date()
             lag = time_change.days - 1 if time_change.days > 0 else 0
             end_date = Filter._add_to_end_date(start_date, lag=lag, date_part="day")
             result.append((end_expression, Filter._date_to_string(end_date)))
-- 
2.43.0


From da71c8f00d92bae8eb0d1178a586e14d2eb42721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 08/49] fix: answer merged results by a mapped dimension that
 is available to every subquery

---
 metrics_layer/core/sql/query_merged_results.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 9f79274..abada03 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -121,9 +121,11 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     present_fields = [
                         f for f in mapping_lookup[field.id()] if f["field"] in all_dimension_ids
                     ]
-                    if_null_func = if_null_lookup[self.query_type]
-                    nested_sql = self.nested_if_null(present_fields, if_null_func)
-                    dimension_sql[alias] = f"{if_null_func}({join_hash}.{alias}, {nested_sql})"
+                    # None of the fields this one is mapped to has to be present in the query
+                    if present_fields:
+                        if_null_func = if_null_lookup[self.query_type]
+                        nested_sql = self.nested_if_null(present_fields, if_null_func)
+                        dimension_sql[alias] = f"{if_null_func}({join_hash}.{alias}, {nested_sql})"
 
         for alias, sql in dimension_sql.items():
             select.append(self.sql(sql, alias=alias))
-- 
2.43.0


From bb27f780e3924d3b8feb25509b5bc2ae35feba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:11 +0000
Subject: [PATCH 09/49] fix: rows outside the snapshot count as zero only in
 sums of a non-additive measure

---
 metrics_layer/core/model/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 1597666..729bac3 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -273,9 +273,9 @@ class Field(MetricsLayerBase, SQLReplacement):
 
             else_0 = False
             if non_additive_dimension := self.non_additive_dimension:
-                # We need to do else 0 if it's a numeric operation like sum, average, etc
-                # But we need to do else null if it is a non numeric op like count, count_distinct
-                else_0 = self.type not in {ZenlyticType.count, ZenlyticType.count_distinct}
+                # We need to do else 0 if it's a sum, but we need to do else null for everything else
+                # (count, count_distinct, average, min, max, etc), where a 0 would change the result
+                else_0 = self.type in {ZenlyticType.sum, ZenlyticType.sum_distinct}
                 if isinstance(self.non_additive_dimension, dict):
                     filters_to_apply += [
                         {
-- 
2.43.0


From 61cac46d44e220d503c2da611ef2c23a78912399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:15 +0000
Subject: [PATCH 10/49] fix: free-text filters of a query with non-additive
 measures bring the snapshot and the joins they need

---
 metrics_layer/core/sql/query_generator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 3241336..c9ac1bc 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -81,7 +81,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # them as CTE's for the appropriate filters
         self.non_additive_ctes = []
         metrics_in_select = definition.get("metrics", [])
-        metrics_in_having = [h["field"] for h in flatten_filters(having)]
+        metrics_in_having = self._filter_field_names(having)
         for metric in metrics_in_select + metrics_in_having:
             metric_field = self.design.get_field(metric)
             for ref_field in [metric_field] + metric_field.referenced_fields(metric_field.sql):
@@ -96,6 +96,17 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                             }
                         )
 
+    def _filter_field_names(self, filter_object):
+        if isinstance(filter_object, str):
+            return self.parse_identifiers_from_clause(filter_object)
+        field_names = []
+        for f in flatten_filters(filter_object):
+            if "literal" in f:
+                field_names.extend(self.parse_identifiers_from_clause(f["literal"]))
+            else:
+                field_names.append(f["field"])
+        return field_names
+
     def _parse_filter_object(self, filter_object, filter_type: str, access_filter: str = None):
         results = []
         extra_kwargs = dict(filter_type=filter_type, design=self.design)
@@ -389,8 +400,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         field_lookup[non_additive_dimension.id()] = non_additive_dimension
 
         # We also need to make all fields in the where clause available to the query
-        for f in flatten_filters(self.where):
-            field = self.design.get_field(f["field"])
+        for field_name in self._filter_field_names(self.where):
+            field = self.design.get_field(field_name)
             field_lookup[field.id()] = field
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
-- 
2.43.0


From 4d249d2c427f88cac282fc2799092cc4eea02d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:08 +0000
Subject: [PATCH 11/49] fix: only timeframes of the non-additive dimension
 itself extend an unaware window

---
 metrics_layer/core/sql/query_generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index c9ac1bc..6e57cf4 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -216,9 +216,12 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                 else:
                     non_additive_dim = self.design.get_field(definition["name"])
                     # Only add a dimension if it's a variation of the non additive dimension
-                    dimensions_to_add = [
-                        d for d in self.dimensions if non_additive_dim.name == self.design.get_field(d).name
-                    ]
+                    dimensions_to_add = []
+                    for d in self.dimensions:
+                        dim_field = self.design.get_field(d)
+                        same_view = dim_field.view.name == non_additive_dim.view.name
+                        if same_view and dim_field.name == non_additive_dim.name:
+                            dimensions_to_add.append(d)
                     group_by_dimensions.extend(dimensions_to_add)
                 group_by_dimensions = list(
                     sorted(set(group_by_dimensions), key=lambda x: group_by_dimensions.index(x))
-- 
2.43.0


From 11bbd034a94c4fab8ff916d8266c60c9cc6a7735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 12/49] fix: funnels of filtered metrics, several metrics, and
 metrics both shown and filtered

---
 metrics_layer/core/model/field.py      |  3 ++-
 metrics_layer/core/sql/query_funnel.py | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 729bac3..9c8d013 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -573,7 +573,8 @@ class Field(MetricsLayerBase, SQLReplacement):
         return different_functional_pk
 
     def _get_sql_distinct_key(self, sql_distinct_key: str, query_type: str, alias_only: bool):
-        if self.filters:
+        # When we only reference aliases the filters have already been applied to the aliased column
+        if self.filters and not alias_only:
             clean_sql_distinct_key = Filter.translate_looker_filters_to_sql(
                 sql_distinct_key, self.filters, self.view
             )
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 46fbf7b..6895b1f 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -129,8 +129,8 @@ class FunnelQuery(MetricsLayerQueryBase):
 
         event_condition_fields = self._get_event_condition_fields()
 
-        having_metrics = list(set(f["field"] for f in self.having)) if self.having else []
-        self.metrics = self.metrics + having_metrics
+        having_metrics = dict.fromkeys(f["field"] for f in self.having) if self.having else {}
+        self.metrics = self.metrics + [m for m in having_metrics if m not in self.metrics]
 
         base_dimensions = self.dimensions + [event_date.id()] + event_condition_fields
         join_graphs = self.join_graphs_for_query(self.metrics, base_dimensions, self.where)
@@ -166,13 +166,13 @@ class FunnelQuery(MetricsLayerQueryBase):
             view = self.design.get_view(self.funnel["view_name"])
             return self.design.get_field(f"{view.name}.{view.default_date}_raw")
 
-        dates = []
+        dates = set()
         for metric_name in self.metrics:
             metric = self.design.get_field(metric_name)
             if "." in metric.view.default_date:
-                dates.append(tuple(metric.view.default_date.split(".")))
+                dates.add(tuple(metric.view.default_date.split(".")))
             else:
-                dates.append((metric.view.name, metric.view.default_date))
+                dates.add((metric.view.name, metric.view.default_date))
 
         if len(list(dates)) == 1:
             date_key = f"{list(dates)[0][0]}.{list(dates)[0][-1]}_raw"
-- 
2.43.0


From 07704088dd582512732a254f06d5e01550296807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 13/49] fix: a single unmergeable metric with a mapped field is
 refused instead of crashing

---
 metrics_layer/core/sql/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index cb5f931..e5d3f13 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -345,6 +345,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             # if it works with the rest. This produces the most sensible error message.
             for key in self.field_lookup.keys():
                 with_one_removed = {k: v for k, v in self.field_lookup.items() if k != key}
+                if not with_one_removed:
+                    continue
                 merged, joined = self._join_graphs_by_type(with_one_removed)
                 if len(merged) != 0 or len(joined) != 0:
                     error_message = (
-- 
2.43.0


From 07984543dac312ef75b693a17d1da169830da9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 14/49] fix: the join graph follows the current user's access

---
 metrics_layer/core/model/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 9ea90cb..cb59e86 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -73,6 +73,9 @@ class Project:
         return hash(string_to_hash)
 
     def set_user(self, user: dict):
+        if user != self._user:
+            # The views in the join graph depend on what the user has access to
+            self._join_graph = None
         self._user = user
 
     def set_connection_schema(self, schema: str):
-- 
2.43.0


From fd24ed298501c4b05c64f9840768ef112388f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:31 +0000
Subject: [PATCH 15/49] fix: repeated spaces inside of quoted text of a field's
 sql are kept

---
 metrics_layer/core/model/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 9c8d013..09d2aa1 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2574,7 +2574,8 @@ class Field(MetricsLayerBase, SQLReplacement):
         if sql_query is None or "{%" in sql_query or sql_query == "":
             return None
         clean_sql = self.replace_fields(sql_query, query_type, alias_only=alias_only)
-        clean_sql = re.sub(r"[ ]{2,}", " ", clean_sql)
+        # Repeated spaces inside of quoted text are part of the value, so they must stay as they are
+        clean_sql = re.sub(r"('(?:[^']|'')*')|[ ]{2,}", lambda m: m.group(1) or " ", clean_sql)
         clean_sql = clean_sql.replace("'", "'")
         return clean_sql
 
-- 
2.43.0


From 0a12d8541914129bae8387dc88042a932b0659dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:08 +0000
Subject: [PATCH 16/49] fix: labels with quotes and empty or zero else values
 of coded dimensions

---
 metrics_layer/core/model/field.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 09d2aa1..5729fd9 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2637,11 +2637,13 @@ class Field(MetricsLayerBase, SQLReplacement):
         for when in case["whens"]:
             # Do this so the warehouse doesn't think it's an identifier
             when_condition_sql = when["sql"].replace('"', "'")
-            when_sql = f"when {when_condition_sql} then '{when['label']}' "
+            when_label = str(when["label"]).replace("'", "''")
+            when_sql = f"when {when_condition_sql} then '{when_label}' "
             case_sql += when_sql
 
-        if case.get("else"):
-            case_sql += f"else '{case['else']}' "
+        if case.get("else") is not None:
+            else_label = str(case["else"]).replace("'", "''")
+            case_sql += f"else '{else_label}' "
 
         return case_sql + "end"
 
-- 
2.43.0


From 68d4d4063df8dd2363a0bec648bf5d869bde71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:17 +0000
Subject: [PATCH 17/49] fix: text that only contains the words of a date
 condition is compared as text

---
 metrics_layer/core/model/filter.py | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 7340110..d6ae05f 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -201,8 +201,14 @@ class Filter(MetricsLayerBase):
         if tz is None:
             tz = "UTC"
 
-        if " until " in str(date_condition):
-            first, second = date_condition.split(" until ")
+        range_ends = str(date_condition).split(" until ")
+        if len(range_ends) == 2:
+            first, second = range_ends
+            # Text that only contains the word is not a date condition
+            for range_end in range_ends:
+                is_date = re.fullmatch(r"\d{4}-\d{1,2}-\d{1,2}", range_end)
+                if not is_date and Filter.parse_date_condition(range_end, tz) is None:
+                    return
 
             start_expression = MetricsLayerFilterExpressionType.GreaterOrEqualThan
             parsed_first = Filter.parse_date_condition(first, tz)
@@ -257,7 +263,7 @@ class Filter(MetricsLayerBase):
     @staticmethod
     def _parse_n_interval(date_condition: str, interval_condition: str, tz: str):
         regex = rf"(\d+|this|last)\s+({interval_condition})"  # noqa
-        result = re.search(regex, str(date_condition))
+        result = re.fullmatch(regex, str(date_condition).strip())
         if not result:
             return
 
@@ -285,7 +291,7 @@ class Filter(MetricsLayerBase):
     @staticmethod
     def _parse_n_interval_modifier(date_condition: str, interval_condition: str, tz: str):
         regex = rf"(\d+\s+|this\s+|last\s+|)({interval_condition})\s+(ago\s+to\s+date|ago|to\s+date)"  # noqa
-        result = re.search(regex, str(date_condition))
+        result = re.fullmatch(regex, str(date_condition).strip())
         if not result:
             return
 
@@ -327,7 +333,7 @@ class Filter(MetricsLayerBase):
     @staticmethod
     def _parse_n_interval_ago_for(date_condition: str, interval_condition: str, tz: str):
         regex = rf"(\d+)\s+({interval_condition})\s+ago\s+for\s+(\d+)\s+({interval_condition})"  # noqa
-        result = re.search(regex, str(date_condition))
+        result = re.fullmatch(regex, str(date_condition).strip())
         if not result:
             return
 
@@ -369,8 +375,10 @@ class Filter(MetricsLayerBase):
         date_condition = Filter.parse_date_condition(value, tz=tz)
         Filter._reset_week_start_day()
 
-        first_word = str(value).split(" ")[0]
-        first_two_words = " ".join(str(value).split(" ")[:2])
+        # Text that only begins with one of these words is not a date condition
+        date_comparison = re.fullmatch(
+            r"(after|before|on|not on)\s+(\d{4}-\d{1,2}-\d{1,2})", str(value).strip()
+        )
 
         # Handle field to field comparison
         if isinstance(value, LiteralValue):
@@ -405,13 +413,14 @@ class Filter(MetricsLayerBase):
             return multiple_filter_dicts
 
         # Handle date after and before
-        elif first_word in {"after", "before", "on"} or first_two_words in {"not on"}:
-            cleaned_value = Filter._parse_date_string(value.split(" ")[-1])
-            if first_word == "after":
+        elif date_comparison:
+            comparison_word = date_comparison.group(1)
+            cleaned_value = Filter._parse_date_string(date_comparison.group(2))
+            if comparison_word == "after":
                 expression = MetricsLayerFilterExpressionType.GreaterOrEqualThan
-            elif first_word == "before":
+            elif comparison_word == "before":
                 expression = MetricsLayerFilterExpressionType.LessOrEqualThan
-            elif first_word == "on":
+            elif comparison_word == "on":
                 expression = MetricsLayerFilterExpressionType.EqualTo
             else:
                 expression = MetricsLayerFilterExpressionType.NotEqualTo
-- 
2.43.0


From f62b87c9a37352851fda7ecb174d917308c298de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:42 +0000
Subject: [PATCH 18/49] fix: filters with an empty negated value or an empty
 list entry are read instead of crashing

---
 metrics_layer/core/model/filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index d6ae05f..b2c0da3 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -427,11 +427,11 @@ class Filter(MetricsLayerBase):
 
         # isin for strings
         elif len(value.split(", ")) > 1:
-            if all(category[0] == "-" for category in value.split(", ")):
+            if all(category[:1] == "-" for category in value.split(", ")):
                 expression = MetricsLayerFilterExpressionType.IsNotIn
                 cleaned_value = [f"{category[1:].strip()}" for category in value.split(", ")]
 
-            elif any(category[0] == "-" for category in value.split(", ")):
+            elif any(category[:1] == "-" for category in value.split(", ")):
                 raise QueryError("Invalid filter some elements are negated with '-' and some are not")
 
             else:
@@ -450,10 +450,10 @@ class Filter(MetricsLayerBase):
 
         # String parsing for NOT equal to
         elif value[0] == "-":
-            if value[1] == "%" and value[-1] == "%":
+            if value[1:2] == "%" and value[-1] == "%":
                 expression = MetricsLayerFilterExpressionType.DoesNotContainCaseInsensitive
                 cleaned_value = value[2:-1]
-            elif value[1] == "%":
+            elif value[1:2] == "%":
                 expression = MetricsLayerFilterExpressionType.DoesNotEndWithCaseInsensitive
                 cleaned_value = value[2:]
             elif value[-1] == "%":
-- 
2.43.0


From 40dd6d5fc909f1a1ab8949813158686a57cb1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 19/49] fix: order by text keeps the names of fields that
 contain asc or desc

---
 metrics_layer/core/sql/query_base.py      | 19 ++++++++++++++
 metrics_layer/core/sql/query_generator.py | 31 -----------------------
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 5c9a9fd..fe09e66 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -34,6 +34,25 @@ class MetricsLayerQueryBase(MetricsLayerBase):
             )
         return where
 
+    @staticmethod
+    def _parse_order_by_object(order_by):
+        results = []
+        # Handle literal order by
+        if isinstance(order_by, str):
+            for order_clause in order_by.split(","):
+                # The words are only keywords after the field, they may also be part of the field's name
+                match = re.fullmatch(
+                    r"(.*?)(\s+(?P<sort>asc|desc))?(\s+nulls\s+(first|last))?", order_clause.lower().strip(), re.S
+                )
+                results.append({"field": match.group(1).strip(), "sort": match.group("sort") or "asc"})
+
+        # Handle JSON order_by
+        if isinstance(order_by, list):
+            for order_clause in order_by:
+                results.append({**order_clause, "sort": order_clause.get("sort", "asc").lower()})
+
+        return results
+
     @staticmethod
     def parse_identifiers_from_clause(clause: str):
         if clause is None:
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 6e57cf4..d4a9f26 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -128,37 +128,6 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                 results.append(f)
         return results
 
-    def _parse_order_by_object(self, order_by):
-        results = []
-        # Handle literal order by
-        if isinstance(order_by, str):
-            for order_clause in order_by.split(","):
-                if "desc" in order_clause.lower():
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("desc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "desc"})
-                else:
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("asc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "asc"})
-
-        # Handle JSON order_by
-        if isinstance(order_by, list):
-            for order_clause in order_by:
-                results.append({**order_clause, "sort": order_clause.get("sort", "asc").lower()})
-
-        return results
-
     def needs_join(self):
         return len(self.design.joins()) > 0
 
-- 
2.43.0


From 5b05d54eb5ce0ae52218e96947f4ab14d3256ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:43 +0000
Subject: [PATCH 20/49] fix: merged, cumulative and funnel results are ordered
 by the requested fields

---
 metrics_layer/core/sql/merged_query_resolve.py  |  1 +
 metrics_layer/core/sql/query_base.py            | 17 ++++++++++++++++-
 .../core/sql/query_cumulative_metric.py         |  7 +++++++
 metrics_layer/core/sql/query_funnel.py          |  7 +++++++
 metrics_layer/core/sql/query_merged_results.py  |  4 ++++
 5 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 8c8b5f6..b778961 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -92,6 +92,7 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             "query_metrics": readable_metrics,
             "query_dimensions": readable_dimensions,
             "having": self.having,
+            "order_by": self.order_by,
             "queries_to_join": queries_to_join,
             "join_hashes": list(sorted(readable_join_hashes)),
             "mapping_lookup": readable_mapping_lookup,
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index fe09e66..8b177df 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -2,13 +2,14 @@ import re
 from copy import deepcopy
 
 import sqlparse
-from pypika import JoinType
+from pypika import JoinType, Order
 from pypika.terms import LiteralValue
 from sqlparse.tokens import Name, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.base import MetricsLayerBase
 from metrics_layer.core.model.join import Join, ZenlyticJoinType
+from metrics_layer.core.sql.query_dialect import NullSorting
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
 
 
@@ -53,6 +54,20 @@ class MetricsLayerQueryBase(MetricsLayerBase):
 
         return results
 
+    def order_by_selected(self, query, order_by, project, selected_aliases: list):
+        """Order a query built from cte's, which can only refer to the fields in its SELECT clause"""
+        for order_clause in self._parse_order_by_object(order_by):
+            field = project.get_field(order_clause["field"])
+            alias = field.alias(with_view=True)
+            if alias not in selected_aliases:
+                raise QueryError(
+                    f"Field {field.id()} is not in the query. Please add it as a metric or dimension "
+                    "to order the results by it."
+                )
+            order = Order.desc if order_clause["sort"] == "desc" else Order.asc
+            query = query.orderby(LiteralValue(alias), order=order, nulls=NullSorting.last)
+        return query
+
     @staticmethod
     def parse_identifiers_from_clause(clause: str):
         if clause is None:
diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 029dfe0..133f0a1 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -80,6 +80,12 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             where = self.get_where_with_aliases(self.having, project=self.design)
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
+        selected_aliases = [
+            self.design.get_field(f).alias(with_view=True) for f in self.metrics + self.dimensions
+        ]
+        base_cte_query = self.order_by_selected(
+            base_cte_query, self.order_by, self.design, selected_aliases
+        )
         base_cte_query = base_cte_query.limit(self.limit)
         sql = str(base_cte_query)
         if semicolon:
@@ -179,6 +185,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
         sub_definition["dimensions"] = dimensions
         sub_definition["where"] = where
         sub_definition["having"] = []
+        sub_definition["order_by"] = []
         sub_definition["limit"] = None
 
         field_lookup = {k: v for k, v in self.design.field_lookup.items()}
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 6895b1f..267a635 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -80,6 +80,12 @@ class FunnelQuery(MetricsLayerQueryBase):
             where = self.get_where_with_aliases(self.having, project=self.design)
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
+        selected_aliases = [
+            self.design.get_field(f).alias(with_view=True) for f in self.metrics + self.dimensions
+        ]
+        base_cte_query = self.order_by_selected(
+            base_cte_query, self.order_by, self.design, selected_aliases
+        )
         base_cte_query = base_cte_query.limit(self.limit)
         sql = str(base_cte_query)
         if semicolon:
@@ -227,6 +233,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         sub_definition["dimensions"] = sorted(dimensions + dimensions_to_add)
         sub_definition["where"] = where
         sub_definition["having"] = []
+        sub_definition["order_by"] = []
         sub_definition["limit"] = None
 
         self.design.no_group_by = no_group_by
diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index abada03..749e989 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -27,6 +27,9 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
             where = self.get_where_with_aliases(self.having, project=self.project)
             complete_query = complete_query.where(Criterion.all(where))
 
+        complete_query = self.order_by_selected(
+            complete_query, self.order_by, self.project, self.selected_aliases
+        )
         completed_query = complete_query.limit(self.limit)
         if self.return_pypika_query:
             return completed_query
@@ -137,6 +140,7 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                 select.append(self.sql(field.strict_replaced_query(), alias=alias))
                 existing_aliases.append(alias)
 
+        self.selected_aliases = existing_aliases
         return select
 
     @staticmethod
-- 
2.43.0


From 3aff16c18a83caa4478df95131babf88a5d7e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:18 +0000
Subject: [PATCH 21/49] fix: merged queries whose order or filters are text or
 groups are answered instead of crashing

---
 metrics_layer/core/sql/arbitrary_merge_resolve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 20b06e9..f7d6951 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -32,7 +32,7 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         self.verbose = kwargs.get("verbose", False)
         self.where = where
         self.having = having
-        self.order_by = order_by
+        self.order_by = MetricsLayerMergedQueries._parse_order_by_object(order_by)
         self.limit = kwargs.pop("limit", None)
         self.project = project
         self.connections = connections
@@ -161,8 +161,9 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         )
 
     def _add_mapping_lookup(self, resolver: SQLQueryResolver):
-        where_fields = [f["field"] for f in resolver.where]
-        order_by_fields = [f["field"] for f in resolver.order_by]
+        where_fields, _, order_by_fields = resolver.parse_field_names(
+            resolver.where, resolver.having, resolver.order_by
+        )
         for mapping_name, mapping_field in resolver.mapping_lookup.items():
             if mapping_name not in self._mapping_lookup:
                 if any(d in mapping_field["fields"] for d in resolver.dimensions):
-- 
2.43.0


From 368f7c2fdaf8509ce98374e728b34eac2be4d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:00 +0000
Subject: [PATCH 22/49] fix: a limit of 0 rows is kept on SQL Server and Azure
 Synapse

---
 metrics_layer/core/sql/query_dialect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics_layer/core/sql/query_dialect.py b/metrics_layer/core/sql/query_dialect.py
index bcb0697..7c1e8fb 100644
--- a/metrics_layer/core/sql/query_dialect.py
+++ b/metrics_layer/core/sql/query_dialect.py
@@ -176,6 +176,10 @@ class MSSQLQueryBuilderCorrectLimit(MSSQLQueryBuilder):
     def limit(self, limit: int):
         self._top = limit
 
+    def _top_sql(self) -> str:
+        # A limit of 0 is a limit as well
+        return "" if self._top is None else f"TOP ({self._top}) "
+
 
 class MSSSQLQuery(Query):
     """
-- 
2.43.0


From c1b138c4637659c01977076ff7800c2974dbc73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 23/49] fix: order by text understands mapped fields and fields
 named like SQL keywords

---
 metrics_layer/core/sql/single_query_resolve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 59de770..d45e791 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -216,9 +216,8 @@ class SingleSQLQueryResolver:
 
         self.order_by = self._check_for_dict(order_by)
         if self._is_literal(self.order_by):
-            self._order_by_field_names = MetricsLayerQuery.parse_identifiers_from_clause(self.order_by)
-        else:
-            self._order_by_field_names = self.parse_identifiers_from_dicts(self.order_by)
+            self.order_by = MetricsLayerQuery._parse_order_by_object(self.order_by)
+        self._order_by_field_names = self.parse_identifiers_from_dicts(self.order_by)
         return self._where_field_names, self._having_field_names, self._order_by_field_names
 
     def parse_funnel(self, funnel: dict):
-- 
2.43.0


From b0fd751bfa9a793f639635df3eca00fa0d82ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:48 +0000
Subject: [PATCH 24/49] fix: field references resolve in any letter case of the
 view, looked up metrics and dimensions are unambiguous

---
 metrics_layer/core/model/field.py   |  4 ++--
 metrics_layer/core/model/project.py |  6 ++++--
 metrics_layer/core/query/query.py   | 31 ++++++++++++++++-------------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 5729fd9..c4613b8 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -901,9 +901,9 @@ class Field(MetricsLayerBase, SQLReplacement):
 
     def get_dimension_group_name(self, field_name: str):
         if self.type == "duration" and f"_{self.name}" in field_name:
-            return field_name.replace(f"_{self.name}", "")
+            return field_name.removesuffix(f"_{self.name}")
         if self.type == "time":
-            return field_name.replace(f"{self.name}_", "")
+            return field_name.removeprefix(f"{self.name}_")
         return None
 
     def apply_dimension_group_duration_sql(self, sql_start: str, sql_end: str, query_type: str):
diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index cb59e86..88166cd 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -544,12 +544,14 @@ class Project:
         # Handle the case where the view syntax is passed: view_name.field_name
         if "." in field_name:
             _, specified_view_name, field_name = Field.field_name_parts(field_name)
-            if view_name and specified_view_name != view_name:
+            if specified_view_name:
+                specified_view_name = specified_view_name.lower()
+            if view_name and specified_view_name != view_name.lower():
                 raise QueryError(
                     f"You specified two different view names {specified_view_name} and {view_name}"
                 )
             view_name = specified_view_name
-        return field_name.lower(), view_name
+        return field_name.lower(), view_name.lower() if view_name else view_name
 
     def _matching_field_handler(self, matching_fields: list, field_name: str, view_name: str = None):
         if len(matching_fields) == 1:
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 0ab3469..9d03fbb 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -1,12 +1,11 @@
 import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
-from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
 from metrics_layer.core.parse import ProjectLoader
 from metrics_layer.core.parse.connections import BaseConnection
 from metrics_layer.core.sql import QueryRunner, SQLQueryResolver
 from metrics_layer.core.sql.arbitrary_merge_resolve import ArbitraryMergedQueryResolver
-from metrics_layer.core.sql.query_errors import ParseError
 
 
 class DBConnectionError(Exception):
@@ -198,12 +197,14 @@ class MetricsLayerConnection:
         return metrics
 
     def get_metric(self, metric_name: str, view_name: str = None):
-        metrics = self.list_metrics(view_name=view_name)
-        try:
-            metric = next((m for m in metrics if m.equal(metric_name)))
-            return metric
-        except ParseError as e:
-            raise e(f"Could not find metric {metric_name} in the project config")
+        metric = self.get_field(metric_name, view_name=view_name)
+        if metric.field_type != "measure":
+            raise AccessDeniedOrDoesNotExistException(
+                f"Could not find metric {metric_name} in the project config",
+                object_name=metric_name,
+                object_type="metric",
+            )
+        return metric
 
     def list_dimensions(self, view_name: str = None, names_only: bool = False, show_hidden: bool = False):
         all_fields = self.project.fields(view_name=view_name, show_hidden=show_hidden)
@@ -213,12 +214,14 @@ class MetricsLayerConnection:
         return dimensions
 
     def get_dimension(self, dimension_name: str, view_name: str = None):
-        dimensions = self.list_dimensions(view_name=view_name)
-        try:
-            dimension = next((d for d in dimensions if d.equal(dimension_name)))
-            return dimension
-        except ParseError as e:
-            raise e(f"Could not find dimension {dimension_name} in the project config")
+        dimension = self.get_field(dimension_name, view_name=view_name)
+        if dimension.field_type not in {"dimension", "dimension_group"}:
+            raise AccessDeniedOrDoesNotExistException(
+                f"Could not find dimension {dimension_name} in the project config",
+                object_name=dimension_name,
+                object_type="dimension",
+            )
+        return dimension
 
     def list_views(self, names_only=False):
         views = self.project.views()
-- 
2.43.0


From b00084baf3f08449dfc2e649a84c745e1682673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:10 +0000
Subject: [PATCH 25/49] fix: a set named without a view is the own view's set

---
 metrics_layer/core/model/set.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 55cc1f5..87cefdf 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -110,7 +110,12 @@ class Set(MetricsLayerBase):
             return [f"{f.view.name}.{f.alias()}" for f in all_fields]
 
         _, view_name, set_name = self.field_name_parts(set_name)
-        _set = self.project.get_set(set_name, view_name=view_name)
+        _set = None
+        if view_name is None and self.view_name:
+            # A set of the same view takes precedence over the sets with this name in other views
+            _set = self.project.get_set(set_name, view_name=self.view_name)
+        if _set is None:
+            _set = self.project.get_set(set_name, view_name=view_name)
         if _set is None:
             print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
             return []
-- 
2.43.0


From d57dde740e24e4bbb828d33626b95d4bf04aaaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 26/49] fix: several filters by the metric of a group in one
 query no longer crash

---
 metrics_layer/core/sql/query_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index d4a9f26..a21872d 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -168,7 +168,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.having_group_by_filters:
             group_by_where = []
-            for i, f in enumerate(sorted(self.having_group_by_filters)):
+            for i, f in enumerate(self.having_group_by_filters):
                 cte_alias = f"filter_subquery_{i}"
                 cte_query = f.cte(query_class=MetricsLayerQuery, design_class=MetricsLayerDesign)
                 base_query = base_query.with_(Table(cte_query), cte_alias)
-- 
2.43.0


From 002cda06bafa43628d6088eabcf220c28ba68835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 27/49] fix: merged results apply filters by the metric of a
 group to the groups, not to the result rows

---
 metrics_layer/core/sql/merged_query_resolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index b778961..a09ce7d 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -39,6 +39,10 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         self.metrics = metrics
         self.dimensions = dimensions
         self.parse_field_names(where, having, order_by)
+        # Filters on the metric of a group restrict the rows of each sub query, not the merged result
+        if not self._is_literal(self.having) and not self._is_literal(self.where):
+            self.where = self.where + [h for h in self.having if h.get("group_by") is not None]
+            self.having = [h for h in self.having if h.get("group_by") is None]
         self.model = model
         self.query_type = None
 
-- 
2.43.0


From cb4fada3a2d5d3a9f3398597bf326a092b2b6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 28/49] fix: filters by the metric of a group are refused
 inside filter groups instead of losing their group

---
 metrics_layer/core/sql/single_query_resolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index d45e791..c31b659 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -237,6 +237,10 @@ class SingleSQLQueryResolver:
     @staticmethod
     def parse_identifiers_from_dicts(conditions: list):
         flattened_conditions = SingleSQLQueryResolver.flatten_filters(conditions)
+        top_level = conditions if isinstance(conditions, list) else [conditions]
+        for cond in flattened_conditions:
+            if cond.get("group_by") is not None and not any(cond is c for c in top_level):
+                raise QueryError(f"A filter with the 'group_by' property cannot be in a filter group: {cond}")
         literal_field_names = []
         for cond in flattened_conditions:
             if "literal" in cond:
-- 
2.43.0


From bcfe5ad3939585c8aa48c703f5563d5a50e058b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 29/49] fix: merged queries hide only a query's own join
 fields, not another query's column

---
 metrics_layer/core/sql/query_arbitrary_merged_queries.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_arbitrary_merged_queries.py b/metrics_layer/core/sql/query_arbitrary_merged_queries.py
index 982cbbf..e985ec6 100644
--- a/metrics_layer/core/sql/query_arbitrary_merged_queries.py
+++ b/metrics_layer/core/sql/query_arbitrary_merged_queries.py
@@ -117,19 +117,21 @@ class MetricsLayerMergedQueries(MetricsLayerQueryBase):
         existing_aliases = []
         for query in self.merged_queries:
             # We do not want to include the join fields in the SELECT clause,
-            # unless they are part of the primary (base) query
+            # unless they are part of the primary (base) query. This applies only to this query's own
+            # join fields, the same field can be a regular column of another query
+            join_aliases = []
             for j in query.get("join_fields", []):
                 field = self.project.get_field(j["field"])
 
                 alias = field.alias(with_view=True)
-                existing_aliases.append(alias)
+                join_aliases.append(alias)
 
             field_ids = query.get("metrics", []) + query.get("dimensions", [])
             for field_id in field_ids:
                 field = self.project.get_field(field_id)
                 alias = field.alias(with_view=True)
 
-                if alias not in existing_aliases:
+                if alias not in existing_aliases and alias not in join_aliases:
                     self.cte_alias_lookup[alias] = query["cte_alias"]
                     select.append(self.sql(f"{query['cte_alias']}.{alias}", alias=alias))
                     existing_aliases.append(alias)
-- 
2.43.0


From 706de9ef1c28cb6d3fd56a533bd91c010160ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 30/49] fix: filter groups in where and having of merged
 queries

---
 metrics_layer/core/sql/arbitrary_merge_resolve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index f7d6951..6354a3d 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -78,10 +78,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
 
         mapping_lookup = self._mapping_lookup
         self.model = resolver.model
-        clean_where = [{**w, "field": mapping_lookup.get(w["field"].lower(), w["field"])} for w in self.where]
-        clean_having = [
-            {**h, "field": mapping_lookup.get(h["field"].lower(), h["field"])} for h in self.having
-        ]
+        clean_where = [self._replace_mapped_filter(w) for w in self.where]
+        clean_having = [self._replace_mapped_filter(h) for h in self.having]
         clean_order_by = [
             {**o, "field": mapping_lookup.get(o["field"].lower(), o["field"])} for o in self.order_by
         ]
@@ -103,6 +101,13 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         query = merged_queries_resolver.get_query(semicolon=semicolon)
         return query
 
+    def _replace_mapped_filter(self, filter_object: dict):
+        if "conditions" in filter_object:
+            conditions = [self._replace_mapped_filter(f) for f in filter_object["conditions"]]
+            return {**filter_object, "conditions": conditions}
+        field = self._mapping_lookup.get(filter_object["field"].lower(), filter_object["field"])
+        return {**filter_object, "field": field}
+
     def _resolve_join_fields_mappings(
         self,
         primary_resolver: SQLQueryResolver,
-- 
2.43.0


From 5b7033ee2ee1c03e63b848037106e36b81a472a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 31/49] fix: refuse merged queries with a join type that has no
 valid SQL with join fields

---
 metrics_layer/core/sql/arbitrary_merge_resolve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 6354a3d..7b03588 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -7,6 +7,7 @@ from metrics_layer.core.exceptions import (
     QueryError,
 )
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.model.join import ZenlyticJoinType
 from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.query_arbitrary_merged_queries import (
     MetricsLayerMergedQueries,
@@ -201,6 +202,13 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
                 raise QueryError(f"Each item in merged_queries must have 'join_fields' key as a list.")
             if i > 0 and not merged_query.get("join_fields", []):
                 raise QueryError(f"Each item in merged_queries after the first must have 'join_fields' key.")
+            # A cross join cannot be combined with the (required) join fields
+            join_types = [ZenlyticJoinType.left_outer, ZenlyticJoinType.inner, ZenlyticJoinType.full_outer]
+            if merged_query.get("join_type") is not None and merged_query["join_type"] not in join_types:
+                raise QueryError(
+                    f"Each item in merged_queries must have a 'join_type' in {join_types}, if one is given."
+                    f" {merged_query['join_type']} is not supported."
+                )
             if i > 0:
                 join_fields = []
                 for join_field in merged_query.get("join_fields", []):
-- 
2.43.0


From 38604b29c2016d3fee87c11fefc6fb6635180250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:12 +0000
Subject: [PATCH 32/49] fix: mapped names in filter texts replace only the
 reference itself, also when it is a SQL keyword

---
 metrics_layer/core/sql/query_base.py | 20 +++++++++++++++++++-
 metrics_layer/core/sql/resolve.py    | 12 ++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 8b177df..f90e1ed 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -77,7 +77,9 @@ class MetricsLayerQueryBase(MetricsLayerBase):
         field_names = []
         for i, token in enumerate(generator):
             not_already_added = i == 0 or str(generator[i - 1]) != "."
-            if token.ttype == Name and not_already_added:
+            # A field in a ${} reference can have the name of a SQL keyword, e.g. ${date}
+            is_reference = i > 0 and str(generator[i - 1]) == "{"
+            if (token.ttype == Name or is_reference) and not_already_added:
                 field_names.append(str(token))
 
             if token.ttype == Punctuation and str(token) == ".":
@@ -85,6 +87,22 @@ class MetricsLayerQueryBase(MetricsLayerBase):
                     field_names[-1] += f".{str(generator[i+1])}"
         return field_names
 
+    @staticmethod
+    def replace_identifiers_in_clause(clause: str, replace_lookup: dict):
+        """Replaces the identifiers, as found by parse_identifiers_from_clause, and nothing else that
+        contains the same text (e.g. longer names or string values)"""
+        tokens = [token for statement in sqlparse.parse(clause) for token in statement.flatten()]
+        replaced, i = [], 0
+        while i < len(tokens):
+            text = str(tokens[i])
+            is_identifier = tokens[i].ttype == Name or (i > 0 and str(tokens[i - 1]) == "{")
+            i += 1
+            while is_identifier and i + 1 < len(tokens) and str(tokens[i]) == ".":
+                text += f".{str(tokens[i + 1])}"
+                i += 2
+            replaced.append(replace_lookup.get(text, text) if is_identifier else text)
+        return "".join(replaced)
+
     @staticmethod
     def get_pypika_join_type(join: Join):
         return MetricsLayerQueryBase.pypika_join_type_lookup(join.join_type)
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index e5d3f13..e23fae6 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -6,7 +6,7 @@ from metrics_layer.core.exceptions import JoinError, QueryError
 from metrics_layer.core.model.filter import Filter
 from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.merged_query_resolve import MergedSQLQueryResolver
-from metrics_layer.core.sql.query_base import QueryKindTypes
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase, QueryKindTypes
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
 
@@ -380,12 +380,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
     def _replace_mapped_field(self, to_replace: str, field):
         self.field_id_mapping[to_replace] = field.id()
-        if to_replace in self.metrics:
-            idx = self.metrics.index(to_replace)
-            self.metrics[idx] = field.id()
-        if to_replace in self.dimensions:
-            idx = self.dimensions.index(to_replace)
-            self.dimensions[idx] = field.id()
+        self.metrics = [field.id() if m == to_replace else m for m in self.metrics]
+        self.dimensions = [field.id() if d == to_replace else d for d in self.dimensions]
         if to_replace in self._where_fields:
             self.where = self._replace_dict_or_literal(self.where, to_replace, field)
         if to_replace in self._having_fields:
@@ -398,7 +394,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
     def _replace_dict_or_literal(self, where, to_replace, field):
         if self._is_literal(where):
-            return where.replace(to_replace, field.id())
+            return MetricsLayerQueryBase.replace_identifiers_in_clause(where, {to_replace: field.id()})
         else:
             result = []
             for w in where:
-- 
2.43.0


From 1b33603941e397b20049412fd1ec63e98fcb6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 33/49] fix: literal filters inside AND/OR filter groups

---
 metrics_layer/core/sql/query_filter.py         | 2 ++
 metrics_layer/core/sql/single_query_resolve.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index f179900..0cde8f3 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -174,6 +174,8 @@ class MetricsLayerFilter(MetricsLayerBase):
                         raise_if_not_in_lookup=raise_if_not_in_lookup,
                     )
                 )
+            elif condition_object.is_literal_filter:
+                pypika_conditions.append(condition_object.sql_query(is_combined=True))
             elif alias_query:
                 if self.project is None:
                     raise ValueError("Project is not set, but it is required for an alias_query")
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index c31b659..8846e3b 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -118,7 +118,7 @@ class SingleSQLQueryResolver:
                 conditions = []
             if conditions:
                 field_types = set(
-                    [self.field_lookup[f["field"]].field_type for f in self.flatten_filters(conditions)]
+                    [self.field_lookup[f].field_type for f in self.parse_identifiers_from_dicts(conditions)]
                 )
                 if "measure" in field_types and (
                     "dimension" in field_types or "dimension_group" in field_types
@@ -140,7 +140,7 @@ class SingleSQLQueryResolver:
                 conditions = []
             if conditions:
                 field_types = set(
-                    [self.field_lookup[f["field"]].field_type for f in self.flatten_filters(conditions)]
+                    [self.field_lookup[f].field_type for f in self.parse_identifiers_from_dicts(conditions)]
                 )
                 if "measure" in field_types and (
                     "dimension" in field_types or "dimension_group" in field_types
-- 
2.43.0


From 265863f626616f9e35b6d1e46df453d91d593f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 34/49] fix: literal filters on merged results are mapped like
 other row filters, or refused in having

---
 metrics_layer/core/sql/arbitrary_merge_resolve.py |  2 ++
 metrics_layer/core/sql/merged_query_resolve.py    | 12 ++++++++++++
 metrics_layer/core/sql/single_query_resolve.py    |  9 +++++++++
 3 files changed, 23 insertions(+)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 7b03588..4b7c7f8 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -30,6 +30,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
     ):
         merged_queries = self.validate_arbitrary_merged_queries(merged_queries)
         self.merged_queries = merged_queries
+        self.raise_if_literal(where, "where")
+        self.raise_if_literal(having, "having")
         self.verbose = kwargs.get("verbose", False)
         self.where = where
         self.having = having
diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index a09ce7d..160db4b 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -5,6 +5,7 @@ from copy import deepcopy
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_merged_results import MetricsLayerMergedResultsQuery
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
@@ -39,6 +40,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         self.metrics = metrics
         self.dimensions = dimensions
         self.parse_field_names(where, having, order_by)
+        if isinstance(self.where, str):
+            self.where = [{"literal": self.where}]
+        self.raise_if_literal(self.having, "having")
         # Filters on the metric of a group restrict the rows of each sub query, not the merged result
         if not self._is_literal(self.having) and not self._is_literal(self.where):
             self.where = self.where + [h for h in self.having if h.get("group_by") is not None]
@@ -290,6 +294,14 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         return recurse(where_filter)
 
     def _resolve_where_mapped_filter(self, where_filter_object, dimension_mapping, join_hash):
+        if "literal" in where_filter_object:
+            literal, lookup = where_filter_object["literal"], {}
+            for name in MetricsLayerQueryBase.parse_identifiers_from_clause(literal):
+                mapped = self._resolve_where_mapped_filter({"field": name}, dimension_mapping, join_hash)
+                lookup[name] = mapped["field"]
+            literal = MetricsLayerQueryBase.replace_identifiers_in_clause(literal, lookup)
+            return {**where_filter_object, "literal": literal}
+
         metric_canon_dates = {f.canon_date for v in self.query_metrics.values() for f in v}
         field = self.project.get_field(where_filter_object["field"])
         is_canon_date = any(f"{field.view.name}.{field.name}" == d for d in metric_canon_dates)
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 8846e3b..e0e1333 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -261,6 +261,15 @@ class SingleSQLQueryResolver:
     def flatten_filters(filters: list):
         return flatten_filters(filters)
 
+    @staticmethod
+    def raise_if_literal(filters, clause_name: str):
+        is_literal = isinstance(filters, str) and filters.strip() != ""
+        if is_literal or any("literal" in f for f in flatten_filters(filters)):
+            raise QueryError(
+                f"A merged query does not support a literal in the {clause_name} clause: {filters}."
+                " Please use the field, expression and value properties instead."
+            )
+
     @staticmethod
     def _check_for_dict(conditions: list):
         if isinstance(conditions, dict):
-- 
2.43.0


From e4200e9c700e5166c946f99fe45d2d03382032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 35/49] fix: refuse merged results whose dimensions cannot be
 mapped to every sub query

---
 metrics_layer/core/sql/merged_query_resolve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 160db4b..f419de6 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -60,6 +60,13 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             if k not in join_hashes:
                 join_hashes.append(k)
 
+        # The sub queries are aligned on their dimensions, so each of them needs all of the dimensions
+        if len({len(self.query_dimensions.get(join_hash, [])) for join_hash in join_hashes}) > 1:
+            raise QueryError(
+                "The dimensions of the query cannot be mapped to each of the merged sub queries."
+                " Please add the missing mappings or joins to your model definition."
+            )
+
         join_hash_readability_lookup = {
             j: f"{j.split('__')[0]}__cte_subquery_{i}" for i, j in enumerate(sorted(join_hashes))
         }
-- 
2.43.0


From a301d273e13dd221a49c8595bd81e1b7afc0410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:19 +0000
Subject: [PATCH 36/49] fix: a query leaves the caller's filters as they were
 given

---
 metrics_layer/core/sql/arbitrary_merge_resolve.py | 5 +++--
 metrics_layer/core/sql/resolve.py                 | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 4b7c7f8..c33109c 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -33,8 +33,9 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         self.raise_if_literal(where, "where")
         self.raise_if_literal(having, "having")
         self.verbose = kwargs.get("verbose", False)
-        self.where = where
-        self.having = having
+        # The request belongs to the caller, and the filters in it are completed while they are resolved
+        self.where = deepcopy(where)
+        self.having = deepcopy(having)
         self.order_by = MetricsLayerMergedQueries._parse_order_by_object(order_by)
         self.limit = kwargs.pop("limit", None)
         self.project = project
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index e23fae6..702da56 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -37,8 +37,9 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.connections = connections
         self.metrics = metrics
         self.dimensions = dimensions
-        self.funnel = funnel
-        self.where = where if where else []
+        # The request belongs to the caller, and the filters in it are completed while they are resolved
+        self.funnel = deepcopy(funnel)
+        self.where = deepcopy(where) if where else []
         always_where = self._apply_always_filter(metrics + dimensions)
         if always_where:
             # The caller's filters can be a list, a single filter or a literal string
@@ -48,8 +49,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                 self.where = [self.where]
             self.where = [*self.where, *always_where]
         self.where = self._clean_conditional_filter_syntax(self.where)
-        self.having = self._clean_conditional_filter_syntax(having)
-        self.order_by = order_by
+        self.having = self._clean_conditional_filter_syntax(deepcopy(having))
+        self.order_by = deepcopy(order_by)
         self.kwargs = kwargs
         self.connection = self._get_connection(self.model.connection)
         self.kwargs["query_type"] = self._get_query_type(self.connection, self.kwargs)
-- 
2.43.0


From d5997f8540720a37e0f1293afcdb9dfcde4764df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 37/49] fix: validating and querying leave the definitions of
 the filters and the fields as they are

---
 metrics_layer/core/model/field.py      | 2 ++
 metrics_layer/core/model/join_graph.py | 4 +++-
 metrics_layer/core/model/view.py       | 3 +++
 metrics_layer/core/sql/resolve.py      | 9 ++++++---
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index c4613b8..36ed22b 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -1663,6 +1663,8 @@ class Field(MetricsLayerBase, SQLReplacement):
 
                 else:
                     if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                        # Copied, because the filter is a part of the definition of the field
+                        f = copy(f)
                         f["field"] = f"{self.view.name}.{f['field']}"
 
                     if "field" in f and f["field"] == f"{self.view.name}.{self.name}":
diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 10e8fda..145999e 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -256,7 +256,9 @@ class JoinGraph(SQLReplacement):
                 try:
                     canon_date = self._get_field_with_memo(measure.canon_date, by_name=True)
                     for timeframe in canon_date.timeframes:
-                        canon_date.dimension_group = timeframe
+                        # A new field, because this one is shared with everyone else who gets it by name
+                        definition = {**canon_date._definition, "dimension_group": timeframe}
+                        canon_date = type(canon_date)(definition, view=canon_date.view)
                         root_node_name = join_root + "_" + timeframe
                         graph.add_edges_from(
                             [(root_node_name, canon_date.id()), (root_node_name, measure_id)]
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 0c778a6..a943431 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -1,4 +1,5 @@
 import re
+from copy import copy
 from typing import TYPE_CHECKING, Union
 
 from metrics_layer.core.exceptions import (
@@ -433,6 +434,8 @@ class View(MetricsLayerBase, SQLReplacement):
                     continue
 
                 if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                    # Copied, because the filter is a part of the definition of the view
+                    f = copy(f)
                     f["field"] = f"{self.name}.{f['field']}"
                 errors.extend(
                     Field.collect_field_filter_errors(
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 702da56..94a0967 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -486,9 +486,12 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                 if field.view.always_filter:
                     parsed_filters = []
                     for f in field.view.always_filter:
-                        if "." not in f["field"]:
-                            f["field"] = f"{field.view.name}.{f['field']}"
-                        parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
+                        filter_field = f["field"]
+                        if "." not in filter_field:
+                            filter_field = f"{field.view.name}.{filter_field}"
+                        parsed_filters.extend(
+                            Filter({**f, "field": filter_field, **to_add}).filter_dict(json_safe=True)
+                        )
                     always_where.extend(parsed_filters)
             # Handle mappings exception
             except Exception:
-- 
2.43.0


From 418ad485d62d68bfaed1e6fa94f0427168a354ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 38/49] fix: a view lists its dimension groups expanded or not
 as asked, whichever was asked first

---
 metrics_layer/core/model/view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index a943431..a6f11d8 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -47,7 +47,7 @@ class View(MetricsLayerBase, SQLReplacement):
     def __init__(self, definition: dict, project) -> None:
         if "sets" not in definition:
             definition["sets"] = []
-        self.__all_fields = None
+        self.__all_fields = {}
         if "name" in definition and isinstance(definition["name"], str):
             definition["name"] = definition["name"].lower()
 
@@ -971,9 +971,9 @@ class View(MetricsLayerBase, SQLReplacement):
         return result
 
     def fields(self, show_hidden: bool = True, expand_dimension_groups: bool = False) -> list:
-        if not self.__all_fields:
-            self.__all_fields = self._all_fields(expand_dimension_groups=expand_dimension_groups)
-        all_fields = self.__all_fields
+        if expand_dimension_groups not in self.__all_fields:
+            self.__all_fields[expand_dimension_groups] = self._all_fields(expand_dimension_groups)
+        all_fields = self.__all_fields[expand_dimension_groups]
         if show_hidden:
             return all_fields
         return [field for field in all_fields if not field.hidden]
-- 
2.43.0


From 11f88117f1afd06e69a6dd78d72b258d130f36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:58 +0000
Subject: [PATCH 39/49] fix: fields are added and removed, and views replaced,
 whatever the case of their names, and what was derived from the old fields is
 forgotten

---
 metrics_layer/core/model/project.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 88166cd..7a0acdf 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -90,7 +90,7 @@ class Project:
         self._required_access_filter_user_attributes = user_attribute_names
 
     def add_field(self, field: dict, view_name: str, refresh_cache: bool = True):
-        view = next((v for v in self._views if v["name"] == view_name), None)
+        view = next((v for v in self._views if v["name"].lower() == view_name.lower()), None)
         if view is None:
             raise AccessDeniedOrDoesNotExistException(
                 f"Could not find a view matching the name {view_name}",
@@ -101,18 +101,20 @@ class Project:
         if not any(f["name"].lower() == field["name"].lower() for f in view["fields"]):
             view["fields"].append(field)
         if refresh_cache:
+            self.__dict__.pop("_content_hash", None)
             self.refresh_cache()
 
     def remove_field(self, field_name: str, view_name: str, refresh_cache: bool = True):
-        view = next((v for v in self._views if v["name"] == view_name), None)
+        view = next((v for v in self._views if v["name"].lower() == view_name.lower()), None)
         if view is None:
             raise AccessDeniedOrDoesNotExistException(
                 f"Could not find a view matching the name {view_name}",
                 object_name=view_name,
                 object_type="view",
             )
-        view["fields"] = [f for f in view["fields"] if f["name"] != field_name]
+        view["fields"] = [f for f in view["fields"] if f["name"].lower() != field_name.lower()]
         if refresh_cache:
+            self.__dict__.pop("_content_hash", None)
             self.refresh_cache()
 
     @property
@@ -206,13 +208,13 @@ class Project:
         current_models = json.loads(json.dumps(self._models))
 
         # Replace view files
-        replaced_view_names = set([v["name"] for v in replaced_views])
-        unchanged_views = [v for v in self._views if v["name"] not in replaced_view_names]
+        replaced_view_names = set([v["name"].lower() for v in replaced_views])
+        unchanged_views = [v for v in self._views if v["name"].lower() not in replaced_view_names]
         current_views = json.loads(json.dumps(self._views))
 
         # Replace dashboard files
-        replaced_dashboard_names = set([d["name"] for d in replaced_dashboards])
-        unchanged_dashboards = [d for d in self._dashboards if d["name"] not in replaced_dashboard_names]
+        replaced_dashboard_names = set([d["name"].lower() for d in replaced_dashboards])
+        unchanged_dashboards = [d for d in self._dashboards if d["name"].lower() not in replaced_dashboard_names]
         current_dashboards = json.loads(json.dumps(self._dashboards))
 
         try:
-- 
2.43.0


From f53766de8ddcde2e58e92da5711819dcd3708f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:16 +0000
Subject: [PATCH 40/49] fix: a query with a non additive metric leaves the
 fields of the project as they are

---
 metrics_layer/core/sql/query_generator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index a21872d..61c542f 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -377,7 +377,15 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             field_lookup[field.id()] = field
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
+        view_name = non_additive_dimension.view.name
         project = copy(self.design.project)
+        # The temporary field is only for this query, so it goes on a copy of the view
+        project._views = [
+            {**v, "fields": [f for f in v.get("fields", []) if f["name"].lower() != temp_field_name.lower()]}
+            if v["name"].lower() == view_name
+            else v
+            for v in project._views
+        ]
         project.add_field(
             {
                 "name": temp_field_name,
@@ -385,7 +393,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                 "type": definition["window_choice"],
                 "sql": "${" + f'{non_additive_dimension.view.name}.{definition["name"].split(".")[-1]}' + "}",
             },
-            view_name=non_additive_dimension.view.name,
+            view_name=view_name,
             refresh_cache=False,
         )
         design = MetricsLayerDesign(
@@ -404,9 +412,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             "return_pypika_query": True,
         }
         generator = MetricsLayerQuery(config, design=design)
-        cte_query = generator.get_query()
-        project.remove_field(temp_field_name, view_name=non_additive_dimension.view.name, refresh_cache=False)
-        return cte_query
+        return generator.get_query()
 
     # Code for the GROUP BY part of the query
     def get_group_by_columns(self):
-- 
2.43.0


From 87513910496409792a291db7ef43715774c937bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:27 +0000
Subject: [PATCH 41/49] fix: the non additive dimension in a field's definition
 is left as it was written

---
 metrics_layer/core/model/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 36ed22b..1fd666d 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -452,6 +452,8 @@ class Field(MetricsLayerBase, SQLReplacement):
     def non_additive_dimension(self):
         non_additive_dimension = self._definition.get("non_additive_dimension")
         if non_additive_dimension and isinstance(non_additive_dimension, dict):
+            # Copied, because it is a part of the definition of the field
+            non_additive_dimension = copy(non_additive_dimension)
             if "." not in non_additive_dimension["name"]:
                 qualified_name = f"{self.view.name}.{non_additive_dimension['name']}"
                 non_additive_dimension["name"] = qualified_name
@@ -2347,7 +2349,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                     (
                                         f"Field {self.name} in view {self.view.name} has an invalid"
                                         " non_additive_dimension. The field"
-                                        f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                        f" {self.non_additive_dimension['name']} referenced in"
                                         " non_additive_dimension is not a valid dimension group with type"
                                         " time."
                                     ),
@@ -2360,7 +2362,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. The field"
-                                    f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                    f" {self.non_additive_dimension['name']} referenced in"
                                     " non_additive_dimension does not exist."
                                 ),
                             )
-- 
2.43.0


From ba6262b995ed01d5b1c306271f582c5aeda7a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 42/49] fix: a field in an MQL query may be named with a word
 SQL knows, like date or account

---
 metrics_layer/core/convert/convert.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index a46df20..c9f7124 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -7,7 +7,7 @@ from copy import copy, deepcopy
 
 import sqlparse
 from sqlparse.sql import Function, Identifier, IdentifierList, Statement, Where
-from sqlparse.tokens import Keyword, Whitespace
+from sqlparse.tokens import Keyword, Name, Whitespace
 
 from metrics_layer.core.sql.query_errors import ParseError
 from metrics_layer.core.sql.resolve import SQLQueryResolver
@@ -70,6 +70,7 @@ class MQLConverter:
 
     def __init__(self, sql: str, project, **kwargs):
         self._function_name = "MQL"
+        self._clause_keywords = {"BY", "HAVING", "ORDER BY", "FOR", "FUNNEL", "THEN", "WITHIN"}
         self.sql = sql
         self.project = project
         self.kwargs = kwargs
@@ -135,8 +136,6 @@ class MQLConverter:
                 if mode == "funnel" and str(token).upper() != "THEN":
                     funnel_step = []
                     continue
-                elif mode == "dimensions" and str(token).upper() in {"SOURCE"}:
-                    self._add_by_mode(metrics, dimensions, mode, str(token))
 
             if mode == "funnel":
                 if str(token).upper() == "THEN":
@@ -167,6 +166,11 @@ class MQLConverter:
                 order_by.append(token)
                 continue
 
+            # The name of a field can also be a word that SQL knows, for example date or account
+            is_known_word = token.ttype in Keyword or token.ttype in Name
+            if is_known_word and not is_conjunction and str(token).upper() not in self._clause_keywords:
+                self._add_by_mode(metrics, dimensions, mode, str(token))
+
             if isinstance(token, Identifier) and not self._is_funnel(token):
                 identifier = str(token)
                 self._add_by_mode(metrics, dimensions, mode, identifier)
-- 
2.43.0


From 70413c9ad210d28f623e55ae062f012d5fc25d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:45 +0000
Subject: [PATCH 43/49] fix: MQL is replaced wherever it is in the statement,
 and only there

---
 metrics_layer/core/convert/convert.py | 48 ++++++++++++---------------
 metrics_layer/core/query/query.py     |  2 +-
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index c9f7124..c85cfe4 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -3,7 +3,7 @@
 # for that configuration then replaces the MQL() section of the original string
 # with the correct SQL
 
-from copy import copy, deepcopy
+from copy import deepcopy
 
 import sqlparse
 from sqlparse.sql import Function, Identifier, IdentifierList, Statement, Where
@@ -77,37 +77,31 @@ class MQLConverter:
         self.connection = None
 
     def get_query(self):
-        converted_sql = copy(self.sql)
-        statement = sqlparse.parse(self.sql)[0]
-        for token in statement:
-            # Handle case without an alias
-            if isinstance(token, Function):
-                mql_as_sql = self.parse_and_resolve_mql(token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(token), mql_as_sql)
-
-            # Handle error with parenthesis
-            if isinstance(token, Identifier) and str(token).upper() == self._function_name:
-                raise ParseError(
-                    "Expected beginning and ending parenthesis around statement beginning with "
-                    f"{str(token)} in statement {self.sql}"
-                )
-
-            # Handle case with alias
-            if isinstance(token, Identifier) and f"{self._function_name}(" in str(token).upper():
-                # We have to index into the first token here because the MQL is the first part of the token
-                # with an alias e.g. [part 1] MQL(blah by blah) [part 2] as [part 3] alias
-                mql_token = token[0]
-                mql_as_sql = self.parse_and_resolve_mql(mql_token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(mql_token), mql_as_sql)
+        converted_sql = ""
+        for statement in sqlparse.parse(self.sql):
+            for token in statement:
+                # Handle error with parenthesis
+                if isinstance(token, Identifier) and str(token).upper() == self._function_name:
+                    raise ParseError(
+                        "Expected beginning and ending parenthesis around statement beginning with "
+                        f"{str(token)} in statement {self.sql}"
+                    )
+            converted_sql += self._replace_mql(statement)
 
         if converted_sql[-1] != ";":
             converted_sql += ";"
         return converted_sql
 
+    def _replace_mql(self, token):
+        # The MQL() functions can be anywhere in the statement, everything else stays as it is written
+        if isinstance(token, Function):
+            mql_as_sql = self.parse_and_resolve_mql(token)
+            if mql_as_sql:
+                return mql_as_sql
+        if token.is_group:
+            return "".join(self._replace_mql(t) for t in token.tokens)
+        return str(token)
+
     def parse_and_resolve_mql(self, token):
         function_name = token[0]
         if str(function_name).upper() == self._function_name:
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 9d03fbb..73fab0b 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -125,8 +125,8 @@ class MetricsLayerConnection:
             converter = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
             )
-            connection = converter.connection
             query = converter.get_query()
+            connection = converter.connection
         elif metrics or dimensions:
             resolver = SQLQueryResolver(
                 metrics=metrics,
-- 
2.43.0


From dd3fd5475d4454bb6d40b1fc2f5a11af289021cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:34 +0000
Subject: [PATCH 44/49] fix: the steps of a funnel in MQL can have any
 condition, and any spaces around them

---
 metrics_layer/core/convert/convert.py | 97 ++++++++++++---------------
 1 file changed, 43 insertions(+), 54 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index c85cfe4..4ccf5d4 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -3,11 +3,9 @@
 # for that configuration then replaces the MQL() section of the original string
 # with the correct SQL
 
-from copy import deepcopy
-
 import sqlparse
 from sqlparse.sql import Function, Identifier, IdentifierList, Statement, Where
-from sqlparse.tokens import Keyword, Name, Whitespace
+from sqlparse.tokens import Keyword, Name
 
 from metrics_layer.core.sql.query_errors import ParseError
 from metrics_layer.core.sql.resolve import SQLQueryResolver
@@ -70,7 +68,7 @@ class MQLConverter:
 
     def __init__(self, sql: str, project, **kwargs):
         self._function_name = "MQL"
-        self._clause_keywords = {"BY", "HAVING", "ORDER BY", "FOR", "FUNNEL", "THEN", "WITHIN"}
+        self._clause_keywords = {"BY", "HAVING", "ORDER BY"}
         self.sql = sql
         self.project = project
         self.kwargs = kwargs
@@ -114,43 +112,13 @@ class MQLConverter:
 
     def resolve_mql_statement(self, mql_statement):
         metrics, dimensions, where, having, order_by = [], [], [], [], []
-        funnel_steps, funnel_for, funnel_within = [], None, {}
         mode = "metrics"
+        mql_statement, funnel = self._take_funnel(mql_statement)
         # We do this to trim off the starting and ending parenthesis
         for token in mql_statement[1:-1]:
-            if mode == "for" and token.ttype != Whitespace:
-                funnel_for = str(token.value).split(" ")[0].lower().strip()
-                mode = "funnel"
-                funnel_step = []
-                continue
-
             is_conjunction = str(token).strip().upper() in {"AND", "OR"}
-            if (token.ttype == Keyword or self._is_funnel(token)) and not is_conjunction:
+            if token.ttype == Keyword and not is_conjunction:
                 mode = self._resolve_mode(token, mode)
-                if mode == "funnel" and str(token).upper() != "THEN":
-                    funnel_step = []
-                    continue
-
-            if mode == "funnel":
-                if str(token).upper() == "THEN":
-                    funnel_steps.append(deepcopy(funnel_step))
-                    funnel_step = []
-                    continue
-                elif "WITHIN" in str(token).upper():
-                    lowered = str(token).lower()
-                    funnel_step.append(str(token)[: lowered.index("within")].strip())
-                    funnel_steps.append(deepcopy(funnel_step))
-                    mode = "within"
-                    continue
-                else:
-                    funnel_step.append(str(token))
-                    continue
-
-            if mode == "within" and isinstance(token, Identifier):
-                n, unit = str(token).strip().split(" ")
-                funnel_within = {"value": int(n), "unit": unit.lower()}
-                mode = "metrics"
-                continue
 
             if mode == "having":
                 having.append(token)
@@ -165,7 +133,7 @@ class MQLConverter:
             if is_known_word and not is_conjunction and str(token).upper() not in self._clause_keywords:
                 self._add_by_mode(metrics, dimensions, mode, str(token))
 
-            if isinstance(token, Identifier) and not self._is_funnel(token):
+            if isinstance(token, Identifier):
                 identifier = str(token)
                 self._add_by_mode(metrics, dimensions, mode, identifier)
 
@@ -177,14 +145,6 @@ class MQLConverter:
             if isinstance(token, Where):
                 where = token
 
-        if funnel_within != {} and len(funnel_steps) > 0:
-            steps = ["".join(s).strip() for s in funnel_steps]
-            funnel = {"steps": steps, "within": funnel_within}
-            if funnel_for:
-                funnel["view_name"] = funnel_for
-        else:
-            funnel = {}
-
         # For all of these we do [1:] to ignore the keyword at the beginning of the statement
         where_literal = self._tokens_to_sql(where[1:])
         having_literal = self._tokens_to_sql(having[1:])
@@ -204,6 +164,44 @@ class MQLConverter:
             self.connection = resolver.connection
         return resolver.get_query(semicolon=False)
 
+    def _take_funnel(self, mql_statement):
+        # The conditions of the steps can be anything, so we look at the words one by one, and
+        # not at the groups the parser made of them, for the words the funnel section consists of
+        sections, rest, mode, depth, after_dot = [], [], None, 0, False
+        for token in list(mql_statement.flatten())[1:-1]:
+            word = "" if after_dot else str(token).upper()
+            after_dot = str(token) == "."
+            depth += {"(": 1, "CASE": 1, ")": -1, "END": -1}.get(word, 0)
+            if depth == 0 and (
+                (word in {"FOR", "FUNNEL"} and mode is None)
+                or (word == "FUNNEL" and mode == "FOR")
+                or (word in {"THEN", "WITHIN"} and mode in {"FUNNEL", "THEN"})
+            ):
+                mode = word
+                sections.append((mode, []))
+            elif mode == "WITHIN" and word in {"BY", "WHERE", "HAVING", "ORDER BY"}:
+                mode = "END"
+                rest.append(str(token))
+            elif mode in {None, "END"}:
+                rest.append(str(token))
+            else:
+                sections[-1][-1].append(str(token))
+
+        if len(sections) == 0:
+            return mql_statement, {}
+
+        text = {mode: "".join(words).strip() for mode, words in sections}
+        if "FUNNEL" not in text or "WITHIN" not in text:
+            raise ParseError(f"Could not parse the funnel in statement {self.sql}")
+
+        value, unit = text["WITHIN"].split()
+        steps = ["".join(words).strip() for mode, words in sections if mode in {"FUNNEL", "THEN"}]
+        funnel = {"steps": steps, "within": {"value": int(value), "unit": unit.lower()}}
+        if text.get("FOR"):
+            funnel["view_name"] = text["FOR"].lower()
+        without_funnel = sqlparse.parse(f"{self._function_name}({''.join(rest)})")[0]
+        return without_funnel[0][1], funnel
+
     def _resolve_mode(self, token, mode):
         keyword = str(token).upper()
         if keyword == "BY":
@@ -212,12 +210,6 @@ class MQLConverter:
             mode = "having"
         elif keyword == "ORDER BY":
             mode = "order_by"
-        elif keyword == "FOR":
-            mode = "for"
-        elif keyword in {"FUNNEL", "THEN"}:
-            mode = "funnel"
-        elif keyword == "WITHIN":
-            mode = "within"
         else:
             mode = mode
         return mode
@@ -235,6 +227,3 @@ class MQLConverter:
         if len(tokens) == 0:
             return
         return str(Statement(tokens)).strip()
-
-    def _is_funnel(self, token):
-        return str(token).upper().strip() == "FUNNEL"
-- 
2.43.0


From 90d609e14efab91876f9a556c8de08c1ee009e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:51 +0000
Subject: [PATCH 45/49] fix: an MQL query with something in it that is not
 understood is refused, and not answered without it

---
 metrics_layer/core/convert/convert.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index 4ccf5d4..0c08d9a 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -133,18 +133,21 @@ class MQLConverter:
             if is_known_word and not is_conjunction and str(token).upper() not in self._clause_keywords:
                 self._add_by_mode(metrics, dimensions, mode, str(token))
 
-            if isinstance(token, Identifier):
+            elif isinstance(token, Identifier):
                 identifier = str(token)
                 self._add_by_mode(metrics, dimensions, mode, identifier)
 
-            if isinstance(token, IdentifierList):
+            elif isinstance(token, IdentifierList):
                 for id_token in token.get_identifiers():
                     identifier = str(id_token)
                     self._add_by_mode(metrics, dimensions, mode, identifier)
 
-            if isinstance(token, Where):
+            elif isinstance(token, Where):
                 where = token
 
+            elif not token.is_whitespace and str(token) != "," and token.ttype != Keyword:
+                raise ParseError(f"Could not parse {str(token)} in statement {self.sql}")
+
         # For all of these we do [1:] to ignore the keyword at the beginning of the statement
         where_literal = self._tokens_to_sql(where[1:])
         having_literal = self._tokens_to_sql(having[1:])
-- 
2.43.0


From 728a633d46348f602305a63ce53bb2a5a1eeb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:23 +0000
Subject: [PATCH 46/49] fix: the date filter of a merged result is mapped also
 when a view's name ends with the other's

---
 metrics_layer/core/sql/merged_query_resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index f419de6..4e30af7 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -323,7 +323,7 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             f"subquery{g}".strip("_") for g in joinable_graphs.split("subquery") if g != ""
         ]
         joinable_not_canon_date = not is_canon_date and join_group_hash in joinable_subqueries
-        is_canon_date_same = is_canon_date and join_hash_with_canon_date in join_hash
+        is_canon_date_same = is_canon_date and join_hash.startswith(join_hash_with_canon_date)
         if joinable_not_canon_date or is_canon_date_same:
             return where_filter_object
         else:
-- 
2.43.0


From 671b4cdcbdb05d709b91e4dee51724d0bd656429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:30 +0000
Subject: [PATCH 47/49] fix: a mapped dimension of a merged result goes to the
 view it is mapped to, also with more than ten views

---
 metrics_layer/core/sql/merged_query_resolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 4e30af7..86e0a18 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -250,7 +250,8 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                             # using the mapping that exists going "to" the join hash we're in the loop for
                             else:
                                 canon_date = ref_field.canon_date.replace(".", "_")
-                                if mapping_info["to_join_hash"] in join_hash:
+                                to_join_hash = mapping_info["to_join_hash"]
+                                if self._join_hash_contains_join_graph(join_hash, [to_join_hash]):
                                     self.query_dimensions[join_hash].append(ref_field)
                                     break
 
-- 
2.43.0


From 69cc51920f486d496c4a5066a516aca0fa48dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:32 +0000
Subject: [PATCH 48/49] fix: the SQL of a query does not depend on the
 iteration order of a set

---
 metrics_layer/core/model/field.py      | 4 ++--
 metrics_layer/core/sql/query_design.py | 2 +-
 metrics_layer/core/sql/query_funnel.py | 4 ++--
 metrics_layer/core/sql/resolve.py      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 1fd666d..71ade01 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -830,7 +830,7 @@ class Field(MetricsLayerBase, SQLReplacement):
             # default count measure which references only the field's base view
             pass
 
-        return list(set([self.view.name] + views))
+        return list(dict.fromkeys([self.view.name] + views))
 
     def _get_required_views_from_sql(self, sql: str):
         views = []
@@ -2523,7 +2523,7 @@ class Field(MetricsLayerBase, SQLReplacement):
 
         if strings_only:
             valid_references = [f for f in referenced_fields if not isinstance(f, str)]
-            return list(set(f"{f.view.name}.{f.name}" for f in valid_references))
+            return list(dict.fromkeys(f"{f.view.name}.{f.name}" for f in valid_references))
         return referenced_fields
 
     @functools.lru_cache(maxsize=None)
diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index bd86b21..28d5b61 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -187,7 +187,7 @@ class MetricsLayerDesign:
 
     @staticmethod
     def _fields_to_unique_views(field_list: list):
-        return list(set([v for field in field_list for v in field.required_views()]))
+        return list(dict.fromkeys(v for field in field_list for v in field.required_views()))
 
     def deduplicate_fields(self, field_list: list):
         return self.project.deduplicate_fields(field_list)
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 267a635..c3a8370 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -158,7 +158,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         fields = []
         for step in self.funnel["steps"]:
             fields.extend(self._get_fields_from_condition(step))
-        return list(set(fields))
+        return list(dict.fromkeys(fields))
 
     def _get_fields_from_condition(self, condition):
         if isinstance(condition, list):
@@ -273,4 +273,4 @@ class FunnelQuery(MetricsLayerQueryBase):
             all_graphs.append(set(jg for jg in field.join_graphs() if "merged_result" not in jg))
 
         remaining_join_graphs = set.intersection(*all_graphs)
-        return tuple(remaining_join_graphs)
+        return tuple(sorted(remaining_join_graphs))
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 94a0967..bc72f20 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -202,7 +202,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                                 ]
                                 views_by_n_measures[canon_date] = len(measures)
                             sorted_canon_dates = list(
-                                sorted(canon_dates, key=lambda x: views_by_n_measures[x], reverse=True)
+                                sorted(canon_dates, key=lambda x: (-views_by_n_measures[x], x))
                             )
                         else:
                             # Sort is not needed if there is only one canon_date
-- 
2.43.0


From 8bb1b112160aa569ac3914e198d6c72d84868081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:24 +0000
Subject: [PATCH 49/49] fix: lists of graphs, of files and of duplicate fields
 do not depend on the iteration order of a set

---
 metrics_layer/core/model/field.py                        | 2 +-
 metrics_layer/core/model/view.py                         | 2 +-
 metrics_layer/core/parse/project_reader_metrics_layer.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 71ade01..381fce1 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2780,7 +2780,7 @@ class Field(MetricsLayerBase, SQLReplacement):
         # Finally, we get intersection of the set of the weakly connected references
         # to EACH view that is referenced in the SQL, to get the most restricted
         # join graph that can actually be joined to this field
-        base = list(set.intersection(*base_collection))
+        base = sorted(set.intersection(*base_collection))
 
         if self.is_cumulative():
             return base
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index a6f11d8..3941c7b 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -619,7 +619,7 @@ class View(MetricsLayerBase, SQLReplacement):
                     self._definition.get("fields"),
                     (
                         f"Duplicate field names in view {self.name}:"
-                        f" {', '.join(set(f for f in field_names if field_names.count(f) > 1))}"
+                        f" {', '.join(dict.fromkeys(f for f in field_names if field_names.count(f) > 1))}"
                     ),
                 )
             )
diff --git a/metrics_layer/core/parse/project_reader_metrics_layer.py b/metrics_layer/core/parse/project_reader_metrics_layer.py
index b90f482..726b449 100644
--- a/metrics_layer/core/parse/project_reader_metrics_layer.py
+++ b/metrics_layer/core/parse/project_reader_metrics_layer.py
@@ -37,7 +37,7 @@ class MetricsLayerProjectReader(ProjectReaderBase):
 
     def search_for_yaml_files(self, folders: list):
         file_names = self.repo.search("*.yml", folders) + self.repo.search("*.yaml", folders)
-        return list(set(file_names))
+        return list(dict.fromkeys(file_names))
 
     def get_folders(self, key: str, default: str = None, raise_errors: bool = True):
         if not self.zenlytic_project:
-- 
2.43.0

