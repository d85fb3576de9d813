From ef4dd52dada3ad96e5fa65a205e86341789b52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 01/69] fix: several one-to-many branches off one view have no
 functional primary key

---
 metrics_layer/core/sql/query_design.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index a1113e5..c027388 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -233,8 +233,13 @@ class MetricsLayerDesign:
         # if the branch is from a one_to_many to the base and one_to_many the base is now
         #   the newest one_to_many ref
 
+        # if the branch is a one_to_many from a view whose rows are already repeated by another
+        #   one_to_many it's now many_to_many
+
         previous_join_type = None
         base_sequence = deepcopy([base_view.name])
+        # The views with at most one row per row of the current functional primary key's view
+        unrepeated_views = {base_view.name}
         for i, j in enumerate(sorted_joins):
             previous_join_type = None if i == 0 else sorted_joins[i - 1].relationship
             if j.relationship == ZenlyticJoinRelationship.many_to_many:
@@ -246,7 +251,14 @@ class MetricsLayerDesign:
             ):
                 return Definitions.does_not_exist
             elif j.relationship == ZenlyticJoinRelationship.one_to_many:
+                if j.base_view_name not in unrepeated_views:
+                    return Definitions.does_not_exist
                 base_sequence.append(j.join_view_name)
+                unrepeated_views = {j.join_view_name}
+            elif (
+                j.relationship == ZenlyticJoinRelationship.one_to_one and j.base_view_name in unrepeated_views
+            ):
+                unrepeated_views.add(j.join_view_name)
         primary_key = base_sequence[-1]
         return primary_key
 
-- 
2.43.0


From fa6b526f8631ef4581b14ed52c0893ad9bc3b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 02/69] fix: a literal condition is parenthesised when combined
 with access filters or other conditions

---
 metrics_layer/core/sql/query_generator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5fea256..2bc9c4c 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -170,7 +170,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         # Apply the where filters
         if self.where_filters:
-            where = [f.sql_query() for f in self.where_filters]
+            n_where = len(self.where_filters) + len(self.having_group_by_filters) + len(self.funnel_filters)
+            where = [self._combinable_filter_sql(f, n_where) for f in self.where_filters]
             base_query = base_query.where(Criterion.all(where))
 
         # Group by
@@ -180,7 +181,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         # Apply the having filters
         if self.having_filters and not self.no_group_by:
-            having = [f.sql_query() for f in self.having_filters]
+            n_having = len(self.having_filters)
+            having = [self._combinable_filter_sql(f, n_having) for f in self.having_filters]
             base_query = base_query.having(Criterion.all(having))
 
         if self.having_group_by_filters:
@@ -281,6 +283,15 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             sql += ";"
         return sql
 
+    @staticmethod
+    def _combinable_filter_sql(filter_, n_filters: int):
+        # A literal is an arbitrary condition (e.g. "a or b"), so it must be
+        # in parentheses when it's combined with any other condition
+        criterion = filter_.sql_query()
+        if filter_.is_literal_filter and n_filters > 1:
+            return LiteralValueCriterion(f"({criterion})")
+        return criterion
+
     # Code to handle SELECT portion of query
     def get_select_columns(self):
         if self.no_group_by:
-- 
2.43.0


From e53128af740b6c512bd04f47c194c0e50841c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 03/69] fix: order_by text removes only trailing sort keywords,
 not parts of field names

---
 metrics_layer/core/sql/query_generator.py | 24 ++++++-----------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 2bc9c4c..8970d8a 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from typing import Dict, List
 
@@ -122,24 +123,11 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # Handle literal order by
         if isinstance(order_by, str):
             for order_clause in order_by.split(","):
-                if "desc" in order_clause.lower():
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("desc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "desc"})
-                else:
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("asc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "asc"})
+                # Only the trailing keywords are removed, as a field's name can contain them
+                clause = re.sub(r"\s+nulls\s+(last|first)$", "", order_clause.lower().strip())
+                sort = "desc" if re.search(r"\sdesc$", clause) else "asc"
+                field_reference = re.sub(r"\s+(desc|asc)$", "", clause).strip()
+                results.append({"field": field_reference, "sort": sort})
 
         # Handle JSON order_by
         if isinstance(order_by, list):
-- 
2.43.0


From 5c1d20ab46088e6715fccecd45cf6668ebf6f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 04/69] fix: a join declared as a cross join compiles to one,
 without a join condition

---
 metrics_layer/core/sql/query_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 8970d8a..5a5fc7a 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -9,6 +9,7 @@ from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.field import Field
 from metrics_layer.core.model.filter import LiteralValueCriterion
+from metrics_layer.core.model.join import ZenlyticJoinType
 from metrics_layer.core.model.view import View
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
@@ -351,7 +352,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             criteria = LiteralValueCriterion(join.replaced_sql_on(self.query_type))
             join_type = self.get_pypika_join_type(join)
 
-            if join.type == "cross":
+            if join.join_type == ZenlyticJoinType.cross:
                 base_join_query = base_join_query.join(db_table, join_type).cross()
             else:
                 base_join_query = base_join_query.join(db_table, join_type).on(criteria)
-- 
2.43.0


From cf0557a12c5c7c9b20cbf5e5ceadc44d7a59c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 05/69] fix: joins find every declared path and never include a
 view the query does not need

---
 metrics_layer/core/sql/query_design.py | 35 ++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index c027388..4a238ad 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -62,7 +62,7 @@ class MetricsLayerDesign:
                 raise networkx.exception.NetworkXUnfeasible
             return ordered_view_pairs
 
-        except networkx.exception.NetworkXUnfeasible:
+        except (networkx.exception.NetworkXUnfeasible, networkx.exception.NetworkXNoPath):
             if len(required_views) == 2:
                 try:
                     path = self._shortest_path_between_two(required_views)
@@ -74,19 +74,21 @@ class MetricsLayerDesign:
             raw_edges = networkx.line_graph(g).nodes
             bridge_views = self._bridge_views(required_views)
             sub_line_graph_nodes = networkx.line_graph(self._join_subgraph).nodes
-            edges = [e for e in raw_edges if e[0] in required_views or e[1] in required_views]
             sorted_edges = sorted(
-                edges,
+                raw_edges,
                 key=lambda x: (
+                    int(x[0] in required_views or x[1] in required_views) * -1,
                     int(any(i in bridge_views for i in x)) * -1,
                     int(x in sub_line_graph_nodes) * -1,
                     x,
                 ),
             )
-            # Sorting puts the bridge views first, edges in the subgraph next, then sorts alphabetically
+            # Sorting puts the edges touching a required view first, then bridge views,
+            # edges in the subgraph next, then sorts alphabetically
             for view_pair in sorted_edges:
                 try:
-                    return self._greedy_build_join(g, view_pair, required_views)
+                    pairs = self._greedy_build_join(g, view_pair, required_views)
+                    return self._drop_unneeded_views(pairs, required_views)
                 except ValueError:
                     pass
 
@@ -125,6 +127,29 @@ class MetricsLayerDesign:
                 pairs = self._add_missing_views(missing_views, pairs, len(missing_views))
                 return pairs
 
+    @staticmethod
+    def _drop_unneeded_views(pairs: list, required_views: list):
+        # Only the first join to a view counts (the others are duplicates), so the pairs are a tree
+        base_view = pairs[0][0]
+        tree, joined_views = [], {base_view}
+        for source, target in pairs:
+            if target not in joined_views:
+                tree.append((source, target))
+                joined_views.add(target)
+
+        # A view that is not in the query and leads to no other view must not be joined, and
+        # neither must the query start from a view which only leads to a single other view
+        while tree:
+            sources = [source for source, _ in tree]
+            kept = [p for p in tree if p[1] in required_views or p[1] in sources]
+            if base_view not in required_views and sum(p[0] == base_view for p in kept) == 1:
+                base_view, removed = next((p[1], p) for p in kept if p[0] == base_view)
+                kept.remove(removed)
+            if len(kept) == len(tree):
+                break
+            tree = kept
+        return tree
+
     def _add_missing_views(self, missing_views: str, pairs: list, missing_n: int):
         potential_anchors = [pairs[0][0]] + [p[-1] for p in pairs]
         still_missing = []
-- 
2.43.0


From c6e492c3d58a564fd77f605e370c044f79864721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 06/69] fix: a group by filter joins the view of its group by
 field

---
 metrics_layer/core/sql/single_query_resolve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 8438af3..70841e7 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -224,7 +224,9 @@ class SingleSQLQueryResolver:
     def parse_identifiers_from_dicts(conditions: list):
         flattened_conditions = SingleSQLQueryResolver.flatten_filters(conditions)
         try:
-            return [cond["field"] for cond in flattened_conditions if "group_by" not in cond]
+            # A group by filter only needs its group by field in the main query,
+            # its own field is only referenced inside the sub query
+            return [cond["group_by"] if "group_by" in cond else cond["field"] for cond in flattened_conditions]
         except KeyError:
             for cond in conditions:
                 if "field" not in cond:
-- 
2.43.0


From eec637299ce2f1e423e347645e6f2ce95ef156a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 07/69] fix: filters without a value, filter groups and text
 conditions no longer fail with internal errors in merged queries

---
 .../core/sql/arbitrary_merge_resolve.py       | 37 ++++++++++++++-----
 metrics_layer/core/sql/query_base.py          |  5 +++
 metrics_layer/core/sql/query_filter.py        |  6 +--
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 20b06e9..8b30ef0 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -78,13 +78,9 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
 
         mapping_lookup = self._mapping_lookup
         self.model = resolver.model
-        clean_where = [{**w, "field": mapping_lookup.get(w["field"].lower(), w["field"])} for w in self.where]
-        clean_having = [
-            {**h, "field": mapping_lookup.get(h["field"].lower(), h["field"])} for h in self.having
-        ]
-        clean_order_by = [
-            {**o, "field": mapping_lookup.get(o["field"].lower(), o["field"])} for o in self.order_by
-        ]
+        clean_where = self._replace_mapped_names(self.where, mapping_lookup)
+        clean_having = self._replace_mapped_names(self.having, mapping_lookup)
+        clean_order_by = self._replace_mapped_names(self.order_by, mapping_lookup)
         merged_queries_resolver = MetricsLayerMergedQueries(
             {
                 "merged_queries": sub_queries,
@@ -103,6 +99,25 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         query = merged_queries_resolver.get_query(semicolon=semicolon)
         return query
 
+    def _replace_mapped_names(self, clauses, mapping_lookup: dict):
+        if not clauses:
+            return []
+        if isinstance(clauses, str):
+            raise QueryError(
+                "The where, having and order_by of merged queries must be lists of objects, the text"
+                f" '{clauses}' is not supported."
+            )
+        result = []
+        for clause in self._check_for_dict(clauses):
+            if "conditions" in clause:
+                conditions = self._replace_mapped_names(clause["conditions"], mapping_lookup)
+                result.append({**clause, "conditions": conditions})
+            else:
+                result.append(
+                    {**clause, "field": mapping_lookup.get(clause["field"].lower(), clause["field"])}
+                )
+        return result
+
     def _resolve_join_fields_mappings(
         self,
         primary_resolver: SQLQueryResolver,
@@ -161,8 +176,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         )
 
     def _add_mapping_lookup(self, resolver: SQLQueryResolver):
-        where_fields = [f["field"] for f in resolver.where]
-        order_by_fields = [f["field"] for f in resolver.order_by]
+        where_fields = [f["field"] for f in self.flatten_filters(resolver.where) if "field" in f]
+        order_by_fields = [f["field"] for f in self.flatten_filters(resolver.order_by)]
         for mapping_name, mapping_field in resolver.mapping_lookup.items():
             if mapping_name not in self._mapping_lookup:
                 if any(d in mapping_field["fields"] for d in resolver.dimensions):
@@ -171,6 +186,10 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
                     field_name = next((f for f in mapping_field["fields"] if f in where_fields))
                 elif any(f in mapping_field["fields"] for f in order_by_fields):
                     field_name = next((f for f in mapping_field["fields"] if f in order_by_fields))
+                elif mapping_name in resolver.field_id_mapping:
+                    field_name = resolver.field_id_mapping[mapping_name]
+                else:
+                    continue
                 self._mapping_lookup[mapping_name] = field_name
 
     @staticmethod
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 5c9a9fd..fe078ee 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -19,6 +19,11 @@ class MetricsLayerQueryBase(MetricsLayerBase):
     def get_where_with_aliases(
         self, filters: list, project, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
     ):
+        if isinstance(filters, str):
+            raise QueryError(
+                f"The condition '{filters}' applies to the result of several sub queries, and must be a list"
+                " of filter objects instead of text."
+            )
         where = []
         for filter_clause in filters:
             filter_clause["query_type"] = self.query_type
diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 5993e31..0793e27 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -141,14 +141,14 @@ class MetricsLayerFilter(MetricsLayerBase):
                     pass
 
             if self.design.query_type in Definitions.needs_datetime_cast and isinstance(
-                definition["value"], datetime.datetime
+                definition.get("value"), datetime.datetime
             ):
                 definition["value"] = datatype_cast(self.field, definition["value"])
 
-            if self.field.type == "yesno" and "False" in str(definition["value"]):
+            if self.field.type == "yesno" and "False" in str(definition.get("value")):
                 definition["expression"] = "boolean_false"
 
-            if self.field.type == "yesno" and "True" in str(definition["value"]):
+            if self.field.type == "yesno" and "True" in str(definition.get("value")):
                 definition["expression"] = "boolean_true"
 
     def group_sql_query(
-- 
2.43.0


From 7c77d5ae7aaeecef3d7e9438c0bc3f572ef79f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 08/69] fix: compiling a query does not change the arguments of
 the caller

---
 metrics_layer/core/query/query.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 0ab3469..960da1d 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
@@ -122,6 +124,10 @@ class MetricsLayerConnection:
         merged_queries: list = [],
         **kwargs,
     ):
+        # Compiling the query resolves names inside of these objects, so we work on copies of what the caller passed
+        metrics, dimensions, funnel, where, having, order_by = deepcopy(
+            (metrics, dimensions, funnel, where, having, order_by)
+        )
         if sql:
             converter = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
-- 
2.43.0


From 4ece22179ec46f4bcaedae2084695232bc6d6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 09/69] fix: cumulative metrics accept filter groups and text
 conditions

---
 .../core/sql/query_cumulative_metric.py       | 89 +++++++++++++------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 029dfe0..30ca775 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -3,14 +3,21 @@ from copy import deepcopy
 
 from pypika import Criterion, JoinType, Table
 
-from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException
+from metrics_layer.core.exceptions import (
+    AccessDeniedOrDoesNotExistException,
+    QueryError,
+)
 from metrics_layer.core.model.definitions import Definitions
-from metrics_layer.core.model.filter import LiteralValueCriterion
+from metrics_layer.core.model.filter import (
+    LiteralValueCriterion,
+    MetricsLayerFilterGroupLogicalOperatorType,
+)
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
 from metrics_layer.core.sql.query_dialect import query_lookup
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
 from metrics_layer.core.sql.query_generator import MetricsLayerQuery
+from metrics_layer.core.utils import flatten_filters
 
 SNOWFLAKE_DATE_SPINE = (
     "select dateadd(day, seq4(), '2000-01-01') as date from table(generator(rowcount => 365*40))"
@@ -88,11 +95,10 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
     def separate_metrics(self):
         cumulative_metrics, non_cumulative_metrics = [], []
-        for field_name in self.metrics + self.having:
-            if isinstance(field_name, str):
-                field = self.design.get_field(field_name)
-            else:
-                field = self.design.get_field(field_name["field"])
+        if isinstance(self.having, str):
+            raise QueryError("Cumulative metrics do not support a text having condition, use filter objects")
+        for field_name in self.metrics + [h["field"] for h in flatten_filters(self.having)]:
+            field = self.design.get_field(field_name)
 
             if field.is_cumulative():
                 if field.type == "number":
@@ -153,11 +159,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             dimensions.extend(self._cumulative_where_fields(cumulative_metric))
         dimension_ids = [d.id() for d in dimensions]
 
-        where = []
-        for w in self.where:
-            where_field = self.design.get_field(w["field"])
-            if not self._is_default_date(where_field):
-                where.append(w)
+        where, _ = self._split_where()
 
         query = self._subquery(
             metrics=[reference_metric], dimensions=dimension_ids, where=where, no_group_by=True
@@ -247,21 +249,8 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
         from_query = from_query.where(LiteralValueCriterion(f"{date_spine_reference}<={self.current_date}"))
 
-        having = []
-        for w in self.where:
-            where_field = self.design.get_field(w["field"])
-            if self._is_default_date(where_field):
-                date_having = deepcopy(w)
-                dimension_group = deepcopy(date_field.dimension_group)
-                date_field.dimension_group = where_field.dimension_group
-                date_having["field"] = date_field.id()
-                date_having["query_type"] = self.query_type
-                f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
-                date_spine_sql = date_field.apply_dimension_group_time_sql(
-                    date_spine_reference, self.query_type
-                )
-                date_field.dimension_group = dimension_group
-                having.append(f.criterion(date_spine_sql))
+        _, date_where = self._split_where()
+        having = [self._date_spine_criterion(w, date_field, date_spine_reference) for w in date_where]
 
         if default_date_is_present:
             group_by.append(self.sql(date_spine_reference))
@@ -274,6 +263,52 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
         return from_query, cumulative_metric.cte_prefix()
 
+    def _split_where(self):
+        """Conditions on the rows, and conditions on the default date (which apply to the date spine)"""
+        if not self.where:
+            return [], []
+        mixed_error = "Cumulative metrics do not support a condition mixing their date with other fields: "
+        if isinstance(self.where, str):
+            fields = [self.design.get_field(f) for f in self.parse_identifiers_from_clause(self.where)]
+            if any(self._is_default_date(f) for f in fields):
+                raise QueryError(mixed_error + self.where)
+            return self.where, []
+
+        where, date_where = [], []
+        for w in self.where:
+            if "literal" in w:
+                names = self.parse_identifiers_from_clause(w["literal"])
+            else:
+                names = [f["field"] for f in flatten_filters(w)]
+            is_date = [self._is_default_date(self.design.get_field(name)) for name in names]
+            if not any(is_date):
+                where.append(w)
+            elif all(is_date) and "literal" not in w:
+                date_where.append(w)
+            else:
+                raise QueryError(mixed_error + str(w))
+        return where, date_where
+
+    def _date_spine_criterion(self, where: dict, date_field, date_spine_reference: str):
+        if "conditions" in where:
+            conditions = [
+                self._date_spine_criterion(w, date_field, date_spine_reference) for w in where["conditions"]
+            ]
+            if where.get("logical_operator") == MetricsLayerFilterGroupLogicalOperatorType.or_:
+                return Criterion.any(conditions)
+            return Criterion.all(conditions)
+
+        where_field = self.design.get_field(where["field"])
+        date_having = deepcopy(where)
+        dimension_group = deepcopy(date_field.dimension_group)
+        date_field.dimension_group = where_field.dimension_group
+        date_having["field"] = date_field.id()
+        date_having["query_type"] = self.query_type
+        f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
+        date_spine_sql = date_field.apply_dimension_group_time_sql(date_spine_reference, self.query_type)
+        date_field.dimension_group = dimension_group
+        return f.criterion(date_spine_sql)
+
     def _is_default_date(self, field):
         date_aliases = []
         for cumulative_metric in self.cumulative_metrics:
-- 
2.43.0


From c454c8b832797203f669b4fd9e10233610f4cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 10/69] fix: always filters apply with text or single object
 conditions and are not changed by a query

---
 metrics_layer/core/sql/query_generator.py     | 22 +++++++++++++++----
 metrics_layer/core/sql/resolve.py             | 12 +++++++---
 .../core/sql/single_query_resolve.py          |  8 ++++++-
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5a5fc7a..cec0b6b 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -83,7 +83,10 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # them as CTE's for the appropriate filters
         self.non_additive_ctes = []
         metrics_in_select = definition.get("metrics", [])
-        metrics_in_having = [h["field"] for h in flatten_filters(having)]
+        if isinstance(having, str):
+            metrics_in_having = self.parse_identifiers_from_clause(having)
+        else:
+            metrics_in_having = [h["field"] for h in flatten_filters(having)]
         for metric in metrics_in_select + metrics_in_having:
             metric_field = self.design.get_field(metric)
             for ref_field in [metric_field] + metric_field.referenced_fields(metric_field.sql):
@@ -187,7 +190,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.non_additive_ctes:
             for definition in sorted(self.non_additive_ctes, key=lambda x: x["alias"]):
-                group_by_dimensions = definition.get("window_groupings", [])
+                group_by_dimensions = [*definition.get("window_groupings", [])]
                 if definition.get("window_aware_of_query_dimensions", True):
                     group_by_dimensions.extend([d.lower() for d in self.dimensions])
                 else:
@@ -374,6 +377,17 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             table_expr = Table(view.sql_table_name, alias=view.name)
         return table_expr
 
+    def _where_field_names(self):
+        if isinstance(self.where, str):
+            return self.parse_identifiers_from_clause(self.where)
+        field_names = []
+        for f in flatten_filters(self.where):
+            if "literal" in f:
+                field_names.extend(self.parse_identifiers_from_clause(f["literal"]))
+            else:
+                field_names.append(f.get("group_by", f["field"]))
+        return field_names
+
     def _non_additive_cte(self, definition: dict, group_by_dimensions: list):
         field_lookup = {}
 
@@ -386,8 +400,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         field_lookup[non_additive_dimension.id()] = non_additive_dimension
 
         # We also need to make all fields in the where clause available to the query
-        for f in flatten_filters(self.where):
-            field = self.design.get_field(f["field"])
+        for field_name in self._where_field_names():
+            field = self.design.get_field(field_name)
             field_lookup[field.id()] = field
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f248065..5db2a01 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -38,10 +38,10 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.metrics = metrics
         self.dimensions = dimensions
         self.funnel = funnel
-        self.where = where if where else []
+        self.where = self._check_for_dict(where) if where else []
         always_where = self._apply_always_filter(metrics + dimensions)
         if always_where:
-            self.where.extend(always_where)
+            self.where = self._add_always_where(self.where, always_where)
         self.where = self._clean_conditional_filter_syntax(self.where)
         self.having = self._clean_conditional_filter_syntax(having)
         self.order_by = order_by
@@ -477,7 +477,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                 field = self.project.get_field(field_str)
                 if field.view.always_filter:
                     parsed_filters = []
-                    for f in field.view.always_filter:
+                    for always_filter in field.view.always_filter:
+                        f = {**always_filter}
                         if "." not in f["field"]:
                             f["field"] = f"{field.view.name}.{f['field']}"
                         parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
@@ -488,6 +489,11 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
         return self._deduplicate_always_where_filters(always_where)
 
+    def _add_always_where(self, where, always_where: list):
+        if self._is_literal(where):
+            return [{"literal": where}] + always_where
+        return where + always_where
+
     @staticmethod
     def _deduplicate_always_where_filters(filters: list):
         seen = set()
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 70841e7..bdbaaa6 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -226,7 +226,13 @@ class SingleSQLQueryResolver:
         try:
             # A group by filter only needs its group by field in the main query,
             # its own field is only referenced inside the sub query
-            return [cond["group_by"] if "group_by" in cond else cond["field"] for cond in flattened_conditions]
+            field_names = []
+            for cond in flattened_conditions:
+                if "literal" in cond:
+                    field_names.extend(MetricsLayerQuery.parse_identifiers_from_clause(cond["literal"]))
+                else:
+                    field_names.append(cond["group_by"] if "group_by" in cond else cond["field"])
+            return field_names
         except KeyError:
             for cond in conditions:
                 if "field" not in cond:
-- 
2.43.0


From bf636e525989633910223366a42d8eb6bbdd35a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 11/69] fix: a text condition cannot close the parentheses that
 keep it apart from access filters

---
 metrics_layer/core/sql/query_generator.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index cec0b6b..b7e779d 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -2,8 +2,10 @@ import re
 from copy import copy
 from typing import Dict, List
 
+import sqlparse
 from pypika import Criterion, Order, Table
 from pypika.terms import LiteralValue
+from sqlparse.tokens import Comment, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.definitions import Definitions
@@ -281,9 +283,25 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # in parentheses when it's combined with any other condition
         criterion = filter_.sql_query()
         if filter_.is_literal_filter and n_filters > 1:
+            MetricsLayerQuery._validate_single_condition(str(criterion))
             return LiteralValueCriterion(f"({criterion})")
         return criterion
 
+    @staticmethod
+    def _validate_single_condition(condition: str):
+        # A condition that closes the parentheses around it (or comments them out) would change
+        # the meaning of the other conditions, like the access filters, so it's refused
+        depth = 0
+        for token in sqlparse.parse(condition)[0].flatten() if condition else []:
+            if token.ttype in Punctuation and token.value in {"(", ")"}:
+                depth += 1 if token.value == "(" else -1
+            if depth < 0 or token.ttype in Comment or (token.ttype in Punctuation and token.value == ";"):
+                break
+        else:
+            if depth == 0 and len(sqlparse.split(condition)) <= 1:
+                return
+        raise QueryError(f"The condition '{condition}' is not a single valid SQL condition")
+
     # Code to handle SELECT portion of query
     def get_select_columns(self):
         if self.no_group_by:
-- 
2.43.0


From 2ace8d0109f04100206a51e0f557fdde9dcffa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 12/69] fix: text conditions in merged results are applied or
 refused, not an internal error

---
 metrics_layer/core/sql/merged_query_resolve.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 8c8b5f6..21f4f5e 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -125,6 +125,11 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
 
         secondary_metric_ids = [m.id() for m in self.secondary_metrics]
         merged_metric_ids = [m.id() for m in self.merged_metrics]
+        if isinstance(self.having, str):
+            raise QueryError(
+                f"The having condition '{self.having}' applies to the result of several sub queries, and must be"
+                " a list of filter objects instead of text."
+            )
         for h in self.flatten_filters(self.having):
             field = self.project.get_field(h["field"])
             if field.id() not in secondary_metric_ids and not field.is_merged_result:
@@ -256,8 +261,11 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         keys = list(self.query_metrics.keys()) + list(self.query_dimensions.keys())
         unique_keys = sorted(list(set(keys)), key=lambda x: keys.index(x))
         self.query_where = defaultdict(list)
+        where_clauses = self.where if self.where else []
+        if isinstance(where_clauses, str):
+            where_clauses = [{"literal": where_clauses}]
         for join_hash in unique_keys:
-            for where in self.where:
+            for where in where_clauses:
                 resolved_where = self._parse_where_filter(where, dimension_mapping, join_hash)
                 self.query_where[join_hash].append(resolved_where)
 
@@ -285,6 +293,10 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         return recurse(where_filter)
 
     def _resolve_where_mapped_filter(self, where_filter_object, dimension_mapping, join_hash):
+        # A literal condition is used as it is, which needs its fields to be joinable in every sub query
+        if "literal" in where_filter_object:
+            return where_filter_object
+
         metric_canon_dates = {f.canon_date for v in self.query_metrics.values() for f in v}
         field = self.project.get_field(where_filter_object["field"])
         is_canon_date = any(f"{field.view.name}.{field.name}" == d for d in metric_canon_dates)
-- 
2.43.0


From bba9f6ad65af50fc8a9f2c153b132ec25caebbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 13/69] fix: quoting that warehouses read differently cannot
 hide the end of a text condition

---
 metrics_layer/core/sql/query_filter.py    |  1 +
 metrics_layer/core/sql/query_generator.py | 59 ++++++++++++++++-------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 0793e27..953655c 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -47,6 +47,7 @@ class MetricsLayerFilter(MetricsLayerBase):
         self.design = design
         self.project = project
         self.is_literal_filter = "literal" in definition
+        self.is_access_filter = False
         # This is a filter with parenthesis like (XYZ or ABC)
         self.is_filter_group = "conditions" in definition
 
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index b7e779d..5c9d2b4 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -2,10 +2,8 @@ import re
 from copy import copy
 from typing import Dict, List
 
-import sqlparse
 from pypika import Criterion, Order, Table
 from pypika.terms import LiteralValue
-from sqlparse.tokens import Comment, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.definitions import Definitions
@@ -109,6 +107,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if access_filter:
             filter_literal = MetricsLayerFilter(definition={"literal": access_filter}, **extra_kwargs)
+            filter_literal.is_access_filter = True
             results.append(filter_literal)
 
         # Handle literal filter
@@ -277,30 +276,54 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             sql += ";"
         return sql
 
-    @staticmethod
-    def _combinable_filter_sql(filter_, n_filters: int):
+    def _combinable_filter_sql(self, filter_, n_filters: int):
         # A literal is an arbitrary condition (e.g. "a or b"), so it must be
         # in parentheses when it's combined with any other condition
         criterion = filter_.sql_query()
         if filter_.is_literal_filter and n_filters > 1:
-            MetricsLayerQuery._validate_single_condition(str(criterion))
+            if not filter_.is_access_filter:
+                self._validate_single_condition(str(filter_.literal))
             return LiteralValueCriterion(f"({criterion})")
         return criterion
 
-    @staticmethod
-    def _validate_single_condition(condition: str):
+    def _validate_single_condition(self, condition: str):
         # A condition that closes the parentheses around it (or comments them out) would change
-        # the meaning of the other conditions, like the access filters, so it's refused
-        depth = 0
-        for token in sqlparse.parse(condition)[0].flatten() if condition else []:
-            if token.ttype in Punctuation and token.value in {"(", ")"}:
-                depth += 1 if token.value == "(" else -1
-            if depth < 0 or token.ttype in Comment or (token.ttype in Punctuation and token.value == ";"):
-                break
-        else:
-            if depth == 0 and len(sqlparse.split(condition)) <= 1:
-                return
-        raise QueryError(f"The condition '{condition}' is not a single valid SQL condition")
+        # the meaning of the other conditions, like the access filters, so it's refused. How a
+        # backslash in a string is read depends on the warehouse, so both ways must be fine
+        for backslash_escapes in (True, False):
+            if not self._is_balanced(condition, backslash_escapes):
+                raise QueryError(f"The condition '{condition}' is not a single valid SQL condition")
+
+    def _is_balanced(self, condition: str, backslash_escapes: bool):
+        quotes = {"'": "'", '"': '"', "`": "`"}
+        refused = ["--", "/*", ";"]
+        if self.query_type in {Definitions.sql_server, Definitions.azure_synapse}:
+            quotes["["] = "]"
+        elif self.query_type == Definitions.bigquery:
+            refused += ["#", "'''", '"""']
+        elif self.query_type == Definitions.snowflake:
+            refused += ["//"]
+
+        depth, closing_quote, position = 0, None, 0
+        while position < len(condition):
+            character = condition[position]
+            if closing_quote:
+                if character == "\\" and backslash_escapes:
+                    position += 1
+                elif character == closing_quote:
+                    closing_quote = None
+            elif any(condition.startswith(text, position) for text in refused):
+                return False
+            elif re.match(r"\$\w*\$", condition[position:]):
+                return False
+            elif character in quotes:
+                closing_quote = quotes[character]
+            elif character in {"(", ")"}:
+                depth += 1 if character == "(" else -1
+                if depth < 0:
+                    return False
+            position += 1
+        return depth == 0 and closing_quote is None
 
     # Code to handle SELECT portion of query
     def get_select_columns(self):
-- 
2.43.0


From 9bdcd7fb4c46f87873404fd1eeb4dd35000bae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 14/69] fix: a backslash or quote in a filter value cannot end
 the string in any warehouse

---
 metrics_layer/core/model/definitions.py |  2 +
 metrics_layer/core/model/filter.py      | 78 +++++++++++++++++--------
 metrics_layer/core/sql/query_design.py  |  6 +-
 metrics_layer/core/sql/query_filter.py  | 24 +++++---
 4 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/metrics_layer/core/model/definitions.py b/metrics_layer/core/model/definitions.py
index 460f4d0..af33598 100644
--- a/metrics_layer/core/model/definitions.py
+++ b/metrics_layer/core/model/definitions.py
@@ -24,6 +24,8 @@ class Definitions:
     symmetric_aggregates_supported_warehouses = [snowflake, redshift, bigquery, postgres, duck_db]
     no_semicolon_warehouses = [druid, trino]
     needs_datetime_cast = [bigquery, trino]
+    # In these, a backslash in a string is an escape character
+    backslash_escapes_warehouses = [snowflake, bigquery, redshift, databricks]
     supported_warehouses_text = ", ".join(supported_warehouses)
 
     does_not_exist = "__DOES_NOT_EXIST__"
diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 9be8867..afb1f9f 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -7,11 +7,12 @@ import pandas as pd
 import pendulum
 from pypika import Criterion
 from pypika.functions import Lower
-from pypika.terms import LiteralValue
+from pypika.terms import LiteralValue, ValueWrapper
 
 from metrics_layer.core.exceptions import QueryError
 
 from .base import MetricsLayerBase
+from .definitions import Definitions
 from .week_start_day_types import WeekStartDayTypes
 
 if TYPE_CHECKING:
@@ -28,6 +29,31 @@ class LiteralValueCriterion(Criterion):
         return self.sql_query
 
 
+class EscapedString(ValueWrapper):
+    """A string value for a warehouse where a backslash in a string is an escape character"""
+
+    def __init__(self, value: str, query_type: str) -> None:
+        super().__init__(value)
+        self.query_type = query_type
+
+    @staticmethod
+    def wrap(value, query_type: str):
+        if isinstance(value, (list, tuple)):
+            return [EscapedString.wrap(v, query_type) for v in value]
+        if not isinstance(value, str) or query_type not in Definitions.backslash_escapes_warehouses:
+            return value
+        return EscapedString(value, query_type)
+
+    def get_value_sql(self, **kwargs):
+        # These do not read a doubled quote as a quote
+        if self.query_type in {Definitions.bigquery, Definitions.databricks}:
+            escaped_quote = "\\'"
+        else:
+            escaped_quote = "''"
+        value = self.value.replace("\\", "\\\\").replace("'", escaped_quote).replace("\n", "\\n")
+        return f"'{value}'"
+
+
 class MetricsLayerFilterGroupLogicalOperatorType:
     and_ = "AND"
     or_ = "OR"
@@ -529,7 +555,9 @@ class Filter(MetricsLayerBase):
         return case_sql
 
     @staticmethod
-    def sql_query(sql_to_compare: str, expression_type: str, value, field_datatype: str):
+    def sql_query(
+        sql_to_compare: str, expression_type: str, value, field_datatype: str, query_type: str = None
+    ):
         field = LiteralValue(sql_to_compare)
         if (
             expression_type
@@ -537,42 +565,46 @@ class Filter(MetricsLayerBase):
             and field_datatype == "number"
         ):
             value = [pd.to_numeric(v) for v in value]
+
+        def text(compared_value):
+            return EscapedString.wrap(compared_value, query_type)
+
         criterion_strategies = {
-            MetricsLayerFilterExpressionType.LessThan: lambda f: f < value,
-            MetricsLayerFilterExpressionType.LessOrEqualThan: lambda f: f <= value,
-            MetricsLayerFilterExpressionType.EqualTo: lambda f: f == value,
-            MetricsLayerFilterExpressionType.NotEqualTo: lambda f: f != value,
-            MetricsLayerFilterExpressionType.GreaterOrEqualThan: lambda f: f >= value,
-            MetricsLayerFilterExpressionType.GreaterThan: lambda f: f > value,
-            MetricsLayerFilterExpressionType.Like: lambda f: f.like(value),
-            MetricsLayerFilterExpressionType.Contains: lambda f: f.like(f"%{value}%"),
-            MetricsLayerFilterExpressionType.DoesNotContain: lambda f: f.not_like(f"%{value}%"),
+            MetricsLayerFilterExpressionType.LessThan: lambda f: f < text(value),
+            MetricsLayerFilterExpressionType.LessOrEqualThan: lambda f: f <= text(value),
+            MetricsLayerFilterExpressionType.EqualTo: lambda f: f == text(value),
+            MetricsLayerFilterExpressionType.NotEqualTo: lambda f: f != text(value),
+            MetricsLayerFilterExpressionType.GreaterOrEqualThan: lambda f: f >= text(value),
+            MetricsLayerFilterExpressionType.GreaterThan: lambda f: f > text(value),
+            MetricsLayerFilterExpressionType.Like: lambda f: f.like(text(value)),
+            MetricsLayerFilterExpressionType.Contains: lambda f: f.like(text(f"%{value}%")),
+            MetricsLayerFilterExpressionType.DoesNotContain: lambda f: f.not_like(text(f"%{value}%")),
             MetricsLayerFilterExpressionType.ContainsCaseInsensitive: lambda f: Lower(f).like(
-                Lower(f"%{value}%")
+                Lower(text(f"%{value}%"))
             ),
             MetricsLayerFilterExpressionType.DoesNotContainCaseInsensitive: lambda f: Lower(f).not_like(
-                Lower(f"%{value}%")
+                Lower(text(f"%{value}%"))
             ),
-            MetricsLayerFilterExpressionType.StartsWith: lambda f: f.like(f"{value}%"),
-            MetricsLayerFilterExpressionType.EndsWith: lambda f: f.like(f"%{value}"),
-            MetricsLayerFilterExpressionType.DoesNotStartWith: lambda f: f.not_like(f"{value}%"),
-            MetricsLayerFilterExpressionType.DoesNotEndWith: lambda f: f.not_like(f"%{value}"),
+            MetricsLayerFilterExpressionType.StartsWith: lambda f: f.like(text(f"{value}%")),
+            MetricsLayerFilterExpressionType.EndsWith: lambda f: f.like(text(f"%{value}")),
+            MetricsLayerFilterExpressionType.DoesNotStartWith: lambda f: f.not_like(text(f"{value}%")),
+            MetricsLayerFilterExpressionType.DoesNotEndWith: lambda f: f.not_like(text(f"%{value}")),
             MetricsLayerFilterExpressionType.StartsWithCaseInsensitive: lambda f: Lower(f).like(
-                Lower(f"{value}%")
+                Lower(text(f"{value}%"))
             ),
             MetricsLayerFilterExpressionType.EndsWithCaseInsensitive: lambda f: Lower(f).like(
-                Lower(f"%{value}")
+                Lower(text(f"%{value}"))
             ),
             MetricsLayerFilterExpressionType.DoesNotStartWithCaseInsensitive: lambda f: Lower(f).not_like(
-                Lower(f"{value}%")
+                Lower(text(f"{value}%"))
             ),
             MetricsLayerFilterExpressionType.DoesNotEndWithCaseInsensitive: lambda f: Lower(f).not_like(
-                Lower(f"%{value}")
+                Lower(text(f"%{value}"))
             ),
             MetricsLayerFilterExpressionType.IsNull: lambda f: f.isnull(),
             MetricsLayerFilterExpressionType.IsNotNull: lambda f: f.notnull(),
-            MetricsLayerFilterExpressionType.IsIn: lambda f: f.isin(value),
-            MetricsLayerFilterExpressionType.IsNotIn: lambda f: f.isin(value).negate(),
+            MetricsLayerFilterExpressionType.IsIn: lambda f: f.isin(text(value)),
+            MetricsLayerFilterExpressionType.IsNotIn: lambda f: f.isin(text(value)).negate(),
             MetricsLayerFilterExpressionType.BooleanTrue: lambda f: LiteralValueCriterion(f),
             MetricsLayerFilterExpressionType.BooleanFalse: lambda f: f.negate(),
         }
diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index 4a238ad..60813d3 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -316,7 +316,11 @@ class MetricsLayerDesign:
                         fields.append(field)
                         for filter_dict in f.filter_dict():
                             filter_sql = Filter.sql_query(
-                                field_sql, filter_dict["expression"], filter_dict["value"], field.type
+                                field_sql,
+                                filter_dict["expression"],
+                                filter_dict["value"],
+                                field.type,
+                                self.query_type,
                             )
                             conditions.append(str(filter_sql))
 
diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 953655c..2528b3b 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -3,13 +3,14 @@ from typing import Dict
 
 import pandas as pd
 from pypika import Criterion, Field, Table
-from pypika.terms import LiteralValue
+from pypika.terms import LiteralValue, ValueWrapper
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.base import MetricsLayerBase
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.field import Field as MetricsLayerField
 from metrics_layer.core.model.filter import (
+    EscapedString,
     Filter,
     LiteralValueCriterion,
     MetricsLayerFilterExpressionType,
@@ -19,10 +20,11 @@ from metrics_layer.core.sql.query_design import MetricsLayerDesign
 from metrics_layer.core.sql.query_errors import ParseError
 
 
-def datatype_cast(field, value):
+def datatype_cast(field, value, query_type):
+    value_sql = ValueWrapper(EscapedString.wrap(str(value), query_type))
     if field.datatype.upper() == "DATE":
-        return LiteralValue(f"CAST(CAST('{value}' AS TIMESTAMP) AS DATE)")
-    return LiteralValue(f"CAST('{value}' AS {field.datatype.upper()})")
+        return LiteralValue(f"CAST(CAST({value_sql} AS TIMESTAMP) AS DATE)")
+    return LiteralValue(f"CAST({value_sql} AS {field.datatype.upper()})")
 
 
 class FunnelFilterTypes:
@@ -144,7 +146,9 @@ class MetricsLayerFilter(MetricsLayerBase):
             if self.design.query_type in Definitions.needs_datetime_cast and isinstance(
                 definition.get("value"), datetime.datetime
             ):
-                definition["value"] = datatype_cast(self.field, definition["value"])
+                definition["value"] = datatype_cast(
+                    self.field, definition["value"], self.query_type
+                )
 
             if self.field.type == "yesno" and "False" in str(definition.get("value")):
                 definition["expression"] = "boolean_false"
@@ -262,16 +266,20 @@ class MetricsLayerFilter(MetricsLayerBase):
             }
             for f in Filter(filter_dict).filter_dict():
                 if self.query_type in Definitions.needs_datetime_cast:
-                    value = datatype_cast(self.field, f["value"])
+                    value = datatype_cast(self.field, f["value"], self.query_type)
                 else:
                     value = f["value"]
-                criteria.append(Filter.sql_query(field_sql, f["expression"], value, self.field.type))
+                criteria.append(
+                    Filter.sql_query(field_sql, f["expression"], value, self.field.type, self.query_type)
+                )
             return Criterion.all(criteria)
         if isinstance(self.field, MetricsLayerField):
             field_datatype = self.field.type
         else:
             field_datatype = "unknown"
-        return Filter.sql_query(field_sql, self.expression_type, self.value, field_datatype)
+        return Filter.sql_query(
+            field_sql, self.expression_type, self.value, field_datatype, self.query_type
+        )
 
     def cte(self, query_class, design_class):
         if not self.is_group_by:
-- 
2.43.0


From 4b85ca35ddee5c3a33e59bb496592d9d56d69ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 15/69] fix: the joins available to a user do not depend on
 which users were set before

---
 metrics_layer/core/model/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 9ea90cb..eac6dd7 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -73,6 +73,9 @@ class Project:
         return hash(string_to_hash)
 
     def set_user(self, user: dict):
+        # The join graph only has the views the user has access to
+        if user != self._user:
+            self._join_graph = None
         self._user = user
 
     def set_connection_schema(self, schema: str):
-- 
2.43.0


From a4efbc145d4a73b05e005291cbe8a09437f466d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 16/69] fix: a cumulative metric over an inaccessible field is
 refused with the library's error

---
 metrics_layer/core/sql/query_cumulative_metric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 30ca775..9242b40 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -103,6 +103,12 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             if field.is_cumulative():
                 if field.type == "number":
                     for reference in field.referenced_fields(field.sql):
+                        if isinstance(reference, str):
+                            raise AccessDeniedOrDoesNotExistException(
+                                f"Could not find or you do not have access to field {reference}",
+                                object_name=reference,
+                                object_type="field",
+                            )
                         if reference.is_cumulative():
                             cumulative_metrics.append(reference)
                         else:
-- 
2.43.0


From 5359aeca44d28d8618462c3c58121802f7e6d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 17/69] fix: reading a view with a field prefix does not change
 the project's definitions

---
 metrics_layer/core/model/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 0c778a6..c2419c2 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -979,7 +979,8 @@ class View(MetricsLayerBase, SQLReplacement):
         fields = []
         for f in self._definition.get("fields", []):
             if self.field_prefix:
-                f["label_prefix"] = self.field_prefix
+                # The definition belongs to the project, and other views can share it
+                f = {**f, "label_prefix": self.field_prefix}
             field = Field(f, view=self)
             if self.project.can_access_field(field):
                 if expand_dimension_groups and field.field_type == "dimension_group":
-- 
2.43.0


From 200cc7696e4272594f84b1419839387d836b0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 18/69] fix: looking up a dimension or using a merged result
 does not change the shared dimension group, unknown names are refused with
 the library's error

---
 metrics_layer/core/model/field.py      | 13 ++++-----
 metrics_layer/core/model/join_graph.py |  7 ++---
 metrics_layer/core/query/query.py      | 37 +++++++++++++++++---------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 8408d23..81960e1 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -883,14 +883,15 @@ class Field(MetricsLayerBase, SQLReplacement):
             return False
 
         if self.field_type == ZenlyticFieldType.dimension_group and self.dimension_group is None:
-            if field_name_only in self.dimension_group_names():
-                self.dimension_group = self.get_dimension_group_name(field_name_only)
-                return True
-            return False
+            return field_name_only in self.dimension_group_names()
         elif self.field_type == ZenlyticFieldType.dimension_group:
             return self.alias() == field_name_only
         return self.name == field_name_only
 
+    def with_dimension_group(self, dimension_group: str):
+        """This dimension group at one timeframe or interval, this field itself does not change"""
+        return Field({**self._definition, "dimension_group": dimension_group}, view=self.view)
+
     def dimension_group_names(self):
         if self.field_type == ZenlyticFieldType.dimension_group and self.type == "time":
             return [f"{self.name}_{t}" for t in self._definition.get("timeframes", [])]
@@ -900,9 +901,9 @@ class Field(MetricsLayerBase, SQLReplacement):
 
     def get_dimension_group_name(self, field_name: str):
         if self.type == "duration" and f"_{self.name}" in field_name:
-            return field_name.replace(f"_{self.name}", "")
+            return field_name[: -len(f"_{self.name}")]
         if self.type == "time":
-            return field_name.replace(f"{self.name}_", "")
+            return field_name[len(f"{self.name}_") :]
         return None
 
     def apply_dimension_group_duration_sql(self, sql_start: str, sql_end: str, query_type: str):
diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 10e8fda..8e66b45 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -254,9 +254,10 @@ class JoinGraph(SQLReplacement):
             if not use_condition or (use_condition and join_hash in must_be_in):
                 measure_id = measure.id()
                 try:
-                    canon_date = self._get_field_with_memo(measure.canon_date, by_name=True)
-                    for timeframe in canon_date.timeframes:
-                        canon_date.dimension_group = timeframe
+                    shared_canon_date = self._get_field_with_memo(measure.canon_date, by_name=True)
+                    for timeframe in shared_canon_date.timeframes:
+                        # The project's field stays unexpanded
+                        canon_date = shared_canon_date.with_dimension_group(timeframe)
                         root_node_name = join_root + "_" + timeframe
                         graph.add_edges_from(
                             [(root_node_name, canon_date.id()), (root_node_name, measure_id)]
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 960da1d..c188b26 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -3,12 +3,15 @@ from copy import deepcopy
 import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
-from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.exceptions import (
+    AccessDeniedOrDoesNotExistException,
+    QueryError,
+)
+from metrics_layer.core.model.field import ZenlyticFieldType
 from metrics_layer.core.parse import ProjectLoader
 from metrics_layer.core.parse.connections import BaseConnection
 from metrics_layer.core.sql import QueryRunner, SQLQueryResolver
 from metrics_layer.core.sql.arbitrary_merge_resolve import ArbitraryMergedQueryResolver
-from metrics_layer.core.sql.query_errors import ParseError
 
 
 class DBConnectionError(Exception):
@@ -205,11 +208,14 @@ class MetricsLayerConnection:
 
     def get_metric(self, metric_name: str, view_name: str = None):
         metrics = self.list_metrics(view_name=view_name)
-        try:
-            metric = next((m for m in metrics if m.equal(metric_name)))
-            return metric
-        except ParseError as e:
-            raise e(f"Could not find metric {metric_name} in the project config")
+        metric = next((m for m in metrics if m.equal(metric_name)), None)
+        if metric is None:
+            raise AccessDeniedOrDoesNotExistException(
+                f"Could not find or you do not have access to metric {metric_name}",
+                object_name=metric_name,
+                object_type="metric",
+            )
+        return metric
 
     def list_dimensions(self, view_name: str = None, names_only: bool = False, show_hidden: bool = False):
         all_fields = self.project.fields(view_name=view_name, show_hidden=show_hidden)
@@ -220,11 +226,18 @@ class MetricsLayerConnection:
 
     def get_dimension(self, dimension_name: str, view_name: str = None):
         dimensions = self.list_dimensions(view_name=view_name)
-        try:
-            dimension = next((d for d in dimensions if d.equal(dimension_name)))
-            return dimension
-        except ParseError as e:
-            raise e(f"Could not find dimension {dimension_name} in the project config")
+        dimension = next((d for d in dimensions if d.equal(dimension_name)), None)
+        if dimension is None:
+            raise AccessDeniedOrDoesNotExistException(
+                f"Could not find or you do not have access to dimension {dimension_name}",
+                object_name=dimension_name,
+                object_type="dimension",
+            )
+        if dimension.field_type == ZenlyticFieldType.dimension_group and dimension.dimension_group is None:
+            # The listed dimension group is shared, the one returned here has the timeframe or interval asked for
+            _, _, name_only = dimension.field_name_parts(dimension_name)
+            dimension = dimension.with_dimension_group(dimension.get_dimension_group_name(name_only))
+        return dimension
 
     def list_views(self, names_only=False):
         views = self.project.views()
-- 
2.43.0


From b004ea0ef08b90b6ec0bc50bdafd2a2d590a6df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 19/69] fix: the fields of a view do not depend on whether
 dimension groups were expanded before

---
 metrics_layer/core/model/view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index c2419c2..59d52ce 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -46,7 +46,7 @@ class View(MetricsLayerBase, SQLReplacement):
     def __init__(self, definition: dict, project) -> None:
         if "sets" not in definition:
             definition["sets"] = []
-        self.__all_fields = None
+        self.__all_fields = {}
         if "name" in definition and isinstance(definition["name"], str):
             definition["name"] = definition["name"].lower()
 
@@ -968,9 +968,9 @@ class View(MetricsLayerBase, SQLReplacement):
         return result
 
     def fields(self, show_hidden: bool = True, expand_dimension_groups: bool = False) -> list:
-        if not self.__all_fields:
-            self.__all_fields = self._all_fields(expand_dimension_groups=expand_dimension_groups)
-        all_fields = self.__all_fields
+        if expand_dimension_groups not in self.__all_fields:
+            self.__all_fields[expand_dimension_groups] = self._all_fields(expand_dimension_groups)
+        all_fields = self.__all_fields[expand_dimension_groups]
         if show_hidden:
             return all_fields
         return [field for field in all_fields if not field.hidden]
-- 
2.43.0


From 3de5b64c919ecbc136bb40a0da28c39855ccbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 20/69] fix: validating or using a measure does not rewrite its
 filters and non additive dimension in the project's definitions

---
 metrics_layer/core/model/field.py | 8 ++++++--
 metrics_layer/core/model/view.py  | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 81960e1..eca0f69 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -452,6 +452,8 @@ class Field(MetricsLayerBase, SQLReplacement):
     def non_additive_dimension(self):
         non_additive_dimension = self._definition.get("non_additive_dimension")
         if non_additive_dimension and isinstance(non_additive_dimension, dict):
+            # The definition itself stays as it is written
+            non_additive_dimension = {**non_additive_dimension}
             if "." not in non_additive_dimension["name"]:
                 qualified_name = f"{self.view.name}.{non_additive_dimension['name']}"
                 non_additive_dimension["name"] = qualified_name
@@ -1663,6 +1665,8 @@ class Field(MetricsLayerBase, SQLReplacement):
 
                 else:
                     if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                        # The definition itself stays as it is written
+                        f = f.copy()
                         f["field"] = f"{self.view.name}.{f['field']}"
 
                     if "field" in f and f["field"] == f"{self.view.name}.{self.name}":
@@ -2345,7 +2349,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                     (
                                         f"Field {self.name} in view {self.view.name} has an invalid"
                                         " non_additive_dimension. The field"
-                                        f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                        f" {self.non_additive_dimension['name']} referenced in"
                                         " non_additive_dimension is not a valid dimension group with type"
                                         " time."
                                     ),
@@ -2358,7 +2362,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. The field"
-                                    f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                    f" {self.non_additive_dimension['name']} referenced in"
                                     " non_additive_dimension does not exist."
                                 ),
                             )
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 59d52ce..600b614 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -433,6 +433,8 @@ class View(MetricsLayerBase, SQLReplacement):
                     continue
 
                 if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                    # The definition itself stays as it is written
+                    f = f.copy()
                     f["field"] = f"{self.name}.{f['field']}"
                 errors.extend(
                     Field.collect_field_filter_errors(
-- 
2.43.0


From 8b70c872b6100e2a2600c3497ed08c1c9a47fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:54 +0000
Subject: [PATCH 21/69] fix: to date windows count calendar days across changes
 of the clock

---
 metrics_layer/core/model/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index afb1f9f..3d1a07c 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -337,8 +337,9 @@ class Filter(MetricsLayerBase):
 
             # We need to figure out how many days are between now and the start of the period
             start_of_period = Filter._start_date(lag=0, date_part=date_part, tz=tz, return_date=True)
-            time_change = Filter._today(tz=tz) - start_of_period
-            lag = time_change.days - 1 if time_change.days > 0 else 0
+            # as calendar days, because a change of the clock makes some days shorter or longer than 24 hours
+            days_passed = (Filter._today(tz=tz).date() - start_of_period.date()).days
+            lag = days_passed - 1 if days_passed > 0 else 0
             end_date = Filter._add_to_end_date(start_date, lag=lag, date_part="day")
             result.append((end_expression, Filter._date_to_string(end_date)))
 
-- 
2.43.0


From f99d57c8716f6689ec52ad570c5329885141d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:00 +0000
Subject: [PATCH 22/69] fix: a failing date filter does not leave the process
 with another first day of the week

---
 metrics_layer/core/model/filter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 3d1a07c..577736b 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -1,4 +1,5 @@
 import re
+import threading
 from datetime import datetime
 from enum import Enum
 from typing import TYPE_CHECKING
@@ -138,6 +139,7 @@ class FilterInterval(str, Enum):
 
 
 class Filter(MetricsLayerBase):
+    _week_start_day_lock = threading.RLock()
     week_start_day_default = pendulum.MONDAY
     week_end_day_default = pendulum.SUNDAY
     week_start_day_lookup = {
@@ -391,9 +393,13 @@ class Filter(MetricsLayerBase):
             ">": MetricsLayerFilterExpressionType.GreaterThan,
             "<": MetricsLayerFilterExpressionType.LessThan,
         }
-        Filter._set_week_start_day(week_start_day)
-        date_condition = Filter.parse_date_condition(value, tz=tz)
-        Filter._reset_week_start_day()
+        # The first day of the week is a setting of the whole process
+        with Filter._week_start_day_lock:
+            try:
+                Filter._set_week_start_day(week_start_day)
+                date_condition = Filter.parse_date_condition(value, tz=tz)
+            finally:
+                Filter._reset_week_start_day()
 
         first_word = str(value).split(" ")[0]
         first_two_words = " ".join(str(value).split(" ")[:2])
-- 
2.43.0


From c954a1ebf74f3fcee3a088d35e0f890cc2ba3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:39 +0000
Subject: [PATCH 23/69] fix: dates and numbers that cannot be read in filter
 values are refused with the library's error

---
 metrics_layer/core/model/filter.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 577736b..63b7627 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -464,12 +464,12 @@ class Filter(MetricsLayerBase):
         # Numeric parsing for less than or equal to, greater than or equal to, not equal to
         elif value[:2] in {"<=", ">=", "<>", "!="}:
             expression = _symbol_to_filter_type_lookup[value[:2]]
-            cleaned_value = pd.to_numeric(value[2:])
+            cleaned_value = Filter._parse_number(value[2:])
 
         # Numeric parsing for equal to, less than, greater than
         elif value[0] in {"=", ">", "<"}:
             expression = _symbol_to_filter_type_lookup[value[0]]
-            cleaned_value = pd.to_numeric(value[1:])
+            cleaned_value = Filter._parse_number(value[1:])
 
         # String parsing for NOT equal to
         elif value[0] == "-":
@@ -502,9 +502,19 @@ class Filter(MetricsLayerBase):
 
         return {"field": field, "expression": expression, "value": cleaned_value}
 
+    @staticmethod
+    def _parse_number(number):
+        try:
+            return pd.to_numeric(number)
+        except (ValueError, TypeError):
+            raise QueryError(f"Could not read the number '{number}' in a filter")
+
     @staticmethod
     def _parse_date_string(date_string: str):
-        parsed_date = datetime.strptime(date_string, "%Y-%m-%d")
+        try:
+            parsed_date = datetime.strptime(date_string, "%Y-%m-%d")
+        except ValueError:
+            raise QueryError(f"Could not read the date '{date_string}' in a filter, use the format YYYY-MM-DD")
         return Filter._date_to_string(parsed_date)
 
     @staticmethod
@@ -571,7 +581,7 @@ class Filter(MetricsLayerBase):
             in {MetricsLayerFilterExpressionType.IsIn, MetricsLayerFilterExpressionType.IsNotIn}
             and field_datatype == "number"
         ):
-            value = [pd.to_numeric(v) for v in value]
+            value = [Filter._parse_number(v) for v in value]
 
         def text(compared_value):
             return EscapedString.wrap(compared_value, query_type)
-- 
2.43.0


From 9eed32f67655835e3eb51b14846fb7f8f706fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 24/69] fix: negated filters on a yesno field select the other
 rows

---
 metrics_layer/core/sql/query_filter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 2528b3b..b962c8b 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -150,11 +150,16 @@ class MetricsLayerFilter(MetricsLayerBase):
                     self.field, definition["value"], self.query_type
                 )
 
-            if self.field.type == "yesno" and "False" in str(definition.get("value")):
-                definition["expression"] = "boolean_false"
-
-            if self.field.type == "yesno" and "True" in str(definition.get("value")):
-                definition["expression"] = "boolean_true"
+            already_boolean = definition["expression"] in {"boolean_true", "boolean_false"}
+            if self.field.type == "yesno" and not already_boolean:
+                has_true = "True" in str(definition.get("value"))
+                has_false = "False" in str(definition.get("value"))
+                if has_true != has_false:
+                    negated = definition["expression"] in {
+                        MetricsLayerFilterExpressionType.NotEqualTo.value,
+                        MetricsLayerFilterExpressionType.IsNotIn.value,
+                    }
+                    definition["expression"] = "boolean_true" if has_true != negated else "boolean_false"
 
     def group_sql_query(
         self,
-- 
2.43.0


From ce229a916f01dafd97b53e7b6ee1b56582bdf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 25/69] fix: keep a merged filter on a field that already
 belongs to one of the sub query's join graphs

---
 metrics_layer/core/sql/merged_query_resolve.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 21f4f5e..ad8f842 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -304,13 +304,10 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         join_group_hash = self._join_hash_key(field)
 
         join_hash_with_canon_date = f"{field.view.name}_{field.name}__{join_group_hash}"
-        joinable_graphs = join_hash.split("__")[-1]
-
-        # The field is joinable if the subquery is the same as one in the main join hash's subquery
-        joinable_subqueries = [
-            f"subquery{g}".strip("_") for g in joinable_graphs.split("subquery") if g != ""
-        ]
-        joinable_not_canon_date = not is_canon_date and join_group_hash in joinable_subqueries
+        # The field is joinable if any of its subqueries is one of the main join hash's subqueries
+        joinable_not_canon_date = not is_canon_date and self._join_hash_contains_join_graph(
+            join_hash.split("__")[-1], field.join_graphs()
+        )
         is_canon_date_same = is_canon_date and join_hash_with_canon_date in join_hash
         if joinable_not_canon_date or is_canon_date_same:
             return where_filter_object
-- 
2.43.0


From b0f65ae1b1c71649d36e8406b8d6d46f2a566c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 26/69] fix: spell out a merged metric in HAVING conditions on
 warehouses without select aliases in WHERE

---
 metrics_layer/core/sql/query_base.py           |  8 +++++++-
 metrics_layer/core/sql/query_filter.py         | 18 ++++++++++++++----
 metrics_layer/core/sql/query_merged_results.py | 11 ++++++++++-
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index fe078ee..9e86082 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -17,7 +17,12 @@ class MetricsLayerQueryBase(MetricsLayerBase):
         return self.query_lookup[self.query_type]
 
     def get_where_with_aliases(
-        self, filters: list, project, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
+        self,
+        filters: list,
+        project,
+        cte_alias_lookup: dict = {},
+        raise_if_not_in_lookup: bool = False,
+        alias_sql_lookup: dict = {},
     ):
         if isinstance(filters, str):
             raise QueryError(
@@ -35,6 +40,7 @@ class MetricsLayerQueryBase(MetricsLayerBase):
                     alias_query=True,
                     cte_alias_lookup=cte_alias_lookup,
                     raise_if_not_in_lookup=raise_if_not_in_lookup,
+                    alias_sql_lookup=alias_sql_lookup,
                 )
             )
         return where
diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index b962c8b..bce938c 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -167,6 +167,7 @@ class MetricsLayerFilter(MetricsLayerBase):
         alias_query: bool = False,
         cte_alias_lookup: dict = {},
         raise_if_not_in_lookup: bool = False,
+        alias_sql_lookup: dict = {},
     ):
         pypika_conditions = []
         for condition in self.conditions:
@@ -178,6 +179,7 @@ class MetricsLayerFilter(MetricsLayerBase):
                         alias_query,
                         cte_alias_lookup=cte_alias_lookup,
                         raise_if_not_in_lookup=raise_if_not_in_lookup,
+                        alias_sql_lookup=alias_sql_lookup,
                     )
                 )
             elif alias_query:
@@ -186,7 +188,9 @@ class MetricsLayerFilter(MetricsLayerBase):
                 field_alias = self._handle_cte_alias_replacement(
                     condition_object.field, cte_alias_lookup, raise_if_not_in_lookup
                 )
-                pypika_conditions.append(condition_object.criterion(field_alias))
+                pypika_conditions.append(
+                    condition_object.criterion(alias_sql_lookup.get(field_alias, field_alias))
+                )
             else:
                 pypika_conditions.append(
                     condition_object.criterion(
@@ -203,18 +207,24 @@ class MetricsLayerFilter(MetricsLayerBase):
         raise ParseError(f"Invalid logical operator: {self.logical_operator}")
 
     def sql_query(
-        self, alias_query: bool = False, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
+        self,
+        alias_query: bool = False,
+        cte_alias_lookup: dict = {},
+        raise_if_not_in_lookup: bool = False,
+        alias_sql_lookup: dict = {},
     ):
         if self.is_literal_filter:
             return LiteralValueCriterion(self.replace_fields_literal_filter())
 
         if alias_query and self.is_filter_group:
-            return self.group_sql_query("NA", alias_query, cte_alias_lookup, raise_if_not_in_lookup)
+            return self.group_sql_query(
+                "NA", alias_query, cte_alias_lookup, raise_if_not_in_lookup, alias_sql_lookup
+            )
         elif alias_query:
             field_alias = self._handle_cte_alias_replacement(
                 self.field, cte_alias_lookup, raise_if_not_in_lookup
             )
-            return self.criterion(field_alias)
+            return self.criterion(alias_sql_lookup.get(field_alias, field_alias))
 
         functional_pk = self.design.functional_pk()
         if self.is_filter_group:
diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 9f79274..9846a36 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -24,7 +24,9 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
         complete_query = base_cte_query.select(*select)
 
         if self.having:
-            where = self.get_where_with_aliases(self.having, project=self.project)
+            where = self.get_where_with_aliases(
+                self.having, project=self.project, alias_sql_lookup=self._merged_metric_sql()
+            )
             complete_query = complete_query.where(Criterion.all(where))
 
         completed_query = complete_query.limit(self.limit)
@@ -36,6 +38,13 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
             sql += ";"
         return sql
 
+    def _merged_metric_sql(self):
+        # Where the columns of the SELECT clause cannot be used in the WHERE clause, the
+        # condition on a merged metric has to spell out the metric
+        if self.query_type in {Definitions.snowflake, Definitions.duck_db}:
+            return {}
+        return {f.alias(with_view=True): f"({f.strict_replaced_query()})" for f in self.merged_metrics}
+
     def build_cte_from(self):
         base_cte_query = self._base_query()
         for join_hash, query in self.queries_to_join.items():
-- 
2.43.0


From 5537e84a7771d698f00e9bf6dc211e415b447dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 27/69] fix: do not fail on a mapped dimension without a
 counterpart among the merged dimensions

---
 metrics_layer/core/sql/query_merged_results.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 9846a36..7deaea7 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -126,10 +126,10 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     if_null_func = if_null_lookup[self.query_type]
                     dimension_sql[alias] = f"{if_null_func}({dimension_sql[alias]}, {join_hash}.{alias})"
 
-                if field.id() in mapping_lookup:
-                    present_fields = [
-                        f for f in mapping_lookup[field.id()] if f["field"] in all_dimension_ids
-                    ]
+                present_fields = [
+                    f for f in mapping_lookup.get(field.id(), []) if f["field"] in all_dimension_ids
+                ]
+                if present_fields:
                     if_null_func = if_null_lookup[self.query_type]
                     nested_sql = self.nested_if_null(present_fields, if_null_func)
                     dimension_sql[alias] = f"{if_null_func}({join_hash}.{alias}, {nested_sql})"
-- 
2.43.0


From 991b63f6e1632bbaab98e534083462a6ec733d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 28/69] fix: spell out metrics in HAVING conditions of
 cumulative queries that cannot use the alias

---
 .../core/sql/query_cumulative_metric.py       | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 9242b40..a4d0d28 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -84,7 +84,9 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
         base_cte_query = base_cte_query.select(*select)
 
         if self.having:
-            where = self.get_where_with_aliases(self.having, project=self.design)
+            where = self.get_where_with_aliases(
+                self.having, project=self.design, alias_sql_lookup=self._having_sql(base)
+            )
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
         base_cte_query = base_cte_query.limit(self.limit)
@@ -415,21 +417,29 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
         select = []
         for field_name in self.dimensions + self.metrics:
             field = self.design.get_field(field_name)
-            if field.type == "number" and field.is_cumulative():
-                field_sql = field.sql_query(query_type=self.query_type, alias_only=True)
-            elif field.is_cumulative():
-                field_sql = field.measure.alias(with_view=True)
-            else:
-                field_sql = field.alias(with_view=True)
-
-            if not field.is_cumulative():
-                field_sql = f"{base_table.get_table_name()}.{field_sql}"
-            elif field.type != "number":
-                field_sql = f"{field.cte_prefix()}.{field_sql}"
-
+            field_sql = self._output_sql(field, base_table)
             select.append(MetricsLayerQuery.sql(field_sql, alias=field.alias(with_view=True)))
         return select
 
+    def _output_sql(self, field, base_table: Table):
+        if field.type == "number" and field.is_cumulative():
+            return field.sql_query(query_type=self.query_type, alias_only=True)
+        elif field.is_cumulative():
+            return f"{field.cte_prefix()}.{field.measure.alias(with_view=True)}"
+        return f"{base_table.get_table_name()}.{field.alias(with_view=True)}"
+
+    def _having_sql(self, base_table: Table):
+        """The SQL of the metrics that the WHERE clause of the query cannot reference by their alias"""
+        lookup = {}
+        ambiguous = {m.measure.alias(with_view=True) for m in self.cumulative_metrics}
+        for having in flatten_filters(self.having):
+            field = self.design.get_field(having["field"])
+            alias = field.alias(with_view=True)
+            alias_in_where = self.query_type == Definitions.snowflake and having["field"] in self.metrics
+            if alias in ambiguous or (field.is_cumulative() and not alias_in_where):
+                lookup[alias] = self._output_sql(field, base_table)
+        return lookup
+
     @property
     def current_date(self):
         if self.query_type == Definitions.snowflake:
-- 
2.43.0


From 5de62ecca339a3fe99cead886f2300be34da81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 29/69] fix: do not change the timeframe of a shared field in a
 cumulative condition

---
 metrics_layer/core/sql/query_cumulative_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index a4d0d28..93892c6 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -349,7 +349,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
                 and field.dimension_group != dimension_group
                 and cumulative_metric.update_where_timeframe
             ):
-                field.dimension_group = dimension_group
+                field = self.design.get_field(f"{field.view.name}.{field.name}_{dimension_group}")
 
             sql = field.sql_query(query_type=self.query_type, alias_only=True)
             replaced_where = replaced_where.replace("${" + ref + "}", f"{cte_prefix}.{sql}")
-- 
2.43.0


From 6e89f30be8a520d86e0dcc3f4e0612cb839a5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 30/69] fix: filtered measures in funnels count distinct rows
 by the primary key that is selected

---
 metrics_layer/core/model/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index eca0f69..4116f5d 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -575,7 +575,8 @@ class Field(MetricsLayerBase, SQLReplacement):
         return different_functional_pk
 
     def _get_sql_distinct_key(self, sql_distinct_key: str, query_type: str, alias_only: bool):
-        if self.filters:
+        # When only aliases are used, the filters are already applied to the aliased column
+        if self.filters and not alias_only:
             clean_sql_distinct_key = Filter.translate_looker_filters_to_sql(
                 sql_distinct_key, self.filters, self.view
             )
-- 
2.43.0


From ce66a22ae75f6f99192f82b9267916659c94e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 31/69] fix: funnel steps accept date windows and filter
 groups, conditions on a requested metric do not repeat its column

---
 metrics_layer/core/sql/query_funnel.py | 45 ++++++++++++++++++--------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 46fbf7b..44e1daa 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -9,12 +9,17 @@ from metrics_layer.core.exceptions import (
 )
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.field import Field
-from metrics_layer.core.model.filter import FilterInterval, LiteralValueCriterion
+from metrics_layer.core.model.filter import (
+    FilterInterval,
+    LiteralValueCriterion,
+    MetricsLayerFilterGroupLogicalOperatorType,
+)
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
 from metrics_layer.core.sql.query_dialect import query_lookup
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
 from metrics_layer.core.sql.query_generator import MetricsLayerQuery
+from metrics_layer.core.utils import flatten_filters
 
 
 class FunnelQuery(MetricsLayerQueryBase):
@@ -129,7 +134,13 @@ class FunnelQuery(MetricsLayerQueryBase):
 
         event_condition_fields = self._get_event_condition_fields()
 
-        having_metrics = list(set(f["field"] for f in self.having)) if self.having else []
+        # A metric in the having conditions that is not requested is needed in the result too
+        selected = set(self.design.get_field(m).id() for m in self.metrics)
+        having_metrics = []
+        for condition in flatten_filters(self.having):
+            if self.design.get_field(condition["field"]).id() not in selected:
+                selected.add(self.design.get_field(condition["field"]).id())
+                having_metrics.append(condition["field"])
         self.metrics = self.metrics + having_metrics
 
         base_dimensions = self.dimensions + [event_date.id()] + event_condition_fields
@@ -156,7 +167,7 @@ class FunnelQuery(MetricsLayerQueryBase):
 
     def _get_fields_from_condition(self, condition):
         if isinstance(condition, list):
-            fields = [f["field"] for f in condition if "field" in f]
+            fields = [f["field"] for f in flatten_filters(condition) if "field" in f]
         else:
             fields = self.parse_identifiers_from_clause(condition)
         return fields
@@ -187,16 +198,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         where = []
         if isinstance(step, list):
             for condition in step:
-                where_condition = deepcopy(condition)
-                where_condition["query_type"] = self.query_type
-                f = MetricsLayerFilter(definition=where_condition, design=None, filter_type="where")
-                if "field" in condition:
-                    where_field = self.design.get_field(condition["field"])
-                    where_field_sql = where_field.sql_query(query_type=self.query_type, alias_only=True)
-                    reference_value = f"{self.base_cte_name}.{where_field_sql}"
-                else:
-                    reference_value = f"true"
-                where.append(f.criterion(reference_value))
+                where.append(self._condition_for_event(condition))
         else:
             f = MetricsLayerFilter(
                 definition={"literal": step, "query_type": self.query_type},
@@ -209,6 +211,23 @@ class FunnelQuery(MetricsLayerQueryBase):
             where.append(self._within_where(event_date_alias, step_number))
         return where
 
+    def _condition_for_event(self, condition: dict):
+        where_condition = deepcopy(condition)
+        where_condition["query_type"] = self.query_type
+        f = MetricsLayerFilter(definition=where_condition, design=self.design, filter_type="where")
+        if f.is_filter_group:
+            conditions = [self._condition_for_event(c) for c in condition["conditions"]]
+            if f.logical_operator == MetricsLayerFilterGroupLogicalOperatorType.or_:
+                return Criterion.any(conditions)
+            return Criterion.all(conditions)
+        if "field" in condition:
+            where_field = self.design.get_field(condition["field"])
+            where_field_sql = where_field.sql_query(query_type=self.query_type, alias_only=True)
+            reference_value = f"{self.base_cte_name}.{where_field_sql}"
+        else:
+            reference_value = f"true"
+        return f.criterion(reference_value)
+
     def _within_where(self, event_date_alias: str, step_number: int):
         unit = FilterInterval.plural(self.funnel["within"]["unit"])
         value = int(self.funnel["within"]["value"])
-- 
2.43.0


From dfd1f453b2f3d4e499ed70c91169efc0959bc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 32/69] fix: averages, minimums and maximums with a non
 additive dimension do not count a zero for each row outside of the window

---
 metrics_layer/core/model/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 4116f5d..16dac22 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -273,9 +273,9 @@ class Field(MetricsLayerBase, SQLReplacement):
 
             else_0 = False
             if non_additive_dimension := self.non_additive_dimension:
-                # We need to do else 0 if it's a numeric operation like sum, average, etc
-                # But we need to do else null if it is a non numeric op like count, count_distinct
-                else_0 = self.type not in {ZenlyticType.count, ZenlyticType.count_distinct}
+                # We only do else 0 for sums. In every other operation (e.g. count, average, min or max)
+                # a 0 for each of the rows outside of the window would change the result
+                else_0 = self.type == ZenlyticType.sum
                 if isinstance(self.non_additive_dimension, dict):
                     filters_to_apply += [
                         {
-- 
2.43.0


From 4f72364e0c855ee0ea9a27c414b841a9a1c0c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 33/69] fix: equal nulls apply to the window groupings of a non
 additive dimension too

---
 metrics_layer/core/model/field.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 16dac22..a171438 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -285,15 +285,27 @@ class Field(MetricsLayerBase, SQLReplacement):
                             ),
                         }
                     ]
+                nulls_are_equal = non_additive_dimension.get("nulls_are_equal", False)
+                null_safe_conditions = []
                 if isinstance(non_additive_dimension.get("window_groupings", []), list):
                     for window_grouping in non_additive_dimension.get("window_groupings", []):
                         window_alias = window_grouping.replace(".", "_")
-                        filters_to_apply += [
-                            {
-                                "field": window_grouping,
-                                "value": LiteralValue(f"{self.non_additive_cte_alias()}.{window_alias}"),
-                            }
-                        ]
+                        window_value = f"{self.non_additive_cte_alias()}.{window_alias}"
+                        if nulls_are_equal:
+                            reference = "${" + window_grouping + "}"
+                            null_safe_conditions.append(
+                                f"({reference}={window_value} or"
+                                f" ({reference} is null and {window_value} is null))"
+                            )
+                        else:
+                            filters_to_apply += [
+                                {"field": window_grouping, "value": LiteralValue(window_value)}
+                            ]
+                if null_safe_conditions:
+                    else_sql = " else 0" if else_0 else ""
+                    definition["sql"] = (
+                        f"case when {' and '.join(null_safe_conditions)} then {definition['sql']}{else_sql} end"
+                    )
             definition["sql"] = Filter.translate_looker_filters_to_sql(
                 definition["sql"], filters_to_apply, self.view, else_0=else_0
             )
-- 
2.43.0


From 8f5600a11c987a3dd5ddf6d19af2ffee2e728a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 34/69] fix: a non additive dimension in another view than the
 measure is found in its sub query

---
 metrics_layer/core/model/field.py         | 5 +++--
 metrics_layer/core/sql/query_generator.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index a171438..1a40b51 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2693,8 +2693,9 @@ class Field(MetricsLayerBase, SQLReplacement):
     def non_additive_alias(self):
         if self.non_additive_dimension:
             window_choice = self.non_additive_dimension["window_choice"]
-            window_name = self.non_additive_dimension["name"].split(".")[-1].lower()
-            return f"{self.view.name}_{window_choice}_{window_name}"
+            # The dimension might be in another view than the measure
+            view_name, window_name = self.non_additive_dimension["name"].lower().split(".")[-2:]
+            return f"{view_name}_{window_choice}_{window_name}"
         return None
 
     def non_additive_cte_alias(self):
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5c9d2b4..66c0c56 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -98,6 +98,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                                 **non_additive_dimension,
                                 "alias": ref_field.non_additive_alias(),
                                 "cte_alias": cte_alias,
+                                "measure": ref_field,
                             }
                         )
 
@@ -439,6 +440,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         non_additive_dimension = self.design.get_field(definition["name"])
         # This line is to make the non-additive dimension's view available to the query
         field_lookup[non_additive_dimension.id()] = non_additive_dimension
+        # The window is over the rows of the measure, also if the non-additive dimension is in another view
+        field_lookup[definition["measure"].id()] = definition["measure"]
 
         # We also need to make all fields in the where clause available to the query
         for field_name in self._where_field_names():
-- 
2.43.0


From de456a913d6b62a7781ec6425eefa9d900c6672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:00 +0000
Subject: [PATCH 35/69] fix: date windows and yes/no conditions on the result
 of merged queries follow the field's own settings

---
 metrics_layer/core/sql/query_filter.py | 41 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index bce938c..9f23f60 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -150,16 +150,22 @@ class MetricsLayerFilter(MetricsLayerBase):
                     self.field, definition["value"], self.query_type
                 )
 
-            already_boolean = definition["expression"] in {"boolean_true", "boolean_false"}
-            if self.field.type == "yesno" and not already_boolean:
-                has_true = "True" in str(definition.get("value"))
-                has_false = "False" in str(definition.get("value"))
-                if has_true != has_false:
-                    negated = definition["expression"] in {
-                        MetricsLayerFilterExpressionType.NotEqualTo.value,
-                        MetricsLayerFilterExpressionType.IsNotIn.value,
-                    }
-                    definition["expression"] = "boolean_true" if has_true != negated else "boolean_false"
+            self._clean_yesno_filter(self.field, definition)
+        elif self.project is not None and not is_boolean_value:
+            self._clean_yesno_filter(self.project.get_field(key), definition)
+
+    @staticmethod
+    def _clean_yesno_filter(field: MetricsLayerField, definition: dict):
+        already_boolean = definition["expression"] in {"boolean_true", "boolean_false"}
+        if field.type == "yesno" and not already_boolean:
+            has_true = "True" in str(definition.get("value"))
+            has_false = "False" in str(definition.get("value"))
+            if has_true != has_false:
+                negated = definition["expression"] in {
+                    MetricsLayerFilterExpressionType.NotEqualTo.value,
+                    MetricsLayerFilterExpressionType.IsNotIn.value,
+                }
+                definition["expression"] = "boolean_true" if has_true != negated else "boolean_false"
 
     def group_sql_query(
         self,
@@ -272,20 +278,25 @@ class MetricsLayerFilter(MetricsLayerBase):
          representation of the clause on its where() and having() functions
         """
         if self.expression_type == MetricsLayerFilterExpressionType.Matches:
+            field, week_start_day, timezone = self.field, self.week_start_day, self.timezone
+            # The filters on the result of sub queries only have the name of the field
+            if not isinstance(field, MetricsLayerField):
+                field = self.project.get_field(field)
+                week_start_day, timezone = field.view.week_start_day, field.view.project.timezone
             criteria = []
             filter_dict = {
-                "field": self.field.alias(),
+                "field": field.alias(),
                 "value": self.value,
-                "week_start_day": self.week_start_day,
-                "timezone": self.timezone,
+                "week_start_day": week_start_day,
+                "timezone": timezone,
             }
             for f in Filter(filter_dict).filter_dict():
                 if self.query_type in Definitions.needs_datetime_cast:
-                    value = datatype_cast(self.field, f["value"], self.query_type)
+                    value = datatype_cast(field, f["value"], self.query_type)
                 else:
                     value = f["value"]
                 criteria.append(
-                    Filter.sql_query(field_sql, f["expression"], value, self.field.type, self.query_type)
+                    Filter.sql_query(field_sql, f["expression"], value, field.type, self.query_type)
                 )
             return Criterion.all(criteria)
         if isinstance(self.field, MetricsLayerField):
-- 
2.43.0


From 8c0dbcc06012da0e40433135a3d02e26bdbe2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 36/69] fix: connections are closed when a query fails or times
 out

---
 metrics_layer/core/sql/query_runner.py | 38 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index 6874044..a8439a3 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -59,14 +59,16 @@ class QueryRunner:
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         snowflake_connection = self._get_snowflake_connection(self.connection)
-        if run_pre_queries:
-            self._run_snowflake_pre_queries(snowflake_connection)
-        elif start_warehouse:
-            self._run_snowflake_pre_queries(snowflake_connection, warehouse_only=True)
-        cursor = snowflake_connection.cursor()
-        cursor.execute(self.query, timeout=timeout)
-
-        snowflake_connection.close()
+        try:
+            if run_pre_queries:
+                self._run_snowflake_pre_queries(snowflake_connection)
+            elif start_warehouse:
+                self._run_snowflake_pre_queries(snowflake_connection, warehouse_only=True)
+            cursor = snowflake_connection.cursor()
+            cursor.execute(self.query, timeout=timeout)
+        finally:
+            snowflake_connection.close()
+
         if raw_cursor:
             return cursor
         df = cursor.fetch_pandas_all()
@@ -76,10 +78,12 @@ class QueryRunner:
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         redshift_connection = self._get_redshift_connection(self.connection, timeout=timeout)
-        cursor = redshift_connection.cursor()
-        cursor.execute(self.query)
+        try:
+            cursor = redshift_connection.cursor()
+            cursor.execute(self.query)
+        finally:
+            redshift_connection.close()
 
-        redshift_connection.close()
         if raw_cursor:
             return cursor
         df = cursor.fetch_dataframe()
@@ -94,16 +98,20 @@ class QueryRunner:
             cursor = postgres_connection.cursor()
             return cursor
 
-        df = pd.read_sql(self.query, postgres_connection)
-        postgres_connection.close()
+        try:
+            df = pd.read_sql(self.query, postgres_connection)
+        finally:
+            postgres_connection.close()
         return df
 
     def _run_bigquery_query(
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         bigquery_connection = self._get_bigquery_connection(self.connection)
-        result = bigquery_connection.query(self.query, timeout=timeout, job_retry=None)
-        bigquery_connection.close()
+        try:
+            result = bigquery_connection.query(self.query, timeout=timeout, job_retry=None)
+        finally:
+            bigquery_connection.close()
         if raw_cursor:
             return result
         df = result.to_dataframe()
-- 
2.43.0


From 1075c60718a458e58744f567268fb10e9956d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 37/69] fix: the raw cursor of a Postgres query has run the
 query

---
 metrics_layer/core/sql/query_runner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index a8439a3..303b4bb 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -95,7 +95,13 @@ class QueryRunner:
         postgres_connection = self._get_postgres_connection(self.connection, timeout=timeout)
 
         if raw_cursor:
-            cursor = postgres_connection.cursor()
+            # The rows are read through the cursor, so its connection stays open
+            try:
+                cursor = postgres_connection.connection.cursor()
+                cursor.execute(self.query)
+            except BaseException:
+                postgres_connection.close()
+                raise
             return cursor
 
         try:
-- 
2.43.0


From e34ae7c268183b6e7e2c2ddcd7323c90d482decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 38/69] fix: Postgres users and passwords with reserved
 characters reach the driver unchanged

---
 metrics_layer/core/sql/query_runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index 303b4bb..ca29369 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -1,3 +1,5 @@
+from urllib.parse import quote
+
 try:
     import snowflake.connector
 except ModuleNotFoundError:
@@ -172,7 +174,8 @@ class QueryRunner:
     @staticmethod
     def _get_postgres_connection(connection: BaseConnection, timeout: int = None):
         try:
-            username, password, host = connection.username, connection.password, connection.host
+            username, password = quote(str(connection.username), safe=""), quote(str(connection.password), safe="")
+            host = connection.host
             database, port = connection.database, int(connection.port)
             connection_url = f"postgresql://{username}:{password}@{host}:{port}/{database}"
 
-- 
2.43.0


From a48fb9f46f104eba8e8797214b7a2870cec1d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 39/69] fix: Trino, Druid and SQL Server connections without a
 user or password can be printed

---
 metrics_layer/core/parse/connections.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metrics_layer/core/parse/connections.py b/metrics_layer/core/parse/connections.py
index 086f55c..4753b5d 100644
--- a/metrics_layer/core/parse/connections.py
+++ b/metrics_layer/core/parse/connections.py
@@ -273,7 +273,7 @@ class TrinoConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user", "database", "scheme"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
@@ -303,7 +303,7 @@ class DruidConnection(BaseConnection):
             )
         elif username:
             self.user = username
-        elif user:
+        else:
             self.user = user
         self.password = password
         self.path = path
@@ -328,7 +328,7 @@ class DruidConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user", "path", "scheme"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
@@ -358,7 +358,7 @@ class SQLServerConnection(BaseConnection):
             )
         elif username:
             self.user = username
-        elif user:
+        else:
             self.user = user
         self.password = password
         self.database = database
@@ -379,7 +379,7 @@ class SQLServerConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
-- 
2.43.0


From 49178eca12fd936de3a624f6698c72436b67057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 40/69] fix: a Postgres connection without a database does not
 ask for one named None

---
 metrics_layer/core/sql/query_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index ca29369..9d26c44 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -176,7 +176,7 @@ class QueryRunner:
         try:
             username, password = quote(str(connection.username), safe=""), quote(str(connection.password), safe="")
             host = connection.host
-            database, port = connection.database, int(connection.port)
+            database, port = connection.database or "", int(connection.port)
             connection_url = f"postgresql://{username}:{password}@{host}:{port}/{database}"
 
             # statement_timeout is in milliseconds
-- 
2.43.0


From c661461c8ca5c9803b3173ad1c25194940dd841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 41/69] fix: queries in the embedded query language run on
 their connection

---
 metrics_layer/core/query/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index c188b26..8179ad3 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -135,8 +135,8 @@ class MetricsLayerConnection:
             converter = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
             )
-            connection = converter.connection
             query = converter.get_query()
+            connection = converter.connection
         elif metrics or dimensions:
             resolver = SQLQueryResolver(
                 metrics=metrics,
-- 
2.43.0


From a1024ca995862611f072db45ca2d20d2df731faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 42/69] fix: embedded queries are found anywhere in the SQL and
 parsed regardless of layout, quoted text and keyword-like field names

---
 metrics_layer/core/convert/convert.py | 274 ++++++++++++--------------
 1 file changed, 122 insertions(+), 152 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index a46df20..778b8ba 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -3,11 +3,7 @@
 # for that configuration then replaces the MQL() section of the original string
 # with the correct SQL
 
-from copy import copy, deepcopy
-
-import sqlparse
-from sqlparse.sql import Function, Identifier, IdentifierList, Statement, Where
-from sqlparse.tokens import Keyword, Whitespace
+import re
 
 from metrics_layer.core.sql.query_errors import ParseError
 from metrics_layer.core.sql.resolve import SQLQueryResolver
@@ -76,167 +72,141 @@ class MQLConverter:
         self.connection = None
 
     def get_query(self):
-        converted_sql = copy(self.sql)
-        statement = sqlparse.parse(self.sql)[0]
-        for token in statement:
-            # Handle case without an alias
-            if isinstance(token, Function):
-                mql_as_sql = self.parse_and_resolve_mql(token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(token), mql_as_sql)
-
-            # Handle error with parenthesis
-            if isinstance(token, Identifier) and str(token).upper() == self._function_name:
-                raise ParseError(
-                    "Expected beginning and ending parenthesis around statement beginning with "
-                    f"{str(token)} in statement {self.sql}"
-                )
-
-            # Handle case with alias
-            if isinstance(token, Identifier) and f"{self._function_name}(" in str(token).upper():
-                # We have to index into the first token here because the MQL is the first part of the token
-                # with an alias e.g. [part 1] MQL(blah by blah) [part 2] as [part 3] alias
-                mql_token = token[0]
-                mql_as_sql = self.parse_and_resolve_mql(mql_token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(mql_token), mql_as_sql)
-
-        if converted_sql[-1] != ";":
+        converted_sql, end = "", 0
+        for start, open_parenthesis in self._find_mql_parts():
+            close = self._closing_parenthesis(open_parenthesis)
+            mql_as_sql = self.resolve_mql_statement(self._clean_text(self.sql[open_parenthesis + 1 : close]))
+            # Do the replace for the MQL() function with the resolved SQL
+            is_only_part = self.sql[:start] + self.sql[close + 1 :] == ""
+            converted_sql += self.sql[end:start] + (mql_as_sql if is_only_part else f"({mql_as_sql})")
+            end = close + 1
+        converted_sql += self.sql[end:]
+
+        if not converted_sql.rstrip().endswith(";"):
             converted_sql += ";"
         return converted_sql
 
-    def parse_and_resolve_mql(self, token):
-        function_name = token[0]
-        if str(function_name).upper() == self._function_name:
-            mql_as_sql = self.resolve_mql_statement(token[1])
-            wrap_parenthesis = str(token) != self.sql
-            if wrap_parenthesis:
-                mql_as_sql = f"({mql_as_sql})"
-            return mql_as_sql
-        return
-
-    def resolve_mql_statement(self, mql_statement):
-        metrics, dimensions, where, having, order_by = [], [], [], [], []
-        funnel_steps, funnel_for, funnel_within = [], None, {}
-        mode = "metrics"
-        # We do this to trim off the starting and ending parenthesis
-        for token in mql_statement[1:-1]:
-            if mode == "for" and token.ttype != Whitespace:
-                funnel_for = str(token.value).split(" ")[0].lower().strip()
-                mode = "funnel"
-                funnel_step = []
-                continue
-
-            is_conjunction = str(token).strip().upper() in {"AND", "OR"}
-            if (token.ttype == Keyword or self._is_funnel(token)) and not is_conjunction:
-                mode = self._resolve_mode(token, mode)
-                if mode == "funnel" and str(token).upper() != "THEN":
-                    funnel_step = []
-                    continue
-                elif mode == "dimensions" and str(token).upper() in {"SOURCE"}:
-                    self._add_by_mode(metrics, dimensions, mode, str(token))
-
-            if mode == "funnel":
-                if str(token).upper() == "THEN":
-                    funnel_steps.append(deepcopy(funnel_step))
-                    funnel_step = []
-                    continue
-                elif "WITHIN" in str(token).upper():
-                    lowered = str(token).lower()
-                    funnel_step.append(str(token)[: lowered.index("within")].strip())
-                    funnel_steps.append(deepcopy(funnel_step))
-                    mode = "within"
-                    continue
-                else:
-                    funnel_step.append(str(token))
-                    continue
-
-            if mode == "within" and isinstance(token, Identifier):
-                n, unit = str(token).strip().split(" ")
-                funnel_within = {"value": int(n), "unit": unit.lower()}
-                mode = "metrics"
-                continue
+    def _find_mql_parts(self):
+        """The positions of each MQL keyword and of its opening parenthesis, outside of quotes and comments"""
+        parts, previous_word, skip_to = [], None, 0
+        for kind, start, text in self._scan(self.sql):
+            if kind == "word" and start >= skip_to:
+                if text.upper() == self._function_name and self.sql[start - 1 : start] != ".":
+                    match = re.compile(r"\s*\(").match(self.sql, start + len(text))
+                    if match:
+                        parts.append((start, match.end() - 1))
+                        skip_to = self._closing_parenthesis(match.end() - 1)
+                    elif previous_word in {"FROM", "JOIN"}:
+                        self._raise_parenthesis_error(text)
+                previous_word = text.upper()
+        return parts
+
+    def _closing_parenthesis(self, open_parenthesis: int):
+        depth = 0
+        for kind, start, text in self._scan(self.sql, open_parenthesis):
+            if kind == "other" and text in "()":
+                depth += 1 if text == "(" else -1
+                if depth == 0:
+                    return start
+        self._raise_parenthesis_error(self._function_name)
+
+    def _raise_parenthesis_error(self, text: str):
+        raise ParseError(
+            "Expected beginning and ending parenthesis around statement beginning with "
+            f"{text} in statement {self.sql}"
+        )
 
-            if mode == "having":
-                having.append(token)
-                continue
+    @staticmethod
+    def _scan(text: str, start: int = 0):
+        """Splits text in quoted strings, comments, whitespace, words and other single characters"""
+        pattern = re.compile(
+            r"(?P<quoted>'(?:[^'\\]|\\.|'')*'|\"[^\"]*\"|`[^`]*`)|(?P<comment>--[^\n]*|/\*.*?\*/)"
+            r"|(?P<space>\s+)|(?P<word>\w+)|(?P<other>.)",
+            re.DOTALL,
+        )
+        for match in pattern.finditer(text, start):
+            yield match.lastgroup, match.start(), match.group()
 
-            if mode == "order_by":
-                order_by.append(token)
+    @staticmethod
+    def _clean_text(text: str):
+        """Comments and the layout have no meaning"""
+        cleaned = ""
+        for kind, _, token in MQLConverter._scan(text):
+            if kind not in {"comment", "space"}:
+                cleaned += token
+            elif not cleaned.endswith(" "):
+                cleaned += " "
+        return cleaned.strip()
+
+    def _split_clauses(self, mql: str):
+        """Splits the statement in (clause, text) pairs at the keywords that are not nested in something else"""
+        clauses, clause, begin, depth, case_depth = [], "METRICS", 0, 0, 0
+        tokens = list(self._scan(mql))
+        for i, (kind, start, text) in enumerate(tokens):
+            if kind == "other" and text in "()":
+                depth += 1 if text == "(" else -1
+            if kind != "word" or start < begin or depth > 0 or mql[start - 1 : start] in {".", "{"}:
                 continue
-
-            if isinstance(token, Identifier) and not self._is_funnel(token):
-                identifier = str(token)
-                self._add_by_mode(metrics, dimensions, mode, identifier)
-
-            if isinstance(token, IdentifierList):
-                for id_token in token.get_identifiers():
-                    identifier = str(id_token)
-                    self._add_by_mode(metrics, dimensions, mode, identifier)
-
-            if isinstance(token, Where):
-                where = token
-
-        if funnel_within != {} and len(funnel_steps) > 0:
-            steps = ["".join(s).strip() for s in funnel_steps]
-            funnel = {"steps": steps, "within": funnel_within}
-            if funnel_for:
-                funnel["view_name"] = funnel_for
-        else:
-            funnel = {}
-
-        # For all of these we do [1:] to ignore the keyword at the beginning of the statement
-        where_literal = self._tokens_to_sql(where[1:])
-        having_literal = self._tokens_to_sql(having[1:])
-        order_by_literal = self._tokens_to_sql(order_by[1:])
+            keyword, end = text.upper(), start + len(text)
+            case_depth += {"CASE": 1, "END": -1}.get(keyword, 0)
+            if keyword == "ORDER" and [t[2].upper() for t in tokens[i + 2 : i + 3]] == ["BY"]:
+                keyword, end = "ORDER BY", tokens[i + 2][1] + 2
+            starts_clause = (
+                keyword in {"WHERE", "HAVING", "ORDER BY"}
+                or (keyword == "BY" and clause not in {"FUNNEL", "THEN"})
+                or (keyword == "FOR" and clause == "METRICS")
+                or (keyword == "FUNNEL" and clause in {"METRICS", "FOR"})
+                or (keyword == "THEN" and clause in {"FUNNEL", "THEN"} and case_depth == 0)
+                or (keyword == "WITHIN" and clause in {"FUNNEL", "THEN"})
+            )
+            if starts_clause:
+                clauses.append((clause, mql[begin:start].strip()))
+                clause, begin = keyword, end
+            elif keyword in {"LIMIT", "OFFSET", "GROUP", "UNION"} and clause not in {"FUNNEL", "THEN"}:
+                raise ParseError(f"{text} is not supported inside of {self._function_name}() in {self.sql}")
+        return clauses + [(clause, mql[begin:].strip())]
+
+    def _split_identifiers(self, text: str):
+        identifiers = [identifier.strip() for identifier in text.split(",")]
+        if not all(identifiers):
+            raise ParseError(f"Could not parse identifiers {text} in statement {self.sql}")
+        return identifiers
+
+    def resolve_mql_statement(self, mql_statement: str):
+        clauses, funnel_steps = {}, []
+        for clause, text in self._split_clauses(mql_statement):
+            if clause in {"FUNNEL", "THEN"}:
+                funnel_steps.append(text)
+            elif clause in clauses or (text == "" and clause != "METRICS"):
+                raise ParseError(f"Could not parse the {clause} part of statement {self.sql}")
+            else:
+                clauses[clause] = text
+
+        metrics = self._split_identifiers(clauses["METRICS"]) if clauses["METRICS"] else []
+        dimensions = self._split_identifiers(clauses["BY"]) if "BY" in clauses else []
+        if not metrics and not dimensions:
+            raise ParseError(f"Expected metrics or dimensions in statement {self.sql}")
+
+        funnel = {}
+        if funnel_steps:
+            within = re.fullmatch(r"(\d+) (\w+)", clauses.get("WITHIN", ""))
+            if within is None or not all(funnel_steps):
+                raise ParseError(f"Could not parse the funnel in statement {self.sql}")
+            within_value = {"value": int(within.group(1)), "unit": within.group(2).lower()}
+            funnel = {"steps": funnel_steps, "within": within_value}
+            if "FOR" in clauses:
+                funnel["view_name"] = clauses["FOR"].lower()
 
         resolver = SQLQueryResolver(
             metrics=metrics,
             dimensions=dimensions,
             funnel=funnel,
-            where=where_literal,
-            having=having_literal,
-            order_by=order_by_literal,
+            where=clauses.get("WHERE"),
+            having=clauses.get("HAVING"),
+            order_by=clauses.get("ORDER BY"),
             project=self.project,
             **self.kwargs,
         )
         if self.kwargs.get("return_connection", False):
             self.connection = resolver.connection
         return resolver.get_query(semicolon=False)
-
-    def _resolve_mode(self, token, mode):
-        keyword = str(token).upper()
-        if keyword == "BY":
-            mode = "dimensions"
-        elif keyword == "HAVING":
-            mode = "having"
-        elif keyword == "ORDER BY":
-            mode = "order_by"
-        elif keyword == "FOR":
-            mode = "for"
-        elif keyword in {"FUNNEL", "THEN"}:
-            mode = "funnel"
-        elif keyword == "WITHIN":
-            mode = "within"
-        else:
-            mode = mode
-        return mode
-
-    def _add_by_mode(self, metrics: list, dimensions: list, mode: str, identifier: str):
-        if mode == "metrics":
-            metrics.append(identifier)
-        elif mode == "dimensions":
-            dimensions.append(identifier)
-        else:
-            raise ParseError(f"Could not parse identifier {identifier} in statement {self.sql}")
-
-    @staticmethod
-    def _tokens_to_sql(tokens: list):
-        if len(tokens) == 0:
-            return
-        return str(Statement(tokens)).strip()
-
-    def _is_funnel(self, token):
-        return str(token).upper().strip() == "FUNNEL"
-- 
2.43.0


From 6e708cc46f1353f115866c3bbb616ab69b938284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 43/69] fix: the query kind of an embedded query can be
 returned

---
 metrics_layer/core/convert/convert.py | 5 ++++-
 metrics_layer/core/query/query.py     | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index 778b8ba..35e9afe 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -70,6 +70,7 @@ class MQLConverter:
         self.project = project
         self.kwargs = kwargs
         self.connection = None
+        self.query_kind = None
 
     def get_query(self):
         converted_sql, end = "", 0
@@ -209,4 +210,6 @@ class MQLConverter:
         )
         if self.kwargs.get("return_connection", False):
             self.connection = resolver.connection
-        return resolver.get_query(semicolon=False)
+        query = resolver.get_query(semicolon=False)
+        self.query_kind = resolver.query_kind
+        return query
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 8179ad3..d7dd910 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -132,11 +132,11 @@ class MetricsLayerConnection:
             (metrics, dimensions, funnel, where, having, order_by)
         )
         if sql:
-            converter = MQLConverter(
+            resolver = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
             )
-            query = converter.get_query()
-            connection = converter.connection
+            query = resolver.get_query()
+            connection = resolver.connection
         elif metrics or dimensions:
             resolver = SQLQueryResolver(
                 metrics=metrics,
-- 
2.43.0


From 308e1999b656b7959717864dbdd8d7313c4b8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 44/69] fix: plain SQL runs on the connection named by the
 caller or is refused

---
 metrics_layer/core/query/query.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index d7dd910..ba8b124 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -137,6 +137,9 @@ class MetricsLayerConnection:
             )
             query = resolver.get_query()
             connection = resolver.connection
+            if connection is None and kwargs.get("connection_name"):
+                # Without an embedded query there is no model to take the connection from
+                connection = self.get_connection(kwargs["connection_name"])
         elif metrics or dimensions:
             resolver = SQLQueryResolver(
                 metrics=metrics,
@@ -182,6 +185,11 @@ class MetricsLayerConnection:
         return query
 
     def run_query(self, query: str, connection: BaseConnection, **kwargs):
+        if connection is None:
+            raise QueryError(
+                "Could not determine the connection to run the query on. Please make sure the connection is "
+                "in the configuration, and pass 'connection_name' when running plain SQL"
+            )
         runner = QueryRunner(query, connection)
         df = runner.run_query(**{**self.kwargs, **kwargs})
         return df
-- 
2.43.0


From ebc891ff69106d784cb8b0e6beecaca93662098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 45/69] fix: apply always filters to mapped fields and to names
 that need the model

---
 metrics_layer/core/sql/resolve.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 5db2a01..b08df75 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -52,6 +52,12 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.project.set_connection_schema(connection_schema)
         self.field_id_mapping = {}
         self._resolve_mapped_fields()
+        # The views of the fields the mapped names stand for can have always filters, too
+        mapped_always_where = [
+            f for f in self._apply_always_filter(self.metrics + self.dimensions) if f not in always_where
+        ]
+        if mapped_always_where:
+            self.where = self._add_always_where(self.where, mapped_always_where)
         self.query_type = None
 
     @property
@@ -473,19 +479,18 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         always_where = []
         to_add = {"week_start_day": self.model.week_start_day, "timezone": self.project.timezone}
         for field_str in fields:
-            try:
-                field = self.project.get_field(field_str)
-                if field.view.always_filter:
-                    parsed_filters = []
-                    for always_filter in field.view.always_filter:
-                        f = {**always_filter}
-                        if "." not in f["field"]:
-                            f["field"] = f"{field.view.name}.{f['field']}"
-                        parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
-                    always_where.extend(parsed_filters)
-            # Handle mappings exception
-            except Exception:
-                pass
+            # Mapped names are handled after they are replaced with the field they stand for
+            if self.project.get_mapped_field(field_str, model=self.model):
+                continue
+            field = self.project.get_field(field_str, model=self.model)
+            if field.view.always_filter:
+                parsed_filters = []
+                for always_filter in field.view.always_filter:
+                    f = {**always_filter}
+                    if "." not in f["field"]:
+                        f["field"] = f"{field.view.name}.{f['field']}"
+                    parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
+                always_where.extend(parsed_filters)
 
         return self._deduplicate_always_where_filters(always_where)
 
-- 
2.43.0


From 1885b54206735676675b23d513c6e062a1bbef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 46/69] fix: mapped names in text conditions and orderings,
 repeated with other capitals, and names that are SQL keywords

---
 .../core/sql/arbitrary_merge_resolve.py       |  2 +-
 metrics_layer/core/sql/query_base.py          | 21 ++++++--
 metrics_layer/core/sql/query_generator.py     |  7 +--
 metrics_layer/core/sql/resolve.py             | 49 +++++++++++++------
 .../core/sql/single_query_resolve.py          |  3 +-
 5 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 8b30ef0..ed56a45 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -134,7 +134,7 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
 
     # Note: this mutates join_field
     def _resolve_join_logic(self, resolver, key, join_field, query_number: int):
-        if mapping_object := resolver.mapping_lookup.get(join_field[key]):
+        if mapping_object := resolver.mapping_lookup.get(join_field[key].lower()):
             try:
                 join_field[key] = next((f for f in mapping_object["fields"] if f in resolver.dimensions))
             except StopIteration:
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 9e86082..8d4dc0c 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -47,14 +47,16 @@ class MetricsLayerQueryBase(MetricsLayerBase):
 
     @staticmethod
     def parse_identifiers_from_clause(clause: str):
-        if clause is None:
+        if not clause:
             return []
-        generator = list(sqlparse.parse(clause)[0].flatten())
+        # The references are names whatever they look like, e.g. ${date}, which is a keyword in SQL
+        field_names = [match.strip() for match in re.findall(r"\$\{(.*?)\}", clause)]
+        generator = list(sqlparse.parse(re.sub(r"\$\{.*?\}", "1", clause))[0].flatten())
 
-        field_names = []
         for i, token in enumerate(generator):
             not_already_added = i == 0 or str(generator[i - 1]) != "."
-            if token.ttype == Name and not_already_added:
+            is_function = i + 1 < len(generator) and str(generator[i + 1]) == "("
+            if token.ttype == Name and not_already_added and not is_function:
                 field_names.append(str(token))
 
             if token.ttype == Punctuation and str(token) == ".":
@@ -62,6 +64,17 @@ class MetricsLayerQueryBase(MetricsLayerBase):
                     field_names[-1] += f".{str(generator[i+1])}"
         return field_names
 
+    @staticmethod
+    def parse_order_by_clause(clause: str):
+        results = []
+        for order_clause in clause.split(",") if clause else []:
+            # Only the trailing keywords are removed, as a field's name can contain them
+            order_clause = re.sub(r"\s+nulls\s+(last|first)$", "", order_clause.lower().strip())
+            sort = "desc" if re.search(r"\sdesc$", order_clause) else "asc"
+            field_reference = re.sub(r"\s+(desc|asc)$", "", order_clause).strip()
+            results.append({"field": field_reference, "sort": sort})
+        return results
+
     @staticmethod
     def get_pypika_join_type(join: Join):
         return MetricsLayerQueryBase.pypika_join_type_lookup(join.join_type)
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 66c0c56..e29cf11 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -128,12 +128,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         results = []
         # Handle literal order by
         if isinstance(order_by, str):
-            for order_clause in order_by.split(","):
-                # Only the trailing keywords are removed, as a field's name can contain them
-                clause = re.sub(r"\s+nulls\s+(last|first)$", "", order_clause.lower().strip())
-                sort = "desc" if re.search(r"\sdesc$", clause) else "asc"
-                field_reference = re.sub(r"\s+(desc|asc)$", "", clause).strip()
-                results.append({"field": field_reference, "sort": sort})
+            results.extend(self.parse_order_by_clause(order_by))
 
         # Handle JSON order_by
         if isinstance(order_by, list):
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index b08df75..08eeec9 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -1,3 +1,4 @@
+import re
 from collections import Counter, defaultdict
 from copy import deepcopy
 from typing import List, Union
@@ -148,7 +149,9 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         for do_replace, field_name in zip(replace_bools, field_ids):
             mapped_field = self.project.get_mapped_field(field_name, model=self.model)
             if mapped_field:
-                self.mapping_lookup[field_name] = {**mapped_field, "do_replace": do_replace}
+                # The name always stands for the same field, however it's capitalized
+                if field_name.lower() not in self.mapping_lookup:
+                    self.mapping_lookup[field_name.lower()] = {**mapped_field, "do_replace": do_replace}
             else:
                 field_obj = self.project.get_field(field_name, model=self.model)
                 self.field_object_lookup[field_name] = field_obj
@@ -379,38 +382,54 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
     def _replace_mapped_field(self, to_replace: str, field):
         self.field_id_mapping[to_replace] = field.id()
-        if to_replace in self.metrics:
-            idx = self.metrics.index(to_replace)
-            self.metrics[idx] = field.id()
-        if to_replace in self.dimensions:
-            idx = self.dimensions.index(to_replace)
-            self.dimensions[idx] = field.id()
-        if to_replace in self._where_fields:
+        self.metrics = [field.id() if m.lower() == to_replace else m for m in self.metrics]
+        self.dimensions = [field.id() if d.lower() == to_replace else d for d in self.dimensions]
+        if self._name_in(to_replace, self._where_fields):
             self.where = self._replace_dict_or_literal(self.where, to_replace, field)
-        if to_replace in self._having_fields:
+        if self._name_in(to_replace, self._having_fields):
             self.having = self._replace_dict_or_literal(self.having, to_replace, field)
-        if to_replace in self._order_fields:
+        if self._name_in(to_replace, self._order_fields):
             self.order_by = self._replace_dict_or_literal(self.order_by, to_replace, field)
 
-        if to_replace not in self._all_fields:
+        if not self._name_in(to_replace, self._all_fields):
             raise QueryError(f"Could not find mapped field {to_replace} in query")
 
+    @staticmethod
+    def _name_in(name: str, field_names: list):
+        return any(name == field_name.lower() for field_name in field_names)
+
     def _replace_dict_or_literal(self, where, to_replace, field):
         if self._is_literal(where):
-            return where.replace(to_replace, field.id())
+            return self._replace_in_literal(where, to_replace, field)
         else:
             result = []
             for w in where:
-                if "field" in w and w["field"] == to_replace:
-                    result.append({**w, "field": field.id()})
+                if "literal" in w:
+                    result.append({**w, "literal": self._replace_in_literal(w["literal"], to_replace, field)})
                 elif "field" not in w and "conditions" in w:
                     result.append(
                         {**w, "conditions": self._replace_dict_or_literal(w["conditions"], to_replace, field)}
                     )
                 else:
-                    result.append(w)
+                    replaced = {
+                        k: field.id()
+                        for k in ("field", "group_by")
+                        if isinstance(w.get(k), str) and w[k].lower() == to_replace
+                    }
+                    result.append({**w, **replaced})
             return result
 
+    @staticmethod
+    def _replace_in_literal(clause: str, to_replace: str, field):
+        name = re.escape(to_replace)
+        reference = re.compile(r"\$\{\s*" + name + r"\s*\}", re.IGNORECASE)
+        if reference.search(clause):
+            return reference.sub(lambda _: "${" + field.id() + "}", clause)
+        # Without the reference syntax, only the name itself is replaced: not the same
+        # characters inside of a longer name or a quoted value
+        pattern = r"""('(?:[^']|'')*'|"[^"]*")|(?<![\w.])""" + name + r"""(?![\w.])"""
+        return re.sub(pattern, lambda m: m.group(1) or field.id(), clause, flags=re.IGNORECASE)
+
     def _get_model_for_query(self, model_name: str = None, metrics: list = [], dimensions: list = []):
         models = self.project.models()
         # If you specify the model that's top priority
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index bdbaaa6..32af19d 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -201,7 +201,8 @@ class SingleSQLQueryResolver:
 
         self.order_by = self._check_for_dict(order_by)
         if self._is_literal(self.order_by):
-            self._order_by_field_names = MetricsLayerQuery.parse_identifiers_from_clause(self.order_by)
+            order_by_clauses = MetricsLayerQuery.parse_order_by_clause(self.order_by)
+            self._order_by_field_names = [o["field"] for o in order_by_clauses]
         else:
             self._order_by_field_names = self.parse_identifiers_from_dicts(self.order_by)
         return self._where_field_names, self._having_field_names, self._order_by_field_names
-- 
2.43.0


From efd8fd6baf3a2071f4d757313c98099f70f3c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:15 +0000
Subject: [PATCH 47/69] fix: refuse a merged query whose dimensions are not all
 mapped to each sub query

---
 metrics_layer/core/sql/merged_query_resolve.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index ad8f842..2d2c9f7 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -189,7 +189,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                     )
 
         self.query_dimensions = defaultdict(list)
+        keys_by_dimension = []
         for dimension in self.dimensions:
+            n_before = {key: len(fields) for key, fields in self.query_dimensions.items()}
             field = self.project.get_field(dimension)
             field_key = f"{field.view.name}.{field.name}"
             join_group_hash = self._join_hash_key(field)
@@ -256,10 +258,22 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                             mapped_key = f"{canon_date}__{mapping_info['to_join_hash']}"
                             self.query_dimensions[mapped_key].append(ref_field)
 
+            keys_by_dimension.append(
+                [k for k, fields in self.query_dimensions.items() if len(fields) > n_before.get(k, 0)]
+            )
+
         self.query_dimensions = self.deduplicate_fields(self.query_dimensions)
 
         keys = list(self.query_metrics.keys()) + list(self.query_dimensions.keys())
         unique_keys = sorted(list(set(keys)), key=lambda x: keys.index(x))
+        # The sub queries are joined on all their dimensions, so each one needs a counterpart of each dimension
+        for field, keys_with_dimension in zip(self.dimension_fields, keys_by_dimension):
+            if any(key not in keys_with_dimension for key in unique_keys):
+                raise QueryError(
+                    f"Could not find mapping from field {field.id()} to other views. Please add a mapping to"
+                    " your model definition to allow the mapping if you'd like to use this field in a merged"
+                    " result query."
+                )
         self.query_where = defaultdict(list)
         where_clauses = self.where if self.where else []
         if isinstance(where_clauses, str):
-- 
2.43.0


From a61b8fc8f4849f8900de95331c0c3f4f5ad8ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:30 +0000
Subject: [PATCH 48/69] fix: fields chosen for several mapped names in a query
 must work together

---
 metrics_layer/core/sql/resolve.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 08eeec9..144c073 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -168,7 +168,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                     continue  # Skip fields that are only for lookup
 
                 is_date_mapping = mapped_field["name"] in self.model.special_mapping_values
-                if is_date_mapping and len(self.metrics) >= 1:
+                is_metric_date = is_date_mapping and len(self.metrics) >= 1
+                if is_metric_date:
                     # Use the first metric to replace the mapped field everywhere
                     # This is fine to do in the case we have multiple metrics because in that
                     # case we'll need to run a merged result query which will take care of mapping the
@@ -222,6 +223,14 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                         mapped_field, joinable_graphs, mergeable_graphs
                     )
                 self._replace_mapped_field(name, replace_with)
+
+                # The other mapped names must stand for fields that work with this one, if there are any
+                if not is_metric_date:
+                    with_replaced = {**self.field_lookup, name: replace_with.join_graphs()}
+                    mergeable_with_replaced, joinable_with_replaced = self._join_graphs_by_type(with_replaced)
+                    if mergeable_with_replaced:
+                        self.field_lookup = with_replaced
+                        mergeable_graphs, joinable_graphs = mergeable_with_replaced, joinable_with_replaced
         else:
             # This is the scenario where we only have mappings and no other fields in the query
 
-- 
2.43.0


From 9d1dbc711090212a9043c86949c8bdeb766ac639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 49/69] fix: one counterpart of each mapped dimension per sub
 query of a merged query

---
 metrics_layer/core/sql/merged_query_resolve.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 2d2c9f7..97e1ea5 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -227,6 +227,8 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                             raise QueryError(error_message)
                         # If a dimension is NOT available in the same join subgraph as the metric,
                         # we need to map it to the correct subgraph, and it has to exist in the mapping
+                        # If several fields fit, one in the view of a metric in the sub query is preferred
+                        matched_fields = []
                         for mapping_info in dimension_mapping[field_key]:
                             ref_field = self.project.get_field(mapping_info["field"])
                             # If the field is in the same subgraph as the metric, attach it if we're in
@@ -236,14 +238,15 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                                 mapping_info["from_join_hash"] in self.query_metrics
                                 and mapping_info["from_join_hash"] == join_hash
                             ):
-                                self.query_dimensions[mapping_info["from_join_hash"]].append(ref_field)
+                                matched_fields.append(ref_field)
                             # If the field is in a different subgraph, attach it to the correct subgraph
                             # using the mapping that exists going "to" the join hash we're in the loop for
-                            else:
-                                canon_date = ref_field.canon_date.replace(".", "_")
-                                if mapping_info["to_join_hash"] in join_hash:
-                                    self.query_dimensions[join_hash].append(ref_field)
-                                    break
+                            elif mapping_info["to_join_hash"] in join_hash:
+                                matched_fields.append(ref_field)
+                                break
+                        metric_views = {metric.view.name for metric in self.query_metrics.get(join_hash, [])}
+                        matched_fields.sort(key=lambda f: f.view.name not in metric_views)
+                        self.query_dimensions[join_hash].extend(matched_fields[:1])
 
                 if not_in_metrics:
                     field_key = f"{field.view.name}.{field.name}"
-- 
2.43.0


From 2ff2859fa2a6a62271dd02148ab04994daa7f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:33 +0000
Subject: [PATCH 50/69] fix: a view's event dimension can be in another view,
 and lists of access grants are checked item by item

---
 metrics_layer/core/model/model.py | 4 ++--
 metrics_layer/core/model/view.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/model.py b/metrics_layer/core/model/model.py
index 5b5e6af..39bd193 100644
--- a/metrics_layer/core/model/model.py
+++ b/metrics_layer/core/model/model.py
@@ -73,7 +73,7 @@ class AccessGrant(MetricsLayerBase):
                     ),
                 )
             )
-        elif all([not isinstance(value, str) for value in self.allowed_values]):
+        elif any(not isinstance(value, str) for value in self.allowed_values):
             errors.append(
                 self._error(
                     self.allowed_values,
@@ -136,7 +136,7 @@ class Model(MetricsLayerBase):
                 raise QueryError(
                     f"The access_grants property, {self._definition['access_grants']} must be a list"
                 )
-            elif all([not isinstance(grant, dict) for grant in self._definition["access_grants"]]):
+            elif any(not isinstance(grant, dict) for grant in self._definition["access_grants"]):
                 raise QueryError(f"All access_grants in the access_grants property must be dictionaries")
             return self._definition["access_grants"]
         return []
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 600b614..eb0ac69 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -137,7 +137,7 @@ class View(MetricsLayerBase, SQLReplacement):
         if "event_dimension" in self._definition:
             if "." not in str(self._definition["event_dimension"]):
                 return f'{self.name}.{self._definition["event_dimension"]}'
-            return str(self._definition["default_date"])
+            return str(self._definition["event_dimension"])
         return None
 
     @property
-- 
2.43.0


From 05363676b5ec7d9099d23eb51b5f0f358f7935e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:07 +0000
Subject: [PATCH 51/69] fix: reading a project leaves its definitions as they
 are written

---
 metrics_layer/core/model/dashboard.py | 2 ++
 metrics_layer/core/model/field.py     | 5 ++++-
 metrics_layer/core/model/project.py   | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/dashboard.py b/metrics_layer/core/model/dashboard.py
index a3d45d7..ac92224 100644
--- a/metrics_layer/core/model/dashboard.py
+++ b/metrics_layer/core/model/dashboard.py
@@ -108,6 +108,8 @@ class DashboardElement(MetricsLayerBase):
 
 class Dashboard(MetricsLayerBase):
     def __init__(self, definition: dict, project) -> None:
+        # The definition belongs to the project, and stays as it is written
+        definition = definition.copy()
         if definition.get("name") is not None:
             definition["name"] = definition["name"].lower()
 
diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 1a40b51..4efbc84 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -146,13 +146,16 @@ class Field(MetricsLayerBase, SQLReplacement):
         self.defaults = {"type": "string", "primary_key": False, "datatype": "timestamp"}
         self.default_intervals = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]
 
+        # The definition belongs to the project, and stays as it is written
         # Always lowercase names and make exception for the None case in the
         # event of this being used by a filter and not having a name.
-        if "name" in definition and isinstance(definition["name"], str):
+        if isinstance(definition.get("name"), str) and definition["name"] != definition["name"].lower():
+            definition = definition.copy()
             definition["name"] = definition["name"].lower()
 
         # Remove the label prefix if it's null
         if "label_prefix" in definition and definition["label_prefix"] is None:
+            definition = definition.copy()
             definition.pop("label_prefix")
 
         self.view: View = view
diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index eac6dd7..4a3ad4e 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -111,7 +111,7 @@ class Project:
                 object_name=view_name,
                 object_type="view",
             )
-        view["fields"] = [f for f in view["fields"] if f["name"] != field_name]
+        view["fields"] = [f for f in view["fields"] if f["name"].lower() != field_name.lower()]
         if refresh_cache:
             self.refresh_cache()
 
-- 
2.43.0


From b7b2017dc8b45c873fe46255f916b372d94d545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:47 +0000
Subject: [PATCH 52/69] fix: validating a project reports malformed definitions
 instead of raising

---
 metrics_layer/core/model/project.py | 143 ++++++++++++++++------------
 1 file changed, 81 insertions(+), 62 deletions(-)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 4a3ad4e..14692a9 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -235,23 +235,39 @@ class Project:
         # For project level errors we cannot attribute a line or column
         return {**extra, "message": error, "line": None, "column": None}
 
+    def _errors_in(self, collect_errors, location: str, extra: dict = {}):
+        # A definition can be malformed in a way that its own checks cannot handle
+        try:
+            return collect_errors()
+        except (AccessDeniedOrDoesNotExistException, QueryError) as e:
+            return [self._error(f"{e} in the {location}", extra)]
+        except Exception as e:
+            return [self._error(f"The {location} has an invalid definition: {type(e).__name__} {e}", extra)]
+
     def validate(self):
         all_errors = []
-        for model in self.models():
+        try:
+            models, views, dashboards = self.models(), self.views(), self.dashboards()
+        except Exception as e:
+            # If we have an error reading the objects in the project, we cannot continue
+            return [self._error(str(e))]
+
+        for model in models:
             try:
                 all_errors.extend(model.collect_errors())
-            except QueryError as e:
+            except Exception as e:
                 # If we have an error building the model, we cannot continue
-                return [self._error(str(e))]
+                return all_errors + [self._error(str(e), {"model_name": model.name})]
 
         try:
             all_errors.extend(self.join_graph.collect_errors())
-        except QueryError as e:
+            join_graphs = self.join_graph.list_join_graphs()
+        except Exception as e:
             # If we have an error building the graph, we cannot continue
             # and no other errors will be relevant until this is fixed
             return [self._error(str(e))]
 
-        for join_graph in self.join_graph.list_join_graphs():
+        for join_graph in join_graphs:
             try:
                 self.get_field_by_tag(tag_name="customer", join_graphs=(join_graph,))
             except QueryError as e:
@@ -261,65 +277,21 @@ class Project:
             except Exception:
                 pass
 
-        for view in self.views():
-            if len(self._required_access_filter_user_attributes) > 0:
-                for user_attribute_name in self._required_access_filter_user_attributes:
-                    if not view.access_filters:
-                        all_errors.append(
-                            self._error(
-                                (
-                                    f"View {view.name} does not have any access filters, but an access filter"
-                                    f" with user attribute {user_attribute_name} is required."
-                                ),
-                                {"view_name": view.name},
-                            )
-                        )
-                    elif all(af["user_attribute"] != user_attribute_name for af in view.access_filters):
-                        all_errors.append(
-                            self._error(
-                                (
-                                    f"View {view.name} does not have an access filter with the required user"
-                                    f" attribute {user_attribute_name}"
-                                ),
-                                {"view_name": view.name},
-                            )
-                        )
-
-            try:
-                view.sql_table_name
-            except QueryError as e:
-                all_errors.append(self._error(str(e) + f" in the view {view.name}", {"view_name": view.name}))
-            try:
-                referenced_fields = view.referenced_fields()
-            except (AccessDeniedOrDoesNotExistException, QueryError) as e:
-                all_errors.append(self._error(str(e) + f" in the view {view.name}", {"view_name": view.name}))
-
-            view_errors = view.collect_errors()
-
-            for field in referenced_fields:
-                if isinstance(field, tuple):
-                    if "Warning: " in field[-1]:
-                        field_name = field[0].name
-                        field_reference = field[-1].replace("Warning: ", "")
-                        prepend = "Warning: "
-                    else:
-                        field_name = field[0].name
-                        field_reference = field[-1]
-                        prepend = ""
-                    all_errors.append(
-                        self._error(
-                            (
-                                f"{prepend}Could not locate reference {field_reference} in field"
-                                f" {field_name} in view {view.name}"
-                            ),
-                            {"view_name": view.name, "field_name": field_name},
-                        )
-                    )
+        for view in views:
+            location, extra = f"view {view.name}", {"view_name": view.name}
+            checks = [
+                self._collect_required_access_filter_errors,
+                self._collect_sql_table_name_errors,
+                self._collect_reference_errors,
+            ]
+            view_errors = self._errors_in(view.collect_errors, location, extra)
+            for check in checks:
+                all_errors.extend(self._errors_in(functools.partial(check, view), location, extra))
             all_errors.extend(view_errors)
 
-        for dashboard in self.dashboards():
-            errors = dashboard.collect_errors()
-            all_errors.extend(errors)
+        for dashboard in dashboards:
+            extra = {"dashboard_name": dashboard.name}
+            all_errors.extend(self._errors_in(dashboard.collect_errors, f"dashboard {dashboard.name}", extra))
 
         all_errors.extend(self._validate_dashboard_names())
 
@@ -331,6 +303,53 @@ class Project:
 
         return cleaned_errors
 
+    def _collect_required_access_filter_errors(self, view):
+        errors = []
+        for user_attribute_name in self._required_access_filter_user_attributes:
+            if not view.access_filters:
+                errors.append(
+                    self._error(
+                        (
+                            f"View {view.name} does not have any access filters, but an access filter"
+                            f" with user attribute {user_attribute_name} is required."
+                        ),
+                        {"view_name": view.name},
+                    )
+                )
+            elif all(af["user_attribute"] != user_attribute_name for af in view.access_filters):
+                errors.append(
+                    self._error(
+                        (
+                            f"View {view.name} does not have an access filter with the required user"
+                            f" attribute {user_attribute_name}"
+                        ),
+                        {"view_name": view.name},
+                    )
+                )
+        return errors
+
+    def _collect_sql_table_name_errors(self, view):
+        # Resolving the table name raises an error if it's invalid
+        view.sql_table_name
+        return []
+
+    def _collect_reference_errors(self, view):
+        errors = []
+        for field in view.referenced_fields():
+            if isinstance(field, tuple):
+                prepend = "Warning: " if "Warning: " in field[-1] else ""
+                field_name, field_reference = field[0].name, field[-1].replace("Warning: ", "")
+                errors.append(
+                    self._error(
+                        (
+                            f"{prepend}Could not locate reference {field_reference} in field"
+                            f" {field_name} in view {view.name}"
+                        ),
+                        {"view_name": view.name, "field_name": field_name},
+                    )
+                )
+        return errors
+
     def _validate_dashboard_names(self):
         # We need to make sure the unique identifiers for the dashboards are actually unique
         errors = []
-- 
2.43.0


From 0cfae518b3e817ddea977f7e302c30f170093e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:39 +0000
Subject: [PATCH 53/69] fix: validation names the definition with a missing or
 unreadable property, and reports sets that do not exist

---
 metrics_layer/core/model/field.py      | 20 ++++++++++----------
 metrics_layer/core/model/join_graph.py |  2 +-
 metrics_layer/core/model/set.py        | 26 ++++++++++++++++++++++++--
 metrics_layer/core/model/view.py       |  4 ++++
 4 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 4efbc84..b338ca8 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -1970,7 +1970,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                 if "intervals" in self._definition:
                     errors.append(
                         self._error(
-                            self._definition["intervals"],
+                            self._definition.get("intervals"),
                             (
                                 f"Field {self.name} in view {self.view.name} is of type time, but has"
                                 " property intervals when it should have property timeframes"
@@ -1981,7 +1981,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                 if "timeframes" in self._definition and not isinstance(self.timeframes, list):
                     errors.append(
                         self._error(
-                            self._definition["timeframes"],
+                            self._definition.get("timeframes"),
                             (
                                 f"Field {self.name} in view {self.view.name} has an invalid timeframes"
                                 f" {self.timeframes}. timeframes must be a list of strings."
@@ -1993,7 +1993,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                     if not timeframes:
                         errors.append(
                             self._error(
-                                self._definition["timeframes"],
+                                self._definition.get("timeframes"),
                                 (
                                     f"Field {self.name} in view {self.view.name} is of type time and but does"
                                     " not have values for the timeframe property. Add valid timeframes"
@@ -2005,7 +2005,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                         if i not in VALID_TIMEFRAMES:
                             errors.append(
                                 self._error(
-                                    self._definition["timeframes"],
+                                    self._definition.get("timeframes"),
                                     (
                                         f"Field {self.name} in view {self.view.name} is of type time and has"
                                         f" timeframe value of '{i}' which is not a valid timeframes (valid"
@@ -2066,7 +2066,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                 if "timeframes" in self._definition:
                     errors.append(
                         self._error(
-                            self._definition["timeframes"],
+                            self._definition.get("timeframes"),
                             (
                                 f"Field {self.name} in view {self.view.name} is of type duration, but has"
                                 " property timeframes when it should have property intervals"
@@ -2077,7 +2077,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                     if "intervals" in self._definition and not isinstance(self.intervals, list):
                         errors.append(
                             self._error(
-                                self._definition["intervals"],
+                                self._definition.get("intervals"),
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid intervals"
                                     f" {self.intervals}. intervals must be a list of strings."
@@ -2089,7 +2089,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                         if not intervals:
                             errors.append(
                                 self._error(
-                                    self._definition["intervals"],
+                                    self._definition.get("intervals"),
                                     (
                                         f"Field {self.name} in view {self.view.name} is of type duration and"
                                         " but does not have values for the intervals property. Add valid"
@@ -2101,7 +2101,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                             if i not in VALID_INTERVALS:
                                 errors.append(
                                     self._error(
-                                        self._definition["intervals"],
+                                        self._definition.get("intervals"),
                                         (
                                             f"Field {self.name} in view {self.view.name} is of type duration"
                                             f" and has interval value of '{i}' which is not a valid interval"
@@ -2386,7 +2386,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                     if str(self.non_additive_dimension.get("window_choice")) not in ["max", "min"]:
                         errors.append(
                             self._error(
-                                self._definition["non_additive_dimension"]["window_choice"],
+                                self._definition["non_additive_dimension"].get("window_choice"),
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. window_choice must be"
@@ -2695,7 +2695,7 @@ class Field(MetricsLayerBase, SQLReplacement):
 
     def non_additive_alias(self):
         if self.non_additive_dimension:
-            window_choice = self.non_additive_dimension["window_choice"]
+            window_choice = self.non_additive_dimension.get("window_choice")
             # The dimension might be in another view than the measure
             view_name, window_name = self.non_additive_dimension["name"].lower().split(".")[-2:]
             return f"{view_name}_{window_choice}_{window_name}"
diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 8e66b45..156a2b7 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -392,7 +392,7 @@ class JoinGraph(SQLReplacement):
             raise QueryError(
                 "This join type cannot be determined from the identifier properties. "
                 f"Make sure you've set the properties correctly. Base type: {base_type},"
-                f" join type: {join_type}"
+                f" join type: {join_type} for the identifier {identifier['name']}"
             )
 
     @staticmethod
diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 55cc1f5..8adf57e 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -49,6 +49,19 @@ class Set(MetricsLayerBase):
                 )
             )
         else:
+            for set_reference in self.fields:
+                try:
+                    if self._referenced_set_is_missing(set_reference):
+                        errors.append(
+                            self._error(
+                                self._definition["fields"],
+                                f"In the Set {self.name} the set {set_reference} does not exist",
+                            )
+                        )
+                except Exception:
+                    # These errors are handled in the view in which the set is defined
+                    continue
+
             try:
                 field_names = self.field_names()
             except Exception:
@@ -109,13 +122,22 @@ class Set(MetricsLayerBase):
             )
             return [f"{f.view.name}.{f.alias()}" for f in all_fields]
 
-        _, view_name, set_name = self.field_name_parts(set_name)
-        _set = self.project.get_set(set_name, view_name=view_name)
+        _set = self._get_set(set_name)
         if _set is None:
             print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
             return []
         return _set.field_names()
 
+    def _get_set(self, set_name: str):
+        _, view_name, set_name = self.field_name_parts(set_name)
+        return self.project.get_set(set_name, view_name=view_name)
+
+    def _referenced_set_is_missing(self, set_reference: str):
+        if "*" not in set_reference:
+            return False
+        set_name = set_reference.replace("*", "").replace("-", "")
+        return set_name != "ALL_FIELDS" and self._get_set(set_name) is None
+
     def _get_view_name(self, view_name: Union[None, str], field_name: str):
         if view_name:
             return view_name
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index eb0ac69..b1c4114 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -79,6 +79,10 @@ class View(MetricsLayerBase, SQLReplacement):
                     raise QueryError(f"Identifier {i} in view {self.name} must be a dictionary")
                 elif "name" not in i:
                     raise QueryError(f"Identifier in view {self.name} is missing the required name property")
+                elif isinstance(i["name"], (list, dict)):
+                    raise QueryError(
+                        f"The name property, {i['name']} in the identifier in view {self.name} must be a string"
+                    )
                 elif "type" not in i:
                     raise QueryError(
                         f"Identifier {i['name']} in view {self.name} is missing the required type property"
-- 
2.43.0


From 78c8a4c082464d21ceaae88eb2617f5b632593f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:42 +0000
Subject: [PATCH 54/69] fix: validation names the field whose definition its
 checks cannot read

---
 metrics_layer/core/model/field.py |  7 ++++---
 metrics_layer/core/model/view.py  | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index b338ca8..23bc1b9 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -469,7 +469,7 @@ class Field(MetricsLayerBase, SQLReplacement):
         if non_additive_dimension and isinstance(non_additive_dimension, dict):
             # The definition itself stays as it is written
             non_additive_dimension = {**non_additive_dimension}
-            if "." not in non_additive_dimension["name"]:
+            if "." not in non_additive_dimension.get("name", "."):
                 qualified_name = f"{self.view.name}.{non_additive_dimension['name']}"
                 non_additive_dimension["name"] = qualified_name
             if window_groupings := non_additive_dimension.get("window_groupings", []):
@@ -1535,12 +1535,13 @@ class Field(MetricsLayerBase, SQLReplacement):
                 )
             )
 
-        if "label" in self._definition and not isinstance(self.label, str):
+        if "label" in self._definition and not isinstance(self._definition["label"], str):
             errors.append(
                 self._error(
                     self._definition["label"],
                     (
-                        f"Field {self.name} in view {self.view.name} has an invalid label {self.label}."
+                        f"Field {self.name} in view {self.view.name} has an invalid label"
+                        f" {self._definition['label']}."
                         " label must be a string."
                     ),
                 )
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index b1c4114..ace1fc0 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -601,7 +601,20 @@ class View(MetricsLayerBase, SQLReplacement):
         for field in fields:
             if field.primary_key and field.field_type != ZenlyticFieldType.measure:
                 primary_keys.add(field.name)
-            errors.extend(field.collect_errors())
+            try:
+                errors.extend(field.collect_errors())
+            except Exception as e:
+                # A definition can be malformed in a way that its own checks cannot handle
+                errors.append(
+                    self._error(
+                        field._definition.get("name"),
+                        (
+                            f"Field {field.name} in view {self.name} has an invalid definition:"
+                            f" {type(e).__name__} {e}"
+                        ),
+                        {"field_name": field.name},
+                    )
+                )
 
         if len(primary_keys) > 1:
             errors.append(
-- 
2.43.0


From 71b416b7bd79759eb0366055894e33cb3916af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:09 +0000
Subject: [PATCH 55/69] fix: fields added to or removed from a project take
 effect on references between fields and on join_as views

---
 metrics_layer/core/model/project.py | 49 ++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 14692a9..99aec7a 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -2,6 +2,7 @@ import functools
 import json
 from collections import Counter
 from contextlib import contextmanager
+from copy import deepcopy
 from typing import List, Union
 
 from metrics_layer.core.exceptions import (
@@ -32,6 +33,7 @@ class Project:
         commit_hash=None,
     ):
         self._models = models
+        self._join_as_sources = {}
         self._views = self._handle_join_as_duplication(views)
         self._dashboards = dashboards
         self.looker_env = looker_env
@@ -54,6 +56,14 @@ class Project:
         return self._content_hash + hash(user_str)
 
     def refresh_cache(self):
+        self._refresh_lookup_cache()
+
+        # Clear the caches of the references between fields
+        Field.referenced_fields.cache_clear()
+        Field.join_graphs.cache_clear()
+        self.__dict__.pop("_content_hash", None)
+
+    def _refresh_lookup_cache(self):
         # Clear LRU Caches
         self.fields.cache_clear()
         self.get_field.cache_clear()
@@ -98,8 +108,9 @@ class Project:
                 object_type="view",
             )
         # If the field already exists, then do not add it
-        if not any(f["name"].lower() == field["name"].lower() for f in view["fields"]):
-            view["fields"].append(field)
+        for v in [view, *self._join_as_copies(view_name, field)]:
+            if not any(f["name"].lower() == field["name"].lower() for f in v["fields"]):
+                v["fields"].append(deepcopy(field))
         if refresh_cache:
             self.refresh_cache()
 
@@ -111,10 +122,22 @@ class Project:
                 object_name=view_name,
                 object_type="view",
             )
-        view["fields"] = [f for f in view["fields"] if f["name"].lower() != field_name.lower()]
+        for v in [view, *self._join_as_copies(view_name)]:
+            v["fields"] = [f for f in v["fields"] if f["name"].lower() != field_name.lower()]
         if refresh_cache:
             self.refresh_cache()
 
+    def _join_as_copies(self, view_name: str, field: Union[dict, None] = None):
+        # The views created by join_as have the fields of the view they are copied from
+        copies = []
+        for v in self._views:
+            source = self._join_as_sources.get(v["name"])
+            if source and source["view_name"] == view_name:
+                is_measure = field is not None and field.get("field_type") == "measure"
+                if not is_measure or source["include_metrics"]:
+                    copies.append(v)
+        return copies
+
     @property
     def timezone(self):
         if self._timezone:
@@ -172,6 +195,10 @@ class Project:
                             ]
 
                         join_as_to_create[identifier["join_as"]] = {**v, **view_args}
+                        self._join_as_sources[identifier["join_as"]] = {
+                            "view_name": v["name"],
+                            "include_metrics": include_metrics,
+                        }
 
                     else:
                         if join_as_to_create[identifier["join_as"]]["name"] != v["name"]:
@@ -203,29 +230,29 @@ class Project:
         # Replace model files
         replaced_model_names = set([m["name"] for m in replaced_models])
         unchanged_models = [m for m in self._models if m["name"] not in replaced_model_names]
-        current_models = json.loads(json.dumps(self._models))
+        current_models = deepcopy(self._models)
 
         # Replace view files
         replaced_view_names = set([v["name"] for v in replaced_views])
         unchanged_views = [v for v in self._views if v["name"] not in replaced_view_names]
-        current_views = json.loads(json.dumps(self._views))
+        current_views = deepcopy(self._views)
 
         # Replace dashboard files
         replaced_dashboard_names = set([d["name"] for d in replaced_dashboards])
         unchanged_dashboards = [d for d in self._dashboards if d["name"] not in replaced_dashboard_names]
-        current_dashboards = json.loads(json.dumps(self._dashboards))
+        current_dashboards = deepcopy(self._dashboards)
 
         try:
-            self._models = unchanged_models + replaced_models
-            self._views = unchanged_views + replaced_views
-            self._dashboards = unchanged_dashboards + replaced_dashboards
-            self.refresh_cache()
+            self._models = unchanged_models + deepcopy(replaced_models)
+            self._views = unchanged_views + deepcopy(replaced_views)
+            self._dashboards = unchanged_dashboards + deepcopy(replaced_dashboards)
+            self._refresh_lookup_cache()
             yield
         finally:
             self._dashboards = current_dashboards
             self._views = current_views
             self._models = current_models
-            self.refresh_cache()
+            self._refresh_lookup_cache()
 
     def validate_with_replaced_objects(self, replaced_objects: list):
         with self.replace_objects(replaced_objects):
-- 
2.43.0


From 7aed27c7803f6d26ccbd913cfc8136b4d0ae7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 56/69] fix: project files are loaded from any depth of the
 configured folders and from nowhere else, in a fixed order

---
 metrics_layer/core/parse/github_repo.py                | 10 +++++-----
 .../core/parse/project_reader_metrics_layer.py         |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/parse/github_repo.py b/metrics_layer/core/parse/github_repo.py
index a0dea97..6cb3986 100644
--- a/metrics_layer/core/parse/github_repo.py
+++ b/metrics_layer/core/parse/github_repo.py
@@ -1,6 +1,6 @@
 import os
 import shutil
-from glob import glob
+from glob import escape, glob
 import pathlib
 import yaml
 
@@ -31,7 +31,7 @@ class BaseRepo:
             fn
             for f in folders
             for fn in self.glob_search(f, pattern, include_hidden=include_hidden)
-            if "venv" not in fn
+            if "venv" not in os.path.relpath(fn, start=f)
         ]
 
     def fetch(self):
@@ -39,10 +39,10 @@ class BaseRepo:
 
     def get_dbt_path(self):
         pattern = "dbt_project.yml"
-        in_root = list(glob(f"{self.folder}/{pattern}"))
+        in_root = list(glob(f"{escape(self.folder)}/{pattern}"))
         if len(in_root) == 1:
             return self.folder
-        in_one_folder_deep = list(glob(f"{self.folder}/*/{pattern}"))
+        in_one_folder_deep = list(glob(f"{escape(self.folder)}/*/{pattern}"))
         if len(in_one_folder_deep) == 1:
             return os.path.dirname(in_one_folder_deep[0]) + "/"
         return self.folder
@@ -60,7 +60,7 @@ class BaseRepo:
             for file_ref in pathlib.Path(folder).glob(f"**/{pattern}"):
                 files.append(str(file_ref))
             return files
-        return glob(f"{folder}**/{pattern}", recursive=True)
+        return glob(os.path.join(escape(folder), "**", pattern), recursive=True)
 
 
 class LocalRepo(BaseRepo):
diff --git a/metrics_layer/core/parse/project_reader_metrics_layer.py b/metrics_layer/core/parse/project_reader_metrics_layer.py
index b90f482..68ff0cc 100644
--- a/metrics_layer/core/parse/project_reader_metrics_layer.py
+++ b/metrics_layer/core/parse/project_reader_metrics_layer.py
@@ -37,7 +37,8 @@ class MetricsLayerProjectReader(ProjectReaderBase):
 
     def search_for_yaml_files(self, folders: list):
         file_names = self.repo.search("*.yml", folders) + self.repo.search("*.yaml", folders)
-        return list(set(file_names))
+        # The folders can overlap, and the order of the files should not vary between runs
+        return sorted({os.path.normpath(fn) for fn in file_names})
 
     def get_folders(self, key: str, default: str = None, raise_errors: bool = True):
         if not self.zenlytic_project:
-- 
2.43.0


From 4defaafa292f207d90d978b9db8dad09b091cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 57/69] fix: text that YAML 1.1 reads as another type is quoted
 when written, and nested folders are created

---
 metrics_layer/core/parse/project_dumper.py      |  4 ++--
 metrics_layer/core/parse/project_reader_base.py | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/parse/project_dumper.py b/metrics_layer/core/parse/project_dumper.py
index fedbc06..ea86e09 100644
--- a/metrics_layer/core/parse/project_dumper.py
+++ b/metrics_layer/core/parse/project_dumper.py
@@ -22,7 +22,7 @@ class ProjectDumper(ProjectReaderBase):
                 file_name = model["name"] + "_model.yml"
                 models_folder = os.path.join(path, self._model_folder)
                 if not os.path.exists(models_folder):
-                    os.mkdir(models_folder)
+                    os.makedirs(models_folder)
                 file_path = os.path.join(models_folder, file_name)
             self.dump_yaml_file(self._sort_model(model), file_path)
 
@@ -36,7 +36,7 @@ class ProjectDumper(ProjectReaderBase):
                 file_name = view["name"] + "_view.yml"
                 views_folder = os.path.join(path, self._view_folder)
                 if not os.path.exists(views_folder):
-                    os.mkdir(views_folder)
+                    os.makedirs(views_folder)
                 file_path = os.path.join(views_folder, file_name)
             self.dump_yaml_file(self._sort_view(view), file_path)
 
diff --git a/metrics_layer/core/parse/project_reader_base.py b/metrics_layer/core/parse/project_reader_base.py
index 7eb263e..9d9b675 100644
--- a/metrics_layer/core/parse/project_reader_base.py
+++ b/metrics_layer/core/parse/project_reader_base.py
@@ -47,6 +47,20 @@ class ZenlyticConstructor(ruamel.yaml.constructor.RoundTripConstructor):
         return ret_val
 
 
+# Files are written as YAML 1.2 but read as YAML 1.1, where more strings (yes, no, on, off, 12:30)
+# are something else than a string unless they are quoted
+class ZenlyticRepresenter(ruamel.yaml.representer.RoundTripRepresenter):
+    _resolver = ruamel.yaml.resolver.VersionedResolver(version=(1, 1))
+
+    def represent_str(self, data):
+        tag = self._resolver.resolve(ruamel.yaml.nodes.ScalarNode, data, (True, False))
+        style = None if str(tag) == "tag:yaml.org,2002:str" else "'"
+        return self.represent_scalar("tag:yaml.org,2002:str", data, style=style)
+
+
+ZenlyticRepresenter.add_representer(str, ZenlyticRepresenter.represent_str)
+
+
 class ProjectReaderBase:
     def __init__(self, repo: BaseRepo, profiles_dir: str = None):
         self.repo = repo
@@ -120,6 +134,7 @@ class ProjectReaderBase:
     @staticmethod
     def dump_yaml_file(data: dict, path: str):
         yaml = ruamel.yaml.YAML(typ="rt")
+        yaml.Representer = ZenlyticRepresenter
         # HOTFIX: this somehow introduced a unicode error on multiline strings with the character
         # \u0007 (bell) in them. Commenting out the below code is a temporary fix.
 
-- 
2.43.0


From fe057901497fef9bd0c64e2b9e3e2a278543a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 58/69] fix: seeding makes one valid field of the right type
 for every column of every table

---
 metrics_layer/cli/seeding.py | 92 ++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 26 deletions(-)

diff --git a/metrics_layer/cli/seeding.py b/metrics_layer/cli/seeding.py
index 60439e6..ac457d7 100644
--- a/metrics_layer/cli/seeding.py
+++ b/metrics_layer/cli/seeding.py
@@ -1,10 +1,12 @@
 import os
 import re
+from functools import partial
 from typing import List, Union
 
 import pandas as pd
 
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.model.model import SPECIAL_MAPPING_VALUES
 
 
 class SeedMetricsLayer:
@@ -79,6 +81,11 @@ class SeedMetricsLayer:
             "REAL": "number",
             "DECIMAL": "number",
             "BIGINT": "number",
+            "INTEGER": "number",
+            "SMALLINT": "number",
+            "NUMERIC": "number",
+            "TIMESTAMP WITHOUT TIME ZONE": "timestamp",
+            "TIMESTAMP WITH TIME ZONE": "timestamp",
         }
         self._databricks_type_lookup = {
             "TIME": "timestamp",
@@ -126,6 +133,11 @@ class SeedMetricsLayer:
             "numeric": "number",
             "float": "number",
             "money": "number",
+            "tinyint": "number",
+            "hugeint": "number",
+            "double": "number",
+            "decimal": "number",
+            "timestamp": "timestamp",
         }
         self._sql_server_type_lookup = {
             "float": "number",
@@ -145,6 +157,7 @@ class SeedMetricsLayer:
             "datetime2": "datetime",
             "smalldatetime": "datetime",
             "datetime": "datetime",
+            "datetimeoffset": "datetime",
             "time": "datetime",
             "bit": "yesno",
         }
@@ -156,6 +169,7 @@ class SeedMetricsLayer:
             "FLOAT64": "number",
             "INT64": "number",
             "NUMERIC": "number",
+            "BIGNUMERIC": "number",
             "STRING": "string",
         }
         self._trino_type_lookup = {
@@ -174,9 +188,7 @@ class SeedMetricsLayer:
             "json": "string",
             "date": "date",
             "timestamp": "timestamp",
-            "timestamp(p)": "timestamp",
             "timestamp with time zone": "timestamp",
-            "timestamp(p) with time zone": "timestamp",
         }
 
     def seed(self, auto_tag_searchable_fields: bool = False):
@@ -216,16 +228,16 @@ class SeedMetricsLayer:
 
         model_name = self.get_model_name(current_models)
         # Each iteration represents either a single table or a single view
-        views, tables = [], data["TABLE_NAME"].unique()
-        for i, table_name in enumerate(tables):
-            column_df = data[data["TABLE_NAME"].str.lower() == table_name.lower()].copy()
+        views, tables = [], data[["TABLE_SCHEMA", "TABLE_NAME"]].drop_duplicates().values.tolist()
+        view_names = set()
+        for i, (schema_name, table_name) in enumerate(tables):
+            is_table = (data["TABLE_SCHEMA"] == schema_name) & (data["TABLE_NAME"] == table_name)
+            column_df = data[is_table].copy()
+            table_comment = None
             if not table_data.empty:
-                table_comment = table_data[table_data["TABLE_NAME"].str.lower() == table_name.lower()][
-                    "COMMENT"
-                ].values[0]
-            else:
-                table_comment = None
-            schema_name = column_df["TABLE_SCHEMA"].values[0]
+                is_table = (table_data["TABLE_SCHEMA"] == schema_name) & (table_data["TABLE_NAME"] == table_name)
+                if is_table.any():
+                    table_comment = table_data[is_table]["COMMENT"].values[0]
             view = self.make_view(
                 column_df,
                 model_name,
@@ -234,6 +246,7 @@ class SeedMetricsLayer:
                 table_comment,
                 auto_tag_searchable_fields=auto_tag_searchable_fields,
             )
+            view["name"] = self._unique_name(view["name"], lambda name: [name], view_names)
             if self.table:
                 progress = ""
             else:
@@ -293,7 +306,7 @@ class SeedMetricsLayer:
         table_comment: str = None,
         auto_tag_searchable_fields: bool = True,
     ):
-        view_name = self.clean_name(table_name)
+        view_name = self.clean_name(table_name) or "table"
         fields = self.make_fields(
             column_data,
             schema_name=schema_name,
@@ -340,30 +353,29 @@ class SeedMetricsLayer:
             if table_name is None:
                 raise ValueError("table_name is required to auto tag searchable fields")
 
-        fields = []
+        fields, field_names = [], set()
         searchable_field_candidates = []
         if self.connection.type in {Definitions.snowflake, Definitions.databricks}:
             data_to_iterate = column_data[["COLUMN_NAME", "DATA_TYPE", "COMMENT"]]
         else:
             data_to_iterate = column_data[["COLUMN_NAME", "DATA_TYPE"]]
         for _, row in data_to_iterate.iterrows():
-            name = self.clean_name(row["COLUMN_NAME"])
             if self.connection.type == Definitions.snowflake:
-                metrics_layer_type = self._snowflake_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._snowflake_type_lookup, row["DATA_TYPE"])
             elif self.connection.type == Definitions.redshift:
-                metrics_layer_type = self._redshift_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._redshift_type_lookup, row["DATA_TYPE"])
             elif self.connection.type in {Definitions.postgres, Definitions.duck_db}:
-                metrics_layer_type = self._postgres_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._postgres_type_lookup, row["DATA_TYPE"])
             elif self.connection.type == Definitions.bigquery:
-                metrics_layer_type = self._bigquery_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._bigquery_type_lookup, row["DATA_TYPE"])
             elif self.connection.type == Definitions.druid:
-                metrics_layer_type = self._druid_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._druid_type_lookup, row["DATA_TYPE"])
             elif self.connection.type in {Definitions.sql_server, Definitions.azure_synapse}:
-                metrics_layer_type = self._sql_server_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._sql_server_type_lookup, row["DATA_TYPE"])
             elif self.connection.type == Definitions.databricks:
-                metrics_layer_type = self._databricks_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._databricks_type_lookup, row["DATA_TYPE"])
             elif self.connection.type == Definitions.trino:
-                metrics_layer_type = self._trino_type_lookup.get(row["DATA_TYPE"], "string")
+                metrics_layer_type = self._lookup_type(self._trino_type_lookup, row["DATA_TYPE"])
             else:
                 raise NotImplementedError(f"Unknown connection type: {self.connection.type}")
             # Add quotes for certain db only because we've seen issues with column names with special chars
@@ -377,12 +389,12 @@ class SeedMetricsLayer:
                 Definitions.sql_server,
                 Definitions.azure_synapse,
             }:
-                column_name = '"' + row["COLUMN_NAME"] + '"'
+                column_name = '"' + row["COLUMN_NAME"].replace('"', '""') + '"'
             else:
                 column_name = row["COLUMN_NAME"]
             sql = "${TABLE}." + column_name
 
-            field = {"name": name, "sql": sql}
+            field = {"name": self.clean_name(row["COLUMN_NAME"]) or "column", "sql": sql}
 
             if "COMMENT" in row and row["COMMENT"] is not None:
                 field["description"] = row["COMMENT"]
@@ -409,6 +421,11 @@ class SeedMetricsLayer:
             else:
                 field["field_type"] = "dimension"
                 field["type"] = metrics_layer_type
+                if metrics_layer_type == "string":
+                    field["searchable"] = False
+            if field["field_type"] == "dimension" and field["name"] in SPECIAL_MAPPING_VALUES:
+                field["name"] += "_column"
+            field["name"] = self._unique_name(field["name"], partial(self._field_names, field), field_names)
             fields.append(field)
         if searchable_field_candidates:
             column_cardinalities_query = self.column_cardinalities_query(
@@ -419,7 +436,7 @@ class SeedMetricsLayer:
             # Get the column names that have a cardinality of less than 100
             # Note: running the query doesn't preserve the column name cases
             searchable_column_names = [
-                col.lower().rsplit("_cardinality", 1)[0]
+                col.lower().rsplit("_cardinality", 1)[0].replace('"', "")
                 for col in column_cardinalities.columns
                 if column_cardinalities.loc[0, col] < 100
             ]
@@ -709,7 +726,30 @@ class SeedMetricsLayer:
             valid = False
         return valid
 
+    @staticmethod
+    def _lookup_type(type_lookup: dict, data_type: str):
+        # Warehouses differ in case, and some give the type with its parameters, e.g. decimal(10,2)
+        types = {name.upper(): metrics_layer_type for name, metrics_layer_type in type_lookup.items()}
+        return types.get(re.sub(r"\(.*\)", "", str(data_type)).strip().upper(), "string")
+
+    @staticmethod
+    def _field_names(field: dict, name: str):
+        # All names that the field takes in its view
+        if field["field_type"] == "dimension_group":
+            return [name] + [f"{name}_{timeframe}" for timeframe in field["timeframes"]]
+        return [name]
+
+    @staticmethod
+    def _unique_name(name: str, names_taken, taken: set):
+        # Different columns (and tables) can have the same name when only letters and numbers are kept
+        result, i = name, 1
+        while any(n in taken for n in names_taken(result)):
+            i += 1
+            result = f"{name}_{i}"
+        taken.update(names_taken(result))
+        return result
+
     @staticmethod
     def clean_name(txt: str):
         alphanumeric_string = re.sub(r"[^a-zA-Z0-9\s_]", "", txt)
-        return alphanumeric_string.lower().strip().replace(" ", "_")
+        return re.sub(r"\s", "_", alphanumeric_string.lower().strip())
-- 
2.43.0


From 801655db5632aa1640a073bdb5c8a86edad2278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 59/69] fix: spaces inside literals and quoted names of
 definitions are kept

---
 metrics_layer/core/model/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 23bc1b9..9dd66fa 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2595,7 +2595,9 @@ class Field(MetricsLayerBase, SQLReplacement):
         if sql_query is None or "{%" in sql_query or sql_query == "":
             return None
         clean_sql = self.replace_fields(sql_query, query_type, alias_only=alias_only)
-        clean_sql = re.sub(r"[ ]{2,}", " ", clean_sql)
+        # Spaces inside of literals and quoted names are part of them
+        quoted_or_spaces = r"""('(?:[^'\\]|\\.)*'|"[^"]*"|`[^`]*`)|[ ]{2,}"""
+        clean_sql = re.sub(quoted_or_spaces, lambda match: match.group(1) or " ", clean_sql, flags=re.DOTALL)
         clean_sql = clean_sql.replace("'", "'")
         return clean_sql
 
-- 
2.43.0


From 078400dac18a2a17401718bc79b7425292df1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 60/69] fix: metrics and dimensions are found by name in any
 letter case, also hidden ones, and ambiguous names are refused

---
 metrics_layer/core/model/field.py |  3 ++-
 metrics_layer/core/query/query.py | 40 +++++++++++++++++--------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 9dd66fa..95dadfa 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -897,9 +897,10 @@ class Field(MetricsLayerBase, SQLReplacement):
     def equal(self, field_name: str):
         # Determine if the field name passed in references this field
         _, view_name, field_name_only = self.field_name_parts(field_name)
-        if view_name and view_name != self.view.name:
+        if view_name is not None and view_name != self.view.name:
             return False
 
+        field_name_only = field_name_only.lower()
         if self.field_type == ZenlyticFieldType.dimension_group and self.dimension_group is None:
             return field_name_only in self.dimension_group_names()
         elif self.field_type == ZenlyticFieldType.dimension_group:
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index ba8b124..7bc7a1a 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -215,15 +215,8 @@ class MetricsLayerConnection:
         return metrics
 
     def get_metric(self, metric_name: str, view_name: str = None):
-        metrics = self.list_metrics(view_name=view_name)
-        metric = next((m for m in metrics if m.equal(metric_name)), None)
-        if metric is None:
-            raise AccessDeniedOrDoesNotExistException(
-                f"Could not find or you do not have access to metric {metric_name}",
-                object_name=metric_name,
-                object_type="metric",
-            )
-        return metric
+        metrics = self.list_metrics(view_name=view_name, show_hidden=True)
+        return self._matching_field(metrics, metric_name, "metric")
 
     def list_dimensions(self, view_name: str = None, names_only: bool = False, show_hidden: bool = False):
         all_fields = self.project.fields(view_name=view_name, show_hidden=show_hidden)
@@ -233,20 +226,31 @@ class MetricsLayerConnection:
         return dimensions
 
     def get_dimension(self, dimension_name: str, view_name: str = None):
-        dimensions = self.list_dimensions(view_name=view_name)
-        dimension = next((d for d in dimensions if d.equal(dimension_name)), None)
-        if dimension is None:
-            raise AccessDeniedOrDoesNotExistException(
-                f"Could not find or you do not have access to dimension {dimension_name}",
-                object_name=dimension_name,
-                object_type="dimension",
-            )
+        dimensions = self.list_dimensions(view_name=view_name, show_hidden=True)
+        dimension = self._matching_field(dimensions, dimension_name, "dimension")
         if dimension.field_type == ZenlyticFieldType.dimension_group and dimension.dimension_group is None:
             # The listed dimension group is shared, the one returned here has the timeframe or interval asked for
             _, _, name_only = dimension.field_name_parts(dimension_name)
-            dimension = dimension.with_dimension_group(dimension.get_dimension_group_name(name_only))
+            dimension = dimension.with_dimension_group(dimension.get_dimension_group_name(name_only.lower()))
         return dimension
 
+    @staticmethod
+    def _matching_field(fields: list, field_name: str, object_type: str):
+        matching_fields = [f for f in fields if f.equal(field_name)]
+        if len(matching_fields) == 0:
+            raise AccessDeniedOrDoesNotExistException(
+                f"Could not find or you do not have access to {object_type} {field_name}",
+                object_name=field_name,
+                object_type=object_type,
+            )
+        if len(matching_fields) > 1:
+            views = [f.view.name for f in matching_fields]
+            raise QueryError(
+                f"Multiple {object_type}s found for the name {field_name}, in the views {views}. "
+                "Please specify a view name like this: 'view_name.field_name'"
+            )
+        return matching_fields[0]
+
     def list_views(self, names_only=False):
         views = self.project.views()
         if names_only:
-- 
2.43.0


From 61ebc4465b20bcfed95c75c1c282866f90c6db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 61/69] fix: sets find fields in any letter case and prefer the
 sets of their own view

---
 metrics_layer/core/model/set.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 8adf57e..ca5a5ff 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -102,13 +102,13 @@ class Set(MetricsLayerBase):
             elif "-" in field_name:
                 _, view_name, field_name = self.field_name_parts(field_name.replace("-", ""))
                 view_name = self._get_view_name(view_name, field_name)
-                names_to_exclude.append(f"{view_name}.{field_name}")
+                names_to_exclude.append(f"{view_name}.{field_name.lower()}")
 
             # This is just a field that we're adding to the result
             else:
                 _, view_name, field_name = self.field_name_parts(field_name)
                 view_name = self._get_view_name(view_name, field_name)
-                all_field_names.append(f"{view_name}.{field_name}")
+                all_field_names.append(f"{view_name}.{field_name.lower()}")
 
         # Perform exclusion
         result_field_names = set(f for f in all_field_names if f not in names_to_exclude)
@@ -130,6 +130,11 @@ class Set(MetricsLayerBase):
 
     def _get_set(self, set_name: str):
         _, view_name, set_name = self.field_name_parts(set_name)
+        if view_name is None and self.view_name:
+            # Other views can have a set with the same name
+            own_set = self.project.get_set(set_name, view_name=self.view_name)
+            if own_set is not None:
+                return own_set
         return self.project.get_set(set_name, view_name=view_name)
 
     def _referenced_set_is_missing(self, set_reference: str):
-- 
2.43.0


From 500c0560b77cdd7f1e4947d8ed9965704bb64749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:16 +0000
Subject: [PATCH 62/69] fix: filters without a value are no condition, and
 dashboards' filters can be written as JSON and passed to a query

---
 metrics_layer/core/model/filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 63b7627..2af8621 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -94,7 +94,7 @@ class MetricsLayerFilterExpressionType(str, Enum):
         return hash(self.value)
 
     def __eq__(self, other):
-        return self.value.lower() == other.value.lower()
+        return self.value.lower() == str(getattr(other, "value", other)).lower()
 
     @classmethod
     def parse(cls, value: str):
@@ -168,7 +168,8 @@ class Filter(MetricsLayerBase):
             filter_list = [filter_dict]
         else:
             filter_list = filter_dict
-        return [self._clean_filter_dict({**self._definition, **f}, json_safe) for f in filter_list]
+        # A filter without a value is no condition
+        return [self._clean_filter_dict({**self._definition, **f}, json_safe) for f in filter_list if f != {}]
 
     @staticmethod
     def _clean_filter_dict(filter_dict: dict, json_safe: bool):
@@ -505,7 +506,8 @@ class Filter(MetricsLayerBase):
     @staticmethod
     def _parse_number(number):
         try:
-            return pd.to_numeric(number)
+            number = pd.to_numeric(number)
+            return number.item() if hasattr(number, "item") else number
         except (ValueError, TypeError):
             raise QueryError(f"Could not read the number '{number}' in a filter")
 
-- 
2.43.0


From f71055daeef0a3a7e784172f82ae1e3e267ec6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 63/69] fix: the SQL of MQL takes no semicolon on Druid and
 Trino

---
 metrics_layer/core/convert/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index 35e9afe..d3bf686 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -5,6 +5,7 @@
 
 import re
 
+from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.sql.query_errors import ParseError
 from metrics_layer.core.sql.resolve import SQLQueryResolver
 
@@ -71,6 +72,7 @@ class MQLConverter:
         self.kwargs = kwargs
         self.connection = None
         self.query_kind = None
+        self.query_type = kwargs.get("query_type")
 
     def get_query(self):
         converted_sql, end = "", 0
@@ -83,7 +85,8 @@ class MQLConverter:
             end = close + 1
         converted_sql += self.sql[end:]
 
-        if not converted_sql.rstrip().endswith(";"):
+        takes_semicolon = self.query_type not in Definitions.no_semicolon_warehouses
+        if takes_semicolon and not converted_sql.rstrip().endswith(";"):
             converted_sql += ";"
         return converted_sql
 
@@ -212,4 +215,5 @@ class MQLConverter:
             self.connection = resolver.connection
         query = resolver.get_query(semicolon=False)
         self.query_kind = resolver.query_kind
+        self.query_type = resolver.query_type
         return query
-- 
2.43.0


From 078ec92ad70bfc3bc9d85aaa07240c6d90c3a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 64/69] fix: unreadable date conditions are refused and cross
 joined merges have no join condition

---
 metrics_layer/core/model/filter.py                       | 9 ++++++++-
 metrics_layer/core/sql/query_arbitrary_merged_queries.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 2af8621..a8e4e14 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -27,7 +27,7 @@ class LiteralValueCriterion(Criterion):
         self.sql_query = sql_query
 
     def get_sql(self, **kwargs):
-        return self.sql_query
+        return str(self.sql_query)
 
 
 class EscapedString(ValueWrapper):
@@ -227,6 +227,13 @@ class Filter(MetricsLayerBase):
 
     @staticmethod
     def parse_date_condition(date_condition: str, tz: str) -> list:
+        try:
+            return Filter._parse_date_condition(date_condition, tz)
+        except (ValueError, OverflowError) as e:
+            raise QueryError(f"Could not read the date condition '{date_condition}': {e}")
+
+    @staticmethod
+    def _parse_date_condition(date_condition: str, tz: str) -> list:
         if tz is None:
             tz = "UTC"
 
diff --git a/metrics_layer/core/sql/query_arbitrary_merged_queries.py b/metrics_layer/core/sql/query_arbitrary_merged_queries.py
index 982cbbf..cb2926e 100644
--- a/metrics_layer/core/sql/query_arbitrary_merged_queries.py
+++ b/metrics_layer/core/sql/query_arbitrary_merged_queries.py
@@ -73,7 +73,8 @@ class MetricsLayerMergedQueries(MetricsLayerQueryBase):
         for query in self.merged_queries[1:]:
             # We have to do this because Redshift doesn't support a full outer join
             # of two CTE's without dimensions using 1=1
-            if self.query_type == Definitions.redshift and len(query["join_fields"]) == 0:
+            no_join_fields = self.query_type == Definitions.redshift and len(query["join_fields"]) == 0
+            if no_join_fields or query.get("join_type") == ZenlyticJoinType.cross:
                 base_cte_query = base_cte_query.join(AliasedQuery(query["cte_alias"])).cross()
             else:
                 criteria = self._build_join_criteria(query["join_fields"], base_cte_alias, query["cte_alias"])
-- 
2.43.0


From 5cceb4afbc3e281cda840ed370115a1e218ebbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:12 +0000
Subject: [PATCH 65/69] fix: order_by is applied to merged results, cumulative
 metrics and funnels

---
 .../core/sql/merged_query_resolve.py          |  3 +++
 metrics_layer/core/sql/query_base.py          | 23 ++++++++++++++++++-
 .../core/sql/query_cumulative_metric.py       |  8 +++++++
 metrics_layer/core/sql/query_funnel.py        |  6 +++++
 metrics_layer/core/sql/query_generator.py     |  5 +++-
 .../core/sql/query_merged_results.py          |  5 ++++
 6 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 97e1ea5..8595e58 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -92,6 +92,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             "query_metrics": readable_metrics,
             "query_dimensions": readable_dimensions,
             "having": self.having,
+            "order_by": self.order_by,
+            "metrics": self.metrics,
+            "dimensions": self.dimensions,
             "queries_to_join": queries_to_join,
             "join_hashes": list(sorted(readable_join_hashes)),
             "mapping_lookup": readable_mapping_lookup,
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 8d4dc0c..5913155 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -2,13 +2,14 @@ import re
 from copy import deepcopy
 
 import sqlparse
-from pypika import JoinType
+from pypika import JoinType, Order
 from pypika.terms import LiteralValue
 from sqlparse.tokens import Name, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.base import MetricsLayerBase
 from metrics_layer.core.model.join import Join, ZenlyticJoinType
+from metrics_layer.core.sql.query_dialect import NullSorting
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
 
 
@@ -45,6 +46,26 @@ class MetricsLayerQueryBase(MetricsLayerBase):
             )
         return where
 
+    def order_by_result(self, query, order_by, field_ids: list, get_field):
+        """Orders the result of several sub queries by the columns it has"""
+        clauses = self.parse_order_by_clause(order_by) if isinstance(order_by, str) else order_by or []
+        aliases = {get_field(field_id).alias(with_view=True) for field_id in field_ids}
+        for clause in clauses:
+            field = get_field(clause["field"])
+            alias = field.alias(with_view=True)
+            if alias not in aliases:
+                self._raise_order_by_error(clause["field"])
+            order = Order.desc if (clause.get("sort") or "asc").lower() == "desc" else Order.asc
+            query = query.orderby(LiteralValue(alias), order=order, nulls=NullSorting.last)
+        return query
+
+    @staticmethod
+    def _raise_order_by_error(field_name: str):
+        raise QueryError(
+            f"The query cannot be ordered by {field_name}, which is not one of its metrics or dimensions. "
+            "Please add it to the query to order by it."
+        )
+
     @staticmethod
     def parse_identifiers_from_clause(clause: str):
         if not clause:
diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 93892c6..0ba6f30 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -89,7 +89,14 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             )
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
+        if self.order_by:
+            base_cte_query = self.order_by_result(
+                base_cte_query, self.order_by, self.metrics + self.dimensions, self.design.get_field
+            )
+
         base_cte_query = base_cte_query.limit(self.limit)
+        if self.return_pypika_query:
+            return base_cte_query
         sql = str(base_cte_query)
         if semicolon:
             sql += ";"
@@ -189,6 +196,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
         sub_definition["dimensions"] = dimensions
         sub_definition["where"] = where
         sub_definition["having"] = []
+        sub_definition["order_by"] = []
         sub_definition["limit"] = None
 
         field_lookup = {k: v for k, v in self.design.field_lookup.items()}
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 44e1daa..005ce1d 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -85,6 +85,11 @@ class FunnelQuery(MetricsLayerQueryBase):
             where = self.get_where_with_aliases(self.having, project=self.design)
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
+        if self.order_by:
+            base_cte_query = self.order_by_result(
+                base_cte_query, self.order_by, self.metrics + self.dimensions, self.design.get_field
+            )
+
         base_cte_query = base_cte_query.limit(self.limit)
         sql = str(base_cte_query)
         if semicolon:
@@ -246,6 +251,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         sub_definition["dimensions"] = sorted(dimensions + dimensions_to_add)
         sub_definition["where"] = where
         sub_definition["having"] = []
+        sub_definition["order_by"] = []
         sub_definition["limit"] = None
 
         self.design.no_group_by = no_group_by
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index e29cf11..9a62bb7 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -133,7 +133,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # Handle JSON order_by
         if isinstance(order_by, list):
             for order_clause in order_by:
-                results.append({**order_clause, "sort": order_clause.get("sort", "asc").lower()})
+                results.append({**order_clause, "sort": (order_clause.get("sort") or "asc").lower()})
 
         return results
 
@@ -257,6 +257,9 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                     continue
                 else:
                     field = self.design.get_field(arg["field"])
+                    selected = {self.design.get_field(f).id() for f in all_fields}
+                    if field.field_type != "measure" and field.id() not in selected:
+                        self._raise_order_by_error(arg["field"])
                     arg["field"] = field.alias(with_view=True)
                 order = Order.desc if arg["sort"] == "desc" else Order.asc
                 base_query = base_query.orderby(
diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 7deaea7..cc66bb6 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -29,6 +29,11 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
             )
             complete_query = complete_query.where(Criterion.all(where))
 
+        if self.order_by:
+            complete_query = self.order_by_result(
+                complete_query, self.order_by, self.metrics + self.dimensions, self.project.get_field
+            )
+
         completed_query = complete_query.limit(self.limit)
         if self.return_pypika_query:
             return completed_query
-- 
2.43.0


From 6a443037bd753466c3e9656021e1892681f8b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:12 +0000
Subject: [PATCH 66/69] fix: merged results only use columns their sub queries
 have, and a merge of one sub query keeps its metrics

---
 metrics_layer/core/sql/merged_query_resolve.py | 3 +++
 metrics_layer/core/sql/query_merged_results.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 8595e58..5e5c8a8 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -378,6 +378,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                 joinable_sets.append(joinable_graphs)
 
         canon_dates = list(sorted(list(set(canon_dates))))
+        if len(canon_dates) == 1:
+            canon_date = self.project.get_field_by_name(canon_dates[0])
+            join_hashes.append(self._cte_name_from_parts(canon_dates[0], self._join_hash_key(canon_date)))
         for to_canon_date_name in canon_dates:
             for from_canon_date_name in canon_dates:
                 if to_canon_date_name != from_canon_date_name:
diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index cc66bb6..00ba000 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -121,7 +121,7 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     )
 
         dimension_sql = {}
-        all_dimension_ids = [field.id() for fields in self.query_dimensions.values() for field in fields]
+        dimension_ids = {h: [field.id() for field in fields] for h, fields in self.query_dimensions.items()}
         for join_hash, field_set in sorted(self.query_dimensions.items()):
             for field in field_set:
                 alias = field.alias(with_view=True)
@@ -132,7 +132,9 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     dimension_sql[alias] = f"{if_null_func}({dimension_sql[alias]}, {join_hash}.{alias})"
 
                 present_fields = [
-                    f for f in mapping_lookup.get(field.id(), []) if f["field"] in all_dimension_ids
+                    f
+                    for f in mapping_lookup.get(field.id(), [])
+                    if f["field"] in dimension_ids.get(f["cte"], [])
                 ]
                 if present_fields:
                     if_null_func = if_null_lookup[self.query_type]
-- 
2.43.0


From 8e252cdc4f61f0a94bb2588bf491a3ebe94b29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:12 +0000
Subject: [PATCH 67/69] fix: cumulative metrics add their date once, and
 several conditions can have a group_by

---
 metrics_layer/core/sql/query_cumulative_metric.py | 5 +++--
 metrics_layer/core/sql/query_generator.py         | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 0ba6f30..c35e86c 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -104,7 +104,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
     def separate_metrics(self):
         cumulative_metrics, non_cumulative_metrics = [], []
-        if isinstance(self.having, str):
+        if isinstance(self.having, str) or any("literal" in h for h in flatten_filters(self.having)):
             raise QueryError("Cumulative metrics do not support a text having condition, use filter objects")
         for field_name in self.metrics + [h["field"] for h in flatten_filters(self.having)]:
             field = self.design.get_field(field_name)
@@ -148,7 +148,8 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             dimension_group = "date"
             date_name = self.cumulative_metrics[0].measure.view.default_date
             key = f"{self.cumulative_metrics[0].measure.view.name}.{date_name}_{dimension_group}"
-            self.dimensions.append(key)
+            if key not in self.dimensions:
+                self.dimensions.append(key)
             return self.date_spine_cte_name
         elif dimension_group == "date":
             return self.date_spine_cte_name
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 9a62bb7..ce30036 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -86,7 +86,12 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         if isinstance(having, str):
             metrics_in_having = self.parse_identifiers_from_clause(having)
         else:
-            metrics_in_having = [h["field"] for h in flatten_filters(having)]
+            metrics_in_having = []
+            for h in flatten_filters(having):
+                if "literal" in h:
+                    metrics_in_having.extend(self.parse_identifiers_from_clause(h["literal"]))
+                else:
+                    metrics_in_having.append(h["field"])
         for metric in metrics_in_select + metrics_in_having:
             metric_field = self.design.get_field(metric)
             for ref_field in [metric_field] + metric_field.referenced_fields(metric_field.sql):
@@ -176,7 +181,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.having_group_by_filters:
             group_by_where = []
-            for i, f in enumerate(sorted(self.having_group_by_filters)):
+            for i, f in enumerate(self.having_group_by_filters):
                 cte_alias = f"filter_subquery_{i}"
                 cte_query = f.cte(query_class=MetricsLayerQuery, design_class=MetricsLayerDesign)
                 base_query = base_query.with_(Table(cte_query), cte_alias)
-- 
2.43.0


From 45b1464892d732703f389f032db1bdcb7a80dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:16 +0000
Subject: [PATCH 68/69] fix: funnels have the primary key of their metrics also
 if a condition uses it

---
 metrics_layer/core/sql/query_funnel.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 005ce1d..dd9e996 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -264,17 +264,20 @@ class FunnelQuery(MetricsLayerQueryBase):
         return query
 
     def _enrich_query_design(self, metrics: list, dimensions: list):
-        dimensions_to_add = []
+        dimensions_to_add, dimension_ids = [], set()
         for dimension_name in dimensions:
             dimension = self.design.get_field(dimension_name)
+            dimension_ids.add(dimension.id())
             if dimension.id() not in self.design.field_lookup:
                 self.design.field_lookup[dimension.id()] = dimension
 
         for metric_name in metrics:
             metric = self.design.get_field(metric_name)
-            if metric.view.primary_key.id() not in self.design.field_lookup:
-                self.design.field_lookup[metric.view.primary_key.id()] = metric.view.primary_key
-                dimensions_to_add.append(metric.view.primary_key.id())
+            primary_key_id = metric.view.primary_key.id()
+            if primary_key_id not in dimension_ids:
+                self.design.field_lookup[primary_key_id] = metric.view.primary_key
+                dimension_ids.add(primary_key_id)
+                dimensions_to_add.append(primary_key_id)
 
             if metric.id() not in self.design.field_lookup:
                 self.design.field_lookup[metric.id()] = metric
-- 
2.43.0


From 3efc5a96f0629098f5bc03fc39e5b8c12a2367bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:16 +0000
Subject: [PATCH 69/69] fix: requests with unknown or ill-typed arguments,
 conditions and fields are refused with an error that names them

---
 .../core/sql/arbitrary_merge_resolve.py       |  11 +-
 .../core/sql/merged_query_resolve.py          |   7 +-
 metrics_layer/core/sql/query_base.py          |   3 +-
 metrics_layer/core/sql/query_filter.py        |  47 +++++-
 metrics_layer/core/sql/query_funnel.py        |   6 +
 metrics_layer/core/sql/resolve.py             |  10 ++
 .../core/sql/single_query_resolve.py          | 135 +++++++++++++++---
 7 files changed, 193 insertions(+), 26 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index ed56a45..95a154d 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -34,6 +34,7 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         self.having = having
         self.order_by = order_by
         self.limit = kwargs.pop("limit", None)
+        self.validate_arguments(where=where, having=having, order_by=order_by, limit=self.limit)
         self.project = project
         self.connections = connections
         self.connection = None
@@ -112,6 +113,11 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
             if "conditions" in clause:
                 conditions = self._replace_mapped_names(clause["conditions"], mapping_lookup)
                 result.append({**clause, "conditions": conditions})
+            elif not isinstance(clause.get("field"), str):
+                raise QueryError(
+                    "The where, having and order_by of merged queries must name a field, the condition"
+                    f" {clause} does not."
+                )
             else:
                 result.append(
                     {**clause, "field": mapping_lookup.get(clause["field"].lower(), clause["field"])}
@@ -214,7 +220,10 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
                 raise QueryError(f"Each item in merged_queries must have 'join_fields' key as a list.")
             if i > 0 and not merged_query.get("join_fields", []):
                 raise QueryError(f"Each item in merged_queries after the first must have 'join_fields' key.")
-            if i > 0:
+            if i == 0:
+                # There is nothing the first query could be joined to
+                merged_query.pop("join_fields", None)
+            else:
                 join_fields = []
                 for join_field in merged_query.get("join_fields", []):
                     if ("field" not in join_field or not isinstance(join_field.get("field"), str)) or (
diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 5e5c8a8..b7f01fa 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -128,13 +128,18 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
 
         secondary_metric_ids = [m.id() for m in self.secondary_metrics]
         merged_metric_ids = [m.id() for m in self.merged_metrics]
-        if isinstance(self.having, str):
+        if isinstance(self.having, str) or any("literal" in h for h in self.flatten_filters(self.having)):
             raise QueryError(
                 f"The having condition '{self.having}' applies to the result of several sub queries, and must be"
                 " a list of filter objects instead of text."
             )
         for h in self.flatten_filters(self.having):
             field = self.project.get_field(h["field"])
+            if field.field_type != "measure":
+                raise QueryError(
+                    f"The field {h['field']} cannot be used in a having condition, please use it in a where"
+                    " condition"
+                )
             if field.id() not in secondary_metric_ids and not field.is_merged_result:
                 self.secondary_metrics.append(field)
             elif field.id() not in merged_metric_ids and field.is_merged_result:
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 5913155..47471d1 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -80,7 +80,8 @@ class MetricsLayerQueryBase(MetricsLayerBase):
             if token.ttype == Name and not_already_added and not is_function:
                 field_names.append(str(token))
 
-            if token.ttype == Punctuation and str(token) == ".":
+            is_inside = 0 < i < len(generator) - 1
+            if token.ttype == Punctuation and str(token) == "." and is_inside:
                 if generator[i - 1].ttype == Name and generator[i + 1].ttype == Name:
                     field_names[-1] += f".{str(generator[i+1])}"
         return field_names
diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 9f23f60..42995f9 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -22,9 +22,11 @@ from metrics_layer.core.sql.query_errors import ParseError
 
 def datatype_cast(field, value, query_type):
     value_sql = ValueWrapper(EscapedString.wrap(str(value), query_type))
-    if field.datatype.upper() == "DATE":
+    # Only the fields that are dates have a datatype
+    datatype = (field.datatype or "TIMESTAMP").upper()
+    if datatype == "DATE":
         return LiteralValue(f"CAST(CAST({value_sql} AS TIMESTAMP) AS DATE)")
-    return LiteralValue(f"CAST({value_sql} AS {field.datatype.upper()})")
+    return LiteralValue(f"CAST({value_sql} AS {datatype})")
 
 
 class FunnelFilterTypes:
@@ -78,6 +80,32 @@ class MetricsLayerFilter(MetricsLayerBase):
     def is_funnel(self):
         return self.expression in {FunnelFilterTypes.converted, FunnelFilterTypes.dropped_off}
 
+    @staticmethod
+    def validate_value(expression: str, value) -> None:
+        is_collection = isinstance(value, (list, tuple, set, frozenset))
+        needs_collection = expression in {
+            MetricsLayerFilterExpressionType.IsIn.value,
+            MetricsLayerFilterExpressionType.IsNotIn.value,
+        }
+        if expression in {
+            MetricsLayerFilterExpressionType.IsNull.value,
+            MetricsLayerFilterExpressionType.IsNotNull.value,
+            MetricsLayerFilterExpressionType.BooleanTrue.value,
+            MetricsLayerFilterExpressionType.BooleanFalse.value,
+        }:
+            return
+        if expression == MetricsLayerFilterExpressionType.Matches.value and not isinstance(value, str):
+            raise ParseError(f"Filter expression: {expression} needs text as its value, got '{value}'.")
+        if needs_collection and is_collection and len(value) == 0:
+            raise ParseError(f"Filter expression: {expression} needs a non-empty value.")
+        if needs_collection and isinstance(value, (str, int, float, datetime.date)):
+            raise ParseError(f"Filter expression: {expression} needs a list as its value, got '{value}'.")
+        values = value if needs_collection and is_collection else [value]
+        if needs_collection and any(v is None for v in values):
+            raise ParseError(f"Filter expression: {expression} cannot have the value '{value}'.")
+        if any(isinstance(v, (list, tuple, set, frozenset, dict)) for v in values):
+            raise ParseError(f"Filter expression: {expression} cannot have the value '{value}'.")
+
     def validate(self, definition: Dict) -> None:
         """
         Validate the Filter definition
@@ -110,12 +138,21 @@ class MetricsLayerFilter(MetricsLayerBase):
         if key is None and filter_literal:
             return
 
+        if not isinstance(definition.get("expression"), str):
+            raise ParseError(f"An expression was not provided for filter '{definition}'.")
+
         if definition["expression"] == "UNKNOWN":
             raise NotImplementedError(f"Unknown filter expression: {definition['expression']}.")
 
+        is_funnel = definition["expression"] in {FunnelFilterTypes.converted, FunnelFilterTypes.dropped_off}
+        expression = MetricsLayerFilterExpressionType.parse(definition["expression"])
+        if expression == MetricsLayerFilterExpressionType.Unknown and not is_funnel:
+            raise QueryError(f"Unknown filter expression_type: {definition['expression']}.")
+
         no_expr = {"is_null", "is_not_null", "boolean_true", "boolean_false", "converted", "dropped_off"}
         if definition.get("value", None) is None and definition["expression"] not in no_expr:
             raise ParseError(f"Filter expression: {definition['expression']} needs a non-empty value.")
+        self.validate_value(definition["expression"], definition.get("value"))
 
         if self.design:
             self.week_start_day = self.design.week_start_day
@@ -310,6 +347,12 @@ class MetricsLayerFilter(MetricsLayerBase):
     def cte(self, query_class, design_class):
         if not self.is_group_by:
             raise QueryError("A CTE is invalid for a filter with no group_by property")
+        if self.design.get_field(self._definition["field"]).field_type != "measure":
+            raise QueryError(
+                f"A condition with a group_by must be on a metric, {self._definition['field']} is not a metric"
+            )
+        if self.design.get_field(self.group_by).field_type == "measure":
+            raise QueryError(f"A condition cannot have a group_by on a metric: {self.group_by}")
 
         having_filter = {k: v for k, v in self._definition.items() if k != "group_by"}
         field_names = [self.group_by, having_filter["field"]]
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index dd9e996..6e1da06 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -142,7 +142,11 @@ class FunnelQuery(MetricsLayerQueryBase):
         # A metric in the having conditions that is not requested is needed in the result too
         selected = set(self.design.get_field(m).id() for m in self.metrics)
         having_metrics = []
+        if isinstance(self.having, str) or any("literal" in h for h in flatten_filters(self.having)):
+            raise QueryError("Funnels do not support a text having condition, use filter objects")
         for condition in flatten_filters(self.having):
+            if "group_by" in condition:
+                raise QueryError(f"Funnels do not support a having condition with a group_by: {condition}")
             if self.design.get_field(condition["field"]).id() not in selected:
                 selected.add(self.design.get_field(condition["field"]).id())
                 having_metrics.append(condition["field"])
@@ -227,6 +231,8 @@ class FunnelQuery(MetricsLayerQueryBase):
             return Criterion.all(conditions)
         if "field" in condition:
             where_field = self.design.get_field(condition["field"])
+            if where_field.field_type == "measure":
+                raise QueryError(f"The metric {condition['field']} cannot be used in a step of a funnel")
             where_field_sql = where_field.sql_query(query_type=self.query_type, alias_only=True)
             reference_value = f"{self.base_cte_name}.{where_field_sql}"
         else:
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 144c073..4eea88e 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -32,6 +32,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.explore_name = kwargs.get("explore_name")
         self.suppress_warnings = kwargs.get("suppress_warnings", False)
         self.limit = kwargs.get("limit")
+        self.validate_arguments(metrics, dimensions, where, having, order_by, self.limit)
         self.single_query = kwargs.get("single_query", False)
         self.project = project
         self.model = self._get_model_for_query(kwargs.get("model_name"), metrics, dimensions)
@@ -59,8 +60,17 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         ]
         if mapped_always_where:
             self.where = self._add_always_where(self.where, mapped_always_where)
+        self._validate_field_types()
         self.query_type = None
 
+    def _validate_field_types(self):
+        for metric in self.metrics:
+            if self.project.get_field(metric, model=self.model).field_type != "measure":
+                raise QueryError(f"The field {metric} is not a metric, please request it as a dimension")
+        for dimension in self.dimensions:
+            if self.project.get_field(dimension, model=self.model).field_type == "measure":
+                raise QueryError(f"The field {dimension} is a metric, and cannot be requested as a dimension")
+
     @property
     def is_merged_result(self):
         has_explicit_merge = any(self.project.get_field(m).is_merged_result for m in self.metrics)
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 32af19d..8d434e8 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -1,7 +1,11 @@
-from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.exceptions import (
+    AccessDeniedOrDoesNotExistException,
+    QueryError,
+)
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.sql.query_cumulative_metric import CumulativeMetricsQuery
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
+from metrics_layer.core.sql.query_errors import ArgumentError
 from metrics_layer.core.sql.query_funnel import FunnelQuery
 from metrics_layer.core.sql.query_generator import MetricsLayerQuery
 from metrics_layer.core.utils import flatten_filters
@@ -65,6 +69,9 @@ class SingleSQLQueryResolver:
             "limit": self.limit,
             "return_pypika_query": self.return_pypika_query,
         }
+        if not self.no_group_by:
+            self._validate_condition_fields()
+
         if self.has_cumulative_metric and self.is_funnel_query:
             raise QueryError("Cumulative metrics cannot be used with funnel queries")
 
@@ -112,23 +119,33 @@ class SingleSQLQueryResolver:
                     funnel_query, design=self.design, suppress_warnings=self.suppress_warnings
                 )
 
+            for condition in self.flatten_filters(w):
+                if condition.get("expression") in {"converted", "dropped_off"} and "funnel" not in condition:
+                    raise QueryError(f"The condition {condition} needs a 'funnel' to be evaluated on")
+
             if "conditions" in w:
                 conditions = w["conditions"]
             else:
                 conditions = []
             if conditions:
-                field_types = set(
-                    [self.field_lookup[f["field"]].field_type for f in self.flatten_filters(conditions)]
-                )
-                if "measure" in field_types and (
-                    "dimension" in field_types or "dimension_group" in field_types
-                ):
-                    raise QueryError(
-                        "Cannot mix dimensions and measures in a compound filter with a logical_operator"
-                    )
+                self._validate_conditions(conditions)
             where_with_query.append(w)
         return where_with_query
 
+    def _validate_conditions(self, conditions: list):
+        flattened_conditions = self.flatten_filters(conditions)
+        for condition in flattened_conditions:
+            if any(key in condition for key in ("literal", "group_by", "funnel")):
+                raise QueryError(
+                    "Text conditions and conditions with a group_by or a funnel cannot be part of a compound filter with"
+                    f" a logical_operator: {condition}"
+                )
+        field_types = set([self.field_lookup[f["field"]].field_type for f in flattened_conditions])
+        if "measure" in field_types and ("dimension" in field_types or "dimension_group" in field_types):
+            raise QueryError(
+                "Cannot mix dimensions and measures in a compound filter with a logical_operator"
+            )
+
     def parse_having(self, having: list):
         if having is None or having == [] or self._is_literal(having):
             return having
@@ -139,15 +156,7 @@ class SingleSQLQueryResolver:
             else:
                 conditions = []
             if conditions:
-                field_types = set(
-                    [self.field_lookup[f["field"]].field_type for f in self.flatten_filters(conditions)]
-                )
-                if "measure" in field_types and (
-                    "dimension" in field_types or "dimension_group" in field_types
-                ):
-                    raise QueryError(
-                        "Cannot mix dimensions and measures in a compound filter with a logical_operator"
-                    )
+                self._validate_conditions(conditions)
             validated_having.append(h)
         return validated_having
 
@@ -180,6 +189,39 @@ class SingleSQLQueryResolver:
         for name in self._order_by_field_names:
             self.field_lookup[name] = self.get_field_with_error_handling(name, "Order by field")
 
+        # The value of a condition can be the name of a field, too
+        self._where_field_names = self._where_field_names + self._parse_value_fields(self.where)
+        self._having_field_names = self._having_field_names + self._parse_value_fields(self.having)
+
+    def _parse_value_fields(self, filters):
+        names = []
+        for condition in [] if self._is_literal(filters) else self.flatten_filters(filters):
+            value = condition.get("value")
+            if "group_by" not in condition and isinstance(value, str) and "." in value:
+                try:
+                    self.field_lookup[value] = self.project.get_field(value, model=self.model)
+                    names.append(value)
+                except AccessDeniedOrDoesNotExistException:
+                    pass
+        return names
+
+    def _validate_condition_fields(self):
+        conditions = [c for c in (self.where, self.having) if not self._is_literal(c)]
+        group_by_names = [c["group_by"] for c in self.flatten_filters(conditions) if "group_by" in c]
+        for name in self._where_field_names:
+            if self.field_lookup[name].field_type == "measure" and name not in group_by_names:
+                raise QueryError(
+                    f"The metric {name} cannot be used in a where condition, please use it in a having condition"
+                )
+        dimension_ids = [self.field_lookup[name].id() for name in self.dimensions]
+        for name in self._having_field_names:
+            field = self.field_lookup[name]
+            is_usable = name in group_by_names or field.id() in dimension_ids
+            if field.field_type != "measure" and not is_usable:
+                raise QueryError(
+                    f"The field {name} cannot be used in a having condition, please use it in a where condition"
+                )
+
     def get_field_with_error_handling(self, field_name: str, error_prefix: str):
         field = self.project.get_field(field_name, model=self.model)
         if field is None:
@@ -211,12 +253,59 @@ class SingleSQLQueryResolver:
         if funnel != {}:
             if all(k in funnel for k in ["steps", "within"]):
                 is_funnel_query = True
+                self._validate_funnel(funnel)
             else:
                 raise QueryError("Funnel query must have 'steps' and 'within' keys")
         else:
             is_funnel_query = False
         return funnel, is_funnel_query
 
+    @staticmethod
+    def _validate_funnel(funnel: dict):
+        steps, within = funnel["steps"], funnel["within"]
+        if not isinstance(steps, (list, tuple)) or not steps:
+            raise QueryError(f"The 'steps' of a funnel must be a list of one or more steps, got {steps}")
+        for step in steps:
+            is_conditions = isinstance(step, list) and all(isinstance(c, dict) for c in step)
+            if not is_conditions and not isinstance(step, str):
+                raise QueryError(f"A step of a funnel must be text or a list of conditions, got {step}")
+        try:
+            int(within["value"])
+            is_valid = isinstance(within["unit"], str) and within["unit"] != ""
+        except (KeyError, TypeError, ValueError):
+            is_valid = False
+        if not is_valid:
+            raise QueryError(f"The 'within' of a funnel must have a number 'value' and a 'unit', got {within}")
+
+    @staticmethod
+    def validate_arguments(
+        metrics: list = [],
+        dimensions: list = [],
+        where=None,
+        having=None,
+        order_by=None,
+        limit=None,
+    ):
+        for argument, names in (("metrics", metrics), ("dimensions", dimensions)):
+            if not isinstance(names, (list, tuple)) or not all(isinstance(name, str) for name in names):
+                raise ArgumentError(f"The argument '{argument}' must be a list of field names, got {names}")
+
+        for argument, clauses in (("where", where), ("having", having), ("order_by", order_by)):
+            if not clauses or isinstance(clauses, (str, dict)):
+                continue
+            if not isinstance(clauses, (list, tuple)) or not all(isinstance(c, dict) for c in clauses):
+                raise ArgumentError(
+                    f"The argument '{argument}' must be text or a list of dictionaries, got {clauses}"
+                )
+
+        if order_by and not isinstance(order_by, str):
+            for clause in [order_by] if isinstance(order_by, dict) else order_by:
+                if str(clause.get("sort") or "asc").lower() not in {"asc", "desc"}:
+                    raise ArgumentError(f"The 'sort' of an order_by must be 'asc' or 'desc', got {clause}")
+
+        if limit is not None and not str(limit).isdigit():
+            raise ArgumentError(f"The argument 'limit' must be a whole number, got {limit}")
+
     @staticmethod
     def _is_literal(clause):
         return isinstance(clause, str) or clause is None
@@ -233,12 +322,16 @@ class SingleSQLQueryResolver:
                     field_names.extend(MetricsLayerQuery.parse_identifiers_from_clause(cond["literal"]))
                 else:
                     field_names.append(cond["group_by"] if "group_by" in cond else cond["field"])
-            return field_names
         except KeyError:
-            for cond in conditions:
+            for cond in flattened_conditions:
                 if "field" not in cond:
                     break
             raise QueryError(f"Identifier was missing required 'field' key: {cond}")
+        for cond in flattened_conditions:
+            for key in ("field", "group_by"):
+                if key in cond and not isinstance(cond[key], str):
+                    raise QueryError(f"Identifier must have the name of a field as its '{key}' key: {cond}")
+        return field_names
 
     @staticmethod
     def flatten_filters(filters: list):
-- 
2.43.0

