From 67d2b680440125a77f2f13da3e45735a6c2569a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 01/34] fix: keep joins when simplifying a union of selects

Merging the where clauses of the selects of a union dropped their joins, so that
a target referenced by other targets was sampled in full.
---
 subsetter/plan_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..eba80e9 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -365,7 +365,7 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.columns != statement0.columns:
                 break
-            if statement.limit is not None:
+            if statement.limit is not None or statement.joins:
                 break
         else:
             return SQLStatementSelect(
-- 
2.43.0


From 0092808e959c85cbdac07d0fdf42d5693f4ca782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 02/34] fix: multiply foreign key columns named differently
 than the key they reference

---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..f06358e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        col
+                        for col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From b9700dfb9d90ee5751161aad291f7614a6c85125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 03/34] fix: allow inserts that leave out primary key columns

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f06358e..b5d5582 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From efc4b02f203e1f1f14466b094b3134e40a9c9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 04/34] fix: only replace the written columns on a sqlite
 conflict

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b5d5582..fcb228b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From f79dae259fd7e79feb31a623cee5090d104ed588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 05/34] fix: plan tables with foreign keys to tables that are
 not selected

---
 subsetter/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..3adb666 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,6 +182,8 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
+                if (fk.dst_schema, fk.dst_table) not in self.tables:
+                    continue
                 self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
-- 
2.43.0


From 11f2b0b73d69b025f248d9b876c1cfe16f621b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 06/34] fix: create tables with foreign keys to tables outside
 of the plan

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index fcb228b..d8d7a33 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -539,6 +539,10 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    ref_table = constraint.referred_table
+                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
+                        # The referenced table is not part of the plan.
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From fe8bffbc503aeab30d5767bc058de4a9a0affa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 07/34] fix: propagate merge offsets along chains of foreign
 keys

A table whose key is itself a foreign key is shifted by the offset of the table
that it references, so references to it must be shifted by that offset too.
Foreign keys to tables outside of the plan no longer raise a KeyError.
---
 subsetter/sampler.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index d8d7a33..7b65503 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -429,7 +429,6 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
@@ -458,31 +457,31 @@ class DatabaseOutput(SamplerOutput):
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
-        for source_table in self.plan.queries:
-            if source_table in self.passthrough_tables:
-                continue
-
-            src_schema, src_table_name = parse_table_name(source_table)
-            src_table = self.source_meta.tables[(src_schema, src_table_name)]
-            for fk in src_table.foreign_keys:
-                if len(fk.columns) != 1:
+        # Foreign key columns take on the offset of the column that they reference. As that
+        # column can itself be part of a foreign key repeat until the offsets have been
+        # propagated along the longest possible chain of tables.
+        for _ in self.plan.queries:
+            for source_table in self.plan.queries:
+                if source_table in self.passthrough_tables:
                     continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
-                    continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
-                if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = (offset + 1)
+
+                src_schema, src_table_name = parse_table_name(source_table)
+                src_offsets = self.table_offsets[
+                    self._remap_table(src_schema, src_table_name)
+                ]
+                src_table = self.source_meta.tables[(src_schema, src_table_name)]
+                for fk in src_table.foreign_keys:
+                    if f"{fk.dst_schema}.{fk.dst_table}" not in self.plan.queries:
+                        continue
+                    dst_offsets = self.table_offsets.get(
+                        self._remap_table(fk.dst_schema, fk.dst_table), {}
+                    )
+                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
+                        if dst_col in dst_offsets:
+                            src_offsets[src_col] = dst_offsets[dst_col]
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From 717907507554f7c8b2aba7448ccc28e3c7f48164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 08/34] fix: refuse explicit compaction of foreign key columns

---
 subsetter/sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7b65503..3a571db 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -778,13 +778,12 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
         for table_key, table_meta in meta.tables.items():
+            if (
+                not self.config.compact.primary_keys
+                and not self.config.compact.auto_increment_keys
+            ):
+                break
             if len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
-- 
2.43.0


From d837e0d6b429f87277b203f7d1e35a0a473f9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 09/34] fix: look up compacted keys by all columns of a
 composite foreign key

Joining on a single column of the key multiplies rows, and mysql needs one copy
of the temporary table for each join.
---
 subsetter/sampler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3a571db..0582a5f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -839,8 +839,9 @@ class Sampler:
             for fk in meta.tables[parse_table_name(table)].foreign_keys:
                 key = (fk.dst_schema, fk.dst_table)
                 compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+                join_count = sum(col in compact_cols for col in fk.dst_columns)
+                if join_count:
+                    counter[key] = counter.get(key, 0) + join_count
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -970,11 +971,7 @@ class Sampler:
                     if dst_col in self.compact_columns.get(
                         (fk.dst_schema, fk.dst_table), set()
                     ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+                        remote_compact_cols[src_col] = fk
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1002,13 +999,11 @@ class Sampler:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
-                            col.name
-                        ]
+                        remote_fk = remote_compact_cols[col.name]
                         dst_table = build_ctx(
                             SQLTableIdentifier(
-                                table_schema=dst_schema,
-                                table_name=dst_table_name,
+                                table_schema=remote_fk.dst_schema,
+                                table_name=remote_fk.dst_table,
                                 sampled=True,
                             )
                         )
@@ -1022,7 +1017,14 @@ class Sampler:
                         select_from = sa.join(
                             select_from,
                             dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
+                            sa.and_(
+                                *(
+                                    subq.columns[fk_col] == dst_table.columns[dst_col]
+                                    for fk_col, dst_col in zip(
+                                        remote_fk.columns, remote_fk.dst_columns
+                                    )
+                                )
+                            ),
                             isouter=True,
                         )
                     else:
-- 
2.43.0


From d31fee00d3c5288b9cacedb0ba1b006b58a2799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 10/34] fix: renumber keys that reference a compacted column by
 way of other tables

A table whose key is a foreign key to a compacted column takes on the new
identifiers, so references to that table must take them on as well. References
of a table to itself need their own copy of its temporary table on mysql.
---
 subsetter/sampler.py | 64 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0582a5f..4dce585 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,5 +1,6 @@
 import abc
 import collections
+import dataclasses
 import functools
 import json
 import logging
@@ -21,7 +22,7 @@ from subsetter.config_model import (
     SamplerConfig,
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
-from subsetter.metadata import DatabaseMetadata
+from subsetter.metadata import DatabaseMetadata, ForeignKey
 from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
@@ -810,6 +811,40 @@ class Sampler:
 
         return compact_columns
 
+    def _get_remote_compact_columns(
+        self,
+        meta: DatabaseMetadata,
+        table_key: Tuple[str, str],
+        visited: Tuple[Tuple[str, str], ...] = (),
+    ) -> Dict[str, ForeignKey]:
+        """
+        Calculate the set of columns of a table whose values originate from a compacted
+        column of another table. Each is mapped to a foreign key that leads directly to
+        the compacted table even if the column only references it by way of other tables.
+        """
+        result: Dict[str, ForeignKey] = {}
+        if table_key not in meta.tables or table_key in visited:
+            return result
+
+        for fk in meta.tables[table_key].foreign_keys:
+            dst_key = (fk.dst_schema, fk.dst_table)
+            compact_cols = self.compact_columns.get(dst_key, set())
+            dst_remote_cols = self._get_remote_compact_columns(
+                meta, dst_key, (*visited, table_key)
+            )
+            src_cols = dict(zip(fk.dst_columns, fk.columns))
+            for dst_col, src_col in src_cols.items():
+                remote_fk = dst_remote_cols.get(dst_col)
+                if dst_col in compact_cols:
+                    result[src_col] = fk
+                elif remote_fk and all(col in src_cols for col in remote_fk.columns):
+                    result[src_col] = dataclasses.replace(
+                        remote_fk,
+                        columns=tuple(src_cols[col] for col in remote_fk.columns),
+                    )
+
+        return result
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -836,12 +871,13 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
+            for fk in self._get_remote_compact_columns(
+                meta, parse_table_name(table)
+            ).values():
                 key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                join_count = sum(col in compact_cols for col in fk.dst_columns)
-                if join_count:
-                    counter[key] = counter.get(key, 0) + join_count
+                # A table that references itself is also read from itself.
+                own_count = int(key == parse_table_name(table))
+                counter[key] = counter.get(key, own_count) + 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -957,7 +993,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
@@ -965,13 +1005,9 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = fk
+            remote_compact_cols = self._get_remote_compact_columns(
+                meta, (schema, table_name)
+            )
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
-- 
2.43.0


From 20d39e443823281c69bbb2770de62ef655f133dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 11/34] fix: support unions with limited selects on sqlite

---
 subsetter/plan_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eba80e9..6864295 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,14 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        selects = [statement.build(context) for statement in self.statements]
+        return sa.union(
+            *(
+                # Not all dialects support a limit within part of a union.
+                select if statement.limit is None else sa.select(select.subquery())
+                for statement, select in zip(self.statements, selects)
+            )
+        )
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From 07d6140c58d74b0dc450de9c8e6d688e2f4f9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 12/34] fix: sample the configured percentage on sqlite

random() is a signed integer on sqlite so comparing it with a fraction selected
about half of the rows whatever the percentage.
---
 subsetter/plan_model.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 6864295..7f901ba 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,7 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +14,26 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+# pylint: disable=too-many-ancestors,abstract-method
+class RandomFraction(sa.sql.functions.FunctionElement):
+    """Evaluates to a random number in the range [0, 1)"""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(RandomFraction)
+def _random_fraction(element, compiler, **kwargs) -> str:
+    # pylint: disable=not-callable
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(RandomFraction, "sqlite")
+def _random_fraction_sqlite(element, compiler, **kwargs) -> str:
+    # random() is a random 64-bit signed integer on sqlite
+    return "((random() & 9007199254740991) / 9007199254740992.0)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +210,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return RandomFraction() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From 12234849a4b3744147923ccef8d012530ddf4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 13/34] fix: apply table constraints to target tables

The constraints of a target that no other table references were ignored.
---
 subsetter/planner.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..4a66e41 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,6 +284,15 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        conf_constraints = self.config.table_constraints.get(
+            f"{table.schema}.{table.name}", []
+        )
+        if conf_constraints and rev_foreign_keys:
+            raise ValueError(
+                f"Cannot apply table constraints to {table} without violating "
+                "foreign key constraints of previously sampled tables",
+            )
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
@@ -341,20 +350,11 @@ class Planner:
                 )
             )
 
-        conf_constraints = self.config.table_constraints.get(
-            f"{table.schema}.{table.name}", []
-        )
         conf_constraints_sql: List[SQLWhereClause] = []
-        if conf_constraints and rev_foreign_keys:
-            raise ValueError(
-                f"Cannot apply table constraints to {table} without violating "
-                "foreign key constraints of previously sampled tables",
-            )
-
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
-                    "Table {table} has no column {conf_constraint.column!r} for table constraint",
+                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                 )
 
             conf_constraints_sql.append(
@@ -427,6 +427,8 @@ class Planner:
             if target.all_:
                 target_constraints.clear()
 
+            target_constraints.extend(conf_constraints_sql)
+
             statements.append(
                 SQLStatementSelect(
                     type_="select",
-- 
2.43.0


From 72e6b81ee9908e4e0d0b9614afff790877124db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 14/34] fix: use the default sampler options if there is no
 sampler section

---
 subsetter/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..0d5263a 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -6,7 +6,11 @@ from typing import Any
 
 import yaml
 
-from subsetter.config_model import DatabaseOutputConfig, SubsetterConfig
+from subsetter.config_model import (
+    DatabaseOutputConfig,
+    SamplerConfig,
+    SubsetterConfig,
+)
 from subsetter.plan_model import SubsetPlan
 from subsetter.planner import Planner
 from subsetter.sampler import Sampler
@@ -192,7 +196,7 @@ def _main_sample(args):
         )
         sys.exit(1)
 
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
@@ -208,7 +212,7 @@ def _main_subset(args):
         sys.exit(1)
 
     plan = Planner(config.source, config.planner).plan()
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
-- 
2.43.0


From b31848502c96e22275e0624f06e93aadb494484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 15/34] fix: reject omit filters for columns that do not exist

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..4e1b03a 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -173,6 +173,7 @@ class FilterOmit(FilterView):
     def __init__(self, columns_in: Iterable[str], columns_act: Iterable[str]) -> None:
         columns_in = tuple(columns_in)
         self.columns_act = tuple(columns_act)
+        _validate_and_index(str(type(self)), columns_in, self.columns_act)
         column_act_set = set(self.columns_act)
         columns_out = tuple(
             column for column in columns_in if column not in column_act_set
-- 
2.43.0


From 1dd4b6f786ff4b3e66220945b9113424268caf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 16/34] fix: do not let names of temporary tables differ in
 case only

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 4dce585..05121e4 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -58,8 +58,9 @@ class TempTableCreator:
         name = "".join(ch for ch in name if ch.isalnum())[:40]
         if not name:
             name = "anon"
-        cnt = self.name_counts.get(name, 0)
-        self.name_counts[name] = cnt + 1
+        # Table names are not case sensitive for all dialects.
+        cnt = self.name_counts.get(name.lower(), 0)
+        self.name_counts[name.lower()] = cnt + 1
         if cnt:
             return f"{self.NAME_PREFIX}{name}_{cnt}"
         return f"{self.NAME_PREFIX}{name}"
-- 
2.43.0


From 22ab42b4554284a3787742b5d61a78a94891a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 17/34] fix: let the dialect from the environment govern all
 connection settings

---
 subsetter/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..9b0e458 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -184,9 +184,13 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if dialect is None and env_prefix is not None:
+            dialect = os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -196,7 +200,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect or DEFAULT_DIALECT,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -206,7 +210,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From e705a308aba5d6018888ea1d39f6304068c63b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 18/34] fix: verify the server certificate and identity on
 mysql

The driver does not know the verify_cert and verify_identity keys, so that the
certificate was never verified without a CA and verified in full with one,
whatever the configuration.
---
 subsetter/common.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 9b0e458..f2d3dd6 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -144,12 +145,14 @@ class DatabaseConfig(BaseModel):
                     "cert": client_cert,
                 }
                 result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
+                result["verify_mode"] = server_verify in ("cert", "identity")
+                result["check_hostname"] = server_verify == "identity"
+                if server_verify == "identity" and not server_rootcert:
+                    # The driver only checks the host name if it is given a CA, use
+                    # the CAs of the system as it would by default.
+                    paths = ssl.get_default_verify_paths()
+                    system_ca = {"ca": paths.cafile, "capath": paths.capath}
+                    result.update({key: val for key, val in system_ca.items() if val})
                 return {"ssl": result}
 
             raise ValueError("Dialect does not support ssl")
-- 
2.43.0


From 7b9bbc60b4a5c9d7cddd086c2e5e0c306193e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 19/34] fix: never move the key sequences of postgres backwards

currval() only knows of sequences advanced by the same session, so the state
that the sequence had before sampling was never taken into account. Table names
also have to be quoted to be recognized.
---
 subsetter/sampler.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 05121e4..a00cb88 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -251,21 +251,20 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         return None
     assert engine.dialect.name == "postgresql"
 
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    # Note that currval() is only defined within the session that advanced the sequence.
+    with engine.connect() as conn:
+        result = conn.execute(
+            sa.text(
+                "SELECT pg_sequence_last_value("
+                "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
+            ),
+            {
+                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "col": table.autoincrement_column.name,
+            },
+        )
+        row = next(iter(result), None)
+        return row[0] if row else None
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
@@ -289,7 +288,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From 9b3602eb086ad463eb583072e5cd3e6ed0a21ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 20/34] fix: do not fail on nulls in the ordering conditions of
 multiplex filters

---
 subsetter/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 4e1b03a..62aa643 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -575,6 +575,9 @@ class MultiplexCondition(BaseModel):
             return value == self.value
         if op == "!=":
             return value != self.value
+        if value is None:
+            # As in SQL, nulls are not ordered and do not match any pattern.
+            return False
         if op == "<":
             return value < self.value
         if op == ">":
-- 
2.43.0


From 28264494cbe535c717b0ceed0e238e4e60aa7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 21/34] fix: report missing destination tables instead of
 dropping their rows

---
 subsetter/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a00cb88..b2af8fa 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -602,6 +602,11 @@ class DatabaseOutput(SamplerOutput):
             remapped_table = self.table_remap.get(table)
             if remapped_table:
                 result.append(remapped_table)
+        missing_tables = set(self.table_remap.values()) - set(result)
+        if missing_tables:
+            raise ValueError(
+                f"Destination is missing tables for {sorted(missing_tables)}"
+            )
         return result
 
     def output_result_set(
-- 
2.43.0


From 878909afb4172b07f666e382ded7cb6956711427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 22/34] fix: group raw sql conditions when combining them with
 others

---
 subsetter/plan_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 7f901ba..8ed19aa 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -228,7 +228,8 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        # Raw SQL is not automatically grouped when combined with other conditions.
+        clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From 684d123df171e17ac0b08945cad6ea277bf332c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 23/34] fix: let all override the amount of a target

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 4a66e41..72db6d6 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -437,7 +437,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From 8a17579af14aa68dd64ca76f4b03b5f24fcdfe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 24/34] fix: accept keys below one when updating sequences

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b2af8fa..bcaf4d0 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -280,8 +280,9 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         return
     assert engine.dialect.name == "postgresql"
 
+    # Sequences start at one; setting them to a lower value is an error.
     curval = _autoincrement_get(engine, table)
-    if curval is not None and curval > value:
+    if value < 1 or (curval is not None and curval > value):
         return
 
     with engine.connect() as conn:
-- 
2.43.0


From 07b2bf4ecbf85556b895a93a65e545c7cabccfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 25/34] fix: name foreign key cycles in the direction of the
 foreign keys

A cycle found while searching the reversed graph was reported backwards.
---
 subsetter/solver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subsetter/solver.py b/subsetter/solver.py
index e41d220..4f0fa80 100644
--- a/subsetter/solver.py
+++ b/subsetter/solver.py
@@ -152,17 +152,26 @@ def order_graph(G: GraphT, source: NodeT) -> List[NodeT]:
     #   Then final ordering is concatenation of all H_i
 
     RG = reverse_graph(G)
+    forward = True
 
     if not G[source]:
         G, RG = RG, G
+        forward = False
 
     vis = {source}
     H = [source]
     result = [source]
     while H:
-        H = toposort_reachable(G, H, vis)
+        try:
+            H = toposort_reachable(G, H, vis)
+        except CycleException as exc:
+            if not forward:
+                # The search ran against the direction of the edges
+                raise CycleException(exc.cycle[::-1]) from exc
+            raise
         result.extend(H)
         vis.update(H)
         G, RG = RG, G
+        forward = not forward
 
     return result
-- 
2.43.0


From 6a710bb3a868e956441ac156348ec45b0beaf834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 26/34] fix: match planned, passthrough and destination tables
 by name rather than as patterns

---
 subsetter/planner.py | 4 +++-
 subsetter/sampler.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 72db6d6..d961693 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -1,3 +1,4 @@
+import glob
 import logging
 from typing import Dict, Iterable, List, Optional, Set, Tuple
 
@@ -44,7 +45,8 @@ class Planner:
         LOGGER.info("Scanning schema")
         meta, extra_tables = DatabaseMetadata.from_engine(
             self.engine,
-            self.config.select + self.config.passthrough,
+            self.config.select
+            + [glob.escape(table) for table in self.config.passthrough],
             close_forward=self.config.include_dependencies,
         )
         self.meta = meta
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bcaf4d0..5fe6dcc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -2,6 +2,7 @@ import abc
 import collections
 import dataclasses
 import functools
+import glob
 import json
 import logging
 import os
@@ -417,7 +418,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -736,7 +737,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From 72ffc5095b7ac10333d050b37555d580f7af51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 27/34] fix: keep colons in check constraints of created tables

---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5fe6dcc..f9ba6f1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -537,8 +537,11 @@ class DatabaseOutput(SamplerOutput):
                         sa.UniqueConstraint(*_remap_cols(constraint.columns))
                     )
                 if isinstance(constraint, sa.CheckConstraint):
+                    # Colons in the condition do not start the name of a parameter.
                     remapped_table_obj.append_constraint(
-                        sa.CheckConstraint(constraint.sqltext)
+                        sa.CheckConstraint(
+                            sa.literal_column(constraint.sqltext.text)  # type: ignore
+                        )
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
                     ref_table = constraint.referred_table
-- 
2.43.0


From c5cb4ac3af9413fe4bb8fa042e9161eb97dfdb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 28/34] fix: create indexes on expressions as they are in the
 source

---
 subsetter/sampler.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f9ba6f1..6d2b188 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -14,6 +14,7 @@ from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
+from sqlalchemy.sql.visitors import replacement_traverse
 
 from subsetter.common import DatabaseConfig, parse_table_name, pydantic_search
 from subsetter.config_model import (
@@ -525,6 +526,13 @@ class DatabaseOutput(SamplerOutput):
                 for col in cols
             ]
 
+        def _remap_index_expr(table_obj: sa.Table, elem, **_):
+            if isinstance(elem, sa.Column):
+                return table_obj.columns[elem.name]
+            if isinstance(elem, sa.TextClause):
+                return sa.literal_column(elem.text)
+            return None
+
         # Copy table constraints including foreign key constraints.
         for table, remapped_table_obj in table_obj_map.items():
             if remapped_table_obj not in tables_created:
@@ -562,13 +570,14 @@ class DatabaseOutput(SamplerOutput):
                 sa.Index(
                     f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
                     *(
-                        (
-                            remapped_table_obj.columns[col.name]
-                            if isinstance(col, sa.Column)
-                            else col
+                        replacement_traverse(
+                            expr,
+                            {},
+                            functools.partial(_remap_index_expr, remapped_table_obj),
                         )
-                        for col in index.columns
+                        for expr in index.expressions
                     ),
+                    _table=remapped_table_obj,
                     unique=index.unique,
                     dialect_options=index.dialect_options,
                     **index.dialect_kwargs,
-- 
2.43.0


From d39f36776fd8a076046714bd0c1a8adda4ab1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 29/34] fix: shorten names of created indexes that are too long
 for the database

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6d2b188..a5e5c98 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -12,6 +12,7 @@ from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
 import sqlalchemy as sa
 from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.schema import conv
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
 from sqlalchemy.sql.visitors import replacement_traverse
@@ -568,7 +569,8 @@ class DatabaseOutput(SamplerOutput):
 
             for index_idx, index in enumerate(table_obj.indexes):
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    # Names that are too long for the dialect get shortened.
+                    conv(f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"),
                     *(
                         replacement_traverse(
                             expr,
-- 
2.43.0


From 3ae01701b3cbe71f63f062ff64574790baefa0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 30/34] fix: write NULL to nullable JSON columns as NULL
 instead of JSON null

---
 subsetter/sampler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a5e5c98..37fd831 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -649,6 +649,14 @@ class DatabaseOutput(SamplerOutput):
                 f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
             )
 
+        # By default SQLAlchemy writes None to JSON columns as JSON null. Only do so where
+        # the value cannot have been NULL.
+        for table_col in table.table_obj.columns:
+            if isinstance(table_col.type, sa.JSON):
+                table_col.type = table_col.type.adapt(
+                    type(table_col.type), none_as_null=bool(table_col.nullable)
+                )
+
         # Automatically omit any included computed columns
         computed_columns = [
             col for col in columns_out if table.table_obj.columns[col].computed
-- 
2.43.0


From 477852d6bb26855d0bc655fea123df8ac15cc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 31/34] fix: keep the session settings of postgres connections
 after a rollback

---
 subsetter/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index f2d3dd6..6e294bf 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -225,6 +225,10 @@ class DatabaseConfig(BaseModel):
             finally:
                 cursor.close()
 
+            # Session settings made within a transaction only outlast it if it is
+            # committed (e.g. in postgres).
+            dbapi_connection.commit()
+
         return engine
 
 
-- 
2.43.0


From 8d675c179b1ce39da3d741880aa16d0cd9557390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 32/34] fix: empty configuration files do not discard the
 settings of earlier ones

---
 subsetter/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index 0d5263a..5fb9121 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -123,7 +123,10 @@ def _get_config(args) -> SubsetterConfig:
         for config_file in config_files:
             try:
                 with _open_config_path(config_file) as fconfig:
-                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
+                    file_data = yaml.safe_load(fconfig)
+                # A file that is empty does not set anything.
+                if file_data is not None:
+                    config_data = _dict_merge(config_data, file_data)
             except IOError as exc:
                 LOGGER.error(
                     "Could not open subsetter config file %r: %s",
-- 
2.43.0


From 70ad5c4802e01b93254be1976ec83bfa098085b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:24 +0000
Subject: [PATCH 33/34] fix: keep names of temporary tables distinct in
 databases that limit their bytes

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 37fd831..179076e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -58,7 +58,9 @@ class TempTableCreator:
         self.name_counts: Dict[str, int] = {}
 
     def _generate_name(self, name: str) -> str:
-        name = "".join(ch for ch in name if ch.isalnum())[:40]
+        name = "".join(ch for ch in name if ch.isalnum())
+        # Some dialects limit the number of bytes in a name.
+        name = name.encode("utf-8")[:40].decode("utf-8", "ignore")
         if not name:
             name = "anon"
         # Table names are not case sensitive for all dialects.
-- 
2.43.0


From 1a41a843119a485e9c6657000e6c2224377dc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:22 +0000
Subject: [PATCH 34/34] fix: refuse unusable compaction settings before
 anything is written

Whether the configured columns can be compacted was only checked after
destination tables had been created and truncated.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 179076e..14b7104 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -771,6 +771,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -780,7 +781,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0

