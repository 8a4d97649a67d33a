From 2d278b83df81ecbe3d7a2ea56e35921abaaace69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 001/182] fix: disabling an operator globally removes
 contradicting scan and join assignments when requested

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..fd7eec3 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
-- 
2.43.0


From d3d8f2216ebfb3cf6bb821a533133e96de31bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 002/182] fix: operator assignments can be looked up through
 singleton iterables and intermediate operators

---
 postbound/_hints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index fd7eec3..cc014bc 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -555,7 +555,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
@@ -564,12 +564,12 @@ class PhysicalOperatorAssignment:
         self,
         item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, (ScanOperator, JoinOperator, IntermediateOperator)):
             return self.global_settings.get(item, None)
         elif isinstance(item, TableReference):
             return self.scan_operators.get(item, None)
         elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+            return self.get(item, None)
         else:
             return None
 
-- 
2.43.0


From d04e69decd357248839ab967324c60a716bd2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 003/182] fix: comparison of operator assignments considers the
 intermediate operators

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index cc014bc..92a7029 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -579,6 +579,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -588,6 +589,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 8cb9ce24a8556be046006502fe97b79238afd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 004/182] fix: assignments without a worker choice are equal to
 each other (NaN workers)

---
 postbound/_hints.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 92a7029..e21e48c 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -881,6 +881,11 @@ class PlanParameterization:
         )
 
 
+def _same_workers(a: float | int, b: float | int) -> bool:
+    """Checks, whether two worker numbers are the same. *NaN* (i.e. no choice) is only the same as *NaN*."""
+    return a == b or (math.isnan(a) and math.isnan(b))
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -904,7 +909,7 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash((self._operator, self._table))
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -969,7 +974,7 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _same_workers(self.parallel_workers, other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1018,7 +1023,7 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash((self._operator, self._join))
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1107,7 +1112,7 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _same_workers(self._parallel_workers, other._parallel_workers)
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From fa0d8081b207720ab2a86729ee708aaa4b362b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 005/182] fix: operator assignments with intermediate operators
 can be printed

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index e21e48c..e64fd45 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -614,11 +614,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (operator, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, operator in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {operator.value}" for operator, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 6921257b3716b7e632460669665140d6be5c949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 006/182] fix: equal dictionaries have the same hash, no matter
 their insertion order

---
 postbound/util/dicts.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..e5f52e8 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,21 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
+    items = []
+    for key, val in dictionary.items():
         if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
+            items.append((key, hash(val)))
+        elif isinstance(val, list):
+            items.append((key, hash(tuple(val))))
+        elif isinstance(val, set):
+            items.append((key, hash(frozenset(val))))
         elif isinstance(val, dict):
-            values.append(hash_dict(val))
+            items.append((key, hash_dict(val)))
         else:
             warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+            items.append((key, 0))
+    # equal dictionaries might have been filled in different orders
+    return hash(frozenset(items))
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
-- 
2.43.0


From 4c81abcb373668510c64ddfcc5c38443ff094e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 007/182] fix: merging plan parameters keeps the execution mode

---
 postbound/_hints.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index e64fd45..fd4f870 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -828,6 +828,11 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            self.execution_mode
+            if other_parameters.execution_mode is None
+            else other_parameters.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
-- 
2.43.0


From 4bdd02f448475d57b6adccc9e4838f72956e882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 008/182] fix: infinite cardinalities are ordered like numbers

---
 postbound/_core.py | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..656dde2 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -273,73 +273,49 @@ class Cardinality(Number):
         return Cardinality(float(other) % self.value)
 
     def __lt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value < otherval
+            case Cardinality():
+                return self._number() < other._number()
 
             case int() | float():
-                return self.value < other
+                return self._number() < other
 
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value <= otherval
+            case Cardinality():
+                return self._number() <= other._number()
 
             case int() | float():
-                return self.value <= other
+                return self._number() <= other
 
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value > otherval
+            case Cardinality():
+                return self._number() > other._number()
 
             case int() | float():
-                return self.value > other
+                return self._number() > other
 
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value >= otherval
+            case Cardinality():
+                return self._number() >= other._number()
 
             case int() | float():
-                return self.value >= other
+                return self._number() >= other
 
         return NotImplemented
 
+    def _number(self) -> int | float:
+        """The plain number behind this cardinality: an exact integer, *NaN* or *inf*."""
+        return self._value if self._valid else float(self)
+
     def __float__(self) -> float:
         if self._nan:
             return math.nan
-- 
2.43.0


From 2481f9e8c76f50a7d31acce062f5caad3c3ab3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 009/182] fix: comparing a valid with an invalid cardinality
 does not raise, and equal numbers share their hash

---
 postbound/_core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 656dde2..b4cc10a 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -342,9 +342,7 @@ class Cardinality(Number):
             case Cardinality():
                 if self._nan and other._nan:
                     return True
-                if self._inf and other._inf:
-                    return True
-                return self.value == other.value
+                return self._number() == other._number()
 
             case int():
                 return self._valid and self.value == other
@@ -359,8 +357,8 @@ class Cardinality(Number):
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # Cardinalities are equal to the numbers that they wrap, so they have to share their hash
+        return hash(self._number())
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 9bca01758ad97a96cc38d694f3f29cf456574370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 010/182] fix: integer division of cardinalities rounds down

---
 postbound/_core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index b4cc10a..ccc0018 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -232,11 +232,15 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        quotient, _ = divmod(self, other)
+        return Cardinality(quotient)
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(
+        self, other: SupportsFloat | SupportsIndex
+    ) -> Cardinality:
+        quotient, _ = divmod(other, self)
+        return Cardinality(quotient)
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
-- 
2.43.0


From 51f50c6ad671631bd1d33c857098161998606ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 011/182] fix: updated table references keep their schema

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index ccc0018..be16335 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -836,7 +836,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -856,7 +858,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From 5488c659f751c42a2436aec8a350acef7432f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 012/182] fix: quotes within identifiers are escaped

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index be16335..4bc5a69 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -578,7 +578,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From 907d97d26c3a630b0a95a69c4cfebd3fb1155040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 013/182] fix: the shape of a join tree is determined by all of
 its joins

---
 postbound/_hints.py    |  4 +++-
 postbound/opt/tonic.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index fd4f870..360d914 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1437,7 +1437,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        if self._outer.is_scan():
+            return self._inner.is_linear()
+        return self._inner.is_scan() and self._outer.is_linear()
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..39bba77 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -118,6 +118,15 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     return list(_iterate_query_plan(right_child)) + [current_node]
 
 
+def _joins_intermediates(node: JoinTree | QueryPlan) -> bool:
+    """Checks, whether a specific join combines two intermediates, i.e. none of its inputs is a base table."""
+    if node.is_scan():
+        return False
+    return all(
+        len(child.tables()) > 1 for child in (node.outer_child, node.inner_child)
+    )
+
+
 def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
     """Provides all joins along the deepest join path in the join tree.
 
@@ -461,7 +470,7 @@ class QEPsNode:
                 JoinOperatorAssignment(recommendation, self.tables())
             )
 
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
@@ -558,7 +567,7 @@ class QEPsNode:
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
+        if _joins_intermediates(next_node):
             first_child, second_child = (
                 (second_child, first_child)
                 if second_child.plan_depth() < first_child.plan_depth()
@@ -643,7 +652,7 @@ class QEPsNode:
             unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
 
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
                 if next_join.outer_child.plan_depth()
-- 
2.43.0


From a3a38926695a06b8fb196d8b097e60a1cefd0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 014/182] fix: join trees derived from logical join trees are
 logical join trees

---
 postbound/_hints.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 360d914..306661b 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1569,12 +1569,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = self.scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return self.join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1610,7 +1610,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return self.scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
@@ -1722,7 +1722,14 @@ class LogicalJoinTree(JoinTree[Cardinality]):
         return super().lookup(table)
 
     def update_annotation(self, new_annotation: Cardinality) -> LogicalJoinTree:
-        return super().update_annotation(new_annotation)
+        if self.is_empty():
+            raise StateError("Cannot update annotation of an empty join tree.")
+        return LogicalJoinTree(
+            table=self._table,
+            outer=self._outer,
+            inner=self._inner,
+            annotation=new_annotation,
+        )
 
     def join_with(
         self,
-- 
2.43.0


From 01e56f011c095b48f600c1e7039aba402dde9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 015/182] fix: join trees extracted from query plans are
 logical join trees

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 306661b..ca73340 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1798,11 +1798,11 @@ def jointree_from_plan(
         else plan.actual_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
-- 
2.43.0


From f188d9b09581eba82b220793b8d583fd5a0de578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 016/182] fix: searching a query plan considers the subplans of
 all nodes

---
 postbound/_qep.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..ff0c030 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1483,30 +1483,14 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
 
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        candidates = self.children if direction == "outer" else self.children[::-1]
+        for child in candidates:
+            match = child.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match is not None:
+                return match
 
         return (
             self._subplan.root.find_first_node(
-- 
2.43.0


From 9c0b132be3fe8711e9c53347f4e8e75d31ea9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 017/182] fix: the shape of a query plan is determined by all
 of its joins

---
 postbound/_qep.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index ff0c030..8266ae7 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1283,20 +1283,18 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return all(
+            join.outer_child.find_first_node(QueryPlan.is_join) is None
+            or join.inner_child.find_first_node(QueryPlan.is_join) is None
+            for join in self.find_all_nodes(QueryPlan.is_join)
+        )
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return not self.is_linear()
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1306,8 +1304,10 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return all(
+            join.inner_child.find_first_node(QueryPlan.is_join) is None
+            for join in self.find_all_nodes(QueryPlan.is_join)
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1317,8 +1317,10 @@ class QueryPlan:
         """
         if self.is_scan():
             return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return all(
+            join.outer_child.find_first_node(QueryPlan.is_join) is None
+            for join in self.find_all_nodes(QueryPlan.is_join)
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
-- 
2.43.0


From fe4f49ecd266532a92c654a139f3e494e24e6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 018/182] fix: membership of query plan properties can be
 tested by name

---
 postbound/_qep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 8266ae7..961a6fd 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1913,7 +1913,7 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif not isinstance(key, str) and isinstance(key, Iterable):
             return set(key).issubset(self.tables())
 
         return (
-- 
2.43.0


From b38c400bc94e02f6d52876a801af999e5d4b9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 019/182] fix: the q-error of a query plan is not rounded and
 undefined without a measured cardinality

---
 postbound/_qep.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 961a6fd..1a4ffc4 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1577,9 +1577,13 @@ class QueryPlan:
         if not self.is_analyze():
             return math.nan
 
-        larger = max(self.estimated_cardinality, self.actual_cardinality) + 1
-        smaller = min(self.estimated_cardinality, self.actual_cardinality) + 1
-        return larger / smaller
+        estimate, actual = (
+            self.estimated_cardinality.get(),
+            self.actual_cardinality.get(),
+        )
+        if math.isnan(estimate) or math.isnan(actual):
+            return math.nan
+        return (max(estimate, actual) + 1) / (min(estimate, actual) + 1)
 
     def parallelize(self, workers: int) -> QueryPlan:
         """Creates a parallel version of the query plan with the specified number of workers.
-- 
2.43.0


From 2de6fe4d738f0b77b5a11c72bd4be40317cf686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 020/182] fix: unknown cardinalities are swapped into query
 plans on request

---
 postbound/_qep.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 1a4ffc4..661c4a6 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1665,12 +1665,8 @@ class QueryPlan:
             A new query plan with the actual cardinality as the estimated cardinality and the actual execution time as the
             estimated cost. The current plan is not changed.
         """
-        if self.actual_cardinality:
-            updated_cardinality = (
-                self.estimated_cardinality
-                if ignore_nan and self.actual_cardinality.isnan()
-                else self.actual_cardinality
-            )
+        if not ignore_nan or not self.actual_cardinality.isnan():
+            updated_cardinality = self.actual_cardinality
             updated_cost = (
                 cost_estimator(self, updated_cardinality)
                 if cost_estimator
-- 
2.43.0


From 01482cb12a1ca9fb00336993ff29faf4ba40ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 021/182] fix: scaling the cardinality of a query plan keeps
 all other data

---
 postbound/_qep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 661c4a6..4de2f70 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1747,6 +1747,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1758,7 +1760,9 @@ class QueryPlan:
         else:
             updated_children = self.children
 
-        if self.subplan:
+        if not recursive:
+            updated_subplan = self.subplan
+        elif self.subplan:
             updated_subplan_root = self.subplan.root.scale_cardinality(
                 factor, kind=kind, recursive=recursive
             )
-- 
2.43.0


From d249a69660977262e346839b1d7d5494401b0fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 022/182] fix: exploding a query plan uses the requested
 cardinalities for its join tree

---
 postbound/opt/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..cf8684f 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -684,7 +684,10 @@ def explode_query_plan(
         The different components of the query plan
     """
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(
+            query_plan,
+            card_source="actual" if card_source == "actual" else "estimates",
+        ),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
-- 
2.43.0


From 2df6be01700336635ba3e5f4031d82911430bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 023/182] fix: workers are extracted from all operators of a
 query plan

---
 postbound/_hints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index ca73340..a414b12 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1866,7 +1866,9 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
@@ -1888,6 +1890,6 @@ def operators_from_plan(
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From b7f529c9ffb883d4750e0e728c28bda056f05f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 024/182] fix: operators can be extracted from query plans with
 auxiliary leaf nodes

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a414b12..a86656a 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1886,6 +1886,8 @@ def operators_from_plan(
                 parallel_workers=workers,
             )
             assignment.add(operator)
+        case None:
+            pass  # auxiliary nodes without a dedicated operator, e.g. the inputs of bitmap scans
         case _:
             assignment.add(query_plan.operator, query_plan.tables())
 
-- 
2.43.0


From e4bfb5333ac1fed15595dc7e2958d711869bf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 025/182] fix: parameters can be extracted from join trees
 without cardinalities

---
 postbound/_hints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a86656a..bb53e6b 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1840,7 +1840,7 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if not math.isnan(card):
+    if card is not None and not math.isnan(card):
         params.add_cardinality(query_plan.tables(), card)
     if parallel_workers:
         params.set_workers(query_plan.tables(), parallel_workers)
-- 
2.43.0


From 9854bfc77d53b9d9015f6d33648e03065003492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 026/182] fix: query plans can be created from operator
 assignments

---
 postbound/opt/_helpers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index cf8684f..31de45e 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -404,11 +404,21 @@ def _make_custom_plan(
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
+        outer_plan = _make_custom_plan(
+            join_tree.outer_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        inner_plan = _make_custom_plan(
+            join_tree.inner_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
         children = (outer_plan, inner_plan)
     else:
-- 
2.43.0


From 546928cde90fe19d30f490a578717e675846ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 027/182] fix: created query plans use the assigned operators

---
 postbound/opt/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 31de45e..ba5a11d 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -395,7 +395,8 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assigned = physical_ops.get(tables)
+    operator = assigned.operator if assigned else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
-- 
2.43.0


From 4b6d0be86f176c8d60c6f17a66df5d3a16853cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 028/182] fix: scans of created query plans reference their
 base table

---
 postbound/opt/_helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ba5a11d..d073058 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -347,8 +347,14 @@ def _make_simple_plan(
         operator = scan_op
         children = []
 
+    base_table = join_tree.base_table if join_tree.is_scan() else None
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=base_table,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
     filter_condition = (
@@ -361,6 +367,7 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=base_table,
         estimated_cardinality=cardinality,
         filter_condition=filter_condition,
     )
@@ -425,10 +432,12 @@ def _make_custom_plan(
     else:
         children = []
 
+    base_table = join_tree.base_table if join_tree.is_scan() else None
     if query is None:
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
@@ -444,6 +453,7 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             filter_condition=filter_condition,
             parallel_workers=par_workers,
-- 
2.43.0


From a96f2879f753bf3559140f42d6a127970f4792ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 029/182] fix: created query plans expose their filter
 predicates

---
 postbound/opt/_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index d073058..1235f1d 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -369,7 +369,7 @@ def _make_simple_plan(
         children=children,
         base_table=base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_condition,
     )
 
 
@@ -455,7 +455,7 @@ def _make_custom_plan(
             children=children,
             base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_condition,
             parallel_workers=par_workers,
         )
 
-- 
2.43.0


From f3d981bcaa476c1728b2abafd51be9d90c4be69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 030/182] fix: query plans can be created from join trees
 without cardinalities

---
 postbound/opt/_helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 1235f1d..1400ee2 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -321,7 +321,9 @@ def _make_simple_plan(
     tables = frozenset(join_tree.tables())
     if plan_params and plan_params.cardinalities.get(tables, None):
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif (
+        isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None
+    ):
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
@@ -393,7 +395,9 @@ def _make_custom_plan(
     tables = frozenset(join_tree.tables())
     if plan_params and plan_params.cardinalities.get(tables, None):
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif (
+        isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None
+    ):
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
-- 
2.43.0


From 41c9769a3746ed1f7983e7b37759ea6ac8820206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 031/182] fix: exhaustive plan enumeration passes its operators
 as an assignment

---
 postbound/opt/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..6ff7222 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -430,4 +430,4 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(join_order, physical_ops=operator_assignment)
-- 
2.43.0


From 83387e0af6983027d9118ed77f29b120d98fd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 032/182] fix: random plan generation passes its operators as
 an assignment

---
 postbound/opt/randomized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..87ba5eb 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -568,7 +568,9 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(
+                join_order, physical_ops=physical_operators
+            )
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 9d6cf7941da255bc171111e60fb12fbe0c37635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 033/182] fix: merging check results keeps failures without a
 reason

---
 postbound/validation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..e7a20fe 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -98,17 +98,16 @@ class PreCheckResult:
         PreCheckResult
             The merged check result
         """
-        failures: list[str] = []
-        for check in checks:
-            if check.passed:
-                continue
-            failures.extend(util.enlist(check.failure_reason))
+        failed_checks = [check for check in checks if not check.passed]
         return (
             PreCheckResult.with_all_passed()
-            if not failures
-            else PreCheckResult.with_failure(failures)
+            if not failed_checks
+            else PreCheckResult.with_failure(
+                util.flatten(check.failure_reason for check in failed_checks)
+            )
         )
 
+    @staticmethod
     def with_failure(failure: str | list[str]) -> PreCheckResult:
         """Generates a check result for a specific failure.
 
-- 
2.43.0


From b64ec041624bf646f1d5493ce4f2d630abd120f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 034/182] fix: compound checks also check the database system

---
 postbound/validation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index e7a20fe..13a7193 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -337,14 +337,17 @@ class CompoundCheck(OptimizationPreCheck):
         ]
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
+        return PreCheckResult.merge(
+            check.check_supported_query(query) for check in self.checks
+        )
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        return PreCheckResult.merge(
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
         )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
-- 
2.43.0


From 4c97ac31075a4c2b43805442dd0d7792013d20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 035/182] fix: hint checks for different features are different
 checks

---
 postbound/validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 13a7193..747c2a8 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -694,6 +694,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
-- 
2.43.0


From c1641ba6b0e11ad1c87a0d926719bb8251dbab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 036/182] fix: custom checks can be created and are not
 mistaken for each other

---
 postbound/validation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 747c2a8..23e180e 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -742,3 +742,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
-- 
2.43.0


From c7d6f740343db6c7aa5352b981d2bf66c3d93152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 037/182] fix: failures of hint checks can be reported without
 context

---
 postbound/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 23e180e..2ed53e7 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -166,7 +166,7 @@ class PreCheckResult:
         elif isinstance(self.failure_reason, str):
             inner_contents = self.failure_reason
         elif isinstance(self.failure_reason, Iterable):
-            inner_contents = " | ".join(reason for reason in self.failure_reason)
+            inner_contents = " | ".join(str(reason) for reason in self.failure_reason)
         else:
             raise ValueError(
                 "Unexpected failure reason type: " + str(self.failure_reason)
-- 
2.43.0


From 492294b61e6854a515276d1c649e9e45a3f0e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 038/182] fix: unsupported set queries are rejected

---
 postbound/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 2ed53e7..d52ce9c 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -33,6 +33,7 @@ from .qal import (
     ImplicitSqlQuery,
     JoinTableSource,
     LogicalOperator,
+    SetQuery,
     SqlQuery,
     SubqueryTableSource,
     TableSource,
@@ -148,7 +149,7 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, (SqlQuery, SetQuery)):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
-- 
2.43.0


From 725f4f38fc202617520e4a63bd4cc5c8afdc532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 039/182] fix: subqueries and bound tables of queries with
 explicit joins

---
 postbound/qal/_qal.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..4a6f0b9 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8104,11 +8104,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
     if isinstance(table_source, SubqueryTableSource):
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
-        source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        source_subqueries = _collect_subqueries_in_table_source(table_source.left)
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8223,14 +8220,13 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        return table_source.query.bound_tables() | table_source.tables()
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        direct_tables = _collect_bound_tables_from_source(table_source.left)
+        nested_tables = _collect_bound_tables_from_source(table_source.right)
         return direct_tables | nested_tables
+    else:
+        return table_source.tables()
 
 
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
-- 
2.43.0


From 79e426f062585bb101cca2247b31955a07a387ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 040/182] fix: queries without FROM clause have (no) predicates
 and bound tables

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4a6f0b9..50995a3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8821,7 +8821,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
@@ -8966,7 +8966,9 @@ class SqlQuery:
             subquery.bound_tables() for subquery in self.subqueries()
         )
         cte_produced_tables = self.cte_clause.tables() if self.cte_clause else set()
-        own_produced_tables = _collect_bound_tables(self.from_clause)
+        own_produced_tables = (
+            _collect_bound_tables(self.from_clause) if self.from_clause else set()
+        )
         return own_produced_tables | subquery_produced_tables | cte_produced_tables
 
     def unbound_tables(self) -> set[TableReference]:
-- 
2.43.0


From 2dc0c6db6aa498a43df781fdd528c2e8a14dbeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 041/182] fix: cross products with tables that are not part of
 any predicate are detected

---
 postbound/qal/_qal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 50995a3..5a4860b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9080,10 +9080,14 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        join_graph = self.predicates().join_graph().copy()
+        # tables without any predicate are not part of the join graph
+        join_graph.add_nodes_from(
+            table_source.table
+            for table_source in self._from_clause.items
+            if isinstance(table_source, DirectTableSource)
+        )
+        return nx.number_connected_components(join_graph) > 1
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
-- 
2.43.0


From d5b2d97550f003e6c4ffb6e0243569b4bc202844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 042/182] fix: the cross product check considers all tables of
 the query

---
 postbound/validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index d52ce9c..ca05eea 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,8 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
-
 from . import util
 from ._core import PhysicalOperator
 from ._hints import HintType
@@ -441,7 +439,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From 7854567ce5467ae072b7c14a95b720c124f2b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 043/182] fix: the inner join check accepts inner joins

---
 postbound/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index ca05eea..0cf1467 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -30,6 +30,7 @@ from .qal import (
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
     SetQuery,
     SqlQuery,
@@ -601,7 +602,7 @@ class InnerJoinPreCheck(OptimizationPreCheck):
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type != JoinType.InnerJoin
                     else []
                 )
                 checks.extend(
-- 
2.43.0


From b8bac25b9e85ccc5c01bc2bfa1cca11d78b701d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 044/182] fix: the inner join check handles all kinds of table
 sources

---
 postbound/validation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 0cf1467..9b7ab73 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -27,7 +27,7 @@ from .qal import (
     DirectTableSource,
     ExplicitFromClause,
     From,
-    ImplicitFromClause,
+    FunctionTableSource,
     ImplicitSqlQuery,
     JoinTableSource,
     JoinType,
@@ -579,8 +579,6 @@ class InnerJoinPreCheck(OptimizationPreCheck):
             return PreCheckResult.with_all_passed()
 
         match query.from_clause:
-            case ImplicitFromClause():
-                return PreCheckResult.with_all_passed()
             case ExplicitFromClause(join):
                 return self._check_table_source(join)
             case From(items):
@@ -595,7 +593,7 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
-- 
2.43.0


From ff8c8a0865d313292ff09f75c60a9834a32307f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 045/182] fix: merging checks keeps the additional checks if
 there are no others

---
 postbound/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 9b7ab73..fe9ea77 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -391,7 +391,7 @@ def merge_checks(
         A check that combines all of the given checks.
     """
     if not checks:
-        return EmptyPreCheck()
+        checks = []
     all_checks = (
         {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
     ) | set(more_checks)
-- 
2.43.0


From 93c24ddbd21ed9882fe311f5ec0d02095d4278af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 046/182] fix: random plan optimization provides its checks

---
 postbound/opt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 87ba5eb..f618f0e 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -648,6 +648,10 @@ class RandomPlanOptimizer(CompleteOptimizationAlgorithm):
 
     def pre_check(self) -> OptimizationPreCheck:
         return CompoundCheck(
-            CrossProductPreCheck(),
-            SupportedHintCheck(self._generator._operator_generator.necessary_hints()),
+            [
+                CrossProductPreCheck(),
+                SupportedHintCheck(
+                    self._generator._operator_generator.necessary_hints()
+                ),
+            ]
         )
-- 
2.43.0


From 75fd3b7ec116fd3cfc4e16f23b35e61ac5b5d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 047/182] fix: integrated pipelines have to be re-built for a
 new algorithm

---
 postbound/_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..35149cc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
-- 
2.43.0


From d1367a5bcfaca6b101805d5b0118c850e001d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 048/182] fix: integrated pipelines raise the documented errors
 for unsupported queries and systems

---
 postbound/_pipelines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 35149cc..3522c80 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -428,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -441,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From 5e63a905f3d7701681bc2d77b94b25e1eda4e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 049/182] fix: multi-stage pipelines report unsupported hints
 of the database system

---
 postbound/_pipelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 3522c80..d11ffdc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -964,7 +964,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         )
         if not db_check_result.passed:
             failures = (
-                " and ".join(db_check_result.failure_reason)
+                " and ".join(str(reason) for reason in db_check_result.failure_reason)
                 if isinstance(db_check_result.failure_reason, list)
                 else db_check_result.failure_reason
             )
-- 
2.43.0


From 48f22c5c18dd8cea3f36d43696c9b1fd7b2d3398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 050/182] fix: multi-stage pipelines forget the checks of
 replaced stages

---
 postbound/_pipelines.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index d11ffdc..1e0d37f 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -982,8 +983,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1032,10 +1032,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return s
 
     def describe(self) -> jsondict:
+        pre_check = self._support_check if self._build else self._pre_check
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": pre_check.describe() if pre_check else None,
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
-- 
2.43.0


From 81e5e7516ddf15f5884d9a87d8025bce7738b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 051/182] fix: estimators that are used as a complete algorithm
 are initialized

---
 postbound/_stages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..fec9be2 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,15 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            self._plan_parameterization.initialize(self.database, query)
         plan_params = (
             self._plan_parameterization.generate_plan_parameters(query, None, None)
             if self._plan_parameterization is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            self._plan_parameterization.cleanup()
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
-- 
2.43.0


From edaee361a273f814c3dcc830e383a1d95c242c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 052/182] fix: compound predicates can combine joins and
 filters

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5a4860b..05a2f33 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3324,7 +3324,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
-- 
2.43.0


From 6e6724d78ef6c22b1c03d748a41ca75a45484d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 053/182] fix: equal IN predicates have the same hash

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 05a2f33..c1834e8 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2859,7 +2859,7 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash((LogicalOperator.In, self._column, frozenset(self._values)))
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
-- 
2.43.0


From e2ec3e05bbfb46275b53bd867ffe3493b16bd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 054/182] fix: simplified predicates have the same hash as the
 predicates they are equal to

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c1834e8..49fa0ae 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3850,7 +3850,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
@@ -4083,7 +4083,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
-- 
2.43.0


From f815ef28c4f3f87779aef8eb52df195e71b395e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 055/182] fix: simplified filters mirror the operator along
 with the operands

---
 postbound/qal/_qal.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 49fa0ae..c0f11c9 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3664,6 +3664,22 @@ UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
 """Type that captures the main components of a filter predicate."""
 
 
+# The operators that still denote the same predicate if their operands are swapped
+_MirroredOperators = {
+    LogicalOperator.Equal: LogicalOperator.Equal,
+    LogicalOperator.NotEqual: LogicalOperator.NotEqual,
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+    LogicalOperator.DistinctFrom: LogicalOperator.DistinctFrom,
+    LogicalOperator.NotDistinctFrom: LogicalOperator.NotDistinctFrom,
+    LogicalOperator.Contains: LogicalOperator.ContainedBy,
+    LogicalOperator.ContainedBy: LogicalOperator.Contains,
+    LogicalOperator.Overlaps: LogicalOperator.Overlaps,
+}
+
+
 def _attempt_filter_unwrap(
     predicate: AbstractPredicate,
 ) -> tuple[ColumnReference, LogicalOperator, Any]:
@@ -3696,11 +3712,11 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
-            assert isinstance(left, ColumnReference)
-            return left, op, right
+            if isinstance(left, ColumnReference):
+                return left, op, right
+            if not isinstance(right, ColumnReference) or op not in _MirroredOperators:
+                raise ValueError("Cannot unwrap predicate " + str(predicate))
+            return right, _MirroredOperators[op], left
 
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
-- 
2.43.0


From 3fbb1cd183aff9f594c20234b2df0b3c1069b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 056/182] fix: filters without columns cannot be simplified

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c0f11c9..2d52dd2 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3721,13 +3721,15 @@ def _attempt_filter_unwrap(
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
             lower, upper = _unwrap_expression(lower), _unwrap_expression(upper)
-            assert isinstance(lhs, ColumnReference)
+            if not isinstance(lhs, ColumnReference):
+                raise ValueError("Cannot unwrap predicate " + str(predicate))
             return lhs, LogicalOperator.Between, (lower, upper)
 
         case InPredicate(lhs, values):
             lhs = _unwrap_expression(lhs)
             values = [_unwrap_expression(val) for val in values]
-            assert isinstance(lhs, ColumnReference)
+            if not isinstance(lhs, ColumnReference):
+                raise ValueError("Cannot unwrap predicate " + str(predicate))
             return lhs, LogicalOperator.In, tuple(values)
 
         case _:
-- 
2.43.0


From da0f6cbf993490e346110a307db4dc0e31940e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 057/182] fix: complex joins are no simple joins

---
 postbound/qal/_qal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2d52dd2..43b6f2e 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4045,10 +4045,13 @@ class SimpleJoin(AbstractPredicate):
             return False
         if not predicate.operation == LogicalOperator.Equal:
             return False
-        lhs, rhs = (
-            _unwrap_expression(predicate.first_argument),
-            _unwrap_expression(predicate.second_argument),
-        )
+        try:
+            lhs, rhs = (
+                _unwrap_expression(predicate.first_argument),
+                _unwrap_expression(predicate.second_argument),
+            )
+        except ValueError:
+            return False
         return isinstance(lhs, ColumnReference) and isinstance(rhs, ColumnReference)
 
     @staticmethod
-- 
2.43.0


From ffc783249f3aa922297ef1a3efcd534f37592d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 058/182] fix: simplified joins provide normalized join
 partners

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 43b6f2e..5cd72cd 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4172,7 +4172,7 @@ class SimpleJoin(AbstractPredicate):
         return self._predicate.iterexpressions()
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return {(self.lhs, self.rhs)}
+        return {_normalize_join_pair((self.lhs, self.rhs))}
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return [self]
-- 
2.43.0


From 44215d43470f92d53ada8eac7d129af0abe8f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 059/182] fix: BETWEEN and IN predicates provide the join
 partners within their bounds and values

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5cd72cd..996029c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2766,6 +2766,8 @@ class BetweenPredicate(BasePredicate):
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
         partners |= _generate_join_pairs(predicate_columns, start_columns)
         partners |= _generate_join_pairs(predicate_columns, end_columns)
+        partners |= _generate_join_pairs(start_columns, start_columns)
+        partners |= _generate_join_pairs(end_columns, end_columns)
         return set(partners)
 
     def accept_visitor(
@@ -2931,6 +2933,7 @@ class InPredicate(BasePredicate):
         for value in self.values:
             value_columns = _collect_column_expression_columns(value)
             partners |= _generate_join_pairs(predicate_columns, value_columns)
+            partners |= _generate_join_pairs(value_columns, value_columns)
         return partners
 
     def accept_visitor(
-- 
2.43.0


From eb1fe533a22d6b11b01a63241def2b7842ace070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 060/182] fix: predicates that join more than two tables join
 each pair of them

---
 postbound/qal/_qal.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 996029c..2efc905 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4818,18 +4818,20 @@ class QueryPredicates:
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
-        return predicate_map
+        joins: dict[frozenset[TableReference], list[AbstractPredicate]] = (
+            collections.defaultdict(list)
+        )
+        for join_predicate in self.joins():
+            joined_tables = {
+                frozenset((first_col.table, second_col.table))
+                for first_col, second_col in join_predicate.join_partners()
+            }
+            for map_key in joined_tables:
+                joins[map_key].append(join_predicate)
+        return {
+            map_key: CompoundPredicate.create_and(join_predicates)
+            for map_key, join_predicates in joins.items()
+        }
 
     def _legacy_joins_between(
         self,
-- 
2.43.0


From 71c611de7034aad54ccd86b30281f04e4f78290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 061/182] fix: edges of the join graph contain all join
 predicates between their tables

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2efc905..13fa93b 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4473,8 +4473,11 @@ class QueryPredicates:
 
             for join in self.joins():
                 for first_col, second_col in join.join_partners():
+                    first_tab, second_tab = first_col.table, second_col.table
                     join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
+                        first_tab,
+                        second_tab,
+                        predicate=self.joins_between(first_tab, second_tab),
                     )
 
             return join_graph
-- 
2.43.0


From f66e7e817fe5475f2df4ff0deb72003fa6ac4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 062/182] fix: join graphs with merged aliases connect tables

---
 postbound/qal/_qal.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 13fa93b..01a5672 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4493,19 +4493,18 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
+        tab2join = collections.defaultdict(dict)
         for join in self.joins():
             for first_col, second_col in join.join_partners():
-                partners = frozenset([first_col, second_col])
-                col2join[partners] = join
-
-        tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
-            tab2join[tabs][partners] = join
+                first_tab, second_tab = first_col.table, second_col.table
+                tabs = (first_tab.drop_alias(), second_tab.drop_alias())
+                tab2join[frozenset(tabs)][frozenset((first_tab, second_tab))] = (
+                    self.joins_between(first_tab, second_tab)
+                )
 
         for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
+            first_tab, *others = tabs
+            second_tab = others[0] if others else first_tab
             join_graph.add_edge(first_tab, second_tab, predicate=joins)
 
         return join_graph
-- 
2.43.0


From f7bb7a5b3a6439b5b77f069044d0b013f9e6e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 063/182] fix: only columns that are compared directly are
 equivalent

---
 postbound/qal/_qal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 01a5672..5f3d401 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3590,10 +3590,9 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
+        if not SimpleJoin.can_wrap(predicate):
             continue
-        col_a, col_b = columns
+        col_a, col_b = predicate.columns()
         equivalence_graph.add_edge(col_a, col_b)
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
-- 
2.43.0


From a7299f82730d359661f1a6dde3a5932f387c2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 064/182] fix: n-ary math expressions know the columns and
 tables of all arguments

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5f3d401..3e2ce2a 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
-- 
2.43.0


From 4be7f044dae1bce0c1e0d48734cf825e633611a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 065/182] fix: CASE expressions iterate over their direct
 children

---
 postbound/qal/_qal.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 3e2ce2a..0091506 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1538,18 +1538,11 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
+        case_children = util.flatten([pred, expr] for pred, expr in self.cases)
         expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
+            [self.simple_expression] if self.simple_expression else []
         )
+        else_children = [self.else_expression] if self.else_expression else []
         return case_children + expression_children + else_children
 
     def accept_visitor(
-- 
2.43.0


From 9fa7cbbc924a533bce6d01225ae24483425cdfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 066/182] fix: window expressions iterate over their
 partitioning expressions

---
 postbound/qal/_qal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 0091506..17112a6 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1400,9 +1400,7 @@ class WindowExpression(SqlExpression):
 
     def iterchildren(self) -> Iterable[SqlExpression]:
         function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
+        partitioning_children = list(self.partitioning)
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
         filter_children = (
             self.filter_condition.iterexpressions() if self.filter_condition else []
-- 
2.43.0


From 0117b823704861b6a4c54f7defeb245b3ba906a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 067/182] fix: children of function expressions contain the
 FILTER condition

---
 postbound/qal/_qal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 17112a6..912f0be 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -997,7 +997,8 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        filter_children = [self._filter_expr] if self._filter_expr else []
+        return list(self.arguments) + filter_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
-- 
2.43.0


From a3ba13188ef4fa2b96d31802df979681fdce1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 068/182] fix: conditions of CASE expressions have an
 evaluation phase

---
 postbound/relalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..0886c19 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3170,6 +3170,7 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
             | CaseExpression()
             | QuantifierExpression()
             | ArrayExpression()
+            | AbstractPredicate()
         ):
             own_phase = (
                 EvaluationPhase.Join
-- 
2.43.0


From 497ef4391a0d937db0de8741d2a5a0f6fedca695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 069/182] fix: EXCEPT and INTERSECT clauses can be compared

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 912f0be..020ad68 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7877,7 +7877,8 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
@@ -7972,7 +7973,8 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From a5860d41e9dbab224d1359e5d33b5c079732b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 070/182] fix: equal EXPLAIN clauses have the same hash

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 020ad68..745b36e 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5257,7 +5257,7 @@ class Explain(BaseClause):
         self._analyze = analyze
         self._target_format = target_format if target_format != "" else None
 
-        hash_val = hash((analyze, target_format))
+        hash_val = hash((self._analyze, self._target_format))
         super().__init__(hash_val)
 
     __slots__ = ("_analyze", "_target_format")
-- 
2.43.0


From cc62e9cb2b943db895be31f675b0bc2810d6a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 071/182] fix: equal WITH queries have the same hash

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 745b36e..2c1c9d4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5366,7 +5366,7 @@ class WithQuery:
             target_name if isinstance(target_name, str) else target_name.identifier()
         )
         self._materialized = materialized
-        self._hash_val = hash((query, target_name))
+        self._hash_val = hash((query, self._target_name))
 
     __slots__ = (
         "_query",
-- 
2.43.0


From 332c66e3b7f5e97b2ebcc42a741154a5370a9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 072/182] fix: LIMIT clauses with different fetch directions
 are not equal

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2c1c9d4..d1a2dcc 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7661,6 +7661,7 @@ class Limit(BaseClause):
             isinstance(other, type(self))
             and self.limit == other.limit
             and self.offset == other.offset
+            and self.fetch_direction == other.fetch_direction
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From b3b2b90a10bda7a01c8259e674acec58b2e2b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 073/182] fix: natural joins are no cross joins

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index d1a2dcc..eb6f140 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6769,7 +6769,7 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = join_type
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
-- 
2.43.0


From 336658d6f93a25f28618e63a746a5e2b78a21d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 074/182] fix: functions in the FROM clause reference tables
 even if they have no alias

---
 postbound/qal/_qal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index eb6f140..4cc594f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6658,7 +6658,8 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        alias_tables = {self._alias} if self._alias else set()
+        return self._function.tables() | alias_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
-- 
2.43.0


From b071e198a7279e7cb7abebaae12d24ae60a4ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 075/182] fix: columns of VALUES common table expressions can
 be accessed

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4cc594f..666d753 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5571,7 +5571,7 @@ class ValuesWithQuery(WithQuery):
     def columns(self) -> set[ColumnReference]:
         if not self._columns:
             return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return {col.bind_to(self.target_table) for col in self._columns}
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5591,7 +5591,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return [col.bind_to(self.target_table) for col in self._columns]
 
     def __eq__(self, other: object) -> bool:
         return (
-- 
2.43.0


From eb6e5fc76f57cf6c5df4b78924472b2cca609022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 076/182] fix: lateral subqueries are not equal to plain ones

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 666d753..b9ab560 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6439,6 +6439,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 29ca0fe28a45dcc5ba96feaa0f44393fa01055d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 077/182] fix: several clause types can be skipped when listing
 the clauses of a query

---
 postbound/qal/_qal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index b9ab560..9fc38d5 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8968,10 +8968,11 @@ class SqlQuery:
             self.orderby_clause,
             self.limit_clause,
         ]
+        skipped_types = tuple(util.enlist(skip)) if skip is not None else ()
         return [
             clause
             for clause in all_clauses
-            if clause is not None and not isinstance(clause, skip)
+            if clause is not None and not isinstance(clause, skipped_types)
         ]
 
     def bound_tables(self) -> set[TableReference]:
@@ -9843,7 +9844,8 @@ class SetQuery:
         if self._limit:
             clauses.append(self._limit)
 
-        return [c for c in clauses if not isinstance(c, skip)]
+        skipped_types = tuple(util.enlist(skip)) if skip is not None else ()
+        return [c for c in clauses if not isinstance(c, skipped_types)]
 
     def bound_tables(self) -> set[TableReference]:
         """Provides all tables that can be assigned to a physical or virtual table reference in this query.
-- 
2.43.0


From 0918b664a43aed93b342a55ed5c70ccd68707ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 078/182] fix: dropping all FROM clauses of a query includes
 implicit and explicit ones

---
 postbound/transform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..48dafb1 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -907,9 +907,7 @@ def drop_clause[T: SelectStatement](query: T, clauses_to_drop: ClauseDescription
         drop if isinstance(drop, typing.Type) else type(drop)
         for drop in clauses_to_drop
     }
-    remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in clauses_to_drop
-    ]
+    remaining_clauses = query.clauses(skip=clauses_to_drop)
     return build_query(remaining_clauses)
 
 
-- 
2.43.0


From eb8a8f797d3d2461ebddb16659d0de9beb8c757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 079/182] fix: equality of FROM clauses is symmetric

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 9fc38d5..04ae8d0 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7033,7 +7033,7 @@ class From(BaseClause, Generic[TableType]):
     __hash__ = BaseClause.__hash__
 
     def __eq__(self, other) -> bool:
-        return isinstance(other, type(self)) and self._items == other._items
+        return isinstance(other, From) and self._items == other._items
 
     def __str__(self) -> str:
         items_str = ", ".join(str(entry) for entry in self._items)
-- 
2.43.0


From 1ba49db4c98a0923738ecd1692da9fe832877f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 080/182] fix: QueryPlan.with_estimates keeps additional
 estimates

---
 postbound/_qep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 4de2f70..9cf7f25 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1626,7 +1626,11 @@ class QueryPlan:
         """
         cardinality = self.estimated_cardinality if cardinality is None else cardinality
         cost = self.estimated_cost if cost is None else cost
-        updated_estimates = PlanEstimates(cardinality=cardinality, cost=cost)
+        updated_estimates = PlanEstimates(
+            cardinality=cardinality,
+            cost=cost,
+            **(self._estimates.additional_estimates),
+        )
         updated_measures = self._measures if keep_measures else None
         return QueryPlan(
             self.node_type,
-- 
2.43.0


From eaa82802360452440e6ac9e2bb90660b1b0366c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 081/182] fix: equality of CTEs respects MATERIALIZED

---
 postbound/qal/_qal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 04ae8d0..76524b8 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5474,6 +5474,7 @@ class WithQuery:
             isinstance(other, type(self))
             and self._target_name == other._target_name
             and self._query == other._query
+            and self._materialized == other._materialized
         )
 
     def __repr__(self) -> str:
@@ -5599,6 +5600,7 @@ class ValuesWithQuery(WithQuery):
             and self._values == other._values
             and self._columns == other._columns
             and self._table == other._table
+            and self._materialized == other._materialized
         )
 
     __hash__ = WithQuery.__hash__
-- 
2.43.0


From 54934b793bf2956de62b853fb26f5e84228cbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 082/182] fix: visitors of columns and window functions receive
 their arguments

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 76524b8..57b8d5c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -756,7 +756,7 @@ class ColumnExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_column_expr(self)
+        return visitor.visit_column_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -1418,7 +1418,7 @@ class WindowExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_window_expr(self)
+        return visitor.visit_window_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
-- 
2.43.0


From 7be077f12fd89ff8221d0c7c115a20bb05d12717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 083/182] fix: the tables of a query can be modified without
 affecting the query

---
 postbound/qal/_qal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 57b8d5c..a467609 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8721,7 +8721,6 @@ class SqlQuery:
         """
         return self.explain is not None
 
-    @functools.cache
     def tables(self) -> set[TableReference]:
         """Provides all tables that are referenced at any point in the query.
 
@@ -8734,6 +8733,10 @@ class SqlQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
+        return set(self._collect_tables())
+
+    @functools.cache
+    def _collect_tables(self) -> frozenset[TableReference]:
         relevant_clauses: list[BaseClause] = [
             self._select_clause,
             self._from_clause,
@@ -8751,7 +8754,7 @@ class SqlQuery:
                 continue
             tabs |= clause.tables()
 
-        return tabs
+        return frozenset(tabs)
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
-- 
2.43.0


From 7c7ed09bd3f944bf2b5cdc847425c09efcacc38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 084/182] fix: set operations can be used as expressions

---
 postbound/qal/_qal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index a467609..94ae6f4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1598,7 +1598,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ANY expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.Any)
@@ -1608,7 +1608,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ALL expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.All)
@@ -1880,7 +1880,7 @@ def as_expression(value: object) -> SqlExpression:
 
     if isinstance(value, ColumnReference):
         return ColumnExpression(value)
-    elif isinstance(value, SqlQuery):
+    elif isinstance(value, (SqlQuery, SetQuery)):
         return SubqueryExpression(value)
 
     if value == "*":
-- 
2.43.0


From d5067dc613d2f86d4e13d9e6aa110883eb49dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 085/182] fix: base tables without predicates are intermediates
 of a query

---
 postbound/_stages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index fec9be2..90bae0f 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,11 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            # base tables are always valid intermediates, even if they are not part of any predicate
+            if (
+                len(candidate_join) > 1
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From 2a097c8423a6c49b69456929ea129594e3f35dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 086/182] fix: precise cardinalities are only cached if
 requested

---
 postbound/opt/_cardinalities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..f0508b8 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -66,10 +66,11 @@ class PreciseCardinalities(CardinalityEstimator):
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From 5a7e6b3e33699f9ebe1a716ca64ee74f7eaaf41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 087/182] fix: missing pre-computed cardinalities raise the
 documented error

---
 postbound/opt/_cardinalities.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index f0508b8..ce1f359 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -207,7 +207,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return fallback_value if fallback_value is not None else Cardinality.unknown()
 
     def describe(self) -> dict:
         return {
@@ -218,7 +218,7 @@ class PreComputedCardinalities(CardinalityEstimator):
 
     def _attempt_fallback_estimate(
         self, n_samples: int, query: SqlQuery, tables: frozenset[TableReference]
-    ) -> Cardinality:
+    ) -> Optional[Cardinality]:
         """Tries to infer the fallback value for a specific estimate, if this is necessary.
 
         The inference strategy applies the following rules:
@@ -239,21 +239,21 @@ class PreComputedCardinalities(CardinalityEstimator):
 
         Returns
         -------
-        Cardinality
-            The fallback value if it could be inferred, otherwise *NaN*.
+        Optional[Cardinality]
+            The fallback value if it could be inferred, otherwise *None*.
         """
         if n_samples == 1:
             # If we found exactly one sample, we did not need to fall back at all
-            return Cardinality.unknown()
+            return None
 
         if self._default_card is not None:
             return self._default_card
         if self._live_db is None:
-            return Cardinality.unknown()
+            return None
 
         query_fragment = transform.extract_query_fragment(query, tables)
         if not query_fragment:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             true_card_query = transform.as_count_star_query(query_fragment)
-- 
2.43.0


From d61e0be8f3aafdaff957e6683d9120bfd94097bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 088/182] fix: saved fallback cardinalities can be looked up
 and loaded again

---
 postbound/opt/_cardinalities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index ce1f359..dff3934 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -286,7 +286,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -301,7 +301,11 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+
+        # the lookup table contains the parsed tables, but the file has to contain their JSON representation
+        csv_df = self._true_card_df.copy()
+        csv_df[self._tables_col] = csv_df[self._tables_col].map(util.to_json)
+        csv_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From f0e20b11ed3b0c0f118f33861441a443ff61051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 089/182] fix: tables keep their schema when they are loaded
 from JSON

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..72b812d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2396,7 +2396,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", None),
     )
 
 
-- 
2.43.0


From 142b8a46f018fb9dd603b0b324466eb55e399498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 090/182] fix: the native plan parameterization provides its
 parameters

---
 postbound/opt/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..a108970 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -515,7 +515,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
-- 
2.43.0


From 5fc53e428c35fb51e8044cba86ca340f3168e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 091/182] fix: distorted estimators are initialized along with
 their distortion

---
 postbound/opt/_cardinalities.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index dff3934..4b3ff4f 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -344,10 +344,18 @@ class CardinalityDistortion(CardinalityEstimator):
         self.distortion_factor = distortion_factor
         self.distortion_strategy = distortion_strategy
 
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        super().cleanup()
+
     def describe(self) -> dict:
         return {
             "name": "cardinality-distortion",
-            "estimator": "distortion",
+            "estimator": self.estimator.describe(),
             "distortion_factor": self.distortion_factor,
             "distortion_strategy": self.distortion_strategy,
         }
-- 
2.43.0


From 28a12d07ec431cb94fe603b70c4985584611ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 092/182] fix: fragments of queries with negated predicates can
 be extracted

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 48dafb1..7a62719 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -278,7 +278,7 @@ def _get_predicate_fragment(
     compound_predicate: CompoundPredicate = predicate
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
-        for child in compound_predicate.children
+        for child in compound_predicate.iterchildren()
     ]
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
-- 
2.43.0


From 75f08f9e767a1458eca2ddf361e5230b2ab9e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 093/182] fix: query fragments retain the projections of all of
 their tables

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7a62719..1ecc16c 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -406,7 +406,7 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
             if select_fragment:
-- 
2.43.0


From 422f4472c0fa6a2a83067af7fd5fae49617689e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 094/182] fix: adding predicates of equivalence classes retains
 all other joins

---
 postbound/transform.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 1ecc16c..8083b19 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -61,6 +61,7 @@ from .qal import (
     JoinTableSource,
     JoinType,
     Limit,
+    LogicalOperator,
     MathExpression,
     MixedSqlQuery,
     OrderBy,
@@ -70,6 +71,7 @@ from .qal import (
     Select,
     SelectStatement,
     SetQuery,
+    SimpleJoin,
     SqlExpression,
     SqlExpressionVisitor,
     SqlQuery,
@@ -663,7 +665,18 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     ec_classes = determine_join_equivalence_classes(predicates.joins())
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
+    # only equi joins between columns are covered by the equivalence classes, all other joins have to be retained
+    other_joins = [
+        join
+        for join in predicates.joins()
+        if not (
+            isinstance(join, BinaryPredicate)
+            and join.operation == LogicalOperator.Equal
+            and SimpleJoin.can_wrap(join)
+        )
+    ]
+
+    all_predicates = list(ec_predicates) + other_joins + list(predicates.filters())
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From 38603e9891ff184822647aeeb21d1f37d5eee02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 095/182] fix: queries with tables that were moved into a
 subquery are well-formed

---
 postbound/transform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8083b19..0ee79b8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -617,9 +617,7 @@ def move_into_subquery(
         for table_source in query.from_clause.items
         if not table_source.tables() < tables
     ]
-    update_from_clause = ImplicitFromClause.create_for(
-        updated_from_sources + [subquery_table_source]
-    )
+    update_from_clause = From(updated_from_sources + [subquery_table_source])
     updated_predicate = query.where_clause.predicate if query.where_clause else None
     for predicate in subquery_predicates:
         updated_predicate = remove_predicate(updated_predicate, predicate)
-- 
2.43.0


From 782bbdfb6c4936f61009e08a18a4d28ab8fe7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 096/182] fix: only predicates that do not depend on other
 tables are moved into a subquery

---
 postbound/transform.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0ee79b8..f1c39ef 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -570,7 +570,6 @@ def move_into_subquery(
     if len(tables) < 2:
         raise ValueError("At least two tables required")
 
-    predicates = query.predicates()
     all_referenced_columns = util.set_union(
         clause.columns() for clause in query.clauses() if not isinstance(clause, From)
     )
@@ -591,15 +590,21 @@ def move_into_subquery(
         for column in columns_from_subquery_tables
     }
 
+    # predicates can only be moved if they are part of the top-level conjunction and do not require any other table
     subquery_predicates: list[AbstractPredicate] = []
-    for table in tables:
-        filter_predicate = predicates.filters_for(table)
-        if not filter_predicate:
-            continue
-        subquery_predicates.append(filter_predicate)
-    join_predicates = predicates.joins_between(tables, tables)
-    if join_predicates:
-        subquery_predicates.append(join_predicates)
+    remaining_predicates: list[AbstractPredicate] = []
+    if query.where_clause:
+        where_predicate = flatten_and_predicate(query.where_clause.predicate)
+        is_conjunction = (
+            isinstance(where_predicate, CompoundPredicate)
+            and where_predicate.operation == CompoundOperator.And
+        )
+        conjuncts = where_predicate.children if is_conjunction else [where_predicate]
+        for predicate in conjuncts:
+            if predicate.tables() and predicate.tables().issubset(tables):
+                subquery_predicates.append(predicate)
+            else:
+                remaining_predicates.append(predicate)
 
     subquery_select = Select.create_for(columns_from_subquery_tables)
     subquery_from = ImplicitFromClause.create_for(tables)
@@ -618,10 +623,11 @@ def move_into_subquery(
         if not table_source.tables() < tables
     ]
     update_from_clause = From(updated_from_sources + [subquery_table_source])
-    updated_predicate = query.where_clause.predicate if query.where_clause else None
-    for predicate in subquery_predicates:
-        updated_predicate = remove_predicate(updated_predicate, predicate)
-    updated_where_clause = Where(updated_predicate) if updated_predicate else None
+    updated_where_clause = (
+        Where(CompoundPredicate.create_and(remaining_predicates))
+        if remaining_predicates
+        else None
+    )
 
     updated_query = drop_clause(query, [From, Where])
     updated_query = add_clause(
-- 
2.43.0


From 459c39f30f1ba165c02eff27c49b2d3c0cdc3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 097/182] fix: tables of explicit queries stay in order when
 using an implicit FROM clause

---
 postbound/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index f1c39ef..0d496c1 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -208,9 +208,11 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
             case JoinTableSource() if (
                 current_table_source.join_type == JoinType.InnerJoin
             ):
-                join_working_set.append(current_table_source.left)
+                # the working set is a stack: handling the left source first keeps the tables (and columns) in order
                 join_working_set.append(current_table_source.right)
-                additional_predicates.append(current_table_source.join_condition)
+                join_working_set.append(current_table_source.left)
+                if current_table_source.join_condition:
+                    additional_predicates.append(current_table_source.join_condition)
             case _:
                 raise ValueError(
                     "Unsupported table source type: " + str(type(current_table_source))
-- 
2.43.0


From 55598a35e15919b9bb34c8ef978f127bdcba6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 098/182] fix: explicit queries without predicates can be
 transformed and retain their hints

---
 postbound/transform.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0d496c1..29fecd8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -221,14 +221,13 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     final_from_clause = ImplicitFromClause.create_for(complete_from_tables)
 
     if source_query.where_clause:
-        final_predicate = CompoundPredicate.create_and(
-            [source_query.where_clause.predicate] + additional_predicates
-        )
-    else:
-        final_predicate = CompoundPredicate.create_and(additional_predicates)
+        additional_predicates.insert(0, source_query.where_clause.predicate)
 
-    final_predicate = flatten_and_predicate(final_predicate)
-    final_where_clause = Where(final_predicate)
+    if additional_predicates:
+        final_predicate = CompoundPredicate.create_and(additional_predicates)
+        final_where_clause = Where(flatten_and_predicate(final_predicate))
+    else:
+        final_where_clause = None
 
     return ImplicitSqlQuery(
         select_clause=source_query.select_clause,
@@ -239,6 +238,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From a3d4215eb3e19adc7064f80d38d2cbcf2bfde427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 099/182] fix: flattening conjunctions of equal predicates
 retains disjunctions and negations

---
 postbound/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 29fecd8..c5e28b5 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -158,7 +158,10 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
             and child.operation == CompoundOperator.And
         ):
             flattened_child = flatten_and_predicate(child)
-            if isinstance(flattened_child, CompoundPredicate):
+            if (
+                isinstance(flattened_child, CompoundPredicate)
+                and flattened_child.operation == CompoundOperator.And
+            ):
                 flattened_children |= set(flattened_child.children)
             else:
                 flattened_children.add(flattened_child)
-- 
2.43.0


From ad6e610e3134f282e1a914985adb5d622cb61c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 100/182] fix: predicates nested in disjunctions are not split
 when adding equivalence class predicates

---
 postbound/transform.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c5e28b5..a7a6cd1 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -670,23 +670,33 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
-    ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
+    # Only the conjuncts of the WHERE clause have to hold for each result row. Therefore, we must neither infer predicates from
+    # joins that are nested in disjunctions or negations, nor split such predicates into their joins and filters.
+    flattened_predicate = flatten_and_predicate(query.where_clause.predicate)
+    conjuncts = (
+        list(flattened_predicate.children)
+        if isinstance(flattened_predicate, CompoundPredicate)
+        and flattened_predicate.operation == CompoundOperator.And
+        else [flattened_predicate]
+    )
 
-    # only equi joins between columns are covered by the equivalence classes, all other joins have to be retained
-    other_joins = [
-        join
-        for join in predicates.joins()
-        if not (
-            isinstance(join, BinaryPredicate)
-            and join.operation == LogicalOperator.Equal
-            and SimpleJoin.can_wrap(join)
-        )
+    # only equi joins between columns are covered by the equivalence classes, all other predicates have to be retained
+    equi_joins = [
+        predicate
+        for predicate in conjuncts
+        if SimpleJoin.can_wrap(predicate)
+        and isinstance(predicate.first_argument, ColumnExpression)
+        and isinstance(predicate.second_argument, ColumnExpression)
     ]
+    other_predicates = [
+        predicate for predicate in conjuncts if predicate not in equi_joins
+    ]
+
+    ec_classes = determine_join_equivalence_classes(equi_joins)
+    ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + other_joins + list(predicates.filters())
+    all_predicates = list(ec_predicates) + other_predicates
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From 3308da125caed81b84978f8b18b10aeef6c68b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 101/182] fix: tables without referenced columns can be moved
 into a subquery

---
 postbound/transform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index a7a6cd1..84c50b2 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -612,7 +612,11 @@ def move_into_subquery(
             else:
                 remaining_predicates.append(predicate)
 
-    subquery_select = Select.create_for(columns_from_subquery_tables)
+    subquery_select = (
+        Select.create_for(columns_from_subquery_tables)
+        if columns_from_subquery_tables
+        else Select.star()
+    )
     subquery_from = ImplicitFromClause.create_for(tables)
     subquery_where = (
         Where(CompoundPredicate.create_and(subquery_predicates))
-- 
2.43.0


From 1d894589a86cac565d5eeb091236a30d4fa1da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 102/182] fix: columns of set queries can be renamed

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 84c50b2..c6387a6 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1403,7 +1403,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
-- 
2.43.0


From 997805e8a9a7659e6189c52fc8f0b3433ce5b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 103/182] fix: columns of mathematical expressions with more
 than two arguments can be renamed

---
 postbound/transform.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c6387a6..36721d8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1522,9 +1522,15 @@ def rename_columns_in_expression(
         renamed_first_arg = rename_columns_in_expression(
             expression.first_arg, available_renamings
         )
-        renamed_second_arg = rename_columns_in_expression(
-            expression.second_arg, available_renamings
-        )
+        if isinstance(expression.second_arg, tuple):
+            renamed_second_arg = [
+                rename_columns_in_expression(arg, available_renamings)
+                for arg in expression.second_arg
+            ]
+        else:
+            renamed_second_arg = rename_columns_in_expression(
+                expression.second_arg, available_renamings
+            )
         return MathExpression(
             expression.operator, renamed_first_arg, renamed_second_arg
         )
-- 
2.43.0


From dc2ebc1d075d7b964f054b2f9f1544901d680f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 104/182] fix: columns of array accesses can be renamed

---
 postbound/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 36721d8..9dc3afa 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1557,9 +1557,9 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
-- 
2.43.0


From f4fd7dbfbc286c175e27e86c143ac02a05fbb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 105/182] fix: renaming columns retains the filters of
 aggregates

---
 postbound/transform.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 9dc3afa..0a743bb 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1566,8 +1566,16 @@ def rename_columns_in_expression(
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = (
+            rename_columns_in_predicate(expression.filter_where, available_renamings)
+            if expression.filter_where
+            else None
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
-- 
2.43.0


From 40699d0de3e82c37ee37160cdc1522632540dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 106/182] fix: renaming columns retains all VALUES lists and
 applies all renamings of their columns

---
 postbound/transform.py | 55 ++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0a743bb..c1af482 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1800,11 +1800,7 @@ def _rename_columns_in_table_source(
             )
 
         case ValuesTableSource():
-            if not any(
-                col.belongs_to(table_source.table) for col in available_renamings
-            ):
-                return table_source
-
+            new_col_names: dict[str, str] = {}
             for current_col, target_col in available_renamings.items():
                 if not current_col.belongs_to(table_source.table):
                     continue
@@ -1812,20 +1808,18 @@ def _rename_columns_in_table_source(
                     raise ValueError(
                         "Cannot rename columns in a VALUES table source to a different table"
                     )
+                new_col_names[current_col.name] = target_col.name
 
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = table_source.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                table_source = ValuesTableSource(
-                    table_source.rows,
-                    alias=table_source.table.identifier(),
-                    columns=new_col_spec,
-                )
-            return table_source
+            if not new_col_names:
+                return table_source
+
+            # if we found columns that should be renamed, we need to replace the whole column specification
+            new_col_spec = [
+                new_col_names.get(col.name, col.name) for col in table_source.cols
+            ]
+            return ValuesTableSource(
+                table_source.rows, alias=table_source.table, columns=new_col_spec
+            )
 
         case FunctionTableSource():
             renamed_function = rename_columns_in_expression(
@@ -1881,10 +1875,7 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
-            renamed_cte = cte
+            new_col_names: dict[str, str] = {}
             for current_col, target_col in available_renamings.items():
                 if not current_col.belongs_to(cte.target_table):
                     continue
@@ -1892,22 +1883,22 @@ def rename_columns_in_clause(
                     raise ValueError(
                         "Cannot rename columns in a VALUES table source to a different table"
                     )
+                new_col_names[current_col.name] = target_col.name
 
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                renamed_cte = ValuesWithQuery(
+            if not new_col_names:
+                renamed_ctes.append(cte)
+                continue
+
+            # if we found columns that should be renamed, we need to replace the whole column specification
+            new_col_spec = [new_col_names.get(col.name, col.name) for col in cte.cols]
+            renamed_ctes.append(
+                ValuesWithQuery(
                     cte.rows,
                     target_name=cte.target_table,
                     columns=new_col_spec,
                     materialized=cte.materialized,
                 )
-
-            renamed_ctes.append(renamed_cte)
+            )
 
         return CommonTableExpression(renamed_ctes, recursive=clause.recursive)
     if isinstance(clause, Select):
-- 
2.43.0


From fadc6d221c2f30c2851cc2bffbfe23462890adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 107/182] fix: renamings also apply to DISTINCT ON expressions

---
 postbound/transform.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index c1af482..2382074 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1909,7 +1909,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        renamed_distinct = clause.distinct_specifier()
+        if not isinstance(renamed_distinct, bool):
+            renamed_distinct = [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in renamed_distinct
+            ]
+        return Select(renamed_targets, distinct=renamed_distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -2021,7 +2027,10 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        renamed_distinct = clause.distinct_specifier()
+        if not isinstance(renamed_distinct, bool):
+            renamed_distinct = [expr.accept_visitor(self) for expr in renamed_distinct]
+        return Select(projections, distinct=renamed_distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
-- 
2.43.0


From 680b0646bd4945004438042679c42bbc610e6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 108/182] fix: expressions in DISTINCT ON are replaced

---
 postbound/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 2382074..e70d89b 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1194,7 +1194,10 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        replaced_distinct = clause.distinct_specifier()
+        if not isinstance(replaced_distinct, bool):
+            replaced_distinct = [replacement(expr) for expr in replaced_distinct]
+        return Select(replaced_targets, distinct=replaced_distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
-- 
2.43.0


From 6fb356bc6db30db182c2f22a63d3a2264f42d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 109/182] fix: tables of ordered queries can be renamed

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index e70d89b..2f4718a 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2104,7 +2104,7 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
-- 
2.43.0


From e63cffa10995df5fa827e83ee63ef6b932fbf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 110/182] fix: tables of set queries can be renamed

---
 postbound/transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 2f4718a..020d24d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2110,22 +2110,22 @@ class _TableReferenceRenamer(
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(clause.right_query.accept_visitor(self).values())
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
-- 
2.43.0


From c80aeed8c01832d4af8ebaf4837424576313bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 111/182] fix: tables in quantified expressions can be renamed

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 020d24d..8ecc38b 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2293,7 +2293,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
-- 
2.43.0


From 17ac3713335aab6a01aa68477152ce95df4329c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 112/182] fix: tables in array accesses can be renamed

---
 postbound/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 8ecc38b..5ccbc16 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2305,7 +2305,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2315,8 +2315,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
-- 
2.43.0


From fde9b7173295eb9d47e7639d0fad33dcff3deac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 113/182] fix: renaming tables retains VALUES lists in CTEs

---
 postbound/transform.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 5ccbc16..488a0a3 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2013,9 +2013,20 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
+            target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        cte.rows,
+                        target_name=target_table,
+                        columns=cte.cols,
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+
             nested_renamings = cte.query.accept_visitor(self)
             nested_query = build_query(nested_renamings.values())
-            target_table = self._rename_table(cte.target_table)
 
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
-- 
2.43.0


From 1625760b5ace15a9034ce048ee788f124cfbe98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 114/182] fix: renaming multiple tables retains all tables of
 the FROM clause

---
 postbound/transform.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 488a0a3..5f48b11 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2047,41 +2047,43 @@ class _TableReferenceRenamer(
         return Select(projections, distinct=renamed_distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
-        used_identifieres = set(tab.identifier() for tab in clause.tables())
-        intersect = used_identifieres & self._renaming_targets
+        # tables are merged if a renaming target is already present in the query, or used for multiple tables
+        renamed_identifiers = [
+            self._rename_table(tab).identifier() for tab in clause.tables() if tab
+        ]
+        merged_tables = {
+            identifier
+            for identifier in self._renaming_targets
+            if renamed_identifiers.count(identifier) > 1
+        }
         match clause:
             case ImplicitFromClause(tables):
                 renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
+                if not merged_tables:
                     return ImplicitFromClause(renamed_tables)
 
-                separate_tables = used_identifieres - intersect
                 final_tables: list[DirectTableSource] = []
                 for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
+                    if tab.identifier() in merged_tables and tab in final_tables:
                         continue
                     final_tables.append(tab)
-                    intersect.remove(tab.identifier())
                 return ImplicitFromClause(final_tables)
 
             case ExplicitFromClause(join):
-                if intersect:
+                if merged_tables:
                     raise ValueError(
                         "Cannot rename explicit JOINs: "
-                        f"Renaming targets {intersect} is already present in the query. "
+                        f"Renaming targets {merged_tables} is already present in the query. "
                         "This is currently not supported."
                     )
                 renamed_join = self._rename_table_source(join)
                 return ExplicitFromClause(renamed_join)
 
             case From(items):
-                if intersect:
+                if merged_tables:
                     raise ValueError(
                         "Cannot rename explicit JOINs: "
-                        f"Renaming targets {intersect} is already present in the query. "
+                        f"Renaming targets {merged_tables} is already present in the query. "
                         "This is currently not supported."
                     )
                 renamed_items = [self._rename_table_source(item) for item in items]
-- 
2.43.0


From 574a9166b11b66d508242010a5164d52133e61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 115/182] fix: columns are bound to the new tables if tables
 are renamed according to a dictionary

---
 postbound/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 5f48b11..f35b043 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2463,7 +2463,7 @@ def rename_table[T: SelectStatement](
     tabs_to_rename = set(tab for tab in renamings.keys())
 
     # Despite the convenient _TableReferenceRenamer, we still need to do a little bit of manual gathering/traversal to support
-    # column prefixes.
+    # column prefixes. The columns are bound to their new tables by the _TableReferenceRenamer.
     necessary_renamings: dict[ColumnReference, ColumnReference] = {}
     for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
         new_column_name = (
@@ -2471,7 +2471,7 @@ def rename_table[T: SelectStatement](
             if prefix_column_names
             else column.name
         )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
+        necessary_renamings[column] = ColumnReference(new_column_name, column.table)
 
     renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
 
-- 
2.43.0


From 947d26be38c5def25a53db051ca8974daca6e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:40 +0000
Subject: [PATCH 116/182] fix: columns of simple CASE expressions can be
 renamed

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index f35b043..10c2c50 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1613,7 +1613,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
-- 
2.43.0


From 76ae0444e7baf5df90d928d8b440c7f983b972ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 117/182] fix: renaming columns of set queries does not require
 a HAVING clause

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 10c2c50..6cfae84 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1395,7 +1395,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1420,6 +1419,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
-- 
2.43.0


From 89e7b19d01a4d6a345ff1f1ab4835ab2a7162af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 118/182] fix: the alias of a function in the FROM clause is a
 property, as it is for other sources

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 94ae6f4..ce7da1f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6656,6 +6656,7 @@ class FunctionTableSource(TableSource):
         """
         return self._alias
 
+    @property
     def alias(self) -> str:
         """Get the name under which the virtual table can be accessed in the actual query."""
         return self._alias.identifier() if self._alias else ""
-- 
2.43.0


From fc583ec3ffb9edf90380a51d4db4c51d6e3db685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 119/182] fix: pg_lab hints keep the operator of nodes whose
 parallel workers are ignored

---
 postbound/postgres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..e615591 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2392,6 +2392,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({table})"
             else:
                 hint = f"{op}({table})"
             hints.append(hint)
@@ -2409,6 +2410,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({intermediate})"
             else:
                 hint = f"{op}({intermediate})"
             hints.append(hint)
-- 
2.43.0


From 3655f55ae73bf47c948d72ffec8437ea222f6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 120/182] fix: pg_lab hints can be generated for assignments
 that contain a sort operator

---
 postbound/postgres.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index e615591..32b2979 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2416,7 +2416,14 @@ def _generate_pglab_hints(
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-            op = PGLabOptimizerHints[intermediate_op]
+            op = PGLabOptimizerHints.get(intermediate_op)
+            if not op:
+                warnings.warn(
+                    f"Cannot enforce operator {intermediate_op} with pg_lab. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
             intermediate = " ".join(tab.identifier() for tab in tabs)
             hints.append(f"{op}({intermediate})")
 
-- 
2.43.0


From 11b21c5248d75a59a9f36cbc3b424040c5c58abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 121/182] fix: parallel hints of pg_hint_plan name a single
 table, and are given at most once

---
 postbound/postgres.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 32b2979..358c5f0 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2240,7 +2240,7 @@ def _generate_pghintplan_hints(
             if scan.parallel_workers > 1 and not used_parallel:
                 hints.append(f"Parallel({tab} {scan.parallel_workers} hard)")
                 used_parallel = True
-            elif used_parallel:
+            elif scan.parallel_workers > 1 and used_parallel:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2262,7 +2262,8 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
-            elif used_parallel:
+                used_parallel = True
+            elif join.parallel_workers > 1 and used_parallel:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2312,8 +2313,8 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
-- 
2.43.0


From b3b18a6b433d873609193a2209df0e36b3bc164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 122/182] fix: system settings for DuckDB are SET statements

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..7eb7880 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -898,7 +898,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From 15eb8760b612408e60b700920053a3e8b6ee396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 123/182] fix: the preparatory statements of a query are
 executed on DuckDB

---
 postbound/duckdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 7eb7880..23be174 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -103,8 +103,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
-- 
2.43.0


From c87c8af87698eb64833ebfb252eb4136cf9cd291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 124/182] fix: boolean settings are written as such for MySQL

---
 postbound/mysql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..7becce3 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -553,10 +553,10 @@ MysqlSwitchableOptimizations = {JoinOperator.HashJoin: "block_nested_loop"}
 
 def _escape_setting(setting) -> str:
     """Transforms the setting variable into a string that can be used in an SQL query."""
-    if isinstance(setting, float) or isinstance(setting, int):
-        return str(setting)
-    elif isinstance(setting, bool):
+    if isinstance(setting, bool):
         return "TRUE" if setting else "FALSE"
+    elif isinstance(setting, float) or isinstance(setting, int):
+        return str(setting)
     return f"'{setting}'"
 
 
-- 
2.43.0


From 63fe9da58bf95884b4faf4f72ca18e82d03f3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 125/182] fix: bushy query plans are rejected for MySQL, as
 bushy join trees are

---
 postbound/mysql.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 7becce3..2e1aecf 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -597,17 +597,17 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
+        if plan is not None:
+            join_order = jointree_from_plan(plan)
+            physical_operators = operators_from_plan(plan)
+            plan_parameters = parameters_from_plan(plan)
+
         if join_order and not join_order.is_linear():
             raise UnsupportedDatabaseFeatureError(
                 self._mysql_instance,
                 "Can only enforce join order for linear join trees for now",
             )
 
-        if plan is not None:
-            join_order = jointree_from_plan(plan)
-            physical_operators = operators_from_plan(plan)
-            plan_parameters = parameters_from_plan(plan)
-
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
-- 
2.43.0


From 522d24a2eef5c37b512b4220ab2a5dd8b6f29b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 126/182] fix: global settings for MySQL do not require further
 hints

---
 postbound/mysql.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 2e1aecf..268b978 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -612,14 +612,16 @@ class MysqlHintService(HintService):
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
-        if not join_order_hint and not operator_hint:
+        if not join_order_hint and not operator_hint and not prep_statements:
             return query
 
-        final_hint_block = (
-            "/*+\n"
-            + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
-            + "\n*/"
-        )
+        final_hint_block = ""
+        if join_order_hint or operator_hint:
+            final_hint_block = (
+                "/*+\n"
+                + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
+                + "\n*/"
+            )
         hint_clause = Hint(prep_statements, final_hint_block)
         return transform.add_clause(query, hint_clause)
 
-- 
2.43.0


From 9d4e13e4a6783fec630ebef7b712c2c7af450419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 127/182] fix: EXPLAIN clauses are written in the dialect of
 MySQL

---
 postbound/mysql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 268b978..e5cb308 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -629,7 +629,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
-- 
2.43.0


From 7f479c10bd79b1224ae733766fb6890ddf9244cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 128/182] fix: queries for DuckDB without any hints do not
 receive an empty hint block

---
 postbound/duckdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 23be174..453895e 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -722,7 +722,9 @@ class HintParts:
             setting for setting in other.settings if setting not in self.settings
         ]
         merged_hints = (
-            self.hints + [""] + [hint for hint in other.hints if hint not in self.hints]
+            self.hints
+            + ([""] if self.hints and other.hints else [])
+            + [hint for hint in other.hints if hint not in self.hints]
         )
         return HintParts(merged_settings, merged_hints)
 
-- 
2.43.0


From 7071b9edbdff61098cff41189edc4c0950007c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 129/182] fix: aliased tables do not hide a table that is named
 like their full name

---
 postbound/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 72b812d..19c1623 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -382,7 +382,10 @@ class QueryNamespace:
         self._current_ctx.append(table)
         if table.alias:
             self._table_sources[table.alias] = table
-        if table.full_name:
+        if table.full_name and (
+            not table.alias or table.full_name not in self._table_sources
+        ):
+            # an alias hides the full name, the full name must not hide a table that actually uses it as its identifier
             self._table_sources[table.full_name] = table
 
     def provides_column(self, name: str) -> bool:
-- 
2.43.0


From ced1689c72d61c4286f4de2829112267e54c4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 130/182] fix: columns of functions in the FROM clause can be
 referenced

---
 postbound/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 19c1623..b747da1 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -639,7 +639,10 @@ def _pglast_parse_star(
 
     if len(fields) == 2:
         tab = fields[0]["String"]["sval"]
-        return StarExpression(from_table=namespace.resolve_table(tab))
+        owning_table = namespace.resolve_table(tab)
+        if not owning_table:
+            raise ParserError("Table not found: " + tab)
+        return StarExpression(from_table=owning_table)
 
     raise ParserError("Unknown star reference format: " + str(pglast_data))
 
@@ -1551,6 +1554,9 @@ def _pglast_parse_from_entry(
             parsed_function = _pglast_parse_expression(
                 function_expr, namespace=namespace, query_txt=query_txt
             )
+            if alias:
+                function_nsp = namespace.open_nested(alias=alias, source="subquery")
+                function_nsp.determine_output_shape([alias])
             return FunctionTableSource(parsed_function, alias=alias)
 
         case _:
-- 
2.43.0


From a24bdc70fb36732b49f7843d77f648ea4f80902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 131/182] fix: LIMIT 0 and LIMIT ALL can be parsed

---
 postbound/parser.py | 48 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index b747da1..1e6c9a4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1847,6 +1847,31 @@ def _pglast_parse_orderby(
     return OrderBy(orderings)
 
 
+def _pglast_parse_row_count(pglast_data: Optional[dict]) -> Optional[int]:
+    """Handler method to parse the number of rows of a *LIMIT* or *OFFSET* clause.
+
+    Parameters
+    ----------
+    pglast_data : Optional[dict]
+        JSON encoding of the number of rows. *None* if the query does not contain the clause.
+
+    Returns
+    -------
+    Optional[int]
+        The number of rows. Can be *None* if they are not restricted, e.g. for *LIMIT ALL*.
+    """
+    if pglast_data is None:
+        return None
+    constant: dict = pglast_data.get("A_Const", {})
+    if constant.get("isnull", False):
+        return None
+    if "ival" in constant:
+        return constant["ival"].get("ival", 0)  # zero is encoded as an empty dictionary
+    if "fval" in constant and constant["fval"]["fval"].isdigit():
+        return int(constant["fval"]["fval"])  # integers that require 64 bits
+    raise ParserError("Unknown LIMIT/OFFSET format: " + str(pglast_data))
+
+
 def _pglast_parse_limit(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> Optional[Limit]:
@@ -1875,22 +1900,16 @@ def _pglast_parse_limit(
     if raw_limit is None and raw_offset is None:
         return None
 
-    if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
-    else:
-        nrows = None
-    if raw_offset is not None:
-        offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
-    else:
-        offset = None
+    nrows = _pglast_parse_row_count(raw_limit)
+    offset = _pglast_parse_row_count(raw_offset)
+    if nrows is None and offset is None:
+        return None
 
-    normalized_query = query_txt.lower()
+    normalized_query = " ".join(query_txt.lower().split())
     contains_standard_limit = (
         "limit" in normalized_query or "fetch first" in normalized_query
     )
-    if raw_limit is not None and not contains_standard_limit:
+    if nrows is not None and not contains_standard_limit:
         if "fetch next" in normalized_query:
             fetch_direction = "next"
         elif "fetch prior" in normalized_query:
@@ -2101,9 +2120,8 @@ def _pglast_parse_query(
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
         )
-        if limit_clause is None:
-            raise ParserError(f"Malformed LIMIT/OFFSET clause for query {query_txt}")
-        clauses.append(limit_clause)
+        if limit_clause is not None:
+            clauses.append(limit_clause)
 
     return build_query(clauses)
 
-- 
2.43.0


From f9e3ad2d272891e8df00c4ae6345dd2b5c673d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 132/182] fix: large integers are not parsed as floating point
 numbers

---
 postbound/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 1e6c9a4..daf42bf 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -669,8 +669,10 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val = pglast_data["ival"]["ival"] if "ival" in pglast_data["ival"] else 0
             return StaticValueExpression(val)
         case "fval":
-            val = pglast_data["fval"]["fval"]
-            return StaticValueExpression(float(val))
+            val: str = pglast_data["fval"]["fval"]
+            # integers that require more than 32 bits are also encoded as fval
+            is_integer = val.removeprefix("-").isdigit()
+            return StaticValueExpression(int(val) if is_integer else float(val))
         case "sval":
             return StaticValueExpression(pglast_data["sval"]["sval"])
         case "boolval":
-- 
2.43.0


From 887928cd07e3999eb212dce6e86a56cfb825ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 133/182] fix: subqueries of quantified comparisons can be
 parsed

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index daf42bf..39dadff 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1139,11 +1139,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From a94d7c0fbf9ddf775cf8174f9b8ada422cb4d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 134/182] fix: FROM clauses with multiple explicit joins can be
 parsed

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 39dadff..ecc2cb4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1669,7 +1669,7 @@ def _pglast_parse_from(
 
     if not contains_join and not contains_mixed:
         return ImplicitFromClause(table_sources)
-    if contains_join and not contains_mixed:
+    if contains_join and not contains_mixed and len(table_sources) == 1:
         return ExplicitFromClause(table_sources)
 
     return From(table_sources)
-- 
2.43.0


From 1363c3cdf70ca52cca9bb8bd4c8d514f7c226ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 135/182] fix: arguments of COUNT(*) window functions are
 parsed

---
 postbound/parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ecc2cb4..44a9fd5 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1047,11 +1047,18 @@ def _pglast_parse_expression(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
-            fn = FunctionExpression(funcname, args)
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
+            fn = FunctionExpression(
+                funcname, args, distinct=expression.get("agg_distinct", False)
+            )
 
             window_spec: dict = expression["over"]
 
-- 
2.43.0


From 2aebd907da74f6ebe4d8a73b819afa39609219e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 136/182] fix: string literals are not confused with comments

---
 postbound/parser.py | 69 ++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 44 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 44a9fd5..5edaf5c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2169,11 +2169,12 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
     return prep_stmts, pglast_data[i:]
 
 
-def _parse_hint_block(
-    raw_query: str, *, set_cmds: list[str], _current_hint_text: list[str] | None = None
-) -> Optional[Hint]:
+def _parse_hint_block(raw_query: str, *, set_cmds: list[str]) -> Optional[Hint]:
     """Handler method to extract the hint block (i.e. preceding comments) from a query
 
+    Line comments are only considered if they precede the query, whereas block comments can be placed anywhere (such as hints
+    that follow the *SELECT* keyword).
+
     Parameters
     ----------
     raw_query : str
@@ -2181,53 +2182,33 @@ def _parse_hint_block(
         comments and does not represent them in the AST in any way.
     set_cmds: list[str]
         *SET* commands that have already been parsed. These will be added to the hint block.
-    _current_hint_text : list[str], optional
-        Internal parameter to keep track of the current hint text. This is used because the parsing logic uses a recursive
-        implementation.
 
     Returns
     -------
     Optional[Hint]
         The hint block if any hints were found, or *None* otherwise.
     """
-    _current_hint_text = _current_hint_text or []
-
-    raw_query = raw_query.lstrip()
-    block_hint = "/*" in raw_query
-    line_hint = raw_query.startswith("--")
-    if not block_hint and not line_hint:
-        prep_stms = "\n".join(set_cmds)
-        hints = "\n".join(_current_hint_text)
-        return Hint(prep_stms, hints) if prep_stms or hints else None
-
-    if line_hint:
-        line_end = raw_query.find("\n")
-        if line_end == -1:
-            # should never be raised b/c parsing should have failed already at this point
-            raise ParserError(f"Unterminated line comment: {raw_query}")
-
-        line_comment = raw_query[:line_end].strip()
-        _current_hint_text.append(line_comment)
-        return _parse_hint_block(
-            raw_query[line_end:],
-            set_cmds=set_cmds,
-            _current_hint_text=_current_hint_text,
-        )
-
-    # must be block hint
-    block_start = raw_query.find("/*")
-    block_end = raw_query.find("*/")
-    if block_end == -1:
-        # should never be raised b/c parsing should have failed already at this point
-        raise ParserError(f"Unterminated block comment: {raw_query}")
-
-    block_comment = raw_query[block_start : block_end + 2].strip()
-    _current_hint_text.append(block_comment)
-    return _parse_hint_block(
-        raw_query[block_end + 2 :],
-        set_cmds=set_cmds,
-        _current_hint_text=_current_hint_text,
-    )
+    comments: list[str] = []
+    pending_set_cmds = len(set_cmds)
+    within_query = False
+
+    # We use the tokens of the PG scanner to not confuse the contents of string literals with comments
+    for token in pglast.parser.scan(raw_query):
+        match token.name:
+            case "C_COMMENT":
+                comments.append(raw_query[token.start : token.end + 1].strip())
+            case "SQL_COMMENT" if not within_query:
+                comments.append(raw_query[token.start : token.end + 1].strip())
+            case "SQL_COMMENT":
+                continue
+            case "ASCII_59" if pending_set_cmds:  # the semicolon
+                pending_set_cmds -= 1
+            case _ if not pending_set_cmds:
+                within_query = True
+
+    prep_stms = "\n".join(set_cmds)
+    hints = "\n".join(comments)
+    return Hint(prep_stms, hints) if prep_stms or hints else None
 
 
 def _apply_extra_clauses(
-- 
2.43.0


From 0cba3e081cb07009a6f0c2b65ba6c55308879eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 137/182] fix: SET commands can contain numbers, quotes and
 lists of values

---
 postbound/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 5edaf5c..99a2b77 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2160,10 +2160,16 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         var_set_stmt: dict = stmt["VariableSetStmt"]
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
+        if var_set_stmt.get("is_local", False):
+            raise ParserError(f"SET LOCAL is not supported: {var_set_stmt}")
         var_name = var_set_stmt["name"]
-        var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
+        var_values: list[str] = []
+        for arg in var_set_stmt["args"]:
+            if "A_Const" not in arg:
+                raise ParserError(f"Unknown variable value: {var_set_stmt}")
+            var_values.append(str(_pglast_parse_const(arg["A_Const"])))
 
-        parsed_stmt = f"SET {var_name} TO '{var_value}';"
+        parsed_stmt = f"SET {var_name} TO {', '.join(var_values)};"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
-- 
2.43.0


From 9c19dbcafc2df31c79d15fbb2db08989abdc0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 138/182] fix: the options of EXPLAIN clauses are retained

---
 postbound/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 99a2b77..783f3a0 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2037,12 +2037,20 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
     explain_options: list[dict] = pglast_data.get("options", [])
 
     use_analyze = False
-    output_format = "TEXT"
+    output_format: Optional[str] = None
     for option in explain_options:
         definition: dict = option["DefElem"]
         match definition["defname"]:
             case "analyze":
-                use_analyze = True
+                analyze_arg: dict = definition.get("arg", {})
+                if "Integer" in analyze_arg:
+                    use_analyze = analyze_arg["Integer"].get("ival", 0) != 0
+                elif "String" in analyze_arg:
+                    use_analyze = analyze_arg["String"]["sval"] in {"true", "on"}
+                elif "Boolean" in analyze_arg:
+                    use_analyze = analyze_arg["Boolean"].get("boolval", False)
+                else:
+                    use_analyze = True
             case "format":
                 output_format = definition["arg"]["String"]["sval"]
             case _:
-- 
2.43.0


From 1d08af6045c19e471529e3d2f02d951d9884e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 139/182] fix: user-defined types are quoted and keep their
 schema

---
 postbound/parser.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 783f3a0..de91c94 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -36,6 +36,7 @@ from pathlib import Path
 from typing import Literal, Optional, overload
 
 import pglast
+import pglast.keywords
 
 from . import util
 from ._core import ColumnReference, TableReference
@@ -745,6 +746,18 @@ _PglastTypeMap: dict[str, str] = {
 """Map from the internal representation of Postgres types to the SQL standard types."""
 
 
+def _quote_type(name: str) -> str:
+    """Quotes the name of a user-defined type if this is necessary to distinguish it from the built-in types."""
+    is_keyword = (
+        name in pglast.keywords.RESERVED_KEYWORDS
+        or name in pglast.keywords.COL_NAME_KEYWORDS
+    )
+    if name.isidentifier() and name == name.lower() and not is_keyword:
+        return name
+    escaped = name.replace('"', '""')
+    return f'"{escaped}"'
+
+
 def _pglast_parse_type(pglast_data: dict) -> str:
     """Handler method to parse type information from explicit type casts
 
@@ -763,10 +776,18 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     names = pglast_data["names"]
     if len(names) > 2:
         raise ParserError("Unknown type format: " + str(pglast_data))
-    raw_type = names[-1]["String"]["sval"]
-
-    # for user-defined types we use get with the same type as argument
-    return _PglastTypeMap.get(raw_type, raw_type)
+    *type_schema, raw_type = [name["String"]["sval"] for name in names]
+    if raw_type == "interval" and "typmods" in pglast_data:
+        raise ParserError("Interval fields are not supported: " + str(pglast_data))
+    if raw_type == "bpchar" and "typmods" not in pglast_data:
+        return raw_type  # an unlimited bpchar, char would be a shorthand for char(1)
+    if type_schema in ([], ["pg_catalog"]) and raw_type in _PglastTypeMap:
+        return _PglastTypeMap[raw_type]
+
+    # for user-defined types we use the same type
+    if type_schema == ["pg_catalog"]:
+        return raw_type
+    return ".".join(_quote_type(name) for name in [*type_schema, raw_type])
 
 
 def _pglast_parse_case(
-- 
2.43.0


From e93d0407b844c833d620b62885e7285cb7bd9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 140/182] fix: unqualified columns are bound to CTEs with an
 alias

---
 postbound/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index de91c94..eaff7a4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -426,6 +426,14 @@ class QueryNamespace:
                 matching_table = table
                 break
 
+            if table.virtual and table.alias and table.full_name:
+                # an aliased CTE: the namespace is known by the name of the CTE
+                aliased_nsp = self._lookup_namespace(table.full_name)
+                if aliased_nsp and aliased_nsp.provides_column(key):
+                    matching_table = table
+                    break
+                continue
+
             cte_nsp = self._cte_sources.get(table.identifier())
             if cte_nsp and cte_nsp.provides_column(key):
                 matching_table = table
-- 
2.43.0


From 2e97869dd5c5d71259acf29c4ae916100b44f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 141/182] fix: features that the query representation does not
 support are not silently dropped

---
 postbound/parser.py | 115 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 108 insertions(+), 7 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index eaff7a4..91381a4 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -530,6 +530,28 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+def _pglast_reject(pglast_data: dict, *features: str) -> None:
+    """Makes sure that a part of a query does not make use of features that our query representation does not support.
+
+    Ignoring such features would silently change the meaning of the query.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the part of the query
+    *features : str
+        The keys that pglast uses to encode the unsupported features
+
+    Raises
+    ------
+    ParserError
+        If at least one of the features is used
+    """
+    for feature in features:
+        if pglast_data.get(feature):
+            raise ParserError(f"Unsupported feature '{feature}': {pglast_data}")
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -717,6 +739,10 @@ _PglastOperatorMap: dict[str, SqlOperator] = {
 """Map from the internal representation of Postgres operators to our standardized QAL operators."""
 
 
+_PglastDefaultWindowFrame = 1058
+"""The frame options that pglast uses for windows without an explicit frame."""
+
+
 def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     """Handler method to parse operators into our query representation.
 
@@ -798,6 +824,27 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     return ".".join(_quote_type(name) for name in [*type_schema, raw_type])
 
 
+def _pglast_parse_funcname(pglast_data: list[dict]) -> str:
+    """Handler method to parse the (potentially qualified) name of a function.
+
+    Parameters
+    ----------
+    pglast_data : list[dict]
+        JSON encoding of the different parts of the name
+
+    Returns
+    -------
+    str
+        The function name
+    """
+    names: list[str] = [elem["String"]["sval"] for elem in pglast_data]
+    for name in names:
+        if not name.isidentifier() or name != name.lower():
+            # functions are not case-sensitive in our query representation
+            raise ParserError(f"Quoted function names are not supported: {name}")
+    return ".".join(names)
+
+
 def _pglast_parse_case(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> CaseExpression:
@@ -1043,9 +1090,10 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
+            _pglast_reject(
+                expression, "agg_order", "agg_within_group", "func_variadic"
             )
+            funcname = _pglast_parse_funcname(expression["funcname"])
             distinct = expression.get("agg_distinct", False)
             if expression.get("agg_filter", False):
                 filter_expr = _pglast_parse_predicate(
@@ -1072,9 +1120,10 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
+            _pglast_reject(
+                expression, "agg_order", "agg_within_group", "func_variadic"
             )
+            funcname = _pglast_parse_funcname(expression["funcname"])
 
             if expression.get("agg_star", False):
                 args = [StarExpression()]
@@ -1090,6 +1139,9 @@ def _pglast_parse_expression(
             )
 
             window_spec: dict = expression["over"]
+            _pglast_reject(window_spec, "name", "refname")
+            if window_spec["frameOptions"] != _PglastDefaultWindowFrame:
+                raise ParserError(f"Window frames are not supported: {window_spec}")
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1192,6 +1244,8 @@ def _pglast_parse_expression(
             )
 
             for index_expression in expression["indirection"]:
+                if "A_Indices" not in index_expression:
+                    raise ParserError(f"Field access is not supported: {expression}")
                 index_expression: dict = index_expression["A_Indices"]
 
                 if index_expression.get("is_slice", False):
@@ -1239,6 +1293,13 @@ def _pglast_parse_expression(
             raise ParserError("Unknown expression type: " + str(pglast_data))
 
 
+def _pglast_reject_values_clauses(pglast_data: dict) -> None:
+    """Makes sure that a *VALUES* list does not contain any additional clauses (e.g. *ORDER BY* or *LIMIT*)."""
+    _pglast_reject(
+        pglast_data, "withClause", "sortClause", "limitCount", "limitOffset"
+    )
+
+
 def _pglast_parse_values_cte(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> tuple[ValuesList, list[str]]:
@@ -1312,10 +1373,14 @@ def _pglast_parse_ctes(
             case "CTEMaterializeNever":
                 force_materialization = False
 
+        _pglast_reject(current_cte, "search_clause", "cycle_clause")
+        if "SelectStmt" not in current_cte["ctequery"]:
+            raise ParserError(f"CTE is not a SELECT query: {current_cte}")
         query_data = current_cte["ctequery"]["SelectStmt"]
         child_nsp = parent_namespace.open_nested(alias=target_name, source="cte")
         if "targetList" not in query_data and query_data["op"] == "SETOP_NONE":
             # CTE is a VALUES query
+            _pglast_reject_values_clauses(query_data)
             values, columns = _pglast_parse_values_cte(
                 current_cte, namespace=child_nsp, query_txt=query_txt
             )
@@ -1326,6 +1391,7 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _pglast_reject(current_cte, "aliascolnames")
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1449,6 +1515,10 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     TableReference
         The parsed table reference.
     """
+    _pglast_reject(rangevar, "catalogname")
+    _pglast_reject(rangevar.get("alias", {}), "colnames")
+    if not rangevar.get("inh", False):
+        raise ParserError(f"FROM ONLY is not supported: {rangevar}")
     name = rangevar["relname"]
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
     schema = rangevar.get("schemaname", "")
@@ -1517,6 +1587,7 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _pglast_reject(join_expr, "isNatural", "usingClause", "alias")
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
@@ -1552,6 +1623,10 @@ def _pglast_parse_from_entry(
             )
 
         case "RangeSubselect" if _pglast_is_values_list(pglast_data["RangeSubselect"]):
+            _pglast_reject(pglast_data["RangeSubselect"], "lateral")
+            _pglast_reject_values_clauses(
+                pglast_data["RangeSubselect"]["subquery"]["SelectStmt"]
+            )
             values_list = _pglast_parse_values(
                 pglast_data["RangeSubselect"],
                 parent_namespace=namespace,
@@ -1561,6 +1636,7 @@ def _pglast_parse_from_entry(
 
         case "RangeSubselect":
             raw_subquery: dict = pglast_data["RangeSubselect"]
+            _pglast_reject(raw_subquery.get("alias", {}), "colnames")
             is_lateral = raw_subquery.get("lateral", False)
 
             if "alias" in raw_subquery:
@@ -1582,6 +1658,8 @@ def _pglast_parse_from_entry(
 
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
+            _pglast_reject(raw_function, "ordinality", "is_rowsfrom", "coldeflist")
+            _pglast_reject(raw_function.get("alias", {}), "colnames")
 
             if "alias" in raw_function:
                 alias: str = raw_function["alias"]["aliasname"]
@@ -1769,7 +1847,11 @@ def _pglast_parse_where(
 
 
 def _pglast_parse_groupby(
-    groupby_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
+    groupby_clause: list[dict],
+    *,
+    distinct: bool = False,
+    namespace: QueryNamespace,
+    query_txt: str,
 ) -> GroupBy:
     """Handler method to parse the *GROUP BY* clause of a query.
 
@@ -1777,6 +1859,8 @@ def _pglast_parse_groupby(
     ----------
     groupby_clause : list[dict]
         The JSON representation of the *GROUP BY* clause, as extracted from the pglast data structure
+    distinct : bool, optional
+        Whether duplicate grouping sets should be eliminated
     namespace: QueryNamespace
         The tables and columns that can be referenced by expressions in the query
     query_txt : str
@@ -1798,7 +1882,7 @@ def _pglast_parse_groupby(
         )
         groupings.append(group_expression)
 
-    return GroupBy(groupings)
+    return GroupBy(groupings, distinct=distinct)
 
 
 def _pglast_parse_having(
@@ -1994,6 +2078,7 @@ def _pglast_parse_setop(
     else:
         with_clause = None
 
+    _pglast_reject_query_features(pglast_data)
     left_query = _pglast_parse_query(
         pglast_data["larg"],
         namespace=parent_namespace.open_nested(source="setop"),
@@ -2013,8 +2098,10 @@ def _pglast_parse_setop(
                 else SetOperator.Union
             )
         case "SETOP_INTERSECT":
+            _pglast_reject(pglast_data, "all")
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
+            _pglast_reject(pglast_data, "all")
             operator = SetOperator.Except
         case _:
             raise ParserError("Unknown set operation: " + pglast_data["op"])
@@ -2089,6 +2176,13 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
     return explain_clause, pglast_data["query"]
 
 
+def _pglast_reject_query_features(pglast_data: dict) -> None:
+    """Makes sure that a query does not contain any clauses that our query representation does not support."""
+    _pglast_reject(pglast_data, "intoClause", "lockingClause", "windowClause")
+    if pglast_data["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError(f"FETCH WITH TIES is not supported: {pglast_data}")
+
+
 def _pglast_parse_query(
     stmt: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> SelectStatement:
@@ -2120,6 +2214,10 @@ def _pglast_parse_query(
             stmt, parent_namespace=namespace, query_txt=query_txt
         )
 
+    _pglast_reject_query_features(stmt)
+    if "targetList" not in stmt:
+        raise ParserError(f"Query does not contain a SELECT clause: {query_txt}")
+
     clauses: list[BaseClause] = []
 
     if "withClause" in stmt:
@@ -2146,7 +2244,10 @@ def _pglast_parse_query(
 
     if "groupClause" in stmt:
         group_clause = _pglast_parse_groupby(
-            stmt["groupClause"], namespace=namespace, query_txt=query_txt
+            stmt["groupClause"],
+            distinct=stmt.get("groupDistinct", False),
+            namespace=namespace,
+            query_txt=query_txt,
         )
         clauses.append(group_clause)
 
-- 
2.43.0


From 1d813165d814bbf19d913f9091813bd63fc50676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 142/182] fix: the evaluation order of nested mathematical
 expressions is retained

---
 postbound/qal/_qal.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ce7da1f..7a758c5 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -650,25 +650,16 @@ class MathExpression(SqlExpression):
 
     def _requires_brackets(self, child: SqlExpression) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
-        if not isinstance(child, MathExpression):
-            return False
-        if child.operator == self.operator:
+        if isinstance(child, AbstractPredicate):
+            return True
+        if not isinstance(child, MathExpression) or not child.second_arg:
             return False
-        if (
-            self.operator == MathOperator.Concatenate
-            or child.operator == MathOperator.Concatenate
-        ):
+        if child.operator != self.operator:
+            # these brackets are not always required, but we still use them for better readability
             return True
 
-        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
-        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
-
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
-
-        # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
-
-        return strict_brackets or pretty_brackets
+        # operators are evaluated from left to right
+        return child is not self.first_arg
 
     __hash__ = SqlExpression.__hash__
 
@@ -683,7 +674,11 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            arg_str = str(self.first_arg)
+            is_simple = not isinstance(
+                self.first_arg, (MathExpression, AbstractPredicate)
+            ) and not arg_str.startswith(operator_str)
+            return f"{operator_str}{arg_str}" if is_simple else f"{operator_str}({arg_str})"
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
-- 
2.43.0


From 057e7e1d788240908a0da188dbfc0001322ad8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 143/182] fix: negations of conjunctions are written with
 brackets

---
 postbound/qal/_qal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 7a758c5..e10e158 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3343,7 +3343,11 @@ class CompoundPredicate(AbstractPredicate):
 
     def _stringify_not(self) -> str:
         if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
+            is_conjunction = (
+                isinstance(self.children, CompoundPredicate)
+                and self.children.operation == CompoundOperator.And
+            )
+            return f"NOT ({self.children})" if is_conjunction else f"NOT {self.children}"
         return f"{self.children.column} NOT IN {self.children._stringify_values()}"
 
     __hash__ = AbstractPredicate.__hash__
-- 
2.43.0


From e7f27683ea60d60f43b4391b61731e0a490afad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 144/182] fix: predicates that are arguments of other
 predicates are written with brackets

---
 postbound/qal/_qal.py | 46 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index e10e158..7492909 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2490,6 +2490,38 @@ class BasePredicate(AbstractPredicate, abc.ABC):
     __hash__ = AbstractPredicate.__hash__
 
 
+def _stringify_operand(
+    operand: SqlExpression, operation: Optional[LogicalOperator] = None
+) -> str:
+    """Provides the text of the operand of a predicate, with brackets if they are required to retain the evaluation order.
+
+    Parameters
+    ----------
+    operand : SqlExpression
+        The operand
+    operation : Optional[LogicalOperator], optional
+        The operator that is applied to the operand
+
+    Returns
+    -------
+    str
+        The text of the operand
+    """
+    # Mathematical operators are evaluated before any comparison. The only exception are concatenations: they are on the same
+    # level as the array operators
+    array_operators = {
+        LogicalOperator.Contains,
+        LogicalOperator.ContainedBy,
+        LogicalOperator.Overlaps,
+    }
+    requires_brackets = isinstance(operand, AbstractPredicate) or (
+        operation in array_operators
+        and isinstance(operand, MathExpression)
+        and operand.operator == MathOperator.Concatenate
+    )
+    return f"({operand})" if requires_brackets else str(operand)
+
+
 class BinaryPredicate(BasePredicate):
     """A binary predicate combines exactly two base expressions with a comparison operation.
 
@@ -2613,7 +2645,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first_str = _stringify_operand(self.first_argument, self.operation)
+        second_str = _stringify_operand(self.second_argument, self.operation)
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2778,7 +2812,10 @@ class BetweenPredicate(BasePredicate):
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        column_str = _stringify_operand(self.column)
+        start_str = _stringify_operand(interval_start)
+        end_str = _stringify_operand(interval_end)
+        return f"{column_str} BETWEEN {start_str} AND {end_str}"
 
 
 class InPredicate(BasePredicate):
@@ -2955,7 +2992,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3348,7 +3385,8 @@ class CompoundPredicate(AbstractPredicate):
                 and self.children.operation == CompoundOperator.And
             )
             return f"NOT ({self.children})" if is_conjunction else f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        column_str = _stringify_operand(self.children.column)
+        return f"{column_str} NOT IN {self.children._stringify_values()}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 603d9ef00b1b9fce5bb5beacd5e6c71074ea26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 145/182] fix: accesses to multi-dimensional arrays are written
 without inner brackets

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 7492909..9243da5 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1234,6 +1234,9 @@ class ArrayAccessExpression(FunctionExpression):
             index_str = f"[{self._lower_idx}:]"
         else:
             index_str = f"[:{self._upper_idx}]"
+        if isinstance(self._array, ArrayAccessExpression):
+            # this is a multi-dimensional array, brackets would lead to two independent accesses
+            return f"{self._array}{index_str}"
         return f"({self._array}){index_str}"
 
 
-- 
2.43.0


From 796c7b5c97252d7e7efd051590e9b5f0b3d4f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 146/182] fix: nested array accesses are not confused with
 multi-dimensional arrays

---
 postbound/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index 91381a4..1d76eea 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1208,6 +1208,8 @@ def _pglast_parse_expression(
         case "SubLink":
             expression = pglast_data["SubLink"]
             sublink_type = expression["subLinkType"]
+            if sublink_type == "ARRAY_SUBLINK":
+                raise ParserError("ARRAY subqueries are not supported")
 
             subquery = _pglast_parse_query(
                 expression["subselect"]["SelectStmt"],
@@ -1239,6 +1241,8 @@ def _pglast_parse_expression(
 
         case "A_Indirection":
             expression: dict = pglast_data["A_Indirection"]
+            if "A_Indirection" in expression["arg"]:
+                raise ParserError(f"Nested array access is not supported: {expression}")
             array_expression = _pglast_parse_expression(
                 expression["arg"], namespace=namespace, query_txt=query_txt
             )
-- 
2.43.0


From 03f6451a4a315cbdbe98f377882918008bbbb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 147/182] fix: clauses of set queries are separated, and nested
 set queries are written with brackets

---
 postbound/qal/_qal.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 9243da5..ca7cdc4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7726,6 +7726,16 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_set_operand(query: SelectStatement) -> str:
+    """Provides the text of a query that is part of a set operation, with brackets if it could be misunderstood otherwise."""
+    query_str = query.stringify(trailing_delimiter=False)
+    requires_brackets = isinstance(query, SetQuery) or any(
+        isinstance(clause, (CommonTableExpression, OrderBy, Limit))
+        for clause in query.clauses()
+    )
+    return f"({query_str})" if requires_brackets else query_str
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7848,8 +7858,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7928,8 +7938,8 @@ class ExceptClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -8024,8 +8034,8 @@ class IntersectClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_operand(self._lhs)
+        rhs_str = _stringify_set_operand(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -10040,9 +10050,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 7ff6db0276e03bb3041d158f9509382f85cf17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 148/182] fix: nested joins are written with brackets

---
 postbound/qal/_qal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ca7cdc4..38e49da 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6982,9 +6982,12 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        right_str = str(self.right)
+        if isinstance(self.right, JoinTableSource):
+            right_str = f"({right_str})"
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.left} {self.join_type} {right_str}"
+        return f"{self.left} {self.join_type} {right_str} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
-- 
2.43.0


From 26b68644a25b873bfe6f7c2f579725ed7123b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 149/182] fix: names in the FROM clause do not refer to aliases
 of outer queries

---
 postbound/parser.py | 63 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 1d76eea..1c68426 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -277,8 +277,14 @@ class QueryNamespace:
         self._table_sources: dict[str, TableReference] = {}
         """The tables that are part of the FROM clause of the query. Entries map alias -> table.
 
-        Tables can be contained in this dictionary multiple times: once for each relevant identifier. If a table has both an
-        alias as well as a full name, both keys will be present.
+        Tables are only contained under their identifier. If a table has both an alias as well as a full name, the full name is
+        part of the `_hidden_sources`.
+        """
+
+        self._hidden_sources: dict[str, TableReference] = {}
+        """The tables of the FROM clause that have an alias. Entries map full name -> table.
+
+        Since the alias hides the full name, these entries are only used if no other table has the name as its identifier.
         """
 
         self._output_shape: list[str] = []
@@ -383,12 +389,12 @@ class QueryNamespace:
         self._current_ctx.append(table)
         if table.alias:
             self._table_sources[table.alias] = table
-        if table.full_name and (
-            not table.alias or table.full_name not in self._table_sources
-        ):
-            # an alias hides the full name, the full name must not hide a table that actually uses it as its identifier
+        elif table.full_name:
             self._table_sources[table.full_name] = table
 
+        if table.alias and table.full_name:
+            self._hidden_sources[table.full_name] = table
+
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
         return name in self._output_shape
@@ -456,14 +462,16 @@ class QueryNamespace:
         The table can be either provided by this namespace (as a physical table in the *FROM* clause, or defined through a
         subquery/CTE), or by an outer namspace.
         """
-        sourced_table = self._table_sources.get(key)
-        if sourced_table:
-            return sourced_table
-
-        if key in self._cte_sources:
-            return TableReference.create_virtual(key)
+        visible_table = self._resolve_identifier(key)
+        if visible_table:
+            return visible_table
+        return self._resolve_hidden(key)
 
-        return self._parent.resolve_table(key) if self._parent else None
+    def provides_cte(self, name: str) -> bool:
+        """Checks, whether a specific name refers to a CTE that is defined by this namespace or an outer namespace."""
+        if name in self._cte_sources:
+            return True
+        return self._parent.provides_cte(name) if self._parent else False
 
     def open_nested(
         self,
@@ -525,6 +533,24 @@ class QueryNamespace:
 
         return self._parent._lookup_namespace(table_key) if self._parent else None
 
+    def _resolve_identifier(self, key: str) -> Optional[TableReference]:
+        """Searches for the table with a specific identifier, starting with the innermost namespace."""
+        sourced_table = self._table_sources.get(key)
+        if sourced_table:
+            return sourced_table
+
+        if key in self._cte_sources:
+            return TableReference.create_virtual(key)
+
+        return self._parent._resolve_identifier(key) if self._parent else None
+
+    def _resolve_hidden(self, key: str) -> Optional[TableReference]:
+        """Searches for the table whose full name is hidden by an alias, starting with the innermost namespace."""
+        hidden_table = self._hidden_sources.get(key)
+        if hidden_table:
+            return hidden_table
+        return self._parent._resolve_hidden(key) if self._parent else None
+
     def _invalidate_column_cache(self) -> None:
         """Clears all currently cached columns in case there is fear of a change in the column bindings."""
         self._column_cache.clear()
@@ -1576,12 +1602,13 @@ def _pglast_parse_from_entry(
             # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
             # we should not create a new table reference, but rather use the existing one.
             # But, if we alias the virtual table, we still need a new reference
-            similar_table = namespace.resolve_table(table.full_name)
-            if similar_table and similar_table.virtual and not table.alias:
+            refers_to_cte = not table.schema and namespace.provides_cte(table.full_name)
+            if refers_to_cte and not table.alias:
                 # a simple reference to the CTE
-                namespace.register_table(similar_table)
-                return DirectTableSource(similar_table)
-            if similar_table and similar_table.virtual and table.alias:
+                cte_table = TableReference.create_virtual(table.full_name)
+                namespace.register_table(cte_table)
+                return DirectTableSource(cte_table)
+            if refers_to_cte and table.alias:
                 # an aliased reference to the CTE
                 table = table.make_virtual()
                 # TODO: should we also update the mapping of the full_name here?
-- 
2.43.0


From 51b7dc32142e4c5fcb05a17a2133eaa7e82c0ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 150/182] fix: columns of join conditions are only bound to the
 joined tables

---
 postbound/parser.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 1c68426..91bd538 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -29,9 +29,10 @@ References
 
 from __future__ import annotations
 
+import contextlib
 import json
 import warnings
-from collections.abc import Iterable
+from collections.abc import Generator, Iterable
 from pathlib import Path
 from typing import Literal, Optional, overload
 
@@ -395,6 +396,28 @@ class QueryNamespace:
         if table.alias and table.full_name:
             self._hidden_sources[table.full_name] = table
 
+    def n_tables(self) -> int:
+        """Provides the number of tables that are currently in scope."""
+        return len(self._current_ctx)
+
+    @contextlib.contextmanager
+    def restrict_to_join(self, n_preceding_tables: int) -> Generator[None, None, None]:
+        """Temporarily limits the resolution of unqualified columns to the tables of a join.
+
+        Parameters
+        ----------
+        n_preceding_tables : int
+            The number of tables that had already been in scope before the tables of the join were added.
+        """
+        enclosing_ctx = self._current_ctx
+        self._invalidate_column_cache()
+        self._current_ctx = enclosing_ctx[n_preceding_tables:]
+        try:
+            yield
+        finally:
+            self._current_ctx = enclosing_ctx
+            self._invalidate_column_cache()
+
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
         return name in self._output_shape
@@ -1635,6 +1658,7 @@ def _pglast_parse_from_entry(
                 case _:
                     raise ParserError("Unknown join type: " + join_expr["jointype"])
 
+            n_preceding_tables = namespace.n_tables()
             left = _pglast_parse_from_entry(
                 join_expr["larg"], namespace=namespace, query_txt=query_txt
             )
@@ -1644,9 +1668,11 @@ def _pglast_parse_from_entry(
             if join_type == JoinType.CrossJoin:
                 return JoinTableSource(left, right, join_type=JoinType.CrossJoin)
 
-            join_condition = _pglast_parse_predicate(
-                join_expr["quals"], namespace=namespace, query_txt=query_txt
-            )
+            # only the joined tables are visible to the join condition, but not the tables that precede the join
+            with namespace.restrict_to_join(n_preceding_tables):
+                join_condition = _pglast_parse_predicate(
+                    join_expr["quals"], namespace=namespace, query_txt=query_txt
+                )
 
             # we do not need to store new tables in available_tables here, since this is already handled by the recursion.
             return JoinTableSource(
-- 
2.43.0


From e15baac5c3ea4ee84db546fad28de4a15d9f7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 151/182] fix: decimal constants do not lose digits

---
 postbound/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 91bd538..0e5591a 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -33,6 +33,7 @@ import contextlib
 import json
 import warnings
 from collections.abc import Generator, Iterable
+from decimal import Decimal
 from pathlib import Path
 from typing import Literal, Optional, overload
 
@@ -752,7 +753,12 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val: str = pglast_data["fval"]["fval"]
             # integers that require more than 32 bits are also encoded as fval
             is_integer = val.removeprefix("-").isdigit()
-            return StaticValueExpression(int(val) if is_integer else float(val))
+            if is_integer:
+                return StaticValueExpression(int(val))
+            exact_val = Decimal(val)
+            return StaticValueExpression(
+                float(val) if Decimal(repr(float(val))) == exact_val else exact_val
+            )
         case "sval":
             return StaticValueExpression(pglast_data["sval"]["sval"])
         case "boolval":
-- 
2.43.0


From 07e44ca7e6195246e68a9f01f6bb830e21225da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 152/182] fix: tables of subqueries in join conditions are
 tables of the query

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 38e49da..b838021 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6924,7 +6924,10 @@ class JoinTableSource(TableSource):
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
     def tables(self) -> set[TableReference]:
-        return self._left.tables() | self._right.tables()
+        condition_tables = (
+            self._join_condition.tables() if self._join_condition else set()
+        )
+        return self._left.tables() | self._right.tables() | condition_tables
 
     def columns(self) -> set[ColumnReference]:
         condition_columns = (
-- 
2.43.0


From 7ac0442a5644fce1d832783265838750512a9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 153/182] fix: tables in the CTEs of set queries are tables of
 the query

---
 postbound/qal/_qal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index b838021..d21c1f4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -9783,7 +9783,8 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        cte_tables = self._cte.referenced_tables() if self._cte else set()
+        return self._lhs.tables() | self._rhs.tables() | cte_tables
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
-- 
2.43.0


From d9b0dc1f9346f07bed98d81fb92395f6ec80e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 154/182] fix: columns and tables of DISTINCT ON expressions
 are part of the SELECT clause

---
 postbound/qal/_qal.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index d21c1f4..79db99a 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6107,16 +6107,23 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        target_columns = util.set_union(target.columns() for target in self.targets)
+        distinct_columns = util.set_union(expr.columns() for expr in self.distinct_on)
+        return target_columns | distinct_columns
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        target_columns = util.flatten(target.itercolumns() for target in self.targets)
+        distinct_columns = util.flatten(expr.itercolumns() for expr in self.distinct_on)
+        return target_columns + distinct_columns
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        target_tables = util.set_union(target.tables() for target in self.targets)
+        distinct_tables = util.set_union(expr.tables() for expr in self.distinct_on)
+        return target_tables | distinct_tables
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        target_expressions = [target.expression for target in self.targets]
+        return target_expressions + list(self.distinct_on)
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
-- 
2.43.0


From 3eda689d2c0cc0b9ebb4e833c13ee04c3ed6103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 155/182] fix: VALUES lists in CTEs are formatted with their
 columns and materialization

---
 postbound/qal/_formatter.py | 63 ++++++++++---------------------------
 1 file changed, 16 insertions(+), 47 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..49d73bc 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -177,67 +177,36 @@ def _quick_format_cte(
         The pretty-printed parts of the CTE, indented as necessary.
     """
     recursive_info = "RECURSIVE " if cte_clause.recursive else ""
+    formatted_parts: list[str] = []
+
+    for cte_query in cte_clause.queries:
+        match cte_query.materialized:
+            case None:
+                mat_info = ""
+            case True:
+                mat_info = "MATERIALIZED "
+            case False:
+                mat_info = "NOT MATERIALIZED "
 
-    if len(cte_clause.queries) == 1:
-        cte_query = cte_clause.queries[0]
         if isinstance(cte_query, ValuesWithQuery):
             cte_structure = ", ".join(quote(target.name) for target in cte_query.cols)
             cte_structure = f"({cte_structure})" if cte_structure else ""
-            cte_header = f"WITH {quote(cte_query.target_name)}{cte_structure} AS ("
             cte_rows: list[str] = []
             for row in cte_query.rows:
                 row_values = ", ".join(str(value) for value in row)
                 cte_rows.append(f"({row_values})")
-            cte_rows[0] = f"VALUES {cte_rows[0]}" if cte_rows else ""
-            cte_content = ",\n".join(cte_rows)
+            cte_content = "VALUES " + ",\n".join(cte_rows)
         else:
-            match cte_query.materialized:
-                case None:
-                    mat_info = ""
-                case True:
-                    mat_info = "MATERIALIZED "
-                case False:
-                    mat_info = "NOT MATERIALIZED "
-
-            cte_header = (
-                f"WITH {recursive_info}{quote(cte_query.target_name)} AS {mat_info}("
-            )
+            cte_structure = ""
             cte_content = format_quick(
                 cte_query.query, flavor=flavor, trailing_semicolon=False
             )
-        cte_content = _increase_indentation(cte_content)
-        cte_footer = ")"
-        return [cte_header, cte_content, cte_footer]
 
-    first_cte, *remaining_ctes = cte_clause.queries
-    first_content = _increase_indentation(
-        format_quick(first_cte.query, flavor=flavor, trailing_semicolon=False)
-    )
-    mat_info = (
-        ""
-        if first_cte.materialized is None
-        else ("MATERIALIZED " if first_cte.materialized else "NOT MATERIALIZED ")
-    )
-    formatted_parts: list[str] = [
-        f"WITH {recursive_info} {quote(first_cte.target_name)} AS {mat_info}(",
-        first_content,
-    ]
-    for next_cte in remaining_ctes:
-        match next_cte.materialized:
-            case None:
-                mat_info = ""
-            case True:
-                mat_info = "MATERIALIZED "
-            case False:
-                mat_info = "NOT MATERIALIZED "
-
-        current_header = f"), {quote(next_cte.target_name)} AS {mat_info}("
-        cte_content = _increase_indentation(
-            format_quick(next_cte.query, flavor=flavor, trailing_semicolon=False)
+        prefix = "), " if formatted_parts else f"WITH {recursive_info}"
+        formatted_parts.append(
+            f"{prefix}{quote(cte_query.target_name)}{cte_structure} AS {mat_info}("
         )
-
-        formatted_parts.append(current_header)
-        formatted_parts.append(cte_content)
+        formatted_parts.append(_increase_indentation(cte_content))
 
     formatted_parts.append(")")
     return formatted_parts
-- 
2.43.0


From a410f1a1170ad51cb1d37dce2bb8dd654d66e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 156/182] fix: formatted queries retain LIMIT 0 and write
 OFFSET before FETCH

---
 postbound/qal/_formatter.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 49d73bc..bb4b615 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -557,27 +557,19 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
-                return [
-                    f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
-                    f"OFFSET {limit_clause.offset} ROWS",
-                ]
-            elif limit_clause.limit:
-                return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
-                return [f"OFFSET {limit_clause.offset} ROWS"]
-            else:
-                return []
-
+            limit_parts: list[str] = []
+            if limit_clause.offset is not None:
+                limit_parts.append(f"OFFSET {limit_clause.offset} ROWS")
+            if limit_clause.limit is not None:
+                limit_parts.append(f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY")
+            return limit_parts
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
-                return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
-                return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
-                return [f"OFFSET {limit_clause.offset}"]
-            return []
-
+            limit_parts: list[str] = []
+            if limit_clause.limit is not None:
+                limit_parts.append(f"LIMIT {limit_clause.limit}")
+            if limit_clause.offset is not None:
+                limit_parts.append(f"OFFSET {limit_clause.offset}")
+            return limit_parts
         case "postgres" if limit_clause.fetch_direction in {"prior", "last"}:
             warnings.warn(
                 "Postgres does not support FETCH PRIOR and FETCH LAST. Falling back to naive formatting"
-- 
2.43.0


From 81fe9eca953549730cf8c9190461b63c3dcebd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 157/182] fix: nested joins are formatted with brackets

---
 postbound/qal/_formatter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index bb4b615..5065562 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -387,7 +387,13 @@ def _quick_format_tablesource(
             elems: list[str] = []
             elems += _quick_format_tablesource(table_source.left, flavor=flavor)
             elems.append(f"{table_source.join_type}")
-            elems += _quick_format_tablesource(table_source.right, flavor=flavor)
+            right_children = _quick_format_tablesource(
+                table_source.right, flavor=flavor
+            )
+            if isinstance(table_source.right, JoinTableSource):
+                right_children[0] = f"({right_children[0]}"
+                right_children[-1] += ")"
+            elems += right_children
             if table_source.join_condition:
                 elems[-1] += f" ON {table_source.join_condition}"
             elems = [((" " * DefaultIndent) + str(child)) for child in elems]
-- 
2.43.0


From 17cb142fa2449815dfc7581a907966626553355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 158/182] fix: formatted casts to array types remain array
 types

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 5065562..46f3b5d 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -676,7 +676,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
-- 
2.43.0


From 1c7ff01aeee6867a9e198452efaa3b9151132c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 159/182] fix: formatted casts of negative numbers cast the
 negative number

---
 postbound/qal/_formatter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 46f3b5d..8a5173b 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -987,13 +987,12 @@ class _PostgresCastExpression(CastExpression):
             type_str = self.target_type
         if self.array_type:
             type_str = f"{type_str}[]"
-        casted_str = (
-            str(self.casted_expression)
-            if isinstance(
-                self.casted_expression, (ColumnExpression, StaticValueExpression)
-            )
-            else f"({self.casted_expression})"
-        )
+        casted_str = str(self.casted_expression)
+        # the cast binds stronger than the sign of a negative number
+        if not isinstance(
+            self.casted_expression, (ColumnExpression, StaticValueExpression)
+        ) or casted_str.startswith("-"):
+            casted_str = f"({casted_str})"
         return f"{casted_str}::{type_str}"
 
 
-- 
2.43.0


From 78ffb46daaf131285f0afdb2c6f7b9f4f318646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 160/182] fix: formatting does not indent string literals that
 contain line breaks

---
 postbound/qal/_formatter.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 8a5173b..13cdfae 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -63,6 +63,31 @@ SqlDialect = Literal["vanilla", "postgres"]
 """The different flavors of SQL syntax that are supported by the formatter."""
 
 
+def _split_lines(content: str) -> list[str]:
+    """Splits a formatted query into its lines. Line breaks within string literals and quoted identifiers are left alone.
+
+    Parameters
+    ----------
+    content : str
+        The formatted query
+
+    Returns
+    -------
+    list[str]
+        The lines that can be indented without changing the query
+    """
+    lines = [""]
+    current_quote = ""
+    for char in content:
+        if char == "\n" and not current_quote:
+            lines.append("")
+            continue
+        if char in ("'", '"') and current_quote in ("", char):
+            current_quote = "" if current_quote else char
+        lines[-1] += char
+    return lines
+
+
 def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str:
     """Prefixes all lines in a string by a given amount of whitespace.
 
@@ -82,7 +107,7 @@ def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str
         The indented string
     """
     indent_prefix = "\n" + " " * indentation
-    return " " * indentation + indent_prefix.join(content.split("\n"))
+    return " " * indentation + indent_prefix.join(_split_lines(content))
 
 
 class FormattingSubqueryExpression(SubqueryExpression):
@@ -133,7 +158,7 @@ class FormattingSubqueryExpression(SubqueryExpression):
         if "\n" not in formatted:
             return prefix + formatted
 
-        lines = formatted.split("\n")
+        lines = _split_lines(formatted)
         indented_lines = [f"\n{prefix}{lines[0]}"] + [
             prefix + line for line in lines[1:]
         ]
@@ -327,9 +352,11 @@ def _quick_format_tablesource(
 
         case SubqueryTableSource():
             elems: list[str] = ["LATERAL ("] if table_source.lateral else ["("]
-            subquery_elems = format_quick(
-                table_source.query, flavor=flavor, trailing_semicolon=False
-            ).split("\n")
+            subquery_elems = _split_lines(
+                format_quick(
+                    table_source.query, flavor=flavor, trailing_semicolon=False
+                )
+            )
             subquery_elems = [
                 ((" " * DefaultIndent) + str(child)) for child in subquery_elems
             ]
-- 
2.43.0


From 666d9403454f5564642b3f9b23d94201e2d48816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:47 +0000
Subject: [PATCH 161/182] fix: inlined hint blocks neither contain preparatory
 statements nor hide the projections

---
 postbound/qal/_formatter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 13cdfae..cb5d3f0 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -263,7 +263,11 @@ def _quick_format_select(
         The pretty-printed parts of the clause, indented as necessary.
     """
     prefix = " " * DefaultIndent
-    hint_text = f"{inlined_hint_block} " if inlined_hint_block else ""
+    hint_text = inlined_hint_block.query_hints if inlined_hint_block else ""
+    if "--" in hint_text:
+        hint_text += "\n"  # line comments must not swallow the projections
+    elif hint_text:
+        hint_text += " "
     if select_clause.is_distinct():
         on_cols = ", ".join(str(col) for col in select_clause.distinct_on)
         select_prefix = (
@@ -1092,6 +1096,8 @@ def format_quick(
     for clause in query.clauses():
         if inline_hint_block and isinstance(clause, Hint):
             inlined_hint_block = clause
+            if clause.preparatory_statements:
+                pretty_query_parts.append(clause.preparatory_statements)
             continue
 
         match clause:
-- 
2.43.0


From 66eae4b045dbb3be643c860b81bba3b6bacb05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 162/182] fix: the exhaustive enumeration provides linear join
 orders

---
 postbound/opt/enumeration.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 6ff7222..eb80745 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -153,10 +153,6 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
-            return
-
         join_graph = query.predicates().join_graph()
         if len(join_graph.nodes) == 0:
             return
@@ -171,7 +167,11 @@ class ExhaustiveJoinOrderEnumerator:
             )
 
         join_order_hashes = set()
-        join_order_generator = _enumerate_join_graph(query, join_graph)
+        join_order_generator = (
+            _enumerate_join_graph(query, join_graph)
+            if self._tree_structure == "bushy"
+            else self._linear_join_orders(query, join_graph)
+        )
         for join_order in join_order_generator:
             current_hash = hash(join_order)
             if current_hash in join_order_hashes:
@@ -180,7 +180,9 @@ class ExhaustiveJoinOrderEnumerator:
             join_order_hashes.add(current_hash)
             yield join_order
 
-    def _linear_join_orders(self, query: SqlQuery) -> Generator[JoinTree, None, None]:
+    def _linear_join_orders(
+        self, query: SqlQuery, join_graph: nx.Graph
+    ) -> Generator[JoinTree, None, None]:
         """Handler method to generate left-deep or right-deep join orders.
 
         The specific kind of join order is inferred based on the `_tree_structure` attribute.
@@ -189,13 +191,15 @@ class ExhaustiveJoinOrderEnumerator:
         ----------
         query : SqlQuery
             The query to "optimize"
+        join_graph : nx.Graph
+            The join graph of the query
 
         Yields
         ------
         Generator[JoinTree]
-            A generator that produces all possible join orders for the input query.
+            A generator that produces all possible join orders for the input query. Join orders can be contained multiple times
+            if the join graph contains cycles.
         """
-        join_graph = query.predicates().join_graph()
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
         for join_path in nx_utils.nx_frontier_walks(join_graph):
-- 
2.43.0


From 421b8d70833ff67cbc77f5b466fd028b7feb7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 163/182] fix: the exhaustive operator enumeration supports
 plans without scan or join operators

---
 postbound/opt/enumeration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index eb80745..5a0b546 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -298,9 +298,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
-- 
2.43.0


From 6a360fa0b968a7696bc89ea8a7ccccb2feb057ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 164/182] fix: enumerated and random join orders contain the
 tables that are not part of any predicate

---
 postbound/opt/_helpers.py    | 27 ++++++++++++++++++++++++++-
 postbound/opt/enumeration.py |  4 ++--
 postbound/opt/randomized.py  |  4 ++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 1400ee2..26e62b9 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -5,6 +5,8 @@ import math
 import warnings
 from typing import Literal, Optional, Union
 
+import networkx as nx
+
 from .. import parser
 from .._core import (
     IntermediateOperator,
@@ -26,7 +28,30 @@ from .._hints import (
     parameters_from_plan,
 )
 from .._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
-from ..qal import SqlQuery
+from ..qal import DirectTableSource, SqlQuery
+
+
+def query_join_graph(query: SqlQuery) -> nx.Graph:
+    """Provides the join graph of a query, including the tables that are not part of any predicate.
+
+    Parameters
+    ----------
+    query : SqlQuery
+        The query
+
+    Returns
+    -------
+    nx.Graph
+        The join graph. This is a copy that can be modified freely.
+    """
+    join_graph = query.predicates().join_graph().copy()
+    if query.from_clause:
+        join_graph.add_nodes_from(
+            table_source.table
+            for table_source in query.from_clause.items
+            if isinstance(table_source, DirectTableSource)
+        )
+    return join_graph
 
 
 def read_operator_json(
diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 5a0b546..c293067 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -23,7 +23,7 @@ from .._qep import QueryPlan
 from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
-from ._helpers import to_query_plan
+from ._helpers import query_join_graph, to_query_plan
 
 
 def _merge_nodes(
@@ -153,7 +153,7 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index f618f0e..299058b 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -26,7 +26,7 @@ from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
 from ..validation import CompoundCheck, CrossProductPreCheck, SupportedHintCheck
-from ._helpers import to_query_plan
+from ._helpers import query_join_graph, to_query_plan
 
 
 def _merge_nodes(
@@ -187,7 +187,7 @@ class RandomJoinOrderGenerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = query_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
-- 
2.43.0


From fc12d3bdf753589f33a0dea4c6961d420d5a6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 165/182] fix: join graphs ignore implied equalities between
 columns of the same table

---
 postbound/opt/_joingraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..95d7fad 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -428,7 +428,9 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             equivalence_class_predicates = generate_predicates_for_equivalence_classes(
                 join_equivalence_classes
             )
-            join_predicates = set(join_predicates) | equivalence_class_predicates
+            join_predicates = set(join_predicates) | {
+                pred for pred in equivalence_class_predicates if pred.is_join()
+            }
         for join_predicate in join_predicates:
             if len(join_predicate.columns()) != 2:
                 continue
-- 
2.43.0


From 22618f479db7dc302da6f5a826eae47440acfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 166/182] fix: joins over multiple columns are free n:m joins
 only if they are n:m joins at all

---
 postbound/opt/_joingraph.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 95d7fad..83d6cb8 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -496,11 +496,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
             if not self.is_available_join(first_tab, second_tab) and not is_first_join:
                 continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
+            if self.is_n_m_join(first_tab, second_tab):
+                return True
         return False
 
     def count_consumed_tables(self) -> int:
-- 
2.43.0


From 87d0a11cf7817a2491a446e512227f7049e07783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 167/182] fix: there are no join predicates to an empty set of
 tables

---
 postbound/opt/_joingraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 83d6cb8..6051e7b 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -950,7 +950,9 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             All join predicates
         """
         first_tables = util.enlist(first_tables)
-        second_tables = util.enlist(second_tables) if second_tables else first_tables
+        second_tables = (
+            util.enlist(second_tables) if second_tables is not None else first_tables
+        )
         matching_predicates = set()
 
         for first_table in first_tables:
-- 
2.43.0


From b3d0bb2e2c796e4f5b648ba91c633990bf6e1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 168/182] fix: marking a table as joined handles all of its
 join partners

---
 postbound/opt/_joingraph.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 6051e7b..380cab0 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -998,15 +998,23 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             # these two tables might have nothing to do with each other (e.g. different components in the join graph)
             return
 
+        # The join types have to be determined before any index is invalidated. Otherwise, the result would depend on the order
+        # in which we iterate over the partner tables.
         partner_tables = {col.table for col in join_edge.join_partners_of(table)}
-        for partner_table in partner_tables:
-            pk_fk_join = self.is_pk_fk_join(table, partner_table)
-            fk_pk_join = self.is_pk_fk_join(partner_table, table)
-
+        join_types = {
+            partner_table: (
+                self.is_pk_fk_join(table, partner_table),
+                self.is_pk_fk_join(partner_table, table),
+            )
+            for partner_table in partner_tables
+        }
+        for partner_table, (pk_fk_join, fk_pk_join) in join_types.items():
             if pk_fk_join and fk_pk_join:  # PK/PK join
                 continue
 
             for col1, col2 in join_edge.join_partners():
+                if {col1.table, col2.table} != {table, partner_table}:
+                    continue
                 joined_col, partner_col = (
                     (col1, col2) if col1.table == table else (col2, col1)
                 )
@@ -1021,10 +1029,10 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if pk_fk_join:
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
+            for joined_table in self.joined_tables():
+                if joined_table == partner_table:
                     continue
-                self._invalidate_indexes_on(table)
+                self._invalidate_indexes_on(joined_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
-- 
2.43.0


From d2d512b0732ee26a4c7c33e3158a6e9bcb502d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 169/182] fix: breadth-first traversals provide each node once
 and respect the node order

---
 postbound/util/nx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..f9fdd02 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,20 +167,25 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
+    initial_nodes = list(graph.adj[start_node].items())
+    if node_order:
+        initial_nodes.sort(key=lambda neighbor: node_order(neighbor[0], neighbor[1]))
+    shell_nodes = Queue(initial_nodes)
     visited_nodes = {start_node}
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
-        visited_nodes.add(current_node)
+        if current_node in visited_nodes:
+            continue
         if condition(current_node, current_edge):
+            # nodes that do not match the condition might still do so once they are reached via another edge
+            visited_nodes.add(current_node)
             neighbor_nodes = [
                 (node, edge)
                 for node, edge in graph.adj[current_node].items()
                 if node not in visited_nodes
             ]
             if node_order:
-                sorted(
-                    neighbor_nodes,
+                neighbor_nodes.sort(
                     key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
                 )
             shell_nodes.extend(neighbor_nodes)
-- 
2.43.0


From 08d6aeda3a6c7c5bf381d9a7cfa5b52f20f28368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 170/182] fix: dynamic programming handles star expressions,
 which require all columns of a table

---
 postbound/opt/dynprog.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..7ad9d83 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -67,12 +67,14 @@ def _calc_plan_estimates(
 def _collect_used_columns(
     query: SqlQuery, table: TableReference, *, schema: DatabaseSchema
 ) -> set[ColumnReference]:
-    columns = query.columns_of(table)
+    columns = set(query.columns_of(table))
     for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+        # an unqualified star (SELECT *) is not tied to any table, but requires all columns
+        star_tables = star_expression.tables()
+        if star_tables and table not in star_tables:
             continue
 
-        columns |= schema.columns(table)
+        columns |= set(schema.columns(table))
     return columns
 
 
@@ -1316,7 +1318,9 @@ class PostgresDynProg(PlanEnumerator):
 
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
             ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
         )
-- 
2.43.0


From ab14056435cfa83d004bb0fc5daaa62ff5116e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 171/182] fix: dynamic programming does not consider bitmap
 scans without any index

---
 postbound/opt/dynprog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 7ad9d83..c64fc17 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -259,7 +259,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             for column in required_columns
         }
 
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             return []
 
         candidate_plans: list[QueryPlan] = []
@@ -1390,7 +1390,7 @@ class PostgresDynProg(PlanEnumerator):
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
         }
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
             # candidate index. This is because we can still perform an index lookup followed by a sequential scan of the pages.
             # This might be better than doing a full sequential scan or a full random I/O index scan.
-- 
2.43.0


From 8a77aaffc83480bf09be600e6816aca5f44e22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 172/182] fix: add_path keeps new paths that are better sorted,
 but more expensive

---
 postbound/opt/dynprog.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index c64fc17..6b1585a 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -764,18 +764,22 @@ class PostgresDynProg(PlanEnumerator):
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
+            same_sorting = self._same_sorting(
+                path.sort_keys, other=old_path.sort_keys
+            )
             new_dominates = (
-                new_cost < old_cost
-                if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
-                else new_cost <= 1.01 * old_cost
+                new_cost < old_cost if same_sorting else new_cost <= 1.01 * old_cost
             )
 
             if new_dominates:
                 # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
                 keep_new = True  # strictly speaking, this is not necessary, but it makes our intention clearer
                 continue  # don't break here, we need to check the remaining paths
+            elif not same_sorting:
+                # The new path is better sorted, but too expensive to evict the old path. We need both of them.
+                result_paths.append(old_path)
             else:
-                # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
+                # The existing path is equally sorted and not more expensive, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
                 # successfully competed against the path that just beat our new one. We can keep them all.
                 result_paths.extend(current_paths[i:])
-- 
2.43.0


From ac3d8af2c9c485b67d9c0329147138eb8b74419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 173/182] fix: sort keys are compatible with the columns of
 their equivalence class

---
 postbound/_qep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 9cf7f25..f548b07 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
-- 
2.43.0


From 3b4b70743b4fc9067145d95fced80fe0b291f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 174/182] fix: Postgres dynamic programming considers merge
 joins

---
 postbound/opt/dynprog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 6b1585a..cbf7668 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1033,7 +1033,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
@@ -1738,7 +1738,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From 7ceee901533edbd810c232b71b80a1569a88dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 175/182] fix: Postgres dynamic programming states the
 cardinalities of index and bitmap scans

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index cbf7668..8d458c0 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1348,6 +1348,7 @@ class PostgresDynProg(PlanEnumerator):
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
+                        estimated_cardinality=rel.cardinality,
                         estimated_workers=workers,
                     )
                     index_paths.append(idx_path)
@@ -1358,6 +1359,7 @@ class PostgresDynProg(PlanEnumerator):
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
+                        estimated_cardinality=rel.cardinality,
                         estimated_workers=workers,
                     )
                     index_paths.append(idx_path)
@@ -1410,6 +1412,7 @@ class PostgresDynProg(PlanEnumerator):
             base_table=base_table,
             indexes=candidate_indexes,
             filter_predicate=filter_condition,
+            estimated_cardinality=rel.cardinality,
             estimated_workers=workers,
         )
 
-- 
2.43.0


From 250901dcd2d0fe3744ae3d71bdef2709e39134bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 176/182] fix: Postgres dynamic programming considers merge
 joins for nested conjunctions

---
 postbound/opt/dynprog.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 8d458c0..9d6c0f8 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1721,11 +1721,15 @@ class PostgresDynProg(PlanEnumerator):
                 f"{outer_rel} and {inner_rel}"
             )
 
-        match join_predicates:
-            case CompoundPredicate(op, children) if op == CompoundOperator.And:
-                join_keys: Sequence[AbstractPredicate] = children
-            case _:
-                join_keys = [join_predicates]
+        # conjunctions can be nested, e.g. if multiple pairs of tables are each joined by multiple predicates
+        join_keys: list[AbstractPredicate] = []
+        pending: list[AbstractPredicate] = [join_predicates]
+        while pending:
+            match pending.pop(0):
+                case CompoundPredicate(op, children) if op == CompoundOperator.And:
+                    pending = list(children) + pending
+                case join_key:
+                    join_keys.append(join_key)
 
         return join_keys
 
-- 
2.43.0


From da8a208c59419e75f5f25d91792a737fba764a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 177/182] fix: leave out queries that cannot be parsed from
 workloads

With on_error="warn" or "ignore" the label of a broken file was mapped to the
query of the previous file (or the name was unbound).
---
 postbound/workloads.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..56d727f 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -213,8 +213,9 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         warnings.warn(
                             f"Could not parse query {query_file_path}: {e} ({type(e)})"
                         )
+                        continue
                     case "ignore":
-                        pass
+                        continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -731,8 +732,9 @@ def read_workload(
                     warnings.warn(
                         f"Could not parse query {query_file_path}: {e} ({type(e)})"
                     )
+                    continue
                 case "ignore":
-                    pass
+                    continue
 
         query_label = query_file_path.stem
         queries[query_label] = parsed_query
-- 
2.43.0


From 865e452843979e98e79da34cb785365f668732d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 178/182] fix: use the label prefix and the encoding for all
 workload files

The prefix was never applied, such that queries from different subdirectories
replaced each other.
---
 postbound/workloads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 56d727f..13eba47 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -737,7 +737,7 @@ def read_workload(
                     continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -751,12 +751,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From e3e8df6a32899297ba6e646e81b583f7bb592fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 179/182] fix: skip empty lines in batch workloads

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 13eba47..19f84ff 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -797,7 +797,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
-- 
2.43.0


From 39664d9dcdf735883aa87ac4c4a066781cc11069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 180/182] fix: retain queries that occur multiple times in a
 workload

Workloads were constructed via a mapping from queries to labels, which has room
for just one label per query.
---
 postbound/workloads.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 19f84ff..0d4aadc 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -869,13 +869,9 @@ def read_csv_workload(
     queries = workload_df[query_column].tolist()
     if label_column:
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+        return Workload(dict(zip(labels, queries)), name, filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -916,11 +912,10 @@ def generate_workload(
         Path(workload_root) if isinstance(workload_root, str) else workload_root
     )
     name = name if name else (workload_root.stem if workload_root else "")
-    if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+    if labels:
+        workload_contents = util.dicts.invert(labels)
+    else:
+        workload_contents = dict(enumerate(queries, start=1))
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From c0221b343556fc4d70f45b3af843125574eb989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 181/182] fix: select no query if the last 0 queries are
 requested

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 0d4aadc..a06b8f6 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -379,7 +379,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n > 0 else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From 3bf172c0311783d802ce79a3c02279a43271f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 182/182] fix: retain keys with equal values when inverting
 dicts of lists

---
 postbound/util/dicts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index e5f52e8..f82da8d 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -179,9 +179,8 @@ def invert_multi(mapping: dict[K, list[V]]) -> dict[V, list[K]]:
     Supppose a multi-dict has the following contents: `{'a': [1, 2], 'b': [2, 3]}`.
     Calling `invert` transforms this mapping to `{1: ['a'], 2: ['a', 'b'], 3: ['b']}`.
     """
-    level1 = {tuple(vs): k for k, vs in mapping.items()}
     level2: dict[V, list[K]] = {}
-    for vs, k in level1.items():
+    for k, vs in mapping.items():
         for v in vs:
             if v not in level2:
                 level2[v] = [k]
-- 
2.43.0

