From 205fa4308fc49602e8094b61496d27434b3863d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 001/106] fix: let node comparisons with other types fall back
 instead of raising AttributeError

Recomputing inclusive metrics on a dataframe indexed by node, rank and thread
raised AttributeError: pandas probes the node level with a tuple and expects
the comparison to raise TypeError.
---
 hatchet/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..f9b5d63 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -191,12 +191,18 @@ class Node:
         return self._hatchet_nid
 
     def __eq__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid == other._hatchet_nid
 
     def __lt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid < other._hatchet_nid
 
     def __gt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid > other._hatchet_nid
 
     def __str__(self):
-- 
2.43.0


From c30970ac80e0774cd90857f92ab24938811d8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 002/106] fix: keep subgraph_sum from reading values it has
 already overwritten

In a graph with shared nodes a descendant's sum could be stored before it was
read as input of another ancestor (always with a multi-index, and when summing
in place), so descendants were counted more than once.
---
 hatchet/graphframe.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..b3599cd 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -748,6 +748,9 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # read from a copy: a descendant's output may be stored before it is
+        # needed as input for another of its ancestors
+        input_df = self.dataframe[columns].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -774,15 +777,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, out] = [
+                            function(input_df.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(input_df.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 810b0fc0ce72f719ae62877a8ed80948ec21c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 003/106] fix: count descendants whose ancestors lack a row at
 some rank or thread

On trees subgraph_sum delegates to subtree_sum, which adds up the children's
sums and therefore lost everything below a child without a row at that index.
---
 hatchet/graphframe.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b3599cd..b0d4b4c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -722,6 +722,15 @@ class GraphFrame:
                             self.dataframe.loc[[node] + node.children, col]
                         )
 
+    def _has_all_index_rows(self):
+        """True if every node has a row for every combination of the other index
+        levels (e.g., rank, thread) that occurs in the dataframe."""
+        index = self.dataframe.index
+        if not isinstance(index, pd.MultiIndex):
+            return True
+        num_nodes = index.get_level_values("node").nunique()
+        return len(index) == num_nodes * index.droplevel("node").nunique()
+
     def subgraph_sum(
         self, columns, out_columns=None, function=lambda x: x.sum(min_count=1)
     ):
@@ -743,7 +752,9 @@ class GraphFrame:
             function (callable): associative operator used to sum
                 elements, sum of an all-NA series is NaN (default: sum(min_count=1))
         """
-        if self.graph.is_tree():
+        # subtree_sum combines the children's sums, so it needs a row for each
+        # of them at every index (e.g. rank) of the node
+        if self.graph.is_tree() and self._has_all_index_rows():
             self.subtree_sum(columns, out_columns, function)
             return
 
-- 
2.43.0


From de1e5914dbec42f307c20adfd72b8974cfcfce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 004/106] fix: find all paths matched by queries with
 overlapping or adjacent wildcards

A '*' stopped at the first node that matched the following query node, so longer
matches were missed, two adjacent '*' could not both match zero nodes at the end
of a path, and a query starting with several '*' restarted at the first one.
---
 hatchet/query/engine.py | 75 ++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..5070d6f 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -3,7 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
-from itertools import groupby
+from collections import OrderedDict
 import pandas as pd
 
 from .errors import InvalidQueryFilter
@@ -100,34 +100,50 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
+        matches = []
+        # If the rest of the query can continue at this node, the "*"
+        # wildcard may end before it. There is no need to consider that
+        # for a trailing "*", which matches as many nodes as it can.
+        is_last = wcard_idx == len(query) - 1
+        matches_wcard = wcard_idx in self.search_cache[node._hatchet_nid]
+        if not (is_last and matches_wcard) and self._can_continue(
+            query, node, wcard_idx + 1
+        ):
+            matches.append([])
         # If the node matches the "*" wildcard query, recursively
         # apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
+        if matches_wcard:
+            sub_matches = []
             if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+                if self._all_optional(query, wcard_idx + 1):
+                    sub_matches.append([])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
                 if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+                    sub_matches.extend(sub_match)
+            tmp = set(tuple(m) for m in sub_matches)
+            matches.extend([node] + list(t) for t in tmp)
         # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        # the rest of the query, return None.
+        if len(matches) == 0:
             return None
+        return matches
+
+    def _all_optional(self, query, idx):
+        """Check if the query nodes starting at index "idx" can all match zero nodes."""
+        return all(wcard == "*" for wcard, _ in query.query_pattern[idx:])
+
+    def _can_continue(self, query, node, idx):
+        """Check if the (cached) node can match the query node at index "idx" or, if that
+        one can match zero nodes, a later one. Also true if there is nothing left to match.
+        """
+        for i in range(idx, len(query)):
+            if i in self.search_cache[node._hatchet_nid]:
+                return True
+            if query.query_pattern[i][0] != "*":
+                return False
+        return True
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -173,7 +189,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -211,9 +227,8 @@ class QueryEngine:
                 for s in sub_match:
                     if s is not None:
                         new_matches.append(m + s)
-                new_matches = [uniq_match for uniq_match, _ in groupby(new_matches)]
             # Overwrite the old matches with the updated matches
-            matches = new_matches
+            matches = [list(t) for t in OrderedDict.fromkeys(map(tuple, new_matches))]
             # If all the existing partial matches were not able to be
             # expanded into full matches, return None.
             if len(matches) == 0:
@@ -242,15 +257,15 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # Leading "*" wildcards may match zero nodes, so the node may also match
+        # the query node following them.
+        for match_idx in range(len(query)):
+            if match_idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, match_idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if query.query_pattern[match_idx][0] != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From 5dcc5855d04d441b808c60938b7c004be40d7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 005/106] fix: compare nan and infinite values correctly in the
 object dialect

Comparing -inf used +inf instead, '!= np.nan' and '!= np.inf' selected nan and inf
values, and multi-indexed data containing nan or inf raised a NameError.
---
 hatchet/query/object_dialect.py | 35 ++++++++++++++-------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..18bcc71 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -27,6 +27,19 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _compare(value, comparison):
+    """Evaluates a comparison string (e.g., "> 5") on a numeric value"""
+    if pd.isnull(value):
+        # unlike in Python, nan is equal to nan in a query
+        # (e.g., np.nan == np.nan)
+        if "np.nan" in comparison:
+            return comparison.startswith("==")
+        value = "np.nan"
+    elif np.isinf(value):
+        value = "np.inf" if value > 0 else "-np.inf"
+    return eval("{} {}".format(value, comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -74,25 +87,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
-
+                    return _compare(df_row[key], single_value)
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
                 raise InvalidQueryFilter(
@@ -168,7 +163,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From 39c1081b27fba18f64602c656eae90ab2155a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 006/106] fix: match the whole text for every alternative of a
 regex in the object dialect

The appended '\Z' only applied to the last alternative, so 'foo|bar' also matched
'foobaz'.
---
 hatchet/query/object_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 18bcc71..4e923a9 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -82,7 +82,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match(single_value + r"\Z", df_row[key]) is not None
+                return re.fullmatch(single_value, df_row[key]) is not None
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -155,7 +155,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match(single_value + r"\Z", x) is not None
+                    lambda x: re.fullmatch(single_value, x) is not None
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 06dbe1d884a2bd111aaac1daedfc01417c3e6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 007/106] fix: honour the 'all' mode for numbers and the leaf
 depth in multi-indexed object queries

---
 hatchet/query/object_dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 4e923a9..8e2a0d4 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -129,6 +129,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -167,7 +170,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 0c61107fd00b96acd2c80c60ce47fd4e971053d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 008/106] fix: accept string queries without WHERE clause and
 named nodes without conditions

---
 hatchet/query/string_dialect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..085076a 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -115,7 +115,8 @@ class StringQuery(Query):
         self.wcard_pos = {}
         self._parse_path(model.path_expr)
         self.filters = [[] for _ in self.wcards]
-        self._parse_conditions(model.cond_expr)
+        if model.cond_expr is not None:
+            self._parse_conditions(model.cond_expr)
         self.lambda_filters = [None for _ in self.wcards]
         self._build_lambdas()
         self._build_query()
@@ -147,7 +148,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
                 for j, cond in enumerate(self.filters[i]):
-- 
2.43.0


From f80a5c247a8fc451e305cd27a8836149358029de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 009/106] fix: do not turn a count of zero into one in string
 queries

---
 hatchet/query/string_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 085076a..4cb9a3e 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -174,7 +174,7 @@ class StringQuery(Query):
         idx = len(self.wcards)
         for n in nodes:
             new_node = [n.wcard, n.name]
-            if n.wcard is None or n.wcard == "" or n.wcard == 0:
+            if n.wcard is None or n.wcard == "":
                 new_node[0] = "."
             self.wcards.append(new_node)
             if n.name != "":
-- 
2.43.0


From a3667719b896de422440d44eaf81c412494770dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 010/106] fix: accept quotes and backslashes in names and
 values of string queries

They were pasted into the source of the generated predicates, so that regexes like
'\bfoo' silently changed their meaning and quotes raised a SyntaxError.
---
 hatchet/query/string_dialect.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 4cb9a3e..cbae19f 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -63,6 +63,12 @@ def cname(obj):
     return obj.__class__.__name__
 
 
+def _escape(text):
+    """Utility function to escape text for its use in a string literal of a predicate"""
+    text = text.encode("unicode_escape").decode("ascii")
+    return text.replace('"', '\\"').replace("'", "\\'")
+
+
 def filter_check_types(type_check, df_row, filt_lambda):
     """Utility function used in String-based predicates
        to make sure the node data used in the actual boolean predicate
@@ -162,7 +168,7 @@ class StringQuery(Query):
                             type_check += " and {}".format(cond[2])
                 bool_expr = "lambda df_row: {}".format(bool_expr)
                 bool_expr = (
-                    'lambda df_row: filter_check_types("{}", df_row, {})'.format(
+                    "lambda df_row: filter_check_types({!r}, df_row, {})".format(
                         type_check, bool_expr
                     )
                 )
@@ -260,7 +266,10 @@ class StringQuery(Query):
 
     def _parse_single_cond(self, obj):
         """Top level function for parsing individual numeric or string predicates."""
+        if hasattr(obj, "prop"):
+            obj.prop = _escape(obj.prop)
         if self._is_str_cond(obj):
+            obj.val = _escape(obj.val)
             return self._parse_str(obj)
         if self._is_num_cond(obj):
             return self._parse_num(obj)
-- 
2.43.0


From d4421ce11154f1e17a36531fe1b5478e04a13c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 011/106] fix: allow string queries whose first condition needs
 no type check

'p IS LEAF AND p."time" > 1' failed with a SyntaxError when it was applied.
---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index cbae19f..39ca353 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -157,12 +157,12 @@ class StringQuery(Query):
             if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
-- 
2.43.0


From 0e1ccd45b73d9827746952c085a9424fb56d9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 012/106] fix: apply IS NOT NAN and IS NOT INF to the rows of
 multi-indexed data

'not pd.isna(...).any()' checked that no row is nan in 'any' mode, and that some
row is not nan in 'all' mode.
---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 39ca353..53bbf7d 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1307,7 +1307,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                '(~pd.isna(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1401,7 +1401,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From 0e25b4128e486d992e921ab968fc63d2e3ffdef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 013/106] fix: parse curly brace-delimited regions of string
 queries faithfully

Conditions outside of the braces, a NOT before a brace and text after the last one
were silently dropped, a query with a single region gave None, nested regions and
regions with line breaks or braces in strings were cut apart, conditions starting
with NOT or using IS LEAF were rejected, and the multi-index mode was lost for
entire queries in braces.
---
 hatchet/query/string_dialect.py | 167 +++++++++++++++-----------------
 1 file changed, 77 insertions(+), 90 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 53bbf7d..b9ace17 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1407,6 +1407,35 @@ class StringQuery(Query):
         ]
 
 
+def _find_curly_brace_regions(query_str):
+    """Find the outermost curly brace-delimited regions of a String-based query,
+    ignoring curly braces within strings.
+
+    Arguments:
+        query_str (str): the String-based query
+
+    Returns:
+        (list): the (start, end) positions of the regions, including the curly braces
+    """
+    regions = []
+    depth = 0
+    start = None
+    for token in re.finditer(r"""'(?:\\'|[^'])*'|"(?:\\"|[^"])*"|[{}]""", query_str):
+        if token.group() == "{":
+            if depth == 0:
+                start = token.start()
+            depth += 1
+        elif token.group() == "}":
+            depth -= 1
+            if depth == 0:
+                regions.append((start, token.end()))
+        if depth < 0:
+            break
+    if depth != 0:
+        raise ValueError("Unbalanced curly braces within the query")
+    return regions
+
+
 def parse_string_dialect(query_str, multi_index_mode="off"):
     """Parse all types of String-based queries, including multi-queries that leverage
     the curly brace delimiters.
@@ -1417,59 +1446,41 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
     Returns:
         (Query or CompoundQuery): A Hatchet query object representing the String-based query
     """
-    # TODO Check if there's a way to prevent curly braces in a string
-    #      from being captured
-
     # Find the number of curly brace-delimited regions in the query
     query_str = query_str.strip()
-    curly_brace_elems = re.findall(r"\{(.*?)\}", query_str)
-    num_curly_brace_elems = len(curly_brace_elems)
+    curly_brace_regions = _find_curly_brace_regions(query_str)
+    num_curly_brace_elems = len(curly_brace_regions)
     # If there are no curly brace-delimited regions, just pass the query
     # off to the CypherQuery constructor
     if num_curly_brace_elems == 0:
         if sys.version_info[0] == 2:
             query_str = query_str.decode("utf-8")
         return StringQuery(query_str, multi_index_mode)
-    # Create an iterator over the curly brace-delimited regions
-    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str)
     # Will store curly brace-delimited regions in the WHERE clause
     condition_list = None
     # Will store curly brace-delimited regions that contain entire
     # mid-level queries (MATCH clause and WHERE clause)
     query_list = None
-    # If entire queries are in brace-delimited regions, store the indexes
-    # of the regions here so we don't consider brace-delimited regions
-    # within the already-captured region.
-    query_idxes = None
     # Store which compound queries to apply to the curly brace-delimited regions
     compound_ops = []
-    for i, match in enumerate(curly_brace_iter):
+    for i, (start, end) in enumerate(curly_brace_regions):
         # Get the substring within curly braces
-        substr = query_str[match.start() + 1 : match.end() - 1]
+        substr = query_str[start + 1 : end - 1]
         substr = substr.strip()
-        # If an entire query (MATCH + WHERE) is within curly braces,
-        # add the query to "query_list", and add the indexes corresponding
-        # to the query to "query_idxes"
-        if substr.startswith("MATCH"):
+        # If an entire query (MATCH + WHERE, or a group of such queries) is
+        # within curly braces, add the query to "query_list"
+        if substr.startswith("MATCH") or (
+            substr.startswith("{") and curly_brace_regions[0][0] == 0
+        ):
             if query_list is None:
                 query_list = []
-            if query_idxes is None:
-                query_idxes = []
             query_list.append(substr)
-            query_idxes.append((match.start(), match.end()))
         # If the curly brace-delimited region contains only parts of a
-        # WHERE clause, first, check if the region is within another
-        # curly brace delimited region. If it is, do nothing (it will
-        # be handled later). Otherwise, add the region to "condition_list"
-        elif re.match(r"[a-zA-Z0-9_]+\..*", substr) is not None:
-            is_encapsulated_region = False
-            if query_idxes is not None:
-                for s, e in query_idxes:
-                    if match.start() >= s or match.end() <= e:
-                        is_encapsulated_region = True
-                        break
-            if is_encapsulated_region:
-                continue
+        # WHERE clause (or further groups of them), add the region to
+        # "condition_list"
+        elif (
+            re.match(r"(\{|(NOT\s+)?[a-zA-Z0-9_]+\s*(\.|\sIS\s))", substr) is not None
+        ):
             if condition_list is None:
                 condition_list = []
             condition_list.append(substr)
@@ -1477,19 +1488,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # or part of a WHERE clause, raise an error
         else:
             raise ValueError("Invalid grouping (with curly braces) within the query")
-        # If there is a compound operator directly after the curly brace-delimited region,
-        # capture the type of operator, and store the type in "compound_ops"
+        # Capture the type of the compound operator between this and the next
+        # curly brace-delimited region, and store the type in "compound_ops"
         if i + 1 < num_curly_brace_elems:
-            rest_substr = query_str[match.end() :]
-            rest_substr = rest_substr.strip()
-            if rest_substr.startswith("AND"):
-                compound_ops.append("AND")
-            elif rest_substr.startswith("OR"):
-                compound_ops.append("OR")
-            elif rest_substr.startswith("XOR"):
-                compound_ops.append("XOR")
-            else:
+            compound_op = query_str[end : curly_brace_regions[i + 1][0]].strip()
+            if compound_op not in ["AND", "OR", "XOR"]:
                 raise ValueError("Invalid compound operator type found!")
+            compound_ops.append(compound_op)
+        elif query_str[end:] != "":
+            raise ValueError("Unexpected text after the last curly brace")
     # Each call to this function should only consider one of the full query or
     # WHERE clause versions at a time. If both types were captured, raise an error
     # because some type of internal logic issue occured.
@@ -1506,59 +1513,39 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
                 "Incompatible number of curly brace elements and compound operators"
             )
         # Get the MATCH clause that will be shared across the subqueries
-        match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
+        match_comp_obj = re.match(
+            r"MATCH\s*(?P<match_field>.*)\s+WHERE\s*$",
+            query_str[: curly_brace_regions[0][0]],
+            re.DOTALL,
+        )
+        if match_comp_obj is None:
+            raise ValueError(
+                "Curly braces must be around all the conditions of the WHERE clause"
+            )
         match_comp = match_comp_obj.group("match_field")
-        # Iterate over the compound operators
-        full_query = None
-        for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
-            # Get the next query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # next curly brace-delimited region
-            next_query = "MATCH {} WHERE {}".format(match_comp, condition_list[i + 1])
-            if sys.version_info[0] == 2:
-                next_query = next_query.decode("utf-8")
-            next_query = StringQuery(next_query, multi_index_mode)
-            # Add the next query to the full query using the compound operator
-            # currently being considered
-            if op == "AND":
-                full_query = full_query & next_query
-            elif op == "OR":
-                full_query = full_query | next_query
-            else:
-                full_query = full_query ^ next_query
-        return full_query
+        subqueries = [
+            "MATCH {} WHERE {}".format(match_comp, cond) for cond in condition_list
+        ]
     # This branch is for the full query version
     else:
+        if curly_brace_regions[0][0] != 0:
+            raise ValueError("Unexpected text before the first curly brace")
         # Make sure you correctly gathered curly brace-delimited regions and
         # compound operators
         if len(query_list) != len(compound_ops) + 1:
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
-        # Iterate over the compound operators
-        full_query = None
-        for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
-            # Get the next query by recursively calling this function
-            # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
-            # Add the next query to the full query using the compound operator
-            # currently being considered
-            if op == "AND":
-                full_query = full_query & next_query
-            elif op == "OR":
-                full_query = full_query | next_query
-            else:
-                full_query = full_query ^ next_query
-        return full_query
+        subqueries = query_list
+    # Recursively call this function on the curly brace-delimited regions, and
+    # add them to the full query using the compound operators between them
+    full_query = parse_string_dialect(subqueries[0], multi_index_mode)
+    for op, subquery in zip(compound_ops, subqueries[1:]):
+        next_query = parse_string_dialect(subquery, multi_index_mode)
+        if op == "AND":
+            full_query = full_query & next_query
+        elif op == "OR":
+            full_query = full_query | next_query
+        else:
+            full_query = full_query ^ next_query
+    return full_query
-- 
2.43.0


From 511d93a828e5249626c593a3a5a19d5c5888a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 014/106] fix: support ~ on new-style queries as on old-style
 ones

The negation was only registered as __not__, which Python never calls.
---
 hatchet/query/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..4a91951 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -60,12 +60,14 @@ Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
 Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
 CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From f5365c737e3c116c7be033d0a33bec07d1483e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 015/106] fix: reject negative counts in queries instead of
 treating them as zero

---
 hatchet/query/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/query/query.py b/hatchet/query/query.py
index 39f1774..9c19e5b 100644
--- a/hatchet/query/query.py
+++ b/hatchet/query/query.py
@@ -75,6 +75,7 @@ class Query(object):
         assert isinstance(quantifer, int) or isinstance(quantifer, str)
         assert callable(predicate)
         if isinstance(quantifer, int):
+            assert quantifer >= 0
             for _ in range(quantifer):
                 self.query_pattern.append((".", predicate))
         elif quantifer == "+":
-- 
2.43.0


From 27a756b5e8587d637198aa8afd1b438098b812be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 016/106] fix: give every Frame its own attributes instead of
 the caller's dictionary

---
 hatchet/frame.py                   |  4 ++--
 hatchet/readers/timemory_reader.py | 29 +++++++++++++++--------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/hatchet/frame.py b/hatchet/frame.py
index b090a96..65f63cc 100644
--- a/hatchet/frame.py
+++ b/hatchet/frame.py
@@ -32,8 +32,8 @@ class Frame:
             Frame({"name": "foo", "file": "baz.h"}, file="bar.c")
 
         """
-        # attributes dictionary
-        self.attrs = attrs if attrs else {}
+        # attributes dictionary (our own, the caller may reuse theirs)
+        self.attrs = dict(attrs) if attrs else {}
 
         # add keyword arguments, if any.
         if kwargs:
diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..f731ed5 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -276,19 +276,6 @@ class TimemoryReader:
 
             callpath = _parent_callpath + (_frame_attrs["name"],)
 
-            # check if the node already exits.
-            _hnode = self.callpath_to_node.get(callpath)
-            if _hnode is None:
-                # connect with the parent during node creation.
-                _hnode = Node(Frame(_frame_attrs), _hparent)
-                self.callpath_to_node[callpath] = _hnode
-                if _hparent is None:
-                    # if parent is none, this is a root node.
-                    list_roots.append(_hnode)
-                else:
-                    # if parent is not none, add as a child.
-                    _hparent.add_child(_hnode)
-
             # by placing the thread-id or rank-id in _frame_attrs, the hash
             # for the Frame(_keys) effectively circumvent Hatchet's
             # default behavior of combining similar thread/rank entries
@@ -301,10 +288,24 @@ class TimemoryReader:
                 del _rank_dict["rank"]
                 self.include_nid = False
 
-            # extract some relevant data
             _tid_dict["thread"] = collapse_ids(
                 _node_data["node"]["tid"], self.per_thread
             )
+
+            # check if the node already exits.
+            _hnode = self.callpath_to_node.get(callpath)
+            if _hnode is None:
+                # connect with the parent during node creation.
+                _hnode = Node(Frame(_frame_attrs), _hparent)
+                self.callpath_to_node[callpath] = _hnode
+                if _hparent is None:
+                    # if parent is none, this is a root node.
+                    list_roots.append(_hnode)
+                else:
+                    # if parent is not none, add as a child.
+                    _hparent.add_child(_hnode)
+
+            # extract some relevant data
             _extra["pid"] = collapse_ids(_node_data["node"]["pid"], False)
             _extra["count"] = _node_data["node"]["inclusive"]["entry"]["laps"]
 
-- 
2.43.0


From d1ea0aff3cbda47ae92795ddfef4df45222033f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 017/106] fix: compare graphs by structure and sharing instead
 of by sibling order and node ids

---
 hatchet/graph.py | 23 ++++++++---------
 hatchet/node.py  | 64 ++++++++++++++++++++++++++++++------------------
 2 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..4c6ccd9 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -387,9 +387,6 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
-
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
             return True
@@ -401,16 +398,20 @@ class Graph:
         if len(self) != len(other):
             return False
 
-        # sort roots by its frame
-        ssorted = sorted(self.roots, key=lambda x: x.frame)
-        osorted = sorted(other.roots, key=lambda x: x.frame)
+        # number the structures found below the roots of both graphs
+        shapes = {}
+        for graph in (self, other):
+            for root in graph.roots:
+                root._number_shapes(shapes)
 
-        for self_root, other_root in zip(ssorted, osorted):
-            # if frames do not match, then nodes are not equal
-            if self_root.frame != other_root.frame:
-                return False
+        # sort roots so that equal ones correspond
+        ssorted = sorted(self.roots, key=lambda x: shapes[id(x)])
+        osorted = sorted(other.roots, key=lambda x: shapes[id(x)])
 
-            if not self_root.dag_equal(other_root, vs, vo):
+        vs = {}
+        vo = {}
+        for self_root, other_root in zip(ssorted, osorted):
+            if not self_root.dag_equal(other_root, vs, vo, shapes):
                 return False
 
         return True
diff --git a/hatchet/node.py b/hatchet/node.py
index f9b5d63..39f436e 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -71,48 +71,64 @@ class Node:
             raise MultiplePathError("Node has more than one path: " % paths)
         return paths[0]
 
-    def dag_equal(self, other, vs=None, vo=None):
+    def dag_equal(self, other, vs=None, vo=None, shapes=None):
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
+
+        Arguments:
+            vs (dict, optional): nodes of other corresponding to the nodes
+                visited on self's side, keyed by id
+            vo (dict, optional): nodes of self's side corresponding to the
+                nodes visited on other's side, keyed by id
+            shapes (dict, optional): structures seen in both DAGs, see
+                ``_number_shapes``
         """
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
+        if shapes is None:
+            shapes = {}
+            self._number_shapes(shapes)
+            other._number_shapes(shapes)
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[id(self)] = other
+        vo[id(other)] = self
 
-        # if number of children do not match, then nodes are not equal
-        if len(self.children) != len(other.children):
+        # if frames or descendants' frames do not match, then nodes are not equal
+        if shapes[id(self)] != shapes[id(other)]:
             return False
 
-        # sort children of each node by its frame
-        ssorted = sorted(self.children, key=lambda x: x.frame)
-        osorted = sorted(other.children, key=lambda x: x.frame)
+        # sort children of each node so that equal ones correspond
+        ssorted = sorted(self.children, key=lambda x: shapes[id(x)])
+        osorted = sorted(other.children, key=lambda x: shapes[id(x)])
 
         for self_child, other_child in zip(ssorted, osorted):
-            # if frames do not match, then nodes are not equal
-            if self_child.frame != other_child.frame:
-                return False
-
-            visited_s = self_child._hatchet_nid in vs
-            visited_o = other_child._hatchet_nid in vo
-
-            # check for duplicate nodes
-            if visited_s != visited_o:
-                return False
-
-            # skip visited nodes
-            if visited_s or visited_o:
+            if id(self_child) in vs or id(other_child) in vo:
+                # visited nodes must have been visited as each other's counterparts
+                if vs.get(id(self_child)) is not other_child:
+                    return False
+                if vo.get(id(other_child)) is not self_child:
+                    return False
                 continue
 
             # recursive check for node equality
-            if not self_child.dag_equal(other_child, vs, vo):
+            if not self_child.dag_equal(other_child, vs, vo, shapes):
                 return False
 
         return True
 
+    def _number_shapes(self, shapes):
+        """Number the structures found below this node.
+
+        Nodes (keyed by id) get the same number in ``shapes`` if their frames and
+        recursively those of their children are the same.
+        """
+        for node in self.traverse(order="post"):
+            if id(node) not in shapes:
+                shape = (node.frame, tuple(sorted([shapes[id(c)] for c in node.children])))
+                shapes[id(node)] = shapes.setdefault(shape, len(shapes))
+
     def traverse(self, order="pre", attrs=None, visited=None):
         """Traverse the tree depth-first and yield each node.
 
-- 
2.43.0


From f8bc27f330955d5b0f8bb63baac3ce180088f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 018/106] fix: merge all same-frame siblings of graphs with
 shared nodes when normalizing

---
 hatchet/graph.py | 66 +++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 4c6ccd9..9d076f0 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -90,50 +90,30 @@ class Graph:
 
         """
         merges = {}  # old_node -> merged_node
-        inverted_merges = defaultdict(
-            lambda: []
-        )  # merged_node -> list of corresponding old_nodes
-        processed = []
-
-        def _find_child_merges(node_list):
-            index = index_by("frame", node_list)
-            for frame, children in index.items():
-                if len(children) > 1:
-                    min_id = min(children, key=id)
-                    for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
-                        # Save the new merged_node to the merges dict
-                        # so that the merge can happen later.
-                        merges[child] = curr_min
-                        # Update inverted_merges to be able to set node_list
-                        # to the right value.
-                        inverted_merges[curr_min].append(child)
-
-        _find_child_merges(self.roots)
-        for node in self.traverse():
-            if node in processed:
-                continue
-            nodes = None
-            # If node is going to be merged with other nodes,
-            # collect the set of those nodes' children. This is
-            # done to ensure that equivalent children of merged nodes
-            # also get merged.
-            if node in merges:
-                new_node = merges[node]
-                nodes = []
-                for node_to_merge in inverted_merges[new_node]:
-                    nodes.extend(node_to_merge.children)
-                processed.extend(inverted_merges[new_node])
-            # If node is not going to be merged, simply get the list of
-            # node's children.
-            else:
-                nodes = node.children
-                processed.append(node)
-            _find_child_merges(nodes)
 
-        return merges
+        def _target(node):
+            while merges.get(node, node) is not node:
+                node = merges[node]
+            return node
+
+        # children of each node, including those of the nodes merged into it
+        families = {node: list(node.children) for node in self.traverse()}
+
+        # lists of siblings that may contain nodes to merge
+        pending = [self.roots] + list(families.values())
+        while pending:
+            for same_frame in index_by("frame", pending.pop()).values():
+                nodes = set(_target(node) for node in same_frame)
+                if len(nodes) > 1:
+                    min_id = min(nodes, key=id)
+                    for node in nodes:
+                        merges[node] = min_id
+                        if node is not min_id:
+                            families[min_id].extend(families.pop(node))
+                    # equivalent children of merged nodes also get merged
+                    pending.append(families[min_id])
+
+        return {node: _target(node) for node in merges}
 
     def merge_nodes(self, merges):
         """Merge some nodes in a graph into others.
-- 
2.43.0


From a8345827a9bdddd2a9f9919008972bd323c718cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 019/106] fix: map corresponding nodes to one node when uniting
 graphs with shared nodes

---
 hatchet/graph.py | 186 ++++++++++++++++++-----------------------------
 1 file changed, 72 insertions(+), 114 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 9d076f0..a256837 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -189,133 +189,91 @@ class Graph:
         if old_to_new is None:
             old_to_new = {}  # mapping from old nodes to new nodes
 
-        def _merge(self_children, other_children, parent):
-            """Recursively merge children of self and other.
+        merged = {}  # id of a node -> node it is the same as in the union
+        children = {}  # id of a node -> sorted children of it and the nodes merged into it
+        pending = []  # pairs of nodes that are the same in the union
 
-            Arguments:
-                self_children (list or tuple): List of children nodes from self
-                other_children (list or tuple): List of children nodes from other
-                parent (Node): Parent node for self and other child(ren)
+        def _find(node):
+            while id(node) in merged:
+                node = merged[id(node)]
+            return node
+
+        def _merge(self_nodes, other_nodes):
+            """Merge two lists of siblings, which are sorted by frame.
 
-            Modifies old_to_new (dict): Updated dict mapping old nodes from self and other to new
-                unioned nodes
+            Nodes with equal frames are added to the pending pairs.
 
             Return:
-                (list): list of merged children
+                (list): sorted list of merged siblings
             """
-
-            def make_node(*nodes):
-                """Make a new node to represent the union of other nodes."""
-                new_node = nodes[0].copy()
-                for node in nodes:
-                    old_to_new[id(node)] = new_node
-                return new_node
-
-            new_children = []
-
-            def connect(parent, new_node):
-                if parent:
-                    parent.add_child(new_node)
-                    new_node.add_parent(parent)
-                new_children.append(new_node)
+            siblings = []
 
             # step through both lists and merge nodes
-            self_children, other_children = iter(self_children), iter(other_children)
-            self_child = next(self_children, None)
-            other_child = next(other_children, None)
-
-            while self_child and other_child:
-                if self_child.frame < other_child.frame:
-                    # self_child is unique
-                    new_node = old_to_new.get(id(self_child))
-                    if not new_node:
-                        new_node = make_node(self_child)
-                        _merge(
-                            sorted(self_child.children, key=lambda n: n.frame),
-                            (),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-
-                elif self_child.frame > other_child.frame:
-                    # other_child is unique
-                    new_node = old_to_new.get(id(other_child))
-                    if not new_node:
-                        new_node = make_node(other_child)
-                        _merge(
-                            (),
-                            sorted(other_child.children, key=lambda n: n.frame),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    other_child = next(other_children, None)
-
+            self_nodes, other_nodes = iter(self_nodes), iter(other_nodes)
+            self_node = next(self_nodes, None)
+            other_node = next(other_nodes, None)
+
+            while self_node and other_node:
+                if self_node.frame < other_node.frame:
+                    # self_node is unique
+                    siblings.append(self_node)
+                    self_node = next(self_nodes, None)
+                elif self_node.frame > other_node.frame:
+                    # other_node is unique
+                    siblings.append(other_node)
+                    other_node = next(other_nodes, None)
                 else:
-                    # self_child and other_child are equal
-                    self_mapped = old_to_new.get(id(self_child))
-                    other_mapped = old_to_new.get(id(other_child))
-                    if not self_mapped and not other_mapped:
-                        new_node = make_node(self_child, other_child)
-                    else:
-                        new_node = self_mapped or other_mapped
-
-                    # map whichever node was not mapped yet
-                    if not self_mapped:
-                        old_to_new[id(self_child)] = new_node
-                        self_side = self_child.children
-                    else:
-                        self_side = []
-
-                    if not other_mapped:
-                        old_to_new[id(other_child)] = new_node
-                        other_side = other_child.children
-                    else:
-                        other_side = []
-
-                    _merge(
-                        sorted(self_side, key=lambda n: n.frame),
-                        sorted(other_side, key=lambda n: n.frame),
-                        new_node,
-                    )
-
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-                    other_child = next(other_children, None)
-
-            # finish off whichever list of children is longer
-            while self_child:
-                new_node = old_to_new.get(id(self_child))
-                if not new_node:
-                    new_node = make_node(self_child)
-                    _merge(
-                        sorted(self_child.children, key=lambda n: n.frame),
-                        (),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                self_child = next(self_children, None)
-
-            while other_child:
-                new_node = old_to_new.get(id(other_child))
-                if not new_node:
-                    new_node = make_node(other_child)
-                    _merge(
-                        (),
-                        sorted(other_child.children, key=lambda n: n.frame),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                other_child = next(other_children, None)
-
-            return new_children
+                    # self_node and other_node are equal
+                    pending.append((self_node, other_node))
+                    siblings.append(self_node)
+                    self_node = next(self_nodes, None)
+                    other_node = next(other_nodes, None)
+
+            # finish off whichever list of nodes is longer
+            while self_node:
+                siblings.append(self_node)
+                self_node = next(self_nodes, None)
+            while other_node:
+                siblings.append(other_node)
+                other_node = next(other_nodes, None)
+
+            return siblings
 
         # First establish which nodes correspond to each other
-        new_roots = _merge(
+        old_nodes = list(self.traverse()) + list(other.traverse())
+        for node in old_nodes:
+            children[id(node)] = sorted(node.children, key=lambda n: n.frame)
+        roots = _merge(
             sorted(self.roots, key=lambda n: n.frame),
             sorted(other.roots, key=lambda n: n.frame),
-            None,
         )
+        while pending:
+            self_node, other_node = pending.pop()
+            self_node, other_node = _find(self_node), _find(other_node)
+            if self_node is not other_node:
+                merged[id(other_node)] = self_node
+                children[id(self_node)] = _merge(
+                    children[id(self_node)], children[id(other_node)]
+                )
+
+        # Then make a new node to represent the union of each group of nodes
+        for node in old_nodes:
+            if _find(node) is node:
+                old_to_new[id(node)] = node.copy()
+        for node in old_nodes:
+            old_to_new[id(node)] = old_to_new[id(_find(node))]
+
+        def _new_nodes(nodes):
+            new_nodes = [old_to_new[id(node)] for node in nodes]
+            return list({id(node): node for node in new_nodes}.values())
+
+        new_roots = _new_nodes(roots)
+        for node in old_nodes:
+            new_node = old_to_new[id(node)]
+            if not new_node.children:
+                for new_child in _new_nodes(children[id(_find(node))]):
+                    new_node.add_child(new_child)
+                    new_child.add_parent(new_node)
 
         graph = Graph(new_roots)
         graph.enumerate_traverse()
-- 
2.43.0


From 20adcaddbfd205013a04d31a764482bfc9f9b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 020/106] fix: make /= operate in place like the other in-place
 operators

---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b0d4b4c..4114c2c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1653,6 +1653,8 @@ class GraphFrame:
 
         return self._operator(other_copy, self.dataframe.div)
 
+    __itruediv__ = __idiv__
+
     def __truediv__(self, other):
         """Returns the column-wise float division of two graphframes as a new
         graphframe.
-- 
2.43.0


From fbdb1c42f821cba2fc6f5189cbc545a8881db6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 021/106] fix: keep arithmetic on GraphFrames with a common
 graph from changing the operands' data

---
 hatchet/graphframe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4114c2c..a087883 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1259,7 +1259,10 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        # the data may be shared with the graphframe self was copied from
+        result = self.dataframe.copy()
+        result.update(op(other.dataframe[all_metrics]))
+        self.dataframe = result
 
         return self
 
-- 
2.43.0


From 6bbbd65f009f6ebd78ff68540285fd5c1df9f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 022/106] fix: keep generate_exclusive_columns from changing
 metric lists shared with other GraphFrames

---
 hatchet/graphframe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a087883..a4cf34a 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -887,9 +887,10 @@ class GraphFrame:
                 self.dataframe = self.dataframe.assign(
                     **{exc: pd.Series(data=new_data)}
                 )
-        # Add the newly created metrics to self.exc_metrics
-        self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        # Add the newly created metrics to self.exc_metrics, in a new list as other
+        # GraphFrames may share the current one
+        new_exc_metrics = [metric_tuple[0] for metric_tuple in generation_pairs]
+        self.exc_metrics = list(set(self.exc_metrics + new_exc_metrics))
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
-- 
2.43.0


From 27e4c370737be04f0efd58c9ac2de33c02e52478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 023/106] fix: keep the node order when copying a graph

---
 hatchet/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index a256837..428ad5a 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -158,6 +158,9 @@ class Graph:
         # first pass creates new nodes
         for node in self.traverse():
             old_to_new[node] = node.copy()
+            if self.node_ordering:
+                # the order of the nodes is given by their ids
+                old_to_new[node]._hatchet_nid = node._hatchet_nid
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From b661d01064f9ffb026af109a4c5ec14705f5b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 024/106] fix: allow arithmetic with a GraphFrame that lacks
 one of the metrics

---
 hatchet/graphframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a4cf34a..9311d5f 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1262,7 +1262,8 @@ class GraphFrame:
 
         # the data may be shared with the graphframe self was copied from
         result = self.dataframe.copy()
-        result.update(op(other.dataframe[all_metrics]))
+        # metrics that other lacks are missing there
+        result.update(op(other.dataframe.reindex(columns=all_metrics)))
         self.dataframe = result
 
         return self
-- 
2.43.0


From 4be5644d4a6b56585959c1d5f98029f816949e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 025/106] fix: allow comparing graphs with cycles

---
 hatchet/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/node.py b/hatchet/node.py
index 39f436e..eb6462b 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -126,7 +126,9 @@ class Node:
         """
         for node in self.traverse(order="post"):
             if id(node) not in shapes:
-                shape = (node.frame, tuple(sorted([shapes[id(c)] for c in node.children])))
+                # children that are also ancestors (in a cycle) have no number yet
+                below = tuple(sorted([shapes.get(id(c), -1) for c in node.children]))
+                shape = (node.frame, below)
                 shapes[id(node)] = shapes.setdefault(shape, len(shapes))
 
     def traverse(self, order="pre", attrs=None, visited=None):
-- 
2.43.0


From dc430033535200199a042d364f7688236203186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 026/106] fix: read nodes shared by several roots and node
 depths from JSON

---
 hatchet/readers/json_reader.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..340c994 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -28,31 +28,31 @@ class JsonReader:
         self.spec_dict = json.loads(json_spec)
 
     def read(self):
+        # turn frames into nodes
+        nodes = {}
         roots = []
         for graph_spec in self.spec_dict["graph"]:
-            # turn frames into nodes
+            children = set(str(c) for v in graph_spec.values() for c in v["children"])
             for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
-
-            # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
-                    child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
-
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+                # nodes shared by several roots are listed with each of them
+                if nid not in nodes:
+                    nodes[nid] = (Node(Frame(value["data"]), hnid=int(nid)), value)
+                if nid not in children:
+                    roots.append(nodes[nid][0])
+
+        # connect nodes
+        for node, value in nodes.values():
+            for child in value["children"]:
+                child_node = nodes[str(child)][0]
+                node.add_child(child_node)
+                child_node.add_parent(node)
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)][0])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From cee9f33e9a3ec8f208c57831b517cb84f5a6fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 027/106] fix: load multi-indexed GraphFrames and their roots
 from HDF5 faithfully

---
 hatchet/readers/dataframe_reader.py | 19 +++++++++++--------
 hatchet/writers/dataframe_writer.py |  4 ++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..8e7cc35 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,14 +46,15 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
-    for i in range(len(df)):
-        node = _get_node_from_df_iloc(df, i)
-        if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
-        if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
-    roots = [node for node in node_list if len(node.parents) == 0]
+    # a node has several rows if there are other index levels besides "node"
+    nodes = {node._hatchet_nid: node for node in rel_dict}
+    for node, rel in rel_dict.items():
+        node.children = [nodes[nid] for nid in rel["children"]]
+        node.parents = [nodes[nid] for nid in rel["parents"]]
+    if "roots" in df.columns:
+        roots = [nodes[nid] for nid in df.iloc[0, df.columns.get_loc("roots")]]
+    else:
+        roots = [nodes[nid] for nid in sorted(nodes) if len(nodes[nid].parents) == 0]
     return Graph(roots)
 
 
@@ -79,10 +80,12 @@ class DataframeReader(ABC):
             columns=[
                 "children",
                 "parents",
+                "roots",
                 "exc_metrics",
                 "inc_metrics",
                 "default_metric",
             ],
+            errors="ignore",
             inplace=True,
         )
         return hatchet.graphframe.GraphFrame(
diff --git a/hatchet/writers/dataframe_writer.py b/hatchet/writers/dataframe_writer.py
index 3d71bff..699ba86 100644
--- a/hatchet/writers/dataframe_writer.py
+++ b/hatchet/writers/dataframe_writer.py
@@ -59,6 +59,10 @@ class DataframeWriter(ABC):
     def write(self, gf, **kwargs):
         gf_cpy = gf.deepcopy()
         dump_df = _fill_children_and_parents(gf_cpy.dataframe)
+        dump_df["roots"] = None
+        dump_df.iat[0, dump_df.columns.get_loc("roots")] = [
+            root._hatchet_nid for root in gf_cpy.graph.roots
+        ]
         dump_df["exc_metrics"] = None
         dump_df.iat[0, dump_df.columns.get_loc("exc_metrics")] = gf_cpy.exc_metrics
         dump_df["inc_metrics"] = None
-- 
2.43.0


From 4c156bc641cd885dfa8c481263b5a1d7a50af46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 028/106] fix: read shared nodes, ids and metrics of all nodes
 from literals faithfully

---
 hatchet/readers/literal_reader.py | 93 +++++++++++--------------------
 1 file changed, 32 insertions(+), 61 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..a9bca71 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -66,9 +66,7 @@ class LiteralReader:
         """
         self.graph_dict = graph_dict
 
-    def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
-    ):
+    def parse_node_literal(self, nid_to_node, node_dicts, node_literal, hparent):
         """Create node_dict for one node and then call the function
         recursively on all children.
         """
@@ -76,75 +74,46 @@ class LiteralReader:
         # pull out _hatchet_nid if it exists
         # so it will not be inserted into
         # dataframe like a normal metric
-        hnid = -1
-        if "_hatchet_nid" in child_dict["metrics"]:
-            hnid = child_dict["metrics"]["_hatchet_nid"]
+        metrics = dict(node_literal["metrics"])
+        hnid = metrics.pop("_hatchet_nid", -1)
 
-        frame = Frame(child_dict["frame"])
-        if hnid not in seen_nids:
-            hnode = Node(frame, hparent, hnid=hnid)
+        if hnid in nid_to_node:
+            # another occurrence of a node we already know
+            hnode = nid_to_node[hnid]
+        else:
+            hnode = Node(Frame(node_literal["frame"]), hnid=hnid)
 
             # depending on the node type, the name may not be in the frame
-            node_name = child_dict["frame"].get("name")
+            node_name = node_literal["frame"].get("name")
             if not node_name:
-                node_name = child_dict["name"]
-
-            node_dict = dict(
-                {"node": hnode, "name": node_name}, **child_dict["metrics"]
-            )
+                node_name = node_literal["name"]
 
-            node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
+            node_dicts.append(dict({"node": hnode, "name": node_name}, **metrics))
 
             if hnid != -1:
-                seen_nids.append(hnid)
+                nid_to_node[hnid] = hnode
 
-        else:
-            hnode = frame_to_node_dict.get(frame)
+        if hparent is not None and not any(c is hnode for c in hparent.children):
+            hparent.add_child(hnode)
+            hnode.add_parent(hparent)
 
-        hparent.add_child(hnode)
+        for child in node_literal.get("children", []):
+            self.parse_node_literal(nid_to_node, node_dicts, child, hnode)
 
-        if "children" in child_dict:
-            for child in child_dict["children"]:
-                self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
-                )
+        return hnode
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
-        frame = None
-        seen_nids = []
-        hnid = -1
-
-        # start with creating a node_dict for each root
-        for i in range(len(self.graph_dict)):
-            if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
-                hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
-            graph_root = Node(frame, None, hnid=hnid)
+        nid_to_node = {}
 
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
-
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
+        # start with each root, and parse its children recursively
+        for root_literal in self.graph_dict:
+            graph_root = self.parse_node_literal(
+                nid_to_node, node_dicts, root_literal, None
             )
-            node_dicts.append(node_dict)
-
-            list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
-
-            # call recursively on all children of root
-            if "children" in self.graph_dict[i]:
-                for child in self.graph_dict[i]["children"]:
-                    self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
-                    )
+            if not any(root is graph_root for root in list_roots):
+                list_roots.append(graph_root)
 
         graph = Graph(list_roots)
 
@@ -154,16 +123,18 @@ class LiteralReader:
         else:
             graph.enumerate_depth()
 
+        dataframe = pd.DataFrame(data=node_dicts)
+        dataframe.set_index(["node"], inplace=True)
+        dataframe.sort_index(inplace=True)
+
         exc_metrics = []
         inc_metrics = []
-        for key in self.graph_dict[i]["metrics"].keys():
+        for key in dataframe.columns:
+            if key == "name":
+                continue
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
                 exc_metrics.append(key)
 
-        dataframe = pd.DataFrame(data=node_dicts)
-        dataframe.set_index(["node"], inplace=True)
-        dataframe.sort_index(inplace=True)
-
         return hatchet.graphframe.GraphFrame(graph, dataframe, exc_metrics, inc_metrics)
-- 
2.43.0


From 78d80444827237930157ba849dd8baa5eed2d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 029/106] fix: honour a min_value or max_value of zero in
 tree()

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..de8903e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -141,8 +141,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0


From 1ce4a5d3ac4fc359c25157b09a817907ade7f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 030/106] fix: name the unknown colormap instead of raising
 AttributeError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From 90908da75dc09d8e0fbcc06dbd4a1dda10ab6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 031/106] fix: render the temporal pattern legend when no node
 is within the depth

---
 hatchet/external/console.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index de8903e..c8bbd0e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -153,6 +153,15 @@ class ConsoleRenderer:
         else:
             self.lr_arrows = {"◀": "< ", "▶": "> "}
 
+        # symbols for temporal pattern annotations and their legend
+        self.temporal_symbols = {
+            "none": "",
+            "constant": "\U00002192",
+            "phased": "\U00002933",
+            "dynamic": "\U000021DD",
+            "sporadic": "\U0000219D",
+        }
+
         for root in sorted(roots, key=lambda n: n._hatchet_nid):
             result += self.render_frame(root, dataframe)
 
@@ -288,13 +297,6 @@ class ConsoleRenderer:
 
                 # custom visualization for temporal pattern metrics if it is the annotation column
                 if "_pattern" in self.annotation_column:
-                    self.temporal_symbols = {
-                        "none": "",
-                        "constant": "\U00002192",
-                        "phased": "\U00002933",
-                        "dynamic": "\U000021DD",
-                        "sporadic": "\U0000219D",
-                    }
                     pattern_metric = dataframe.loc[df_index, self.annotation_column]
                     annotation_content = self.temporal_symbols[pattern_metric]
                     if self.colormap_annotations:
-- 
2.43.0


From a2f0b317def3cf53a23133d1e243d49574f6ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 032/106] fix: do not require colors for annotations when
 colors are disabled

---
 hatchet/external/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index c8bbd0e..2243f82 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -94,6 +94,8 @@ class ConsoleRenderer:
                     self.colors_annotations_mapping = self.colormap_annotations
         else:
             self.colors = self.colors_disabled
+            # no colors, so annotations are not colored either
+            self.colormap_annotations = None
 
         if isinstance(self.metric_columns, str):
             self.primary_metric = self.metric_columns
-- 
2.43.0


From f860c8daa84ccb130338bb0b14e3ab8212d19226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 033/106] fix: accept lists and dictionaries of colors for
 temporal pattern annotations

---
 hatchet/external/console.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 2243f82..1617695 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -239,11 +239,9 @@ class ConsoleRenderer:
                     if "none" not in k:
                         legend += "   " + self.temporal_symbols[k] + " " + k
                 legend += "\nTemporal Score  "
-                if self.colormap_annotations:
+                if isinstance(self.colormap_annotations, (str, list)):
                     legend_color_mapping = sorted(score_ranges)
-                    legend_colormap = ColorMaps().get_colors(
-                        self.colormap_annotations, False
-                    )
+                    legend_colormap = self.colors_annotations.colormap
                     for i in range(len(score_ranges) - 1):
                         color = legend_colormap[
                             legend_color_mapping.index(score_ranges[i + 1])
@@ -307,10 +305,17 @@ class ConsoleRenderer:
                         )
                         coloring_content = pattern_metric
                         if coloring_content != "none":
-                            color_annotation = self.colors_annotations.colormap[
-                                self.colors_annotations_mapping.index(coloring_content)
-                                % len(self.colors_annotations.colormap)
-                            ]
+                            if isinstance(self.colormap_annotations, dict):
+                                color_annotation = self.colormap_annotations[
+                                    coloring_content
+                                ]
+                            else:
+                                color_annotation = self.colors_annotations.colormap[
+                                    self.colors_annotations_mapping.index(
+                                        coloring_content
+                                    )
+                                    % len(self.colors_annotations.colormap)
+                                ]
                             metric_str += " {}".format(color_annotation)
                             metric_str += "{}".format(annotation_content)
                             metric_str += "{}".format(self.colors_annotations.end)
-- 
2.43.0


From da1adc4bbdce38ddc9f5d8ecda2f46f1613c2681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 034/106] fix: generate exclusive columns only for the
 inclusive metric asked for

---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 9311d5f..03b5779 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -816,6 +816,8 @@ class GraphFrame:
         2. If the corresponding inclusive metric's name does not end in "(inc)", the exclusive metric will have the same
            name as the inclusive metric, followed by a "(exc)" suffix
         """
+        if isinstance(inc_metrics, str):
+            inc_metrics = [inc_metrics]
         # TODO Change how exclusive-inclusive pairs are determined when inc_metrics and exc_metrics are changed
         # Iterate over inclusive metrics and collect tuples of (new exclusive metrics name, inclusive metric name)
         generation_pairs = []
-- 
2.43.0


From 10178e97de0fd9076efb3c8dbe37f6740b63519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 035/106] fix: generate exclusive columns when some rows of
 nodes are missing

---
 hatchet/graphframe.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 03b5779..4895e68 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -847,6 +847,9 @@ class GraphFrame:
                 new_data = {}
                 # Traverse every node in the Graph
                 for node in self.graph.traverse():
+                    # A node may have no rows at all (e.g., after filtering without squashing)
+                    if node not in self.dataframe.index:
+                        continue
                     # Consider each unique portion of the MultiIndex corresponding to the current node
                     for non_node_idx in self.dataframe.loc[(node)].index.unique():
                         # If there's only 1 index level besides "node", add it to a 1-element list to ensure consistent typing
@@ -865,6 +868,9 @@ class GraphFrame:
                         for child in node.children:
                             # TODO: See note about full_idx above
                             child_idx = tuple([child]) + tuple(non_node_idx)
+                            # A child without this row contributes nothing
+                            if child_idx not in self.dataframe.index:
+                                continue
                             inc_sum += np.nan_to_num(self.dataframe.loc[child_idx, inc])
                         # Subtract the current node's inclusive metric from the previously calculated sum to
                         # get the exclusive metric value for the node
@@ -878,9 +884,14 @@ class GraphFrame:
                 new_data = {n: -1 for n in self.dataframe.index.values}
                 # Traverse the graph
                 for node in self.graph.traverse():
+                    # A node may have no row (e.g., after filtering without squashing)
+                    if node not in self.dataframe.index:
+                        continue
                     # Sum up the inclusive metric values of the current node's children
                     inc_sum = 0
                     for child in node.children:
+                        if child not in self.dataframe.index:
+                            continue
                         inc_sum += np.nan_to_num(self.dataframe.loc[child, inc])
                     # Subtract the current node's inclusive metric from the previously calculated sum to
                     # get the exclusive metric value for the node
-- 
2.43.0


From e713dadd64c8f8d7576afcaa5443f86a8329b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 036/106] fix: escape quotes and backslashes of node names in
 DOT output

---
 hatchet/util/dot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/util/dot.py b/hatchet/util/dot.py
index 84cd62a..b2261f9 100644
--- a/hatchet/util/dot.py
+++ b/hatchet/util/dot.py
@@ -55,6 +55,9 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
         node_name = dataframe.loc[df_index, name]
         node_id = hnode._hatchet_nid
 
+        # escape characters that are special in quoted DOT strings
+        node_name = str(node_name).replace("\\", "\\\\").replace('"', '\\"')
+
         weight = (node_time - min_time) / (max_time - min_time)
         color = matplotlib.colors.rgb2hex(colormap(weight))
 
-- 
2.43.0


From a1bb0f20fad3875ca7e217590559dee4fde88517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 037/106] fix: include nodes with missing or negative metric in
 DOT output without threshold

---
 hatchet/util/dot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/dot.py b/hatchet/util/dot.py
index b2261f9..2a98d8f 100644
--- a/hatchet/util/dot.py
+++ b/hatchet/util/dot.py
@@ -39,6 +39,11 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
     min_time = dataframe[metric].min()
     max_time = dataframe[metric].max()
 
+    def is_displayed(node_time):
+        # without a threshold, all nodes are displayed, also those whose metric
+        # is missing or negative
+        return threshold == 0 or node_time >= threshold * max_time
+
     def add_nodes_and_edges(hnode):
 
         # set dataframe index based on if rank is a part of the index
@@ -62,7 +67,7 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
         color = matplotlib.colors.rgb2hex(colormap(weight))
 
         # only display nodes whose metric is greater than some threshold
-        if (node_time >= threshold * max_time) and (hnode not in visited):
+        if is_displayed(node_time) and (hnode not in visited):
             node_string = '"{0}" [color="{1}", label="{2}" shape=oval];\n'.format(
                 node_id, color, node_name
             )
@@ -85,7 +90,7 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
                     df_index = child
 
                 child_time = dataframe.loc[df_index, metric]
-                if child_time >= threshold * max_time:
+                if is_displayed(child_time):
                     children.append(child)
 
             visited.append(hnode)
-- 
2.43.0


From 6faa2e051d75c542372b922a324a77a1619152d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 038/106] fix: use the requested name column in the flamegraph
 output

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4895e68..7ced55f 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1102,7 +1102,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1117,7 +1117,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From 07ee7630e4c894f04a6b91daccbe8e0d16126a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 039/106] fix: export missing and infinite values as zero in
 the flamegraph output

---
 hatchet/graphframe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 7ced55f..e4429e6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1133,11 +1133,11 @@ class GraphFrame:
                 else:
                     df_index = hnode
 
-                folded_stack = (
-                    folded_stack
-                    + str(round(self.dataframe.loc[df_index, metric]))
-                    + "\n"
-                )
+                # missing and infinite values cannot be expressed as a count
+                metric_val = self.dataframe.loc[df_index, metric]
+                if not np.isfinite(metric_val):
+                    metric_val = 0
+                folded_stack = folded_stack + str(round(metric_val)) + "\n"
 
         return folded_stack
 
-- 
2.43.0


From 872b55d729c933ebbf341b5830f62146ea4b5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 040/106] fix: apply the threshold to the flamegraph output

---
 hatchet/graphframe.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index e4429e6..2f77a96 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1085,10 +1085,12 @@ class GraphFrame:
         folded_stack = ""
         if metric is None:
             metric = self.default_metric
+        max_val = self.dataframe[metric].max()
 
         for root in self.graph.roots:
             for hnode in root.traverse():
                 callpath = hnode.path()
+                stack = ""
                 for i in range(0, len(callpath) - 1):
                     if (
                         "rank" in self.dataframe.index.names
@@ -1101,9 +1103,7 @@ class GraphFrame:
                         df_index = (callpath[i], thread)
                     else:
                         df_index = callpath[i]
-                    folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
-                    )
+                    stack = stack + str(self.dataframe.loc[df_index, name]) + "; "
 
                 if (
                     "rank" in self.dataframe.index.names
@@ -1116,9 +1116,7 @@ class GraphFrame:
                     df_index = (callpath[-1], thread)
                 else:
                     df_index = callpath[-1]
-                folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
-                )
+                stack = stack + str(self.dataframe.loc[df_index, name]) + " "
 
                 # set dataframe index based on if rank and thread are part of the index
                 if (
@@ -1133,11 +1131,16 @@ class GraphFrame:
                 else:
                     df_index = hnode
 
-                # missing and infinite values cannot be expressed as a count
                 metric_val = self.dataframe.loc[df_index, metric]
+
+                # only output nodes whose metric reaches the threshold, if any
+                if threshold != 0 and not metric_val >= threshold * max_val:
+                    continue
+
+                # missing and infinite values cannot be expressed as a count
                 if not np.isfinite(metric_val):
                     metric_val = 0
-                folded_stack = folded_stack + str(round(metric_val)) + "\n"
+                folded_stack = folded_stack + stack + str(round(metric_val)) + "\n"
 
         return folded_stack
 
-- 
2.43.0


From 00bd0f404e092a76d9c36ad12d27ad62c81514d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 041/106] fix: let groupby_aggregate group multi-indexed
 GraphFrames

---
 hatchet/graphframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 2f77a96..3857503 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1476,7 +1476,9 @@ class GraphFrame:
 
             # if many old nodes map to the same super node
             for i in v:
-                old_to_new[i] = super_node
+                # rows are identified by node and further levels if multi-indexed
+                old_node = i[0] if isinstance(i, tuple) else i
+                old_to_new[old_node] = super_node
 
         # reindex graph by traversing old graph
         visited = set()
-- 
2.43.0


From bdcc2ec2a2d1d4c4cf00eaa9b5601b1522e44b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 042/106] fix: let groupby_aggregate group by name, function or
 metric

---
 hatchet/graphframe.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 3857503..b5caeec 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1485,20 +1485,21 @@ class GraphFrame:
         for root in self.graph.roots:
             reindex(root, None, visited)
 
-        # append super nodes to groupby-aggregate dataframe
-        df_index = list(agg_df.index.names)
-        agg_df.reset_index(inplace=True)
-        df_nodes = pd.DataFrame.from_dict(data=node_dicts)
-        tmp_df = pd.concat([agg_df, df_nodes], axis=1)
-        # add node to dataframe index if it doesn't exist
-        if "node" not in df_index:
-            df_index.append("node")
-        # reset index
-        tmp_df.set_index(df_index, inplace=True)
-
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
+        # (before nodes are put into the index, as it identifies them there)
         graph = Graph(new_roots)
         graph.enumerate_traverse()
+        for n in node_dicts:
+            n["nid"] = n["node"]._hatchet_nid
+
+        # append super nodes to groupby-aggregate dataframe, whose index (and
+        # any aggregated names and ids) they replace
+        df_nodes = pd.DataFrame.from_dict(data=node_dicts)
+        agg_df.reset_index(drop=True, inplace=True)
+        agg_df.drop(columns=df_nodes.columns, errors="ignore", inplace=True)
+        tmp_df = pd.concat([agg_df, df_nodes], axis=1)
+        tmp_df.set_index("node", inplace=True)
+        tmp_df.sort_index(inplace=True)
 
         # put it all together
         new_gf = GraphFrame(
@@ -1509,7 +1510,6 @@ class GraphFrame:
             self.default_metric,
             self.metadata,
         )
-        new_gf.drop_index_levels()
         return new_gf
 
     def add(self, other):
-- 
2.43.0


From f436e0703ee948a13e64cbe0d92bb7c4b37a9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 043/106] fix: list only the aggregated metrics as metrics
 after groupby_aggregate

---
 hatchet/graphframe.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b5caeec..cacd073 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1502,12 +1502,19 @@ class GraphFrame:
         tmp_df.sort_index(inplace=True)
 
         # put it all together
+        # metrics that were not aggregated are no longer available
+        exc_metrics = [m for m in self.exc_metrics if m in tmp_df.columns]
+        inc_metrics = [m for m in self.inc_metrics if m in tmp_df.columns]
+        default_metric = self.default_metric
+        if default_metric not in tmp_df.columns and exc_metrics + inc_metrics:
+            default_metric = (exc_metrics + inc_metrics)[0]
+
         new_gf = GraphFrame(
             graph,
             tmp_df,
-            self.exc_metrics,
-            self.inc_metrics,
-            self.default_metric,
+            exc_metrics,
+            inc_metrics,
+            default_metric,
             self.metadata,
         )
         return new_gf
-- 
2.43.0


From f7466d3686f3f989e8d585c5fe35db9fc3be68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 044/106] fix: pass series to the function of subgraph_sum in
 all cases

---
 hatchet/graphframe.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index cacd073..293589d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -793,11 +793,10 @@ class GraphFrame:
                             function(input_df.loc[df_index2, col])
                         ]
             else:
-                # TODO: if you take the list constructor away from the
-                # TODO: assignment below, this assignment gives NaNs. Why?
-                self.dataframe.loc[(node), out_columns] = list(
-                    function(input_df.loc[(subgraph_nodes), columns])
-                )
+                for col, out in zip(columns, out_columns):
+                    self.dataframe.loc[node, out] = function(
+                        input_df.loc[subgraph_nodes, col]
+                    )
 
     def generate_exclusive_columns(self, inc_metrics=None):
         """Generates exclusive metrics from available inclusive metrics.
-- 
2.43.0


From 7f16d9c9bd84fbc2c38a4eb4d414e73ad1b37a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:29 +0000
Subject: [PATCH 045/106] fix: check the column lists of subtree and subgraph
 sums before adding columns

---
 hatchet/graphframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 293589d..d32687d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -650,6 +650,9 @@ class GraphFrame:
 
     def _init_sum_columns(self, columns, out_columns):
         """Helper function for subtree_sum and subgraph_sum."""
+        if out_columns is not None and len(columns) != len(out_columns):
+            raise ValueError("columns out_columns must be the same length!")
+
         if out_columns is None:
             out_columns = columns
         else:
@@ -657,9 +660,6 @@ class GraphFrame:
             for col, out in zip(columns, out_columns):
                 self.dataframe[out] = self.dataframe[col]
 
-        if len(columns) != len(out_columns):
-            raise ValueError("columns out_columns must be the same length!")
-
         return out_columns
 
     def subtree_sum(
-- 
2.43.0


From a502185c2cc9feff3b406d9636c06a10b71be7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:29 +0000
Subject: [PATCH 046/106] fix: allow subtree and subgraph sums to store results
 in other input columns

---
 hatchet/graphframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d32687d..aaf2b0e 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -657,8 +657,10 @@ class GraphFrame:
             out_columns = columns
         else:
             # init out columns with input columns in case they are not there.
+            # an out column may also be an input column of another one.
+            input_df = self.dataframe[columns].copy()
             for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
+                self.dataframe[out] = input_df[col]
 
         return out_columns
 
@@ -758,10 +760,10 @@ class GraphFrame:
             self.subtree_sum(columns, out_columns, function)
             return
 
-        out_columns = self._init_sum_columns(columns, out_columns)
         # read from a copy: a descendant's output may be stored before it is
         # needed as input for another of its ancestors
         input_df = self.dataframe[columns].copy()
+        out_columns = self._init_sum_columns(columns, out_columns)
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
-- 
2.43.0


From 25db89d0b9b003e0c118d328ca39c5740efb03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 047/106] fix: read metrics that are missing everywhere as
 numbers from JSON

---
 hatchet/readers/json_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 340c994..c3de66a 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -55,6 +55,13 @@ class JsonReader:
         dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)][0])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
+        # metrics that are missing everywhere have no numeric type in JSON
+        for metric in (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        ):
+            if metric in dataframe.columns and dataframe[metric].isna().all():
+                dataframe[metric] = dataframe[metric].astype(float)
+
         return hatchet.graphframe.GraphFrame(
             grph,
             dataframe,
-- 
2.43.0


From dc5dc32afdd2ae2d93b7790e0429d5565b3befa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 048/106] fix: forget which nodes were missing in an earlier
 operation

---
 hatchet/graphframe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index aaf2b0e..d0a1a9b 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1300,6 +1300,10 @@ class GraphFrame:
             )
         )
 
+        # which nodes are missing is about this operation, not an earlier one
+        self.dataframe = self.dataframe.drop(columns="_missing_node", errors="ignore")
+        other_dataframe = other.dataframe.drop(columns="_missing_node", errors="ignore")
+
         # make two 2D nparrays arrays with two columns:
         # 1) the hashed value of a node and 2) a numerical index
         # Many operations are stacked here to reduce the need for storing
@@ -1328,7 +1332,7 @@ class GraphFrame:
 
         # get nodes that exist in other, but not in self, set metric columns to 0 for
         # these rows
-        other_not_in_self = other.dataframe[
+        other_not_in_self = other_dataframe[
             _gfm_cy.fast_not_isin(
                 other_hsh_ndx_sorted,
                 self_hsh_ndx_sorted,
-- 
2.43.0


From a503c9235617ac986a3d8af56d70cd5647b58654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:06 +0000
Subject: [PATCH 049/106] fix: keep the roots that have parents when grouping
 GraphFrames with cycles

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d0a1a9b..af2cbf4 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1432,10 +1432,6 @@ class GraphFrame:
             # grab the super node corresponding to original node
             super_node = old_to_new.get(node)
 
-            if not node.parents and super_node not in new_roots:
-                # this is a new root
-                new_roots.append(super_node)
-
             # iterate over parents of old node, adding parents to super node
             for parent in node.parents:
                 # convert node to super node
@@ -1488,6 +1484,10 @@ class GraphFrame:
         # reindex graph by traversing old graph
         visited = set()
         for root in self.graph.roots:
+            super_node = old_to_new.get(root)
+            if super_node not in new_roots:
+                # this is a new root
+                new_roots.append(super_node)
             reindex(root, None, visited)
 
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
-- 
2.43.0


From 8d77194a6a1a9a7e593b00021fc2f8cb63c8ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 050/106] fix: read graphs whose root is part of a cycle from
 JSON

---
 hatchet/readers/json_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index c3de66a..9bbb6bf 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -39,6 +39,9 @@ class JsonReader:
                     nodes[nid] = (Node(Frame(value["data"]), hnid=int(nid)), value)
                 if nid not in children:
                     roots.append(nodes[nid][0])
+            # the root comes first; it is also a child if it is part of a cycle
+            if graph_spec and children.issuperset(graph_spec):
+                roots.append(nodes[next(iter(graph_spec))][0])
 
         # connect nodes
         for node, value in nodes.values():
-- 
2.43.0


From 6930bb14889c8880a53f8572834cb4a8295ba2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 051/106] fix: tell apart cProfile functions of equally named
 files

---
 hatchet/readers/cprofile_reader.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..6ebb410 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -56,21 +56,17 @@ class CProfileReader:
         and creates a node for it and adds a new line of metadata to our
         dataframe if it does not exist.
         """
-        u_fn_name = "{}:{}:{}".format(
-            fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
-            fn_data[NameData.LINE],
-        )
-        fn_hnode = self.name_to_hnode.get(u_fn_name)
+        # functions are identified by file, line and name
+        fn_hnode = self.name_to_hnode.get(fn_data)
 
         if not fn_hnode:
             # create a node if it doesn't exist yet
             fn_hnode = Node(Frame({"type": "function", "name": fn_name}), None)
-            self.name_to_hnode[u_fn_name] = fn_hnode
+            self.name_to_hnode[fn_data] = fn_hnode
 
             # lookup stat data for source here
             fn_stats = stats_dict[fn_data]
-            self._add_node_metadata(u_fn_name, fn_data, fn_stats, fn_hnode)
+            self._add_node_metadata(fn_data, fn_data, fn_stats, fn_hnode)
 
         return fn_hnode
 
-- 
2.43.0


From f10a4db760ef0e97d09003fb5b947a6cf5c3414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 052/106] fix: list callers only once in gprof2dot graphs

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From a2fcc4e67a98ae070e407d673c41655464d9d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 053/106] fix: keep functions that only cycles lead to when
 reading call graphs

---
 hatchet/graph.py                    | 25 +++++++++++++++++++++++++
 hatchet/readers/cprofile_reader.py  | 28 ++++++++++++----------------
 hatchet/readers/gprof_dot_reader.py | 11 +++--------
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 428ad5a..b1e1cef 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -20,6 +20,31 @@ def index_by(attr, objects):
     return index
 
 
+def find_roots(nodes):
+    """Find nodes from which all of the given connected nodes can be reached.
+
+    These are the nodes without parents, and one node of each cycle that no
+    other node leads to.
+
+    Returns:
+        (list): roots
+    """
+    # a node left over in this order is not below any other one left over,
+    # unless they are in a cycle
+    visited = {}
+    finished = [n for node in nodes for n in node.traverse("post", visited=visited)]
+
+    roots = []
+    visited = {}
+    for node in reversed(finished):
+        if id(node) not in visited:
+            roots.append(node)
+            for _ in node.traverse(visited=visited):
+                pass
+
+    return roots
+
+
 class Graph:
     """A possibly multi-rooted tree or graph from one input dataset."""
 
diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 6ebb410..87cf8dc 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 import hatchet.graphframe
 from hatchet.node import Node
-from hatchet.graph import Graph
+from hatchet.graph import Graph, find_roots
 from hatchet.frame import Frame
 
 
@@ -95,7 +95,6 @@ class CProfileReader:
         except ValueError:
             print_incomptable_msg(self.pstats_file)
             raise
-        list_roots = []
 
         # We iterate through each function/node in our stats dict
         for dst_module_data, dst_stats in stats_dict.items():
@@ -105,20 +104,17 @@ class CProfileReader:
             # get all parents of our current destination node
             # create source nodes and link with destination node
             srcs = self._get_src(dst_stats)
-            if srcs == {}:
-                list_roots.append(dst_hnode)
-            else:
-                for src_module_data in srcs.keys():
-                    src_name = src_module_data[NameData.FNCNAME]
-
-                    if src_name is not None:
-                        src_hnode = self._create_node_and_row(
-                            src_module_data, src_name, stats_dict
-                        )
-                        dst_hnode.add_parent(src_hnode)
-                        src_hnode.add_child(dst_hnode)
-
-        return list_roots
+            for src_module_data in srcs.keys():
+                src_name = src_module_data[NameData.FNCNAME]
+
+                if src_name is not None:
+                    src_hnode = self._create_node_and_row(
+                        src_module_data, src_name, stats_dict
+                    )
+                    dst_hnode.add_parent(src_hnode)
+                    src_hnode.add_child(dst_hnode)
+
+        return find_roots(self.name_to_hnode.values())
 
     def read(self):
         roots = self.create_graph()
diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 3bc9ba5..09770cb 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -10,7 +10,7 @@ import pydot
 
 import hatchet.graphframe
 from ..node import Node
-from ..graph import Graph
+from ..graph import Graph, find_roots
 from ..frame import Frame
 from ..util.timer import Timer
 from ..util.config import dot_keywords
@@ -89,13 +89,8 @@ class GprofDotReader:
                     }
                     self.name_to_dict[node_name] = node_dict
 
-        # add all nodes with no parents to the list of roots
-        list_roots = []
-        for (key, val) in self.name_to_hnode.items():
-            if not val.parents:
-                list_roots.append(val)
-
-        return list_roots
+        # nodes with no parents, or in cycles that are not called from elsewhere
+        return find_roots(self.name_to_hnode.values())
 
     def read(self):
         """Read the DOT file generated by gprof2dot to create a graphframe. The DOT file
-- 
2.43.0


From 4006838c4404c97d7f2a05d958802a1a2b5c28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 054/106] fix: read gprof2dot labels without module or number
 of calls

---
 hatchet/readers/gprof_dot_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 09770cb..20b4a41 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -74,10 +74,13 @@ class GprofDotReader:
                         continue
                     node_label = node.obj_dict["attributes"].get("label").strip('"')
 
-                    module, _, inc, exc, _ = node_label.split(r"\n")
+                    # module (if known), name, inclusive and exclusive time, and
+                    # number of calls (if known)
+                    label_format = r"(?:(.*)\\n)?.*\\n(.*)%\\n\((.*)%\)"
+                    module, inc, exc = re.match(label_format, node_label).groups()
 
-                    inc_time = float(re.sub(r"\%", "", inc))
-                    exc_time = float(re.sub(r"[\(\%\)]", "", exc))
+                    inc_time = float(inc)
+                    exc_time = float(exc)
 
                     # create a dict with node properties
                     node_dict = {
-- 
2.43.0


From 053e75214b0c2795a51e45399cc829b373c58586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 055/106] fix: add rows for gprof2dot functions without label

---
 hatchet/readers/gprof_dot_reader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 20b4a41..8363066 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -92,6 +92,17 @@ class GprofDotReader:
                     }
                     self.name_to_dict[node_name] = node_dict
 
+        # functions that are not described further have no recorded times
+        for node_name, hnode in self.name_to_hnode.items():
+            if node_name not in self.name_to_dict:
+                self.name_to_dict[node_name] = {
+                    "module": None,
+                    "name": node_name,
+                    "time (inc)": float("nan"),
+                    "time": float("nan"),
+                    "node": hnode,
+                }
+
         # nodes with no parents, or in cycles that are not called from elsewhere
         return find_roots(self.name_to_hnode.values())
 
-- 
2.43.0


From cd1a41b46cdd3ed1ae48e13fd4e6663f1d8cc58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 056/106] fix: let nodes read from Caliper JSON know their
 parents

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From bdfe6b92b53244d966706e3d4ffc6729e108786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 057/106] fix: do not list the hidden node order of Caliper
 JSON as a metric

---
 hatchet/readers/caliper_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..d7fdfe1 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -137,7 +137,10 @@ class CaliperReader:
         # make list of metric columns
         self.metric_columns = []
         for idx, item in enumerate(self.json_cols_mdata):
-            if self.json_cols[idx] != "rank" and item["is_value"] is True:
+            if (
+                self.json_cols[idx] not in ("rank", "Node order")
+                and item["is_value"] is True
+            ):
                 self.metric_columns.append(self.json_cols[idx])
 
     def create_graph(self):
-- 
2.43.0


From 8d3b1f6e529f9b3933fc5005b0acee6c495ed649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 058/106] fix: read Caliper JSON from text streams

---
 hatchet/readers/caliper_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index d7fdfe1..18ff538 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -73,7 +73,8 @@ class CaliperReader:
             with open(self.filename_or_stream) as cali_json:
                 json_obj = json.load(cali_json)
         else:
-            json_obj = json.loads(self.filename_or_stream.read().decode("utf-8"))
+            # streams may be binary (e.g. a pipe from cali-query) or text
+            json_obj = json.load(self.filename_or_stream)
 
         # read various sections of the Caliper JSON file
         self.json_data = json_obj["data"]
-- 
2.43.0


From deba4d9db9d2495a68f1ec43426f4e17d07cfc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 059/106] fix: read metrics without any value as numbers from
 Caliper JSON

---
 hatchet/readers/caliper_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 18ff538..35572a0 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -205,6 +205,11 @@ class CaliperReader:
         # create a dataframe of metrics from the data section
         self.df_json_data = pd.DataFrame(self.json_data, columns=self.json_cols)
 
+        # metrics without any value have no numeric type in JSON
+        for metric in self.metric_columns:
+            if self.df_json_data[metric].isna().all():
+                self.df_json_data[metric] = self.df_json_data[metric].astype(float)
+
         # when an nid has multiple entries due to the secondary hierarchy
         # we need to aggregate them for each (nid, rank)
         groupby_cols = [self.nid_col_name]
-- 
2.43.0


From 9d135346f3b1ecc2ac9f816726a7bf41b41567e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 060/106] fix: accept Caliper JSON records without value for an
 attribute

---
 hatchet/readers/caliper_reader.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 35572a0..401071f 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -8,7 +8,6 @@ import sys
 import re
 import subprocess
 import os
-import math
 
 import pandas as pd
 import numpy as np
@@ -253,18 +252,16 @@ class CaliperReader:
                     )
                     self.df_json_data.drop(self.json_cols[idx], axis=1, inplace=True)
                     sourceloc_idx = idx
-                elif self.json_cols[idx] == "path":
-                    # we will only reach here if path is the "secondary"
-                    # hierarchy in the data
-                    self.df_json_data["path"] = self.df_json_data["path"].apply(
-                        lambda x: None
-                        if (math.isnan(x))
-                        else self.json_nodes[int(x)]["label"]
-                    )
                 else:
+                    # records do not need to have a value; this includes path
+                    # if it is the "secondary" hierarchy in the data
                     self.df_json_data[self.json_cols[idx]] = self.df_json_data[
                         self.json_cols[idx]
-                    ].apply(lambda x: self.json_nodes[x]["label"])
+                    ].apply(
+                        lambda x: None
+                        if pd.isnull(x)
+                        else self.json_nodes[int(x)]["label"]
+                    )
 
         # since we split sourceloc, we should update json_cols and
         # json_cols_mdata
-- 
2.43.0


From c2311f1befac184e36ff26f7b32984b7d6ef3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 061/106] fix: tell apart equal line numbers of different files
 in Caliper JSON

---
 hatchet/readers/caliper_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 401071f..4c83e0b 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -282,15 +282,14 @@ class CaliperReader:
             df_concat = [self.df_json_data]
 
             for nid, super_node in unique_nodes:
-                line_groups = super_node.groupby("line")
+                line_groups = super_node.groupby(["file", "line"])
                 # only need to do something if there are more than one
                 # file:line number entries for the node
                 if len(line_groups.size()) > 1:
                     sn_hnode = self.idx_to_node[nid]["node"]
 
-                    for line, line_group in line_groups:
+                    for (file_path, line), line_group in line_groups:
                         # create the node label
-                        file_path = (line_group.head(1))["file"].item()
                         file_name = os.path.basename(file_path)
                         node_label = file_name + ":" + line
 
-- 
2.43.0


From 72bc1046e21db7bec624a861bf82dcfe9e1ef6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 062/106] fix: read Caliper JSON with source locations and two
 hierarchies

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 4c83e0b..1da2c1c 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -222,7 +222,7 @@ class CaliperReader:
             agg_dict = {}
             for idx, item in enumerate(self.json_cols_mdata):
                 col = self.json_cols[idx]
-                if col != "rank" and col != "nid":
+                if col not in groupby_cols:
                     if item["is_value"] is True:
                         agg_dict[col] = np.sum
                     else:
-- 
2.43.0


From 564c7f53642f62b72ae08bd72a92f442cfc24048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 063/106] fix: use each node's own record for the node order of
 Caliper JSON

---
 hatchet/readers/caliper_reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 1da2c1c..e385885 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -149,6 +149,14 @@ class CaliperReader:
         global unknown_label_counter
         order = -1
 
+        # if there is a node ordering, get the order of each node
+        node_orders = {}
+        if "Node order" in self.json_cols:
+            self.node_ordering = True
+            order_col = self.json_cols.index("Node order")
+            nid_col = self.json_cols.index(self.nid_col_name)
+            node_orders = {row[nid_col]: row[order_col] for row in self.json_data}
+
         # find nodes in the nodes section that represent the path hierarchy
         for idx, node in enumerate(self.json_nodes):
             node_label = node["label"]
@@ -159,9 +167,8 @@ class CaliperReader:
 
             if node["column"] == self.path_col_name:
                 # If there is a node orderering, assign to the _hatchet_nid
-                if "Node order" in self.json_cols:
-                    self.node_ordering = True
-                    order = self.json_data[idx][0]
+                if self.node_ordering:
+                    order = node_orders[idx]
                 if "parent" not in node:
                     # since this node does not have a parent, this is a root
                     graph_root = Node(
-- 
2.43.0


From 61f18da833a582f4e0073dafc50b6a4dd04c0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 064/106] fix: keep nodes without records when splitting
 Caliper nodes by line

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index e385885..b214b64 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -280,7 +280,7 @@ class CaliperReader:
             self.json_cols_mdata.append({"is_value": False})
             self.json_cols_mdata.append({"is_value": False})
 
-        max_nid = self.df_json_data[self.nid_col_name].max()
+        max_nid = max(self.idx_to_node)
 
         if "line" in self.df_json_data.columns:
             # split nodes that have multiple file:line numbers to have a child
-- 
2.43.0


From 56ed56d9adb1dadcf4e6b29e533222ca87012e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 065/106] fix: TAU reader: default metric of profiles without a
 time metric

---
 hatchet/readers/tau_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..fe27a13 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -500,6 +500,8 @@ class TAUReader:
             dataframe = dataframe.stack()
 
         default_metric = "time (inc)"
+        if default_metric not in self.inc_metrics:
+            default_metric = self.inc_metrics[0]
 
         return hatchet.graphframe.GraphFrame(
             graph, dataframe, self.exc_metrics, self.inc_metrics, default_metric
-- 
2.43.0


From 0e7888409a8f3b3f6bcbd4f61e7e44552d855183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 066/106] fix: TAU reader: accept fractional metric values of
 the root

---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index fe27a13..23454ae 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -279,7 +279,7 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
-            root_values = list(map(int, root_line.group(2).split(" ")[:-1]))
+            root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
             # from other files since other columns will be the same.
@@ -297,7 +297,9 @@ class TAUReader:
                     + "\nLine: 2"
                 )
                 root_line = re.match(r"\"(.*)\"\s(.*)\sG", file_data[f_index][0])
-                root_values.extend(list(map(int, root_line.group(2).split(" ")[2:4])))
+                root_values.extend(
+                    list(map(float, root_line.group(2).split(" ")[2:4]))
+                )
 
             # Check if the root exists in other ranks.
             # Note that we assume the root is the same for all metric files of a rank.
-- 
2.43.0


From f965c17e6d6d0951273f520eb4cd0493da04ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 067/106] fix: TAU reader: keep the root's name stripped with
 several metrics

---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 23454ae..d78edb4 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -286,11 +286,13 @@ class TAUReader:
             # We assume each metric file of a rank has the same root.
             first_file_root_name = re.search(r"\"(.*?)\"", file_data[0][0]).group(1)
             for f_index in range(1, len(file_data)):
-                root_name = re.search(r"\"(.*?)\"", file_data[f_index][0]).group(1)
+                other_root_name = re.search(
+                    r"\"(.*?)\"", file_data[f_index][0]
+                ).group(1)
                 # Below assert statement throws an error if the roots are not the
                 # same for different metric files.
                 # TODO: We need to find a solution if this throws an error.
-                assert first_file_root_name == root_name, (
+                assert first_file_root_name == other_root_name, (
                     "Metric files for a rank has different roots.\n"
                     + "File: "
                     + filenames_per_rank[f_index]
-- 
2.43.0


From 9824849bb89bee10db1ccc047e3a35331794a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 068/106] fix: TAU reader: functions with a file but no line
 number

---
 hatchet/readers/tau_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index d78edb4..57fa892 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -141,7 +141,13 @@ class TAUReader:
                 tmp_module_or_file_line = (
                     re.search(r"\{.*\}\]", node_info).group(0).split()
                 )
-                line_numbers = tmp_module_or_file_line[1].strip("}]").replace("{", "")
+                # There may be no line number at all.
+                # Example: [SUMMARY] <name> [{<file>}]
+                line_numbers = "0"
+                if len(tmp_module_or_file_line) > 1:
+                    line_numbers = (
+                        tmp_module_or_file_line[1].strip("}]").replace("{", "")
+                    )
                 start_line = line_numbers
                 if "-" in line_numbers:
                     # Sometimes there is "-" between start line and end line
-- 
2.43.0


From 6d3545faf0133900ea8510174b9d5428d46de0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 069/106] fix: TAU reader: ignore user events, which are no
 call paths

---
 hatchet/readers/tau_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 57fa892..fab56a2 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -346,7 +346,8 @@ class TAUReader:
                 metric_values = []
                 # We only parse the lines that has "=>" symbol which shows the callpath info.
                 # We just skip the other lines.
-                if "=>" in line:
+                # User events may have call paths too, but they have no metrics and group.
+                if "=>" in line and re.match(r"\"(.*)\"\s(.*)\sG", line):
                     # Example: ".TAU application  => foo()  => bar()" 31 0 155019 155019 0 GROUP="TAU_SAMPLE|TAU_CALLPATH"
                     callpath_line_regex = re.match(r"\"(.*)\"\s(.*)\sG", line)
                     # callpath: ".TAU application  => foo()  => bar()"
-- 
2.43.0


From 040db394ea18766474a06f65a75d926c8006121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 070/106] fix: TAU reader: give parents of unwound frames the
 name of their row

---
 hatchet/readers/tau_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index fab56a2..1f49a7f 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -96,7 +96,10 @@ class TAUReader:
                     name = "[UNWIND] " + name_and_module[0]
                 else:
                     # We just need to take name if it is a parent
-                    name = "[UNWIND] " + node_info[1].split()[0]
+                    if "[{" in node_info[1]:
+                        name = "[UNWIND] " + node_info[1].split(" [{")[0]
+                    else:
+                        name = "[UNWIND] " + node_info[1].split()[0]
             elif symbol == " C ":
                 # Check if there is a C symbol.
                 # "C" symbol means it's a C function.
-- 
2.43.0


From 286233c79874cd721594b6bd1a2ad7989088192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 071/106] fix: TAU reader: rows at every rank and thread if
 there are several of both

---
 hatchet/readers/tau_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 1f49a7f..ef139a6 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -490,7 +490,8 @@ class TAUReader:
         # of the multiindex.
         # TODO: iterrows() is not the best way to iterate over rows.
         if self.multiple_ranks or self.multiple_threads:
-            dataframe = dataframe.unstack()
+            places = indices[1:]
+            dataframe = dataframe.unstack(places)
             for idx, row in dataframe.iterrows():
                 # There is always a valid name for an index.
                 # Take that valid name and assign to other ranks/rows.
@@ -511,7 +512,7 @@ class TAUReader:
                 dataframe.fillna(0, inplace=True)
 
             # Stack the dataframe
-            dataframe = dataframe.stack()
+            dataframe = dataframe.stack(places)
 
         default_metric = "time (inc)"
         if default_metric not in self.inc_metrics:
-- 
2.43.0


From fb259ee2414acbc3b0c74b7cfd54f8d05ac9fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 072/106] fix: TAU reader: fill only missing numbers with 0,
 not missing files and modules

---
 hatchet/readers/tau_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index ef139a6..a55c8ea 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -508,8 +508,9 @@ class TAUReader:
                     module = row["module"][row["module"].first_valid_index()]
                     dataframe.loc[idx, "module"] = module
 
-                # Fill the rest with 0
-                dataframe.fillna(0, inplace=True)
+            # Fill the rest with 0
+            numbers = [c for c in dataframe if c[0] not in ("name", "file", "module")]
+            dataframe[numbers] = dataframe[numbers].fillna(0)
 
             # Stack the dataframe
             dataframe = dataframe.stack(places)
-- 
2.43.0


From d6ba12b5a5e91e11ad6d3eb69f7ee2ac77cd5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 073/106] fix: TAU reader: strip the whole bracket off file
 names without a line number

---
 hatchet/readers/tau_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index a55c8ea..b53a1ec 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -119,7 +119,7 @@ class TAUReader:
                     name = node_info[0]
                     # We don't need file and module information if it's a parent node.
                     if not is_parent:
-                        file = node_info[1].split()[0].strip("}{")
+                        file = node_info[1].split()[0].strip("}{]")
                 else:
                     # Example 1: [<type>] <name> <module>
                     # Example 2: [<type>] <name>
-- 
2.43.0


From ebe13c9785771fa0eaac431350172d6081bbf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 074/106] fix: HPCToolkit reader: ranks that are not numbered
 from 0 or differ in their threads

---
 hatchet/readers/hpctoolkit_reader.py | 36 ++++++++++------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..831e031 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -52,9 +52,8 @@ def read_metricdb_file(args):
     """Read a single metricdb file into a 1D array."""
     (
         filename,
+        file_index,
         num_nodes,
-        num_threads_per_rank,
-        num_cpu_threads_per_rank,
         num_metrics,
         shape,
     ) = args
@@ -73,14 +72,11 @@ def read_metricdb_file(args):
 
     arr = np.frombuffer(shared_metrics).reshape(shape)
 
-    # copy the data in the right place in the larger 2D array of metrics
-    if thread < 500:
-        rank_offset = (rank * num_threads_per_rank + thread) * num_nodes
-    else:
-        # GPU streams in hpctoolkit 2021.05.15 start at thread id 500
-        rank_offset = (
-            rank * num_threads_per_rank + num_cpu_threads_per_rank + (thread - 500)
-        ) * num_nodes
+    # copy the data in the right place in the larger 2D array of metrics: the
+    # files are in the order of their ranks and threads, but neither need be
+    # contiguous (GPU streams in hpctoolkit 2021.05.15 start at thread id 500)
+    # and ranks may have different numbers of threads
+    rank_offset = file_index * num_nodes
 
     arr[rank_offset : rank_offset + num_nodes, :num_metrics].flat = arr1d.flat
     arr[rank_offset : rank_offset + num_nodes, num_metrics] = range(1, num_nodes + 1)
@@ -112,11 +108,12 @@ class HPCToolkitReader:
 
         # We need to know how many threads per rank there are. This counts the
         # number of thread 0 metric-db files (i.e., number of ranks), then
-        # uses this as the divisor to the total number of metric-db files.
+        # uses this as the divisor to the total number of metric-db files
+        # (rounded up, since ranks may have different numbers of threads).
         metricdb_numranks_files = glob.glob(self.dir_name + "/*-000-*.metric-db")
         self.num_ranks = len(metricdb_numranks_files)
-        self.num_threads_per_rank = int(
-            self.num_metricdb_files / len(metricdb_numranks_files)
+        self.num_threads_per_rank = -(
+            -self.num_metricdb_files // len(metricdb_numranks_files)
         )
 
         self.num_cpu_threads_per_rank = self.count_cpu_threads_per_rank()
@@ -191,15 +188,8 @@ class HPCToolkitReader:
         pool = mp.Pool(initializer=init_shared_array, initargs=(shared_buffer,))
         self.metrics = np.frombuffer(shared_buffer).reshape(shape)
         args = [
-            (
-                filename,
-                self.num_nodes,
-                self.num_threads_per_rank,
-                self.num_cpu_threads_per_rank,
-                self.num_metrics,
-                shape,
-            )
-            for filename in metricdb_files
+            (filename, file_index, self.num_nodes, self.num_metrics, shape)
+            for file_index, filename in enumerate(metricdb_files)
         ]
         try:
             pool.map(read_metricdb_file, args)
@@ -232,7 +222,7 @@ class HPCToolkitReader:
 
         # getting the number of execution threads for our stride in
         # subtract_exclusive_metric_vals/ num nodes is already calculated
-        self.total_execution_threads = self.num_threads_per_rank * self.num_ranks
+        self.total_execution_threads = self.num_metricdb_files
 
     def read(self):
         """Read the experiment.xml file to extract the calling context tree and create
-- 
2.43.0


From 29462bcd426e57c4cf2f55773c4a6514aa625a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 075/106] fix: HPCToolkit reader: default metric of databases
 without CPU time

---
 hatchet/readers/hpctoolkit_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index 831e031..6c7d121 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -306,7 +306,13 @@ class HPCToolkitReader:
             else:
                 exc_metrics.append(column)
 
-        return hatchet.graphframe.GraphFrame(graph, dataframe, exc_metrics, inc_metrics)
+        default_metric = "time"
+        if default_metric not in self.metric_columns:
+            default_metric = (exc_metrics + inc_metrics)[0]
+
+        return hatchet.graphframe.GraphFrame(
+            graph, dataframe, exc_metrics, inc_metrics, default_metric
+        )
 
     def parse_xml_children(self, xml_node, hnode):
         """Parses all children of an XML node."""
-- 
2.43.0


From 94bd4f2af21e26d0550d80890f44ada7fd440dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 076/106] fix: HPCToolkit reader: statements after calls and
 loops are in the file of their own scope

---
 hatchet/readers/hpctoolkit_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index 6c7d121..704dd43 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -316,8 +316,13 @@ class HPCToolkitReader:
 
     def parse_xml_children(self, xml_node, hnode):
         """Parses all children of an XML node."""
+        global src_file
+        scope_file = src_file
+
         for xml_child in xml_node:
             if xml_child.tag != "M":
+                # the previous child may have been in another file
+                src_file = scope_file
                 nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
                 self.parse_xml_node(xml_child, nid, line, hnode)
-- 
2.43.0


From 0c2c7cefa4331cf3cdffc6b1060b9c493fa09aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 077/106] fix: timemory reader: leave the dictionary that is
 read as it was

---
 hatchet/readers/timemory_reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index f731ed5..898f6b5 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -321,8 +321,13 @@ class TimemoryReader:
             _metrics_in_vector = True if not isinstance(_labels, str) else False
             # remove some spurious data from inclusive/exclusive stats
             _remove = ["cereal_class_version", "count"]
-            _inc_stats = remove_keys(_node_data["node"]["inclusive"]["stats"], _remove)
-            _exc_stats = remove_keys(_node_data["node"]["exclusive"]["stats"], _remove)
+            # (from copies, since the data may be the caller's)
+            _inc_stats = remove_keys(
+                dict(_node_data["node"]["inclusive"]["stats"]), _remove
+            )
+            _exc_stats = remove_keys(
+                dict(_node_data["node"]["exclusive"]["stats"]), _remove
+            )
 
             # if multi-dimensions, create alternative "sum.<...>", etc. labels + data
             # add " (inc)" to the end of every column that represents an inclusive stat
@@ -428,7 +433,7 @@ class TimemoryReader:
                 properties[_metric_name] = {}
             try:
                 properties[_metric_name]["properties"] = remove_keys(
-                    _metric_data["properties"], "cereal_class_version"
+                    dict(_metric_data["properties"]), "cereal_class_version"
                 )
             except KeyError:
                 pass
-- 
2.43.0


From 769434aea3f9e7c2bf09dd405e5e28d92be38aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 078/106] fix: timemory reader: read from file streams

---
 hatchet/readers/timemory_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 898f6b5..1766bfb 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -576,6 +576,9 @@ class TimemoryReader:
         # check if the input is a dictionary.
         if isinstance(self.input, dict):
             self.graph_dict = self.input
+        # check if the input is an open file.
+        elif hasattr(self.input, "read"):
+            self.graph_dict = json.load(self.input)
         # check if the input is a directory and get '.tree.json' files if true.
         elif os.path.isdir(self.input):
             tree_files = glob.glob(self.input + "/*.tree.json")
@@ -589,8 +592,6 @@ class TimemoryReader:
         elif isinstance(self.input, str) and self.input.endswith("json"):
             with open(self.input, "r") as f:
                 self.graph_dict = json.load(f)
-        elif not isinstance(self.input, str):
-            self.graph_dict = json.loads(self.input.read())
         else:
             raise TypeError("input must be dict, directory, json file, or string")
 
-- 
2.43.0


From 5f521d965d372b49f696f46f9d2cf4f130ea5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 079/106] fix: timemory reader: an empty selection is no
 selection

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 1766bfb..f48a612 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -57,8 +57,9 @@ class TimemoryReader:
         self.per_thread = _kwargs["per_thread"] if "per_thread" in _kwargs else False
         self.per_rank = _kwargs["per_rank"] if "per_rank" in _kwargs else False
 
+        self.select = None
         if select is None:
-            self.select = select
+            pass
         elif isinstance(select, list):
             if select:
 
-- 
2.43.0


From 1485d2ae02b261038a4ab060cddab7b76a75819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 080/106] fix: timemory reader: several threads without ranks

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index f48a612..b83a22e 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -528,7 +528,8 @@ class TimemoryReader:
             dataframe.drop(columns=["thread"], inplace=True)
             indices = ["node", "rank"]
         elif self.multiple_threads:
-            dataframe.drop(columns=["rank"], inplace=True)
+            # there are no ranks at all without distributed memory parallelism
+            dataframe.drop(columns=["rank"], inplace=True, errors="ignore")
             indices = ["node", "thread"]
         else:
             indices = ["node"]
-- 
2.43.0


From 6e16472e2a0245f0003c9b3c2c5710f48127849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 081/106] fix: timemory reader: rows at every rank and thread
 if there are several of both

---
 hatchet/readers/timemory_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index b83a22e..4d5d301 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -544,7 +544,8 @@ class TimemoryReader:
         # of the multiindex.
         # TODO: iterrows() is not the best way to iterate over rows.
         if self.multiple_ranks or self.multiple_threads:
-            dataframe = dataframe.unstack()
+            places = indices[1:]
+            dataframe = dataframe.unstack(places)
             for idx, row in dataframe.iterrows():
 
                 # There is always a valid name for an index.
@@ -566,7 +567,7 @@ class TimemoryReader:
                 dataframe.fillna(0, inplace=True)
 
             # Stack the dataframe
-            dataframe = dataframe.stack()
+            dataframe = dataframe.stack(places)
 
         return GraphFrame(
             graph, dataframe, exc_metrics, inc_metrics, self.default_metric
-- 
2.43.0


From 6fbbb2a67b7ec02e4d55cc39a30ce4d6f616d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 082/106] fix: timemory reader: keep regions apart that differ
 in file, line, or (per thread or rank) thread or rank

---
 hatchet/readers/timemory_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 4d5d301..3489f8f 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -275,8 +275,6 @@ class TimemoryReader:
             _prop = self.properties[_metric_name]
             _frame_attrs, _extra = get_name_line_file(_node_data["node"]["prefix"])
 
-            callpath = _parent_callpath + (_frame_attrs["name"],)
-
             # by placing the thread-id or rank-id in _frame_attrs, the hash
             # for the Frame(_keys) effectively circumvent Hatchet's
             # default behavior of combining similar thread/rank entries
@@ -293,6 +291,13 @@ class TimemoryReader:
                 _node_data["node"]["tid"], self.per_thread
             )
 
+            # regions of the same name may be in different files or lines, and
+            # those of different threads or ranks are to be kept apart if the
+            # frame has the thread-id or rank-id
+            callpath = _parent_callpath + (
+                (_node_data["node"]["prefix"],) + tuple(_frame_attrs.items()),
+            )
+
             # check if the node already exits.
             _hnode = self.callpath_to_node.get(callpath)
             if _hnode is None:
-- 
2.43.0


From 8f5377d5ab0a8397f72b3905234a24325471a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 083/106] fix: timemory reader: ids of threads and ranks are
 integers in frames, too

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 3489f8f..106a1e4 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -248,7 +248,7 @@ class TimemoryReader:
                         )
                     return ",".join([f"{x}" for x in _obj]).strip(",")
             elif _obj is not None:
-                return f"{_obj}" if _expect_scalar else int(_obj)
+                return int(_obj)
             return None
 
         def parse_node(_metric_name, _node_data, _hparent, _rank, _parent_callpath):
-- 
2.43.0


From bfaf8a0257bc94c27210458da433dd2a10beaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 084/106] fix: timemory reader: read roots without children

---
 hatchet/readers/timemory_reader.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 106a1e4..98aeda4 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -405,21 +405,19 @@ class TimemoryReader:
                 rank = None if _rank is None else i + _rank
                 if isinstance(rank_data, list):
                     for data in rank_data:
-                        if len(data["children"]) != 0:
-                            # empty tuple represents the parent callpath for the root node.
-                            # third parameter is the parent node. It's none for the root node.
-                            parse_node(
-                                _metric_name,
-                                data,
-                                None,
-                                rank,
-                                tuple(),
-                            )
-                else:
-                    if len(rank_data["children"]) != 0:
                         # empty tuple represents the parent callpath for the root node.
                         # third parameter is the parent node. It's none for the root node.
-                        parse_node(_metric_name, rank_data, None, rank, tuple())
+                        parse_node(
+                            _metric_name,
+                            data,
+                            None,
+                            rank,
+                            tuple(),
+                        )
+                else:
+                    # empty tuple represents the parent callpath for the root node.
+                    # third parameter is the parent node. It's none for the root node.
+                    parse_node(_metric_name, rank_data, None, rank, tuple())
 
             if total_ranks > 0:
                 return True
-- 
2.43.0


From 0d280f7f5e2d5d33ce9be663e3951bd37767489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 085/106] fix: SpotDB reader: rows for regions that are only
 recorded as parts of paths

---
 hatchet/readers/spotdb_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..d363222 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -81,6 +81,13 @@ class SpotDatasetReader:
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
+        # regions that have no record of their own, only regions below them
+        recorded = {id(data["node"]) for data in self.df_data}
+        for root in self.roots.values():
+            for node in root.traverse():
+                if id(node) not in recorded:
+                    self.df_data.append({"name": node.frame["name"], "node": node})
+
     def read(self, default_metric="Total time (inc)"):
         """Create GraphFrame for the given Spot dataset."""
 
-- 
2.43.0


From 2148dc3a041babde2b06e0250bfebcbcc0e96281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 086/106] fix: SpotDB reader: read no runs if an empty list of
 them is given

---
 hatchet/readers/spotdb_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index d363222..f10f953 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -176,7 +176,9 @@ class SpotDBReader:
         else:
             db = self.db_key
 
-        runs = self.list_of_ids or db.get_all_run_ids()
+        runs = self.list_of_ids
+        if runs is None:
+            runs = db.get_all_run_ids()
 
         regionprofiles = db.get_regionprofiles(runs)
         metadata = db.get_global_data(runs)
-- 
2.43.0


From 498e51e38a1705dbf5577dcfb06e96b34ca99079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 087/106] fix: native Caliper reader: one row per rank for root
 nodes

---
 hatchet/readers/caliper_native_reader.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..936117c 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -215,17 +215,8 @@ class CaliperNativeReader:
 
                 # if root node, end recursive call to create parent nodes
                 if not parent_callpath:
+                    # its entry in idx_to_node is added by the caller
                     list_roots.append(child_node)
-
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From 5cb293ae433207fe826838369602f8ed7174d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 088/106] fix: native Caliper reader: keep the metrics of every
 rank

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 936117c..684bbba 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -87,7 +87,10 @@ class CaliperNativeReader:
             if self.filename_or_caliperreader.attribute(col).is_value():
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
-        df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
+        groups = ["nid"]
+        if "mpi.rank" in df_metrics.columns:
+            groups.append("mpi.rank")
+        df_new = df_metrics.groupby(groups).aggregate("first").reset_index()
         return df_new
 
     def _reset_metrics(self, metrics):
-- 
2.43.0


From 46fe867007437a99ddf040ca0eae68d8a427c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 089/106] fix: native Caliper reader: read false boolean values
 as False

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 684bbba..5ae8227 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -36,7 +36,7 @@ class CaliperNativeReader:
         "string": str,
         "addr": np.uint64,
         "double": np.float64,
-        "bool": bool,
+        "bool": lambda value: str(value).lower() in ("true", "1"),
         "type": lambda dummy: __raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-- 
2.43.0


From 1a08d471ae6b0d65efecce8f83b35002d3504a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 090/106] fix: native Caliper reader: default metric of
 profiles with inclusive time only

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 5ae8227..52b7e8a 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -533,7 +533,10 @@ class CaliperNativeReader:
             # set the default metric
             if self.default_metric is None:
                 if "time (inc)" in dataframe.columns:
-                    self.default_metric = "time"
+                    if "time" in dataframe.columns:
+                        self.default_metric = "time"
+                    else:
+                        self.default_metric = "time (inc)"
                 elif "avg#inclusive#sum#time.duration" in dataframe.columns:
                     self.default_metric = "avg#inclusive#sum#time.duration"
                 elif len(inc_metrics) > 0:
-- 
2.43.0


From 62bc21dab0e9d5ebc9e7e51f7bb7f83e0753f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 091/106] fix: native Caliper reader: time series without loop
 attributes

---
 hatchet/readers/caliper_native_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 52b7e8a..fcbfa1a 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -105,7 +105,13 @@ class CaliperNativeReader:
         ]
         for node_dict in metrics:
             if node_dict.get("timeseries.snapshot") == 0.0:
-                new_mets.append({k: node_dict.get(k, np.nan) for k in cols_to_keep})
+                new_mets.append(
+                    {
+                        k: node_dict.get(k, np.nan)
+                        for k in cols_to_keep
+                        if k == "nid" or k in self.record_data_cols
+                    }
+                )
         return new_mets
 
     def read_metrics(self, ctx="path"):
-- 
2.43.0


From cc3b6c099746b1baa8721dac6ec4cbea5b4a3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 092/106] fix: native Caliper reader: time series of several
 ranks

---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index fcbfa1a..23c8c95 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -99,6 +99,7 @@ class CaliperNativeReader:
         new_mets = []
         cols_to_keep = [
             "nid",
+            "mpi.rank",
             "loop.iterations",
             "loop.start_iteration",
             "timeseries.snapshot",
-- 
2.43.0


From cc7600d42ca3f1807956a9f4c62c150044cc7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 093/106] fix: native Caliper reader: skip attributes of
 unsupported types as intended

---
 hatchet/readers/caliper_native_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 23c8c95..0ce99e8 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -17,7 +17,7 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 
 
-def __raise_cali_type_error(msg):
+def _raise_cali_type_error(msg):
     raise ValueError(msg)
 
 
@@ -25,10 +25,10 @@ class CaliperNativeReader:
     """Read in a native `.cali` file using Caliper's python reader."""
 
     __cali_type_dict = {
-        "inv": lambda dummy: __raise_cali_type_error(
+        "inv": lambda dummy: _raise_cali_type_error(
             "Caliper type 'inv' is unsupported in Hatchet"
         ),
-        "usr": lambda dummy: __raise_cali_type_error(
+        "usr": lambda dummy: _raise_cali_type_error(
             "Custom Caliper types are unsupported in Hatchet"
         ),
         "int": np.int64,
@@ -37,10 +37,10 @@ class CaliperNativeReader:
         "addr": np.uint64,
         "double": np.float64,
         "bool": lambda value: str(value).lower() in ("true", "1"),
-        "type": lambda dummy: __raise_cali_type_error(
+        "type": lambda dummy: _raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-        "ptr": lambda dummy: __raise_cali_type_error(
+        "ptr": lambda dummy: _raise_cali_type_error(
             "Caliper 'ptr' types are for internal use only!"
         ),
     }
-- 
2.43.0


From 2531643c68711a29f1f5aeb24af39ab5ba2d3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 094/106] fix: native Caliper reader: rows of nodes without a
 record

---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 0ce99e8..26d9557 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -441,6 +441,7 @@ class CaliperNativeReader:
                     if metric_rows.empty:
                         # add a single row
                         node_dict = dict(default_metric_dict)
+                        node_dict["nid"] = row["nid"]
                         missing_nodes.append(node_dict)
                 else:
                     if metric_rows.empty:
-- 
2.43.0


From 984b6b0c35dd45ed0df2fe548645281b56048e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 095/106] fix: native Caliper reader: list each metric of a
 time series once

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 26d9557..7ff8100 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,10 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         groups = ["nid"]
-- 
2.43.0


From c5351d2c66b6c2e4a48f0c313c0374aeeb925cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 096/106] fix: native Caliper reader: intervals of a time
 series without some metric

---
 hatchet/readers/caliper_native_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 7ff8100..a31d619 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -467,6 +467,11 @@ class CaliperNativeReader:
             df_missing = pd.DataFrame.from_dict(data=missing_nodes)
             df_metrics = pd.concat([df_fixed_data, df_missing], sort=False)
 
+            # metrics that are not recorded in this interval of a timeseries
+            for col in self.record_data_cols:
+                if col not in df_metrics.columns:
+                    df_metrics[col] = np.nan
+
             # rename columns to user-readable metric names (i.e., aliases)
             if not self.use_native_metric_names:
                 for col in df_metrics.columns:
-- 
2.43.0


From 2962c2ae0abbacbbc1a362fe556525f387fc2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 097/106] fix: native Caliper reader: node order of parents
 recorded after their children

---
 hatchet/readers/caliper_native_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index a31d619..196efc6 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -322,6 +322,13 @@ class CaliperNativeReader:
                             )
                             self.idx_to_node[self.global_nid] = node_dict
                             self.global_nid += 1
+                        elif (
+                            hnode._hatchet_nid == -1
+                            and "min#min#aggregate.slot" in record
+                        ):
+                            # created as a parent before its own record
+                            self.node_ordering = True
+                            hnode._hatchet_nid = int(record["min#min#aggregate.slot"])
 
                     # if it's a string, then it's a root
                     else:
-- 
2.43.0


From 081f1a279ec8fed2f1a27b55f71bac3ef01f5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 098/106] fix: Profiler: keep existing files when several are
 written within a second

---
 hatchet/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..4c5b553 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -107,7 +107,7 @@ class Profiler:
             else:
                 sts.dump_stats(self._output + ".pstats")
         else:
-            if os.path.exists(filename):
-                now = datetime.now().strftime("%H%M%S")
+            now = datetime.now().strftime("%H%M%S")
+            while os.path.exists(filename):
                 filename = "{}_{}.pstats".format(filename, now)
             sts.dump_stats(filename)
-- 
2.43.0


From c995c5b5070e70b2eeb69e854a8b7a753f63805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 099/106] fix: Node.from_lists: refuse lists headed by neither
 a string nor a node

---
 hatchet/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index eb6462b..2c617a0 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -284,6 +284,10 @@ In the above examples, the 'a' represents a Node with its
                     node = lists[0]
                 elif isinstance(lists[0], str):
                     node = Node(Frame(name=lists[0]))
+                else:
+                    raise ValueError(
+                        "Lists must start with a str or Node: %s" % (lists,)
+                    )
                 children = lists[1:]
                 for val in children:
                     _ = _from_lists(val, node)
-- 
2.43.0


From 867edec449adae4283aac6010af84d6f80f27ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 100/106] fix: Graph.from_lists: raise ValueError for any
 arguments that are not lists

---
 hatchet/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index b1e1cef..ebd8cfc 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -390,7 +390,7 @@ class Graph:
         """Convenience method to invoke Node.from_lists() on each root value."""
         if not all(isinstance(r, (list, tuple)) for r in roots):
             raise ValueError(
-                "All arguments to Graph.from_lists() must be lists: %s" % roots
+                "All arguments to Graph.from_lists() must be lists: %s" % (roots,)
             )
 
         graph = Graph([Node.from_lists(r) for r in roots])
-- 
2.43.0


From c1f2770e16340d57d702b8edbc3f10455dab6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 101/106] fix: Caliper JSON: choose a default metric the
 profile has

---
 hatchet/readers/caliper_reader.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b214b64..1840625 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -412,6 +412,19 @@ class CaliperReader:
             else:
                 exc_metrics.append(column)
 
+        # set the default metric
+        default_metric = "time"
+        if default_metric not in exc_metrics:
+            if "time (inc)" in inc_metrics:
+                default_metric = "time (inc)"
+            elif inc_metrics or exc_metrics:
+                default_metric = (inc_metrics + exc_metrics)[0]
+
         return hatchet.graphframe.GraphFrame(
-            graph, dataframe, exc_metrics, inc_metrics, metadata=self.metadata
+            graph,
+            dataframe,
+            exc_metrics,
+            inc_metrics,
+            default_metric,
+            metadata=self.metadata,
         )
-- 
2.43.0


From 0f0ea1a27b294c1752d6ff1af18af507e464e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 102/106] fix: GraphFrames made without metadata share one
 metadata dictionary

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index af2cbf4..78fe189 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -60,7 +60,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -91,7 +91,7 @@ class GraphFrame:
         self.exc_metrics = [] if exc_metrics is None else exc_metrics
         self.inc_metrics = [] if inc_metrics is None else inc_metrics
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else metadata
         self.query_engine = QueryEngine()
 
     @staticmethod
-- 
2.43.0


From cd09a0fee558d6561d0aa869cda4ff3e0c2ca89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 103/106] fix: Caliper reader: names of unlabelled nodes depend
 on the files read before

---
 hatchet/readers/caliper_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 1840625..2d7df53 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -19,8 +19,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
 
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
@@ -146,7 +144,7 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        unknown_label_counter = 0
         order = -1
 
         # if there is a node ordering, get the order of each node
-- 
2.43.0


From 2da4511deb695d072e3f64ff37af7f1b75d64aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 104/106] fix: parallel filter: report rows or errors instead
 of hanging

With several processes (the default), filter waited forever if the predicate
raised an error in one of them or if the filtered rows could not be pickled,
as with nodes of graphs of about 100 levels or more. The rows of the result were
in the order in which the processes happened to finish.
---
 hatchet/graphframe.py | 52 +++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 78fe189..da253f8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -40,12 +40,17 @@ except ImportError:
     raise
 
 
-def parallel_apply(filter_function, dataframe, queue):
+def parallel_apply(filter_function, dataframe, connection):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    dataframe and sends the labels of the filtered rows (or the exception raised)
+    via a multiprocessing connection. The rows are not sent, as they contain nodes."""
+    try:
+        filtered_rows = dataframe.apply(filter_function, axis=1)
+        result = dataframe[filtered_rows].index.tolist()
+    except Exception as e:
+        result = e
+    connection.send(result)
+    connection.close()
 
 
 class GraphFrame:
@@ -470,33 +475,46 @@ class GraphFrame:
             # applying pandas filter using the callable function
             if num_procs > 1:
                 # perform filter in parallel (default)
-                queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                connections = []
+                returned_rows = []
                 subframes = np.array_split(dataframe_copy, num_procs)
 
                 # Manually create a number of processes equal to the number of
                 # logical cpus available
                 for pid in range(num_procs):
+                    receiver, sender = mp.Pipe(duplex=False)
                     process = mp.Process(
                         target=parallel_apply,
-                        args=(filter_obj, subframes[pid], queue),
+                        args=(filter_obj, subframes[pid], sender),
                     )
                     process.start()
+                    # only the process itself can send now, so that receiving
+                    # fails (rather than blocks) if it ends without a result
+                    sender.close()
                     processes.append(process)
-
-                # Stores filtered subframes in a list: 'returned_frames', for
-                # pandas concatenation. This intermediary list is used because
-                # pandas concat is faster when called only once on a list of
-                # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
-                for pid in range(num_procs):
-                    returned_frames.append(queue.get())
+                    connections.append(receiver)
+
+                # Collect the labels of the filtered rows in their order
+                error = None
+                for connection in connections:
+                    try:
+                        result = connection.recv()
+                    except Exception as e:
+                        result = e
+                    if isinstance(result, Exception):
+                        error = error or result
+                    else:
+                        returned_rows.extend(result)
+                    connection.close()
 
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                if error is not None:
+                    raise error
+
+                filtered_df = dataframe_copy.loc[returned_rows]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From 7ebf02a21aeadbfd493da95608e23e041a814400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 105/106] fix: drop_index_levels: leave the dataframe alone if
 the function fails

The node index level had become a column already.
---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index da253f8..c51b9b2 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -437,8 +437,8 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        node_df = self.dataframe.reset_index(level="node")
+        agg_df = node_df.groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
-- 
2.43.0


From 3daa468c12bf6737a777f1603842d09e887297d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 106/106] fix: in-place arithmetic: leave self as it was if the
 operation fails

Self had been unified with the other graphframe already, e.g., with rows that
lack an index level of the other one.
---
 hatchet/graphframe.py | 44 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index c51b9b2..d0c4ee8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1626,13 +1626,10 @@ class GraphFrame:
         Return:
             (GraphFrame): self's graphframe modified
         """
-        # create a copy of other's graphframe
-        other_copy = other.copy()
-
-        # unify self graphframe and copy of other graphframe
-        self.unify(other_copy)
-
-        return self._operator(other_copy, self.dataframe.add)
+        # leave self as it is until the result is known
+        result = self.add(other)
+        self.graph, self.dataframe = result.graph, result.dataframe
+        return self
 
     def __add__(self, other):
         """Returns the column-wise sum of two graphframes as a new graphframe.
@@ -1667,13 +1664,10 @@ class GraphFrame:
         Return:
             (GraphFrame): self's graphframe modified
         """
-        # create a copy of other's graphframe
-        other_copy = other.copy()
-
-        # unify self graphframe and other graphframe
-        self.unify(other_copy)
-
-        return self._operator(other_copy, self.dataframe.sub)
+        # leave self as it is until the result is known
+        result = self.sub(other)
+        self.graph, self.dataframe = result.graph, result.dataframe
+        return self
 
     def __sub__(self, other):
         """Returns the column-wise difference of two graphframes as a new
@@ -1698,13 +1692,10 @@ class GraphFrame:
         Return:
             (GraphFrame): self's graphframe modified
         """
-        # create a copy of other's graphframe
-        other_copy = other.copy()
-
-        # unify self graphframe and other graphframe
-        self.unify(other_copy)
-
-        return self._operator(other_copy, self.dataframe.div)
+        # leave self as it is until the result is known
+        result = self.div(other)
+        self.graph, self.dataframe = result.graph, result.dataframe
+        return self
 
     __itruediv__ = __idiv__
 
@@ -1731,13 +1722,10 @@ class GraphFrame:
         Return:
             (GraphFrame): self's graphframe modified
         """
-        # create a copy of other's graphframe
-        other_copy = other.copy()
-
-        # unify self graphframe and other graphframe
-        self.unify(other_copy)
-
-        return self._operator(other_copy, self.dataframe.mul)
+        # leave self as it is until the result is known
+        result = self.mul(other)
+        self.graph, self.dataframe = result.graph, result.dataframe
+        return self
 
 
 class InvalidFilter(Exception):
-- 
2.43.0

