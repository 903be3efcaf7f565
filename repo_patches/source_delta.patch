From e696f359f07874a718a14fc939dbfe5ecb0a135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/36] fix: report infeasible records after the parallel loop
 instead of raising inside it

An exception raised inside a numba prange body is lost or turned into a
SystemError depending on the number of threads, leaving zeros for the records
of the affected chunks.
---
 cheval/core.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..bef5e75 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -339,15 +339,22 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+
+    # Exceptions cannot leave a parallel loop, so infeasible rows are reported afterwards
+    for i in range(n_rows):
+        if ls_array[i] <= 0:
+            raise UtilityBoundsError("MNL utilities all exceeded minimum value (Logsum == 0.0)")
     return result, ls_array
 
 
@@ -364,11 +371,17 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    # Exceptions cannot leave a parallel loop, so infeasible rows are reported afterwards
+    if check_infeasible:
+        for i in range(n_rows):
+            if top_ls_array[i] <= 0:
+                raise UtilityBoundsError("MNL utilities all exceeded minimum value (Logsum == 0.0)")
+
     return result, top_ls_array, nested_ls_terms
 
 
@@ -388,20 +401,26 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+
+    # Exceptions cannot leave a parallel loop, so infeasible rows are reported afterwards
+    for i in range(n_rows):
+        if ls_array[i] <= 0:
+            raise UtilityBoundsError("Nested logit top-level logsum is 0.0")
     return result, ls_array
 
 
@@ -420,12 +439,18 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    # Exceptions cannot leave a parallel loop, so infeasible rows are reported afterwards
+    if check_infeasible:
+        for i in range(n_rows):
+            if top_ls_array[i] <= 0:
+                raise UtilityBoundsError("Nested logit top-level logsum is 0.0")
+
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 022a67afae9bad2533d99f165d47b27daf012270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 02/36] fix: draw the random numbers of worker_weighted_sample
 outside the parallel function

np.random.uniform/randint with a size argument are parallelised inside a
parallel=True function, where each thread has its own unseeded generator, so
results were not reproducible. Also stop unpacking the sampled array as a tuple.
---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index bef5e75..765ff3f 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -308,19 +308,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From 2b2b237d4519e5d8c3d7557baf6479e78faa8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 03/36] fix: reject duplicate target rows or columns in
 fast_indexed_add

Two cells mapped to the same target are updated by different threads without
synchronisation, silently losing additions.
---
 cheval/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/core.py b/cheval/core.py
index 765ff3f..d1b9a23 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -467,12 +467,14 @@ def fast_indexed_add(out: NDArray, addition: NDArray, row_index: NDArray = None,
     else:
         assert len(row_index) == rows_a
         assert row_index.min() >= 0 and row_index.max() < rows_o
+        assert len(np.unique(row_index)) == rows_a, "Row index cannot contain duplicates"
 
     if col_index is None:
         assert cols_a == cols_o
     else:
         assert len(col_index) == cols_a
         assert col_index.min() >= 0 and col_index.max() < cols_o
+        assert len(np.unique(col_index)) == cols_a, "Column index cannot contain duplicates"
 
     ri_is_none, ci_is_none = row_index is None, col_index is None
 
-- 
2.43.0


From 3aa4ac217b4d909381a7ee45ee41080d8f70ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 04/36] fix: never sample a zero-probability alternative when
 probabilities round below the draw

When the cumulative probability ends slightly below 1, a draw above it fell
back to the last alternative even if that one has zero probability.
---
 cheval/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cheval/core.py b/cheval/core.py
index d1b9a23..28aae7c 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,15 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_positive = len(p_array) - 1
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_positive = index
         index += 1
-    return len(p_array) - 1
+    return last_positive  # Only if rounding makes the probabilities sum to slightly less than the draw
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -62,6 +65,9 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
 
     ncols = len(cps)
 
+    # Rounding can make the last cumulative probability slightly less than the draw
+    r = min(r, cps[ncols - 1])
+
     lower_bound, upper_bound = 0, ncols - 1
     while (upper_bound - lower_bound) > 1:
         mid_index = np.uint32((upper_bound + lower_bound) // 2)
-- 
2.43.0


From 600d200ea3eebf20c40d4c91e1a785753d04561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/36] fix: evaluate utilities on a copy of the partial
 utility table

The expressions were accumulated into the cached table itself, so running a
model twice with clear_scope=False counted every expression twice.
---
 cheval/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..177efaa 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,7 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        utilities = to_numpy(self._partial_utilities).copy()  # Partial utilities must not be changed by a run
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From 63e7e9cc0c951a24ed2771dec9f68f1746ddf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/36] fix: discard partial utilities when the decision units
 change

The cached table kept the previous units' rows, so results were computed for
the wrong number of records, or silently added to unrelated records.
---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 177efaa..8c1bdd7 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -235,6 +235,7 @@ class ChoiceModel(object):
             if isinstance(symbol, NumberSymbol):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
+        self._cached_utils = None  # Partial utilities belong to the previous decision units
 
         if isinstance(item, pd.Index):
             self._decision_units = item
-- 
2.43.0


From 87a3e75076fdf9bb47288efdcb4fd444d129e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/36] fix: invalidate cached columns and utilities when a
 nested choice is added

ChoiceNode.add_choice() left the partial utilities of the smaller tree in
place, so they did not match the choices any more.
---
 cheval/model.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 8c1bdd7..83416dd 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,6 +77,10 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        # Any cached items are not valid for the new set of choices
+        self._cached_cols = None
+        self._cached_utils = None
+
         expected_namespace = name
         if parent is None and name in self._all_nodes:
             old_node = self._all_nodes.pop(name)  # Remove from model dictionary
@@ -108,11 +112,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -131,11 +130,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From cf8a532434a2f9982fa1e6a2d062fe4f8ef88210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 08/36] fix: remove the descendants of a replaced choice from
 the tree

They stayed in the node dictionary as choices whose parent is no longer part
of the model.
---
 cheval/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index 83416dd..a7ec1ec 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -90,6 +90,10 @@ class ChoiceModel(object):
             if expected_namespace in self._all_nodes:
                 del self._all_nodes[expected_namespace]  # Remove from model dictionary
 
+        # Children of a replaced node get replaced along with it
+        for namespace in [key for key in self._all_nodes if key.startswith(expected_namespace + '.')]:
+            del self._all_nodes[namespace]
+
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
-- 
2.43.0


From f16c9a6933218975bda8c9ed1d2e96165bea4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 09/36] fix: leave the tree unchanged when the parameters of a
 new choice are rejected

The choice of the same name was removed before the new one was checked, so a
rejected call dropped an existing choice from the model.
---
 cheval/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index a7ec1ec..090718a 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,6 +77,9 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        level = 1 if parent is None else (parent.level + 1)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
         # Any cached items are not valid for the new set of choices
         self._cached_cols = None
         self._cached_utils = None
@@ -94,8 +97,6 @@ class ChoiceModel(object):
         for namespace in [key for key in self._all_nodes if key.startswith(expected_namespace + '.')]:
             del self._all_nodes[namespace]
 
-        level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
 
         return node
-- 
2.43.0


From d5354dd91fb93b1e2ac1de3318600d79403d1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 10/36] fix: accept any iterable of names in add_choices

Counting the names exhausted a generator, so that no choice was added.
---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 090718a..1c88d71 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -135,6 +135,7 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
+        names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From f944e329ffe15a96d4f14410277788dcb1d6c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 11/36] fix: convert the results of nested models to categories
 or other types

Neither pd.Categorical() nor astype() accept a MultiIndex, so run_discrete()
failed for nested models with its default arguments.
---
 cheval/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 1c88d71..b072a8b 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -539,10 +539,14 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
-        elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+
+        choices = self.choices
+        if choices.nlevels > 1:
+            choices = choices.to_flat_index()  # A MultiIndex cannot be cast
+        if astype == 'category':
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From d901e727f3e8480e77244f72739d2b2d99bd41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 12/36] fix: treat a debug_id of 0 (or another falsy label) as
 set

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index b072a8b..5e15332 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -461,7 +461,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         utilities = to_numpy(self._partial_utilities).copy()  # Partial utilities must not be changed by a run
@@ -500,11 +500,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From 1b2a1c23db98a71def41743efb6d855c6406fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/36] fix: apply allow_links of a table symbol to
 LinkedDataFrames

The check was inverted: allow_links=False rejected plain DataFrames and accepted linked ones.
---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..5c18353 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From 6bc766c628b7f9a3c38aae93429a895f685d2e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/36] fix: evaluate aggregations over a directly linked table
 in utility expressions

`table.link.sum(x)` has one item in its chain and was looked up as a column, so
that the aggregation was ignored and the lookup failed.
---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 5c18353..0070a35 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -375,7 +375,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From dbbb07880929deeca88f1dce789076fb2374ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/36] fix: place a matrix that covers part of both the rows
 and the columns

Two integer indexers address pairs of cells instead of a block, so assigning
such a matrix failed or (for a square one) filled the wrong cells.
---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 0070a35..2751039 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -463,7 +463,10 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
-                matrix[row_indexer, col_indexer] = data
+                if not rows_match and not cols_match:
+                    matrix[np.ix_(row_indexer, col_indexer)] = data
+                else:
+                    matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From c310e68e3d2c72672e8e3ea726d4a894addf0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 16/36] fix: visit the operand of a unary minus in expressions

The symbols, links and unsupported syntax below it were never seen, so that
`-symbol` failed with a KeyError during evaluation.
---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From a8298f78185bb2cf786da1767bef5abb5a7d074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 17/36] fix: reject unsupported syntax when an expression is
 parsed

`a is b` and `a in b` silently evaluated to a constant, additional arguments of
aggregations were dropped, and the arguments of lambdas, comprehensions or
keywords failed with unrelated errors (or not at all) during evaluation.
---
 cheval/parsing/ast_transformer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..816509f 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -13,7 +13,11 @@ from .expr_items import ChainedSymbol, EvaluationMode
 
 # Only nodes used in expressions are included, due to the limited parsing
 _UNSUPPORTED_NODES: Tuple[type] = (ast.Load, ast.Store, ast.Del, ast.IfExp, ast.Subscript, ast.ListComp, ast.DictComp,
-                                   ast.Starred)
+                                   ast.Starred, ast.Lambda, ast.Set, ast.SetComp, ast.GeneratorExp, ast.JoinedStr,
+                                   ast.Await, ast.Yield, ast.YieldFrom)
+if hasattr(ast, 'NamedExpr'):
+    _UNSUPPORTED_NODES += (ast.NamedExpr,)
+_UNSUPPORTED_COMPARISONS: Tuple[type] = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
 _NAN_REPRESENTATIONS = {'none', 'nan'}
 _NUMEXPR_FUNCTIONS = set(nee.functions.keys())
 _SUPPORTED_AGGREGATIONS = {
@@ -82,6 +86,11 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        # NumExpr would evaluate these with Python semantics, giving a constant
+        for op in compare_node.ops:
+            if isinstance(op, _UNSUPPORTED_COMPARISONS):
+                raise UnsupportedSyntaxError(op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
@@ -123,6 +132,9 @@ class ExpressionParser(ast.NodeTransformer):
         if func_name not in _NUMEXPR_FUNCTIONS:
             raise UnsupportedSyntaxError("Function '%s' not supported." % func_name)
 
+        if len(node.keywords) > 0:
+            raise UnsupportedSyntaxError("Keyword args are not supported inside functions")
+
         node.args = [self.__get_visitor(arg)(arg) for arg in node.args]
         node.starargs = None
         if not hasattr(node, 'kwargs'):
@@ -268,6 +280,8 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
+        if len(call_node.args) != 1:
+            raise UnsupportedSyntaxError("Aggregations need exactly one expression")
         arg_expression = astor.to_source(call_node.args[0])
 
         if name in self.simple_symbols:
-- 
2.43.0


From 66fc2e2fea2d05c26848ad3b05f33c4cfb44aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 18/36] fix: give every chain of an expression a unique
 substitution name

The 12th chain of symbol `a` and the third of `a1` were both named `__sub_a12`
or similar, so one of them was evaluated with the data of the other.
---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..294d944 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From dee8eb612f6647eaccee9ec75c8d1879f8c3880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 19/36] fix: reject dict literals and choice filters outside of
 utility expressions

The mode check was inverted, so LinkedDataFrame.evaluate() failed with a KeyError
for dict literals; and a choice filter was silently ignored.
---
 cheval/parsing/ast_transformer.py | 2 +-
 cheval/parsing/expressions.py     | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 816509f..847ec9d 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -184,7 +184,7 @@ class ExpressionParser(ast.NodeTransformer):
         return resovled_keys
 
     def visit_dict(self, node):
-        if not self.mode != EvaluationMode.UTILITIES:
+        if self.mode != EvaluationMode.UTILITIES:
             raise UnsupportedSyntaxError("Dict literals not allowed in this context")
 
         substitution = '__dict%s' % len(self.dict_literals)
diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..254d140 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 from .ast_transformer import ExpressionParser
 from .exceptions import UnsupportedSyntaxError
-from .expr_items import ChainedSymbol
+from .expr_items import ChainedSymbol, EvaluationMode
 
 
 def _split_filter(e: str) -> Tuple[str, Optional[str]]:
@@ -36,8 +36,11 @@ class Expression(object):
     symbols: Set[str] = attr.ib()
 
     @staticmethod
-    def parse(e: str, prior_simple: Set[str] = None, prior_chained: Set[str] = None, mode='cheval') -> Expression:
+    def parse(e: str, prior_simple: Set[str] = None, prior_chained: Set[str] = None,
+              mode=EvaluationMode.UTILITIES) -> Expression:
         split_e, filter_ = _split_filter(e)
+        if filter_ is not None and mode != EvaluationMode.UTILITIES:
+            raise UnsupportedSyntaxError("Choice filters ('@') not allowed in this context")
 
         tree = ast.parse(split_e, mode='eval').body
         transformer = ExpressionParser(prior_simple, prior_chained, mode=mode)
-- 
2.43.0


From 9949bec1ed30520af4b863f8f545d88856cdd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 20/36] fix: keep the value of a parent choice in a dict
 literal that also sets its children

`{A: 1, A._: 2}` reset A to 0, unlike `{A._: 2, A: 1}`.
---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index 254d140..c6aa1d3 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -103,8 +103,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val  # Applies to the children only
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From 2328f07925e80c944c4fa0d68a9be91ed0ace73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 21/36] fix: accept None as a null value in expressions

None is parsed as a constant, not a name, and was passed on to NumExpr as is.
---
 cheval/parsing/ast_transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 847ec9d..525a78a 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -57,6 +57,13 @@ class ExpressionParser(ast.NodeTransformer):
         # Converts text-strings to NumExpr-supported byte-strings
         return ast.Bytes(node.s.encode())
 
+    @staticmethod
+    def visit_constant(node):
+        # None is a constant (instead of a name) since Python 3.8
+        if node.value is None:
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     def visit_unaryop(self, node):
         # Converts 'not' into '~' which NumExpr supports
         if isinstance(node.op, ast.Not):
-- 
2.43.0


From 086429da71db1c5983ad5a8045bbee4f8712b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 22/36] fix: keep the symbols of ungrouped and grouped
 expressions apart

Symbols of grouped or rejected expressions were added to those of the ungrouped
expressions, so they were still required after dropping the group and preval()
did not clear them. It would also clear symbols shared with another group.
---
 cheval/api.py   | 6 +++---
 cheval/model.py | 9 ++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2751039..a719bef 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The sets of used symbols are
+        # modified in-place during parsing, so copies are needed.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
diff --git a/cheval/model.py b/cheval/model.py
index 5e15332..be15701 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -655,13 +655,12 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
+            other_expressions = self._expressions.copy()
+            other_expressions.drop_group(group)
+            other_symbols = set(iter_chain(other_expressions.iterchained(), other_expressions.itersimple()))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - other_symbols - RESERVED_WORDS
 
             for name in symbols_to_clear:
                 del self._scope[name]
-- 
2.43.0


From 14ec6f9d46affe4b80e01ea3c1a871819900d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 23/36] fix: compute the links of a derived frame from its own
 rows

A frame derived with e.g. sort_values(), drop(), sample() or take(), or by slicing
a frame with uncomputed links, kept looking up its links with the rows of the
original frame, so that the values were misaligned or the lookup failed.
---
 cheval/ldf/api.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..7776cea 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -185,13 +185,13 @@ class _LinkMeta:
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame) -> _LinkMeta:
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
+    def copy(self, owner: LinkedDataFrame, indices=None) -> _LinkMeta:
+        copied = self.copy_meta(owner)
 
         if self.flat_indexer is not None:
             copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
@@ -624,8 +624,10 @@ class LinkedDataFrame(DataFrame):
         if method == "groupby":
             self._copy_links(other, reindex=True)
         else:
+            # Links are re-computed from the data of the new frame, unless it is known to have the same rows
+            same_rows = self.index.is_(other.index)
             for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
+                self._links[link_name] = link.copy(self) if same_rows else link.copy_meta(self)
             self._identified_links = other._identified_links.copy()
 
         return self
@@ -642,13 +644,13 @@ class LinkedDataFrame(DataFrame):
             indexer = None
         link_names = set()
         for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
+            self._links[link_name] = link.copy(self, indexer)
             link_names.add(link_name)
         self._identified_links = link_names
 
     def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+            target._links[link_name] = link_entry.copy(target, indexer)
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -683,7 +685,7 @@ class LinkedDataFrame(DataFrame):
 
         # Copy the link data
         for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
+            copied._links[link_name] = link_entry.copy(copied)
 
         return copied
 
-- 
2.43.0


From d335eb970b42242022197c84a3966a93f9838cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 24/36] fix: do not take the links of unrelated rows when
 finalizing a groupby

The rows of aggregated frames that are not found in the parent were linked like
its last row, others like whichever row has the same label; and iterating over
the groups of a frame with a non-unique index failed.
---
 cheval/ldf/api.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7776cea..acc2684 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -185,6 +185,19 @@ class _LinkMeta:
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
 
+    def same_keys(self, frame: LinkedDataFrame, indices: Optional[np.ndarray]) -> bool:
+        """Checks that the rows of a frame are linked in the same way as the given rows of the owner"""
+        if indices is None or np.any(indices < 0):
+            return False
+        if self.self_meta.labels is None or self.self_meta.from_row_labels:
+            return True  # Rows with the same label
+        for label in self.self_meta.labels:
+            if label not in frame or label not in self.owner:
+                return False
+            if not Index(to_numpy(frame[label])).equals(Index(to_numpy(self.owner[label])[indices])):
+                return False
+        return True
+
     def copy_meta(self, owner: LinkedDataFrame) -> _LinkMeta:
         copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
@@ -639,12 +652,16 @@ class LinkedDataFrame(DataFrame):
         this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
         """
         if reindex:
-            indexer = parent.index.get_indexer(self.index)
+            indexer = parent.index.get_indexer(self.index) if parent.index.is_unique else None
         else:
             indexer = None
         link_names = set()
         for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(self, indexer)
+            if reindex and not link.same_keys(self, indexer):
+                # Not a subset of the rows of the parent, e.g. an aggregation
+                self._links[link_name] = link.copy_meta(self)
+            else:
+                self._links[link_name] = link.copy(self, indexer)
             link_names.add(link_name)
         self._identified_links = link_names
 
-- 
2.43.0


From 32478c06fa28dd2f2124eb1df075e43a0558d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 25/36] fix: forget the missing rows of a link when its indexer
 is refreshed

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index acc2684..ce6528a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -151,6 +151,7 @@ class _LinkMeta:
         return self.self_meta.get_indexer(self.owner), self.other_meta.get_indexer(self.other)
 
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
+        self._missing_indices = None
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
             self.other_grouper = group_ints
-- 
2.43.0


From 9c127c454d2df9f1e2c770fa08c1b16d7ad49aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 26/36] fix: compute the grouper of a link before aggregating
 over it

Aggregating over a link that has not been indexed failed, as its grouper is only
computed along with its indexer.
---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ce6528a..a634670 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -575,6 +575,8 @@ class LinkedDataFrame(DataFrame):
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
                 # Aggregate and align the result
+                if top.other_grouper is None:
+                    top.precompute()
                 grouper = top.other_grouper
                 grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
 
-- 
2.43.0


From 89832641b9ccf2fc6c78272ae2f00ee09c458a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 27/36] fix: align the results of an aggregation with the
 groups of the link

A missing key in the other table adds a group, and nth() drops groups, shifting
the results of all following groups to the wrong rows.
---
 cheval/ldf/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index a634670..1af15cf 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -578,7 +578,14 @@ class LinkedDataFrame(DataFrame):
                 if top.other_grouper is None:
                     top.precompute()
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                grouped = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+
+                # Results need to be in the order of the groups, without the group of missing keys (-1) and including
+                # any groups without a result
+                groups = np.arange(grouper.max() + 1)
+                if not grouped.index.equals(Index(groups)):
+                    grouped = grouped.reindex(groups, fill_value=fill_value)
+                grouped_result = to_numpy(grouped)
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From ed98a1128adb7eac4df4f8769ee2af57937abd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 28/36] fix: make temporary_fill_defaults usable as a context
 manager

It never yielded to the with-block.
---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 1af15cf..bb9b13a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -400,7 +400,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From 9a3139e66ec7aa3741a591e980645fdca0000298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 29/36] fix: use the class-level fill defaults for new
 LinkedDataFrames

As documented; they were only used for links to plain DataFrames.
---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index bb9b13a..7623955 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -280,7 +280,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..27e7c14 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -93,5 +93,10 @@ class SeriesFillManager:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def reset_fill_defaults(self):
         self._fill_values = _default_fills.copy()
-- 
2.43.0


From 049d92104aa1b14ab19621e041fbecc0a23680af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 30/36] fix: accept lists of columns or lookups in
 LinkedDataFrame.pivot_table

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7623955..7be742f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -851,7 +851,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From ef9fcab5f6e3f5aef302598d6f02d0e572b51e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 31/36] fix: fill the values of a link to an empty frame

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7be742f..37ed18b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -477,6 +477,8 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
+                if len(series) == 0:
+                    series = np.zeros(1, dtype=series.dtype)  # Nothing to be found, all links are missing
                 series = series[indexer]  # Reorder/duplicate/drop the raw array
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
-- 
2.43.0


From c30ed07205c62026a2cf3b334a86f9a5ad64e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 32/36] fix: accept integer levels in link_to() and report
 mismatched levels

As documented: levels can be specified by position, and a different number of
levels raises a LinkageSpecificationError.
---
 cheval/ldf/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 37ed18b..f6edbcf 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -33,7 +33,7 @@ class _IndexMeta:
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
+        if isinstance(labels, (str, int)):
             labels = [labels]
         elif labels is None:
             from_row_labels = True
@@ -107,7 +107,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('Both sides of a link must have the same number of levels')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From d8001a5cb03e7a0711e0f9efbd92757cd9f4827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 33/36] fix: do not share groups between expression groups that
 have been added

Appending to a group of the sum also appended to the same group of the operand.
---
 cheval/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index a719bef..290ffd4 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -210,9 +210,9 @@ class ExpressionGroup(object):
             if key_in_self and key_in_other:
                 new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
             elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
+                new._subgroups[key] = self._subgroups[key] + ExpressionSubGroup(key)
             elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+                new._subgroups[key] = ExpressionSubGroup(key) + other._subgroups[key]
 
         return new
 
-- 
2.43.0


From a18adb93332ff1a0549a4d93916dff72e512f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 34/36] fix: empty symbols aligned with the choices when the
 choices change

Replacing a choice moves it to the end, so that vectors, tables and matrices
assigned before were silently applied to other choices.
---
 cheval/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index be15701..5c8c27b 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -83,6 +83,9 @@ class ChoiceModel(object):
         # Any cached items are not valid for the new set of choices
         self._cached_cols = None
         self._cached_utils = None
+        for symbol in self._scope.values():
+            if isinstance(symbol, MatrixSymbol) or getattr(symbol, '_orientation', 0) == 1:
+                symbol.empty()  # Data is aligned with the previous choices
 
         expected_namespace = name
         if parent is None and name in self._all_nodes:
-- 
2.43.0


From 3999a5bb34aea7ed8f40e33a28195ef444dbcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 35/36] fix: aggregate all columns in
 LinkedDataFrame.pivot_table if no values are specified

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f6edbcf..ca8ea94 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -825,7 +825,8 @@ class LinkedDataFrame(DataFrame):
         # Construct a new DataFrame from any of the columns or lookups specified
         # in values, index, or columns, and then pivot that
         new_columns = {}
-        value_cols = self._resolve_columns(values)
+        # Like in pandas, all of the columns are aggregated if no values are specified
+        value_cols = self._resolve_columns(self.columns if values is None else values)
         new_columns.update(value_cols)
         index_cols = self._resolve_columns(index)
         new_columns.update(index_cols)
-- 
2.43.0


From 99893823d7a66edea20328c3e396ac29f0c01fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:17 +0000
Subject: [PATCH 36/36] fix: duplicated labels of a matrix silently dropped
 rows or columns of its data

---
 cheval/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 290ffd4..c708150 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -450,7 +450,7 @@ class MatrixSymbol(AbstractSymbol):
                     col_indexer = cols.get_indexer(data.columns)
                     if np.any(col_indexer < 0):
                         raise NotImplementedError("Cannot handle missing columns")
-                    assert len(col_indexer) == data.shape[1]
+                    assert len(np.unique(col_indexer)) == data.shape[1], "Column labels cannot contain duplicates"
                 else:
                     col_indexer = slice(None)
 
@@ -459,7 +459,7 @@ class MatrixSymbol(AbstractSymbol):
                     row_indexer = rows.get_indexer(data.index)
                     if np.any(row_indexer < 0):
                         raise NotImplementedError("Cannot handle missing rows")
-                    assert len(row_indexer) == data.shape[0]
+                    assert len(np.unique(row_indexer)) == data.shape[0], "Row labels cannot contain duplicates"
                 else:
                     row_indexer = slice(None)
 
-- 
2.43.0

