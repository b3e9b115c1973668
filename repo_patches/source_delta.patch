From dbe18a80703b6b5c0d0b221a4d609b5c3dd3ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 01/19] fix: keep sampled rows and targets aligned for any
 index labels

sample_both_if_not_none indexed a numpy target array with X's index labels, so with a
shuffled or non-default index the sampled targets belonged to other rows (or raised IndexError).
---
 artemis/_utilities/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..664affb 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,8 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        rows = X.reset_index(drop=True).sample(n, random_state=random_generator).index
+        return X.iloc[rows], y.iloc[rows] if isinstance(y, pd.Series) else np.asarray(y)[rows]
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From bb6c217a0f7ebb5c174a09dd0e66812cb4d0f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 02/19] fix: make SejongOhMethod feature importance honour
 random_state

The permutation importance drew from an unseeded generator, so two fits with the same
random_state gave different feature_importance tables.
---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 77acb5b5520fe2c9287503e309aa2363d6faed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 03/19] fix: PermutationImportance uses all features when none
 are given

features=None, the documented default, raised TypeError.
---
 .../model_agnostic/_permutational_importance.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..87deb10 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -74,6 +75,7 @@ class PermutationImportance(FeatureImportanceMethod):
         pd.DataFrame
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
+        features = all_if_none(X.columns, features)
         self.feature_importance = _permutation_importance(
             model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
         )
-- 
2.43.0


From c0c0cd87d4ff67fb0b5b19acfbaaa87022c1a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 04/19] fix: comparison_plot shows the correlations of the
 methods being compared

After summary() on one pair of methods, comparison_plot(..., add_correlation_box=True) on
another pair still showed the first pair's correlations.
---
 artemis/comparison/_method_comparator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..2979d64 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -138,11 +138,7 @@ class FeatureInteractionMethodComparator:
 
         if add_correlation_box:
 
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From 3b3371445a701bbc45dae98087481c4c6187c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 05/19] fix: never merge distinct feature pairs whose names
 concatenate alike

Pairs such as (a, ab) and (aa, b), or (a-b, c) and (a, b-c), got the same key.
---
 artemis/comparison/_method_comparator.py                      | 4 +---
 .../random_forest/_conditional_minimal_depth.py               | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 2979d64..6076997 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -228,6 +228,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 
 
 def _alphabetical_order_pair(row):
-    features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
-
-    return "-".join(features_alphabetical)
+    return tuple(sorted([row["Feature 1"], row["Feature 2"]]))
diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..3a14e74 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From 3d2544b684c4fcedadf7c3af0201874d9cb4c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 06/19] fix: GreenwellMethod no longer crashes on a feature
 with a single value

statistics.stdev raised StatisticsError; the value is undefined and is reported as 0,
like other undefined values.
---
 .../partial_dependence_based/_greenwell.py            | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..4f43705 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -1,4 +1,3 @@
-from statistics import stdev
 from typing import List, Optional, Tuple, Callable
 
 import numpy as np
@@ -80,9 +79,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_sample_std, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_sample_std, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -91,4 +90,8 @@ class GreenwellMethod(PartialDependenceBasedMethod):
 
 
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _sample_std(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+
+
+def _sample_std(values: np.ndarray):
+    return np.std(values, ddof=1) if len(values) > 1 else np.nan
-- 
2.43.0


From ae38982966c0a82ac02bcb1c9aa90315e7282a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 07/19] fix: SplitScoreMethod handles models whose trees have
 at most one split

Without any parent-child split the parent columns were never created and fit raised KeyError.
---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..ab3ad58 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From 84752226804e0415bbd6a65415d9f6bc212c34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 08/19] fix: list the most important feature first for
 depth-based split-score importance

mean_depth and mean_weighted_depth are better when smaller (importance_ascending_order), but
the table was sorted in descending order.
---
 artemis/importance_methods/model_specific/_split_score.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..71f2b5f 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -75,8 +75,8 @@ class SplitScoreImportance(FeatureImportanceMethod):
         self.full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
         self.selected_metric = selected_metric
+        self.feature_importance = _select_metric(self.full_result, selected_metric, self.importance_ascending_order)
 
         return self.feature_importance
 
@@ -141,12 +141,12 @@ def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
     )
 
 
-def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
+def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending: bool = False):
     feature_importance = importance_full_result[
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=ascending, ignore_index=True
     )
 
 
-- 
2.43.0


From 77763190528a78a810ad2cb4dc639af03e963c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 09/19] fix: H-statistic fitted with calculate_ova=False can be
 plotted and keeps no stale ova

plot() claimed the method was not fitted, and refitting without ova left the previous
model's one-vs-all table in place.
---
 .../partial_dependence_based/_friedman_h_statistic.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..af47695 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
@@ -176,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From f1381704fd9077d8cb0b496d76e462ac68578ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 10/19] fix: the graph inside the summary plot follows the
 method's strength direction

plot_summary did not pass interactions_ascending_order on, so for depth measures weak
interactions got the widest edges.
---
 artemis/visualizer/_visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..b0bbbb6 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -435,6 +435,7 @@ class Visualizer:
             ovo,
             feature_importance,
             ax=ax2,
+            interactions_ascending_order=interactions_ascending_order,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
             _directed=_directed,
-- 
2.43.0


From b29ca85f7deb337d6a17c408b79ae5c0f5a348d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 11/19] fix: graph edge widths grow with strength for depth
 measures and are never NaN

For ascending measures the strongest interaction (smallest depth) was scaled to 0 and drawn
with no width, like the filtered ones; with no relevant interaction all widths were NaN.
---
 artemis/visualizer/_visualizer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index b0bbbb6..ab1181b 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -601,7 +601,7 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = ovo_copy[self.method].max()
         else:
             ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
 
@@ -614,11 +614,10 @@ class Visualizer:
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
+            ovo_copy[self.method] = 1 - ovo_copy[self.method]
 
     def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
-        ovo_copy[self.method] = ovo_copy[self.method] * max_width
+        ovo_copy[self.method] = (ovo_copy[self.method] * max_width).fillna(0)
 
     @staticmethod
     def order_heatmap(matrix: pd.DataFrame, asc_order: bool) -> pd.DataFrame:
-- 
2.43.0


From 9103710efa30dc15c9fb0a5d35bbd8bff969b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 12/19] fix: graph and heatmap no longer crash on features
 without importance or interactions

A feature that splits but is in no interaction pair (split score), or one never used by the
forest (conditional minimal depth), made plot('graph'), 'heatmap' and 'summary' raise.
---
 artemis/visualizer/_visualizer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ab1181b..ebee820 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -282,6 +282,9 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])
+            importance = feature_importance.set_index("Feature")["Importance"]
         pos = nx.circular_layout(G)
 
         nx.draw(
@@ -290,12 +293,10 @@ class Visualizer:
             ax=ax,
             width=[G[u][v][self.method] for u, v in G.edges()],
             with_labels=True,
-            nodelist=list(feature_importance["Feature"])
-            if feature_importance is not None
-            else None,
+            nodelist=list(G.nodes),
             node_size=[
-                node_size * val / np.max(feature_importance["Importance"])
-                for val in feature_importance["Importance"]
+                node_size * importance.get(f, 0) / np.max(importance)
+                for f in G.nodes
             ]
             if feature_importance is not None
             else node_size,
@@ -592,6 +593,7 @@ class Visualizer:
                         ]["Importance"].values[0],
                 }
                 for f in all_features
+                if (feature_importance["Feature"] == f).any()
             ]
         )
         return var_imp_diag
-- 
2.43.0


From 9c677b03400dfa71610c1fa1eabfea756a8af4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 13/19] fix: conditional minimal depth is correct for trees not
 numbered depth-first

---
 .../_conditional_minimal_depth.py             | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 3a14e74..57dc4bd 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,15 +233,29 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """Efficient, sklearn-like table tree representation. Row = node in the tree, numbered depth-first."""
+    left, right = decision_tree_object.children_left, decision_tree_object.children_right
+    order = _depth_first_order(left, right)
+    new_id = np.append(np.argsort(order), -1)
     return pd.DataFrame({
         "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "left_child": new_id[left[order]],
+        "right_child": new_id[right[order]],
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
+def _depth_first_order(left: np.ndarray, right: np.ndarray):
+    """Node ids in depth-first order, trees grown best-first (max_leaf_nodes) are not numbered this way."""
+    order, stack = [], [0]
+    while len(stack) > 0:
+        node = stack.pop()
+        order.append(node)
+        if left[node] >= 0:
+            stack.extend([right[node], left[node]])
+    return np.array(order)
+
+
 def _conditional_minimal_depth(split_var_to_nodes: dict, depths: np.array, tree_id: int, column_size: int):
     """
     Main algorithm for efficient conditional minimal depth calculation.
-- 
2.43.0


From b2241111a1c95f8441d4ed704f229ecc771bc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:46 +0000
Subject: [PATCH 14/19] fix: a feature named Leaf is not mistaken for a leaf of
 a boosted tree

---
 artemis/_utilities/_handler.py                            | 2 +-
 artemis/importance_methods/model_specific/_split_score.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/_handler.py b/artemis/_utilities/_handler.py
index 16e92d3..d1f15b7 100644
--- a/artemis/_utilities/_handler.py
+++ b/artemis/_utilities/_handler.py
@@ -42,7 +42,7 @@ def _get_unified_trees_df(model, package: str) -> pd.DataFrame:
         trees_df = trees_df.rename(columns=_XGBOOST_COL_DICT).drop(
             columns=["Split", "Missing", "Category"]
         )
-        trees_df["leaf"] = trees_df["split_feature"] == "Leaf"
+        trees_df["leaf"] = trees_df["left_child"].isna()
         trees_df["depth"] = None
 
     elif package == "lightgbm":
diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 71f2b5f..992fa33 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -91,10 +91,9 @@ def _calculate_all_feature_importance(
         features: Optional[List[str]] = None,
         selected_metric: str = SplitScoreImportanceMetric.SUM_GAIN,
 ):
+    trees_df = trees_df.loc[trees_df["leaf"] == False]
     if features is not None:
         trees_df = trees_df.loc[trees_df["split_feature"].isin(features)]
-    else:
-        trees_df = trees_df.loc[trees_df["split_feature"] != "Leaf"]
 
     basic_metrics = _calculate_basic_metrics(trees_df)
     root_metrics = _calculate_root_metrics(trees_df)
-- 
2.43.0


From 6247f677c859c3ec459703252ff2efb524b08ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:46 +0000
Subject: [PATCH 15/19] fix: a feature that roots no tree has root frequency 0
 instead of NaN

---
 artemis/importance_methods/model_specific/_split_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 992fa33..187c110 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -99,7 +99,7 @@ def _calculate_all_feature_importance(
     root_metrics = _calculate_root_metrics(trees_df)
     mean_weighted_depth = _calculate_mean_weighted_depth_metric(trees_df)
 
-    importance_full_result = basic_metrics.join(root_metrics)
+    importance_full_result = basic_metrics.join(root_metrics.reindex(basic_metrics.index, fill_value=0))
     importance_full_result = pd.concat(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
-- 
2.43.0


From 4c1ae5969aad1b1a4306910bd5990f92879c080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:46 +0000
Subject: [PATCH 16/19] fix: split-score importance without matching splits is
 an empty table

---
 artemis/importance_methods/model_specific/_split_score.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 187c110..2ca9ad7 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -132,6 +132,8 @@ def _calculate_root_metrics(trees_df: pd.DataFrame):
 
 
 def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
+    if trees_df.empty:
+        return pd.Series(index=pd.Index([], name="split_feature"), name="mean_weighted_depth", dtype=float)
     return pd.Series(
         trees_df.groupby("split_feature").apply(
             lambda x: np.average(x.depth, weights=x.gain)
-- 
2.43.0


From 253a1b76a8f5999038270061002376d3b07eb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:38 +0000
Subject: [PATCH 17/19] fix: minimal depth importance of a forest without any
 split is an empty table

---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 36044d6a6c0f1e621cc24ea7b1bff68ffabc447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 18/19] fix: the heatmap diagonal shows importances even when
 the table lists (f, f) pairs

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ebee820..e52fdc0 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -188,7 +188,7 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From 7661871daa8dcca33ae16ee23693aff952141be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:43 +0000
Subject: [PATCH 19/19] fix: zenplot names the feature the last panel shows,
 not the one that would follow

---
 .../model_agnostic/partial_dependence_based/_pdp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..e5a2a78 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -279,9 +279,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
-                        ax.set_ylabel(pair[1])
+                        ax.set_ylabel(pair[0])
                     else:
-                        ax.set_title(pair[1], size=10)
+                        ax.set_title(pair[0], size=10)
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0

