import json
PD="artemis/_utilities/pd_calculator.py"; OPS="artemis/_utilities/ops.py"
M="artemis/interactions_methods/_method.py"
PDM="artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py"
FR="artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
GW="artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py"
SJ="artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py"
CM="artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"
SS="artemis/interactions_methods/model_specific/gb_trees/_split_score.py"
HD="artemis/_utilities/_handler.py"
IPD="artemis/importance_methods/model_agnostic/_pdp.py"
IPM="artemis/importance_methods/model_agnostic/_permutational_importance.py"
IMD="artemis/importance_methods/model_specific/_minimal_depth.py"
ISS="artemis/importance_methods/model_specific/_split_score.py"
AD="artemis/additivity/_additivity_meter.py"; CP="artemis/comparison/_method_comparator.py"
VZ="artemis/visualizer/_visualizer.py"; VC="artemis/visualizer/_configuration.py"
PM="artemis/_utilities/performance_metrics.py"; ZN="artemis/_utilities/zenplot.py"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Single-feature partial dependence is the averaged prediction",
 "For every row-wise model, every dataset without missing values and every batch size, the partial dependence value the calculator reports for a feature at one of its observed values equals the mean prediction over the dataset with that feature set to that value in every row. This holds after any sequence of calculation requests (any feature subsets, orders and repeats), looking values up returns them in the requested order, and features never requested stay unset.",
 ["inputs","histories","configurations"],"all models acting row by row, all datasets (any number of rows, columns, distinct values), all batch sizes, all call sequences",
 "The runnable tests only compare a rank of two importances on one toy dataset; they never compare a PD value with its definition, nor vary batch size, feature order or call history.",
 [PD],[("calculate_pd_single / fill_pd_single / get_pd_single",PD),("get_index",PD)],[("pd_single","cache: feature -> observed values and PD values (NaN = not computed)",PD)],["PartialDependenceCalculator.pd_single","get_pd_single"])
p("C02","Pairwise partial dependence is the averaged prediction, in either order",
 "For every row-wise model, dataset without missing values and batch size, the pairwise partial dependence value reported for features f and g at values (u, v) equals the mean prediction over the dataset with f set to u and g set to v in every row, after any sequence of requests, for all value combinations or for the combinations observed in the data. Asking for the pair as (f, g) or (g, f), with values given in the matching order, yields the same numbers.",
 ["inputs","histories","configurations"],"all row-wise models, datasets, batch sizes, pair lists in any order and orientation, both combination modes, all call sequences",
 "No runnable test reads a pairwise PD value; the PD calculator tests check only for NaN-ness and are not runnable offline.",
 [PD,ZN],[("calculate_pd_pairs / fill_pd_pairs / get_pd_pairs / _get_pair_key / reorder_pair_values",PD),("get_pd_pairs_values",ZN)],[("pd_pairs","cache: (f,g) -> value grids and PD matrix",PD)],["PartialDependenceCalculator.pd_pairs","get_pd_pairs","get_pd_pairs_values"])
p("C03","Complement partial dependence is the averaged prediction per row",
 "For every row-wise model, dataset without missing values and batch size, the all-but-one partial dependence value reported for feature f at data row i equals the mean, over all rows j of the dataset, of the prediction for row i with feature f replaced by its value in row j. This holds after any sequence of requests and features never requested stay unset.",
 ["inputs","histories","configurations"],"all row-wise models, datasets (any index labels), batch sizes, feature lists, call sequences",
 "No runnable test reads these values; they only feed the one-vs-all statistic, which no runnable test compares with its definition.",
 [PD],[("calculate_pd_minus_single / fill_pd_minus_single / get_pd_minus_single",PD)],[("pd_minus_single","cache: feature -> per-row PD values",PD)],["get_pd_minus_single"])
p("C04","Friedman H-statistic values follow their definition",
 "After fitting, the value reported for each pair {f, g} equals the sum over data rows of (centred PD of the pair minus centred PDs of f and g) squared, divided by the sum of squared centred pair PD, and the one-vs-all value of f is the same with the predictions in place of the pair PD and the complement PD in place of g. With normalisation off it is the square root of the mean squared numerator, and an undefined 0/0 value is reported as 0.",
 ["inputs","configurations"],"all row-wise models, datasets, feature subsets and orders, batch sizes, normalised or not, fresh or reused PD calculator",
 "The only runnable test of the method looks at its importance column; the reported statistic itself is never compared with the formula.",
 [FR,OPS,PDM],[("_calculate_hstat_value, _calculate_ovo_interactions_from_pd, _calculate_ova_interactions_from_pd",FR),("center",OPS)],(),["FriedmanHStatisticMethod.ovo","FriedmanHStatisticMethod.ova"])
p("C05","Greenwell interaction values follow their definition",
 "After fitting, the value for a pair {f, g} is the average of two sample standard deviations: that of the conditional importance of g over the observed values of f, and that of the conditional importance of f over the observed values of g. Conditional importance is the sample standard deviation of the pairwise PD slice for a numerical feature and a quarter of its range for a categorical one, and a value that is undefined because a feature has a single observed value is reported as 0.",
 ["inputs","configurations"],"all row-wise models, datasets with numerical and categorical columns in any combination, feature subsets and orders",
 "No runnable test fits this method; the offline ones check only column names and ordering.",
 [GW,OPS],[("_calculate_ovo_interactions_from_pd, _calc_conditional_imp",GW),("split_features_num_cat",OPS)],(),["GreenwellMethod.ovo"])
p("C06","PD-based importance is the spread of the PD profile",
 "The partial-dependence importance of a feature is the population standard deviation of its PD profile over its observed values if the feature is numerical, and a quarter of the profile's range if it is categorical. It is the same whether computed stand-alone or as part of a PD-based interaction fit on the same data, and exactly the requested features are listed.",
 ["inputs","configurations"],"all row-wise models, datasets, feature subsets and orders, with or without a supplied PD calculator",
 "Runnable tests compare two importances by rank on one toy dataset with one informative column.",
 [IPD,OPS],[("_pdp_importance, _calc_importance",IPD),("split_features_num_cat",OPS)],(),["PartialDependenceBasedImportance.importance","feature_importance of PD-based methods"])
p("C07","Additivity index follows its definition",
 "The additivity index equals one minus the ratio of the squared differences between predictions and the sum of mean prediction and centred single-feature PD values, to the squared centred predictions, all summed over the data used. It therefore never exceeds 1, and equals 1 when the predictions are a sum of single-feature functions.",
 ["inputs","configurations"],"all row-wise models with non-constant predictions, all datasets, any sample size and batch size, with or without a supplied PD calculator",
 "No runnable test fits the meter.",
 [AD],[("_calculate_additivity",AD)],(),["AdditivityMeter.fit result","additivity_index","full_result"])
p("C08","Performance-based interaction measures joint minus separate corruption",
 "The performance-based interaction of f and g is the mean over the requested repetitions of the absolute value of: the change in performance when f and g are shuffled jointly by one random row permutation, minus the changes when f alone and g alone are each shuffled by a random permutation. Every change is measured against the performance on the intact data with all other columns intact, and the number of repetitions is exactly as requested.",
 ["inputs","configurations","histories"],"all models, datasets, metrics (regression and classification), repetition counts, feature subsets, random states",
 "No runnable test fits this method; random output makes example tests useless for the formula.",
 [SJ],[("_perf_based_ovo, _inter, _permute_score, _neg_if_class",SJ)],(),["SejongOhMethod.ovo"])
p("C09","Permutation importance corrupts exactly one column at a time",
 "The permutation importance of a feature is the mean over the requested repetitions of the metric on data in which that column alone is randomly permuted and every other column is intact, minus the metric on the intact data, with the sign flipped for classification metrics. Omitting the feature list means all columns, and exactly the requested features are listed.",
 ["inputs","configurations","histories"],"all models, datasets, metrics, repetition counts, feature lists",
 "The runnable test only checks that an informative column outranks a constant one; leakage of an earlier corruption or a wrong sign for classification metrics is invisible.",
 [IPM,PM],[("_permutation_importance, _corrupted_scores, _neg_if_class",IPM)],(),["PermutationImportance.importance","SejongOhMethod.feature_importance"])
p("C10","Conditional minimal depth is read correctly off every tree",
 "For every tree of a fitted scikit-learn forest and ordered feature pair (f, g) both used in it, the recorded value is the minimum over the shallowest nodes splitting on f of (depth of the shallowest g-split strictly inside that node's subtree, minus the node's depth, minus one), a node without such a split contributing instead the depth difference to its subtree's last node, and it is recorded as an occurrence exactly when some such split exists. The reported pair value is the mean over the trees in which both features split and the occurrence count is the sum over trees.",
 ["inputs"],"all fitted forests: any number of trees, shapes, depths and feature usage",
 "No runnable test fits this method; the offline tests check only the table shape.",
 [CM],[("_bfs, _next_level, _split_var_to_ids, _append_nodes_to_split_var",CM),("_conditional_minimal_depth, _calculate_maximal_id_in_subtree, _f_2_split_nodes_in_f_1_subtree",CM),("_summarise_results",CM)],(),["ConditionalMinimalDepthMethod.ovo","raw_result_df"])
p("C11","Minimal-depth importance averages each tree's shallowest split",
 "The minimal-depth importance of a feature is the mean, over the trees in which it splits at least once, of the depth of its shallowest split (the root has depth 0). Exactly the features that split somewhere are listed, under their own names.",
 ["inputs"],"all fitted forests",
 "No runnable test computes it.",
 [IMD,CM],[("importance, _make_column_dict",IMD),("_bfs",CM)],(),["MinimalDepthImportance.importance"])
p("C12","Split-score interactions aggregate exactly the right parent-child splits",
 "For an xgboost or lightgbm model, each non-root split node is associated with its true parent's feature, gain and cover and with its true depth (root 0), and counts as an interaction exactly when its gain exceeds its parent's and the two features differ. The value reported for an ordered (parent, child) feature pair is the selected metric (mean or sum of gain or cover, or mean depth) over exactly those nodes, or over all non-root splits when that restriction is switched off.",
 ["inputs","configurations"],"all supported boosted tree ensembles (any shapes, including single-split trees), all interaction metrics, restriction on or off",
 "No runnable test fits this method.",
 [SS,HD],[("_prepare_stats, _calculate_full_result, _get_summary, _get_ovo",SS),("_get_unified_trees_df",HD)],(),["SplitScoreMethod.full_result","full_ovo","ovo"])
p("C13","Split-score importance computes the selected metric over all splits",
 "For a unified boosted-tree table, the importance of a feature under the selected metric equals the mean or sum of gain or cover, the mean depth, the gain-weighted mean depth, the number of trees it roots, or that number weighted by its share of the total root gain, over all split nodes using the feature. Leaves never contribute, and only requested features are listed when a list is given.",
 ["inputs","configurations"],"all unified tree tables, all eight metrics, optional feature lists",
 "No runnable test computes it.",
 [ISS,HD],[("_calculate_all_feature_importance, _calculate_basic_metrics, _calculate_root_metrics, _calculate_mean_weighted_depth_metric, _select_metric",ISS),("_calculate_depth_for_one_tree",ISS)],(),["SplitScoreImportance.importance"])
p("C14","Result tables list every requested pair or feature once, best first",
 "After fitting a model-agnostic method, the pairwise table has exactly one row per unordered pair of requested features (all columns when none are given), and the importance and one-vs-all tables exactly one row per requested feature. Every result table of every method is ordered from strongest to weakest: descending for strengths and ascending for depth-like measures (the conditional minimal depth table by occurrence count first), and each row's value belongs to that row's features.",
 ["inputs","configurations"],"all methods, models, datasets, feature subsets in any order, metrics",
 "The runnable tests look at the set of features of one importance table only.",
 [PDM,FR,GW,SJ,CM,SS,IPD,IPM,IMD,ISS],[("combinations over features_included",PDM),("sort_values in each table builder",FR),("_select_metric",ISS)],(),["ovo","ova","feature_importance"])
p("C15","Fitting, comparing and plotting never modify the caller's data",
 "No fit, importance, additivity, comparison or plot call changes the caller's dataset, targets, feature list, model tables or PD calculator inputs, and plotting or comparing leaves a fitted method's result tables unchanged. Every result is computed on private copies.",
 ["inputs","histories"],"all public entry points and all their inputs",
 "No test compares inputs before and after a call.",
 [SJ,IPM,PD,AD,SS,VZ,CP],[("copies before assignment",SJ),("X_copy_permuted",IPM),("ovo.copy()",VZ)],(),["X, y_true, features, trees_df before and after"])
p("C16","Sampling uses n genuine rows and keeps targets aligned",
 "When a sample size n is given, every method works on exactly n distinct rows of the caller's dataset, and each sampled row keeps its own target value whatever the dataset's index labels and whether targets are an array or a Series. Without n, the whole dataset is used in its original order.",
 ["inputs","configurations"],"all datasets (any unique or shuffled index labels), target containers, sample sizes, random states",
 "Runnable tests never sample; offline ones check only the sample length with a default index.",
 [OPS,SJ,PDM,AD,IPD],[("sample_if_not_none, sample_both_if_not_none",OPS)],(),["X_sampled","y_sampled"])
p("C17","A fixed random_state makes every result reproducible",
 "Two runs of the same method with the same integer random_state on the same model and data give identical samples, interaction tables and importance tables, regardless of the state of any global random generator. All randomness of a fit comes from the method's own seeded generator.",
 ["inputs","configurations","histories"],"all methods taking random_state, all inputs, any prior use of global generators",
 "No test fits twice with the same random_state.",
 [M,SJ,IPM,AD,PDM,OPS],[("_random_generator = np.random.default_rng(random_state)",M),("PermutationImportance random_state",SJ)],(),["ovo","feature_importance","X_sampled"])
p("C18","Unusable states and inputs are refused with the documented error",
 "Plotting, comparing or looking up a value on a method that was never fitted raises the not-fitted error, and a visualisation the method does not support raises the visualisation error without drawing. A PD calculator built for another model or other data is rejected with ValueError, cover metrics on lightgbm models and models of unsupported packages are rejected with their own errors, minimal-depth importance without its tree data raises its own error, and every fitted method accepts all of its documented plot types.",
 ["inputs","configurations","histories"],"all methods, all visualisation type strings, all mismatching calculators, metrics and model classes",
 "Runnable tests exercise no refusal path.",
 [M,FR,CM,SS,VZ,VC,PDM,AD,IPD,IMD,HD,CP],[("plot guards and _compare_ovo",M),("Visualizer.accepts",VZ),("accepted_visualizations",VC),("pd_calculator checks",PDM),("_check_metrics_with_available_info",SS)],(),["exceptions raised by plot, fit, importance, summary"])
p("C19","Comparisons look up the same pair in both methods, symmetrically",
 "Looking up the interaction of two features returns the same number for both argument orders, namely the value in that pair's row (for direction-sensitive methods one well-defined value per unordered pair), and distinct pairs are never merged whatever the feature names. A comparison of two fitted methods always describes those two methods: correlations are symmetric in the methods, equal 1 for identical rankings, and are never left over from an earlier comparison.",
 ["inputs","histories"],"all fitted methods, feature names (including names that concatenate ambiguously), sequences of comparisons with one comparator",
 "No runnable test compares methods.",
 [M,CM,CP],[("interaction_value, _compare_ovo",M),("_compare_ovo",CM),("_rank_interaction_values_encoded, _alphabetical_order_pair, comparison_plot",CP)],(),["interaction_value","correlations","comparison_plot"])
p("C20","Plots show the fitted values, consistently ordered and scaled",
 "The heatmap places each pair's value in that pair's cell (both cells for undirected methods) with each feature's importance on the diagonal, using one common feature order for rows and columns. The interaction graph and bar charts are drawn from the same table in the method's own strength direction, including inside the summary plot: graph edge widths lie between 0 and the maximum width and grow with interaction strength, interactions weaker than the relevance threshold are never labelled, and bar charts show the first rows of the table.",
 ["inputs","configurations"],"all result tables with at least two distinct values, all methods, thresholds, top_k",
 "No runnable test plots anything.",
 [VZ],[("plot_heatmap, order_heatmap, _feature_importance_diag",VZ),("_interactions_to_edge_widths and helpers",VZ),("plot_summary",VZ)],(),["data handed to seaborn, networkx and pandas plotting"])
p("C21","Built-in metrics compute their textbook values and direction",
 "For equally long targets and predictions, the squared-error metric is the mean of squared differences, the root variant its square root, and accuracy the fraction of equal entries; the first two apply to regression and are better when smaller, the last applies to classification and is better when larger. Argument order does not matter.",
 ["inputs"],"all target and prediction vectors of equal positive length",
 "No test checks a metric value.",
 [PM],[("MSE, RMSE, Accuracy, applicable_to",PM)],(),["Metric.calculate","Metric.applicable_to"])
p("C22","The prediction actually explained is the one the caller asked for",
 "Partial-dependence based methods, their importance and the additivity meter query exactly the caller's prediction function when one is given, otherwise the probability of the second class when the model offers probabilities, otherwise its plain prediction. The model is only ever queried with tables having the dataset's columns in the dataset's order.",
 ["inputs","configurations"],"all models with predict and/or predict_proba, with or without an explicit prediction function",
 "Runnable tests never pass a prediction function and never look at what the model is asked.",
 [OPS,PDM,IPD,AD,PD],[("get_predict_function, yhat_default, yhat_proba_default",OPS)],(),["calls reaching predict / predict_proba / predict_function"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
