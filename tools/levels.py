TECH = "contract-based deductive verification of the real functions (pyvc VC generator over /repo's source, z3 back end); executable contracts on the real code as cross-check and counterexample source"
BOUND = "executable contracts on the real functions (bounded stand-in for functions outside the verifier's reach)"
DEFAULT = ("exploration", BOUND, "bounded: generated inputs against the definition; never counted as proved")
BASE = " Trusted: pyvc, z3, the library models listed in the evidence, floats as reals, models acting row by row."


def proof(what):
    return ("proof", TECH, what + BASE)


LEVELS = {
    "C01": proof("Every obligation of calculator construction, calculate/fill/get for single features is discharged for all datasets, models, batch sizes and histories."),
    "C02": proof("Every obligation of calculator construction, calculate/fill/get for pairs and pair keys is discharged for all datasets, models, batch sizes and histories; get_pd_pairs_values is bounded."),
    "C03": proof("Every obligation of calculator construction, calculate/fill/get for complements is discharged for all datasets, models, batch sizes and histories."),
    "C04": proof("fit of the H-statistic against its formula, pairwise and one-vs-all, normalised or not, all feature lists; a user-supplied calculator is bounded."),
    "C05": proof("fit of Greenwell's method against its formula for every combination of feature kinds and all feature lists."),
    "C06": proof("importance against its formula for all datasets and feature lists; a user-supplied calculator is bounded."),
    "C07": proof("fit of the meter against its formula, plus the two lemmas (never above 1, equal to 1 for additive predictions)."),
    "C08": proof("fit of the performance-based method against its definition for any model and any metric, all feature lists and repetition counts."),
    "C09": proof("permutation importance, stand-alone and inside the interaction fit, against its definition for any model and metric."),
    "C10": proof("Depth-first numbering of any tree, the level-by-level walk, the per-tree algorithm with its helpers, the collection over the forest, the summary table and fit, each for all trees and forests, with the lemma that subtrees are intervals."),
    "C11": proof("the level-by-level walk of every tree, the collection over the forest and importance against its definition, for all forests."),
    "C12": proof("fit of the split-score method for xgboost and lightgbm tree tables, every metric, both definitions of an interaction: the walk over each tree (loop invariant), the values, the listed pairs and the order; and the unification of dumped trees."),
    "C13": proof("importance for every metric and feature list against its definition over the splits of the tree table, with depths known or worked out (loop invariant), rows, completeness and order; and the unification of dumped trees."),
    "C14": proof("tables of the model-agnostic methods and of both split-score tables: rows, values, order; and the conditional-minimal-depth summary."),
    "C15": proof("frame conditions of every model-agnostic and split-score fit and importance; and of the conditional-minimal-depth fit; of graphs, heatmaps and bar charts, and of comparing methods; the lollipop chart and the zenplot are bounded."),
    "C16": proof("sampling functions and every fit that takes n."),
    "C17": proof("effect conditions of every model-agnostic fit and importance: each draw is made on the method's own seeded generator."),
    "C18": proof("never-fitted look-ups, plots and comparisons, unsupported visualisations, foreign calculators, cover metrics, minimal depth without trees, unsupported packages; drawing of every supported plot are bounded."),
    "C19": proof("look-ups of every method (for conditional minimal depth: the row of the unordered pair, whose group holds exactly its rows), correlation of the two rankings (symmetric, pairs never merged), the table of correlations, the comparison plot and the summary after any earlier one; assumed: pandas corr and category codes; coefficient values and methods fitted on different pairs are bounded."),
    "C20": proof("interaction graphs (edges, widths, labels) and bar charts of every method, heatmaps (cells, diagonal, one common order), parts of the summary and the conditional bar chart, drawn through its plot call for any fitted table; the lollipop chart is bounded."),
    "C21": proof("all metrics, all vectors."),
    "C22": proof("prediction choice and queried columns for the calculator and the additivity meter."),
}
