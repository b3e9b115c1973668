"""Run-time oracles over histories: a method object that is fitted again describes its latest fit, exactly as a fresh object does.

The first fit and the second differ in one respect at a time (the data, the data changed in place by the caller, the model, the prediction
function, the features), so that nothing of the first may be left over."""
import itertools

import numpy as np

from common import Reg, close, make_X, need, pair_table, subset, table
from artemis._utilities._handler import GBTreesHandler
from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from treeprops import boosted, forest


def half(m, D):
    return np.asarray(m.raw(D)) * 0.5 + 3.0 * (np.asarray(m.raw(D)) > 1)


def same_tables(got, want, keys, val, msg):
    a, b = table(got, keys, val), table(want, keys, val)
    need(set(a) == set(b), f"{msg}: lists {sorted(map(str, a))}, a fresh object {sorted(map(str, b))}")
    for k in b:
        close(a[k], b[k], f"{msg}: value of {k}", rtol=1e-6, atol=1e-9)


def two_requests(rng, info):
    """two (model, X, prediction function, features) requests that differ in one respect"""
    X = make_X(rng, p=int(rng.integers(2, 4)), n=int(rng.integers(4, 7)))
    X = X.select_dtypes("number") if X.select_dtypes("number").shape[1] > 1 else make_X(rng, kinds=["float", "int", "fewfloat"], n=6)
    model = Reg(X, rng, "inter3" if X.shape[1] > 2 else "inter")
    fs = subset(rng, list(X.columns))
    how = ["data", "in place", "model", "function", "features"][rng.integers(0, 5)]
    first = [model, X, None, fs]
    second = [model, X, None, fs]
    between = None
    if how == "data":
        second[1] = X.sample(len(X), replace=True, random_state=int(rng.integers(0, 999))) * 2
    elif how == "in place":
        def between():
            c = fs[int(rng.integers(0, len(fs)))]
            X[c] = X[c].values[::-1] * 2 + 1
    elif how == "model":
        second[0] = Reg(X, rng, "inter")
    elif how == "function":
        second[2] = half
    else:
        first[3] = list(X.columns)[:2]
        second[3] = None if rng.random() < .5 else list(X.columns)[::-1]
    info.update(X=X, differs=how, features=(first[3], second[3]))
    return first, second, between


def _pd_method(rng, info, make, ova=False):
    first, second, between = two_requests(rng, info)
    m, fresh = make(), make()
    kw = {}
    m.fit(first[0], first[1], predict_function=first[2], features=first[3])
    if between:
        between()
    if ova and rng.random() < .4:
        kw["calculate_ova"] = False
    for o in (m, fresh):
        o.fit(second[0], second[1], predict_function=second[2], features=second[3], batchsize=7, **kw)
    return m, fresh, second, kw


def c04_again(rng, info):
    norm = bool(rng.integers(0, 2))
    m, fresh, second, kw = _pd_method(rng, info, lambda: FriedmanHStatisticMethod(normalized=norm), ova=True)
    a, b = pair_table(m.ovo, m.method), pair_table(fresh.ovo, m.method)
    need(set(a) == set(b), "fitted again: other pairs are listed")
    for k in b:
        close(a[k], b[k], f"fitted again: H-statistic of {sorted(k)}", rtol=1e-6, atol=1e-9)
    if kw:
        need(m.ova is None, "fitted again without one-vs-all values: those of the earlier fit are still there")
    else:
        same_tables(m.ova, fresh.ova, ["Feature"], m.method, "fitted again: one-vs-all")


def c05_again(rng, info):
    m, fresh, *_ = _pd_method(rng, info, GreenwellMethod)
    a, b = pair_table(m.ovo, m.method), pair_table(fresh.ovo, m.method)
    need(set(a) == set(b), "fitted again: other pairs are listed")
    for k in b:
        close(a[k], b[k], f"fitted again: Greenwell value of {sorted(k)}", rtol=1e-6, atol=1e-9)


def c06_again(rng, info):
    make = [FriedmanHStatisticMethod, GreenwellMethod][rng.integers(0, 2)]
    m, fresh, second, _ = _pd_method(rng, info, make)
    same_tables(m.feature_importance, fresh.feature_importance, ["Feature"], "Importance", "fitted again: importance")
    first, second, between = two_requests(rng, info)
    m, fresh = PartialDependenceBasedImportance(), PartialDependenceBasedImportance()
    m.importance(first[0], first[1], predict_function=first[2], features=first[3])
    if between:
        between()
    a, b = [o.importance(second[0], second[1], predict_function=second[2], features=second[3]) for o in (m, fresh)]
    same_tables(a, b, ["Feature"], "Importance", "computed again: importance")
    same_tables(m.feature_importance, b, ["Feature"], "Importance", "computed again: stored importance")


def c07_again(rng, info):
    first, second, between = two_requests(rng, info)
    m, fresh = AdditivityMeter(), AdditivityMeter()
    m.fit(first[0], first[1], predict_function=first[2])
    if between:
        between()
    a, b = [o.fit(second[0], second[1], predict_function=second[2]) for o in (m, fresh)]
    close(a, b, "fitted again: additivity index", rtol=1e-6, atol=1e-9)
    close(m.additivity_index, b, "fitted again: stored additivity index", rtol=1e-6, atol=1e-9)


def c14_again(rng, info):
    first, second, between = two_requests(rng, info)
    want = list(second[1].columns) if second[3] is None else list(second[3])
    y = np.arange(len(first[1])) * 1.0
    so = SejongOhMethod(random_state=int(rng.integers(0, 99)))
    fr = FriedmanHStatisticMethod()
    gr = GreenwellMethod()
    pi = PermutationImportance(random_state=1)
    runs = [(so, lambda r: so.fit(r[0], r[1], y, n_repeat=1, features=r[3])), (fr, lambda r: fr.fit(r[0], r[1], predict_function=r[2], features=r[3])),
            (gr, lambda r: gr.fit(r[0], r[1], predict_function=r[2], features=r[3])), (pi, lambda r: pi.importance(r[0], r[1], y, n_repeat=1, features=r[3]))]
    for o, run in runs:
        run(first)
    if between:
        between()
    for o, run in runs:
        run(second)
        name = type(o).__name__ + " fitted again"
        need(set(table(o.feature_importance, ["Feature"], "Importance")) == set(want), f"{name}: importance of {list(o.feature_importance['Feature'])}, requested {want}")
        if o is pi:
            continue
        need(set(pair_table(o.ovo, o.method)) == {frozenset(p) for p in itertools.combinations(want, 2)}, f"{name}: other pairs than requested are listed")
    need(set(table(fr.ova, ["Feature"], fr.method)) == set(want), f"fitted again: one-vs-all of {list(fr.ova['Feature'])}, requested {want}")
    fr.fit(second[0], second[1], predict_function=second[2], features=want[:2], calculate_ova=False)
    need(fr.ova is None or set(fr.ova["Feature"]) == set(want[:2]), "fitted again without one-vs-all values: those of the earlier fit are still there")
    for _ in range(2):                                            # forests and boosted models
        mo1, _n = forest(rng, {})
        mo2, _n = forest(rng, {})
        m, fresh = ConditionalMinimalDepthMethod(), ConditionalMinimalDepthMethod()
        m.fit(mo1)
        m.fit(mo2)
        fresh.fit(mo2)
        same_forest(m, fresh)


def same_forest(m, fresh):
    same_tables(m.ovo.fillna(-5), fresh.ovo.fillna(-5), ["root_variable", "variable"], m.method, "forest fitted again")
    same_tables(m.ovo, fresh.ovo, ["root_variable", "variable"], "n_occurences", "forest fitted again: occurrences")


def _forests(rng, info):
    mo1 = forest(rng, {})[0]
    mo2 = forest(rng, info)[0]
    m, fresh = ConditionalMinimalDepthMethod(), ConditionalMinimalDepthMethod()
    m.fit(mo1)
    m.fit(mo2)
    fresh.fit(mo2)
    return m, fresh


def c10_again(rng, info):
    same_forest(*_forests(rng, info))


def c11_again(rng, info):
    m, fresh = _forests(rng, info)
    same_tables(m.feature_importance, fresh.feature_importance, ["Feature"], "Importance", "forest fitted again: importance")


def c12_handler(rng, info):
    """one handler, two models"""
    mo1, mo2 = boosted(rng, {})[0], boosted(rng, info)[0]
    h = GBTreesHandler(mo1) if rng.random() < .5 else GBTreesHandler()
    if rng.random() < .5:
        h.unify_structure(mo1)
    h.unify_structure(mo2)
    a, b = SplitScoreMethod(), SplitScoreMethod()
    a.fit(h, only_def_interactions=False)
    b.fit(mo2, only_def_interactions=False)
    same_tables(a.ovo, b.ovo, ["Feature 1", "Feature 2"], a.method, "handler used again")
    same_tables(a.feature_importance, b.feature_importance, ["Feature"], "Importance", "handler used again: importance")


def c19_again(rng, info):
    """looked up, fitted again, looked up again"""
    first, second, between = two_requests(rng, info)
    for make in (FriedmanHStatisticMethod, GreenwellMethod):
        m, fresh, c = make(), make(), FeatureInteractionMethodComparator()
        m.fit(first[0], first[1], predict_function=first[2], features=first[3])
        f, g = first[3][:2]
        m.interaction_value(f, g)
        if len(m.ovo) > 1:
            c.correlations(m, m)
        if between:
            between()
            between = None
        for o in (m, fresh):
            o.fit(second[0], second[1], predict_function=second[2], features=second[3])
        for p in m.pairs:
            for a, b in (p, p[::-1]):
                close(m.interaction_value(a, b), fresh.interaction_value(a, b), f"fitted again: looked-up value of ({a},{b})", rtol=1e-6, atol=1e-9)
                close(m.interaction_value(a, b), pair_table(m.ovo, m.method)[frozenset(p)], f"fitted again: value of ({a},{b}) in the table")
        first[1] = first[1].copy()
    mo = [forest(rng, info)[0] for _ in range(2)]
    m, fresh = ConditionalMinimalDepthMethod(), ConditionalMinimalDepthMethod()
    m.fit(mo[0])
    m.interaction_value(*list(mo[0].feature_names_in_)[:2])
    m.fit(mo[1])
    fresh.fit(mo[1])
    f, g = list(mo[1].feature_names_in_)[:2]
    a, b = float(m.interaction_value(f, g)), float(fresh.interaction_value(f, g))
    need(a == b or (np.isnan(a) and np.isnan(b)), f"forest fitted again: looked-up value {a}, fresh object {b}")


INTER = ["mean_gain", "sum_gain", "mean_depth"]
IMPO = ["mean_gain", "sum_gain", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency"]


def _boosted_twice(rng, info):
    mo1, mo2 = boosted(rng, {})[0], boosted(rng, info)[0]
    m, fresh = SplitScoreMethod(), SplitScoreMethod()
    k1, k2 = ({"interaction_selected_metric": INTER[rng.integers(0, 3)], "importance_selected_metric": IMPO[rng.integers(0, 6)],
               "only_def_interactions": bool(rng.integers(0, 2))} for _ in range(2))
    info.update(first=k1, second=k2)
    if rng.random() < .3:
        mo1 = mo2                                                 # the same model under another metric
    m.fit(mo1, **k1)
    m.fit(mo2, **k2)
    fresh.fit(mo2, **k2)
    return m, fresh


def c12_again(rng, info):
    m, fresh = _boosted_twice(rng, info)
    same_tables(m.ovo, fresh.ovo, ["Feature 1", "Feature 2"], m.method, "boosted model fitted again")
    need(list(m.ovo[m.method]) == list(fresh.ovo[m.method]), "boosted model fitted again: other order")


def c13_again(rng, info):
    m, fresh = _boosted_twice(rng, info)
    same_tables(m.feature_importance, fresh.feature_importance, ["Feature"], "Importance", "boosted model fitted again: importance")
    need(list(m.feature_importance["Importance"]) == list(fresh.feature_importance["Importance"]), "boosted model fitted again: other order")


def c22_again(rng, info):
    """the prediction function of the latest fit is the one explained"""
    X = make_X(rng, kinds=["float", "int", "fewfloat"], n=5)
    model = Reg(X, rng, "inter")
    info.update(X=X)
    for make in (FriedmanHStatisticMethod, GreenwellMethod, AdditivityMeter):
        for pfs in ((None, half), (half, None)):
            m, fresh = make(), make()
            for pf in pfs:
                m.fit(model, X, predict_function=pf)
            fresh.fit(model, X, predict_function=pfs[1])
            for f in X.columns:
                close(m.pd_calculator.get_pd_single(f), fresh.pd_calculator.get_pd_single(f), f"{make.__name__} fitted again: profile of {f}")
            if make is AdditivityMeter:
                close(m.additivity_index, fresh.additivity_index, "additivity index of the latest prediction function")


CASES = {
    "C04": [(c04_again, 14)], "C05": [(c05_again, 10)], "C06": [(c06_again, 10)], "C07": [(c07_again, 12)],
    "C10": [(c10_again, 6)], "C11": [(c11_again, 6)], "C12": [(c12_again, 4), (c12_handler, 3)], "C13": [(c13_again, 4)],
    "C14": [(c14_again, 10)], "C19": [(c19_again, 6)], "C22": [(c22_again, 2)],
}
