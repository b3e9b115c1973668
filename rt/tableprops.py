"""Run-time oracles: result tables, caller's data, refusals, comparisons (C14, C15, C18, C19)."""
import copy
import itertools

from common import *          # noqa: F401,F403
from common import np, pd
import matplotlib.pyplot as plt
import xgboost
import lightgbm
from sklearn.ensemble import RandomForestRegressor, GradientBoostingRegressor
from sklearn.linear_model import LinearRegression
from scipy import stats
from artemis._utilities.domain import VisualizationType as VT
from artemis._utilities.domain import InteractionMethod
from artemis._utilities.exceptions import (FeatureImportanceWithoutInteractionException, MethodNotFittedException,
                                           MetricNotSupportedException, ModelNotSupportedException,
                                           MethodNotSupportedException, VisualizationNotSupportedException)
from artemis._utilities.pd_calculator import PartialDependenceCalculator as Calc
from artemis._utilities.performance_metrics import Accuracy, MSE
from artemis._utilities._handler import GBTreesHandler
from artemis.additivity import AdditivityMeter
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from treeprops import boosted, forest, handmade, Handler, ALL_METRICS

AGNOSTIC = {
    "friedman": (FriedmanHStatisticMethod, [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVA, VT.BAR_CHART_OVO, VT.HEATMAP]),
    "greenwell": (GreenwellMethod, [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVO, VT.HEATMAP]),
    "sejong": (SejongOhMethod, [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVO, VT.HEATMAP]),
}
SPECIFIC = {
    "cmd": (ConditionalMinimalDepthMethod, [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVO, VT.HEATMAP, VT.BAR_CHART_CONDITIONAL]),
    "split": (SplitScoreMethod, [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVO, VT.HEATMAP, VT.LOLLIPOP]),
}
ALL_VT = [VT.SUMMARY, VT.INTERACTION_GRAPH, VT.BAR_CHART_OVA, VT.BAR_CHART_OVO, VT.HEATMAP, VT.LOLLIPOP, VT.BAR_CHART_CONDITIONAL]


def sorted_ok(vals, ascending, msg):
    v = [float(x) for x in vals]
    nn = [x for x in v if not np.isnan(x)]
    need(v[:len(nn)] == nn, f"{msg}: undefined values are not listed last: {v}")
    for a, b in zip(nn, nn[1:]):
        need(a <= b if ascending else a >= b, f"{msg}: {nn} is not {'ascending' if ascending else 'descending'}")


def fit_agnostic(name, rng, X, model, features=None, **kw):
    cls = AGNOSTIC[name][0]
    extra = {} if features is None else {"features": features}
    m = cls(random_state=int(rng.integers(0, 99)))
    if name == "sejong":
        y = np.asarray(model.raw(X)) + rng.integers(0, 3, len(X))
        m.fit(model, X, y, n_repeat=2, **extra, **kw)
    else:
        m.fit(model, X, **extra, **kw)
    return m


# ---------------------------------------------------------------- C14
def c14_agnostic(rng, info):
    X = make_X(rng)
    cols = list(X.columns)
    kind = ["inter", "inter3", "add"][rng.integers(0, 3)]
    model = Reg(X, rng, kind)
    name = list(AGNOSTIC)[rng.integers(0, 3)]
    fs = subset(rng, cols) if rng.random() < .7 else None
    if fs is not None and rng.random() < .3:
        fs = pd.Index(fs) if rng.random() < .5 else tuple(fs)
    info.update(X=X, method=name, features=fs)
    n = int(rng.integers(2, len(X) + 1)) if rng.random() < .3 else None
    m = fit_agnostic(name, rng, X, model, fs, **({} if n is None else {"n": n}))
    fs = cols if fs is None else list(fs)
    got = pair_table(m.ovo, m.method)
    need(set(got) == {frozenset(p) for p in itertools.combinations(fs, 2)}, f"pairs listed {list(map(sorted, got))}, requested {fs}")
    need(len(m.ovo) == len(fs) * (len(fs) - 1) // 2, f"{len(m.ovo)} rows")
    sorted_ok(m.ovo[m.method], False, f"{name} pair table")
    need(list(m.ovo.index) == list(range(len(m.ovo))), f"{name}: rows are numbered {list(m.ovo.index)}")
    need(list(m.feature_importance["Feature"]).sort() == list(fs).sort() and set(table(m.feature_importance, ["Feature"], "Importance")) == set(fs),
         f"importance lists {list(m.feature_importance['Feature'])}")
    sorted_ok(m.feature_importance["Importance"], False, f"{name} importance table")
    if name == "friedman":
        need(set(table(m.ova, ["Feature"], m.method)) == set(fs), f"one-vs-all lists {list(m.ova['Feature'])}")
        sorted_ok(m.ova[m.method], False, "one-vs-all table")
    # every row's value belongs to that row's features: a fit on two features alone gives that pair's value
    if name != "sejong" and n is None and len(fs) > 2:
        a, b = [fs[i] for i in rng.permutation(len(fs))[:2]]
        m2 = fit_agnostic(name, rng, X, model, [a, b])
        close(m2.ovo[m.method].iloc[0], got[frozenset((a, b))], f"value of ({a},{b}) alone and among {fs}", rtol=1e-6, atol=1e-9)
        i2 = table(m2.feature_importance, ["Feature"], "Importance")
        i1 = table(m.feature_importance, ["Feature"], "Importance")
        for f in (a, b):
            close(i2[f], i1[f], f"importance of {f} alone and among {fs}")


def c14_importances(rng, info):
    X = make_X(rng)
    cols = list(X.columns)
    model = Reg(X, rng)
    fs = subset(rng, cols, 1)
    info.update(X=X, features=fs)
    y = model.raw(X) + rng.integers(0, 3, len(X))
    for nm, df in (("PD importance", PartialDependenceBasedImportance().importance(model, X, features=fs)),
                   ("permutation importance", PermutationImportance(random_state=1).importance(model, X, y, features=fs, n_repeat=2)),
                   ("permutation importance (accuracy)", PermutationImportance(Accuracy(), random_state=1).importance(model, X, model.raw(X), features=fs, n_repeat=2))):
        need(set(table(df, ["Feature"], "Importance")) == set(fs) and len(df) == len(fs), f"{nm} lists {list(df['Feature'])}, requested {fs}")
        sorted_ok(df["Importance"], False, nm)
    for nm, df in (("PD importance", PartialDependenceBasedImportance().importance(model, X)),
                   ("permutation importance", PermutationImportance(random_state=1).importance(model, X, y, n_repeat=2))):
        need(set(table(df, ["Feature"], "Importance")) == set(cols) and len(df) == len(cols), f"{nm} lists {list(df['Feature'])}")
        sorted_ok(df["Importance"], False, nm)


def c14_cmd(rng, info):
    model, names = forest(rng, info)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    rows = list(zip(m.ovo["n_occurences"], m.ovo[m.method]))
    for (o1, v1), (o2, v2) in zip(rows, rows[1:]):
        need(o1 >= o2, f"occurrences {[r[0] for r in rows]} are not descending")
        if o1 == o2 and not (np.isnan(v1) or np.isnan(v2)):
            need(v1 <= v2, f"depths {[r[1] for r in rows]} of equally frequent pairs are not ascending")
        if o1 == o2 and np.isnan(v1):
            need(np.isnan(v2), f"undefined depth listed before {v2}")
    sorted_ok(m.feature_importance["Importance"], True, "minimal depth importance")


def c14_split(rng, info):
    package = ["xgboost", "lightgbm"][rng.integers(0, 2)]
    df, _ = handmade(rng, package)
    info.update(package=package, trees_df=df.to_string())
    for metric in ("mean_gain", "sum_gain", "mean_depth", "mean_cover", "sum_cover"):
        if package == "lightgbm" and "cover" in metric:
            continue
        imetric = [q for q in ALL_METRICS if package == "xgboost" or "cover" not in q][rng.integers(0, 6)]
        m = SplitScoreMethod()
        m.fit(Handler(package, df.copy()), interaction_selected_metric=metric, importance_selected_metric=imetric,
              only_def_interactions=bool(rng.integers(0, 2)))
        sorted_ok(m.ovo[m.method], metric == "mean_depth", f"split-score pairs by {metric}")
        need(len(set(zip(m.ovo["Feature 1"], m.ovo["Feature 2"]))) == len(m.ovo), "a pair is listed twice")
        sorted_ok(m.feature_importance["Importance"], "depth" in imetric, f"split-score importance by {imetric}")
        need(list(m.ovo.index) == list(range(len(m.ovo))), f"rows are numbered {list(m.ovo.index)}")


# ---------------------------------------------------------------- C15
def _guard(objs):
    return {k: (snapshot(v) if isinstance(v, (pd.DataFrame, pd.Series)) else copy.deepcopy(v)) for k, v in objs.items()}


def _unchanged(objs, before, msg):
    for k, v in objs.items():
        same_frame(v, before[k], f"{msg}: {k}")


def c15_agnostic(rng, info):
    X = make_X(rng, n=int(rng.integers(5, 8)))
    model, pf = models_for(X, rng)
    y = np.asarray(model.raw(X)) + rng.integers(0, 3, len(X))
    if rng.random() < .5:
        y = pd.Series(y, index=X.index)
    fs = subset(rng, list(X.columns))
    n = None if rng.random() < .5 else int(rng.integers(2, len(X) + 1))
    info.update(X=X, y=list(y), features=fs, n=n)
    objs = {"the dataset": X, "the targets": y, "the feature list": fs}
    before = _guard(objs)
    bs = int(rng.integers(1, 50))
    runs = {
        "Friedman fit": lambda: FriedmanHStatisticMethod(random_state=1).fit(model, X, n, pf, fs, batchsize=bs),
        "Greenwell fit": lambda: GreenwellMethod(random_state=1).fit(model, X, n, pf, fs, batchsize=bs),
        "Sejong-Oh fit": lambda: SejongOhMethod(MSE(), random_state=1).fit(model, X, y, n, 2, fs),
        "additivity": lambda: AdditivityMeter(random_state=1).fit(model, X, n, pf, batchsize=bs),
        "PD importance": lambda: PartialDependenceBasedImportance().importance(model, X, n, pf, fs, batchsize=bs),
        "permutation importance": lambda: PermutationImportance(MSE(), random_state=1).importance(model, X, y, 2, fs),
        "Sejong-Oh fit (all features)": lambda: SejongOhMethod(MSE(), random_state=1).fit(model, X, y, n_repeat=1),
        "permutation importance (all features)": lambda: PermutationImportance(MSE(), random_state=1).importance(model, X, y, 1),
    }
    for k, r in runs.items():
        r()
        _unchanged(objs, before, k)
    calc = Calc(model, X, pf, bs)
    for r in (lambda: calc.calculate_pd_single(fs), lambda: calc.calculate_pd_pairs(all_combinations=bool(rng.integers(0, 2))),
              lambda: calc.calculate_pd_minus_single(fs)):
        r()
        _unchanged(objs, before, "PD calculation")
    ask = list(zip(X[fs[0]].tolist(), X[fs[1]].tolist()))
    ask0 = list(ask)
    calc.calculate_pd_pairs([(fs[0], fs[1])])
    calc.get_pd_pairs(fs[1], fs[0], [(b, a) for a, b in ask])
    calc.get_pd_pairs(fs[0], fs[1], ask)
    need(ask == ask0, "PD lookup changed the caller's value list")
    FriedmanHStatisticMethod().fit(model, X, predict_function=pf, pd_calculator=calc)
    need(calc.X is X or calc.X.equals(before["the dataset"]), "the PD calculator's data changed")
    _unchanged(objs, before, "fit with a given PD calculator")
    prof = {f: np.array(calc.get_pd_single(f), float) for f in X.columns}
    AdditivityMeter().fit(model, X, predict_function=pf, pd_calculator=calc)
    GreenwellMethod().fit(model, X, predict_function=pf, pd_calculator=calc)
    PartialDependenceBasedImportance().importance(model, X, predict_function=pf, pd_calculator=calc)
    for f in X.columns:
        close(calc.get_pd_single(f), prof[f], f"shared calculator: profile of {f} changed by later fits")
    need(calc.batchsize == bs and calc.model is model, "the shared calculator's settings changed")
    _unchanged(objs, before, "fits with a shared PD calculator")


_FITTED = {}


def fitted(which, seed=0):
    """One fitted method of each kind (cached per process), with 4 features incl. one without interactions."""
    if (which, seed) in _FITTED:
        return copy.deepcopy(_FITTED[which, seed])
    rng = np.random.default_rng(77 + seed)
    X = make_X(rng, n=7, kinds=["float", "fewfloat", "int", "int"], names=["b", "A", "c1", "c"], index="shuffled")
    model = Reg(X, rng, "inter3")
    if which in AGNOSTIC:
        m = fit_agnostic(which, rng, X, model)
    elif which == "cmd":
        Xf = pd.DataFrame(rng.normal(size=(60, 4)), columns=["b", "A", "c1", "c"])
        m = ConditionalMinimalDepthMethod()
        m.fit(RandomForestRegressor(n_estimators=4, max_depth=4, random_state=seed).fit(Xf, Xf["b"] * Xf["A"] + Xf["c"] + Xf["c1"]))
    else:
        Xf = pd.DataFrame(rng.normal(size=(80, 4)), columns=["b", "A", "c1", "c"])
        yy = Xf["b"] * Xf["A"] * 2 + Xf["c"] * Xf["b"] + Xf["c1"] * Xf["c"]
        m = SplitScoreMethod()
        if which == "split_lgb":
            m.fit(lightgbm.LGBMRegressor(n_estimators=12, num_leaves=12, min_child_samples=3, n_jobs=1, verbose=-1).fit(Xf, yy))
        elif which == "split_depth":
            m.fit(xgboost.XGBRegressor(n_estimators=12, max_depth=4, n_jobs=1).fit(Xf, yy), interaction_selected_metric="mean_depth",
                  importance_selected_metric="mean_depth", only_def_interactions=False)
        else:
            m.fit(xgboost.XGBRegressor(n_estimators=12, max_depth=4, n_jobs=1).fit(Xf, yy))
    _FITTED[which, seed] = m
    return copy.deepcopy(m)


EVERY = ["friedman", "greenwell", "sejong", "cmd", "split", "split_depth", "split_lgb"]


def accepted(which):
    return (AGNOSTIC.get(which) or SPECIFIC.get(which.split("_")[0]))[1]


def result_tables(m):
    return {a: getattr(m, a) for a in ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df", "X_sampled", "y_sampled")
            if getattr(m, a, None) is not None}


def c15_plots(rng, info):
    which = EVERY[rng.integers(0, len(EVERY))]
    m = fitted(which)
    objs = result_tables(m)
    before = _guard(objs)
    for vt in accepted(which):
        info.update(method=which, vis_type=vt)
        m.plot(vt)
        _unchanged(objs, before, f"{which} plot {vt}")
        for k, v in result_tables(m).items():
            same_frame(v, before[k], f"{which} plot {vt}: {k} was replaced")
        plt.close("all")
    if which in ("friedman", "greenwell"):
        calc = m.pd_calculator
        data = calc.X.copy()
        pairs = [(f, g) for f in data.columns for g in data.columns if f < g]
        ask = {p: list(zip(data[p[0]].tolist(), data[p[1]].tolist())) for p in pairs}
        prof = {f: np.array(calc.get_pd_single(f), float) for f in data.columns}
        surf = {p: np.array(calc.get_pd_pairs(*p, ask[p]), float) for p in pairs}
        length = int(rng.integers(2, 5))
        for k, r in {"profile of b": lambda: m.plot_profile("b"), "profile of (A, b)": lambda: m.plot_profile("A", "b"),
                     "contour of (b, A)": lambda: m.plot_profile("b", "A", kind="contour"),
                     "profile of (c, c1)": lambda: m.plot_profile("c", "c1"), "profile of (c1, c)": lambda: m.plot_profile("c1", "c"),
                     "zenplot": lambda: m.plot_zenplot(zenpath_length=length)}.items():
            r()
            plt.close("all")
            _unchanged(objs, before, f"{which}: {k}")
            need(m.pd_calculator is calc, f"{which}: {k}: the PD calculator was replaced")
            same_frame(calc.X, data, f"{which}: {k}: the calculator's data")
            for f in prof:
                close(calc.get_pd_single(f), prof[f], f"{which}: {k}: the profile of {f} changed")
            for p in pairs:
                close(calc.get_pd_pairs(*p, ask[p]), surf[p], f"{which}: {k}: the surface of {p} changed")
    other = fitted(EVERY[rng.integers(0, 4)], 1)
    ob2 = result_tables(other)
    b2 = _guard(ob2)
    c = FeatureInteractionMethodComparator()
    c.correlations(m, other)
    if which != "split_depth":                                 # lists (f, f) pairs, which the other methods do not have
        c.summary(m, other)
    m.interaction_value("b", "A") if which not in ("split", "split_depth", "split_lgb") else None
    for k, v in result_tables(m).items():
        same_frame(v, before[k], f"comparing {which}: {k}")
    for k, v in result_tables(other).items():
        same_frame(v, b2[k], f"comparing: {k} of the second method")
    _unchanged(objs, before, "comparison")
    _unchanged(ob2, b2, "comparison")


def c15_trees(rng, info):
    package = ["xgboost", "lightgbm"][rng.integers(0, 2)]
    df, _ = handmade(rng, package)
    if rng.random() < .5:
        df.index = np.arange(len(df)) + 5
    h = Handler(package, df)
    info.update(package=package, trees_df=df.to_string())
    before = _guard({"the model table": df})
    fs = ["a", "b"]
    for k, r in {"split score fit": lambda: SplitScoreMethod().fit(h), "split score fit (all)": lambda: SplitScoreMethod().fit(h, only_def_interactions=False),
                 "split score importance": lambda: SplitScoreImportance().importance(h, fs),
                 "split score importance with a table": lambda: SplitScoreImportance().importance(h, None, "mean_depth", trees_df=df)}.items():
        r()
        need(h.trees_df is df, f"{k}: the handler's table was replaced")
        _unchanged({"the model table": df}, before, k)
        need(fs == ["a", "b"], f"{k}: the feature list changed")


def c15_forest(rng, info):
    model, names = forest(rng, info)
    fn = model.feature_names_in_.copy()
    st = [(e.tree_.children_left.copy(), e.tree_.children_right.copy(), e.tree_.feature.copy()) for e in model.estimators_]
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    need(list(fn) == list(model.feature_names_in_), "the model's feature names changed")
    for e, (a, b, c) in zip(model.estimators_, st):
        need(np.array_equal(a, e.tree_.children_left) and np.array_equal(b, e.tree_.children_right) and np.array_equal(c, e.tree_.feature),
             "the model's trees changed")
    d = {0: [np.array([0, 1, 1]), {0: np.array([0])}], 1: [np.array([0, 1, 1]), {1: np.array([0])}]}
    d0 = copy.deepcopy(d)
    MinimalDepthImportance().importance(model, d)
    need(set(d) == set(d0) and all(np.array_equal(d[k][0], d0[k][0]) and set(d[k][1]) == set(d0[k][1]) and
                                   all(np.array_equal(d[k][1][q], d0[k][1][q]) for q in d0[k][1]) for k in d0), "the tree data changed")


# ---------------------------------------------------------------- C18
def unfitted():
    return {"friedman": FriedmanHStatisticMethod(), "greenwell": GreenwellMethod(), "sejong": SejongOhMethod(),
            "cmd": ConditionalMinimalDepthMethod(), "split": SplitScoreMethod()}


def c18_unfitted(rng, info):
    other = fitted("friedman")
    for k, m in unfitted().items():
        info["method"] = k
        for vt in accepted(k) + ["no such plot"]:
            figs = len(plt.get_fignums())
            raises(MethodNotFittedException, lambda: m.plot(vt), f"unfitted {k}: plot({vt})")
            need(len(plt.get_fignums()) == figs, f"unfitted {k}: plot({vt}) drew something")
        raises(MethodNotFittedException, lambda: m.plot(), f"unfitted {k}: plot()")
        raises(MethodNotFittedException, lambda: m.interaction_value("b", "A"), f"unfitted {k}: interaction_value")
        for a, b in ((m, other), (other, m), (m, m)):
            raises(MethodNotFittedException, lambda: FeatureInteractionMethodComparator().summary(a, b), f"unfitted {k}: comparator summary")
            raises(MethodNotFittedException, lambda: FeatureInteractionMethodComparator().comparison_plot(a, b), f"unfitted {k}: comparison plot")
            raises(MethodNotFittedException, lambda: FeatureInteractionMethodComparator().correlations(a, b), f"unfitted {k}: correlations")
            raises(MethodNotFittedException, lambda: FeatureInteractionMethodComparator().correlation(a, b), f"unfitted {k}: correlation")
        plt.close("all")


def c18_visuals(rng, info):
    for k in EVERY:
        m = fitted(k)
        acc = accepted(k)
        for vt in ALL_VT + ["pie", "", "HEATMAP"]:
            info.update(method=k, vis_type=vt)
            plt.close("all")
            if vt in acc:
                m.plot(vt)
                m.plot(vt, title="own title", figsize=(5, 4))
                need(plt.get_fignums(), f"{k}: plot({vt}) drew nothing")
            else:
                raises(VisualizationNotSupportedException, lambda: m.plot(vt), f"{k}: plot({vt})")
                need(not plt.get_fignums(), f"{k}: plot({vt}) drew something before refusing")


def c18_fits_and_plots(rng, info):
    """all documented plots of methods fitted on random inputs (subset of features, constant columns, unused features)"""
    which = ["friedman", "greenwell", "sejong", "cmd", "split"][rng.integers(0, 5)]
    info["method"] = which
    if which in AGNOSTIC:
        X = make_X(rng, n=int(rng.integers(4, 8)), p=int(rng.integers(2, 4)), kinds=None)
        model = Reg(X, rng, ["inter", "add"][rng.integers(0, 2)])
        fs = subset(rng, list(X.columns)) if rng.random() < .5 else None
        info.update(X=X, features=fs)
        kw = {"calculate_ova": False} if which == "friedman" and rng.random() < .5 else {}
        m = fit_agnostic(which, rng, X, model, fs, **kw)
        if kw:
            raises(MethodNotFittedException, lambda: m.plot(VT.BAR_CHART_OVA), "one-vs-all chart without one-vs-all values")
            acc = [v for v in accepted(which) if v != VT.BAR_CHART_OVA]
        else:
            acc = accepted(which)
    elif which == "cmd":
        while True:
            model, names = forest(rng, info)
            m = ConditionalMinimalDepthMethod()
            m.fit(model)
            if m.ovo[m.method].notna().any():
                break
        acc = accepted(which)
    else:
        while True:
            model, package, names = boosted(rng, info)
            m = SplitScoreMethod()
            m.fit(model, only_def_interactions=bool(rng.integers(0, 2)))
            if len(m.ovo):
                break
        acc = accepted(which)
    for vt in acc:
        info["vis_type"] = vt
        m.plot(vt)
        plt.close("all")


def c18_calculator(rng, info):
    X = make_X(rng, n=6, p=3, index="default")
    model, model2 = Reg(X, rng), Reg(X, rng)
    X2 = X.copy()
    c = X.columns[rng.integers(0, 3)]
    how = rng.integers(0, 4)
    if how == 0:
        X2.iloc[rng.integers(0, 6), list(X.columns).index(c)] = X[c].iloc[0] if X[c].nunique() == 1 else [v for v in X[c] if v != X[c].iloc[5]][0]
        if X2.equals(X):
            X2 = X.iloc[:-1]
    elif how == 1:
        X2 = X.iloc[:-1]
    elif how == 2:
        X2 = X[list(X.columns)[::-1]]
    else:
        X2 = X.iloc[list(range(5, -1, -1))]
        if X2.reset_index(drop=True).equals(X):
            X2 = X.iloc[:-1]
    info.update(X=X, X2=X2)
    users = {
        "friedman": lambda mo, d, k: FriedmanHStatisticMethod().fit(mo, d, pd_calculator=k),
        "greenwell": lambda mo, d, k: GreenwellMethod().fit(mo, d, pd_calculator=k),
        "pd importance": lambda mo, d, k: PartialDependenceBasedImportance().importance(mo, d, pd_calculator=k),
        "additivity": lambda mo, d, k: AdditivityMeter().fit(mo, d, pd_calculator=k),
    }
    for k, u in users.items():
        raises(ValueError, lambda: u(model, X, Calc(model2, X)), f"{k}: calculator of another model")
        raises(ValueError, lambda: u(model, X, Calc(model, X2)), f"{k}: calculator of other data")
        raises(ValueError, lambda: u(model, X2, Calc(model, X)), f"{k}: calculator of other data")
        u(model, X, Calc(model, X.copy()))


def c18_models(rng, info):
    Xf = pd.DataFrame(rng.normal(size=(40, 3)), columns=list("abc"))
    y = Xf["a"] * Xf["b"] + Xf["c"]
    for bad in (LinearRegression().fit(Xf, y), GradientBoostingRegressor(n_estimators=2).fit(Xf, y), RandomForestRegressor(n_estimators=2).fit(Xf, y),
                "not a model", Reg(Xf, rng), *(type("Model", (), {"__module__": k, "trees_to_dataframe": lambda self: None})()
                                               for k in ("xgboost_like.core", "xgboostish", "my.lightgbm", "lightgb"))):
        raises(ModelNotSupportedException, lambda: GBTreesHandler(bad), f"handler of {type(bad).__name__}")
        raises(ModelNotSupportedException, lambda: SplitScoreMethod().fit(bad), f"split score of {type(bad).__name__}")
    lg = lightgbm.LGBMRegressor(n_estimators=3, min_child_samples=3, n_jobs=1, verbose=-1).fit(Xf, y)
    xg = xgboost.XGBRegressor(n_estimators=3, max_depth=3, n_jobs=1).fit(Xf, y)
    for k in ("mean_cover", "sum_cover"):
        for h in (lg, lg.booster_, GBTreesHandler(lg)):
            raises(MetricNotSupportedException, lambda: SplitScoreMethod().fit(h, interaction_selected_metric=k), f"lightgbm, interactions by {k}")
            raises(MetricNotSupportedException, lambda: SplitScoreMethod().fit(h, importance_selected_metric=k), f"lightgbm, importance by {k}")
        SplitScoreMethod().fit(xg, interaction_selected_metric=k, importance_selected_metric=k)
    for k in ("mean_gain", "sum_gain", "mean_depth"):
        SplitScoreMethod().fit(lg, interaction_selected_metric=k, importance_selected_metric=k)
    rf = RandomForestRegressor(n_estimators=2).fit(Xf, y)
    raises(FeatureImportanceWithoutInteractionException, lambda: MinimalDepthImportance().importance(rf, None), "minimal depth importance without trees")
    from artemis.visualizer._configuration import VisualizationConfigurationProvider as P
    raises(MethodNotSupportedException, lambda: P.get("no such method"), "configuration of an unknown method")


# ---------------------------------------------------------------- C19
def fake(rng, names, cls=FriedmanHStatisticMethod, directed=False, ties=False):
    """a method whose fitted table is given (public attribute ovo), distinct values unless ties are asked for"""
    m = cls()
    prs = list(itertools.permutations(names, 2)) if directed else [p if rng.random() < .5 else p[::-1] for p in itertools.combinations(names, 2)]
    vals = np.round((rng.integers(0, 3, len(prs)) if ties else rng.permutation(len(prs))) * 0.37 + .11, 3)
    if cls is ConditionalMinimalDepthMethod:
        df = pd.DataFrame([(a, b, v, 1) for (a, b), v in zip(prs, vals)], columns=["root_variable", "variable", m.method, "n_occurences"])
        df = df.sort_values(m.method)
    else:
        df = pd.DataFrame([(a, b, v) for (a, b), v in zip(prs, vals)], columns=["Feature 1", "Feature 2", m.method])
        df = df.sort_values(m.method, ascending=False, ignore_index=True)
    m.ovo = df
    return m


NAMESETS = [["a", "ab", "b", "bc", "c"], ["x1", "x11", "1", "x", "11"], ["A", "a", "B", "b"], ["f 1", "f", "1", " 1"], ["a-b", "a", "b", "b-a"],
            ["p", "q", "r"], ["a:b", "a", "b", ":"]]


def c19_lookup(rng, info):
    names = NAMESETS[rng.integers(0, len(NAMESETS))]
    names = [names[i] for i in rng.permutation(len(names))]
    for cls in (FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod, ConditionalMinimalDepthMethod):
        cmd = cls is ConditionalMinimalDepthMethod
        m = fake(rng, names, cls, directed=cmd, ties=rng.random() < .5)
        info.update(method=cls.__name__, ovo=m.ovo.to_string())
        for f, g in itertools.combinations(names, 2):
            if cmd:
                k1, k2 = "root_variable", "variable"
            else:
                k1, k2 = "Feature 1", "Feature 2"
            rows = [v for a, b, v in zip(m.ovo[k1], m.ovo[k2], m.ovo[m.method]) if {a, b} == {f, g}]
            want = float(np.mean(rows))
            close(m.interaction_value(f, g), want, f"{cls.__name__}: value of ({f},{g})")
            close(m.interaction_value(g, f), want, f"{cls.__name__}: value of ({g},{f})")
            close(m.interaction_value(f1=f, f2=g), want, f"{cls.__name__}: value of ({f},{g}) by keyword")


def c19_fitted_lookup(rng, info):
    for which in ("friedman", "greenwell", "sejong", "cmd", "split", "split_lgb"):
        m = fitted(which)
        info["method"] = which
        k1, k2 = ("root_variable", "variable") if which == "cmd" else ("Feature 1", "Feature 2")
        rows = {}
        for a, b, v in zip(m.ovo[k1], m.ovo[k2], m.ovo[m.method]):
            rows.setdefault(frozenset((a, b)), []).append(v)
        for k, vs in rows.items():
            if len(k) != 2 or all(np.isnan(v) for v in vs):
                continue
            f, g = sorted(k)
            a, b = m.interaction_value(f, g), m.interaction_value(g, f)
            need(a == b, f"{which}: ({f},{g}) is {a} but ({g},{f}) is {b}")
            if which == "cmd":
                close(a, np.nanmean(vs), f"{which}: value of ({f},{g})")
            else:
                need(any(np.isclose(a, v) for v in vs), f"{which}: value of ({f},{g}) is {a}, table has {vs}")


def want_corr(m1, m2):
    def ranks(m):
        if isinstance(m, ConditionalMinimalDepthMethod):
            d = {}
            for a, b, v in zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo[m.method]):
                d.setdefault(tuple(sorted((a, b))), []).append(v)
            order = sorted(d, key=lambda k: np.mean(d[k]))
        else:
            t = m.ovo.sort_values(m.method, ascending=False)
            order = [tuple(sorted((a, b))) for a, b in zip(t["Feature 1"], t["Feature 2"])]
        code = {k: i for i, k in enumerate(sorted(order))}
        return [code[k] for k in order]
    a, b = ranks(m1), ranks(m2)
    return {"pearson": stats.pearsonr(a, b)[0], "kendall": stats.kendalltau(a, b)[0], "spearman": stats.spearmanr(a, b)[0]}


def distinct_cmd(m):
    d = {}
    for a, b, v in zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo[m.method]):
        d.setdefault(frozenset((a, b)), []).append(v)
    vs = [round(float(np.mean(v)), 9) for v in d.values()]
    return len(set(vs)) == len(vs)


def c19_correlation(rng, info):
    names = NAMESETS[rng.integers(0, len(NAMESETS))]
    kinds = [FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod, ConditionalMinimalDepthMethod]
    c1, c2, c3 = [kinds[i] for i in rng.integers(0, 4, 3)]
    ms = []
    for c in (c1, c2, c3):
        while True:
            m = fake(rng, names, c, directed=c is ConditionalMinimalDepthMethod)
            if c is not ConditionalMinimalDepthMethod or distinct_cmd(m):
                break
        ms.append(m)
    a, b, c = ms
    info.update(names=names, methods=[type(m).__name__ for m in ms], a=a.ovo.to_string(), b=b.ovo.to_string())
    comp = FeatureInteractionMethodComparator()
    for x, y in ((a, b), (b, a), (a, c), (c, b), (a, b)):
        how = rng.integers(0, 3)
        w = want_corr(x, y)
        if how == 0:
            comp.summary(x, y)
            got = dict(zip(comp.correlations_df["method"], comp.correlations_df["value"]))
            ax = comp.ovo_profiles_comparison_plot[1]
        elif how == 1:
            df = comp.correlations(x, y)
            got = dict(zip(df["method"], df["value"]))
            ax = None
        else:
            got = {k: comp.correlation(x, y, k) for k in w}
            ax = comp.comparison_plot(x, y, add_correlation_box=True)[1]
        need(set(got) == set(w), f"correlations reported: {sorted(got)}")
        for k in w:
            close(got[k], w[k], f"{k} correlation of {type(x).__name__} and {type(y).__name__}")
            close(comp.correlation(y, x, k), w[k], f"{k} correlation with the methods swapped")
            close(comp.correlation(x, x, k), 1.0, f"{k} correlation of a method with itself")
        if ax is not None:
            txt = "\n".join(t.get_text() for t in ax.texts)
            for k in w:
                need(f"{k.capitalize()}={round(w[k], 3)}" in txt or f"{k.capitalize()}={round(got[k], 3)}" in txt,
                     f"the box shows {txt!r}, the {k} correlation of these methods is {w[k]}")
            check_scatter(ax, x, y)
        plt.close("all")


def pair_values(m):
    d = {}
    k1, k2 = ("root_variable", "variable") if isinstance(m, ConditionalMinimalDepthMethod) else ("Feature 1", "Feature 2")
    for p, q, v in zip(m.ovo[k1], m.ovo[k2], m.ovo[m.method]):
        d.setdefault(frozenset((p, q)), []).append(v)
    return {k: float(np.mean(v)) for k, v in d.items()}


def check_scatter(ax, x, y):
    dx, dy = pair_values(x), pair_values(y)
    want = sorted((round(dx[k], 6), round(dy[k], 6)) for k in dx)
    pts = [c.get_offsets() for c in ax.collections if len(c.get_offsets())]
    got = sorted((round(float(p), 6), round(float(q), 6)) for c in pts for p, q in np.asarray(c))
    need(got == want, f"the comparison plot shows {got}, the methods say {want}")
    need((ax.get_xlim()[0] > ax.get_xlim()[1]) == bool(x._interactions_ascending_order), "x axis direction")
    need((ax.get_ylim()[0] > ax.get_ylim()[1]) == bool(y._interactions_ascending_order), "y axis direction")
    need(ax.get_xlabel() == x.method and ax.get_ylabel() == y.method, "axis labels name other methods")


def c19_defaults(rng, info):
    a, b = fake(rng, ["p", "q", "r"]), fake(rng, ["p", "q", "r"], GreenwellMethod)
    close(FeatureInteractionMethodComparator.correlation(a, b), want_corr(a, b)["kendall"], "default correlation (Kendall)")
    ax = FeatureInteractionMethodComparator().comparison_plot(a, b)[1]
    check_scatter(ax, a, b)
    a, b = fake(rng, ["p", "q", "r", "s"], ties=True), fake(rng, ["p", "q", "r", "s"], SejongOhMethod, ties=True)
    info.update(a=a.ovo.to_string(), b=b.ovo.to_string())
    check_scatter(FeatureInteractionMethodComparator().comparison_plot(a, b)[1], a, b)
    plt.close("all")


CASES = {
    "C14": [(c14_agnostic, 40), (c14_importances, 12), (c14_cmd, 16), (c14_split, 10)],
    "C15": [(c15_agnostic, 10), (c15_plots, 9), (c15_trees, 8), (c15_forest, 6)],
    "C18": [(c18_unfitted, 1), (c18_visuals, 1), (c18_fits_and_plots, 16), (c18_calculator, 10), (c18_models, 1)],
    "C19": [(c19_lookup, 10), (c19_fitted_lookup, 1), (c19_correlation, 12), (c19_defaults, 1)],
}
