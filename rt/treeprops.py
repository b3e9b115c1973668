"""Run-time oracles: tree based measures (C10-C13), read off the models independently of the package."""
import itertools
import json
import math

from common import *          # noqa: F401,F403
from common import np, pd
from sklearn.ensemble import (ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor)
import lightgbm
import xgboost
from artemis._utilities._handler import GBTreesHandler
from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod


# ---------------------------------------------------------------- forests
def forest(rng, info, **force):
    n, p = int(rng.integers(20, 60)), int(rng.integers(2, 6))
    names = list(map(str, rng.permutation(["b", "A", "z9", "ab", "c", "Q"])[:p]))
    X = pd.DataFrame(np.round(rng.normal(size=(n, p)) * 4) / 4, columns=names)
    if rng.random() < .4:
        X[names[-1]] = 1.0                                    # never splits
    y = X[names[0]] * X[names[1]] + np.round(rng.normal(size=n), 1)
    kind = [RandomForestRegressor, ExtraTreesRegressor, RandomForestClassifier, ExtraTreesClassifier][rng.integers(0, 4)]
    if "Classifier" in kind.__name__:
        y = (y > 0).astype(int) + (y > 1).astype(int) * int(rng.integers(0, 2))
    kw = dict(n_estimators=int(rng.integers(1, 6)), random_state=int(rng.integers(0, 999)))
    how = rng.integers(0, 4)
    if how == 0:
        kw["max_depth"] = int(rng.integers(1, 5))
    elif how == 1:
        kw["max_leaf_nodes"] = int(rng.integers(2, 14))
    elif how == 2:
        kw["min_samples_leaf"] = int(rng.integers(2, 9))
    if rng.random() < .5:
        kw["max_features"] = 1
    kw.update(force)
    if force.get("const"):
        kw.pop("const")
        y = y * 0 + (1.5 if "Regressor" in kind.__name__ else 1)
        if kw.pop("some", False):
            pass
    info.update(forest=kind.__name__, params=kw, X_shape=(n, p), columns=names)
    return kind(**kw).fit(X, y), names


def tree_info(t):
    """depth, preorder list of the subtree of every node, from the children alone."""
    L, R, F = t.children_left, t.children_right, t.feature
    depth, sub = {}, {}

    def go(v, d):
        depth[v] = d
        out = [v]
        if L[v] >= 0:
            out += go(L[v], d + 1)
            out += go(R[v], d + 1)
        sub[v] = out
        return out
    go(0, 0)
    splits = {}
    for v in depth:
        if L[v] >= 0:
            splits.setdefault(int(F[v]), []).append(v)
    return depth, sub, splits


def cmd_of_tree(t, p):
    depth, sub, splits = tree_info(t)
    out = {}
    for f in range(p):
        for g in range(p):
            if f not in splits or g not in splits:
                out[f, g] = (None, 0)
                continue
            top = min(depth[v] for v in splits[f])
            best, occ = math.inf, 0
            for r in [v for v in splits[f] if depth[v] == top]:
                inside = [depth[v] for v in sub[r] if v != r and v in set(splits[g])]
                if inside:
                    best, occ = min(best, min(inside) - depth[r] - 1), 1
                else:
                    best = min(best, depth[sub[r][-1]] - depth[r])
            out[f, g] = (best, occ)
    return out


def _num(v):
    return None if v is None or (isinstance(v, float) and math.isnan(v)) else float(v)


def c10_fit(rng, info, **force):
    model, names = forest(rng, info, **force)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    p = len(names)
    per = [cmd_of_tree(e.tree_, p) for e in model.estimators_]
    raw = m.raw_result_df
    need(len(raw) == len(per) * p * p, f"{len(raw)} raw rows for {len(per)} trees and {p} features")
    for k, want in enumerate(per):
        part = raw.iloc[k * p * p:(k + 1) * p * p]
        for f, g, v, o in zip(part["split_variable"], part["ancestor_variable"], part["value"], part["occur"]):
            need((_num(v), int(o)) == (_num(want[f, g][0]), want[f, g][1]),
                 f"tree {k}, features ({names[f]},{names[g]}): recorded {(v, o)}, the tree says {want[f, g]}")
    got = {}
    for a, b, v, o in zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo[m.method], m.ovo["n_occurences"]):
        need((a, b) not in got, f"({a},{b}) is listed twice")
        got[a, b] = (v, o)
    need(set(got) == set(itertools.permutations(names, 2)), f"ordered pairs listed: {sorted(got)}")
    for f, g in itertools.permutations(range(p), 2):
        vs = [w[f, g][0] for w in per if w[f, g][0] is not None]
        v, o = got[names[f], names[g]]
        close(v, np.mean(vs) if vs else np.nan, f"conditional minimal depth of ({names[f]},{names[g]})")
        need(int(o) == sum(w[f, g][1] for w in per), f"occurrences of ({names[f]},{names[g]}): {o}")


def c10_best_first(rng, info):
    c10_fit(rng, info, max_leaf_nodes=int(rng.integers(4, 14)))


def c10_deep(rng, info):
    c10_fit(rng, info, max_features=1, max_depth=None, max_leaf_nodes=None)


def c10_constant(rng, info):
    c10_fit(rng, info, const=True)


def c11_fit(rng, info, **force):
    model, names = forest(rng, info, **force)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    d = {}
    for e in model.estimators_:
        depth, _, splits = tree_info(e.tree_)
        for f, vs in splits.items():
            d.setdefault(names[f], []).append(min(depth[v] for v in vs))
    got = table(m.feature_importance, ["Feature"], "Importance")
    need(set(got) == set(d), f"features listed {sorted(got)}, features that split {sorted(d)}")
    for f in d:
        close(got[f], np.mean(d[f]), f"minimal depth importance of {f}")


def c11_constant(rng, info):
    c11_fit(rng, info, const=True)


def c11_direct(rng, info):
    """hand-made tree tables: depths and split nodes (shallowest first) per tree"""
    names = np.array(["b", "a", "c", "d"], dtype=object)

    class M:
        feature_names_in_ = names
    k = int(rng.integers(1, 5))
    trees, d = {}, {}
    for t in range(k):
        nn = int(rng.integers(2, 8))
        depths = np.concatenate([[0], rng.integers(1, 4, nn - 1)])
        split = {}
        for f in rng.permutation(4)[:int(rng.integers(1, 4))]:
            nodes = sorted(rng.permutation(nn)[:int(rng.integers(1, 3))], key=lambda v: depths[v])
            split[int(f)] = np.array(nodes)
            d.setdefault(names[f], []).append(min(depths[v] for v in nodes))
        trees[t] = [depths, split]
    info.update(trees=trees)
    got = table(MinimalDepthImportance().importance(M(), trees), ["Feature"], "Importance")
    need(set(got) == set(d), f"features listed {sorted(got)}, features that split {sorted(d)}")
    for f in d:
        close(got[f], np.mean(d[f]), f"minimal depth importance of {f}")


# ---------------------------------------------------------------- boosted trees
_MODELS = {}


def boosted(rng, info, package=None, **force):
    n, p = 80, int(rng.integers(2, 5))
    names = list(map(str, rng.permutation(["f", "Aa", "x_1", "g", "Leaf", "tree"])[:p]))
    X = pd.DataFrame(np.round(rng.normal(size=(n, p)) * 8) / 8, columns=names)
    y = X[names[0]] * X[names[1]] * 2 + X[names[-1]] + np.round(rng.normal(size=n) / 4, 2)
    package = ["xgboost", "lightgbm"][rng.integers(0, 2)] if package is None else package
    trees, depth = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    obj = rng.integers(0, 3)
    if package == "xgboost":
        kw = dict(n_estimators=trees, max_depth=depth, n_jobs=1, tree_method="exact", reg_lambda=1.0, min_child_weight=1)
        if rng.random() < .3:
            kw.update(grow_policy="lossguide", tree_method="hist", max_leaves=int(rng.integers(2, 12)), max_depth=0)
    else:
        kw = dict(n_estimators=trees, max_depth=depth, num_leaves=int(rng.integers(2, 16)), min_child_samples=3, n_jobs=1, verbose=-1,
                  deterministic=True)
    kw.update(force)
    info.update(package=package, params=kw, columns=names, objective=["regression", "binary", "multiclass"][obj])
    lib = xgboost if package == "xgboost" else lightgbm
    pre = "XGB" if package == "xgboost" else "LGBM"
    if obj == 0:
        m = getattr(lib, pre + "Regressor")(**kw).fit(X, y)
    else:
        lab = (y > 0).astype(int) if obj == 1 else (y > 0).astype(int) + (y > 1).astype(int)
        m = getattr(lib, pre + "Classifier")(**kw).fit(X, lab)
    if rng.random() < .3:
        m = m.get_booster() if package == "xgboost" else m.booster_
        info["booster"] = True
    return m, package, names


def split_nodes(model, package):
    """Every split node of every tree: (tree, path, depth, feature, gain, cover, parent index or None), from the library's own dump."""
    out = []
    b = model.get_booster() if hasattr(model, "get_booster") else getattr(model, "booster_", model)
    if package == "xgboost":
        for k, t in enumerate(b.get_dump(dump_format="json", with_stats=True)):
            def go(v, d, par):
                if "leaf" in v:
                    return
                me = len(out)
                out.append(dict(tree=k, depth=d, feature=v["split"], gain=v["gain"], cover=v["cover"], parent=par, ID=f"{k}-{v['nodeid']}"))
                for c in v["children"]:
                    go(c, d + 1, me)
            go(json.loads(t), 0, None)
    else:
        dump = b.dump_model()
        fn = dump["feature_names"]
        for t in dump["tree_info"]:
            def go(v, d, par):
                if "split_index" not in v:
                    return
                me = len(out)
                out.append(dict(tree=t["tree_index"], depth=d, feature=fn[v["split_feature"]], gain=v["split_gain"], cover=None, parent=par,
                                ID=f"{t['tree_index']}-S{v['split_index']}"))
                go(v["left_child"], d + 1, me)
                go(v["right_child"], d + 1, me)
            go(t["tree_structure"], 0, None)
    return out


def agg(metric, nodes):
    f = {"mean_gain": lambda: np.mean([v["gain"] for v in nodes]), "sum_gain": lambda: np.sum([v["gain"] for v in nodes]),
         "mean_cover": lambda: np.mean([v["cover"] for v in nodes]), "sum_cover": lambda: np.sum([v["cover"] for v in nodes]),
         "mean_depth": lambda: np.mean([v["depth"] for v in nodes])}
    return float(f[metric]())


def c12_fit(rng, info, **force):
    model, package, names = boosted(rng, info, **force)
    nodes = split_nodes(model, package)
    need_ties = sorted(v["gain"] for v in nodes)
    for only in (True, False):
        want = {}
        tie = False
        for v in nodes:
            if v["parent"] is None:
                continue
            par = nodes[v["parent"]]
            tie = tie or (v["gain"] != par["gain"] and abs(v["gain"] - par["gain"]) < 1e-5 * abs(par["gain"]))
            inter = v["gain"] > par["gain"] and v["feature"] != par["feature"]
            v["inter"] = inter
            if inter or not only:
                want.setdefault((par["feature"], v["feature"]), []).append(v)
        if tie:
            return                                             # the dumps' decimals cannot decide which gain is larger
        metrics = ["mean_gain", "sum_gain", "mean_depth"] + (["mean_cover", "sum_cover"] if package == "xgboost" else [])
        for metric in metrics:
            m = SplitScoreMethod()
            arg = GBTreesHandler(model) if rng.random() < .5 else model
            m.fit(arg, interaction_selected_metric=metric, only_def_interactions=only)
            got = table(m.ovo, ["Feature 1", "Feature 2"], m.method)
            need(set(got) == set(want), f"{metric}, only_def_interactions={only}: pairs {sorted(got)}, the trees say {sorted(want)}")
            for k in want:
                close(got[k], agg(metric, want[k]), f"{metric} of parent {k[0]}, child {k[1]} (only_def_interactions={only})", rtol=1e-4, atol=1e-6)
        fr = m.full_result
        fr = fr.loc[fr["leaf"] == False]                       # noqa: E712
        rows = {r["ID"]: r for _, r in fr.iterrows()}
        need(len(rows) == len(fr) == len(nodes), f"{len(fr)} split rows for {len(nodes)} split nodes")
        for v in nodes:
            r = rows[v["ID"]]
            need(r["split_feature"] == v["feature"] and int(r["depth"]) == v["depth"] and int(r["tree"]) == v["tree"],
                 f"node {v['ID']}: recorded {dict(r)}, the tree says {v}")
            close(r["gain"], v["gain"], f"gain of {v['ID']}", rtol=1e-4)
            if v["parent"] is not None:
                par = nodes[v["parent"]]
                need(r["parent_name"] == par["feature"], f"node {v['ID']}: parent feature {r['parent_name']} instead of {par['feature']}")
                close(r["parent_gain"], par["gain"], f"parent gain of {v['ID']}", rtol=1e-4)
                if package == "xgboost":
                    close(r["parent_cover"], par["cover"], f"parent cover of {v['ID']}", rtol=1e-4)
                need((r["interaction"] == True) == v["inter"], f"node {v['ID']}: interaction={r['interaction']}")   # noqa: E712
            else:
                need(not (r["interaction"] == True), f"root {v['ID']} is marked as an interaction")                # noqa: E712


def c12_xgb(rng, info):
    c12_fit(rng, info, package="xgboost", max_depth=int(rng.integers(3, 6)))


def c12_lgb(rng, info):
    c12_fit(rng, info, package="lightgbm", max_depth=5, num_leaves=14)


def c12_stump(rng, info):
    c12_fit(rng, info, max_depth=1)


class Handler(GBTreesHandler):
    """A unified table made by hand (the documented structure), no model behind it."""

    def __init__(self, package, trees_df):
        self.package, self.trees_df = package, trees_df


def handmade(rng, package):
    """Random binary trees with simple gains (ties included); rows parent-first as both libraries list them."""
    rows, nodes = [], []
    feats = ["b", "a", "c"]
    for t in range(int(rng.integers(1, 5))):
        cnt = int(rng.integers(1, 6))                          # split nodes
        kids = {0: None}
        order, parent, open_ = [], {}, [(None, None)]
        k = 0
        children = {}
        frontier = [0]
        parent[0] = None
        nxt = 1
        splits = []
        while frontier and len(splits) < cnt:
            v = frontier.pop(int(rng.integers(0, len(frontier))))
            splits.append(v)
            children[v] = (nxt, nxt + 1)
            for c in children[v]:
                parent[c] = v
                frontier.append(c)
            nxt += 2
        depth = {0: 0}
        for v in sorted(parent):
            if v:
                depth[v] = depth[parent[v]] + 1
        idx = {}
        for v in sorted(parent):
            leaf = v not in children
            gain = float(rng.integers(1, 6)) if not leaf else 0.25
            ft = feats[rng.integers(0, 3)]
            cover = float(rng.integers(1, 9))
            row = dict(tree=t, node=v, ID=f"{t}-{v}", split_feature="Leaf" if leaf else ft,
                       left_child=np.nan if leaf else f"{t}-{children[v][0]}", right_child=np.nan if leaf else f"{t}-{children[v][1]}",
                       gain=gain, cover=cover, leaf=leaf, depth=None)
            if package == "lightgbm":
                row.update(split_feature=None if leaf else ft, left_child=None if leaf else row["left_child"],
                           right_child=None if leaf else row["right_child"], gain=np.nan if leaf else gain, cover=None, depth=depth[v])
                row.pop("node")
            rows.append(row)
            if not leaf:
                idx[v] = len(nodes)
                nodes.append(dict(tree=t, depth=depth[v], feature=ft, gain=gain, cover=cover if package == "xgboost" else None,
                                  parent=None if v == 0 else idx[parent[v]], ID=f"{t}-{v}"))
    for v in nodes:                                            # splits without any gain, next to others of the same feature
        rest = [u["gain"] for u in nodes if u is not v and u["feature"] == v["feature"]]
        if v["parent"] is not None and sum(rest) > 0 and rng.random() < .2:
            v["gain"] = 0.
            next(r for r in rows if r["ID"] == v["ID"])["gain"] = 0.
    return pd.DataFrame(rows), nodes


def c12_handmade(rng, info):
    package = ["xgboost", "lightgbm"][rng.integers(0, 2)]
    df, nodes = handmade(rng, package)
    info.update(package=package, trees_df=df.to_string())
    for only in (True, False):
        want = {}
        for v in nodes:
            if v["parent"] is None:
                continue
            par = nodes[v["parent"]]
            if not only or (v["gain"] > par["gain"] and v["feature"] != par["feature"]):
                want.setdefault((par["feature"], v["feature"]), []).append(v)
        for metric in ["mean_gain", "sum_gain", "mean_depth"] + (["mean_cover", "sum_cover"] if package == "xgboost" else []):
            m = SplitScoreMethod()
            m.fit(Handler(package, df.copy()), interaction_selected_metric=metric, only_def_interactions=only)
            got = table(m.ovo, ["Feature 1", "Feature 2"], m.method)
            need(set(got) == set(want), f"{metric}, only_def_interactions={only}: pairs {sorted(got)}, the trees say {sorted(want)}")
            for k in want:
                close(got[k], agg(metric, want[k]), f"{metric} of parent {k[0]}, child {k[1]} (only_def_interactions={only})")


def imp_want(nodes, metric, fs=None):
    out = {}
    roots = [v for v in nodes if v["depth"] == 0]
    tot = sum(v["gain"] for v in roots)
    for f in sorted({v["feature"] for v in nodes}):
        mine = [v for v in nodes if v["feature"] == f]
        r = [v for v in roots if v["feature"] == f]
        if metric == "mean_weighted_depth":
            out[f] = sum(v["depth"] * v["gain"] for v in mine) / sum(v["gain"] for v in mine)
        elif metric == "root_frequency":
            out[f] = float(len(r))
        elif metric == "weighted_root_frequency":
            out[f] = len(r) * sum(v["gain"] for v in r) / tot
        else:
            out[f] = agg(metric, mine)
    return out


ALL_METRICS = ["mean_gain", "sum_gain", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency", "mean_cover", "sum_cover"]


def _c13(rng, h, nodes, package, names):
    for metric in ALL_METRICS:
        if package == "lightgbm" and "cover" in metric:
            continue
        want = imp_want(nodes, metric)
        imp = SplitScoreImportance()
        df = imp.importance(h, selected_metric=metric)
        got = table(df, ["Feature"], "Importance")
        need(set(got) == set(want), f"{metric}: features {sorted(got)}, splits use {sorted(want)}")
        for f in want:
            close(got[f], want[f], f"{metric} of {f}", rtol=1e-4, atol=1e-6)
        fs = subset(rng, names, 1)
        if metric != "weighted_root_frequency":
            df = SplitScoreImportance().importance(h, features=fs, selected_metric=metric)
            got = table(df, ["Feature"], "Importance")
            need(set(got) == set(want) & set(fs), f"{metric}, features={fs}: listed {sorted(got)}")
            for f in got:
                close(got[f], want[f], f"{metric} of {f} (features={fs})", rtol=1e-4, atol=1e-6)
        if metric in ("sum_gain", "mean_gain", "mean_depth"):
            df = SplitScoreImportance().importance(h, selected_metric=metric, trees_df=h.trees_df)
            got = table(df, ["Feature"], "Importance")
            for f in want:
                close(got[f], want[f], f"{metric} of {f}, table given", rtol=1e-4, atol=1e-6)
            m = SplitScoreMethod()
            m.fit(h, importance_selected_metric=metric)
            got = table(m.feature_importance, ["Feature"], "Importance")
            need(set(got) == set(want), f"{metric} within SplitScoreMethod: features {sorted(got)}")
            for f in want:
                close(got[f], want[f], f"{metric} of {f} within SplitScoreMethod", rtol=1e-4, atol=1e-6)


def c13_model(rng, info):
    model, package, names = boosted(rng, info)
    nodes = split_nodes(model, package)
    if nodes:
        _c13(rng, GBTreesHandler(model), nodes, package, names)


def c13_handmade(rng, info):
    package = ["xgboost", "lightgbm"][rng.integers(0, 2)]
    df, nodes = handmade(rng, package)
    info.update(package=package, trees_df=df.to_string())
    _c13(rng, Handler(package, df.copy()), nodes, package, ["a", "b", "c"])


CASES = {
    "C10": [(c10_fit, 40), (c10_best_first, 15), (c10_deep, 10), (c10_constant, 2)],
    "C11": [(c11_fit, 40), (c11_constant, 2), (c11_direct, 30)],
    "C12": [(c12_fit, 10), (c12_xgb, 6), (c12_lgb, 6), (c12_stump, 4), (c12_handmade, 24)],
    "C13": [(c13_model, 16), (c13_handmade, 20)],
}
