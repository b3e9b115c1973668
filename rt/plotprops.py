"""Run-time oracle for C20: what is drawn, read back from the matplotlib artists."""
import itertools

from common import *          # noqa: F401,F403
from common import np, pd
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.patches import FancyArrowPatch, Rectangle
from artemis._utilities.domain import VisualizationType as VT
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from tableprops import fitted, EVERY

THRESHOLD = {"friedman": .05, "greenwell": .05, "sejong": .1, "cmd": .6, "split": .1}
MAXW = {"friedman": 20, "greenwell": 20, "sejong": 20, "cmd": 3, "split": 20}


def cols_of(m):
    return ("root_variable", "variable") if isinstance(m, ConditionalMinimalDepthMethod) else ("Feature 1", "Feature 2")


def ascending(m):
    return bool(m._interactions_ascending_order)


def made_up(rng, which, info):
    """A method whose fitted tables are given through its public attributes: arbitrary values, exact bookkeeping."""
    names = [["b", "A", "c1", "c"], ["x", "y", "z"], ["Q", "q", "R", "s", "t"], ["u", "v"]][rng.integers(0, 4)]
    names = [names[i] for i in rng.permutation(len(names))]
    m = fitted(which)
    k1, k2 = cols_of(m)
    if which == "cmd":
        prs = list(itertools.permutations(names, 2))
    elif which.startswith("split"):
        prs = [p for p in itertools.permutations(names, 2) if rng.random() < .7] or [tuple(names[:2])]
        if rng.random() < .5:
            prs = prs + [(names[0], names[0])]
    else:
        prs = [p if rng.random() < .5 else p[::-1] for p in itertools.combinations(names, 2)]
    scale = [.04, .3, 1.0, 5.0][rng.integers(0, 4)]
    vals = np.round((rng.permutation(len(prs)) + 1) * scale / len(prs), 4)
    if rng.random() < .3 and len(vals) > 2:
        vals[0] = vals[1]
    if rng.random() < .2:
        vals = vals + 1.0
    df = pd.DataFrame([(a, b, v) for (a, b), v in zip(prs, vals)], columns=[k1, k2, m.method])
    df = df.sort_values(m.method, ascending=ascending(m), ignore_index=True)
    if which == "cmd":
        df["n_occurences"] = rng.integers(1, 4, len(df)) if rng.random() < .6 else 2
        df = df.sort_values(["n_occurences", m.method], ascending=[False, True], ignore_index=True)
    m.ovo = df
    used = sorted({a for a, _ in prs} | {b for _, b in prs})
    imp = [f for f in names if f in used]
    m.feature_importance = pd.DataFrame({"Feature": imp, "Importance": np.round((rng.permutation(len(imp)) + 1) * .5, 3)}).sort_values(
        "Importance", ascending=which in ("cmd", "split_depth"), ignore_index=True)
    if which == "friedman":
        m.ova = pd.DataFrame({"Feature": imp, m.method: np.round((rng.permutation(len(imp)) // rng.integers(1, 3) + 1) * .25, 3)}).sort_values(
            m.method, ascending=False, ignore_index=True)
    info.update(method=which, ovo=m.ovo.to_string(), importance=m.feature_importance.to_string())
    return m


def read_heatmap(ax):
    meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
    need(meshes, "no heatmap drawn")
    cols = [t.get_text() for t in ax.get_xticklabels()]
    rows = [t.get_text() for t in ax.get_yticklabels()]
    need(len(set(cols)) == len(cols) and len(set(rows)) == len(rows), f"axis labels {rows} / {cols}")
    out = {}
    for q in meshes:
        arr = np.ma.masked_invalid(np.ma.array(q.get_array()).reshape(len(rows), len(cols)))
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                if not np.ma.getmaskarray(arr)[i, j]:
                    need((r, c) not in out, f"cell ({r},{c}) drawn twice")
                    out[r, c] = float(arr[i, j])
    return rows, cols, out


def check_heatmap(ax, m, directed):
    rows, cols, cells = read_heatmap(ax)
    need(rows == cols, f"rows are ordered {rows}, columns {cols}")
    k1, k2 = cols_of(m)
    ovo = {(a, b): v for a, b, v in zip(m.ovo[k1], m.ovo[k2], m.ovo[m.method])}
    want = {}
    for (a, b), v in ovo.items():
        if a != b and not np.isnan(v):
            want[a, b] = v
            if not directed and (b, a) not in ovo:
                want[b, a] = v
    imp = dict(zip(m.feature_importance["Feature"], m.feature_importance["Importance"])) if m.feature_importance is not None else {}
    for f in rows:
        if f in imp:
            want[f, f] = imp[f]
    for k in set(cells) | set(want):
        if k[0] == k[1] and k[0] not in imp:
            continue
        need(k in cells, f"cell {k} is empty, the table says {want.get(k)}")
        need(k in want, f"cell {k} shows {cells[k]}, the table has no value for it")
        close(cells[k], want[k], f"heatmap cell {k}")
    need(set(rows) == {x for k in want for x in k}, f"features shown: {rows}")


def read_graph(ax):
    nodes = [c for c in ax.collections if isinstance(c, PathCollection)]
    need(len(nodes) == 1, f"{len(nodes)} node sets drawn")
    pos = np.asarray(nodes[0].get_offsets())
    labels = {}
    edge_labels = []
    for t in ax.texts:
        x, y = t.get_position()
        d = np.hypot(pos[:, 0] - x, pos[:, 1] - y)
        if d.min() < 1e-9 and int(d.argmin()) not in labels:
            labels[int(d.argmin())] = t.get_text()
        else:
            edge_labels.append((t.get_text(), (x, y)))
    need(len(labels) == len(pos), f"{len(labels)} labels for {len(pos)} nodes")

    def who(p):
        d = np.hypot(pos[:, 0] - p[0], pos[:, 1] - p[1])
        return labels[int(d.argmin())]
    edges = {}
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs, lw = c.get_segments(), np.asarray(c.get_linewidths(), float)
            for k, s in enumerate(segs):
                edges[who(s[0]), who(s[-1])] = float(lw[k % len(lw)])
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and p._posA_posB is not None:
            a, b = p._posA_posB
            edges[who(a), who(b)] = float(p.get_linewidth())
    sizes = np.asarray(nodes[0].get_sizes(), float)
    return {labels[i]: (tuple(pos[i]), float(sizes[i % len(sizes)])) for i in range(len(pos))}, edges, edge_labels


def check_graph(ax, m, which, maxw=None, thr=None, nlab=5):
    which = which.split("_")[0]
    maxw = MAXW[which] if maxw is None else maxw
    thr = THRESHOLD[which] if thr is None else thr
    k1, k2 = cols_of(m)
    asc = ascending(m)
    vals = {}
    for a, b, v in zip(m.ovo[k1], m.ovo[k2], m.ovo[m.method]):
        vals.setdefault((a, b), []).append(v)
    directed = which == "cmd"
    nodes, edges, elabels = read_graph(ax)
    want = {}
    for (a, b), v in vals.items():
        k = (a, b) if directed else frozenset((a, b))
        want.setdefault(k, []).extend(v)
    got = {}
    for (a, b), w in edges.items():
        got.setdefault((a, b) if directed else frozenset((a, b)), []).append(w)
    loops = {k for k in want if len(set(k)) == 1}
    need(set(got) | loops == set(want) | loops, f"edges drawn {sorted(map(sorted, got))}, the table has {sorted(map(sorted, want))}")
    for k, ws in got.items():
        need(len(ws) == 1 and np.isfinite(ws[0]) and -1e-9 <= ws[0] <= maxw + 1e-9, f"edge {sorted(k)} has width {ws}, allowed 0..{maxw}")
    one = [(v[0], got[k][0]) for k, v in want.items() if len(v) == 1 and k in got and not np.isnan(v[0])]
    for (v1, w1), (v2, w2) in itertools.permutations(one, 2):
        stronger = v1 < v2 if asc else v1 > v2
        if stronger:
            both = max(v1, v2) <= thr if asc else min(v1, v2) >= thr
            need(w1 > w2 if both and abs(v1 - v2) > 1e-6 * (abs(v1) + abs(v2)) else w1 >= w2 - 1e-9, f"values {v1} and {v2} ({'smaller' if asc else 'larger'} is stronger) drawn with widths {w1} and {w2}")
        if v1 == v2:
            close(w1, w2, f"equal values {v1} drawn with different widths")
    relevant = [v for v, _ in one if (v <= thr if asc else v >= thr)]
    if relevant and len(one) > 1 and all(len(v) == 1 for v in want.values()):
        best = min(relevant) if asc else max(relevant)
        eff = [(best if (v > thr if asc else v < thr) else v) for v, _ in one]
        allv = [v for v, _ in one]
        lo_hi = max(allv) > min(allv)
        if lo_hi:
            top = [w for v, w in one if v == best]
            close(max(w for _, w in one), top[0], "the strongest interaction does not have the widest edge")
            if len({v for v in allv}) > 1 and any((v > thr if asc else v < thr) or v != best for v in allv):
                close(top[0], maxw, "the strongest interaction is not drawn at the maximum width")
    # labels
    if asc:
        return
    # sets: every label must be the rounded value of a relevant interaction lying on that edge
    cand = [(k, v[0]) for k, v in want.items() if len(v) == 1]
    for txt, xy in elabels:
        ok = False
        for k, v in cand:
            a, b = tuple(k) if len(set(k)) == 2 else (tuple(k)[0],) * 2
            mid = ((nodes[a][0][0] + nodes[b][0][0]) / 2, (nodes[a][0][1] + nodes[b][0][1]) / 2)
            if np.hypot(mid[0] - xy[0], mid[1] - xy[1]) < 1e-6 and v >= thr and txt == str(round(v, 2)):
                ok = True
        multi = any(len(v) > 1 for v in want.values())
        if not multi:
            need(ok, f"edge label {txt} is not the value of a relevant interaction (threshold {thr}): {cand}")
        else:
            need(any(txt == str(round(v, 2)) and v >= thr for vs in want.values() for v in vs), f"edge label {txt} names no relevant interaction")
    allrel = sorted([v for vs in want.values() for v in vs if v >= thr and v > 0], reverse=True)
    if not loops and all(len(v) == 1 for v in want.values()):
        need(sorted((t for t, _ in elabels)) == sorted(str(round(v, 2)) for v in allrel[:nlab]) or len(set(allrel)) != len(allrel),
             f"labels {sorted(t for t, _ in elabels)}, the {nlab} strongest relevant values are {allrel[:nlab]}")
    if m.feature_importance is not None:
        imp = dict(zip(m.feature_importance["Feature"], m.feature_importance["Importance"]))
        for a, b in itertools.permutations([f for f in nodes if f in imp], 2):
            if imp[a] > imp[b]:
                need(nodes[a][1] >= nodes[b][1] - 1e-9, f"importances {imp[a]} > {imp[b]} drawn with node sizes {nodes[a][1]}, {nodes[b][1]}")


def check_bars(ax, labels, values, top_k, msg):
    bars = [p for p in ax.patches if isinstance(p, Rectangle)]
    got = [(t.get_text()) for t in ax.get_yticklabels()]
    k = min(top_k, len(labels))
    need(len(bars) == k and got == list(labels)[:k], f"{msg}: bars {got}, the table starts with {list(labels)[:k]}")
    close([b.get_width() for b in bars], list(values)[:k], f"{msg}: bar lengths")
    ys = [b.get_y() for b in bars]
    if len(ys) > 1:
        top_first = (ax.transData.transform((0, ys[0]))[1] > ax.transData.transform((0, ys[-1]))[1])
        need(top_first, f"{msg}: the first row of the table is not on top")


def is_bars(ax):
    return [p for p in ax.patches if isinstance(p, Rectangle)] and not [c for c in ax.collections if isinstance(c, QuadMesh)]


def pair_names(m):
    k1, k2 = cols_of(m)
    return [f"{a}:{b}" for a, b in zip(m.ovo[k1], m.ovo[k2])]


def heat_axes(fig):
    return [a for a in fig.axes if any(isinstance(c, QuadMesh) for c in a.collections) and len(a.get_xticklabels()) > 0 and a.get_xticklabels()[0].get_text()
            and len([c for c in a.collections if isinstance(c, QuadMesh)]) == 2]


def graph_axes(fig):
    return [a for a in fig.axes if any(isinstance(c, PathCollection) for c in a.collections)]


def c20_heatmap(rng, info):
    which = EVERY[rng.integers(0, len(EVERY))]
    m = made_up(rng, which, info) if rng.random() < .75 else fitted(which)
    m.plot(VT.HEATMAP)
    check_heatmap(heat_axes(plt.gcf())[0], m, which == "cmd")


def c20_graph(rng, info):
    which = EVERY[rng.integers(0, len(EVERY))]
    m = made_up(rng, which, info) if rng.random() < .8 else fitted(which)
    kw = {}
    if rng.random() < .4:
        kw["max_edge_width"] = float(rng.integers(2, 9))
        info.update(kw)
    thr = nl = None
    if rng.random() < .4:
        v = m.ovo[m.method].dropna().values
        thr = float([.0, .02, .2, 1.1, *(v[rng.integers(0, len(v))] + [.001, -.001, 0, .01])][rng.integers(0, 8)])
        kw["threshold_relevant_interaction"] = thr
    if rng.random() < .3:
        nl = int(rng.integers(0, 4))
        kw["n_highest_with_labels"] = nl
    info.update(kwargs=kw)
    m.plot(VT.INTERACTION_GRAPH, **dict(kw))
    check_graph(graph_axes(plt.gcf())[0], m, which, maxw=kw.get("max_edge_width"), thr=thr, nlab=5 if nl is None else nl)
    if kw:                                                        # options of one plot are not remembered by the next
        plt.close("all")
        m.plot(VT.INTERACTION_GRAPH)
        check_graph(graph_axes(plt.gcf())[0], m, which)


def c20_bars(rng, info):
    which = EVERY[rng.integers(0, len(EVERY))]
    m = made_up(rng, which, info)
    k = int(rng.integers(1, 12))
    m.plot(VT.BAR_CHART_OVO, top_k=k)
    check_bars(plt.gcf().axes[0], pair_names(m), m.ovo[m.method], k, "pair bar chart")
    plt.close("all")
    m.plot(VT.BAR_CHART_OVO)
    check_bars(plt.gcf().axes[0], pair_names(m), m.ovo[m.method], 10, "pair bar chart (default)")
    plt.close("all")
    if which == "friedman":
        m.plot(VT.BAR_CHART_OVA, top_k=k)
        check_bars(plt.gcf().axes[0], list(m.ova["Feature"]), m.ova[m.method], k, "one-vs-all bar chart")
        plt.close("all")
        m.plot(VT.BAR_CHART_OVA)
        check_bars(plt.gcf().axes[0], list(m.ova["Feature"]), m.ova[m.method], 10, "one-vs-all bar chart (default)")


def c20_summary(rng, info):
    which = EVERY[rng.integers(0, len(EVERY))]
    m = made_up(rng, which, info)
    if which == "friedman" and rng.random() < .4:
        m.ova = None
    m.plot(VT.SUMMARY)
    fig = plt.gcf()
    check_heatmap(heat_axes(fig)[0], m, which == "cmd")
    check_graph(graph_axes(fig)[0], m, which)
    bars = [a for a in fig.axes if is_bars(a) and any(t.get_text() for t in a.get_yticklabels())]
    first = [a for a in bars if any(":" in t.get_text() for t in a.get_yticklabels())]
    need(len(first) == 1, "no pair bar chart in the summary")
    got = [t.get_text() for t in first[0].get_yticklabels()]
    need(got == pair_names(m)[:10], f"summary bar chart lists {got}, the table starts with {pair_names(m)[:10]}")
    close([b.get_width() for b in first[0].patches if isinstance(b, Rectangle)], list(m.ovo[m.method])[:10], "summary bar chart lengths")
    if which == "friedman" and m.ova is not None:
        sec = [a for a in bars if a is not first[0]]
        need(len(sec) == 1, "no one-vs-all bar chart in the summary")
        need([t.get_text() for t in sec[0].get_yticklabels()] == list(m.ova["Feature"])[:10], "summary one-vs-all chart")


def c20_conditional(rng, info):
    m = made_up(rng, "cmd", info)
    k = int(rng.integers(1, 20))
    m.plot(VT.BAR_CHART_CONDITIONAL, top_k=k)
    ax = plt.gcf().axes[0]
    names = pair_names(m)[:k]
    need([t.get_text() for t in ax.get_xticklabels()] == names, f"bars {[t.get_text() for t in ax.get_xticklabels()]}, table {names}")
    hs = sorted(round(float(p.get_height()), 6) for p in ax.patches if isinstance(p, Rectangle) and np.isfinite(p.get_height()) and p.get_height() > 0)
    need(hs == sorted(round(float(v), 6) for v in list(m.ovo[m.method])[:k]), f"bar heights {hs}")


def c20_profiles(rng, info):
    m = fitted(["friedman", "greenwell"][rng.integers(0, 2)])
    c = m.pd_calculator
    f, g = [["b", "A", "c1", "c"][i] for i in rng.permutation(4)[:2]]
    info.update(features=(f, g))
    m.plot_profile(f)
    ax = plt.gcf().axes[0]
    ln = [q for q in ax.lines if len(q.get_xdata()) == len(c.get_pd_single(f))]
    need(ln, "no profile drawn")
    close(ln[0].get_ydata(), c.get_pd_single(f), f"profile of {f}")
    close(ln[0].get_xdata(), uniq(c.X, f), f"values of {f}")
    plt.close("all")
    if type(m) is GreenwellMethod:
        m.plot_profile(f, g)
        ax = plt.gcf().axes[0]
        q = [z for z in ax.collections if isinstance(z, QuadMesh)][0]
        xl, yl = ax.get_xlabel(), ax.get_ylabel()
        need({xl, yl} == {f, g}, f"axes {xl}, {yl} for ({f},{g})")
        M = np.array([[c.get_pd_pairs(yl, xl, [(v, u)])[0] for u in uniq(c.X, xl)] for v in uniq(c.X, yl)])
        close(np.asarray(q.get_array()).reshape(M.shape), M, f"profile of ({f},{g})")


CASES = {"C20": [(c20_heatmap, 24), (c20_graph, 40), (c20_bars, 20), (c20_summary, 10), (c20_conditional, 4), (c20_profiles, 4)]}
