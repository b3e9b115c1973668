"""Run-time oracles: partial dependence and everything computed from it (C01-C07, C22)."""
import itertools

from common import *          # noqa: F401,F403
from common import np, pd
from artemis._utilities.pd_calculator import PartialDependenceCalculator as Calc
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
from artemis.additivity import AdditivityMeter


def batches(rng, n):
    opts = [1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 4 * n + 1, 7 * n, 2000]
    return int(max(1, opts[rng.integers(0, len(opts))]))


def aspairs(rng, cols):
    prs = [p if rng.random() < .5 else p[::-1] for p in itertools.combinations(cols, 2)]
    return [prs[i] for i in rng.permutation(len(prs))]


# ---------------------------------------------------------------- C01
def check_single(calc, phi, X, done, rng, note):
    for f in X.columns:
        got = calc.get_pd_single(f)
        if f not in done:
            need(bool(np.all(np.isnan(np.asarray(got, float)))), f"{note}: feature {f} was never requested but has values")
            continue
        vals = uniq(X, f)
        want = {v: pd1(phi, X, f, v) for v in vals}
        close(got, [want[v] for v in vals], f"{note}: PD profile of {f}")
        for ask in ([vals[i] for i in rng.integers(0, len(vals), 5)], X[f].values, list(reversed(vals)), []):
            close(calc.get_pd_single(f, ask), [want[v] for v in list(ask)], f"{note}: PD of {f} at {list(ask)}")
            close(calc.get_pd_single(f, feature_values=ask), [want[v] for v in list(ask)], f"{note}: PD of {f} at {list(ask)}")


def c01_history(rng, info, **kw):
    X = make_X(rng, **kw)
    model, pf = models_for(X, rng)
    b = batches(rng, len(X))
    info.update(X=X, batchsize=b, model=type(model).__name__, predict_function=pf is not None, history=[])
    calc = Calc(model, X, pf, b)
    phi = explained(model, pf)
    done, cols = set(), list(X.columns)
    check_single(calc, phi, X, done, rng, "before any request")
    for step in range(int(rng.integers(1, 5))):
        how = rng.integers(0, 6)
        if how == 0:
            calc.calculate_pd_single()
            done |= set(cols)
            info["history"].append("single(None)")
        elif how == 1:
            fs = subset(rng, cols, 1)
            calc.calculate_pd_single(pd.Index(fs))
            done |= set(fs)
            info["history"].append(f"single(Index({fs}))")
        elif how == 2 and len(cols) > 1:
            prs = aspairs(rng, cols)[:2]
            allc = bool(rng.integers(0, 2))
            calc.calculate_pd_pairs(prs, all_combinations=allc)
            info["history"].append(f"pairs({prs},{allc})")
        elif how == 3:
            fs = subset(rng, cols, 1)
            calc.calculate_pd_minus_single(fs)
            info["history"].append(f"minus({fs})")
        else:
            fs = subset(rng, cols, 1)
            if rng.random() < .4:
                fs = fs + fs[:1]
            calc.calculate_pd_single(fs)
            done |= set(fs)
            info["history"].append(f"single({fs})")
        check_single(calc, phi, X, done, rng, f"after step {step + 1}")


def c01_oneshot_row(rng, info):
    c01_history(rng, info, n=1)


def c01_two_rows(rng, info):
    c01_history(rng, info, n=2)


def c01_default_batch(rng, info):
    """more rows than the default batch size would ever need is slow; 60 rows x 60 values crosses 2000 instead."""
    X = make_X(rng, n=46, kinds=["float", "int"], index="shuffled")
    model = Reg(X, rng)
    info.update(X="46 rows", columns=list(X.columns))
    calc = Calc(model, X)
    calc.calculate_pd_single()
    check_single(calc, explained(model), X, set(X.columns), rng, "default batch size")


# ---------------------------------------------------------------- C02
def check_pairs(calc, phi, X, done, rng, note):
    """done: {frozenset pair: set of (value of a, value of b) with a before b in column order}"""
    cols = list(X.columns)
    for a, b in itertools.combinations(cols, 2):
        M = np.asarray(calc.get_pd_pairs(a, b), float)
        ua, ub = uniq(X, a), uniq(X, b)
        need(M.shape == (len(ua), len(ub)), f"{note}: table of ({a},{b}) has shape {M.shape}")
        known = done.get((a, b), set())
        want = {k: pd2(phi, X, a, k[0], b, k[1]) for k in known}
        for i, u in enumerate(ua):
            for j, v in enumerate(ub):
                if (u, v) in known:
                    close(M[i, j], want[(u, v)], f"{note}: PD of ({a},{b}) at ({u},{v})")
                else:
                    need(np.isnan(M[i, j]), f"{note}: PD of ({a},{b}) at ({u},{v}) was never requested but is set")
        if known:
            ask = [list(known)[i] for i in rng.integers(0, len(known), 6)]
            close(calc.get_pd_pairs(a, b, ask), [want[k] for k in ask], f"{note}: lookup ({a},{b}) at {ask}")
            rev = [(v, u) for u, v in ask]
            close(calc.get_pd_pairs(b, a, rev), [want[k] for k in ask], f"{note}: lookup ({b},{a}) at {rev}")
            need(rev == [(v, u) for u, v in ask], f"{note}: lookup changed the caller's list")


def c02_history(rng, info, **kw):
    X = make_X(rng, **kw)
    cols = list(X.columns)
    model, pf = models_for(X, rng)
    b = batches(rng, len(X))
    info.update(X=X, batchsize=b, model=type(model).__name__, predict_function=pf is not None, history=[])
    calc = Calc(model, X, pf, b)
    phi = explained(model, pf)
    done = {}
    for step in range(int(rng.integers(1, 5))):
        how = rng.integers(0, 5)
        if how == 0:
            fs = subset(rng, cols, 1)
            calc.calculate_pd_single(fs)
            info["history"].append(f"single({fs})")
            continue
        prs = aspairs(rng, cols)
        prs = prs[:int(rng.integers(1, len(prs) + 1))]
        if rng.random() < .25:
            prs = prs + [prs[0][::-1]]
        allc = bool(rng.integers(0, 2))
        if how == 1:
            calc.calculate_pd_pairs(all_combinations=allc)
            prs = list(itertools.combinations(cols, 2))
        elif how == 2 and allc:
            calc.calculate_pd_pairs(prs)
        else:
            calc.calculate_pd_pairs(prs, all_combinations=allc)
        info["history"].append(f"pairs({prs}, all_combinations={allc})")
        for p in prs:
            k = tuple(sorted(p, key=cols.index))
            s = done.setdefault(k, set())
            if allc:
                s |= set(itertools.product(uniq(X, k[0]), uniq(X, k[1])))
            else:
                s |= set(zip(X[k[0]].tolist(), X[k[1]].tolist()))
        check_pairs(calc, phi, X, done, rng, f"after step {step + 1}")


def c02_same_sizes(rng, info):
    c02_history(rng, info, n=int(rng.integers(3, 6)), kinds=["float", "float", "float"])


def c02_grids(rng, info):
    """what profiles, the zenplot and its helper show of a pair, in both orders, before and after"""
    import matplotlib.axes
    import matplotlib.pyplot as plt
    X = make_X(rng, n=int(rng.integers(4, 7)), kinds=["float"] * 4)
    cols = list(X.columns)
    model, pf = models_for(X, rng, kinds=("inter",))
    phi = explained(model, pf)
    info.update(X=X, model=type(model).__name__, predict_function=pf is not None)
    m = GreenwellMethod()
    m.fit(model, X, predict_function=pf)
    c = m.pd_calculator
    table = lambda f, g: np.array([[pd2(phi, X, f, u, g, v) for v in uniq(X, g)] for u in uniq(X, f)])
    T = {p: table(*p) for p in itertools.permutations(cols, 2)}
    got = []
    real = matplotlib.axes.Axes.pcolormesh

    def spy(ax, x, y, z, **k):
        if 1 not in np.shape(z):        # not the colour bar
            got.append((ax, list(x), list(y), np.array(z, float)))
        return real(ax, x, y, z, **k)

    def shown(ax, x, y, z):
        """the (vertical, horizontal) feature pairs a panel's values and axis labels are true of"""
        lx, ly = (t if t in cols else None for t in (ax.get_xlabel() or ax.get_title(), ax.get_ylabel()))
        return [p for p in T if lx in (None, p[1]) and ly in (None, p[0]) and list(uniq(X, p[0])) == y
                and list(uniq(X, p[1])) == x and z.shape == T[p].shape and np.allclose(z, T[p])]
    matplotlib.axes.Axes.pcolormesh = spy
    try:
        k = int(rng.integers(2, 6))
        m.plot_zenplot(zenpath_length=k)
        need(len(got) == k, f"zenplot of length {k} has {len(got)} panels")
        for panel in got:
            need(shown(*panel), f"a zenplot panel (labels {panel[0].get_xlabel() or panel[0].get_title()!r}, {panel[0].get_ylabel()!r}) shows the values of no such pair")
        for f, g in itertools.permutations(cols, 2):
            del got[:]
            m.plot_profile(f, g)
            need(len(got) == 1, f"profile of ({f},{g}) draws {len(got)} grids")
            need({f, g} in [set(p) for p in shown(*got[0])], f"profile of ({f},{g}) shows other values")
            plt.close("all")
    finally:
        matplotlib.axes.Axes.pcolormesh = real
        plt.close("all")
    try:
        from artemis._utilities.zenplot import get_pd_pairs_values as helper
    except ImportError:
        helper = None
    for f, g in 2 * list(itertools.permutations(cols, 2)):
        if helper is not None:
            h = helper(m, (f, g))
            need(list(h["f1_values"]) == list(uniq(X, f)) and list(h["f2_values"]) == list(uniq(X, g)), f"grid of ({f},{g}) has other axes")
            close(h["pd_values"], T[f, g], f"grid of ({f},{g})")
        close(c.get_pd_pairs(f, g, list(itertools.product(uniq(X, f), uniq(X, g)))), T[f, g].ravel(), f"after the plots: ({f},{g})")


# ---------------------------------------------------------------- C03
def c03_history(rng, info, **kw):
    X = make_X(rng, **kw)
    cols = list(X.columns)
    model, pf = models_for(X, rng)
    b = batches(rng, len(X))
    info.update(X=X, batchsize=b, model=type(model).__name__, predict_function=pf is not None, history=[])
    calc = Calc(model, X, pf, b)
    phi = explained(model, pf)
    done = set()
    for step in range(int(rng.integers(1, 4))):
        how = rng.integers(0, 4)
        if how == 0:
            calc.calculate_pd_minus_single()
            done |= set(cols)
            info["history"].append("minus(None)")
        elif how == 1:
            fs = subset(rng, cols, 1)
            calc.calculate_pd_single(fs)
            info["history"].append(f"single({fs})")
        else:
            fs = subset(rng, cols, 1)
            if rng.random() < .3:
                fs = fs + fs[:1]
            calc.calculate_pd_minus_single(fs)
            done |= set(fs)
            info["history"].append(f"minus({fs})")
        for f in cols:
            got = calc.get_pd_minus_single(f)
            if f in done:
                close(got, [pdm(phi, X, f, i) for i in range(len(X))], f"step {step + 1}: complement PD of {f}")
            else:
                need(bool(np.all(np.isnan(np.asarray(got, float)))), f"step {step + 1}: {f} never requested but set")


def c03_two(rng, info):
    c03_history(rng, info, n=int(rng.integers(1, 4)), p=2)


# ---------------------------------------------------------------- fits
def fit_args(rng, X, model, pf):
    kw = {}
    if pf is not None:
        kw["predict_function"] = pf
    if rng.random() < .5:
        kw["features"] = subset(rng, list(X.columns))
    if rng.random() < .7:
        kw["batchsize"] = batches(rng, len(X))
    if rng.random() < .3:
        kw["n"] = int(rng.integers(2, len(X) + 1))
    elif rng.random() < .4:
        c = Calc(model, X, pf, batches(rng, len(X)))
        cols = list(X.columns)
        for _ in range(int(rng.integers(0, 3))):
            r = rng.integers(0, 3)
            if r == 0:
                c.calculate_pd_single(subset(rng, cols, 1))
            elif r == 1:
                c.calculate_pd_pairs(aspairs(rng, cols)[:2], all_combinations=bool(rng.integers(0, 2)))
            else:
                c.calculate_pd_minus_single(subset(rng, cols, 1))
        kw["pd_calculator"] = c
    return kw


def c04_fit(rng, info, kinds=("inter", "inter3", "add"), **xkw):
    X = make_X(rng, **xkw)
    model, pf = models_for(X, rng, kinds)
    kw = fit_args(rng, X, model, pf)
    norm = bool(rng.integers(0, 3))
    info.update(X=X, fit=dict(kw), normalized=norm, model=type(model).__name__)
    m = FriedmanHStatisticMethod(random_state=int(rng.integers(0, 99)), normalized=norm)
    if rng.random() < .2:
        m.fit(model, X)
    m.fit(model, X, **kw)
    Xs = m.X_sampled
    phi = explained(model, pf)
    fs = list(kw.get("features", X.columns))
    at1 = {f: np.array([pd1(phi, Xs, f, v) for v in Xs[f].tolist()]) for f in fs}
    got = pair_table(m.ovo, m.method)
    need(set(got) == {frozenset(p) for p in itertools.combinations(fs, 2)}, f"pairs listed: {list(map(sorted, got))}")
    for f, g in itertools.combinations(fs, 2):
        j = np.array([pd2(phi, Xs, f, u, g, v) for u, v in zip(Xs[f].tolist(), Xs[g].tolist())])
        w = hstat(at1[f], at1[g], j, norm)
        if w is not None:
            close(got[frozenset((f, g))], w, f"H-statistic of ({f},{g})", rtol=1e-5, atol=1e-7)
    ova = table(m.ova, ["Feature"], m.method)
    need(set(ova) == set(fs), f"one-vs-all features {list(ova)}")
    y = phi(Xs)
    for f in fs:
        w = hstat(at1[f], np.array([pdm(phi, Xs, f, i) for i in range(len(Xs))]), y, norm)
        if w is not None:
            close(ova[f], w, f"one-vs-all H-statistic of {f}", rtol=1e-5, atol=1e-7)


def c04_const(rng, info):
    """0/0 values are reported as 0"""
    X = make_X(rng, n=4)
    model = Reg(X, rng, "const")
    info.update(X=X, model="constant")
    m = FriedmanHStatisticMethod()
    m.fit(model, X)
    need(all(v == 0 for v in m.ovo[m.method]), f"constant model: {m.ovo[m.method].tolist()}")
    need(all(v == 0 for v in m.ova[m.method]), f"constant model, one-vs-all: {m.ova[m.method].tolist()}")


def c05_fit(rng, info, **xkw):
    X = make_X(rng, **xkw)
    model, pf = models_for(X, rng)
    kw = fit_args(rng, X, model, pf)
    info.update(X=X, fit=dict(kw), model=type(model).__name__)
    m = GreenwellMethod(random_state=int(rng.integers(0, 99)))
    m.fit(model, X, **kw)
    Xs = m.X_sampled
    phi = explained(model, pf)
    fs = list(kw.get("features", X.columns))
    got = pair_table(m.ovo, m.method)
    need(set(got) == {frozenset(p) for p in itertools.combinations(fs, 2)}, f"pairs listed: {list(map(sorted, got))}")
    for f, g in itertools.combinations(fs, 2):
        close(got[frozenset((f, g))], greenwell(phi, Xs, f, g), f"Greenwell value of ({f},{g})", rtol=1e-5, atol=1e-7)


def c05_mixed(rng, info):
    c05_fit(rng, info, kinds=["str", "float", "int"])


def c05_const(rng, info):
    c05_fit(rng, info, kinds=["const", "float", "str"])


def c06_fit(rng, info, **xkw):
    X = make_X(rng, **xkw)
    model, pf = models_for(X, rng)
    kw = fit_args(rng, X, model, pf)
    info.update(X=X, fit=dict(kw), model=type(model).__name__)
    imp = PartialDependenceBasedImportance()
    df = imp.importance(model, X, **kw)
    need(df.equals(imp.feature_importance), "importance() returns something else than feature_importance")
    Xs = imp.X_sampled
    phi = explained(model, pf)
    fs = list(kw.get("features", X.columns))
    got = table(df, ["Feature"], "Importance")
    need(set(got) == set(fs), f"features listed {list(got)}, requested {fs}")
    want = {f: pd_importance(phi, Xs, f) for f in fs}
    for f in fs:
        close(got[f], want[f], f"PD importance of {f}")
    for cls in (FriedmanHStatisticMethod, GreenwellMethod):
        m = cls()
        k2 = dict(kw)
        k2.pop("n", None)
        k2.pop("pd_calculator", None)
        m.fit(model, Xs, **k2)
        g2 = table(m.feature_importance, ["Feature"], "Importance")
        need(set(g2) == set(fs), f"{cls.__name__}: features listed {list(g2)}, requested {fs}")
        for f in fs:
            close(g2[f], want[f], f"PD importance of {f} within {cls.__name__}")


def c06_mixed(rng, info):
    c06_fit(rng, info, kinds=["str", "float", "int", "bool"])


def c07_fit(rng, info, kinds=("inter", "inter3", "add"), **xkw):
    X = make_X(rng, **xkw)
    model, pf = models_for(X, rng, kinds)
    kw = fit_args(rng, X, model, pf)
    kw.pop("features", None)
    info.update(X=X, fit=dict(kw), model=type(model).__name__, kind=model.kind)
    m = AdditivityMeter(random_state=int(rng.integers(0, 99)))
    r = m.fit(model, X, **kw)
    Xs = m.X_sampled
    phi = explained(model, pf)
    y = phi(Xs)
    if np.sum((y - y.mean()) ** 2) < 1e-12 * (1 + np.sum(y ** 2)):
        return
    close(r, additivity(phi, Xs), "additivity index", rtol=1e-5, atol=1e-6)
    close(m.additivity_index, r, "stored additivity index")
    need(r <= 1 + 1e-9, f"additivity index {r} exceeds 1")
    if model.kind == "add" and (pf is not None or type(model) is Reg):
        close(r, 1.0, "additivity index of an additive model")


def c07_additive(rng, info):
    c07_fit(rng, info, kinds=("add",))


# ---------------------------------------------------------------- C22
class Spy:
    """a prediction function of the caller's, counting its calls"""

    def __init__(self, X):
        self.calls, self.cols = 0, list(X.columns)

    def __call__(self, m, D):
        self.calls += 1
        need(list(D.columns) == self.cols, f"queried with columns {list(D.columns)} instead of {self.cols}")
        return m.raw(D) * 0.5 + 1.0


class Both(RowModel):
    """predict, predict_proba and more; logs which one is used"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []
        self.classes_ = np.array([0, 1, 2])

    def _say(self, what, D):
        self.log.append(what)
        self.seen(D)

    def predict(self, D):
        self._say("predict", D)
        return self.raw(D) + 7

    def predict_proba(self, D):
        self._say("predict_proba", D)
        p = 1 / (1 + np.exp(-self.raw(D) / 8))
        return np.column_stack([(1 - p) / 2, p / 3, p * 2 / 3 + (1 - p) / 2])

    def decision_function(self, D):
        self._say("decision_function", D)
        return self.raw(D)

    def predict_log_proba(self, D):
        self._say("predict_log_proba", D)
        return np.log(self.predict_proba(D))

    def __call__(self, D):
        self._say("call", D)
        return self.raw(D)


class Bare(Both):
    """probabilities, but none of the other attributes of a scikit-learn classifier"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        del self.classes_

    predict_log_proba = decision_function = property(lambda self: (_ for _ in ()).throw(AttributeError("not offered")))


class Plain(Both):
    predict_proba = property(lambda self: (_ for _ in ()).throw(AttributeError("no probabilities")))


def _pd_users(model, X, pf, rng):
    yield "friedman", lambda: FriedmanHStatisticMethod().fit(model, X, predict_function=pf), None
    yield "greenwell", lambda: GreenwellMethod().fit(model, X, predict_function=pf), None
    yield "pd importance", lambda: PartialDependenceBasedImportance().importance(model, X, predict_function=pf), None
    yield "additivity", lambda: AdditivityMeter().fit(model, X, predict_function=pf), None

    def calc():
        c = Calc(model, X, pf, int(rng.integers(1, 40)))
        c.calculate_pd_single()
        c.calculate_pd_pairs()
        c.calculate_pd_minus_single()
    yield "calculator", calc, None


def c22_choice(rng, info):
    X = make_X(rng, n=4, p=3)
    info.update(X=X)
    for cls, want in ((Both, {"predict_proba"}), (Bare, {"predict_proba"}), (Plain, {"predict"})):
        model = cls(X, rng)
        for name, run, _ in _pd_users(model, X, None, rng):
            model.log.clear()
            run()
            need(set(model.log) == want, f"{name}: model queried through {sorted(set(model.log))}, expected {want}")
    for cls in (Both, Plain):
        model = cls(X, rng)
        spy = Spy(X)
        for name, run, _ in _pd_users(model, X, spy, rng):
            model.log.clear()
            spy.calls = 0
            run()
            need(not model.log, f"{name}: the model's own {sorted(set(model.log))} was used despite a prediction function")
            need(spy.calls > 0, f"{name}: the caller's prediction function was never called")
    for pf in (None, Spy(X)):
        for cls in (Both, Plain):
            model = cls(X, rng)
            phi = explained(model, pf)
            m = FriedmanHStatisticMethod()
            m.fit(model, X, predict_function=pf)
            close(m.pd_calculator.get_pd_single(X.columns[0]), prof1(phi, X, X.columns[0]), "profile explains another function")
            imp = PartialDependenceBasedImportance().importance(model, X, predict_function=pf)
            got = table(imp, ["Feature"], "Importance")
            for f in X.columns:
                close(got[f], pd_importance(phi, X, f), f"importance of {f} explains another function")
            close(AdditivityMeter().fit(model, X, predict_function=pf), additivity(phi, X), "additivity explains another function",
                  rtol=1e-5)


def c22_given_calc(rng, info):
    """with a shared calculator, all queries still go through the function asked for"""
    X = make_X(rng, n=5, p=3)
    info.update(X=X)
    model = Both(X, rng)
    spy = Spy(X)
    c = Calc(model, X, spy, 7)
    m = FriedmanHStatisticMethod()
    m.fit(model, X, predict_function=spy, pd_calculator=c)
    need(not model.log, f"shared calculator: the model's own {sorted(set(model.log))} was used")
    a = AdditivityMeter().fit(model, X, predict_function=spy, pd_calculator=c)
    close(a, additivity(explained(model, spy), X), "additivity with shared calculator", rtol=1e-5)
    need(not model.log, "additivity with shared calculator used the model's own prediction")


def c22_columns(rng, info):
    """every query has the dataset's columns in order, whatever subset is explained"""
    X = make_X(rng, p=int(rng.integers(2, 5)))
    model, pf = models_for(X, rng)
    fs = subset(rng, list(X.columns))
    info.update(X=X, features=fs)
    for cls in (FriedmanHStatisticMethod, GreenwellMethod):
        cls().fit(model, X, predict_function=pf, features=fs, batchsize=batches(rng, len(X)))


CASES = {
    "C01": [(c01_history, 60), (c01_oneshot_row, 4), (c01_two_rows, 4), (c01_default_batch, 1)],
    "C02": [(c02_history, 40), (c02_same_sizes, 14), (c02_grids, 5)],
    "C03": [(c03_history, 40), (c03_two, 8)],
    "C04": [(c04_fit, 40), (c04_const, 2)],
    "C05": [(c05_fit, 30), (c05_mixed, 10), (c05_const, 4)],
    "C06": [(c06_fit, 24), (c06_mixed, 8)],
    "C07": [(c07_fit, 40), (c07_additive, 12)],
    "C22": [(c22_choice, 3), (c22_given_calc, 3), (c22_columns, 12)],
}
