"""Run-time oracles: performance based measures, metrics, sampling, reproducibility (C08, C09, C16, C17, C21)."""
import itertools
import random

from common import *          # noqa: F401,F403
from common import np, pd
from artemis._utilities.domain import ProblemType
from artemis._utilities.performance_metrics import MSE, RMSE, Accuracy, Metric
from artemis._utilities.pd_calculator import PartialDependenceCalculator as Calc   # noqa: F401
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.additivity import AdditivityMeter


class PearsonLike(Metric):
    """A caller's own metric, neither symmetric nor shift invariant."""

    def __init__(self, problem):
        super().__init__(problem)

    def calculate(self, y_true, y_hat):
        return float(np.mean(np.abs(np.asarray(y_true) - 2 * np.asarray(y_hat)) ** 1.5))


def plain_metric(metric, y, p):
    y, p = np.asarray(y, float), np.asarray(p, float)
    if isinstance(metric, RMSE):
        return float(np.sqrt(np.mean((y - p) ** 2)))
    if isinstance(metric, MSE):
        return float(np.mean((y - p) ** 2))
    if isinstance(metric, Accuracy):
        return float(np.mean(y == p))
    return float(np.mean(np.abs(y - 2 * p) ** 1.5))


class Cls(RowModel):
    def predict(self, D):
        self.seen(D)
        return (self.raw(D) > np.float64(self.thr)).astype(int)


def perf_setup(rng, info, n=None, p=None):
    n = int(rng.integers(9, 13)) if n is None else n
    p = int(rng.integers(2, 4)) if p is None else p
    X = make_X(rng, n=n, kinds=["float"] * p)
    for i, c in enumerate(X.columns):                      # columns with distinct values: permutations can be read off
        X[c] = X[c].values * (1 + i) + 0.125 * i
    which = rng.integers(0, 4)
    if which == 0:
        metric, model = RMSE(), Reg(X, rng)
    elif which == 1:
        metric, model = MSE(), Reg(X, rng)
    elif which == 2:
        metric, model = Accuracy(), Cls(X, rng)
        model.thr = float(np.median(model.raw(X)))
    else:
        metric, model = PearsonLike([ProblemType.REGRESSION, ProblemType.CLASSIFICATION][rng.integers(0, 2)]), Reg(X, rng)
    y = quietly(model, model.predict, X)
    y = y + rng.integers(0, 2, n) if not isinstance(metric, Accuracy) else (y + (rng.random(n) < .3)) % 2
    if rng.random() < .5:
        y = pd.Series(y, index=X.index)
    model.record = True
    info.update(X=X, y=np.asarray(y).tolist(), y_type=type(y).__name__, metric=type(metric).__name__)
    return X, y, model, metric


def changed(X, Q):
    """{column: row permutation} for the columns of a query that are not those of the dataset."""
    need(len(Q) == len(X), f"the model was queried with {len(Q)} rows instead of {len(X)}")
    out = {}
    for c in X.columns:
        a, b = X[c].values, Q[c].values
        if not np.array_equal(a, b):
            pos = {v: i for i, v in enumerate(a.tolist())}
            need(sorted(b.tolist()) == sorted(a.tolist()), f"column {c} of a query is not a permutation of the data: {b.tolist()}")
            out[c] = tuple(pos[v] for v in b.tolist())
    return out


def is_class(metric):
    return metric.problem_type == ProblemType.CLASSIFICATION


# ---------------------------------------------------------------- C09
def c09_fit(rng, info):
    X, y, model, metric = perf_setup(rng, info)
    fs = subset(rng, list(X.columns), 1) if rng.random() < .6 else None
    rep = int(rng.integers(1, 5))
    info.update(features=fs, n_repeat=rep)
    kw = {} if fs is None else {"features": fs}
    imp = PermutationImportance(metric, random_state=int(rng.integers(0, 999)))
    if rng.random() < .2:
        imp.importance(model, X, y, n_repeat=1)
        model.queries.clear()
    df = imp.importance(model, X, y, n_repeat=rep, **kw) if rng.random() < .5 else \
        imp.importance(model, X=X, y_true=y, n_repeat=rep, **kw)
    fs = list(X.columns) if fs is None else fs
    got = table(df, ["Feature"], "Importance")
    need(set(got) == set(fs), f"features listed {list(got)}, requested {fs}")
    qs = [changed(X, Q) for Q in model.queries]
    base = plain_metric(metric, y, quietly(model, model.predict, X))
    need(all(len(q) <= 1 for q in qs), lambda: f"a query corrupts several columns at once: {[sorted(q) for q in qs]}")
    for f in fs:
        mine = [Q for q, Q in zip(qs, model.queries) if f in q]
        need(len(mine) == rep, f"{f} was corrupted {len(mine)} times instead of {rep}")
        if rep > 1:
            need(len({q[f] for q in qs if f in q}) > 1, f"{f}: every repetition uses the same permutation")
        want = np.mean([plain_metric(metric, y, quietly(model, model.predict, Q)) for Q in mine]) - base
        close(got[f], -want if is_class(metric) else want, f"permutation importance of {f}")
    need(set().union(*[set(q) for q in qs]) <= set(fs), "a column that was not requested was corrupted")


def c09_default_repeat(rng, info):
    X, y, model, metric = perf_setup(rng, info, p=2)
    PermutationImportance(metric, random_state=3).importance(model, X, y)
    qs = [changed(X, Q) for Q in model.queries]
    for f in X.columns:
        need(sum(f in q for q in qs) == 15, f"default number of repetitions is {sum(f in q for q in qs)} for {f}, documented 15")


# ---------------------------------------------------------------- C08
def c08_fit(rng, info, p=None, rep=None, n=None, whole=False):
    X, y, model, metric = perf_setup(rng, info, p=p, n=n)
    if whole:
        for c in X.columns:
            X[c] = rng.permutation(len(X)) * 0.5
    fs = subset(rng, list(X.columns)) if rng.random() < .5 else None
    rep = int(rng.integers(1, 4)) if rep is None else rep
    info.update(features=fs, n_repeat=rep)
    m = SejongOhMethod(metric, random_state=int(rng.integers(0, 999)))
    if rng.random() < .25:                                 # an earlier fit leaves nothing behind
        m.fit(model, X * 2 + 1, np.asarray(y)[::-1].copy(), n_repeat=1, features=list(X.columns)[:2])
        model.queries.clear()
    m.fit(model, X, y, n_repeat=rep, **({} if fs is None else {"features": fs}))
    fs = list(X.columns) if fs is None else fs
    pairs = list(itertools.combinations(fs, 2))
    got = pair_table(m.ovo, m.method)
    need(set(got) == {frozenset(q) for q in pairs}, f"pairs listed: {list(map(sorted, got))}")
    qs = [changed(X, Q) for Q in model.queries]
    score = [plain_metric(metric, y, quietly(model, model.predict, Q)) for Q in model.queries]
    base = plain_metric(metric, y, quietly(model, model.predict, X))
    sign = -1 if is_class(metric) else 1
    info["queries"] = [sorted(q) for q in qs]
    if whole:
        for q in qs:
            for v in q.values():
                spread(v)
    for q in qs:
        need(len(q) <= 2, f"a query corrupts {sorted(q)}")
        if len(q) == 2:
            need(len(set(q.values())) == 1, f"{sorted(q)} were not shuffled jointly by one permutation")
    delta = [(frozenset(q), sign * (s - base), tuple(q.values())) for q, s in zip(qs, score) if q]
    for pr in pairs:
        joint = [d for d in delta if d[0] == frozenset(pr)]
        need(len(joint) == rep, f"{pr} was jointly corrupted {len(joint)} times instead of {rep}")
        if rep > 1:
            need(len({d[2] for d in joint}) > 1, f"{pr}: every repetition uses the same permutation")
    for f in fs:
        k = sum(1 for d in delta if d[0] == frozenset([f]))
        # each pair needs rep corruptions of f alone; the importance table that fit() also fills needs rep more
        need(k == rep * (len(fs) - 1) + rep, f"{f} alone was corrupted {k} times, expected {rep * len(fs)}")
    # sequential reading: the queries of one pair and one repetition follow each other
    i, vals = 0, {}
    seq = delta[:3 * rep * len(pairs)]
    for blk in range(0, len(seq), 3):
        trio = seq[blk:blk + 3]
        big = max((t[0] for t in trio), key=len)
        d = {t[0]: t[1] for t in trio}
        if len(big) != 2 or set(d) != {big} | {frozenset([x]) for x in big}:
            vals = None
            break
        vals.setdefault(big, []).append(abs(d[big] - sum(v for k, v in d.items() if len(k) == 1)))
    ok = vals is not None and set(vals) == set(got) and all(
        len(v) == rep and np.isclose(np.mean(v), got[k], rtol=1e-6, atol=1e-9) for k, v in vals.items())
    if ok:
        return
    # any other schedule: some assignment of the corruptions of f alone and g alone must explain the value
    if len(pairs) == 1:
        f, g = [frozenset([x]) for x in pairs[0]]
        sj = [d[1] for d in delta if len(d[0]) == 2]
        best = None
        for a in itertools.permutations([d[1] for d in delta if d[0] == f], rep):
            for b in itertools.permutations([d[1] for d in delta if d[0] == g], rep):
                v = np.mean([abs(x - s - t) for x, s, t in zip(sj, a, b)])
                if np.isclose(v, got[frozenset(pairs[0])], rtol=1e-6, atol=1e-9):
                    return
                best = v
        raise Mismatch(f"interaction of {pairs[0]} is {got[frozenset(pairs[0])]}, no assignment of the recorded corruptions gives it (e.g. {best})")
    raise Mismatch(f"interaction values {[(sorted(k), v) for k, v in got.items()]} do not follow from the recorded corruptions "
                   f"{None if vals is None else [(sorted(k), float(np.mean(v))) for k, v in vals.items()]}")


def c08_one_pair(rng, info):
    c08_fit(rng, info, p=2)


def c08_many_rows(rng, info):
    c08_fit(rng, info, p=2, rep=1, n=int(rng.integers(210, 1100)), whole=True)


def c09_many_rows(rng, info):
    X, y, model, metric = perf_setup(rng, info, p=2, n=int(rng.integers(210, 1100)))
    for c in X.columns:
        X[c] = rng.permutation(len(X)) * 0.5
    PermutationImportance(metric, random_state=3).importance(model, X, y, n_repeat=1)
    for Q in model.queries:
        for q in changed(X, Q).values():
            spread(q)


def spread(q):
    """a random permutation of many rows moves rows everywhere"""
    q = np.asarray(q)
    k = len(q) // 10
    for lo in range(0, len(q) - k, k):
        need((q[lo:lo + k] != np.arange(lo, lo + k)).any(), f"rows {lo}..{lo + k} of {len(q)} are never shuffled")


def c08_default_repeat(rng, info):
    X, y, model, metric = perf_setup(rng, info, p=2)
    m = SejongOhMethod(metric, random_state=5)
    m.fit(model, X, y)
    k = sum(len(changed(X, Q)) == 2 for Q in model.queries)
    need(k == 10, f"default number of repetitions is {k}, documented 10")


def c08_sampled(rng, info):
    """measured on the sampled rows, whose targets go with them"""
    X, y, model, metric = perf_setup(rng, info, n=14, p=2)
    n = 10
    m = SejongOhMethod(metric, random_state=int(rng.integers(0, 99)))
    m.fit(model, X, y, n=n, n_repeat=1)
    Xs, ys = m.X_sampled, np.asarray(m.y_sampled)
    qs = [changed(Xs, Q) for Q in model.queries]
    sign = -1 if is_class(metric) else 1
    base = plain_metric(metric, ys, quietly(model, model.predict, Xs))
    d = {}
    for q, Q in zip(qs, model.queries):
        if q:
            d.setdefault(frozenset(q), []).append(sign * (plain_metric(metric, ys, quietly(model, model.predict, Q)) - base))
    f, g = X.columns
    v = m.ovo[m.method].iloc[0]
    cand = [abs(j - a - b) for j in d[frozenset((f, g))] for a in d[frozenset([f])] for b in d[frozenset([g])]]
    need(any(np.isclose(v, c, rtol=1e-6, atol=1e-9) for c in cand), f"value {v} on the sample, candidates {cand}")


# ---------------------------------------------------------------- C21
def c21_metrics(rng, info):
    n = int(rng.integers(1, 9))
    y = rng.integers(-3, 4, n) * 0.5
    p = rng.integers(-3, 4, n) * 0.5
    wrap = [lambda v: v, lambda v: pd.Series(v), lambda v: v.astype(np.float32)][rng.integers(0, 3)]
    y, p = wrap(y), wrap(p)
    if rng.random() < .3:
        y, p = (np.asarray(y) * 2).astype(int), (np.asarray(p) * 2).astype(int)
    info.update(y_true=np.asarray(y).tolist(), y_hat=np.asarray(p).tolist(), kind=type(y).__name__)
    yf, pf = np.asarray(y, float), np.asarray(p, float)
    for a, b in ((y, p), (p, y)):
        close(MSE().calculate(a, b), np.sum((yf - pf) ** 2) / n, "MSE")
        close(RMSE().calculate(a, b), np.sqrt(np.sum((yf - pf) ** 2) / n), "RMSE")
        close(Accuracy().calculate(a, b), sum(u == v for u, v in zip(yf.tolist(), pf.tolist())) / n, "accuracy")
    close(MSE().calculate(y_true=y, y_hat=p), np.sum((yf - pf) ** 2) / n, "MSE by keyword")
    close(Accuracy().calculate(y, y), 1.0, "accuracy of identical labels")
    lab = np.array(["cat", "dog", "Cat"], dtype=object)
    a, b = lab[rng.integers(0, 3, n)], lab[rng.integers(0, 3, n)]
    close(Accuracy().calculate(a, b), np.mean([u == v for u, v in zip(a, b)]), "accuracy of string labels")


def c21_direction(rng, info):
    for m, t in ((MSE(), ProblemType.REGRESSION), (RMSE(), ProblemType.REGRESSION), (Accuracy(), ProblemType.CLASSIFICATION)):
        need(bool(m.applicable_to(t)), f"{type(m).__name__} is not applicable to {t}")
        other = [q for q in (ProblemType.REGRESSION, ProblemType.CLASSIFICATION) if q != t][0]
        need(not m.applicable_to(other), f"{type(m).__name__} claims to apply to {other}")
        need(m.problem_type == t, f"{type(m).__name__}.problem_type is {m.problem_type}")


# ---------------------------------------------------------------- C16
def _row_ids(X):
    return X["rid"].tolist()


def _sample_data(rng, info):
    n = int(rng.integers(6, 12))
    X = make_X(rng, n=n, p=2)
    X["rid"] = rng.permutation(n) * 1.5
    y = X["rid"].values * 10 + 1
    k = int(rng.integers(2, n + 1))
    info.update(X=X, n=k)
    return X, y, k


def _genuine(Xs, X, k, msg):
    need(isinstance(Xs, pd.DataFrame) and list(Xs.columns) == list(X.columns), f"{msg}: sampled columns differ")
    ids = _row_ids(Xs)
    need(len(ids) == k and len(set(ids)) == k, f"{msg}: {len(ids)} rows ({len(set(ids))} distinct) instead of {k}")
    rows = {r[-1]: r for r in X[[c for c in X.columns if c != 'rid'] + ['rid']].itertuples(index=False, name=None)}
    for r in Xs[[c for c in X.columns if c != 'rid'] + ['rid']].itertuples(index=False, name=None):
        need(rows.get(r[-1]) == r, f"{msg}: {r} is not a row of the dataset")


def c16_xy(rng, info):
    X, y, k = _sample_data(rng, info)
    kind = rng.integers(0, 4)
    if kind == 0:
        yy = pd.Series(y, index=X.index)
    elif kind == 1:
        yy = pd.Series(y, index=np.arange(len(y))[::-1] + 3)
    elif kind == 2:
        yy = pd.Series(y)
    else:
        yy = y
    info.update(y_type=type(yy).__name__)
    model = Reg(X, rng)
    m = SejongOhMethod(random_state=int(rng.integers(0, 99)))
    m.fit(model, X, yy, n=k, n_repeat=1)
    _genuine(m.X_sampled, X, k, "SejongOhMethod")
    close(np.asarray(m.y_sampled), np.array(_row_ids(m.X_sampled)) * 10 + 1, "targets of the sampled rows")
    m = SejongOhMethod(random_state=1)
    m.fit(model, X, yy, n_repeat=1)
    need(_row_ids(m.X_sampled) == _row_ids(X), "without n the whole dataset is used in order")
    close(np.asarray(m.y_sampled), y, "without n all targets are used in order")
    _refused("SejongOhMethod", lambda: m.fit(model, X, yy, n=len(X) + 1, n_repeat=1))


def _refused(name, run):
    try:
        run()
    except Exception:
        return
    need(False, f"{name}: a sample larger than the dataset is not refused but cut short")


def c16_x(rng, info):
    X, y, k = _sample_data(rng, info)
    model = Reg(X, rng)
    s = int(rng.integers(0, 99))
    bs = int(rng.integers(1, 60))
    imp = PartialDependenceBasedImportance()
    for name, obj, run in (
            ("FriedmanHStatisticMethod", (a := FriedmanHStatisticMethod(random_state=s)), lambda o, **q: o.fit(model, X, batchsize=bs, **q)),
            ("GreenwellMethod", GreenwellMethod(random_state=s), lambda o, **q: o.fit(model, X, batchsize=bs, **q)),
            ("AdditivityMeter", AdditivityMeter(random_state=s), lambda o, **q: o.fit(model, X, batchsize=bs, **q)),
            ("PartialDependenceBasedImportance", imp, lambda o, **q: o.importance(model, X, batchsize=bs, **q))):
        run(obj, n=k)
        _genuine(obj.X_sampled, X, k, name)
        need(_row_ids(obj.pd_calculator.X) == _row_ids(obj.X_sampled), f"{name}: PD computed on other rows than the sample")
        run(obj)
        need(_row_ids(obj.X_sampled) == _row_ids(X), f"{name}: without n the whole dataset is used in its order")
        run(obj, n=k)
        _genuine(obj.X_sampled, X, k, name + " refitted")
        _refused(name, lambda: run(obj, n=len(X) + 1))


# ---------------------------------------------------------------- C17
def _perturb(k):
    np.random.seed(k)
    random.seed(k)


def _tables(o):
    out = {}
    for a in ("ovo", "ova", "feature_importance", "X_sampled", "y_sampled", "additivity_index", "full_result"):
        v = getattr(o, a, None)
        if v is not None:
            out[a] = v
    return out


def _equal_runs(name, mk, run, seed, msg):
    res = []
    for k in (11, 222):
        _perturb(k)
        g0, r0 = np.random.get_state()[1].copy(), random.getstate()
        o = mk(seed)
        run(o)
        res.append(_tables(o))
        need(np.array_equal(g0, np.random.get_state()[1]) and r0 == random.getstate(),
             f"{name}: a global random generator was used")
    a, b = res
    need(set(a) == set(b), f"{name}: different results")
    for k in a:
        if isinstance(a[k], pd.DataFrame):
            need(a[k].equals(b[k]) and a[k].index.equals(b[k].index), f"{name}, {msg}: {k} differs between two runs with the same random_state")
        else:
            need(np.array_equal(np.asarray(a[k]), np.asarray(b[k])), f"{name}, {msg}: {k} differs between two runs with the same random_state")
    return a


def c17_repro(rng, info):
    X = make_X(rng, n=24, kinds=["float", "fewfloat", "int"])
    model = Reg(X, rng)
    y = model.predict(X) + rng.integers(0, 3, len(X))
    s = [0, int(rng.integers(1, 99999)), 1, 2 ** 40][rng.integers(0, 4)]
    info.update(X=X, random_state=s)
    model2 = Cls(X, rng)
    model2.thr = float(np.median(model2.raw(X)))
    y2 = model2.predict(X)
    small = [c for c in X.columns]
    todo = [
        ("SejongOhMethod", lambda q: SejongOhMethod(random_state=q), lambda o: o.fit(model, X, y, n_repeat=2)),
        ("SejongOhMethod(n)", lambda q: SejongOhMethod(random_state=q), lambda o: o.fit(model, X, y, n=9, n_repeat=2)),
        ("SejongOhMethod(accuracy)", lambda q: SejongOhMethod(Accuracy(), random_state=q), lambda o: o.fit(model2, X, y2, n=15, n_repeat=2)),
        ("PermutationImportance", lambda q: PermutationImportance(random_state=q), lambda o: o.importance(model, X, y, n_repeat=3)),
        ("PermutationImportance(features)", lambda q: PermutationImportance(random_state=q),
         lambda o: o.importance(model, X, y, n_repeat=2, features=small[:2])),
        ("FriedmanHStatisticMethod(n)", lambda q: FriedmanHStatisticMethod(random_state=q), lambda o: o.fit(model, X, n=6)),
        ("GreenwellMethod(n)", lambda q: GreenwellMethod(random_state=q), lambda o: o.fit(model, X, n=5)),
        ("AdditivityMeter(n)", lambda q: AdditivityMeter(random_state=q), lambda o: o.fit(model, X, n=6)),
    ]
    k = rng.permutation(len(todo))[:4] if info is not None else range(len(todo))
    for i in k:
        name, mk, run = todo[i]
        first = _equal_runs(name, mk, run, s, "one fit")

        def twice(o):
            run(o)
            run(o)
        _equal_runs(name, mk, twice, s, "second fit of one object")
        # the seed is what decides: another one must give other draws (24 rows, so equality by chance is negligible)
        o = mk(s + 1)
        run(o)
        other = _tables(o)
        diff = any((not v.equals(other[q])) if isinstance(v, pd.DataFrame) else not np.array_equal(v, other[q]) for q, v in first.items())
        need(diff, f"{name}: random_state has no effect")


CASES = {
    "C08": [(c08_fit, 40), (c08_one_pair, 30), (c08_default_repeat, 1), (c08_sampled, 12), (c08_many_rows, 2)],
    "C09": [(c09_fit, 60), (c09_default_repeat, 1), (c09_many_rows, 2)],
    "C16": [(c16_xy, 24), (c16_x, 8)],
    "C17": [(c17_repro, 8)],
    "C21": [(c21_metrics, 60), (c21_direction, 1)],
}
