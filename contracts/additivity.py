"""C07: the additivity index."""
from pyvc.spec import *
from contracts.pd import CTX, PD1, explains, pred, setup, sPD1, xc

M = "artemis.additivity._additivity_meter"


def index_spec(X):
    """1 - sum_r (p_r - (m + sum_c (PD1(c, X_rc) - m)))^2 / sum_r (p_r - m)^2"""
    n, cols = X.c.n, X.c.cols
    p = lambda r: pred(lambda q: xc(q, r, X))
    m = mean(n, p)
    first = lambda r: total(cols.n, lambda j: tm.sub(sPD1(valt(cols.at(j)), xc(valt(cols.at(j)), r, X), X), m))
    num = total(n, lambda r: tm.power(tm.sub(p(r), tm.add(m, first(r))), 2))
    den = total(n, lambda r: tm.power(tm.sub(p(r), m), 2))
    return num, den


def fit(w, kind, sampled):
    X = setup(kind)
    meter = w.load(M).AdditivityMeter(random_state=Num(E.fresh("seed", "I")))
    n = Num(pos_int("n", 1)) if sampled else None
    if sampled:
        E.assume(tm.le(n.t, X.c.n))
    got = meter.fit(CTX["model"], X, n, predict_function=CTX["pf"])
    return X, meter, got


def mk(kind, sampled):
    def run(w):
        X, meter, got = fit(w, kind, sampled)
        S = meter.X_sampled
        num, den = index_spec(S)
        E.oblige("the data used are the sampled rows" if sampled else "the data used are the caller's dataset",
                 TRUE if (sampled or S.c is X.c) else S.c.same(X.c))
        if not E.branch(tm.eq(den, 0)):
            ensure_eq("the additivity index is 1 - residual / total", got, tm.sub(1, tm.div(num, den)))
        E.oblige("the index is also stored on the meter", eq_vals(meter.additivity_index, got))
    return run


for kind in ("custom", "predict", "proba"):
    for s in (False, True):
        contract(M + ":AdditivityMeter.fit", "C07" if kind == "custom" else "C22", "additivity index, %s prediction%s" % (kind, ", sampled" if s else ""))(mk(kind, s))


@contract(M + ":AdditivityMeter.fit", "C07", "lemma: the index never exceeds 1")
def at_most_one(w):
    """for any residuals a(r) and centred predictions b(r)"""
    n = pos_int("n", 1)
    a, b = E.ffun("residual", "R"), E.ffun("centred", "R")
    N, D = total(n, lambda r: tm.power(a(r), 2)), total(n, lambda r: tm.power(b(r), 2))
    E.oblige("a sum of squares is not negative", tm.and_(tm.le(0, N), tm.le(0, D)))
    E.assume(tm.ne(D, 0))
    E.oblige("1 - residual / total <= 1", tm.le(tm.sub(1, tm.div(N, D)), 1))


@contract(M + ":AdditivityMeter.fit", "C07", "lemma: the index of an additive prediction is 1")
def additive(w):
    """prediction = g0 + sum_j g(j, x_j), with the definitions of mean prediction and single-feature PD (contract of calculate_pd_single)"""
    n, k = pos_int("n", 1), pos_int("columns", 1)
    tm.declare_positive(n)
    g0, g, x = E.fresh("g0", "R"), E.ffun("g", "R"), E.ffun("x", "V")
    p = lambda r: tm.add(g0, total(k, lambda j: g(j, x(j, r))))
    with_col = lambda j, u, r: tm.add(g0, total(k, lambda i: tm.ite(tm.eq(i, j), g(j, u), g(i, x(i, r)))))
    pd = lambda j, u: mean(n, lambda r: with_col(j, u, r))
    m = mean(n, p)
    b = E.ffun("centred", "R")
    residual = lambda r: tm.sub(p(r), tm.add(m, total(k, lambda j: tm.sub(pd(j, x(j, r)), m))))
    E.oblige("every residual is zero", tm.forall_i(n, lambda r: tm.eq(residual(r), 0)))
    N, D = total(n, lambda r: tm.power(residual(r), 2)), total(n, lambda r: tm.power(b(r), 2))
    E.assume(tm.ne(D, 0))
    E.oblige("1 - residual / total = 1", tm.eq(tm.sub(1, tm.div(N, D)), 1))
