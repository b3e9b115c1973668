"""C15, C16, C17: every model-agnostic method works on n distinct rows of the caller's dataset (all rows in order without n),
draws them from its own generator and leaves the caller's objects alone."""
from pyvc.spec import *
from contracts.additivity import M as ADD
from contracts.pd import CTX, setup
from contracts.pdmethods import G, H, I, features_arg
from contracts.perf import same_content, unchanged

O = "artemis._utilities.ops"


def rows_used(X, S, n):
    """S consists of n distinct rows of X with their own cells, or is all of X in order"""
    if not isinstance(S, lib.SFrame):
        raise Unsupported("sampled data")
    c = S.c
    E.oblige("the data used have the dataset's columns", TRUE if c.cols is X.c.cols else FALSE)
    if n is None:
        E.oblige("without n the whole dataset is used in its original order", TRUE if c is X.c else X.c.same(c))
        return None
    E.oblige("exactly n rows", tm.eq(c.n, n.t))
    i, j = E.fresh("row", "I"), E.fresh("other", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, n.t), tm.le(0, j), tm.lt(j, n.t), tm.ne(i, j)))
    sel = E.samples[0] if E.samples else (lambda k: k)
    E.oblige("every row is a row of the dataset", tm.and_(tm.le(0, sel(i)), tm.lt(sel(i), X.c.n), tm.forall("V", lambda q: tm.implies(
        X.c.has(q), tm.eq(valt(c.cell(q, i)), valt(X.c.cell(q, sel(i))))))))
    E.oblige("no row is used twice", tm.ne(sel(i), sel(j)))
    return sel


def size(X, sampled):
    if not sampled:
        return None
    n = Num(pos_int("n", 1))
    E.assume(tm.le(n.t, X.c.n))
    return n


def seed():
    return Num(E.fresh("seed", "I"))


def run(make, call, lo, sampled):
    def go(w):
        X = setup("custom", 1, lo)
        feats, _ = features_arg(X, "list")
        before = X.c, feats.c
        m = make(w)
        n = size(X, sampled)
        call(m, X, n, feats)
        E.oblige("frame: the caller's dataset and feature list are unchanged", tm.and_(
            TRUE if X.c is before[0] else before[0].same(X.c), TRUE if feats.c is before[1] else same_content(before[1], feats.c)))
        rows_used(X, m.X_sampled, n)
    return go


METHODS = [
    (H + ":FriedmanHStatisticMethod.fit", lambda w: w.load(H).FriedmanHStatisticMethod(random_state=seed()),
     lambda m, X, n, fs: m.fit(CTX["model"], X, n, CTX["pf"], fs), 2),
    (G + ":GreenwellMethod.fit", lambda w: w.load(G).GreenwellMethod(random_state=seed()),
     lambda m, X, n, fs: m.fit(CTX["model"], X, n, CTX["pf"], fs), 2),
    (I + ":PartialDependenceBasedImportance.importance", lambda w: w.load(I).PartialDependenceBasedImportance(),
     lambda m, X, n, fs: m.importance(CTX["model"], X, n, CTX["pf"], fs), 1),
    (ADD + ":AdditivityMeter.fit", lambda w: w.load(ADD).AdditivityMeter(random_state=seed()),
     lambda m, X, n, fs: m.fit(CTX["model"], X, n, predict_function=CTX["pf"]), 1),
]
for key, make, call, lo in METHODS:
    for sampled in (True, False):
        contract(key, "C15 C16" if key.startswith(I) and sampled else "C15 C16 C17", "sampled rows" if sampled else "no sampling",
                 purity=not key.startswith(I))(run(make, call, lo, sampled))


@contract(O + ":sample_if_not_none", "C16", "more rows than there are")
def s0(w):
    X = setup("custom", 1, 1)
    n = Num(pos_int("n", 1))
    E.assume(tm.lt(X.c.n, n.t))
    err, _ = raises(w.load(O).sample_if_not_none, generator(w), X, n)
    E.oblige("a sample larger than the dataset is refused, not cut short", TRUE if err is not None else FALSE)


@contract(O + ":sample_if_not_none", "C16", "rows", purity=True)
def s1(w):
    X = setup("custom", 1, 1)
    n = size(X, E.branch(E.fresh("with_n", "B")))
    g = generator(w)
    rows_used(X, w.load(O).sample_if_not_none(g, X, n), n)


def generator(w):
    m = w.load(ADD).AdditivityMeter(random_state=seed())
    return m._random_generator


@contract(O + ":sample_both_if_not_none", "C16", "more rows than there are")
def s3(w):
    X = setup("custom", 1, 1)
    y = E.ffun("y", "V")
    n = Num(pos_int("n", 1))
    E.assume(tm.lt(X.c.n, n.t))
    err, _ = raises(w.load(O).sample_both_if_not_none, generator(w), X, SArr(ArrC((X.c.n,), lambda i: SVal(y(i)))), n)
    E.oblige("a sample larger than the dataset is refused, not cut short", TRUE if err is not None else FALSE)


def s2(kind):
    def go(w):
        X = setup("custom", 1, 1)
        y = E.ffun("y", "V")
        N = X.c.n
        t = SArr(ArrC((N,), lambda i: SVal(y(i))))
        if kind == "series":
            lab = E.ffun("ylab", "V")
            t = lib.SSeries(ArrC((N,), lambda i: SVal(y(i)), index=lib.Index(N, lambda i: SVal(lab(i)))))
        t = own(t, "the caller's targets")
        n = size(X, E.branch(E.fresh("with_n", "B")))
        S, ys = w.load(O).sample_both_if_not_none(generator(w), X, t, n)
        sel = rows_used(X, S, n)
        if not isinstance(ys, SArr):
            raise Unsupported("sampled targets")
        i = E.fresh("target", "I")
        N = X.c.n if n is None else n.t
        E.oblige("as many targets as rows", tm.eq(ys.c.shape[0], N))
        E.assume(tm.and_(tm.le(0, i), tm.lt(i, N)))
        E.oblige("each row keeps its own target", eq_vals(ys.c.at(i), t.c.at(sel(i) if sel else i)))
    return go


for kind in ("array", "series"):
    contract(O + ":sample_both_if_not_none", "C16", "rows and targets, %s targets" % kind, purity=True)(s2(kind))
