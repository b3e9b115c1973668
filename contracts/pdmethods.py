"""C04, C05, C06, C14 (their tables), C22: the partial-dependence based methods."""
from pyvc.spec import *
from contracts.pd import CTX, M as PDMOD, MINUS, PAIRS, SINGLE, explains, pair_pd, pred, read_key, sPD1, sPD2, sPDM, setup, sspec, store, uniq, xc

H = "artemis.interactions_methods.model_agnostic.partial_dependence_based._friedman_h_statistic"


def features_arg(X, mode):
    """(argument, sequence of requested features)"""
    if mode == "all":
        return None, X.c.cols
    l = feature_list(X, "feats", 2)
    return l, l.c.keyed


def hstat(n, P, A, B, normalized):
    """(value, undefined)"""
    cen = lambda f: (lambda m: lambda r: tm.sub(f(r), m))(mean(n, f))
    p, a, b = cen(P), cen(A), cen(B)
    sq = lambda r: tm.power(tm.sub(tm.sub(p(r), a(r)), b(r)), 2)
    num, den = total(n, sq), total(n, lambda r: tm.power(p(r), 2))
    if normalized:
        nonneg_ratio(n, lambda r: tm.sub(tm.sub(p(r), a(r)), b(r)), p)
        return tm.div(num, den), tm.and_(tm.eq(num, 0), tm.eq(den, 0))
    return tm.sqrt(mean(n, sq)), FALSE


def nonneg_ratio(n, a, b):
    """instance of the lemma `a ratio of sums of squares is not negative`"""
    E.used_contracts.add("lemma: a ratio of sums of squares is not negative")
    E.assume(tm.le(0, tm.div(total(n, lambda r: tm.power(a(r), 2)), total(n, lambda r: tm.power(b(r), 2)))))


def run_h(mode, normalized, ova, sampled=False):
    def run(w):
        X = setup("custom", 1, 2)
        feats, seq = features_arg(X, mode)
        m = w.load(H).FriedmanHStatisticMethod(random_state=Num(E.fresh("seed", "I")), normalized=normalized)
        n = Num(pos_int("n", 1)) if sampled else None
        if sampled:
            E.assume(tm.le(n.t, X.c.n))
        m.fit(CTX["model"], X, n, CTX["pf"], feats, calculate_ova=ova)
        S = m.X_sampled
        with_rows(m, S, seq, normalized, ova)
    return run


def with_rows(m, S, seq, normalized, ova):
    n = S.c.n

    def value(f, g):
        return hstat(n, lambda r: pair_pd(f, g, xc(f, r, S), xc(g, r, S), S), lambda r: sPD1(f, xc(f, r, S), S),
                     lambda r: sPD1(g, xc(g, r, S), S), normalized)

    def one_vs_all(f):
        return hstat(n, lambda r: pred(lambda q: xc(q, r, S)), lambda r: sPD1(f, xc(f, r, S), S), lambda r: sPDM(f, r, S), normalized)
    if ova:
        feature_table("ova", m.ova, m.method, seq, one_vs_all, ascending=False)
    else:
        pair_table("ovo", m.ovo, m.method, seq, value, ascending=False)
        E.oblige("no one-vs-all table when not asked for", TRUE if m.ova is None else FALSE)


def is_table(what, t, cols):
    if not isinstance(t, table.STable):
        raise Unsupported("%s is not a table" % what)
    E.oblige("%s: columns %s" % (what, ", ".join(cols)), TRUE if list(t.c.names) == list(cols) else FALSE)


def perm(t):
    return t.c.perm_of or (lambda i: i, lambda i: i, [])


def row_values(what, t, col, n, value, ascending, rows, lemmas=True, nonneg=True):
    """value(k) is the value of the k-th requested item; the rows are a permutation of the items"""
    p, q, order = perm(t)
    fs = t.c.fns
    E.oblige("%s: as many rows as requested" % what, tm.eq(t.c.n, n))
    i = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, n)))
    k = p(i)
    E.oblige("%s: every row is one of the requested" % what, tm.and_(tm.le(0, k), tm.lt(k, n), rows(i, k)))
    E.oblige("%s: everything requested has exactly one row" % what, tm.and_(
        tm.le(0, q(i)), tm.lt(q(i), n), tm.eq(p(q(i)), i), tm.eq(q(p(i)), i)))
    if value is not None:
        v, undef = value(k)
        x = num_of(fs[col](i))
        E.oblige("%s: the row's value is its own, an undefined one reported as 0" % what, tm.and_(
            tm.not_(x.nan), tm.eq(x.t, tm.ite(undef, 0, v))))
        if not lemmas:
            return
    if not ascending and nonneg:
        k = E.fresh("item", "I")
        E.assume(tm.and_(tm.le(0, k), tm.lt(k, n)))
        if lemmas:
            value(k)
        x = num_of(fs[col](q(k)))
        E.assume(tm.eq(p(q(k)), k))
        E.oblige("%s: the values are not negative" % what, tm.subst(tm.le(0, x.t), {p(q(k)): k}, everything=True))
        E.assume(tm.forall_i(n, lambda i: tm.subst(tm.le(0, x.t), {p(q(k)): p(i)}, everything=True)))
    i, j = E.fresh("upper", "I"), E.fresh("lower", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, n)))
    E.oblige("%s: ordered from strongest to weakest" % what, table.lex([(fs[col], tm.lift(ascending))], i, j))


def pair_table(what, t, col, seq, value, ascending, lemmas=True):
    """exactly one row per unordered pair of `seq`, with its value, sorted"""
    is_table(what, t, ["Feature 1", "Feature 2", col])
    q = lib.combinations(seq, 2)
    _, c1, c2, rank = q.comb
    fs = t.c.fns

    def rows(i, k):
        f, g = valt(seq.at(c1(k))), valt(seq.at(c2(k)))
        a, b = valt(fs["Feature 1"](i)), valt(fs["Feature 2"](i))
        return tm.or_(tm.and_(tm.eq(a, f), tm.eq(b, g)), tm.and_(tm.eq(a, g), tm.eq(b, f)))
    row_values(what, t, col, q.n, value and (lambda k: value(valt(seq.at(c1(k))), valt(seq.at(c2(k))))), ascending, rows, lemmas)


def feature_table(what, t, col, seq, value, ascending, first="Feature"):
    is_table(what, t, [first, col])
    fs = t.c.fns
    row_values(what, t, col, seq.n, lambda k: value(valt(seq.at(k))), ascending, lambda i, k: tm.eq(valt(fs[first](i)), valt(seq.at(k))))


for mode in ("all", "list"):
    for norm in (True, False):
        for ova in (False, True):
            contract(H + ":FriedmanHStatisticMethod.fit", "C04 C14" if norm else "C04", "%s, %s features%s" % (
                "one-vs-all" if ova else "pairwise", mode, "" if norm else ", not normalised"))(run_h(mode, norm, ova))


@contract(H + ":FriedmanHStatisticMethod.fit", "C04 C14", "lemma: a ratio of sums of squares is not negative")
def ratio(w):
    n = pos_int("n", 1)
    a, b = E.ffun("a", "R"), E.ffun("b", "R")
    N, D = total(n, lambda r: tm.power(a(r), 2)), total(n, lambda r: tm.power(b(r), 2))
    E.oblige("sums of squares are not negative", tm.and_(tm.le(0, N), tm.le(0, D)))
    E.oblige("N / D >= 0", tm.le(0, tm.div(N, D)))


# ------------------------------------------------------------------------------------------------ Greenwell
G = "artemis.interactions_methods.model_agnostic.partial_dependence_based._greenwell"


def isnum(X, c):
    return X.c.isnum(c)


def sample_std(n, f):
    """(value, undefined)"""
    m = mean(n, f)
    return tm.sqrt(tm.div(total(n, lambda i: tm.power(tm.sub(f(i), m), 2)), tm.sub(n, 1))), tm.le(n, 1)


def cond_imp(X, other, n, f):
    """importance of the feature `other` whose profile is f(0..n-1)"""
    if E.branch(isnum(X, other)):
        return sample_std(n, f)
    return tm.div(tm.sub(tm.mk_red("max", n, lambda i: (TRUE, f(i))), tm.mk_red("min", n, lambda i: (TRUE, f(i)))), 4), FALSE


def greenwell(X, f, g):
    """average of sd over the values of f of imp(g | f = u) and sd over the values of g of imp(f | g = v)"""
    nu, uval, uidx, _ = uniq(X)
    PDfg = lambda i, j: sPD2(f, g, uval(f, i), uval(g, j), X)
    parts = []
    for a, b, at in ((f, g, lambda i, j: PDfg(i, j)), (g, f, lambda i, j: PDfg(j, i))):
        imp = lambda i, at=at, b=b: cond_imp(X, b, nu(b), lambda j: at(i, j))
        sd, undef = sample_std(nu(a), lambda i: imp(i)[0])
        # the importance of b is undefined (for one value of a, hence for every) when b is numerical with a single value
        parts.append((sd, tm.or_(undef, tm.and_(isnum(X, b), tm.le(nu(b), 1)))))
    E.branch(tm.le(nu(f), 1))
    E.branch(tm.le(nu(g), 1))
    return tm.div(tm.add(parts[0][0], parts[1][0]), 2), tm.or_(parts[0][1], parts[1][1])


def run_g(mode, case):
    """case: is the first / second column of a pair (in dataset order) numerical, or None for everything but the values"""
    def run(w):
        X = setup("custom", 1, 2)
        feats, seq = features_arg(X, mode)
        m = w.load(G).GreenwellMethod(random_state=Num(E.fresh("seed", "I")))
        m.fit(CTX["model"], X, None, CTX["pf"], feats)
        S = m.X_sampled

        def value(f, g):
            fwd = tm.lt(S.c.cols.pos(SVal(f)), S.c.cols.pos(SVal(g)))
            a, b = (f, g) if E.branch(fwd) else (g, f)
            for c, num in zip((a, b), case):
                E.assume(isnum(S, c) if num else tm.not_(isnum(S, c)))
            return greenwell(S, a, b)
        pair_table("ovo", m.ovo, m.method, seq, value if case else None, ascending=False, lemmas=False)
    return run


for mode in ("all", "list"):
    contract(G + ":GreenwellMethod.fit", "C05 C14", "pairwise, %s features" % mode)(run_g(mode, None))
    for case in ((True, True), (True, False), (False, True), (False, False)):
        contract(G + ":GreenwellMethod.fit", "C05", "values of a %s and a %s feature, %s features" % (
            *["numerical" if x else "categorical" for x in case], mode))(run_g(mode, case))


# ------------------------------------------------------------------------------------------------ PD importance
I = "artemis.importance_methods.model_agnostic._pdp"


def pd_importance(X, c):
    nu, uval, uidx, _ = uniq(X)
    f = lambda i: sPD1(c, uval(c, i), X)
    m = mean(nu(c), f)
    n = nu(c)
    var = tm.div(total(n, lambda i: tm.power(tm.sub(f(i), m), 2)), n)
    rng = tm.div(tm.sub(tm.mk_red("max", n, lambda i: (TRUE, f(i))), tm.mk_red("min", n, lambda i: (TRUE, f(i)))), 4)
    return tm.ite(isnum(X, c), tm.sqrt(var), rng), FALSE


def run_i(mode, sampled=False):
    def run(w):
        X = setup("custom", 1, 1)
        feats, seq = features_arg(X, mode)
        imp = w.load(I).PartialDependenceBasedImportance()
        got = imp.importance(CTX["model"], X, None, CTX["pf"], feats)
        feature_table("importance", got, "Importance", seq, lambda c: pd_importance(imp.X_sampled, c), ascending=False)
        E.oblige("the table is also stored on the method", TRUE if imp.feature_importance is got else got.c.same(imp.feature_importance.c))
    return run


for mode in ("all", "list"):
    contract(I + ":PartialDependenceBasedImportance.importance", "C06 C14", "importance, %s features" % mode)(run_i(mode))


# ------------------------------------------------------------------------------------------------ a calculator supplied by the caller
def used_calculator(w, X):
    """a calculator for the same model and data after any history: every value set so far is the right one (invariant of C01-C03)"""
    calc = w.load(PDMOD).PartialDependenceCalculator(CTX["model"], X, CTX["pf"], Num(E.fresh("batchsize", "I")))
    for K in (SINGLE, PAIRS, MINUS):
        d = store(calc, K)
        old, spec_, unset = d.c, sspec(K, calc.X), E.ffun("not_yet_" + K.name, "B")

        def val(*k, old=old, spec_=spec_, unset=unset):
            items = dict(read_key(old, k).c.items)
            a, kt = items["pd_values"].c, tuple(valt(x) for x in k)
            items["pd_values"] = Fz(SArr, ArrC(a.shape, lambda *ii: Num(spec_(*kt, *ii), unset(*kt, *ii))))
            return Fz(SDict, DictC(items))
        d.put(DictC({}, Fam(old.fam.seq, val, old.fam.arity, old.fam.tup)))
    return calc


def supplied_h(ova):
    def run(w):
        X = setup("custom", 1, 2)
        calc = used_calculator(w, X)
        m = w.load(H).FriedmanHStatisticMethod(random_state=Num(E.fresh("seed", "I")))
        m.fit(CTX["model"], X, None, CTX["pf"], None, calculate_ova=ova, pd_calculator=calc)
        with_rows(m, calc.X, X.c.cols, True, ova)
    return run


for ova in (False, True):
    contract(H + ":FriedmanHStatisticMethod.fit", "C04", "%s, calculator supplied by the caller" % ("one-vs-all" if ova else "pairwise"))(supplied_h(ova))


@contract(I + ":PartialDependenceBasedImportance.importance", "C06", "calculator supplied by the caller")
def supplied_i(w):
    X = setup("custom", 1, 1)
    calc = used_calculator(w, X)
    imp = w.load(I).PartialDependenceBasedImportance()
    got = imp.importance(CTX["model"], X, features=None, pd_calculator=calc)
    feature_table("importance", got, "Importance", X.c.cols, lambda c: pd_importance(calc.X, c), ascending=False)


@contract(G + ":GreenwellMethod.fit", "C05", "values of a numerical and a categorical feature, calculator supplied by the caller")
def supplied_g(w):
    X = setup("custom", 1, 2)
    calc = used_calculator(w, X)
    m = w.load(G).GreenwellMethod(random_state=Num(E.fresh("seed", "I")))
    m.fit(CTX["model"], X, None, CTX["pf"], None, pd_calculator=calc)
    S = calc.X

    def value(f, g):
        a, b = (f, g) if E.branch(tm.lt(S.c.cols.pos(SVal(f)), S.c.cols.pos(SVal(g)))) else (g, f)
        E.assume(tm.and_(isnum(S, a), tm.not_(isnum(S, b))))
        return greenwell(S, a, b)
    pair_table("ovo", m.ovo, m.method, X.c.cols, value, ascending=False, lemmas=False)


# ------------------------------------------------------------------------------------------------ which prediction is explained
def asked(kind, what):
    def run(w):
        X = setup(kind, 1, 2)
        if what == "importance":
            imp = w.load(I).PartialDependenceBasedImportance()
            got = imp.importance(CTX["model"], X, None, CTX["pf"], None)
            return feature_table("importance", got, "Importance", X.c.cols, lambda c: pd_importance(imp.X_sampled, c), ascending=False)
        m = w.load(G).GreenwellMethod() if what == "greenwell" else w.load(H).FriedmanHStatisticMethod()
        if what == "greenwell":
            m.fit(CTX["model"], X, None, CTX["pf"], None)
            return pair_table("ovo", m.ovo, m.method, X.c.cols, None, ascending=False, lemmas=False)
        m.fit(CTX["model"], X, None, CTX["pf"], None, calculate_ova=True)
        with_rows(m, m.X_sampled, X.c.cols, True, True)
    return run


for kind in ("custom", "predict", "proba"):
    contract(H + ":FriedmanHStatisticMethod.fit", "C22", "one-vs-all, %s prediction" % kind)(asked(kind, "h"))
    contract(G + ":GreenwellMethod.fit", "C22", "%s prediction" % kind)(asked(kind, "greenwell"))
    contract(I + ":PartialDependenceBasedImportance.importance", "C22", "%s prediction" % kind)(asked(kind, "importance"))
