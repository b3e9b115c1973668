"""C19: look-ups and comparisons."""
from pyvc.spec import *
from contracts.perf import S
from contracts.refusals import BASE, CMD, CMP, G, H, METHODS, SPLIT, any_value, drawn, make, table_of


def pair_rows(m, distinct):
    """an arbitrary pairwise table of method m; with `distinct`, no unordered pair occurs twice"""
    t = table_of(["Feature 1", "Feature 2", m.method])
    f, g = t.c.fns["Feature 1"], t.c.fns["Feature 2"]
    if distinct:
        same = lambda i, j: tm.or_(tm.and_(tm.eq(valt(f(i)), valt(f(j))), tm.eq(valt(g(i)), valt(g(j)))),
                                   tm.and_(tm.eq(valt(f(i)), valt(g(j))), tm.eq(valt(g(i)), valt(f(j)))))
        E.assume(tm.forall_i(t.c.n, lambda i: tm.forall_i(t.c.n, lambda j: tm.implies(same(i, j), tm.eq(i, j)))))
    return t


def any_metric():
    return SVal(E.fresh("metric", "V"))


def lookup(key):
    def run(w):
        m = make(w, key)
        m.ovo = own(pair_rows(m, True), "the fitted table")
        t = m.ovo.c
        r = E.fresh("row", "I")
        E.assume(tm.and_(tm.le(0, r), tm.lt(r, t.n)))
        f, g, v = (t.fns[c](r) for c in t.names)
        ensure_eq("the value of the pair's row is returned", m.interaction_value(f, g), v.t)
        ensure_eq("the argument order does not matter", m.interaction_value(g, f), v.t)
    return run


for key in METHODS:
    if key.startswith((CMD, SPLIT)):
        continue
    contract(BASE + ":FeatureInteractionMethod.interaction_value", "C19", "look-up, %s" % key.rpartition(":")[2])(lookup(key))


@contract(BASE + ":FeatureInteractionMethod.interaction_value", "C19", "look-up, SplitScoreMethod")
def split(w):
    m = make(w, SPLIT + ":SplitScoreMethod")
    m.metric = any_metric()
    m.ovo = own(pair_rows(m, False), "the fitted table")
    t = m.ovo.c
    r = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, r), tm.lt(r, t.n)))
    f, g, v = (t.fns[c](r) for c in t.names)
    a, b = m.interaction_value(f, g), m.interaction_value(g, f)
    E.oblige("the argument order does not matter", eq_vals(a, b))


@contract(BASE + ":FeatureInteractionMethod.interaction_value", "C19", "look-up, ConditionalMinimalDepthMethod")
def depth(w):
    m = make(w, CMD + ":ConditionalMinimalDepthMethod")
    t = table_of(["root_variable", "variable", m.method])
    m.ovo = own(t, "the fitted table")
    t = t.c
    r = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, r), tm.lt(r, t.n)))
    f, g, v = (t.fns[c](r) for c in t.names)
    c = m._compare_ovo.c
    if c.perm_of is None or not E.groups:
        raise Unsupported("rows per pair expected")
    gr = E.groups[-1]
    k = gr.grp(r)
    p = c.perm_of[1](k)
    E.oblige("the row's pair is a group", tm.and_(tm.le(0, k), tm.lt(k, gr.ng), gr.inside(r, k)))
    F, G = valt(c.fns["Feature 1"](p)), valt(c.fns["Feature 2"](p))
    E.oblige("a row of the look-up table for the pair", tm.and_(tm.le(0, p), tm.lt(p, c.n), tm.or_(
        tm.and_(tm.eq(F, f.t), tm.eq(G, g.t)), tm.and_(tm.eq(F, g.t), tm.eq(G, f.t)))))
    a = m.interaction_value(f, g)
    E.oblige("the argument order does not matter", eq_vals(a, m.interaction_value(g, f)))
    F, G, V = (t.fns[x] for x in t.names)
    i = E.fresh("any row", "I")
    pair = tm.or_(tm.and_(tm.eq(valt(F(i)), f.t), tm.eq(valt(G(i)), g.t)), tm.and_(tm.eq(valt(F(i)), g.t), tm.eq(valt(G(i)), f.t)))
    E.oblige("the group holds the rows of the unordered pair, and no other", tm.implies(tm.and_(tm.le(0, i), tm.lt(i, t.n)), tm.eq(gr.inside(i, k), pair)))
    E.oblige("the value found is the one of the pair's row", tm.eq(num_of(a).t, numt(c.fns[m.method](p))))


# ------------------------------------------------------------------------------------------------ correlations
def ranked(w, key, what):
    m = make(w, key)
    t = pair_rows(m, False)
    m.ovo = own(t, "the fitted table of the %s method" % what)
    return m


def unordered(t, i, j):
    f, g = t.fns["Feature 1"], t.fns["Feature 2"]
    return tm.or_(tm.and_(tm.eq(valt(f(i)), valt(f(j))), tm.eq(valt(g(i)), valt(g(j)))),
                  tm.and_(tm.eq(valt(f(i)), valt(g(j))), tm.eq(valt(g(i)), valt(f(j)))))


def correlations_logged():
    return [x for x in E.log if x[0] == "corr"]


@contract(CMP + ":FeatureInteractionMethodComparator.correlation", "C15 C19", "of the two rankings, symmetric, no pairs merged")
def correlation(w):
    cmp = w.load(CMP).FeatureInteractionMethodComparator()
    a, b = ranked(w, H + ":FriedmanHStatisticMethod", "first"), ranked(w, S + ":SejongOhMethod", "second")
    E.assume(tm.eq(a.ovo.c.n, b.ovo.c.n))
    kind = any_value("correlation_method")
    x, y = cmp.correlation(a, b, kind), cmp.correlation(b, a, kind)
    got = correlations_logged()
    if len(got) != 2:
        raise Unsupported("one correlation per call expected")
    ensure_eq("symmetric in the methods", x, y.t)
    _, k, u, v, r = got[0]
    E.oblige("of the requested kind", eq_vals(k, kind))
    ensure_eq("the correlation found is returned", x, r.t)
    i, j = E.fresh("rank", "I"), E.fresh("another rank", "I")
    for name, m, c in (("first", a, u), ("second", b, v)):
        t = m._compare_ovo.c
        E.oblige("one entry per row of the %s method" % name, tm.eq(c.shape[0], m.ovo.c.n))
        rng = tm.and_(tm.le(0, i), tm.lt(i, t.n), tm.le(0, j), tm.lt(j, t.n))
        E.oblige("the ranking of the %s method: entries are equal exactly for equal unordered pairs" % name,
                 tm.implies(rng, tm.eq(tm.eq(numt(c.at(i)), numt(c.at(j))), unordered(t, i, j))))


@contract(CMP + ":FeatureInteractionMethodComparator.correlation", "C19", "a method with itself")
def itself(w):
    cmp = w.load(CMP).FeatureInteractionMethodComparator()
    a = ranked(w, H + ":FriedmanHStatisticMethod", "only")
    b = make(w, H + ":FriedmanHStatisticMethod")
    b.ovo = a.ovo.copy()
    cmp.correlation(a, b, any_value("correlation_method"))
    _, _, u, v, _ = correlations_logged()[-1]
    i = E.fresh("rank", "I")
    E.oblige("identical rankings give identical entries", tm.and_(tm.eq(u.shape[0], v.shape[0]), tm.implies(
        tm.and_(tm.le(0, i), tm.lt(i, u.shape[0])), tm.eq(numt(u.at(i)), numt(v.at(i))))))


# ------------------------------------------------------------------------------------------------ the plot
LOOKED = {}


@at_call(BASE + ":FeatureInteractionMethod.interaction_value")
def _(w, real, self, f1, f2):
    """the look-up contract: one value per unordered pair and method"""
    if id(self) not in LOOKED:
        return real(self, f1, f2)
    return Num(LOOKED[id(self)](valt(f1), valt(f2)))


@contract(CMP + ":FeatureInteractionMethodComparator.comparison_plot", "C15 C19", "one point per pair, with both methods' values")
def points(w):
    cmp = w.load(CMP).FeatureInteractionMethodComparator()
    a, b = ranked(w, H + ":FriedmanHStatisticMethod", "first"), ranked(w, S + ":SejongOhMethod", "second")
    E.assume(tm.and_(tm.lt(0, a.ovo.c.n), tm.lt(0, b.ovo.c.n)))
    look = E.ffun("value", "R")
    LOOKED[id(b)] = look
    try:
        cmp.comparison_plot(a, b)
    finally:
        LOOKED.clear()
    got = [x for x in drawn() if x[1].endswith(".scatter")]
    if len(got) != 1 or len(got[0][2]) != 2:
        raise Unsupported("one scatter plot expected")
    xs, ys = (asarray(v).c for v in got[0][2])
    t, i = a._compare_ovo.c, E.fresh("point", "I")
    E.oblige("one point per pair of the first method", tm.and_(tm.eq(xs.shape[0], t.n), tm.eq(ys.shape[0], t.n)))
    rng = tm.and_(tm.le(0, i), tm.lt(i, t.n))
    E.oblige("the first method's value", tm.implies(rng, tm.eq(numt(xs.at(i)), numt(t.fns[a.method](i)))))
    E.oblige("the second method's value of the same pair", tm.implies(rng, tm.eq(
        numt(ys.at(i)), look(valt(t.fns["Feature 1"](i)), valt(t.fns["Feature 2"](i))))))


# ------------------------------------------------------------------------------------------------ tables of correlations
CORR = {}


def _corr(m1, m2, kind):
    return Num(CORR["value"](CORR[id(m1)], CORR[id(m2)], valt(kind)))


@at_call(CMP + ":FeatureInteractionMethodComparator.correlation")
def _(w, real, method1, method2, correlation_method="kendall"):
    """the contract of correlation: a number determined by the two methods and the kind, symmetric"""
    if not CORR:
        return real(method1, method2, correlation_method)
    if id(method1) not in CORR or id(method2) not in CORR:
        raise Unsupported("correlation of other methods")
    return _corr(method1, method2, correlation_method)


def correlated(methods):
    CORR.clear()
    for m in methods:
        CORR[id(m)] = E.fresh("method", "V")
    f = E.ffun("correlation", "R")
    CORR["value"] = lambda x, y, k: f(*sorted((x, y), key=tm.okey), k)


KINDS = ("pearson", "kendall", "spearman")


def describes(name, got, a, b):
    if not isinstance(got, table.STable):
        raise Unsupported("table of correlations expected")
    c = got.c
    E.oblige("%s: columns" % name, TRUE if list(c.names) == ["method", "value"] else FALSE)
    E.oblige("%s: one row per kind" % name, tm.eq(c.n, 3))
    rows = range(3)
    for k in KINDS:
        E.oblige("%s: the %s correlation of these methods" % (name, k), tm.or_(*[
            tm.and_(eq_vals(c.fns["method"](tm.num(i)), k), tm.eq(numt(c.fns["value"](tm.num(i))), _corr(a, b, k).t)) for i in rows]))


def both(w):
    cmp = w.load(CMP).FeatureInteractionMethodComparator()
    a, b = ranked(w, H + ":FriedmanHStatisticMethod", "first"), ranked(w, S + ":SejongOhMethod", "second")
    c = ranked(w, G + ":GreenwellMethod", "third")
    for m in (a, b, c):
        E.assume(tm.lt(0, m.ovo.c.n))
    correlated((a, b, c))
    return cmp, a, b, c


@contract(CMP + ":FeatureInteractionMethodComparator.correlations", "C19", "of the methods given, each kind in its row")
def tabled(w):
    cmp, a, b, c = both(w)
    try:
        describes("first comparison", cmp.correlations(a, b), a, b)
        describes("a later comparison", cmp.correlations(c, b), c, b)
        describes("the methods exchanged", cmp.correlations(b, c), c, b)
    finally:
        CORR.clear()


@contract(CMP + ":FeatureInteractionMethodComparator.summary", "C15 C19", "a comparison describes the methods given, after any earlier one")
def summary(w):
    cmp, a, b, c = both(w)
    looks = {}
    for m, name in ((a, "a"), (b, "b"), (c, "c")):
        looks[id(m)] = LOOKED[id(m)] = E.ffun("value", "R")
    try:
        for name, (x, y) in (("first comparison", (a, b)), ("a later comparison", (c, b)), ("the first again", (a, b))):
            before = len(E.log)
            cmp.summary(x, y)
            describes(name, cmp.correlations_df, x, y)
            got = [e for e in E.log[before:] if e[0] == "call" and e[1].endswith(".scatter")]
            if len(got) != 1 or len(got[0][2]) != 2:
                raise Unsupported("one scatter plot expected")
            xs, ys = (asarray(v).c for v in got[0][2])
            t, i = x._compare_ovo.c, E.fresh("point", "I")
            rng = tm.and_(tm.le(0, i), tm.lt(i, t.n))
            E.oblige("%s: the points are those of the methods given" % name, tm.and_(tm.eq(xs.shape[0], t.n), tm.eq(ys.shape[0], t.n), tm.implies(rng, tm.and_(
                tm.eq(numt(xs.at(i)), numt(t.fns[x.method](i))),
                tm.eq(numt(ys.at(i)), looks[id(y)](valt(t.fns["Feature 1"](i)), valt(t.fns["Feature 2"](i))))))))
    finally:
        CORR.clear()
        LOOKED.clear()
