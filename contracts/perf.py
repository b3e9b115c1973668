"""C08, C09, C14 (their tables), C15-C17: the performance-based methods.

Vocabulary.  The model is an arbitrary function of the whole queried table, the metric an arbitrary function of the targets
and predictions:  score(D) = metric(y, predict(D)).  X[f, g, .. / p] is X with row i of the columns f, g, .. taken from row
p(i), every other column intact."""
import itertools

from pyvc.spec import *
from contracts.pd import COLS, check_columns
from contracts.pdmethods import feature_table, features_arg, is_table, pair_table

S = "artemis.interactions_methods.model_agnostic.performance_based._sejong_oh"
P = "artemis.importance_methods.model_agnostic._permutational_importance"
CTX = {}


def coltok(cols):
    nm = getattr(cols, "tok", None)
    if nm is None:
        nm = cols.tok = "cols%d" % len(COLS)
        COLS[nm] = cols
    return tm.const(nm)


def prediction(n, cell, r):
    """prediction for row r of the table with n rows and cells cell(q, i)"""
    def row(i):
        q = tm.fresh("q", "V")
        return tm.mk_bind("phi", (coltok(CTX["cols"]), tm.const("row")), "V", q, (cell(q, i),), "V")
    i = tm.fresh("i", "I")
    return tm.mk_bind("model", (n, r), "I", i, (row(i),), "R")


def score(n, y, cell):
    r = tm.fresh("r", "I")
    return tm.mk_bind("metric", (n,), "I", r, (y(r), prediction(n, cell, r)), "R")


class Model:
    """any model: its predictions are a function of the table it is given"""

    def predict(self, X):
        if not isinstance(X, lib.SFrame):
            raise Unsupported("model queried with %s" % type(X).__name__)
        check_columns(X, CTX["cols"])
        c = X.c
        n = c.n
        E.used_models.add("model.predict is a function of the table it receives")
        return SArr(ArrC((n,), lambda r: Num(prediction(n, lambda q, i: valt(c.cell(q, i)), r))))


class Metric:
    """any metric: a function of targets and predictions, for regression or for classification"""

    def __init__(self):
        self.isclass = E.fresh("classification_metric", "B")

    def calculate(self, y, p):
        if not isinstance(y, SArr) or not isinstance(p, SArr) or len(p.c.shape) != 1 or len(y.c.shape) != 1:
            raise Unsupported("metric of %s and %s" % (type(y).__name__, type(p).__name__))
        yc, pc = y.c, p.c
        E.oblige("targets and predictions have the same length", tm.eq(yc.shape[0], pc.shape[0]))
        r = tm.fresh("r", "I")
        E.used_models.add("metric.calculate is a function of targets and predictions")
        return Num(tm.mk_bind("metric", (pc.shape[0],), "I", r, (valt(yc.at(r)), num_of(pc.at(r)).t), "R"))

    def applicable_to(self, problem):
        dom = spec_world().load("artemis._utilities.domain").ProblemType
        return mkbool(self.isclass if problem == dom.CLASSIFICATION else tm.not_(self.isclass))


def spec_world():
    from pyvc import spec
    return spec.world()


def setup(cols=2, kind="array"):
    CTX.clear()
    COLS.clear()
    X = dataset("X", 1, cols)
    CTX["X"], CTX["cols"] = X, X.c.cols
    y = E.ffun("y", "V")
    n = X.c.n
    if kind == "array":
        t = SArr(ArrC((n,), lambda i: SVal(y(i))))
    else:
        lab = E.ffun("ylab", "V")
        t = lib.SSeries(ArrC((n,), lambda i: SVal(y(i)), index=lib.Index(n, lambda i: SVal(lab(i)))))
    CTX["y"] = own(t, "the caller's targets")
    return X


def shuffled(S_, changes):
    """cells of S with the columns of `changes` = [(column, row map)] shuffled"""
    def cell(q, i):
        v = valt(S_.c.cell(q, i))
        for c, p in changes:
            v = tm.ite(tm.eq(q, c), valt(S_.c.cell(c, p(i))), v)
        return v
    return cell


def draws_in(t, k):
    """random permutations the value of item k depends on, in the order they are drawn: (name, is k the first index)"""
    names = {}
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            names.setdefault(x.args[0], len(x.args) > 1 and x.args[1] is k)
        if x.op == "poly":
            for mm, _ in x.args:
                stack.extend(a for a, _ in mm)
        elif x.op == "bind":
            stack.extend(x.args[3])
            stack.extend(x.args[4])
        elif x.op not in ("sym", "bv", "const"):
            stack.extend(a for a in x.args if isinstance(a, tm.T))
    return [d + (names[d[0]],) for d in E.draws if d[0] in names]


def choose(what, x, k, count, build):
    """the value x of item k is build(p_1 .. p_count) for some assignment of the drawn permutations, one per repetition"""
    x = tm.normalise(x)
    ds = draws_in(x, k)
    best = None
    for sel in itertools.permutations(ds, count):
        if any(len(d[1]) != 2 for d in sel):
            raise Unsupported("random draws outside a loop over items and repetitions")
        ps = [(lambda d: lambda r: lambda i: tm.app(d[0], ([k, r] if d[3] else [r, k]) + [i], "I"))(d) for d in sel]
        v = build(*ps)
        best = v if best is None else best
        if len(ds) == count and (count == 1 or E.known(tm.eq(x, v), ms=4000)):
            return v
    if best is None:
        E.oblige("%s: %d independent random permutation(s) per repetition" % (what, count), FALSE)
    return best


def run_s(mode, sampled, kind="array", part="ovo", purity=False):
    def run(w):
        X = setup(2, kind)
        y = CTX["y"]
        yc = y.c
        feats, seq = features_arg(X, mode)
        before = X.c, feats.c if feats is not None else None
        m = w.load(S).SejongOhMethod(Metric(), random_state=Num(E.fresh("seed", "I")))
        n = Num(pos_int("n", 1)) if sampled else None
        if sampled:
            E.assume(tm.le(n.t, X.c.n))
        reps = pos_int("n_repeat", 1)
        tm.declare_positive(reps)
        m.fit(Model(), X, y, n, Num(reps), feats)
        E.oblige("frame: the caller's dataset, targets and feature list are unchanged", unchanged(X, before[0], y, yc, feats, before[1]))
        if part == "frame":
            return
        S_, ys = m.X_sampled, m.y_sampled
        aligned(X, yc, S_, ys, n)
        if part == "sample":
            return
        values(m, S_, ys, seq, reps, part)
    return run


def unchanged(X, xc, y, yc, feats, fc):
    t = tm.and_(TRUE if X.c is xc else xc.same(X.c), TRUE if y.c is yc else lib.same_arr(y.c, yc))
    if feats is not None and feats.c is not fc:
        t = tm.and_(t, same_content(fc, feats.c))
    return t


def same_content(a, b):
    from pyvc.values import same_content as f
    return f(a, b)


def aligned(X, yc, S_, ys, n):
    """n distinct rows of X, each with its own target (C16)"""
    if not isinstance(S_, lib.SFrame) or not isinstance(ys, SArr):
        raise Unsupported("sampled data")
    c = S_.c
    if n is None:
        E.oblige("without n the whole dataset is used in its original order", TRUE if c is X.c else X.c.same(c))
        E.oblige("without n every target is used", TRUE if ys.c is yc else lib.same_arr(yc, ys.c))
        return
    sels = [s for s in E.samples] + [None]
    i, j = E.fresh("row", "I"), E.fresh("other", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, n.t), tm.le(0, j), tm.lt(j, n.t), tm.ne(i, j)))
    E.oblige("exactly n rows", tm.and_(tm.eq(c.n, n.t), tm.eq(ys.c.shape[0], n.t)))
    sel = sels[0] or (lambda k: k)
    E.oblige("every row is a row of the dataset", tm.and_(tm.le(0, sel(i)), tm.lt(sel(i), X.c.n), tm.forall("V", lambda q: tm.implies(
        X.c.has(q), tm.eq(valt(c.cell(q, i)), valt(X.c.cell(q, sel(i))))))))
    E.oblige("no row is used twice", tm.ne(sel(i), sel(j)))
    E.oblige("each row keeps its own target", eq_vals(ys.c.at(i), yc.at(sel(i))))
    E.oblige("the sampled table has the dataset's columns", TRUE if c.cols is X.c.cols else FALSE)


def values(m, S_, ys, seq, reps, part):
    N = S_.c.n
    y = lambda r: valt(ys.c.at(r))
    base = score(N, y, lambda q, i: valt(S_.c.cell(q, i)))
    sc = lambda *ch: score(N, y, shuffled(S_, ch))
    if part == "ovo":
        t = m.ovo
        is_table("ovo", t, ["Feature 1", "Feature 2", m.method])
        q = t.c.perm_of[1] if t.c.perm_of else (lambda k: k)

        def value(f, g, k):
            x = num_of(t.c.fns[m.method](q(k))).t
            if t.c.perm_of:
                x = tm.subst(x, {t.c.perm_of[0](q(k)): k}, everything=True)

            def build(p1, p2, p12):
                one = lambda r: tm.add(tm.sub(tm.sub(sc((f, p12(r)), (g, p12(r))), sc((f, p1(r)))), sc((g, p2(r)))), base)
                return mean(reps, lambda r: tm.absv(one(r)))
            return choose("ovo", x, k, 3, build), FALSE
        pair_values("ovo", t, m.method, seq, value)
    else:
        importance_values(m.feature_importance, m.metric, seq, reps, base, sc)


def pair_values(what, t, col, seq, value):
    q = lib.combinations(seq, 2)
    _, c1, c2, rank = q.comb
    cell = {}

    def v(f, g):
        return value(f, g, cell["k"])
    import contracts.pdmethods as pm
    fs = t.c.fns

    def rows(i, k):
        f, g = valt(seq.at(c1(k))), valt(seq.at(c2(k)))
        a, b = valt(fs["Feature 1"](i)), valt(fs["Feature 2"](i))
        return tm.or_(tm.and_(tm.eq(a, f), tm.eq(b, g)), tm.and_(tm.eq(a, g), tm.eq(b, f)))
    pm.row_values(what, t, col, q.n, lambda k: value(valt(seq.at(c1(k))), valt(seq.at(c2(k))), k), False, rows)


def importance_values(t, metric, seq, reps, base, sc):
    import contracts.pdmethods as pm
    is_table("importance", t, ["Feature", "Importance"])
    fs = t.c.fns
    q = t.c.perm_of[1] if t.c.perm_of else (lambda k: k)

    def value(k):
        f = valt(seq.at(k))
        x = num_of(fs["Importance"](q(k))).t
        if t.c.perm_of:
            x = tm.subst(x, {t.c.perm_of[0](q(k)): k}, everything=True)

        def build(p):
            d = tm.sub(mean(reps, lambda r: sc((f, p(r)))), base)
            return tm.ite(metric.isclass, tm.neg(d), d)
        return choose("importance", x, k, 1, build), FALSE
    pm.row_values("importance", t, "Importance", seq.n, value, False, lambda i, k: tm.eq(valt(fs["Feature"](i)), valt(seq.at(k))), nonneg=False)


def run_p(mode, kind="array"):
    def run(w):
        X = setup(1, kind)
        y = CTX["y"]
        yc = y.c
        feats, seq = features_arg(X, mode)
        before = X.c, feats.c if feats is not None else None
        metric = Metric()
        m = w.load(P).PermutationImportance(metric, random_state=Num(E.fresh("seed", "I")))
        reps = pos_int("n_repeat", 1)
        tm.declare_positive(reps)
        got = m.importance(Model(), X, y, Num(reps), feats)
        E.oblige("frame: the caller's dataset, targets and feature list are unchanged", unchanged(X, before[0], y, yc, feats, before[1]))
        N = X.c.n
        yy = lambda r: valt(yc.at(r))
        base = score(N, yy, lambda q, i: valt(X.c.cell(q, i)))
        importance_values(got, metric, seq, reps, base, lambda *ch: score(N, yy, shuffled(X, ch)))
        E.oblige("the table is also stored on the method", TRUE if m.feature_importance is got else got.c.same(m.feature_importance.c))
    return run


for mode in ("all", "list"):
    contract(S + ":SejongOhMethod.fit", "C08 C14", "interaction values, %s features" % mode)(run_s(mode, False))
    contract(P + ":PermutationImportance.importance", "C09 C14 C15 C17", "importance values, %s features" % mode, purity=True)(run_p(mode))
contract(S + ":SejongOhMethod.fit", "C09 C14", "importance inside the interaction fit")(run_s("list", False, part="importance"))
for kind in ("array", "series"):
    contract(S + ":SejongOhMethod.fit", "C16 C15 C17", "sampled rows and targets, %s targets" % kind, purity=True)(run_s("all", True, kind, "sample"))
    contract(S + ":SejongOhMethod.fit", "C16 C15 C17", "no sampling, %s targets" % kind, purity=True)(run_s("list", False, kind, "sample"))
