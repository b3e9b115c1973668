"""C18: unusable states and inputs are refused with the documented error."""
from pyvc.spec import *
from contracts.additivity import M as ADD
from contracts.pd import CTX, setup
from contracts.pdmethods import G, H, I, features_arg
from contracts.perf import Metric, S as PERF

EXC = "artemis._utilities.exceptions"
BASE = "artemis.interactions_methods._method"
VIS = "artemis.visualizer._visualizer"
CMP = "artemis.comparison._method_comparator"
SPLIT = "artemis.interactions_methods.model_specific.gb_trees._split_score"
CMD = "artemis.interactions_methods.model_specific.random_forest._conditional_minimal_depth"
MDI = "artemis.importance_methods.model_specific._minimal_depth"
HAND = "artemis._utilities._handler"
COMMON = ["summary", "graph", "bar_chart", "heatmap"]
METHODS = {       # key of the class: (constructor, documented plot types)
    H + ":FriedmanHStatisticMethod": (lambda c: c(), COMMON + ["bar_chart_ova"]),
    G + ":GreenwellMethod": (lambda c: c(), COMMON),
    PERF + ":SejongOhMethod": (lambda c: c(Metric()), COMMON),
    SPLIT + ":SplitScoreMethod": (lambda c: c(), COMMON + ["lollipop"]),
    CMD + ":ConditionalMinimalDepthMethod": (lambda c: c(), COMMON + ["bar_chart_conditional"]),
}


def make(w, key):
    mod, _, cls = key.partition(":")
    return METHODS[key][0](getattr(w.load(mod), cls))


def refused(what, exc, fn, *a, **k):
    got, e = raises(fn, *a, **k)
    ok = got is not None and (got is exc or (isinstance(got, type) and issubclass(got, exc)))
    E.oblige("%s raises %s" % (what, exc.__name__), TRUE if ok else FALSE)


def drawn():
    return [x for x in E.log if x[0] == "call"]


def any_value(name):
    return SVal(E.fresh(name, "V"))


def table_of(cols, lo=1):
    """an arbitrary result table with these columns (the last one numeric)"""
    n = pos_int("table_rows", lo)
    fns = {}
    for c in cols[:-1]:
        f = E.ffun("cell_" + c.replace(" ", "_"), "V")
        fns[c] = (lambda f: lambda i: SVal(f(i)))(f)
    v = E.ffun("value", "R")
    fns[cols[-1]] = lambda i: Num(v(i))
    return table.STable(table.TableC(n, fns, lib.Index(n)))


def unfitted(key):
    def run(w):
        exc = w.load(EXC).MethodNotFittedException
        m = make(w, key)
        refused("plotting a method that was never fitted", exc, m.plot, any_value("vis_type"))
        E.oblige("nothing is drawn", TRUE if not drawn() else FALSE)
        refused("looking up a value on a method that was never fitted", exc, m.interaction_value, any_value("f"), any_value("g"))
    return run


def unsupported(key):
    def run(w):
        exc = w.load(EXC).VisualizationNotSupportedException
        m = make(w, key)
        first = ("root_variable", "variable") if "Conditional" in key else ("Feature 1", "Feature 2")
        m.ovo = table_of([*first, m.method])
        m._feature_importance_obj = w.load(I).PartialDependenceBasedImportance()
        m.feature_importance = table_of(["Feature", "Importance"])
        if hasattr(m, "ova"):
            m.ova = table_of(["Feature", m.method])
        m.full_result = None
        vt = any_value("vis_type")
        for d in METHODS[key][1]:
            E.assume(tm.ne(vt.t, valt(d)))
        refused("a visualisation the method does not support", exc, m.plot, vt)
        E.oblige("nothing is drawn", TRUE if not drawn() else FALSE)
        for d in METHODS[key][1]:
            E.oblige("the documented plot type %s is accepted" % d, boolt(m.visualizer.accepts(d)))
    return run


def compared(key):
    def run(w):
        exc = w.load(EXC).MethodNotFittedException
        cmp = w.load(CMP).FeatureInteractionMethodComparator()
        m = make(w, key)
        other = make(w, H + ":FriedmanHStatisticMethod")
        other.ovo = table_of(["Feature 1", "Feature 2", other.method])
        for a, b in ((m, other), (other, m), (m, m)):
            names = "first" if a is m and b is not m else ("second" if a is not m else "each")
            refused("summary when the %s method was never fitted" % names, exc, cmp.summary, a, b)
            refused("correlation when the %s method was never fitted" % names, exc, cmp.correlation, a, b, any_value("correlation_method"))
            refused("correlations when the %s method was never fitted" % names, exc, cmp.correlations, a, b)
            refused("comparison plot when the %s method was never fitted" % names, exc, cmp.comparison_plot, a, b)
    return run


for key in METHODS:
    contract(BASE + ":FeatureInteractionMethod.plot" if key.startswith((G, PERF)) else key + ".plot", "C18", "%s never fitted" % key.rpartition(":")[2])(unfitted(key))
    contract(VIS + ":Visualizer.plot", "C18", "%s, unsupported visualisation" % key.rpartition(":")[2])(unsupported(key))
    contract(CMP + ":FeatureInteractionMethodComparator", "C18", "comparing %s, never fitted" % key.rpartition(":")[2])(compared(key))


@contract(H + ":FriedmanHStatisticMethod.plot", "C18", "one-vs-all bar chart without one-vs-all values")
def no_ova(w):
    m = make(w, H + ":FriedmanHStatisticMethod")
    m.ovo = table_of(["Feature 1", "Feature 2", m.method])
    m._feature_importance_obj = w.load(I).PartialDependenceBasedImportance()
    refused("a one-vs-all chart without one-vs-all values", w.load(EXC).MethodNotFittedException, m.plot, "bar_chart_ova")


# ------------------------------------------------------------------------------------------------ foreign calculators
FITS = {
    H + ":FriedmanHStatisticMethod.fit": (lambda w: w.load(H).FriedmanHStatisticMethod(random_state=Num(E.fresh("seed", "I"))), lambda m: m.fit),
    G + ":GreenwellMethod.fit": (lambda w: w.load(G).GreenwellMethod(random_state=Num(E.fresh("seed", "I"))), lambda m: m.fit),
    I + ":PartialDependenceBasedImportance.importance": (lambda w: w.load(I).PartialDependenceBasedImportance(), lambda m: m.importance),
    ADD + ":AdditivityMeter.fit": (lambda w: w.load(ADD).AdditivityMeter(random_state=Num(E.fresh("seed", "I"))),
                                   lambda m: lambda model, X, n, pf, features, pd_calculator: m.fit(model, X, n, predict_function=pf, pd_calculator=pd_calculator)),
}


class Accepted(Exception):
    """the calculator was accepted (raised by the stand-in, to end the path)"""


class Calculator:
    """a calculator of which only the model and the data may be looked at"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if "method" in self.__dict__:
            a, b = self.X.c, self.method.X_sampled.c
            j, r = E.fresh("some_column", "I"), E.fresh("some_row", "I")
            E.assume(tm.and_(tm.le(0, j), tm.lt(j, a.cols.n), tm.le(0, r), tm.lt(r, a.n)))
            ca, cb = valt(a.cols.at(j)), valt(b.cols.at(j))
            E.oblige("only a calculator for exactly the sampled rows is accepted", tm.and_(
                tm.eq(a.n, b.n), tm.eq(a.cols.n, b.cols.n), tm.eq(ca, cb), tm.eq(valt(a.cell(ca, r)), valt(b.cell(cb, r)))))
            raise ModelledError(Accepted, "")
        E.oblige("the calculator is rejected before it is used (%s)" % n, FALSE)
        raise Infeasible()


def differ(a, b):
    """the datasets differ in size, in a column name or in a cell"""
    if E.branch(E.fresh("other_number_of_rows", "B")):
        E.assume(tm.ne(a.n, b.n))
        return
    if E.branch(E.fresh("other_number_of_columns", "B")):
        E.assume(tm.ne(a.cols.n, b.cols.n))
        return
    j, r = E.fresh("some_column", "I"), E.fresh("some_row", "I")
    E.assume(tm.and_(tm.le(0, j), tm.lt(j, a.cols.n), tm.lt(j, b.cols.n), tm.le(0, r), tm.lt(r, a.n), tm.lt(r, b.n)))
    ca, cb = valt(a.cols.at(j)), valt(b.cols.at(j))
    E.assume(tm.or_(tm.ne(ca, cb), tm.ne(valt(a.cell(ca, r)), valt(b.cell(cb, r)))))


def foreign(key, what):
    def run(w):
        X = setup("custom", 1, 2)
        m = FITS[key][0](w)
        calc = Calculator()
        calc.model, calc.X = CTX["model"], X
        if what == "model":
            calc.model = type(CTX["model"])()
            if E.branch(E.fresh("other_data_too", "B")):
                calc.X = dataset("Z", 1, 1)
        else:
            calc.X = dataset("Z", 1, 1)
            differ(calc.X.c, X.c)
        n = None
        refused("a calculator for another %s" % what, ValueError, FITS[key][1](m), CTX["model"], X, n, CTX["pf"], None, pd_calculator=calc)
        E.oblige("no result is stored", TRUE if all(getattr(m, a, None) is None for a in ("ovo", "feature_importance", "additivity_index")) else FALSE)
    return run


def sampled(key):
    def run(w):
        X = setup("custom", 1, 2)
        m = FITS[key][0](w)
        calc = Calculator()
        calc.model, calc.X, calc.method = CTX["model"], dataset("Z", 1, 1), m
        n = Num(pos_int("n", 1))
        E.assume(tm.le(n.t, X.c.n))
        got, _ = raises(FITS[key][1](m), CTX["model"], X, n, CTX["pf"], None, pd_calculator=calc)
        E.oblige("accepted or refused with ValueError", TRUE if got in (Accepted, ValueError) else FALSE)
    return run


for key in FITS:
    contract(key, "C18", "calculator with a sample size")(sampled(key))
    for what in ("model", "data"):
        contract(key, "C18", "calculator for another %s" % what)(foreign(key, what))


# ------------------------------------------------------------------------------------------------ split scores, minimal depth
def handler(w, package):
    h = w.load(HAND).GBTreesHandler()
    h.package, h.trees_df = package, None
    return h


@contract(SPLIT + ":SplitScoreMethod.fit", "C18", "cover metrics on lightgbm models")
def cover(w):
    exc = w.load(EXC).MetricNotSupportedException
    for bad in ("mean_cover", "sum_cover"):
        for kw in ({"interaction_selected_metric": bad, "importance_selected_metric": any_value("importance_metric")},
                   {"interaction_selected_metric": any_value("interaction_metric"), "importance_selected_metric": bad},
                   {"interaction_selected_metric": bad}, {"importance_selected_metric": bad}):
            m = make(w, SPLIT + ":SplitScoreMethod")
            refused("a cover metric on a lightgbm model", exc, m.fit, handler(w, "lightgbm"), **kw)
            E.oblige("no result is stored", TRUE if m.ovo is None and m.feature_importance is None else FALSE)


@contract(SPLIT + ":_check_metrics_with_available_info", "C18", "refuses exactly cover metrics on lightgbm")
def exactly(w):
    exc = w.load(EXC).MetricNotSupportedException
    p, a, b = any_value("package"), any_value("interaction_metric"), any_value("importance_metric")
    got, _ = raises(w.load(SPLIT)._check_metrics_with_available_info, p, a, b)
    iscover = lambda x: tm.or_(tm.eq(x.t, valt("mean_cover")), tm.eq(x.t, valt("sum_cover")))
    want = tm.and_(tm.eq(p.t, valt("lightgbm")), tm.or_(iscover(a), iscover(b)))
    E.oblige("refused exactly for cover metrics on lightgbm models", tm.eq(want, TRUE if got is exc else FALSE) if got in (exc, None) else FALSE)


@contract(MDI + ":MinimalDepthImportance.importance", "C18", "without tree data")
def no_trees(w):
    refused("minimal-depth importance without its tree data", w.load(EXC).FeatureImportanceWithoutInteractionException,
            w.load(MDI).MinimalDepthImportance().importance, Calculator(), None)
