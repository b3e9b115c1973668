"""C21: built-in metrics."""
from pyvc.spec import *

M = "artemis._utilities.performance_metrics"


def targets(name, n):
    return num_array(name, n)


def series_or_array(name, n, kind):
    f = E.ffun(name, "R")
    if kind == "series":
        return lib.SSeries(ArrC((n,), lambda i: Num(f(i)), index=lib.Index(n, lambda i: SVal(tm.app(name + "_lab", [i], "V")))))
    return SArr(ArrC((n,), lambda i: Num(f(i))))


def with_kinds(run):
    run("array")


@contract(M + ":MSE.calculate", "C21", "mean squared error")
def mse(w):
    n = pos_int("n", 1)
    y, p = own(num_array("y", n), "targets"), own(num_array("p", n), "predictions")
    m = w.load(M).MSE()
    r = m.calculate(y, p)
    ensure_eq("MSE is the mean of squared differences", r, mean(n, lambda i: tm.power(tm.sub(real(y.c.at(i)), real(p.c.at(i))), 2)))
    ensure_eq("argument order does not matter", m.calculate(p, y), real(r))


@contract(M + ":RMSE.calculate", "C21", "root mean squared error")
def rmse(w):
    n = pos_int("n", 1)
    y, p = own(num_array("y", n), "targets"), own(num_array("p", n), "predictions")
    m = w.load(M).RMSE()
    r = m.calculate(y, p)
    ensure_eq("RMSE is the square root of the mean of squared differences", r,
              tm.sqrt(mean(n, lambda i: tm.power(tm.sub(real(y.c.at(i)), real(p.c.at(i))), 2))))
    ensure_eq("argument order does not matter", m.calculate(p, y), real(r))


@contract(M + ":Accuracy.calculate", "C21", "fraction of equal entries")
def acc(w):
    n = pos_int("n", 1)
    y, p = own(val_array("y", n), "targets"), own(val_array("p", n), "predictions")
    m = w.load(M).Accuracy()
    r = m.calculate(y, p)
    ensure_eq("accuracy is the fraction of equal entries", r,
              mean(n, lambda i: tm.indicator(tm.eq(y.c.at(i).t, p.c.at(i).t))))
    ensure_eq("argument order does not matter", m.calculate(p, y), real(r))


@contract(M + ":Metric.applicable_to", "C21", "problem type and direction")
def direction(w):
    mod = w.load(M)
    dom = w.load("artemis._utilities.domain").ProblemType
    for cls, reg in ((mod.MSE, True), (mod.RMSE, True), (mod.Accuracy, False)):
        m = cls()
        ensure("%s applies to regression exactly when it is an error metric" % cls.__name__, boolt(m.applicable_to(dom.REGRESSION)) if reg else tm.not_(boolt(m.applicable_to(dom.REGRESSION))))
        ensure("%s applies to classification exactly when it is not" % cls.__name__, boolt(m.applicable_to(dom.CLASSIFICATION)) if not reg else tm.not_(boolt(m.applicable_to(dom.CLASSIFICATION))))
