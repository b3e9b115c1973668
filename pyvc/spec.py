"""Registry of contracts and the vocabulary they are written in."""
from . import lib, loader, table, vc
from . import terms as tm
from .core import (NA, E, FALSE, TRUE, Cell, Heap, Infeasible, ModelledError, Num, Poison, SBool, SVal, Sym, Unsupported, asnum, boolt,
                   eq_vals, mkbool, numt, own, valt)
from .values import (ArrC, DictC, Fam, Fz, SArr, SDict, SList, SSet, SeqC, SymSeq, asarray, freeze, idx, num_of, rv, same_val, to_seq)

CONTRACTS = []
TRUSTED_ALWAYS = ["pyvc itself: AST rewriting, symbolic semantics of the Python subset, ring normal form", "z3 4.x/5.x as the SMT back end",
                  "CPython executes the unrewritten source as the language reference says"]
ASSUMPTIONS = ["floating-point numbers are treated as mathematical reals with a separate NaN flag (no rounding, no overflow)",
               "sqrt(x)^2 = x for x >= 0; a non-zero number divided by zero is an unspecified value with the numerator's sign"]
_WORLD = []


class Contract:
    def __init__(self, key, props, name, fn, under, specs, purity, ms):
        self.key, self.props, self.name, self.fn, self.under, self.specs, self.purity, self.ms = key, set(props), name, fn, under, specs, purity, ms


def contract(key, props, name="contract", under=None, specs=(), purity=False, ms=None):
    def deco(fn):
        CONTRACTS.append(Contract(key, props.split(), name, fn, under, list(specs), purity, ms))
        return fn
    return deco


CALLSITE = {}


def at_call(key):
    """register the contract applied at call sites of `key`"""
    def deco(fn):
        CALLSITE[key] = fn
        return fn
    return deco


def world():
    if not _WORLD:
        w = loader.World()
        w.contracts = CALLSITE
        _WORLD.append(w)
    return _WORLD[0]


# ------------------------------------------------------------------------------------------------ symbols
def num_array(name, n, sort="R", nan=False):
    f = E.ffun(name, sort)
    g = E.ffun(name + "_nan", "B") if nan else None
    return SArr(ArrC((n,), lambda i: Num(f(i), g(i) if g else FALSE)))


def val_array(name, n):
    f = E.ffun(name, "V")
    return SArr(ArrC((n,), lambda i: SVal(f(i))))


def pos_int(name, lo=0):
    n = E.fresh(name, "I")
    E.assume(tm.le(lo, n))
    return n


def columns(name="X", lo=1):
    """distinct column names"""
    n = E.fresh(name + "_ncols", "I")
    at, pos = E.ffun(name + "_col", "V"), E.ffun(name + "_colpos", "I")
    E.assume(tm.le(lo, n))
    # the enumeration is continued injectively beyond n, so pos(at(i)) = i for every i
    a0, p0 = at(tm.num(0)), pos(tm.sym("any", "V"))
    tm.REWRITE[p0.args[0]] = lambda args: args[-1].args[-1] if args[-1].op == "app" and args[-1].args[0] == a0.args[0] \
        and args[:-1] == a0.args[1:-1] == args[-1].args[1:-1] else None
    E.assume(tm.forall_i(n, lambda i: tm.eq(pos(at(i)), i)))
    has = lambda v: tm.and_(tm.le(0, pos(valt(v))), tm.lt(pos(valt(v)), n), tm.eq(at(pos(valt(v))), valt(v)))
    return SymSeq(n, lambda i: SVal(at(i)), pos=lambda v: pos(valt(v)), has=has)


def dataset(name="X", rows=1, cols=1, owned=True):
    """a dataset without missing values: distinct string column names, arbitrary cells, arbitrary (possibly repeated) row labels"""
    n = E.fresh(name + "_rows", "I")
    E.assume(tm.le(rows, n))
    cell, lab, isn = E.ffun(name + "_cell", "V"), E.ffun(name + "_label", "V"), E.ffun(name + "_isnum", "B")
    cs = columns(name, cols)
    fc = lib.FrameC(n, cs, lambda c, i: SVal(cell(c, i)), index=lib.Index(n, lambda i: SVal(lab(i))), isnum=isn, name=name)
    f = lib.SFrame(fc)
    f.c.index.n = n
    return own(f, "the caller's dataset") if owned else f


def feature_list(X, name="feats", lo=1, owned=True):
    """distinct requested features, all of them columns of X"""
    s = columns(name, lo)
    c = X.c
    E.assume(tm.forall_i(s.n, lambda i: c.has(valt(s.at(i)))))
    l = SList(SeqC([("seg", s.n, s.at)], keyed=s))
    return own(l, "the caller's feature list") if owned else l


def a_column(X, name="f"):
    f = SVal(E.fresh(name, "V"))
    E.assume(X.c.has(f.t))
    return f


def total(n, f):
    return tm.mk_sum(n, f)


def mean(n, f):
    return tm.div(tm.mk_sum(n, f), n)


def sum_lemmas(n, narrow, wide, val):
    """finite sums: if narrow implies wide and val > 0 wherever wide holds, then the counts are ordered and a non-empty sum is positive"""
    ct = lambda c: tm.mk_sum(n, lambda i: tm.indicator(c(i)))
    sm = lambda c: tm.mk_sum(n, lambda i: tm.ite(c(i), val(i), 0))
    E.assume(tm.and_(tm.le(0, ct(narrow)), tm.le(0, ct(wide)), tm.le(0, sm(narrow)), tm.le(0, sm(wide)), tm.le(ct(narrow), ct(wide))))
    E.assume(tm.implies(tm.lt(0, ct(wide)), tm.lt(0, sm(wide))))
    E.assume(tm.implies(tm.eq(0, ct(narrow)), tm.eq(0, sm(narrow))))


def real(x):
    """term of a number that must not be NaN"""
    x = asnum(x)
    return x.t


def ensure_eq(name, got, want_t, want_nan=FALSE):
    """postcondition: the number `got` equals the term"""
    g = num_of(got)
    if want_nan is FALSE:
        return E.oblige(name, tm.and_(tm.not_(g.nan), tm.eq(g.t, want_t)))
    return E.oblige(name, tm.and_(tm.eq(g.nan, want_nan), tm.or_(g.nan, tm.eq(g.t, want_t))))


def ensure(name, t):
    return E.oblige(name, t)


def raises(fn, *a, **k):
    """run and return (exception class or None, value)"""
    try:
        return None, fn(*a, **k)
    except ModelledError as e:
        return e.cls, e
    except (Unsupported, Infeasible):
        raise
    except Exception as e:          # noqa: BLE001
        from .core import is_engine_error
        if is_engine_error(e):
            raise
        return type(e), e
