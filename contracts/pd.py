"""C01-C03 (and C22's queries): the partial dependence calculator.

Vocabulary.  X is the calculator's dataset (n rows, cells X(q, r)); the model is an arbitrary row-wise function phi of a
row, so predict(model, D)[r] = phi(row r of D).
  PD1(c, u)        = 1/n sum_r phi(row r of X with c := u)
  PD2(c, d, u, v)  = 1/n sum_r phi(row r of X with c := u, d := v)
  PDM(c, i)        = 1/n sum_r phi(row i of X with c := X(c, r))
Object invariant Inv of the calculator: every stored value is NaN or equal to its specification; the stored value lists are
the distinct observed values.  Every method preserves Inv, never un-sets a stored value and touches only requested
entries; so after any history of requests each reported value is either unset or the specification."""
from pyvc.spec import *
from pyvc import smt
from pyvc.values import read_key, split_key

M = "artemis._utilities.pd_calculator"
PDC = M + ":PartialDependenceCalculator"
COLS = {}


class Shape:
    pass


def phi_range(extras, x):
    return COLS[extras[0].args[0]].has(SVal(x))


smt.RANGE["phi"] = phi_range


def phi(cols, toks, row):
    """prediction for the row q -> value, restricted to the columns `cols`"""
    nm = getattr(cols, "tok", None)
    if nm is None:
        nm = cols.tok = "cols%d" % len(COLS)
        COLS[nm] = cols
    q = tm.fresh("q", "V")
    v = row(q)
    return tm.mk_bind("phi", (tm.const(nm),) + tuple(toks), "V", q, (valt(v),), "R")


CTX = {}


def check_columns(fr, cols):
    """C22: the queried table has the dataset's columns in the dataset's order"""
    c = fr.c
    goal = TRUE
    if c.extra:
        goal = FALSE
    elif c.cols is not cols:
        goal = tm.and_(tm.eq(c.cols.n, cols.n), tm.forall_i(cols.n, lambda i: tm.eq(valt(c.cols.at(i)), valt(cols.at(i)))))
    E.oblige("the model is queried with the dataset's columns in the dataset's order", goal)


def predict_rows(what, toks, fr):
    if not isinstance(fr, lib.SFrame):
        raise Unsupported("model queried with %s" % type(fr).__name__)
    cols = CTX["cols"]
    check_columns(fr, cols)
    E.queries.append((what, fr.c))
    E.used_models.add("the model is row-wise: each prediction is a fixed function of that row's cells (same model, same prediction function)")
    c = fr.c
    return c, lambda r, *more: phi(cols, list(toks) + list(more), lambda q: c.cell(q, r))


class PredictFn:
    """the caller's prediction function"""

    def __call__(self, model, X):
        E.oblige("the prediction function receives the caller's model", TRUE if model is CTX["model"] else FALSE)
        c, f = predict_rows("custom", [tm.const("custom")], X)
        return SArr(ArrC((c.n,), lambda r: Num(f(r))))


class AnyModel:
    """the caller's model: beyond what a contract says of it, it may or may not have any other attribute"""
    LACKS = ()

    def __getattr__(self, n):
        if n.startswith("_") or n in ("csubst", "same", "c") or n in self.LACKS:
            raise AttributeError(n)
        known = self.__dict__.setdefault("_known", {})
        if n not in known:
            known[n] = E.fresh("model_has_" + n, "B"), E.fresh("model_" + n, "V")
        if not E.branch(known[n][0]):
            raise AttributeError(n)
        if n == "classes_" and "classes" in CTX:
            return SArr(ArrC((CTX["classes"],), lambda j: SVal(tm.app("class_name", (j,), "V"))))
        return SVal(known[n][1])


class Untouchable(AnyModel):
    """the model behind the caller's own prediction function: it has predictions of its own, which are not to be used"""

    def __getattr__(self, n):
        if n not in ("predict", "predict_proba"):
            return AnyModel.__getattr__(self, n)

        def own(*a, **k):
            E.oblige("the model's own %s is not used when a prediction function is given" % n, FALSE)
            raise Unsupported("prediction of the model itself")
        return own


class ModelPredict(AnyModel):
    """a model without probabilities"""
    LACKS = ("predict_proba",)

    def predict(self, X):
        c, f = predict_rows("predict", [tm.const("predict")], X)
        return SArr(ArrC((c.n,), lambda r: Num(f(r))))


class ModelProba(ModelPredict):
    LACKS = ()

    def predict_proba(self, X):
        c, f = predict_rows("proba", [tm.const("proba")], X)
        k = CTX["classes"]
        return SArr(ArrC((c.n, k), lambda r, j: Num(f(r, j))))


def mk_model():
    """arbitrary model; arbitrary choice of prediction function (three paths)"""
    kind = CTX.get("kind", "custom")
    if kind == "custom":
        m, pf, toks = Untouchable(), PredictFn(), [tm.const("custom")]
    elif kind == "predict":
        m, pf, toks = ModelPredict(), None, [tm.const("predict")]
    else:
        CTX["classes"] = pos_int("classes", 2)
        m, pf, toks = ModelProba(), None, [tm.const("proba"), tm.num(1)]
    CTX["model"], CTX["pf"], CTX["toks"] = m, pf, toks
    return m, pf


def setup(kind="custom", rows=1, cols=1, owned=True):
    CTX.clear()
    COLS.clear()
    CTX["kind"] = kind
    X = dataset("X", rows, cols, owned)
    CTX["X"], CTX["cols"] = X, X.c.cols
    mk_model()
    return X


# ------------------------------------------------------------------------------------------------ specifications
def pred(row):
    """the explained prediction for a row q -> V term"""
    return phi(CTX["cols"], CTX["toks"], lambda q: SVal(row(q)))


def xc(q, r, X=None):
    return valt((X or CTX["X"]).c.cell(q, r))


def PD1(c, u, X=None):
    X = X or CTX["X"]
    n = X.c.n
    return mean(n, lambda r: pred(lambda q: tm.ite(tm.eq(q, c), u, xc(q, r, X))))


def PD2(c, d, u, v, X=None):
    X = X or CTX["X"]
    n = X.c.n
    return mean(n, lambda r: pred(lambda q: tm.ite(tm.eq(q, d), v, tm.ite(tm.eq(q, c), u, xc(q, r, X)))))


def PDM(c, i, X=None):
    X = X or CTX["X"]
    n = X.c.n
    return mean(n, lambda r: pred(lambda q: tm.ite(tm.eq(q, c), xc(q, r, X), xc(q, i, X))))


# ------------------------------------------------------------------------------------------------ the three stores
def uniq(X=None):
    return lib.frame_unique((X or CTX["X"]).c)


class Kind:
    """one of the calculator's three stores: how its cells are indexed and what they must contain"""


class Single(Kind):
    name, attr, calc, fill = "single", "pd_single", "calculate_pd_single", "fill_pd_single"
    key = ("V",)            # store key
    pk = ("V", "V")         # pending key: (feature, value)

    def keys_ok(self, c):
        return CTX["X"].c.has(c)

    def bounds(self, c):
        return (uniq()[0](c),)

    def spec(self, c, i):
        return PD1(c, uniq()[1](c, i))

    def pend_ok(self, c, v):
        nu, uval, uidx, _ = uniq()
        return tm.and_(CTX["X"].c.has(c), tm.le(0, uidx(c, v)), tm.lt(uidx(c, v), nu(c)), tm.eq(uval(c, uidx(c, v)), v))

    def pend_of(self, c, i):
        """the pending key that will fill cell (c, i)"""
        return (SVal(c), SVal(uniq()[1](c, i)))

    def store_key(self, c, v):
        return (c,)

    def row(self, q, r, c, v):
        return tm.ite(tm.eq(q, c), v, xc(q, r))

    def lift(self, c, v):
        return (SVal(c), SVal(v))


class Minus(Kind):
    name, attr, calc, fill = "minus", "pd_minus_single", "calculate_pd_minus_single", "fill_pd_minus_single"
    key = ("V",)
    pk = ("V", "I")

    def keys_ok(self, c):
        return CTX["X"].c.has(c)

    def bounds(self, c):
        return (CTX["X"].c.n,)

    def spec(self, c, i):
        return PDM(c, i)

    def pend_ok(self, c, i):
        return tm.and_(CTX["X"].c.has(c), tm.le(0, i), tm.lt(i, CTX["X"].c.n))

    def pend_of(self, c, i):
        return (SVal(c), Num(i))

    def store_key(self, c, i):
        return (c,)

    def row(self, q, r, c, i):
        return tm.ite(tm.eq(q, c), xc(q, r), xc(q, i))

    def lift(self, c, i):
        return (SVal(c), Num(i))


class Pairs(Kind):
    name, attr, calc, fill = "pairs", "pd_pairs", "calculate_pd_pairs", "fill_pd_pairs"
    key = ("V", "V")
    pk = ("V", "V", "V", "V")

    def keys_ok(self, c, d):
        X = CTX["X"].c
        return tm.and_(X.has(c), X.has(d), tm.lt(X.cols.pos(SVal(c)), X.cols.pos(SVal(d))))

    def bounds(self, c, d):
        nu = uniq()[0]
        return (nu(c), nu(d))

    def spec(self, c, d, i, j):
        uval = uniq()[1]
        return PD2(c, d, uval(c, i), uval(d, j))

    def pend_ok(self, c, d, u, v):
        nu, uval, uidx, _ = uniq()
        return tm.and_(self.keys_ok(c, d), tm.le(0, uidx(c, u)), tm.lt(uidx(c, u), nu(c)), tm.eq(uval(c, uidx(c, u)), u),
                       tm.le(0, uidx(d, v)), tm.lt(uidx(d, v), nu(d)), tm.eq(uval(d, uidx(d, v)), v))

    def pend_of(self, c, d, i, j):
        uval = uniq()[1]
        return (SVal(c), SVal(d), SVal(uval(c, i)), SVal(uval(d, j)))

    def store_key(self, c, d, u, v):
        return (c, d)

    def row(self, q, r, c, d, u, v):
        return tm.ite(tm.eq(q, d), v, tm.ite(tm.eq(q, c), u, xc(q, r)))

    def lift(self, c, d, u, v):
        return tuple(SVal(x) for x in (c, d, u, v))


SINGLE, MINUS, PAIRS = Single(), Minus(), Pairs()


def quant(sorts, f):
    """forall over several variables"""
    def go(k, xs):
        if k == len(sorts):
            return f(*xs)
        return tm.forall(sorts[k], lambda x: go(k + 1, xs + (x,)))
    return go(0, ())


def within(bounds, ii):
    return tm.and_(*[t for i, b in zip(ii, bounds) for t in (tm.le(0, i), tm.lt(i, b))])


def cellv(content, K, key, ii):
    """stored number at key/index"""
    v = read_key(content, tuple(SVal(k) for k in key))
    return asnum(v.c.items["pd_values"].c.at(*ii))


def inv(content, K):
    """every stored value is unset or the specification"""
    nk = len(K.key)

    def f(*xs):
        key, ii = xs[:nk], xs[nk:]
        v = cellv(content, K, key, ii)
        return tm.implies(tm.and_(K.keys_ok(*key), within(K.bounds(*key), ii)), tm.or_(v.nan, tm.eq(v.t, K.spec(*key, *ii))))
    return quant(K.key + ("I",) * len(K.key if K is PAIRS else ("I",)), f)


def cells(K, f):
    """forall cells of the store: f(key, idx)"""
    nk, ni = len(K.key), 2 if K is PAIRS else 1
    return quant(K.key + ("I",) * ni, lambda *xs: tm.implies(tm.and_(K.keys_ok(*xs[:nk]), within(K.bounds(*xs[:nk]), xs[nk:])), f(xs[:nk], xs[nk:])))


def havoc_store(content, K, tag="pd"):
    """the same store with arbitrary values"""
    pv, pn = E.ffun(tag + K.name, "R"), E.ffun(tag + K.name + "nan", "B")
    fam = content.fam
    base = DictC({}, fam, content.stores)

    def val(*k):
        v = read_key(base, k)
        items = dict(v.c.items)
        a = items["pd_values"].c
        kt = [valt(x) for x in k]
        items["pd_values"] = Fz(SArr, ArrC(a.shape, lambda *i: Num(pv(*kt, *i), pn(*kt, *i))))
        return Fz(SDict, DictC(items))
    if content.items:
        raise Unsupported("store with concrete keys")
    return DictC({}, Fam(fam.seq, val, fam.arity, fam.tup))


def store(calc, K):
    d = getattr(calc, K.attr)
    if not isinstance(d, SDict) or d.c.fam is None:
        raise Unsupported("the calculator's store %s is not a dictionary over the columns" % K.attr)
    return d


def new_calc(w, havoc=True, pf="ctx"):
    """a calculator after an arbitrary history: real __init__, then arbitrary contents satisfying Inv"""
    cls = w.load(M).PartialDependenceCalculator
    bs = E.fresh("batchsize", "I")
    calc = cls(CTX["model"], CTX["X"], CTX["pf"], Num(bs))
    if havoc:
        for K in (SINGLE, PAIRS, MINUS):
            d = store(calc, K)
            d.put(havoc_store(d.c, K))
            E.assume(inv(d.c, K))
    CTX["calc"] = calc
    return calc


# ------------------------------------------------------------------------------------------------ pending batches
def pend_content(K, tag="pend"):
    has_f, st, pos = E.ffun(tag, "B"), E.ffun(tag + "start", "I"), E.ffun(tag + "pos", "I")
    en = E.ffun(tag + "end", "I")
    n = E.fresh(tag + "len", "I")
    E.assume(tm.le(0, n))
    ats = [E.ffun(tag + "key%d" % i, s) for i, s in enumerate(K.pk)]
    kt = lambda ks: [numt(k) if s == "I" else valt(k) for k, s in zip(ks, K.pk)]
    seq = SymSeq(n, lambda i: tuple(SVal(a(i)) if s == "V" else Num(a(i)) for a, s in zip(ats, K.pk)),
                 pos=lambda *k: pos(*kt(k)), has=lambda *k: has_f(*kt(k)), arity=len(K.pk))
    seq.role = K
    seq.keyfns = ats
    return DictC({}, Fam(seq, lambda *k: (Num(st(*kt(k))), Num(en(*kt(k)))), len(K.pk), True))


def pend_enum(content, K):
    """the enumeration of the keys is one-to-one"""
    seq = content.fam.seq
    E.assume(tm.forall_i(seq.n, lambda i: tm.and_(seq.has(*seq.at(i)), tm.eq(seq.pos(*seq.at(i)), i))))
    E.assume(quant(K.pk, lambda *k: tm.implies(seq.has(*K.lift(*k)), tm.and_(
        tm.le(0, seq.pos(*K.lift(*k))), tm.lt(seq.pos(*K.lift(*k)), seq.n),
        *[eq_vals(a, b) for a, b in zip(seq.at(seq.pos(*K.lift(*k))), K.lift(*k))]))))


def has_key(content, ks):
    return SDict(content)._vc_has(tuple(ks))


def pending_ok(K, content, nrows, cellf):
    """[(name, term)]: each pending key is valid and its rows of the batch are X with the change applied"""
    L = CTX["X"].c.n

    def rng(k):
        s, e = read_key(content, K.lift(*k))
        return numt(s), numt(e)

    def empty():
        return content.fam is None and not content.stores and not content.items
    if empty():
        return []
    has = lambda k: has_key(content, K.lift(*k))
    return [
        ("pending keys are valid", quant(K.pk, lambda *k: tm.implies(has(k), K.pend_ok(*k)))),
        ("pending row ranges lie inside the batch", quant(K.pk, lambda *k: tm.implies(has(k), tm.and_(
            tm.le(0, rng(k)[0]), tm.eq(rng(k)[1], tm.add(rng(k)[0], L)), tm.le(rng(k)[1], nrows))))),
        ("batch rows hold the changed dataset", quant(K.pk + ("I", "V"), lambda *a: tm.implies(
            tm.and_(has(a[:-2]), CTX["X"].c.has(a[-1]) if K is MINUS else TRUE, tm.le(rng(a[:-2])[0], a[-2]), tm.lt(a[-2], rng(a[:-2])[1])),
            tm.eq(valt(cellf(a[-1], a[-2])), K.row(a[-1], tm.sub(a[-2], rng(a[:-2])[0]), *a[:-2]))))),
    ]


def unpack_cont(d):
    return d.c if isinstance(d, (SDict,)) else d


# ---- fill_*: contract applied at call sites and verified on the body
class FillLoop(vc.LoopSpec):
    name = "fill loop"

    def match(self, loop):
        s = loop.seq
        if s is None:
            return False
        s = getattr(s, "of_keys", s)
        self.K = getattr(s, "role", None)
        if self.K is None:
            return False
        self.seq = s
        self.d = store(CTX["calc"], self.K)
        self.entry = self.d.c
        return True

    def havoc(self, loop, k):
        self.d.put(havoc_store(self.entry, self.K, "fl"))
        return [self.d.hloc.root()]

    def inv(self, loop, k):
        K, c, e, seq = self.K, self.d.c, self.entry, self.seq

        def step(key, ii):
            now, old = cellv(c, K, key, ii), cellv(e, K, key, ii)
            pk = K.pend_of(*key, *ii)
            done = tm.and_(seq.has(*pk), tm.lt(seq.pos(*pk), k))
            return tm.and_(tm.implies(done, tm.not_(now.nan)),
                           tm.implies(tm.not_(done), tm.and_(tm.eq(now.nan, old.nan), tm.eq(now.t, old.t))))
        return [("stored values are unset or the specification", inv(c, K)),
                ("exactly the visited keys are filled", cells(K, step))]


def fill_ensures(K, before, after, pend):
    def f(key, ii):
        now, old = cellv(after, K, key, ii), cellv(before, K, key, ii)
        h = has_key(pend, K.pend_of(*key, *ii))
        return tm.and_(tm.implies(h, tm.not_(now.nan)), tm.implies(tm.not_(h), tm.and_(tm.eq(now.nan, old.nan), tm.eq(now.t, old.t))))
    return [("stored values are unset or the specification", inv(after, K)),
            ("every pending entry is filled and nothing else changes", cells(K, f))]


def fill_verify(K):
    def run(w):
        setup("custom")
        calc = new_calc(w)
        P = pend_content(K)
        pend_enum(P, K)
        nrows = pos_int("batch_rows", 0)
        xf = E.ffun("batch", "V")
        X = CTX["X"]
        F = lib.SFrame(lib.FrameC(nrows, X.c.cols, lambda q, i: SVal(xf(q, i)), index=lib.Index(nrows, lambda i: SVal(tm.app("blab", [i], "V")))))
        for _, t in pending_ok(K, P, nrows, F.c.cell):
            E.assume(t)
        d = store(calc, K)
        before = d.c
        others = [(o, store(calc, o).c) for o in (SINGLE, PAIRS, MINUS) if o is not K]
        getattr(calc, K.fill)(SDict(P), F)
        for nm, t in fill_ensures(K, before, d.c, P):
            E.oblige(nm, t)
        for o, c in others:
            E.oblige("the %s store is untouched" % o.name, TRUE if store(calc, o).c is c else FALSE)
    run.__name__ = "fill_" + K.name
    return run


def fill_apply(K):
    def run(w, real, self, range_dict, X_full):
        if not isinstance(range_dict, SDict) or not isinstance(X_full, lib.SFrame) or self is not CTX.get("calc"):
            return real(self, range_dict, X_full)
        P = range_dict.c
        if P.fam is None or P.items or getattr(P.fam.seq, "role", None) is not K:
            raise Unsupported("batch bookkeeping in an unexpected shape")
        check_columns(X_full, CTX["cols"])
        for nm, t in pending_ok(K, P, X_full.c.n, X_full.c.cell):
            E.oblige("call of %s: %s" % (K.fill, nm), t)
        d = store(self, K)
        before = d.c
        d.put(havoc_store(before, K, "fa"))
        for nm, t in fill_ensures(K, before, d.c, P):
            E.assume(t)
        return None
    return run


for K_ in (SINGLE, MINUS, PAIRS):
    contract(PDC + "." + K_.fill, {"single": "C01 C22", "minus": "C03 C22", "pairs": "C02 C22"}[K_.name], "fills exactly the pending entries",
             specs=[FillLoop])(fill_verify(K_))
    at_call(PDC + "." + K_.fill)(fill_apply(K_))


# ------------------------------------------------------------------------------------------------ calculate_*: batching loops
def closure(fn):
    out = {}
    for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
        try:
            out[n] = c.cell_contents
        except ValueError:
            pass
    return out


def is_frame(v):
    return isinstance(v, (table.EmptyFrame, lib.SFrame))


class Batch(vc.LoopSpec):
    """shared part of the outer and inner batching loops: roles of the local variables, found by kind, not by name"""

    def roles(self, loop):
        fv = closure(loop.body)
        frames = [n for n, v in loop.entry.items() if is_frame(v)]
        nums = [n for n, v in loop.entry.items() if isinstance(v, (int, Num)) and not isinstance(v, bool)]
        dicts = [n for n, v in fv.items() if isinstance(v, SDict) and pend_like(v)]
        if len(frames) != 1 or len(nums) != 1 or len(dicts) != 1:
            return None
        return {"frame": frames[0], "len": nums[0], "pend": dicts[0]}

    def cur(self, loop):
        fv = closure(loop.body)
        now = loop.get()
        r = self.r
        return fv[r["pend"]], now[r["len"]], now[r["frame"]]

    def base_inv(self, loop):
        K = self.K
        P, L, F = self.cur(loop)
        c, e = self.d.c, CTX["entry_store"]
        nrows = tm.num(0) if isinstance(F, table.EmptyFrame) else F.c.n
        cellf = (lambda q, i: SVal(tm.sym("nothing", "V"))) if isinstance(F, table.EmptyFrame) else F.c.cell
        out = [("stored values are unset or the specification", inv(c, K)),
               ("values once set stay set, entries not requested stay as they were", cells(K, lambda key, ii: tm.and_(
                   tm.implies(tm.not_(cellv(e, K, key, ii).nan), tm.not_(cellv(c, K, key, ii).nan)),
                   tm.implies(tm.not_(CTX["requested"](*key)), tm.eq(cellv(c, K, key, ii).nan, cellv(e, K, key, ii).nan))))),
               ("the batch length counts its rows", tm.and_(tm.eq(nrows, numt(L)), tm.le(0, numt(L))))]
        out += pending_ok(K, P.c, nrows, cellf)
        if P.c.fam is not None or P.c.stores or P.c.items:
            out.append(("only requested entries are pending", quant(K.pk, lambda *k: tm.implies(
                has_key(P.c, K.lift(*k)), CTX["requested"](*K.store_key(*k))))))
        return out

    def settled(self, loop, key, ii):
        """filled, or about to be"""
        P, _, _ = self.cur(loop)
        v = cellv(self.d.c, self.K, key, ii)
        return tm.or_(tm.not_(v.nan), has_key(P.c, self.K.pend_of(*key, *ii)))

    def havoc(self, loop, k):
        K, X = self.K, CTX["X"]
        self.active = not (loop.seq is not None and k is loop.seq.n)
        self.d.put(havoc_store(self.d.c, K, "hb"))
        pc = pend_content(K, "hp")
        L = E.fresh("hlen", "I")
        xf = E.ffun("hbatch", "V")
        F = lib.SFrame(lib.FrameC(L, X.c.cols, lambda q, i: SVal(xf(q, i)), index=lib.Index(L, lambda i: SVal(tm.app("blab", [i], "V")))))
        new = {self.r["len"]: Num(L), self.r["frame"]: F}
        cells_ = [self.d.hloc.root()]
        if self.r["pend"] in loop.getters:
            new[self.r["pend"]] = SDict(pc)
        else:
            P = closure(loop.body)[self.r["pend"]]
            P.put(pc)
            cells_.append(P.hloc.root())
        for n, v in loop.entry.items():
            if n not in new:
                new[n] = UNBOUND
        loop.put(new)
        return cells_


from pyvc.core import UNBOUND  # noqa: E402


def pend_like(d):
    c = d.c
    if c.fam is None and not c.stores and not c.items:
        return True
    return c.fam is not None and isinstance(getattr(c.fam.seq, "role", None), Kind)


class Outer(Batch):
    name = "request loop"

    def match(self, loop):
        if loop.seq is None or CTX.get("batch_kind") is None or CTX.get("outer") is not None:
            return False
        self.r = self.roles(loop)
        if self.r is None:
            return False
        self.K = CTX["batch_kind"]
        self.d = store(CTX["calc"], self.K)
        CTX["outer"] = self
        return True

    def inv(self, loop, k):
        return self.base_inv(loop) + [("the requests visited so far are filled or pending", tm.forall_i(k, lambda j: self.done(loop, j)))]

    def done(self, loop, j):
        return CTX["request_done"](j, lambda key, ii: self.settled(loop, key, ii))

    def havoc(self, loop, k):
        r = Batch.havoc(self, loop, k)
        if k is loop.seq.n:
            CTX["outer"] = None
        self.k = k
        return r


class Inner(Batch):
    name = "value loop"

    def match(self, loop):
        o = CTX.get("outer")
        if loop.seq is None or o is None:
            return False
        self.r = self.roles(loop)
        if self.r is None:
            return False
        self.K, self.d, self.o = o.K, o.d, o
        self.body0 = loop
        return True

    def inv(self, loop, m):
        K = self.K
        j = self.o.k
        prev = tm.forall_i(j, lambda jj: CTX["request_done"](jj, lambda key, ii: self.settled(loop, key, ii)))

        def visited(i):
            key, ii = CTX["value_cell"](j, loop.seq.at(i))
            return self.settled(loop, key, ii)
        return self.base_inv(loop) + [("earlier requests are still filled or pending", prev),
                                      ("the values visited so far are filled or pending", tm.forall_i(m, visited))]


def calc_verify(K, features):
    """features: 'all' (None passed), 'list' (arbitrary list of distinct columns / pairs), for pairs also the flag"""
    def run(w):
        X = setup("custom")
        nu, uval, uidx, _ = uniq()
        calc = new_calc(w)
        d = store(calc, K)
        CTX["entry_store"], CTX["batch_kind"], CTX["outer"] = d.c, K, None
        if K is PAIRS:
            args, kw = pairs_request(X, features, calc)
        else:
            if features == "all":
                seq, args = X.c.cols, ()
            else:
                nreq, fa = pos_int("nreq", 0), E.ffun("req", "V")       # any order, repeats allowed
                E.assume(tm.forall_i(nreq, lambda i: X.c.has(fa(i))))
                seq = SymSeq(nreq, lambda i: SVal(fa(i)), has=lambda v: tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, nreq), tm.eq(fa(i), valt(v)))))
                args = (own(SList(SeqC([("seg", nreq, seq.at)])), "the caller's feature list"),)
            kw = {}
            CTX["requested"] = lambda c: seq.has(SVal(c))
            CTX["request_done"] = lambda j, f: tm.forall_i(K.bounds(valt(seq.at(j)))[0], lambda i: f((valt(seq.at(j)),), (i,)))
            if K is SINGLE:
                CTX["value_cell"] = lambda j, v: ((valt(seq.at(j)),), (uidx(valt(seq.at(j)), valt(v)),))
            else:
                CTX["value_cell"] = lambda j, v: ((valt(seq.at(j)),), (numt(v[0]),))
        before = d.c
        others = [(o, store(calc, o).c) for o in (SINGLE, PAIRS, MINUS) if o is not K]
        fields = {n: v for n, v in calc.__dict__.items()}
        getattr(calc, K.calc)(*args, **kw)
        E.oblige("stored values are unset or the specification", inv(d.c, K))
        E.oblige("values once set stay set, entries not requested stay as they were", cells(K, lambda key, ii: tm.and_(
            tm.implies(tm.not_(cellv(before, K, key, ii).nan), tm.not_(cellv(d.c, K, key, ii).nan)),
            tm.implies(tm.not_(CTX["requested"](*key)), tm.eq(cellv(d.c, K, key, ii).nan, cellv(before, K, key, ii).nan)))))
        E.oblige("every requested entry is filled", tm.forall_i(CTX["nreq"] if K is PAIRS else seq.n, lambda j: CTX["request_done"](
            j, lambda key, ii: tm.not_(cellv(d.c, K, key, ii).nan))))
        for o, c in others:
            E.oblige("the %s store is untouched" % o.name, TRUE if store(calc, o).c is c else FALSE)
        E.oblige("the calculator's stores are the same objects", TRUE if getattr(calc, K.attr) is d else FALSE)
    return run


def pairs_request(X, mode, calc):
    nu, uval, uidx, _ = uniq()
    cols = X.c.cols
    every = mode.endswith("all_combinations")
    if mode.startswith("all"):
        s = store(calc, PAIRS).c.fam.seq
        args = (None,)
        key = lambda j: tuple(valt(x) for x in s.at(j))
        CTX["requested"] = lambda c, d: s.has(SVal(c), SVal(d))
        CTX["nreq"] = s.n
    else:
        n = pos_int("npairs", 0)
        a, b = E.ffun("pa", "V"), E.ffun("pb", "V")
        E.assume(tm.forall_i(n, lambda i: tm.and_(X.c.has(a(i)), X.c.has(b(i)), tm.ne(a(i), b(i)))))
        s = SymSeq(n, lambda i: (SVal(a(i)), SVal(b(i))))
        args = (own(SList(SeqC([("seg", n, s.at)])), "the caller's pair list"),)

        def key(j):
            fwd = tm.lt(cols.pos(SVal(a(j))), cols.pos(SVal(b(j))))
            return tm.ite(fwd, a(j), b(j)), tm.ite(fwd, b(j), a(j))
        CTX["requested"] = lambda c, d: tm.exists("I", lambda j: tm.and_(tm.le(0, j), tm.lt(j, n), tm.eq(key(j)[0], c), tm.eq(key(j)[1], d)))
        CTX["nreq"] = n
    if every:
        CTX["request_done"] = lambda j, f: tm.forall_i(nu(key(j)[0]), lambda i1: tm.forall_i(nu(key(j)[1]), lambda i2: f(key(j), (i1, i2))))
    else:
        CTX["request_done"] = lambda j, f: tm.forall_i(X.c.n, lambda r: f(key(j), tuple(uidx(c, xc(c, r)) for c in key(j))))
    CTX["value_cell"] = lambda j, v: (key(j), tuple(uidx(c, valt(x)) for c, x in zip(key(j), v)))
    return args, {"all_combinations": every}


for K_, p_ in ((SINGLE, "C01"), (MINUS, "C03")):
    for f_ in ("all", "list"):
        contract(PDC + "." + K_.calc, p_, "requests for %s" % ("all features" if f_ == "all" else "any feature list"),
                 specs=[Outer, Inner])(calc_verify(K_, f_))
for f_ in ("all all_combinations", "all observed", "list all_combinations", "list observed"):
    contract(PDC + "." + PAIRS.calc, "C02", "requests: " + f_, specs=[Outer, Inner])(calc_verify(PAIRS, f_))


# ------------------------------------------------------------------------------------------------ construction and look-ups
def values_ok(K, calc):
    """the value lists of the store are the sorted distinct observed values"""
    nu, uval, _, _ = uniq()
    c = store(calc, K).c
    out = []
    for name, pos in ({"single": (("f_values", 0),), "pairs": (("f1_values", 0), ("f2_values", 1)), "minus": ()}[K.name]):
        def f(*key):
            a = read_key(c, tuple(SVal(k) for k in key)).c.items[name].c
            col = key[pos]
            return tm.implies(K.keys_ok(*key), tm.and_(tm.eq(a.shape[0], nu(col)), tm.forall_i(
                nu(col), lambda i: tm.eq(valt(a.at(i)), uval(col, i)))))
        out.append(("%s lists the distinct observed values" % name, quant(K.key, f)))
    return out


def shape_ok(K, content):
    def f(*key):
        a = read_key(content, tuple(SVal(k) for k in key)).c.items["pd_values"].c
        return tm.implies(K.keys_ok(*key), tm.and_(*[tm.eq(x, y) for x, y in zip(a.shape, K.bounds(*key))]) if len(a.shape) == len(K.bounds(*key)) else FALSE)
    return quant(K.key, f)


def keys_are(K, content):
    def has(key):
        return SDict(content)._vc_has(SVal(key[0]) if len(key) == 1 else tuple(SVal(k) for k in key))
    return quant(K.key, lambda *key: tm.eq(has(key), K.keys_ok(*key)))


def init_verify(K):
    def run(w):
        setup("custom")
        calc = new_calc(w, havoc=False)
        c = store(calc, K).c
        E.oblige("the store has exactly the dataset's columns (pairs in column order) as keys", keys_are(K, c))
        E.oblige("one place per observed value (row)", shape_ok(K, c))
        for nm, t in values_ok(K, calc):
            E.oblige(nm, t)
        E.oblige("nothing is set before the first request", cells(K, lambda key, ii: cellv(c, K, key, ii).nan))
        E.oblige("the calculator works on the dataset it was given", calc.X.c.same(CTX["X"].c) if calc.X is not CTX["X"] else TRUE)
        E.oblige("the calculator keeps the caller's model", TRUE if calc.model is CTX["model"] else FALSE)
    return run


for K_, p_ in ((SINGLE, "C01"), (PAIRS, "C02"), (MINUS, "C03")):
    contract(PDC + ".__init__", p_, "a new calculator's %s store" % K_.name)(init_verify(K_))


def observed(c, name, n):
    """arbitrary list of n observed values of column c"""
    nu, uval, uidx, _ = uniq()
    f = E.ffun(name, "V")
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, uidx(c, f(i))), tm.lt(uidx(c, f(i)), nu(c)), tm.eq(uval(c, uidx(c, f(i))), f(i)))))
    return f


def all_set(K, content, *key):
    ni = 2 if K is PAIRS else 1
    E.assume(quant(("I",) * ni, lambda *ii: tm.implies(within(K.bounds(*key), ii), tm.not_(cellv(content, K, key, ii).nan))))


def is_array(name, got, n, f):
    """the result is an array of n numbers f(i)"""
    if not isinstance(got, SArr) or len(got.c.shape) != 1:
        raise Unsupported("result is not a vector")
    E.oblige("%s: length" % name, tm.eq(got.c.shape[0], n))

    def at(i):
        v = num_of(got.c.at(i))
        return tm.and_(tm.not_(v.nan), tm.eq(v.t, f(i)))
    E.oblige("%s: values" % name, tm.forall_i(n, at))


@contract(PDC + ".get_pd_single", "C01", "values in the requested order")
def get_single(w):
    X = setup("custom")
    calc = new_calc(w)
    c = a_column(X, "feature").t
    all_set(SINGLE, store(calc, SINGLE).c, c)
    n = pos_int("nvals")
    vs = observed(c, "vals", n)
    before = {K: store(calc, K).c for K in (SINGLE, PAIRS, MINUS)}
    got = calc.get_pd_single(SVal(c), own(SArr(ArrC((n,), lambda i: SVal(vs(i)))), "the requested values"))
    is_array("partial dependence at the requested values", got, n, lambda i: PD1(c, vs(i)))
    got = calc.get_pd_single(SVal(c))
    is_array("the whole profile", got, uniq()[0](c), lambda i: PD1(c, uniq()[1](c, i)))
    E.oblige("looking up changes nothing", TRUE if all(store(calc, K).c is b for K, b in before.items()) else FALSE)


@contract(PDC + ".get_pd_minus_single", "C03", "one value per row")
def get_minus(w):
    X = setup("custom")
    calc = new_calc(w)
    c = a_column(X, "feature").t
    all_set(MINUS, store(calc, MINUS).c, c)
    got = calc.get_pd_minus_single(SVal(c))
    is_array("complement partial dependence per row", got, X.c.n, lambda i: PDM(c, i))


@contract(PDC + ".get_pd_pairs", "C02", "values in the requested order, for both orders of the pair")
def get_pairs(w):
    X = setup("custom")
    calc = new_calc(w)
    f, g = a_column(X, "feature1").t, a_column(X, "feature2").t
    E.assume(tm.ne(f, g))
    pos = lambda q: X.c.cols.pos(SVal(q))
    fwd = tm.lt(pos(f), pos(g))
    if E.branch(fwd):
        all_set(PAIRS, store(calc, PAIRS).c, f, g)
    else:
        all_set(PAIRS, store(calc, PAIRS).c, g, f)
    n = pos_int("nvals")
    u, v = observed(f, "us", n), observed(g, "vs", n)
    E.oblige("lemma: the pairwise value does not depend on the order of the pair", tm.forall_i(n, lambda i: tm.eq(
        PD2(f, g, u(i), v(i)), PD2(g, f, v(i), u(i)))))
    got = calc.get_pd_pairs(SVal(f), SVal(g), own(SList(SeqC([("seg", n, lambda i: (SVal(u(i)), SVal(v(i))))])), "the requested values"))
    is_array("pairwise partial dependence at the requested values", got, n, lambda i: PD2(f, g, u(i), v(i)))
    swapped = calc.get_pd_pairs(SVal(g), SVal(f), SList(SeqC([("seg", n, lambda i: (SVal(v(i)), SVal(u(i))))])))
    is_array("the other order of the pair, values swapped", swapped, n, lambda i: PD2(f, g, u(i), v(i)))


ZEN = "artemis._utilities.zenplot"


class _Method:
    """what the zenplot helper reads of a method"""

    def __init__(self, calc):
        self.pd_calculator = calc


def grid(name, xs, ys, z, f, g):
    """z[i, j] is the pairwise partial dependence of f at ys[i] and g at xs[j]; ys and xs list the distinct observed values"""
    nu, uval, _, _ = uniq()
    xs, ys, z = (asarray(a).c for a in (xs, ys, z))
    E.oblige("%s: sizes" % name, tm.and_(tm.eq(xs.shape[0], nu(g)), tm.eq(ys.shape[0], nu(f)), tm.eq(z.shape[0], nu(f)), tm.eq(z.shape[1], nu(g))))
    i, j = E.fresh("i", "I"), E.fresh("j", "I")
    rng = tm.and_(tm.le(0, i), tm.lt(i, nu(f)), tm.le(0, j), tm.lt(j, nu(g)))
    v = num_of(z.at(i, j))
    E.oblige("%s: lemma: the pairwise value does not depend on the order of the pair" % name, tm.eq(
        PD2(f, g, uval(f, i), uval(g, j)), PD2(g, f, uval(g, j), uval(f, i))))
    E.oblige("%s: values" % name, tm.implies(rng, tm.and_(tm.eq(valt(ys.at(i)), uval(f, i)), tm.eq(valt(xs.at(j)), uval(g, j)),
                                                          tm.not_(v.nan), tm.eq(v.t, PD2(f, g, uval(f, i), uval(g, j))))))


def filled_pair(w):
    X = setup("custom")
    calc = new_calc(w)
    f, g = a_column(X, "feature1").t, a_column(X, "feature2").t
    E.assume(tm.ne(f, g))
    pos = lambda q: X.c.cols.pos(SVal(q))
    k = (f, g) if E.branch(tm.lt(pos(f), pos(g))) else (g, f)
    all_set(PAIRS, store(calc, PAIRS).c, *k)
    return calc, f, g


@contract(ZEN + ":get_pd_pairs_values", "C02", "values and grid in the order of the pair")
def zen_values(w):
    calc, f, g = filled_pair(w)
    before = {K: store(calc, K).c for K in (SINGLE, PAIRS, MINUS)}
    got = w.load(ZEN).get_pd_pairs_values(_Method(calc), (SVal(f), SVal(g)))
    grid("the pair's grid", got["f2_values"], got["f1_values"], got["pd_values"], f, g)
    E.oblige("looking up changes nothing", TRUE if all(store(calc, K).c is b for K, b in before.items()) else FALSE)


def drawn_grids(kinds):
    got = [x for x in E.log if x[0] == "call" and x[1].rpartition(".")[2] in kinds]
    if not got or any(len(x[2]) != 3 for x in got):
        raise Unsupported("grids drawn in another way")
    return got


def profile(kind):
    def run(w):
        calc, f, g = filled_pair(w)
        m = w.load(HST).FriedmanHStatisticMethod()
        m.pd_calculator = calc
        before = {K: store(calc, K).c for K in (SINGLE, PAIRS, MINUS)}
        m.plot_profile(SVal(f), SVal(g), kind=kind)
        labels = {x[1].rpartition(".")[2]: x[2][0] for x in E.log if x[0] == "call" and x[1].rpartition(".")[2] in ("xlabel", "ylabel")}
        x, y = valt(labels["xlabel"]), valt(labels["ylabel"])
        E.oblige("the axes are the two features", tm.or_(tm.and_(tm.eq(x, f), tm.eq(y, g)), tm.and_(tm.eq(x, g), tm.eq(y, f))))
        for _, path, a, _ in drawn_grids(("pcolormesh", "contour", "contourf")):
            # along the labelled axes
            if E.known(tm.and_(tm.eq(x, g), tm.eq(y, f))):
                grid(path, a[0], a[1], a[2], f, g)
            else:
                grid(path, a[0], a[1], a[2], g, f)
        E.oblige("drawing changes nothing", TRUE if all(store(calc, K).c is b for K, b in before.items()) else FALSE)
    return run


HST = "artemis.interactions_methods.model_agnostic.partial_dependence_based._friedman_h_statistic"
PDB = "artemis.interactions_methods.model_agnostic.partial_dependence_based._pdp:PartialDependenceBasedMethod"
for k_ in ("colormesh", "contour"):
    contract(PDB + ".plot_profile", "C02", "profile of a pair, %s" % k_)(profile(k_))


@contract(PDB + ".plot_profile", "C01", "profile of a feature")
def profile1(w):
    X = setup("custom")
    calc = new_calc(w)
    c = a_column(X, "feature").t
    all_set(SINGLE, store(calc, SINGLE).c, c)
    m = w.load(HST).FriedmanHStatisticMethod()
    m.pd_calculator = calc
    m.plot_profile(SVal(c))
    got = [x for x in E.log if x[0] == "call" and x[1].endswith("plot") and "rug" not in x[1]]
    if len(got) != 1 or len(got[0][2]) != 2:
        raise Unsupported("profile drawn in another way")
    nu, uval, _, _ = uniq()
    xs, ys = (asarray(a).c for a in got[0][2])
    i = E.fresh("i", "I")
    v = num_of(ys.at(i))
    E.oblige("sizes", tm.and_(tm.eq(xs.shape[0], nu(c)), tm.eq(ys.shape[0], nu(c))))
    E.oblige("the profile at the observed values", tm.implies(tm.and_(tm.le(0, i), tm.lt(i, nu(c))), tm.and_(
        tm.eq(valt(xs.at(i)), uval(c, i)), tm.not_(v.nan), tm.eq(v.t, PD1(c, uval(c, i))))))


@contract(PDC + "._get_pair_key", "C02", "the stored key of a pair")
def pair_key(w):
    X = setup("custom")
    calc = new_calc(w)
    f, g = a_column(X, "feature1").t, a_column(X, "feature2").t
    E.assume(tm.ne(f, g))
    got = calc._get_pair_key((SVal(f), SVal(g)))
    a, b = valt(got[0]), valt(got[1])
    E.oblige("it is a key of the store", PAIRS.keys_ok(a, b))
    E.oblige("it is the same unordered pair", tm.or_(tm.and_(tm.eq(a, f), tm.eq(b, g)), tm.and_(tm.eq(a, g), tm.eq(b, f))))


@contract(M + ":get_index", "C01 C02", "position of a value in the list of distinct observed values")
def get_index_(w):
    X = setup("custom")
    nu, uval, uidx, _ = uniq()
    c = a_column(X, "feature").t
    i = E.fresh("i", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, nu(c))))
    a = w.load(M).np.sort(w.load(M).np.unique(X[SVal(c)].values))
    got = w.load(M).get_index(a, SVal(uval(c, i)))
    ensure_eq("the index is the value's position", got, i)


# ------------------------------------------------------------------------------------------------ call-site contracts of calculate_*
# Clients see the partial dependences as the specification functions PD1, PD2, PDM of the calculator's dataset; the contracts
# above establish that these are the stated means of predictions.
import inspect  # noqa: E402


def pdname(X):
    c = X.c
    nm = getattr(c, "pdname", None)
    if nm is None:
        nm = c.pdname = c.name if c.name else "s%d" % vc.next_id()
    return nm


def sPD1(c, u, X=None):
    return tm.app("PD1:" + pdname(X or CTX["X"]), [c, u], "R")


def sPD2(c, d, u, v, X=None):
    return tm.app("PD2:" + pdname(X or CTX["X"]), [c, d, u, v], "R")


def sPDM(c, i, X=None):
    return tm.app("PDM:" + pdname(X or CTX["X"]), [c, i], "R")


def pair_pd(f, g, u, v, X=None):
    """pairwise partial dependence of an unordered pair: PD2 is symmetric (lemma in the contract of get_pd_pairs)"""
    X = X or CTX["X"]
    nm = pdname(X)
    sym = tm.forall("V", lambda c: tm.forall("V", lambda d: tm.forall("V", lambda x: tm.forall("V", lambda y: tm.implies(
        tm.ne(c, d), tm.eq(sPD2(c, d, x, y, X), sPD2(d, c, y, x, X)))))))
    if sym not in E.pc:
        E.assume(sym)
    return sPD2(f, g, u, v, X)


def sspec(K, X):
    nu, uval, uidx, _ = uniq(X)
    if K is SINGLE:
        return lambda c, i: sPD1(c, uval(c, i), X)
    if K is MINUS:
        return lambda c, i: sPDM(c, i, X)
    return lambda c, d, i, j: sPD2(c, d, uval(c, i), uval(d, j), X)


class using:
    """evaluate specifications for another dataset"""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: CTX.get(k) for k in self.kw}
        CTX.update(self.kw)

    def __exit__(self, *a):
        CTX.update(self.old)


def explains(what, predict_function, model, X):
    """obligation: this prediction function and model compute the explained prediction of every table"""
    n = pos_int("probe_rows")
    f = E.ffun("probe", "V")
    fr = lib.SFrame(lib.FrameC(n, X.c.cols, lambda q, i: SVal(f(q, i)), index=lib.Index(n, lambda i: SVal(tm.app("plab", [i], "V")))))
    y = predict_function(model, fr)
    if not isinstance(y, SArr) or len(y.c.shape) != 1:
        raise Unsupported("prediction is not a vector")
    E.oblige("%s computes the explained prediction" % what, tm.and_(tm.eq(y.c.shape[0], n), tm.forall_i(n, lambda r: tm.eq(
        num_of(y.c.at(r)).t, pred(lambda q: f(q, r))))))


def calc_apply(K):
    def run(w, real, self, *args, **kw):
        X = self.X
        if not isinstance(X, lib.SFrame):
            raise Unsupported("calculator on %s" % type(X).__name__)
        ba = inspect.signature(real).bind(self, *args, **kw)
        ba.apply_defaults()
        vals = list(ba.arguments.values())
        req = vals[1]
        with using(X=X):
            explains("the calculator", self.predict_function, self.model, X)
            nu, uval, uidx, _ = uniq(X)
            d = store(self, K)
            old = d.c
            if req is None:
                requested = lambda *k: K.keys_ok(*k)
            else:
                s = to_seq(req)
                if isinstance(s, list):
                    raise Unsupported("explicit request")
                if K is PAIRS:
                    pair = lambda i: tuple(valt(x) for x in s.at(i))
                    E.oblige("call of %s: every request is a pair of different columns" % K.calc, tm.forall_i(s.n, lambda i: tm.and_(
                        X.c.has(pair(i)[0]), X.c.has(pair(i)[1]), tm.ne(*pair(i)))))
                    req_f = E.ffun("requested", "B")
                    requested = lambda c, e: req_f(c, e)
                    E.assume(tm.forall_i(s.n, lambda i: tm.or_(req_f(*pair(i)), req_f(*reversed(pair(i))))))
                    pos = lambda q: X.c.cols.pos(SVal(q))
                    E.assume(tm.forall_i(s.n, lambda i: tm.ite(tm.lt(pos(pair(i)[0]), pos(pair(i)[1])), req_f(*pair(i)), req_f(*reversed(pair(i))))))
                else:
                    at = lambda i: valt(s.at(i))
                    E.oblige("call of %s: every request is a column" % K.calc, tm.forall_i(s.n, lambda i: X.c.has(at(i))))
                    req_f = E.ffun("requested", "B")
                    E.assume(tm.forall_i(s.n, lambda i: req_f(at(i))))
                    requested = lambda c: req_f(c)
            if K is PAIRS and vals[2] is not True:
                if vals[2] is not False:
                    raise Unsupported("all_combinations is not a literal")
                obs = E.ffun("observed", "B")
                E.assume(tm.forall("V", lambda c: tm.forall("V", lambda e: tm.forall_i(X.c.n, lambda r: obs(
                    c, e, uidx(c, xc(c, r)), uidx(e, xc(e, r)))))))
                settled = lambda key, ii: tm.and_(requested(*key), obs(*key, *ii))
            else:
                settled = lambda key, ii: requested(*key)
            spec_ = sspec(K, X)
            nk = len(K.key)
            oldnan = lambda key, ii: cellv(old, K, key, ii).nan
            fam = old.fam
            if old.items:
                raise Unsupported("store with concrete keys")

            def val(*k):
                v = read_key(DictC({}, fam, old.stores), k)
                items = dict(v.c.items)
                a = items["pd_values"].c
                kt = tuple(valt(x) for x in k)
                items["pd_values"] = Fz(SArr, ArrC(a.shape, lambda *ii: Num(
                    spec_(*kt, *ii), tm.and_(tm.not_(settled(kt, ii)), oldnan(kt, ii)))))
                return Fz(SDict, DictC(items))
            d.put(DictC({}, Fam(fam.seq, val, fam.arity, fam.tup)))
        return None
    return run


for K_ in (SINGLE, MINUS, PAIRS):
    at_call(PDC + "." + K_.calc)(calc_apply(K_))


# ------------------------------------------------------------------------------------------------ call-site contracts of the look-ups
def is_observed(c, v):
    nu, uval, uidx, _ = uniq()
    return tm.and_(tm.le(0, uidx(c, v)), tm.lt(uidx(c, v), nu(c)), tm.eq(uval(c, uidx(c, v)), v))


def computed(K, content, key, ii, want):
    x = cellv(content, K, key, ii)
    return tm.and_(tm.not_(x.nan), tm.eq(x.t, want))


def values_seq(v):
    s = to_seq(v)
    if isinstance(s, list):
        raise Unsupported("explicit values")
    return s


def bind_args(real, self, args, kw):
    ba = inspect.signature(real).bind(self, *args, **kw)
    ba.apply_defaults()
    return list(ba.arguments.values())[1:]


@at_call(PDC + ".get_pd_single")
def _(w, real, self, *args, **kw):
    feature, vals = bind_args(real, self, args, kw)
    X = self.X
    with using(X=X):
        c = valt(feature)
        nu, uval, uidx, _ = uniq(X)
        st = store(self, SINGLE).c
        E.oblige("call of get_pd_single: the feature is a column", X.c.has(c))
        if vals is None:
            E.oblige("call of get_pd_single: the profile has been computed", tm.forall_i(nu(c), lambda i: computed(
                SINGLE, st, (c,), (i,), sPD1(c, uval(c, i), X))))
            return SArr(ArrC((nu(c),), lambda i: Num(sPD1(c, uval(c, i), X))))
        s = values_seq(vals)
        at = lambda r: valt(s.at(r))
        E.oblige("call of get_pd_single: the values are observed", tm.forall_i(s.n, lambda r: is_observed(c, at(r))))
        E.oblige("call of get_pd_single: the values have been computed", tm.forall_i(s.n, lambda r: computed(
            SINGLE, st, (c,), (uidx(c, at(r)),), sPD1(c, uval(c, uidx(c, at(r))), X))))
        return SArr(ArrC((s.n,), lambda r: Num(sPD1(c, at(r), X))))


@at_call(PDC + ".get_pd_minus_single")
def _(w, real, self, *args, **kw):
    feature, = bind_args(real, self, args, kw)
    X = self.X
    with using(X=X):
        c = valt(feature)
        st = store(self, MINUS).c
        E.oblige("call of get_pd_minus_single: the feature is a column", X.c.has(c))
        E.oblige("call of get_pd_minus_single: the values have been computed", tm.forall_i(X.c.n, lambda i: computed(
            MINUS, st, (c,), (i,), sPDM(c, i, X))))
        return SArr(ArrC((X.c.n,), lambda i: Num(sPDM(c, i, X))))


@at_call(PDC + ".get_pd_pairs")
def _(w, real, self, *args, **kw):
    f1, f2, vals = bind_args(real, self, args, kw)
    X = self.X
    with using(X=X):
        f, g = valt(f1), valt(f2)
        nu, uval, uidx, _ = uniq(X)
        st = store(self, PAIRS).c
        pos = lambda q: X.c.cols.pos(SVal(q))
        fwd = tm.lt(pos(f), pos(g))
        E.oblige("call of get_pd_pairs: the features are two different columns", tm.and_(X.c.has(f), X.c.has(g), tm.ne(f, g)))
        if vals is None:
            a, b = (f, g) if E.branch(fwd) else (g, f)
            spec_ = lambda i, j: sPD2(a, b, uval(a, i), uval(b, j), X)
            E.oblige("call of get_pd_pairs: the profile has been computed", tm.forall_i(nu(a), lambda i: tm.forall_i(nu(b), lambda j: computed(
                PAIRS, st, (a, b), (i, j), spec_(i, j)))))
            return SArr(ArrC((nu(a), nu(b)), lambda i, j: Num(spec_(i, j))))
        s = values_seq(vals)
        at = lambda r: tuple(valt(x) for x in s.at(r))
        E.oblige("call of get_pd_pairs: the values are observed", tm.forall_i(s.n, lambda r: tm.and_(is_observed(f, at(r)[0]), is_observed(g, at(r)[1]))))

        def one(r):
            u, v = at(r)
            iu, iv = uidx(f, u), uidx(g, v)
            return tm.ite(fwd, computed(PAIRS, st, (f, g), (iu, iv), sPD2(f, g, uval(f, iu), uval(g, iv), X)),
                          computed(PAIRS, st, (g, f), (iv, iu), sPD2(g, f, uval(g, iv), uval(f, iu), X)))
        E.oblige("call of get_pd_pairs: the values have been computed", tm.forall_i(s.n, one))
        return SArr(ArrC((s.n,), lambda r: Num(pair_pd(f, g, *at(r), X))))
