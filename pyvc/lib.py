"""Models of the libraries the package uses (numpy, pandas, tqdm, itertools, ...): the trusted, assumed contracts.

Every model states what the library call returns as a function of its arguments (or, for random draws and sorts, the
defining relation); anything not listed raises Unsupported.  Numbers are mathematical reals with an explicit NaN flag."""
import itertools as _it

from . import terms as tm
from . import vc
from .core import (E, FALSE, NAN, TRUE, Cell, Heap, ModelledError, Num, Poison, SBool, SVal, SubCell, Sym, Unsupported, asnum,
                   boolt, eq_vals, is_num, isna_term, ite_num, mkbool, nant, nsqrt, not_, numt, scalar, valt, view)
from .values import (ArrC, DictC, Fam, Fz, Range, SArr, SDict, SList, SSet, SeqC, SymSeq, amean, ared, asarray, asum, avar,
                     csubst, cval, exists_idx, freeze, idx, ite_val, mkset, norm_index, norm_slice, num_of, read_key, rv, same_val, select, take,
                     thaw, to_seq, under, veq, vsubst)


def use(name):
    E.used_models.add(name)


class Index:
    """identity of a pandas row index; labels(i) -> value, or None for 0..n-1"""

    def __init__(self, n, labels=None):
        self.n, self.labels = n, labels

    def at(self, i):
        return Num(i) if self.labels is None else self.labels(i)


# ------------------------------------------------------------------------------------------------ Series
class SeriesItems:
    """Series.items(): (label, value) pairs in row order"""

    def __init__(self, s):
        self.s = s

    def _vc_seq(self):
        c = self.s.c
        use("Series.items: the pairs of label and value, in row order")
        ix = c.index if c.index is not None else Index(c.shape[0])

        def at(i):
            v = c.at(i)
            return (ix.at(i), SArr(v.c) if isinstance(v, Fz) and v.cls is SArr else v)
        r = SymSeq(c.shape[0], at)
        r.items_of = c
        return r


class NdArray:
    """np.ndarray"""

    def _vc_isinstance(self, x):
        return type(x) is SArr

    def __call__(self, shape, *a, **k):
        if a or k:
            raise Unsupported("np.ndarray options")
        use("np.ndarray(n): n unspecified values")
        shape = tuple(idx(x) for x in shape) if isinstance(shape, tuple) else (idx(shape),)
        f = E.ffun("uninitialised", "R")
        return SArr(ArrC(shape, lambda *i: Num(f(*i))))


class SSeries(SArr):
    """pandas Series: an array with a row index"""

    def __init__(self, c, loc=None, name=None):
        SArr.__init__(self, c, loc)

    @classmethod
    def _new(cls, c):
        return cls(c)

    @property
    def values(self):
        c = self.c
        return view(SArr(ArrC(c.shape, c.at) if c.stores else ArrC(c.shape, c.fn)), self)

    def to_numpy(self, *a, **k):
        return self.values

    def items(self):
        return SeriesItems(self)
    iteritems = items

    @property
    def index(self):
        return SIndex(self.c.index)

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def empty(self):
        return mkbool(tm.eq(self.c.shape[0], 0))

    def astype(self, dtype, *a, **k):
        if isinstance(dtype, str) and dtype == "category" and not a and not k:
            from .table import Categories
            return Categories(self.c)
        return SArr.astype(self, dtype, *a, **k)

    def __getitem__(self, k):
        c = self.c
        if isinstance(k, SArr) and isinstance(probe(k), (bool, SBool)):
            n, sel, _ = select(lambda i: boolt(k.c.at(i)), c.shape[0])
            return SSeries(ArrC((n,), lambda i: c.at(sel(i)), index=sub_index(c.index, n, sel)))
        if isinstance(k, (str, SVal)):
            has, pos = self._row_of(k)
            if truth(SBool(has)):
                return thaw(c.at(pos))
            raise ModelledError(KeyError, "label")
        raise Unsupported("label look-up in a Series")

    def _row_of(self, k):
        """(is the label there?, its row); labels must be known to be distinct"""
        c = self.c
        ix, n = c.index, c.shape[0]
        if ix is None or ix.labels is None:
            raise Unsupported("label look-up in a Series")
        lab = lambda i: valt(ix.at(i))
        a, b = E.fresh("row", "I"), E.fresh("row", "I")
        if not E.known(tm.implies(tm.and_(tm.le(0, a), tm.lt(a, b), tm.lt(b, n)), tm.ne(lab(a), lab(b)))):
            raise Unsupported("label look-up in a Series whose labels may repeat")
        use("Series[label]: the row with that label")
        pos, has = E.dfun("rowof", (n, lab(tm.sym("anyitem", "I"))), "I"), E.dfun("haslabel", (n, lab(tm.sym("anyitem", "I"))), "B")
        E.assume(tm.forall_i(n, lambda i: tm.and_(has(lab(i)), tm.eq(pos(lab(i)), i))))
        q = valt(k)
        E.assume(tm.implies(has(q), tm.and_(tm.le(0, pos(q)), tm.lt(pos(q), n), tm.eq(lab(pos(q)), q))))
        return has(q), pos(q)

    def get(self, k, default=None):
        has, pos = self._row_of(k)
        return ite_val(has, self.c.at(pos), default)

    def isna(self):
        c = self.c
        return SSeries(ArrC(c.shape, lambda i: mkbool(isnan_val(c.at(i))), index=c.index))
    isnull = isna

    def isin(self, xs):
        c = self.c
        return SSeries(ArrC(c.shape, lambda i: vc.contains(c.at(i), xs), index=c.index))

    def fillna(self, v):
        c = self.c
        return SSeries(ArrC(c.shape, lambda i: fill(c.at(i), v), index=c.index))

    def unique(self):
        return NP.unique(self.values, _sort=False)

    def nunique(self):
        return NP.unique(self.values)._vc_len()

    def max(self, *a, **k):
        return nan_red("max", self.c)

    def min(self, *a, **k):
        return nan_red("min", self.c)

    def sum(self, *a, **k):
        c = self.c
        return Num(tm.mk_sum(c.shape[0], lambda i: tm.ite(num_of(c.at(i)).nan, 0, num_of(c.at(i)).t)))

    def std(self, *a, **k):
        ddof = k.get("ddof", 1)
        use("pandas Series.std divides by n - 1 by default")
        return nsqrt(avar(self.c, ddof))

    def var(self, *a, **k):
        return avar(self.c, k.get("ddof", 1))

    def mean(self, *a, **k):
        c = self.c
        p = tm.fresh("p", "I")
        if num_of(c.at(p)).nan is FALSE:
            return amean(c)
        raise Unsupported("Series.mean with missing values")

    def reset_index(self, drop=False):
        c = self.c
        if not drop:
            raise Unsupported("Series.reset_index")
        return SSeries(ArrC(c.shape, c.at, index=Index(c.shape[0])))

    def apply(self, fn):
        s = vc.sym_comp("apply", "list", to_seq(self), 0, [], fn, True)
        c = self.c
        sc = s.c.seq()
        return SSeries(ArrC(c.shape, sc.at, index=c.index))

    def map(self, m, **k):
        if k:
            raise Unsupported("Series.map options")
        if not isinstance(m, SDict):
            return self.apply(m)
        use("Series.map(dict): the dict's value for every element")
        c = self.c
        E.require(tm.forall_i(c.shape[0], lambda i: m._vc_has(c.at(i))), "every element has an entry")
        return SSeries(ArrC(c.shape, lambda i: read_key(m.c, (c.at(i),)), index=c.index))

    def head(self, k):
        c = self.c
        kk = tm.ite(tm.lt(idx(k), c.shape[0]), idx(k), c.shape[0])
        return SSeries(ArrC((kk,), c.at, index=c.index))

    def equals(self, o):
        return mkbool(same_arr(self.c, o.c))


def nan_red(kind, c):
    """pandas max/min skip NaN; NaN only when there is no number"""
    p = tm.fresh("p", "I")
    if num_of(c.at(p)).nan is FALSE:
        n = c.shape[0]
        if E.known(tm.lt(0, n)):
            return ared(kind, c)
        return Num(tm.mk_red(kind, n, lambda i: (TRUE, num_of(c.at(i)).t)), tm.eq(n, 0))
    some = exists_idx(c.shape, lambda i: tm.not_(num_of(c.at(i)).nan))
    return Num(tm.mk_red(kind, c.shape[0], lambda i: (tm.not_(num_of(c.at(i)).nan), num_of(c.at(i)).t)), tm.not_(some))


def same_arr(a, b):
    return tm.and_(tm.eq(a.shape[0], b.shape[0]), tm.forall_i(a.shape[0], lambda i: eq_vals(a.at(i), b.at(i))))


def probe(a):
    return a.c.at(*[tm.fresh("pp", "I") for _ in a.c.shape])


def isnan_val(v):
    if v is None:
        return TRUE
    if isinstance(v, Num):
        return v.nan
    if isinstance(v, float):
        return TRUE if v != v else FALSE
    if isinstance(v, SVal):
        return isna_term(v.t)
    return FALSE


def fill(v, d):
    if isinstance(v, Num):
        return v if v.nan is FALSE else ite_num(v.nan, d, Num(v.t))
    if isinstance(v, float) and v != v:
        return d
    return v


class SIndex:
    """a pandas row Index"""

    def __init__(self, ix):
        self.ix = ix

    def _vc_seq(self):
        return getattr(self.ix, "seq", None) or SymSeq(self.ix.n, self.ix.at)

    def _vc_len(self):
        return Num(self.ix.n)

    @property
    def values(self):
        return SArr(ArrC((self.ix.n,), self.ix.at))

    def __getitem__(self, k):
        if isinstance(k, SArr) and isinstance(k.c.at(tm.fresh("pp", "I")), (bool, SBool)):
            E.require(tm.eq(k.c.shape[0], self.ix.n), "mask has one entry per row")
            n, sel, _ = select(lambda i: boolt(k.c.at(i)), self.ix.n)
            return SIndex(Index(n, lambda i: self.ix.at(sel(i))))
        t = norm_index(k, self.ix.n)
        return self.ix.at(t)

    def tolist(self):
        return SList(SeqC([("seg", self.ix.n, self.ix.at)]))


def sub_index(ix, n, sel):
    if ix is None:
        return None
    return Index(n, lambda i: ix.at(sel(i)))


class ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, SSeries):
            c = o.c
            if isinstance(k, (SIndex, SArr, SList)):
                s = to_seq(k)
                if isinstance(s, list):
                    raise Unsupported("iloc")
                E.require(tm.forall_i(s.n, lambda j: tm.and_(tm.le(0, numt(s.at(j))), tm.lt(numt(s.at(j)), c.shape[0]))), "positions in range")
                sel = lambda i: numt(s.at(i))
                return SSeries(ArrC((s.n,), lambda i: c.at(sel(i)), index=sub_index(c.index, s.n, sel)))
            if isinstance(k, slice):
                lo, n = norm_slice(k, c.shape[0])
                return SSeries(ArrC((n,), lambda i: c.at(tm.add(i, lo)), index=sub_index(c.index, n, lambda i: tm.add(i, lo))))
            return c.at(norm_index(k, c.shape[0]))
        return o._iloc(k)


# ------------------------------------------------------------------------------------------------ datasets
class FrameC:
    """a dataset: n rows, columns given by a sequence of distinct names, cell(column, row)"""

    def __init__(self, n, cols, cell, index=None, isnum=None, extra=(), name=None, stores=()):
        self.n, self.cols, self._cell, self.index, self.isnum, self.extra, self.name = n, cols, cell, index, isnum, tuple(extra), name
        self.stores = tuple(stores)
        self.uq = None

    def cell(self, c, i):
        v = self._cell(c, i)
        for k, f in self.stores:
            v = ite_val(tm.eq(c, k), f(i), v)
        for k, f in self.extra:
            v = ite_val(tm.eq(c, k), f(i), v)
        return v

    def has(self, c):
        return tm.or_(self.cols.has(SVal(c)), *[tm.eq(c, k) for k, _ in self.extra])

    def with_(self, **kw):
        d = dict(n=self.n, cols=self.cols, cell=self._cell, index=self.index, isnum=self.isnum, extra=self.extra, name=None, stores=self.stores)
        d.update(kw)
        return FrameC(**d)

    def same(self, o):
        if self.cols is not o.cols or len(self.extra) != len(o.extra):
            return FALSE
        return tm.and_(tm.eq(self.n, o.n), tm.forall("V", lambda c: tm.implies(self.has(c), tm.forall_i(self.n, lambda i: eq_vals(self.cell(c, i), o.cell(c, i))))))

    # loop closed forms
    def hv(self):
        f = "hvf%d" % vc.next_id()
        p = self._cell(tm.fresh("pc", "V"), tm.fresh("pi", "I"))
        if isinstance(p, SVal):
            return self.with_(cell=lambda c, i: SVal(tm.app(f, [c, i], "V")), stores=())
        return self.with_(cell=lambda c, i: Num(tm.app(f, [c, i], "R"), tm.app(f + "nan", [c, i], "B")), stores=())

    def diff(self, new):
        if new._cell is not self._cell or new.extra != self.extra or new.stores[:len(self.stores)] != self.stores:
            return None
        if new.n is not self.n or new.cols is not self.cols:
            return None
        return [vc.Update("colstore", s) for s in new.stores[len(self.stores):]]

    def closed(self, s, j, ups):
        st = [(c, u.data) for c, us in ups for u in us]
        if any(len(us) != 1 for _, us in ups) or any(c is not TRUE for c, _ in st):
            raise Unsupported("conditional column stores")
        k, f = st[0][1]
        e = s.at(j)
        if s.pos is None or not vc.same_elem(SVal(k), e):
            raise Unsupported("column store key is not the loop element")
        pj = tm.fresh("p", "I")
        if vc.val_hv(f(pj)):
            raise Unsupported("stored column depends on earlier iterations")

        def val(c, i):
            return under(f, (i,), {j: s.pos(SVal(c))})
        if s is self.cols or getattr(s, "cols_of", None) is self.cols:
            return self.with_(cell=lambda c, i: val(c, i), stores=())
        old = self.cell
        return self.with_(cell=lambda c, i: ite_val(s.has(SVal(c)), val(c, i), old(c, i)), stores=())

    def probe(self):
        return [self.cell(tm.fresh("pc", "V"), tm.fresh("pi", "I"))]

    def csubst(self, m):
        return self.with_(n=tm.subst(self.n, m), cell=lambda c, i: under(self.cell, (c, i), m), stores=(), extra=())


class SFrame(Heap):
    _vc_frame = True

    @classmethod
    def from_loc(cls, loc):
        o = cls.__new__(cls)
        object.__setattr__(o, "hloc", loc)
        return o

    @property
    def columns(self):
        c = self.c
        if c.extra:
            base = c.cols
            names = [k for k, _ in c.extra]
            sc = SeqC([("seg", base.n, base.at)] + [("item", SVal(k)) for k in names])
            return SymSeq(sc.length(), sc.at, has=lambda v: c.has(valt(v)))
        return c.cols

    @property
    def index(self):
        return SIndex(self.c.index)

    @property
    def shape(self):
        c = self.c
        return (Num(c.n), Num(tm.add(c.cols.n, len(c.extra))))

    @property
    def empty(self):
        return mkbool(tm.or_(tm.eq(self.c.n, 0), tm.eq(self.c.cols.n, 0)))

    def _vc_len(self):
        return Num(self.c.n) if cval(self.c.n) is None else cval(self.c.n)

    def _vc_seq(self):
        return to_seq(self.columns)

    def _vc_has(self, key):
        return self.c.has(valt(key))

    def __getitem__(self, k):
        c = self.c
        if isinstance(k, (str, SVal)):
            t = valt(k)
            E.require(c.has(t), "the column exists")
            if not c.stores and not c.extra:
                fn = lambda i: c._cell(t, i)
            else:
                fn = lambda i: c.cell(t, i)
            a = ArrC((c.n,), fn, index=c.index)
            s = view(SSeries(a), self, False)
            ORIGIN[id(a.fn)] = (a.fn, c, t)
            return s
        if isinstance(k, (SymSeq, SList)) or hasattr(k, "_vc_seq"):
            s = to_seq(k)
            if isinstance(s, list):
                s2 = list_seq(s)
            else:
                s2 = s
            E.require(tm.forall_i(s2.n, lambda i: c.has(valt(s2.at(i)))), "the columns exist")
            return SFrame(c.with_(cols=s2, cell=c.cell, extra=(), stores=()))
        if isinstance(k, SArr) and isinstance(probe(k), (bool, SBool)):
            n, sel, _ = select(lambda i: boolt(k.c.at(i)), c.n)
            return SFrame(rows(c, n, sel))
        raise Unsupported("frame look-up by %s" % type(k).__name__)

    def put(self, c, through=False):
        """a column store replaces the column: shallow copies of the frame do not see it"""
        if isinstance(self.hloc, Cell):
            self.hloc.set(c, through)
        else:
            self.hloc.set(c)

    @property
    def loc(self):
        return FLoc(self)

    def __setitem__(self, k, v):
        self.store(k, v)

    def store(self, k, v):
        c = self.c
        t = valt(k)
        f = column_values(c, v)
        if c.cols is not None and (c.cols.has(SVal(t)) is TRUE or E.known(c.cols.has(SVal(t)))):
            if c.extra:
                raise Unsupported("column store after a column was added")
            self.put(c.with_(stores=c.stores + ((t, f),)))
            return
        for kk, _ in c.extra:
            if kk is t:
                self.put(c.with_(extra=tuple((a, f if a is t else b) for a, b in c.extra)))
                return
        if not E.known(tm.not_(c.has(t))):
            if not isinstance(k, str):
                raise Unsupported("column may or may not exist")
            use("precondition: the dataset has no column named %r" % k)
            E.assume(tm.not_(c.has(t)))
        self.put(c.with_(extra=c.extra + ((t, f),)))

    def __getattr__(self, name):
        raise Unsupported("DataFrame.%s" % name)

    def copy(self, deep=True):
        c = self.c
        n = c.with_()
        n.uq_of = c
        return SFrame(n) if deep is True else view(SFrame(n), self)

    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v
        return d

    def _assign_star(self, args, kw, v):
        d = self.copy() if not kw else self.assign(**kw)
        c = d.c
        vcnt = v.c
        for kk, val in vcnt.items.items():
            d[kk] = val
        c = d.c
        if vcnt.fam is not None:
            fam = vcnt.fam
            E.require(tm.forall("V", lambda q: tm.implies(fam.has(SVal(q)), c.has(q))), "assigned columns exist")
            old = c.cell

            def cell(q, i):
                nv = fam.val(SVal(q))
                if isinstance(nv, (Fz, Heap)):
                    raise Unsupported("assign of symbolic columns of arrays")
                return ite_val(fam.has(SVal(q)), nv, old(q, i))
            d.put(c.with_(cell=cell, stores=()))
        for kk, val in vcnt.stores:
            d[kk[0]] = val
        return d
    assign._vc_starstar = _assign_star

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("reset_index without drop")
        c = self.c
        n = c.with_(index=Index(c.n))
        n.uq_of = c
        return SFrame(n)

    def sample(self, n=None, random_state=None, replace=False, frac=None, **k):
        if frac is not None or n is None or k:
            raise Unsupported("sample options")
        replace = E.branch(boolt(replace)) if isinstance(replace, SBool) else bool(replace)
        c = self.c
        nt = idx(n)
        if not replace and E.known(tm.lt(c.n, nt)):
            raise ModelledError(ValueError, "Cannot take a larger sample than population when 'replace=False'")
        E.require(tm.and_(tm.le(0, nt), TRUE if replace else tm.le(nt, c.n)), "sample size does not exceed the number of rows")
        draw(random_state, "sample")
        use("DataFrame.sample(n) returns n distinct rows, labels and cells unchanged")
        sel, pos = E.ffun("smp", "I"), E.ffun("smppos", "I")
        E.assume(tm.forall_i(nt, lambda i: tm.and_(tm.le(0, sel(i)), tm.lt(sel(i), c.n), TRUE if replace else tm.eq(pos(sel(i)), i))))
        f = SFrame(rows(c, nt, sel))
        f.c.sample_of = (c, sel)
        E.samples.append(sel)
        return f

    @property
    def iloc(self):
        return ILoc(self)

    def _iloc(self, k):
        c = self.c
        if isinstance(k, (SIndex, SArr, SList)):
            s = to_seq(k)
            if isinstance(s, list):
                raise Unsupported("iloc")
            E.require(tm.forall_i(s.n, lambda j: tm.and_(tm.le(0, numt(s.at(j))), tm.lt(numt(s.at(j)), c.n))), "positions in range")
            sel = lambda i: numt(s.at(i))
            return SFrame(rows(c, s.n, sel))
        if isinstance(k, slice):
            lo, n = norm_slice(k, c.n)
            return SFrame(rows(c, n, lambda i: tm.add(i, lo)))
        if isinstance(k, (int, Num)):
            return Row(c, norm_index(k, c.n))
        raise Unsupported("iloc")

    def iterrows(self):
        c = self.c
        return SymSeq(c.n, lambda i: (c.index.at(i) if c.index is not None else SVal(tm.app("label", [i], "V")), Row(c, i)))

    def itertuples(self, **k):
        raise Unsupported("itertuples")

    @property
    def values(self):
        c = self.c
        cols = to_seq(self.columns)
        nb = tm.add(c.cols.n, len(c.extra))

        def at(i, j):
            base = c.cols.at(j)
            v = None
            for off, (kk, f) in reversed(list(enumerate(c.extra))):
                w = f(i)
                v = w if v is None else ite_val(tm.eq(j, tm.add(c.cols.n, off)), w, v)
            bv = base_cell(c, valt(base), i)
            return bv if v is None else ite_val(tm.lt(j, c.cols.n), bv, v)
        return view(SArr(ArrC((c.n, nb), at)), self, False)

    def to_numpy(self, *a, **k):
        return self.values

    def drop(self, *a, **k):
        raise Unsupported("DataFrame.drop")

    def _get_numeric_data(self):
        return self.select_dtypes("number")

    def select_dtypes(self, include=None, exclude=None):
        c = self.c
        if c.isnum is None or include not in ("number",):
            raise Unsupported("select_dtypes")
        s = SymSeq(tm.sym("numcols", "I"), lambda i: SVal(tm.app("numcol", [i], "V")), pos=lambda v: tm.app("numpos", [valt(v)], "I"),
                   has=lambda v: tm.and_(c.has(valt(v)), c.isnum(valt(v))))
        return SFrame(c.with_(cols=s))

    def equals(self, o):
        if not isinstance(o, SFrame):
            return False
        if o.c is self.c:
            return True
        return mkbool(frame_eq(self.c, o.c))

    def head(self, k=5):
        c = self.c
        kk = tm.ite(tm.lt(idx(k), c.n), idx(k), c.n)
        return SFrame(rows(c, kk, lambda i: i))


def base_cell(c, q, i):
    v = c._cell(q, i)
    for k, f in c.stores:
        v = ite_val(tm.eq(q, k), f(i), v)
    return v


def frame_eq(a, b):
    use("DataFrame.equals compares shape, labels and cells")
    if a.extra or b.extra:
        raise Unsupported("equals of frames with added columns")
    lab = TRUE
    if a.index is not b.index:
        if a.index is None or b.index is None:
            raise Unsupported("equals of frames without row labels")
        lab = tm.forall_i(a.n, lambda i: eq_vals(a.index.at(i), b.index.at(i)))
    if a.cols is b.cols:
        return tm.and_(tm.eq(a.n, b.n), tm.forall("V", lambda c: tm.implies(a.has(c), tm.forall_i(a.n, lambda i: eq_vals(a.cell(c, i), b.cell(c, i))))), lab)
    ca, cb = (lambda j: valt(a.cols.at(j))), (lambda j: valt(b.cols.at(j)))
    return tm.and_(tm.eq(a.n, b.n), tm.eq(a.cols.n, b.cols.n), lab, tm.forall_i(a.cols.n, lambda j: tm.eq(ca(j), cb(j))), tm.forall_i(
        a.cols.n, lambda j: tm.forall_i(a.n, lambda i: eq_vals(a.cell(ca(j), i), b.cell(cb(j), i)))))


def rows(c, n, sel):
    return FrameC(n, c.cols, lambda q, i: c._cell(q, sel(i)), index=sub_index(c.index, n, sel), isnum=c.isnum,
                  extra=tuple((k, (lambda f: lambda i: f(sel(i)))(f)) for k, f in c.extra),
                  stores=tuple((k, (lambda f: lambda i: f(sel(i)))(f)) for k, f in c.stores))


def list_seq(items):
    sc = SeqC([("item", v) for v in items])
    return SymSeq(tm.num(len(items)), sc.at, has=lambda v: tm.or_(*[tm.eq(valt(v), valt(x)) for x in items]))


def column_values(c, v):
    """row function of an assigned column"""
    if isinstance(v, SSeries):
        vcnt = v.c
        if vcnt.index is not c.index and not (vcnt.index is None):
            if not (vcnt.index is not None and c.index is not None and vcnt.index.labels is None and c.index.labels is None):
                raise Unsupported("column assignment aligning on different indexes")
        E.require(tm.eq(vcnt.shape[0], c.n), "assigned column has as many values as rows")
        return vcnt.at
    if isinstance(v, SArr):
        vcnt = v.c
        E.require(tm.eq(vcnt.shape[0], c.n), "assigned column has as many values as rows")
        return vcnt.at
    if isinstance(v, SList):
        a = asarray(v).c
        E.require(tm.eq(a.shape[0], c.n), "assigned column has as many values as rows")
        return a.at
    if isinstance(v, (Heap, Poison)):
        raise Unsupported("column of %s" % type(v).__name__)
    return lambda i: v


class FLoc:
    """.loc of a dataset"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None):
            return self.f[k[1]]
        raise Unsupported("loc")

    def __setitem__(self, k, v):
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], (str, SVal))):
            raise Unsupported("loc store")
        f = self.f
        if not E.known(f.c.has(valt(k[1]))):
            raise Unsupported("loc store of a new column")
        use("DataFrame.loc[:, c] = v writes into the existing column (visible through shallow copies)")
        d = f.copy()
        d[k[1]] = v
        f.put(d.c, True)


class Row:
    """one row of a dataset"""

    def __init__(self, c, i):
        self.c, self.i = c, i

    def __getitem__(self, k):
        t = valt(k)
        E.require(self.c.has(t), "the row has the column")
        return self.c.cell(t, self.i)

    def __getattr__(self, n):
        raise Unsupported("row.%s" % n)


ORIGIN = {}


# ------------------------------------------------------------------------------------------------ randomness
class Generator:
    """numpy Generator: its draws depend only on its seed and the preceding draws"""

    def __init__(self, what):
        self.what = what

    def permutation(self, x, **k):
        draw(self, "permutation")
        use("Generator.permutation(k) / permutation(column) is a random bijection of the positions")
        if isinstance(x, (SArr,)) or hasattr(x, "_vc_seq") or isinstance(x, SList):
            a = x if isinstance(x, SArr) else asarray(x)
            n = a.c.shape[0]
            p = perm(n)
            c = a.c
            return SArr(ArrC((n,), lambda i: c.at(p(i))))
        n = idx(x)
        p = perm(n)
        return SArr(ArrC((n,), lambda i: Num(p(i))))

    def shuffle(self, x, **k):
        if not isinstance(x, SArr) or len(x.c.shape) != 1 or k:
            raise Unsupported("shuffle")
        draw(self, "shuffle")
        use("Generator.shuffle permutes the array in place by a random bijection")
        c = x.c
        p = perm(c.shape[0])
        x.put(ArrC(c.shape, lambda i: c.at(p(i)), index=c.index))

    def __getattr__(self, n):
        raise Unsupported("Generator.%s" % n)


def perm(n):
    p, q = E.ffun("perm", "I"), E.ffun("perminv", "I")
    d = (p(tm.num(0)).args[0], tuple(E.ctx), n)
    if d[0] not in [x[0] for x in E.draws]:
        E.draws.append(d)
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, p(i)), tm.lt(p(i), n), tm.eq(q(p(i)), i))))
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, q(i)), tm.lt(q(i), n), tm.eq(p(q(i)), i))))
    return p


def draw(gen, what):
    if not isinstance(gen, Generator) or gen.what == "unseeded":
        E.impure.append(what)
        if E.__dict__.get("purity"):
            from .core import Obligation
            E.obligations.append(Obligation("effect: %s draws from the method's own generator" % what, "refuted", "engine",
                                            "the draw uses %s" % ("a global or unseeded generator" if gen is None or isinstance(gen, Generator) else type(gen).__name__), None, 0.0, E.where()))
    elif E.__dict__.get("purity"):
        from .core import Obligation
        E.obligations.append(Obligation("effect: %s draws from the method's own generator" % what, "proved", "engine", "", None, 0.0, E.where()))


class RandomNS:
    """np.random"""
    def default_rng(self, seed=None):
        if isinstance(seed, Generator):
            return seed
        if seed is None:
            return Generator("unseeded")
        return Generator("seeded")

    def permutation(self, x):
        return Generator("unseeded").permutation(x)

    def shuffle(self, x):
        return Generator("unseeded").shuffle(x)

    def __getattr__(self, n):
        def f(*a, **k):
            draw(None, "np.random." + n)
            raise Unsupported("np.random.%s" % n)
        return f


class PyMath:
    """the standard library's math: computed for numbers, sqrt and fabs as in numpy, the sines as unknown functions"""

    def __getattr__(self, n):
        import math
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if not any(isinstance(x, (Num, SVal, SBool)) for x in a):
                return real(*a)
            if n in ("sqrt", "fabs", "isnan") and len(a) == 1:
                if n == "sqrt":
                    E.require(tm.le(0, num_of(a[0]).t), "square root of a number that is not negative")
                return getattr(NP, {"fabs": "abs"}.get(n, n))(a[0])
            if n in ("sin", "cos", "tan") and len(a) == 1:
                return Num(tm.app("math." + n, [num_of(a[0]).t], "R"), num_of(a[0]).nan)
            raise Unsupported("math.%s" % n)
        return f


class PyRandom:
    """the standard library's global generator"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            draw(None, "random." + n)
            return Num(E.fresh("rnd", "R"))
        return f


def concat_frames(fs):
    """stack the rows of datasets with the same columns"""
    cs = [f.c for f in fs]
    for c in cs[1:]:
        if c.cols is not cs[0].cols or c.extra or cs[0].extra:
            raise Unsupported("concat of datasets with different columns")
    offs, n = [], tm.num(0)
    for c in cs:
        offs.append(n)
        n = tm.add(n, c.n)

    def cell(q, i):
        v = None
        for o, c in reversed(list(zip(offs, cs))):
            x = c.cell(q, tm.sub(i, o))
            v = x if v is None else ite_val(tm.lt(i, tm.add(o, c.n)), x, v)
        return v
    return SFrame(FrameC(n, cs[0].cols, cell, index=Index(n, lambda i: SVal(tm.app("label", [i], "V"))), isnum=cs[0].isnum))


# ------------------------------------------------------------------------------------------------ numpy
def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, SList):
            x = asarray(x)
        if isinstance(x, SArr):
            c = x.c
            return x.like(lambda *i: f(c.at(*i)))
        return f(x)
    return g


def _isnan(v):
    if isinstance(v, Num):
        return mkbool(v.nan)
    if isinstance(v, float):
        return v != v
    if isinstance(v, int):
        return False
    raise Unsupported("isnan of an opaque value")


class Numpy:
    nan = NAN
    inf = float("inf")
    random = RandomNS()
    ndarray = NdArray()
    float64 = float32 = float
    int64 = int32 = int
    bool_ = bool

    def __getattr__(self, n):
        raise Unsupported("np.%s" % n)

    isnan = staticmethod(elementwise(_isnan))
    sqrt = staticmethod(elementwise(lambda v: nsqrt(num_of(v))))
    square = staticmethod(elementwise(lambda v: num_of(v) * num_of(v)))
    abs = absolute = staticmethod(elementwise(lambda v: abs(num_of(v))))
    negative = staticmethod(elementwise(lambda v: -num_of(v)))
    logical_not = staticmethod(elementwise(lambda v: not_(v)))

    @staticmethod
    def _bin(op, a, b):
        if isinstance(a, SList):
            a = asarray(a)
        if isinstance(b, SList):
            b = asarray(b)
        if isinstance(b, SArr) and not isinstance(a, SArr):
            return b._bin(a, lambda x, y: op(y, x))
        if isinstance(a, SArr):
            return a._bin(b, op)
        return op(a, b)

    def equal(self, a, b):
        return self._bin(veq, a, b)

    def not_equal(self, a, b):
        return self._bin(lambda x, y: not_(veq(x, y)), a, b)

    def subtract(self, a, b):
        return self._bin(lambda x, y: num_of(x) - num_of(y), a, b)

    def add(self, a, b):
        return self._bin(lambda x, y: num_of(x) + num_of(y), a, b)

    def multiply(self, a, b):
        return self._bin(lambda x, y: num_of(x) * num_of(y), a, b)

    def divide(self, a, b):
        return self._bin(lambda x, y: num_of(x) / num_of(y), a, b)
    true_divide = divide

    def power(self, a, k):
        return a ** k

    def logical_and(self, a, b):
        return self._bin(lambda x, y: mkbool(tm.and_(boolt(x), boolt(y))), a, b)

    def logical_or(self, a, b):
        return self._bin(lambda x, y: mkbool(tm.or_(boolt(x), boolt(y))), a, b)

    def _a(self, x):
        if isinstance(x, (Num, int, float)):
            return SArr(ArrC((tm.num(1),), lambda i: x))
        return x if isinstance(x, SArr) else asarray(x)

    def mean(self, x, axis=None, **k):
        if k:
            raise Unsupported("np.mean options")
        if isinstance(x, SSeries):
            return x.mean()
        return self._a(x).mean(axis=axis)

    def median(self, x, **k):
        """an uninterpreted function of the values"""
        c = self._a(x).c
        if k or len(c.shape) != 1 or isinstance(x, SSeries):
            raise Unsupported("np.median options")
        i = tm.fresh("i", "I")
        v = num_of(c.at(i))
        if v.nan is not FALSE:
            raise Unsupported("np.median with missing values")
        return Num(tm.mk_bind("median", (c.shape[0],), "I", i, (v.t,), "R"))

    def sum(self, x, axis=None, **k):
        if k:
            raise Unsupported("np.sum options")
        if isinstance(x, (SList, SArr)):
            return self._a(x).sum(axis=axis)
        raise Unsupported("np.sum")

    def std(self, x, axis=None, ddof=0, **k):
        if isinstance(x, SSeries):
            return nsqrt(avar(x.c, ddof))
        return self._a(x).std(axis=axis, ddof=ddof)

    def var(self, x, axis=None, ddof=0, **k):
        return self._a(x).var(axis=axis, ddof=ddof)

    def max(self, x, axis=None, **k):
        return self._a(x).max(axis=axis)
    amax = max

    def min(self, x, axis=None, **k):
        return self._a(x).min(axis=axis)
    amin = min

    def ptp(self, x, axis=None):
        a = self._a(x)
        return a.max() - a.min()

    def any(self, x, **k):
        return self._a(x).any()

    def all(self, x, **k):
        return self._a(x).all()

    def count_nonzero(self, x):
        c = self._a(x).c
        return Num(tm.mk_sum(c.shape[0], lambda i: tm.indicator(boolt(c.at(i)))))

    def dot(self, a, b):
        return (self._a(a) * self._a(b)).sum()

    def average(self, x, weights=None, **k):
        a = self._a(x)
        if weights is None:
            return a.mean()
        w = self._a(weights)
        use("np.average(x, weights=w) is sum(w x) / sum(w); it raises when the weights sum to zero")
        n, s = w.c.shape[0], w.sum()
        wt = lambda i: num_of(w.c.at(i)).t
        # lemma: a sum of non-negative numbers is at least its first term
        E.assume(tm.implies(tm.and_(tm.lt(0, n), tm.forall_i(n, lambda i: tm.le(0, wt(i)))), tm.le(wt(tm.num(0)), s.t)))
        E.require(tm.and_(tm.not_(s.nan), tm.ne(s.t, 0)), "the weights do not sum to zero")
        t = (a * w).sum()
        return Num(tm.div(t.t, s.t), t.nan)

    def asarray(self, x, *a, **k):
        return asarray(x) if not isinstance(x, SSeries) else x.values

    def array(self, x, *a, **k):
        if isinstance(x, SArr):
            return x.copy() if type(x) is SArr else SArr(ArrC(x.c.shape, x.c.at))
        return asarray(x)

    def argsort(self, a, *x, **k):
        if x or k:
            raise Unsupported("np.argsort options")
        c = self._a(a).c
        if len(c.shape) != 1:
            raise Unsupported("np.argsort of a matrix")
        use("np.argsort: an order of the positions by increasing value; for distinct integers 0..n-1 it is the inverse permutation")
        n, at = c.shape[0], lambda i: numt(c.at(i))
        p, q = E.ffun("order", "I"), E.ffun("rank", "I")
        E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, p(i)), tm.lt(p(i), n), tm.eq(q(p(i)), i))))
        E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, q(i)), tm.lt(q(i), n), tm.eq(p(q(i)), i))))
        E.assume(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, n)), tm.le(at(p(i)), at(p(j)))))))
        perm = tm.and_(tm.forall_i(n, lambda i: tm.and_(tm.le(0, at(i)), tm.lt(at(i), n))),
                       tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, n)), tm.not_(tm.eq(at(i), at(j)))))))
        if at(tm.fresh("pp", "I")).sort == "I" and E.known(perm, ms=4000):
            E.assume(tm.forall_i(n, lambda i: tm.eq(p(at(i)), i)))
        return SArr(ArrC((n,), lambda i: Num(p(i))))

    def _join(self, parts):
        use("np.append/hstack/concatenate: the elements of the parts, in order")
        segs = []
        for x in parts:
            if is_num(x):
                segs.append(("item", x))
                continue
            c = self._a(x).c
            if len(c.shape) != 1:
                raise Unsupported("joining matrices")
            segs.append(("seg", c.shape[0], c.at))
        sc = SeqC(segs)
        return SArr(ArrC((sc.length(),), sc.at))

    def append(self, a, b, **k):
        if k:
            raise Unsupported("np.append options")
        return self._join([a, b])

    def hstack(self, xs, **k):
        s = to_seq(xs)
        if k or not isinstance(s, list):
            raise Unsupported("np.hstack")
        return self._join(s)
    concatenate = hstack

    def arange(self, a, b=None, **k):
        lo, hi = (tm.num(0), idx(a)) if b is None else (idx(a), idx(b))
        r = Range(lo, hi)
        return SArr(ArrC((r.n,), lambda i: Num(tm.add(lo, i))))

    def _fill(self, shape, v):
        if isinstance(shape, (tuple, SList)):
            sh = tuple(idx(x) for x in shape)
        else:
            sh = (idx(shape),)
        return SArr(ArrC(sh, lambda *i: v))

    def zeros(self, shape, *a, **k):
        return self._fill(shape, Num(tm.num(0)))

    def ones(self, shape, *a, **k):
        return self._fill(shape, Num(tm.num(1)))

    def full(self, shape, v, *a, **k):
        return self._fill(shape, Num(tm.num(0), TRUE) if isinstance(v, float) and v != v else v)

    def empty(self, shape, *a, **k):
        sh = tuple(idx(x) for x in shape) if isinstance(shape, (tuple, SList)) else (idx(shape),)
        f = E.ffun("uninit", "R")
        return SArr(ArrC(sh, lambda *i: Num(f(*i))))

    def zeros_like(self, a, *x, **k):
        return SArr(ArrC(a.c.shape, lambda *i: Num(tm.num(0))))

    def full_like(self, a, v, *x, **k):
        return SArr(ArrC(a.c.shape, lambda *i: v))

    def linspace(self, a, b, num=50):
        n = idx(num)
        return SArr(ArrC((n,), lambda i: asnum(a) + (asnum(b) - asnum(a)) * Num(i) / Num(tm.sub(n, 1))))

    def flip(self, m):
        c = self._a(m).c
        if len(c.shape) != 1:
            raise Unsupported("np.flip of a matrix")
        return SArr(ArrC(c.shape, lambda i: c.at(tm.sub(tm.sub(c.shape[0], 1), i))))

    def diag(self, m):
        f = getattr(m, "_vc_diag", None)
        if f is None:
            raise Unsupported("np.diag")
        return f()

    def eye(self, n, **k):
        return SArr(ArrC((idx(n), idx(n)), lambda i, j: mkbool(tm.eq(i, j)) if k.get("dtype") is bool else Num(tm.indicator(tm.eq(i, j)))))

    def unique(self, x, _sort=True, **k):
        if k:
            raise Unsupported("np.unique options")
        a = self._a(x)
        c = a.c
        use("np.unique(x): the distinct values of x, in increasing order")
        o = ORIGIN.get(id(c.fn)) if not c.stores else None
        if o is not None and o[0] is c.fn:
            _, fc, t = o
            nu, uval, uidx, uocc = frame_unique(fc)
            nn = nu(t)
            return SArr(ArrC((nn,), lambda k: SVal(uval(t, k)), sorted=_sort))
        nu = E.fresh("nu", "I")
        uval, uidx, uocc = E.ffun("uval", "V"), E.ffun("uidx", "I"), E.ffun("uocc", "I")
        E.assume(tm.and_(tm.le(0, nu), tm.le(nu, c.shape[0])))
        E.assume(tm.forall_i(nu, lambda k: tm.and_(tm.le(0, uocc(k)), tm.lt(uocc(k), c.shape[0]), tm.eq(valt(c.at(uocc(k))), uval(k)), tm.eq(uidx(uval(k)), k))))
        E.assume(tm.forall_i(c.shape[0], lambda i: tm.and_(tm.le(0, uidx(valt(c.at(i)))), tm.lt(uidx(valt(c.at(i))), nu), tm.eq(uval(uidx(valt(c.at(i)))), valt(c.at(i))))))
        return SArr(ArrC((nu,), lambda k: SVal(uval(k)), sorted=_sort))

    def sort(self, x, **k):
        a = self._a(x)
        if a.c.sorted:
            return SArr(a.c)
        raise Unsupported("np.sort of an unsorted array")

    def where(self, cond, *xy):
        c = self._a(cond).c
        if xy:
            a, b = xy
            f = lambda v, *i: v.c.at(*i) if isinstance(v, SArr) else v
            return SArr(ArrC(c.shape, lambda *i: ite_val(boolt(c.at(*i)), f(a, *i), f(b, *i))))
        if len(c.shape) != 1:
            raise Unsupported("np.where of a matrix")
        use("np.where(mask)[0]: the positions where mask holds, in increasing order")
        return (WhereArr(c),)

    def nonzero(self, cond):
        return self.where(cond)

    def flatnonzero(self, cond):
        return self.where(cond)[0]

    def argmax(self, x, **k):
        a = self._a(x)
        p = probe(a)
        if isinstance(p, (bool, SBool)):
            return WhereArr(a.c)[0]
        raise Unsupported("np.argmax")

    def apply_along_axis(self, fn, axis, a, *args, **kw):
        c = a.c
        use("np.apply_along_axis applies the function to every 1-d slice along the axis")
        if len(c.shape) == 1:
            return fn(a, *args, **kw)
        if len(c.shape) != 2:
            raise Unsupported("apply_along_axis")
        if axis in (1, -1):
            n, row = c.shape[0], lambda i: SArr(ArrC((c.shape[1],), lambda j: c.at(i, j)))
        else:
            n, row = c.shape[1], lambda j: SArr(ArrC((c.shape[0],), lambda i: c.at(i, j)))
        E.require(tm.and_(tm.lt(0, c.shape[0]), tm.lt(0, c.shape[1])), "apply_along_axis on a non-empty array")
        seq = SymSeq(n, row)
        r = vc.sym_comp("apply_along_axis", "list", seq, 0, [], lambda v: fn(v, *args, **kw), True)
        s = r.c.seq()
        if isinstance(s.at(tm.fresh("pp", "I")), (SArr, SList, tuple)):
            raise Unsupported("apply_along_axis returning arrays")
        return SArr(ArrC((n,), s.at))

    def vectorize(self, fn, **k):
        raise Unsupported("np.vectorize")

    def array_equal(self, a, b):
        return mkbool(same_arr(self._a(a).c, self._a(b).c))

    def isin(self, a, b):
        c = self._a(a).c
        return SArr(ArrC(c.shape, lambda i: vc.contains(c.at(i), b)))

    def nanmean(self, x, **k):
        raise Unsupported("np.nanmean")

    def floor(self, x):
        raise Unsupported("np.floor")

    def sign(self, x):
        raise Unsupported("np.sign")

    def mean_(self):
        pass


UNIQ = {}


def unique_pos(m, n):
    """position of a value v in a column's list of distinct values: the mask is uval(c, i) = v"""
    i = tm.fresh("u", "I")
    t = m(i)
    if t.op != "eq":
        return None
    for a, b in (t.args, t.args[::-1]):
        if a.op == "app" and a.args[0] in UNIQ and a.args[2] is i and i not in b.syms:
            nu, uidx = UNIQ[a.args[0]]
            if nu(a.args[1]) is n:
                return uidx(a.args[1], b)
    return None


class WhereArr:
    """positions where a mask holds; [0] is the first one"""

    def __init__(self, c):
        self.cm = c
        self.full = None

    def _all(self):
        if self.full is None:
            c = self.cm
            n, sel, pos = select(lambda i: boolt(c.at(i)), c.shape[0])
            self.full = (n, sel, pos)
        return self.full

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0:
            c = self.cm
            n = c.shape[0]
            m = lambda i: boolt(c.at(i))
            w = unique_pos(m, n)
            if w is not None:
                E.require(tm.and_(tm.le(0, w), tm.lt(w, n), m(w)), "a matching entry exists")
            else:
                E.require(tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, n), m(i))), "a matching entry exists")
            f = w if w is not None else E.fresh("first", "I")
            E.assume(tm.and_(tm.le(0, f), tm.lt(f, n), m(f)))
            E.assume(tm.forall_i(f, lambda i: tm.not_(m(i))))
            return Num(f)
        n, sel, pos = self._all()
        return SArr(ArrC((n,), lambda i: Num(sel(i))))[k]

    def _vc_len(self):
        return Num(self._all()[0])

    def _vc_seq(self):
        n, sel, pos = self._all()
        return SymSeq(n, lambda i: Num(sel(i)))

    def arr(self):
        n, sel, pos = self._all()
        return SArr(ArrC((n,), lambda i: Num(sel(i))))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(self.arr(), n)


def frame_unique(fc):
    base = fc
    while getattr(base, "uq_of", None) is not None and base.uq is None:
        base = base.uq_of
    if base.uq is None:
        k = vc.next_id() if not base.name else base.name
        nm = "%s" % k
        nu = lambda c: tm.app("nu:" + nm, [c], "I")
        uval = lambda c, i: tm.app("uval:" + nm, [c, i], "V")
        uidx = lambda c, v: tm.app("uidx:" + nm, [c, v], "I")
        uocc = lambda c, i: tm.app("uocc:" + nm, [c, i], "I")
        base.uq = (nu, uval, uidx, uocc)
    nu, uval, uidx, uocc = base.uq
    cell = base._cell if not base.stores else base.cell
    UNIQ["uval:" + nu(tm.sym("any", "V")).args[0][3:]] = (nu, uidx)
    un, ui = uval(tm.sym("any", "V"), tm.num(0)).args[0], uidx(tm.sym("any", "V"), tm.sym("any", "V")).args[0]

    def observed_value(args):
        # uval(c, uidx(c, cell(c, r))) = cell(c, r); cells beyond the last row are taken to repeat observed ones
        c, k = args
        if k.op == "app" and k.args[0] == ui and k.args[1] is c:
            h = tm.sym("anyrow", "I")
            if tm.match(valt(cell(c, h)), h, k.args[2]):
                return k.args[2]
        return None
    if un not in tm.REWRITE and E.known(tm.lt(0, base.n)):
        tm.REWRITE[un] = observed_value
    n = base.n
    facts = [
        tm.forall("V", lambda c: tm.and_(tm.le(0, nu(c)), tm.le(nu(c), n), tm.implies(tm.lt(0, n), tm.lt(0, nu(c))))),
        tm.forall("V", lambda c: tm.forall("I", lambda k: tm.implies(tm.and_(tm.le(0, k), tm.lt(k, nu(c))), tm.and_(
            tm.le(0, uocc(c, k)), tm.lt(uocc(c, k), n), tm.eq(valt(cell(c, uocc(c, k))), uval(c, k)), tm.eq(uidx(c, uval(c, k)), k))))),
        tm.forall("V", lambda c: tm.forall("I", lambda i: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, n)), tm.and_(
            tm.le(0, uidx(c, valt(cell(c, i)))), tm.lt(uidx(c, valt(cell(c, i))), nu(c)),
            tm.eq(uval(c, uidx(c, valt(cell(c, i)))), valt(cell(c, i)))))))]
    for f in facts:
        if f not in E.pc:
            E.assume(f)
    return nu, uval, uidx, uocc


NP = Numpy()


# ------------------------------------------------------------------------------------------------ itertools, tqdm
def combinations(it, r):
    if r != 2:
        raise Unsupported("combinations of %r" % (r,))
    s = to_seq(it)
    if isinstance(s, list):
        return SList.of(list(_it.combinations(s, 2)))
    use("itertools.combinations(s, 2): every pair of positions i < j once, in lexicographic order")
    c1, c2, rank = tm_fun("c1", s), tm_fun("c2", s), tm_fun("crank", s)
    n = tm.app("ncomb:%s" % seq_id(s), [], "I") if False else E_sym("ncomb", s)
    facts = [tm.le(0, n),
             tm.forall_i(n, lambda k: tm.and_(tm.le(0, c1(k)), tm.lt(c1(k), c2(k)), tm.lt(c2(k), s.n), tm.eq(rank(c1(k), c2(k)), k))),
             tm.forall("I", lambda a: tm.forall("I", lambda b: tm.implies(tm.and_(tm.le(0, a), tm.lt(a, b), tm.lt(b, s.n)), tm.and_(
                 tm.le(0, rank(a, b)), tm.lt(rank(a, b), n), tm.eq(c1(rank(a, b)), a), tm.eq(c2(rank(a, b)), b)))))]
    for f in facts:
        if f not in E.pc:
            E.assume(f)
    pos = has = None
    if s.pos is not None:
        pos = lambda x, y: rank(s.pos(x), s.pos(y))
        has = lambda x, y: tm.and_(s.has(x), s.has(y), tm.lt(s.pos(x), s.pos(y)))
    q = SymSeq(n, lambda k: (s.at(c1(k)), s.at(c2(k))), pos=pos, has=has, arity=2)
    q.comb = (s, c1, c2, rank)
    return q


_seqids = {}


def seq_id(s):
    if id(s) not in _seqids:
        _seqids[id(s)] = (s, len(_seqids))
    return _seqids[id(s)][1]


def tm_fun(name, s):
    nm = "%s:%d" % (name, seq_id(s))
    return lambda *a: tm.app(nm, a, "I")


def E_sym(name, s):
    return tm.sym("%s:%d" % (name, seq_id(s)), "I")


class Tqdm:
    def __call__(self, it=None, *a, **k):
        return it

    def pandas(self, *a, **k):
        return None


tqdm = Tqdm()
