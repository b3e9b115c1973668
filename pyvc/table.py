"""Model of small pandas tables with concrete column names (result tables, tree tables): rows symbolic, columns known."""
import hashlib

from . import lib, smt
from . import terms as tm
from . import vc
from .core import (E, FALSE, NAN, TRUE, Heap, ModelledError, Num, Poison, SBool, SVal, Unsupported, asnum, boolt, eq_vals, is_num,
                   mkbool, not_, numt, valt, view)
from .lib import ILoc, Index, SFrame, SIndex, SSeries, fill, isnan_val, probe, sub_index, use
from .values import (same_index, ArrC, DictC, Fam, Fz, SArr, SDict, SList, SSet, SeqC, SymSeq, asarray, cval, freeze, idx, ite_val, key_eq,
                     norm_index, norm_slice, num_of, read_key, same_val, select, thaw, to_seq, under, vsubst)


class Maybe:
    """a column that may not exist (it was created by a store in a loop that may have run zero times)"""

    def __init__(self, f, name):
        self.f, self.name = f, name

    def __call__(self, i):
        return self.f(i)


def again(f, g):
    """g, marked like f"""
    return Maybe(g, f.name) if isinstance(f, Maybe) else g


def definite(c, name):
    if isinstance(c.fns.get(name), Maybe):
        E.oblige("safe: column %r exists" % name, E.fresh("column_exists", "B"))


class TableC:
    def __init__(self, n, fns, index=None, names=None):
        self.n, self.fns = tm.lift(n), dict(fns)
        self.index = index if index is not None else Index(self.n)
        self.perm_of = None

    @property
    def names(self):
        return list(self.fns)

    def with_(self, n=None, fns=None, index=None):
        r = TableC(self.n if n is None else n, self.fns if fns is None else fns, self.index if index is None else index)
        if n is None:
            r.perm_of = self.perm_of
        return r

    def rows(self, n, sel, index=None):
        return TableC(n, {k: again(f, (lambda f: lambda i: f(sel(i)))(f)) for k, f in self.fns.items()},
                      index if index is not None else sub_index(self.index, n, sel))

    def same(self, o):
        if self.names != o.names:
            return FALSE
        return tm.and_(tm.eq(self.n, o.n), *[tm.forall_i(self.n, lambda i: same_val(self.fns[k](i), o.fns[k](i))) for k in self.names])

    def csubst(self, m):
        return TableC(tm.subst(self.n, m), {k: (lambda f: lambda i: under(f, (i,), m))(f) for k, f in self.fns.items()}, self.index)

    def probe(self):
        i = tm.fresh("p", "I")
        return [Num(self.n)] + [f(i) for f in self.fns.values()]


def row_at(seq, i, k, names):
    """cell k of the i-th record of a list of records"""
    v = seq(i)
    return cell_of(v, k, names)


def cell_of(v, k, names):
    if isinstance(v, Fz) or isinstance(v, Heap):
        c = v.c
        if isinstance(c, SeqC):
            if not c.concrete() or len(c.segs) != len(names):
                raise Unsupported("record of unknown length")
            x = c.segs[names.index(k)][1]
        elif isinstance(c, DictC):
            if c.fam is not None or c.stores or k not in c.items:
                raise Unsupported("record without key %r" % (k,))
            x = c.items[k]
        else:
            raise Unsupported("record")
    elif isinstance(v, tuple):
        if len(v) != len(names):
            raise Unsupported("record of unknown length")
        x = v[names.index(k)]
    else:
        raise Unsupported("record of type %s" % type(v).__name__)
    return x.c if isinstance(x, Fz) else x


def _records(data, names):
    """table from a list of records"""
    s = to_seq(data)
    if isinstance(s, list):
        if not s:
            return TableC(tm.num(0), {k: (lambda i: Num(0)) for k in names or []})
        if names is None:
            c = s[0].c if isinstance(s[0], (Heap, Fz)) else None
            names = list(c.items) if isinstance(c, DictC) else None
        if names is None:
            raise Unsupported("table without column names")
        sc = SeqC([("item", freeze(v)) for v in s])
        return TableC(tm.num(len(s)), {k: (lambda k: lambda i: cell_of(sc.at(i), k, names))(k) for k in names})
    j = tm.fresh("p", "I")
    v = s.at(j)
    if names is None:
        c = v.c if isinstance(v, (Heap, Fz)) else None
        if not isinstance(c, DictC):
            raise Unsupported("table without column names")
        names = list(c.items)
    cells = {k: cell_of(v, k, names) for k in names}
    for k, x in cells.items():
        if isinstance(x, (Heap,)):
            raise Unsupported("table of compound cells")
    return TableC(s.n, {k: (lambda x: lambda i: vsubst(x, {j: i}))(x) for k, x in cells.items()})


def names_of(columns):
    if columns is None:
        return None
    s = to_seq(columns)
    if not isinstance(s, list) or not all(isinstance(x, str) for x in s):
        raise Unsupported("symbolic column names")
    return s


def DataFrame(data=None, columns=None, index=None, **k):
    if data is None and columns is None and index is None:
        return EmptyFrame()
    use("pd.DataFrame(records, columns=...): one row per record, in order")
    names = names_of(columns)
    if isinstance(data, SDict):
        fns, n = {}, None
        for kk in data.c.items:
            v = data[kk]
            a = asarray(v) if not isinstance(v, SArr) else v
            if n is None:
                n = a.c.shape[0]
            elif n is not a.c.shape[0]:
                E.require(tm.eq(n, a.c.shape[0]), "columns have the same length")
            fns[kk] = a.c.at
        if names is not None:
            fns = {x: fns[x] for x in names}
        return STable(TableC(n, fns))
    if isinstance(data, (STable, SFrame)):
        return data.copy()
    if index is not None or k:
        raise Unsupported("DataFrame options")
    if data is None:
        return STable(TableC(tm.num(0), {x: (lambda i: Num(0)) for x in names}))
    return STable(_records(data, names))


def from_records(data, columns=None, **k):
    use("pd.DataFrame.from_records(records): one row per record, in order")
    return STable(_records(data, names_of(columns)))


DataFrame.from_records = from_records
DataFrame._vc_isinstance = lambda x: isinstance(x, (STable, SFrame, EmptyFrame))


class EmptyFrame:
    """pd.DataFrame(): no rows and no columns"""
    empty = True
    _vc_frame = True

    def _vc_len(self):
        return 0

    def copy(self):
        return EmptyFrame()


def concat(objs, axis=0, ignore_index=False, **k):
    s = to_seq(objs)
    if not isinstance(s, list):
        if axis in (0, "index") and ignore_index and not k:
            return stacked(s)
        raise Unsupported("concat of a symbolic list")
    if axis in (1, "columns") and not k and not ignore_index:
        return concat_columns(s)
    if axis not in (0, "index") or k:
        raise Unsupported("concat options")
    use("pd.concat stacks the rows in order (same columns)")
    s = [x for x in s if not isinstance(x, EmptyFrame)]
    if not s:
        return EmptyFrame()
    if len(s) == 1 and isinstance(s[0], SFrame):
        return s[0].copy()
    if all(isinstance(x, SFrame) for x in s):
        return lib.concat_frames(s)
    if all(isinstance(x, STable) for x in s):
        return concat_tables([x.c for x in s], ignore_index)
    raise Unsupported("concat of %s" % [type(x).__name__ for x in s])


def stacked(s):
    """rows of any number of tables below each other: row r is row `row(r)` of table `of(r)`, and every row of every table is somewhere"""
    probe_ = s.at(tm.fresh("pp", "I"))
    cont = lambda t: s.at(t).c
    if not (isinstance(probe_, (STable, Fz)) and isinstance(probe_.c, TableC)):
        raise Unsupported("concat of a symbolic list of %s" % type(probe_).__name__)
    use("pd.concat(ignore_index=True) of any number of tables with the same columns stacks their rows")
    names = probe_.c.names
    if any(isinstance(f, Maybe) for f in probe_.c.fns.values()):
        raise Unsupported("concat of tables with uncertain columns")
    E.require(tm.lt(0, s.n), "there is a table to stack")
    n, of, row, at = E.fresh("n_stacked", "I"), E.ffun("table_of", "I"), E.ffun("row_in_table", "I"), E.ffun("stacked_row", "I")
    E.assume(tm.le(0, n))
    E.assume(tm.forall_i(n, lambda r: tm.and_(tm.le(0, of(r)), tm.lt(of(r), s.n), tm.le(0, row(r)), tm.lt(row(r), cont(of(r)).n), tm.eq(at(of(r), row(r)), r))))
    E.assume(tm.forall("I", lambda t: tm.forall("I", lambda i: tm.implies(tm.and_(tm.le(0, t), tm.lt(t, s.n), tm.le(0, i), tm.lt(i, cont(t).n)), tm.and_(
        tm.le(0, at(t, i)), tm.lt(at(t, i), n), tm.eq(of(at(t, i)), t), tm.eq(row(at(t, i)), i))))))
    E.log.append(("stacked", at))
    return STable(TableC(n, {k: (lambda k: lambda r: cont(of(r)).fns[k](row(r)))(k) for k in names}))


def concat_columns(objs):
    if all(isinstance(x, SSeries) and getattr(x.c, "name", None) is None for x in objs):
        return SideBySide([x.c for x in objs])
    use("pd.concat(axis=1) of objects with the same index puts their columns side by side")
    fns, first = {}, None
    for x in objs:
        c = x.c
        n = c.n if isinstance(x, STable) else c.shape[0]
        if first is None:
            first = c
            if not isinstance(x, STable):
                raise Unsupported("concat of columns")
        elif not same_index(first.index, c.index) and not (E.known(tm.eq(first.n, 0)) and E.known(tm.eq(n, 0))):
            raise Unsupported("concat of columns with different indexes")
        new = c.fns if isinstance(x, STable) else {series_name(x): c.at}
        if set(new) & set(fns):
            raise Unsupported("concat of columns with equal names")
        fns.update(new)
    return STable(TableC(first.n, fns, first.index))


class SideBySide:
    """pd.concat(axis=1) of unnamed series: columns 0, 1, ..., rows matched by label, NaN where a series has no such row"""

    def __init__(self, cs):
        if any(getattr(c.index, "labels", None) is not None for c in cs):
            raise Unsupported("concat of columns with labels")
        use("pd.concat(axis=1) of series numbered 0, 1, ... puts the values of equal row numbers side by side")
        self.cs = cs

    def corr(self, method="pearson", **k):
        if k:
            raise Unsupported("corr options")
        return Correlations(self.cs, method)

    def __getattr__(self, n):
        raise Unsupported("DataFrame.%s" % n)


class Correlations:
    """DataFrame.corr: symmetric, over the rows where both columns have a value"""

    def __init__(self, cs, method):
        self.cs, self.method = cs, method

    @property
    def iloc(self):
        return self

    loc = iat = at = iloc

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, int) and -len(self.cs) <= x < len(self.cs) for x in k)):
            raise Unsupported("corr()[%s]" % (k,))
        use("DataFrame.corr is symmetric and depends on the method and the values of the two columns only")
        a, b = (self.cs[x] for x in k)
        i = tm.sym("anyitem", "I")
        key = sorted((tm.full(tm.app("column", [c.shape[0], key_term(c.at(i))], "V")) for c in (a, b)))
        m = self.method
        v = Num(E.dfun("corr", [tm.strc(x) for x in key], "R")(valt(m)))
        E.log.append(("corr", m, a, b, v))
        return v

    def __getattr__(self, n):
        raise Unsupported("corr().%s" % n)


class Categories:
    """Series.astype("category")"""

    def __init__(self, c):
        self.c0 = c

    @property
    def cat(self):
        return self

    @property
    def codes(self):
        use("Series.cat.codes: the number of smaller distinct values that occur; equal for equal values only")
        c = self.c0
        n, f = c.shape[0], c.at
        i = tm.sym("anyitem", "I")
        code = E.dfun("code", [n, key_term(f(i))], "I")
        E.assume(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, n), tm.le(0, j), tm.lt(j, n)),
                 tm.eq(tm.eq(code(i), code(j)), eq_vals(f(i), f(j)))))))
        r = ArrC((n,), lambda i: Num(code(i)), index=c.index)
        return SSeries(r)

    def __getattr__(self, n):
        raise Unsupported("Series of categories .%s" % n)


def series_name(x):
    nm = getattr(x.c, "name", None)
    if not isinstance(nm, str):
        raise Unsupported("column without a name")
    return nm


def concat_tables(cs, ignore_index=False):
    names = cs[0].names
    for c in cs[1:]:
        names = list(names) + [k for k in c.names if k not in names]
    if any(set(c.names) != set(names) for c in cs):
        use("pd.concat: NaN where a table lacks a column")
    offs, n = [], tm.num(0)
    for c in cs:
        offs.append(n)
        n = tm.add(n, c.n)

    def mk(get):
        def at(i):
            v = None
            for o, c in reversed(list(zip(offs, cs))):
                x = get(c, tm.sub(i, o))
                v = x if v is None else ite_val(tm.lt(i, tm.add(o, c.n)), x, v)
            return v
        return at

    def cell(k):
        p = tm.fresh("p", "I")
        opaque = any(isinstance(c.fns[k](p), SVal) for c in cs if k in c.fns)
        return mk(lambda c, i: c.fns[k](i) if k in c.fns else (SVal(tm.sym("missing", "V")) if opaque else NAN))
    fns = {k: cell(k) for k in names}
    ix = None if ignore_index else Index(n, mk(lambda c, i: c.index.at(i)))
    return STable(TableC(n, fns, ix))


class TRow:
    """one row of a table"""

    def __init__(self, c, i):
        self.tc, self.i = c, i

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.tc.fns:
                raise ModelledError(KeyError, k)
            return self.tc.fns[k](self.i)
        if isinstance(k, int):
            return self.tc.fns[self.tc.names[k]](self.i)
        if isinstance(k, SList):
            return SList.of([self[x] for x in k])
        raise Unsupported("row look-up")

    def _vc_seq(self):
        return [f(self.i) for f in self.tc.fns.values()]

    def __iter__(self):
        return iter(self._vc_seq())

    def get(self, k, d=None):
        return self[k] if k in self.tc.fns else d

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.tc.fns:
            return self[n]
        raise Unsupported("row.%s" % n)


LIVE = []           # tables made on the current path


class Plotter:
    """df.plot: the rows that are drawn, and how"""

    def __init__(self, c):
        self.c = c

    def __call__(self, x=None, y=None, kind="line", **k):
        E.log.append(("bars", kind, self.c, x, y, k))
        from .stubs import Recorder
        return Recorder("axes")

    def barh(self, x=None, y=None, **k):
        return self(x=x, y=y, kind="barh", **k)

    def bar(self, x=None, y=None, **k):
        return self(x=x, y=y, kind="bar", **k)

    def __getattr__(self, n):
        raise Unsupported("DataFrame.plot.%s" % n)


class STable(Heap):
    _vc_frame = True

    def __init__(self, c, loc=None):
        Heap.__init__(self, c, loc)
        LIVE.append(self)

    @classmethod
    def from_loc(cls, loc):
        o = cls.__new__(cls)
        object.__setattr__(o, "hloc", loc)
        return o

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.c.fns:
            return self[n]
        raise Unsupported("DataFrame.%s" % n)

    @property
    def plot(self):
        return Plotter(self.c)

    def __setattr__(self, n, v):
        if n == "columns":
            names = names_of(v)
            c = self.c
            if len(names) != len(c.names):
                raise ModelledError(ValueError, "length mismatch")
            self.put(c.with_(fns=dict(zip(names, c.fns.values()))))
            return
        raise Unsupported("assignment to DataFrame.%s" % n)

    # ---- shape
    @property
    def columns(self):
        return SList.of(self.c.names)

    @property
    def index(self):
        return SIndex(self.c.index)

    @property
    def shape(self):
        return (self._vc_len(), len(self.c.names))

    @property
    def empty(self):
        return mkbool(tm.eq(self.c.n, 0)) if self.c.names else True

    @property
    def values(self):
        c = self.c
        fs = list(c.fns.values())
        sc = lambda i: SeqC([("item", f(i)) for f in fs])
        return view(SArr(ArrC((c.n, tm.num(len(fs))), lambda i, j: sc(i).at(j))), self, False)

    def to_numpy(self, *a, **k):
        return self.values

    def _vc_len(self):
        v = cval(self.c.n)
        return v if v is not None else Num(self.c.n)

    def _vc_seq(self):
        return self.c.names

    def __iter__(self):
        return iter(self.c.names)

    def _vc_has(self, k):
        if isinstance(k, str):
            return TRUE if k in self.c.fns else FALSE
        return tm.or_(*[tm.eq(valt(k), valt(x)) for x in self.c.names])

    # ---- reading
    def __getitem__(self, k):
        c = self.c
        if isinstance(k, str):
            if k not in c.fns:
                raise ModelledError(KeyError, k)
            definite(c, k)
            return view(SSeries(ArrC((c.n,), c.fns[k], index=c.index, name=k)), self, False)
        if isinstance(k, SList):
            names = names_of(k)
            for x in names:
                if x not in c.fns:
                    raise ModelledError(KeyError, x)
                definite(c, x)
            return STable(c.with_(fns={x: c.fns[x] for x in names}))
        if isinstance(k, SArr) and isinstance(probe(k), (bool, SBool)):
            return STable(mask_rows(c, k))
        raise Unsupported("table look-up by %s" % type(k).__name__)

    def get(self, k, d=None):
        return self[k] if k in self.c.fns else d

    def __setitem__(self, k, v):
        c = self.c
        if not isinstance(k, str):
            raise Unsupported("symbolic column store")
        self.put(c.with_(fns={**c.fns, k: column(c, v)}))

    def __delitem__(self, k):
        c = self.c
        self.put(c.with_(fns={x: f for x, f in c.fns.items() if x != k}))

    @property
    def loc(self):
        return TLoc(self)

    @property
    def iloc(self):
        return TILoc(self)

    @property
    def at(self):
        return TLoc(self)

    @property
    def iat(self):
        return TILoc(self)

    # ---- derived tables
    def copy(self, deep=True):
        return STable(self.c) if deep is True else view(STable(self.c), self)

    def rename(self, mapper=None, columns=None, axis=None, **k):
        if k.pop("inplace", False) or k:
            raise Unsupported("rename options")
        d = columns if columns is not None else mapper
        if d is None or (columns is None and axis not in (1, "columns")):
            raise Unsupported("rename of rows")
        c = self.c
        m = {x: d[x] for x in (d if isinstance(d, dict) else d.c.items)}
        return STable(c.with_(fns={m.get(k2, k2): f for k2, f in c.fns.items()}))

    def drop(self, labels=None, columns=None, axis=0, **k):
        c = self.c
        if columns is None and axis in (1, "columns"):
            columns = labels
        if columns is None or k:
            raise Unsupported("drop of rows")
        names = [columns] if isinstance(columns, str) else names_of(columns)
        for x in names:
            if x not in c.fns:
                raise ModelledError(KeyError, x)
        return STable(c.with_(fns={x: f for x, f in c.fns.items() if x not in names}))

    def assign(self, **kw):
        t = self.copy()
        for k, v in kw.items():
            t[k] = v(t) if callable(v) and not isinstance(v, Heap) else v
        return t

    def replace(self, to_replace=None, value=None, **k):
        if k or value is not None or not isinstance(to_replace, (dict, SDict)):
            raise Unsupported("replace")
        m = dict(to_replace.c.items) if isinstance(to_replace, SDict) else to_replace
        if set(m) != {float("inf")} or m[float("inf")] is not None:
            raise Unsupported("replace")
        use("DataFrame.replace({inf: None}): infinite cells become missing, all others stay")
        oo = asnum(float("inf")).t

        def repl(f):
            def g(i):
                v = f(i)
                if not isinstance(v, Num):
                    return v
                return Num(v.t, tm.or_(v.nan, tm.eq(v.t, oo)))
            return g
        c = self.c
        return STable(c.with_(fns={n: repl(f) for n, f in c.fns.items()}))

    def reset_index(self, drop=False, **k):
        c = self.c
        if k:
            raise Unsupported("reset_index options")
        fns = dict(c.fns)
        kc = getattr(c.index, "keycols", None)
        if not drop:
            if kc is None:
                fns = {"index": c.index.at, **fns}
            else:
                fns = {**kc, **fns}
        r = TableC(c.n, fns, Index(c.n))
        r.perm_of = c.perm_of
        return STable(r)

    def reindex(self, index=None, columns=None, fill_value=None, **k):
        c = self.c
        if k or (index is None) == (columns is None):
            raise Unsupported("reindex options")
        if columns is not None:
            if fill_value is not None:
                raise Unsupported("reindex options")
            plain = lambda f: f.f if isinstance(f, Maybe) else f
            return STable(c.with_(fns={x: plain(c.fns.get(x, lambda i: Num(tm.num(0), TRUE))) for x in names_of(columns)}))
        return STable(reindexed(c, index, fill_value))

    def pivot_table(self, values=None, index=None, columns=None, aggfunc="mean", **k):
        if k:
            raise Unsupported("pivot_table options")
        return pivot(self.c, values, index, columns, aggfunc)

    def set_index(self, k, **kw):
        c = self.c
        if not isinstance(k, str) or kw:
            raise Unsupported("set_index")
        f = c.fns[k]
        ix = Index(c.n, f)
        ix.keycols = {k: f}
        return STable(TableC(c.n, {x: g for x, g in c.fns.items() if x != k}, ix))

    def head(self, k=5):
        c = self.c
        kk = idx(k)
        n = tm.ite(tm.le(kk, c.n), kk, c.n)
        if cval(kk) is not None and cval(kk) < 0:
            raise Unsupported("head of a negative number")
        return STable(c.rows(n, lambda i: i))

    def tail(self, k=5):
        c = self.c
        kk = idx(k)
        n = tm.ite(tm.le(kk, c.n), kk, c.n)
        return STable(c.rows(n, lambda i: tm.add(i, tm.sub(c.n, n))))

    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last", ignore_index=False, key=None):
        if axis not in (0, "index") or inplace or na_position != "last":
            raise Unsupported("sort_values options")
        c = self.c
        names = [by] if isinstance(by, str) else names_of(by)
        ascs = [ascending] * len(names) if not isinstance(ascending, (SList, list, tuple)) else list(ascending)
        cols = []
        c = named_columns(c, names)
        for x, a in zip(names, ascs):
            if x not in c.fns:
                raise ModelledError(KeyError, x)
            f = c.fns[x]
            if key is not None:
                kr = key(SSeries(ArrC((c.n,), f, index=c.index)))
                f = kr.c.at
            cols.append((f, boolt(a)))
        return STable(sorted_content(c, cols, ignore_index))

    def nlargest(self, k, columns, **kw):
        return self.sort_values(columns, ascending=False).head(k)

    def nsmallest(self, k, columns, **kw):
        return self.sort_values(columns, ascending=True).head(k)

    def fillna(self, v, **k):
        if k:
            raise Unsupported("fillna options")
        c = self.c
        if isinstance(v, SDict):
            return STable(c.with_(fns={x: ((lambda f, d: lambda i: fill(f(i), d))(f, v[x]) if x in v.c.items else f) for x, f in c.fns.items()}))
        return STable(c.with_(fns={x: (lambda f: lambda i: fill(f(i), v))(f) for x, f in c.fns.items()}))

    def isna(self):
        c = self.c
        return STable(c.with_(fns={x: (lambda f: lambda i: mkbool(isnan_val(f(i))))(f) for x, f in c.fns.items()}))
    isnull = isna

    def iterrows(self):
        c = self.c
        n = cval(c.n)
        if n is not None and n <= 8:
            return SList.of([(c.index.at(tm.num(i)), TRow(c, tm.num(i))) for i in range(n)])
        return SymSeq(c.n, lambda i: (c.index.at(i), TRow(c, i)))

    def itertuples(self, index=True, name="Pandas"):
        c = self.c
        return SymSeq(c.n, lambda i: tuple(([c.index.at(i)] if index else []) + [f(i) for f in c.fns.values()]))

    def to_dict(self, orient="dict"):
        if orient != "records":
            raise Unsupported("to_dict")
        c = self.c
        return SList(SeqC([("seg", c.n, lambda i: SDict(DictC({k: f(i) for k, f in c.fns.items()})))]))

    def apply(self, fn, axis=0, **k):
        if axis not in (1, "columns") or k:
            raise Unsupported("apply by column")
        use("DataFrame.apply(f, axis=1) applies f to every row")
        c = self.c
        r = vc.sym_comp("apply", "list", SymSeq(c.n, lambda i: TRow(c, i)), 0, [], fn, True)
        s = r.c.seq()
        return SSeries(ArrC((c.n,), s.at, index=c.index))

    def groupby(self, by, group_keys=True, as_index=True, sort=True, **k):
        if k:
            raise Unsupported("groupby options")
        return GroupBy(self.c, [by] if isinstance(by, str) else names_of(by), as_index, single=isinstance(by, str))

    def equals(self, o):
        return mkbool(self.c.same(o.c)) if isinstance(o, STable) else False

    def join(self, o, on=None, how="left", **k):
        """left join on a key column / the common index with distinct right keys"""
        if how != "left" or k:
            raise Unsupported("join options")
        return join(self.c, o.c, on)

    def __eq__(self, o):
        raise Unsupported("table comparison")
    __hash__ = object.__hash__

    def __repr__(self):
        return "STable(%s)" % self.c.names


def mask_rows(c, k):
    kc = k.c
    if kc.index is not None and not same_index(kc.index, c.index):
        raise Unsupported("mask with a different index")
    E.require(tm.eq(kc.shape[0], c.n), "mask has one entry per row")
    n, sel, pos = select(lambda i: boolt(kc.at(i)), c.n)
    r = c.rows(n, sel)
    r.sel_of = (c, sel, pos)
    return r


def column(c, v):
    if isinstance(v, SArr):
        vcnt = v.c
        if vcnt.index is not None and not same_index(vcnt.index, c.index):
            if True:
                raise Unsupported("column assignment aligning on different indexes")
        if vcnt.shape[0] is not c.n:
            E.require(tm.eq(vcnt.shape[0], c.n), "assigned column has as many values as rows")
        return vcnt.at
    if isinstance(v, SList) or isinstance(v, SymSeq):
        a = asarray(v).c
        E.require(tm.eq(a.shape[0], c.n), "assigned column has as many values as rows")
        return a.at
    if isinstance(v, (Heap, Poison)):
        raise Unsupported("column of %s" % type(v).__name__)
    if v is None or (isinstance(v, float) and v != v):
        v = Num(tm.num(0), TRUE)
    return lambda i: v


def before(a, b, asc):
    """(a may stand before b, a and b tie) with NaN last"""
    if isinstance(a, (SVal, str)) or isinstance(b, (SVal, str)):
        x, y = valt(a), valt(b)
        le = lambda p, q: tm.app("vle", [p, q], "B")
        return tm.ite(asc, le(x, y), le(y, x)), tm.eq(x, y)
    if isinstance(a, tuple):
        raise Unsupported("sort by tuples")
    a, b = asnum(num_of(a)), asnum(num_of(b))
    cmp_ = tm.ite(asc, tm.le(a.t, b.t), tm.le(b.t, a.t))
    le = tm.or_(b.nan, tm.and_(tm.not_(a.nan), cmp_))
    tie = tm.or_(tm.and_(a.nan, b.nan), tm.and_(tm.not_(a.nan), tm.not_(b.nan), tm.eq(a.t, b.t)))
    return le, tie


def lex(cols, x, y):
    res = TRUE
    for f, asc in reversed(cols):
        le, tie = before(f(x), f(y), asc)
        res = tm.and_(le, tm.implies(tie, res))
    return res


def name_values(f):
    """names for the numbers of a column whose terms are large; their definitions are equations of the normal form"""
    if E.ctx:
        return f
    x = asnum(f(tm.sym("anyitem", "I")))
    nm = "key:%s" % hashlib.sha256((tm.full(x.t) + "|" + tm.full(x.nan)).encode()).hexdigest()[:10]
    v, na = lambda k: tm.app(nm, [k], "R"), lambda k: tm.app(nm + "nan", [k], "B")
    tm.REWRITE[nm] = lambda args: asnum(f(args[0])).t
    tm.REWRITE[nm + "nan"] = lambda args: asnum(f(args[0])).nan
    tm.DEFINED.update((nm, nm + "nan"))
    k = tm.fresh("k", "I")
    hasnan = f(k).nan is not FALSE
    return lambda i: Num(v(i), na(i) if hasnan else FALSE)


def named_columns(c, names):
    """the same table with names for the deep terms of these columns"""
    k, fns = tm.fresh("k", "I"), dict(c.fns)
    for x in names:
        if x in fns:
            v = fns[x](k)
            if isinstance(v, Num) and (smt.deep(v.t) or smt.deep(v.nan)):
                fns[x] = name_values(fns[x])
    return c.with_(fns=fns) if fns != c.fns else c


def sorted_content(c, cols, ignore_index):
    use("sort_values: a permutation of the rows, ordered by the keys, NaN last")
    n = c.n
    k = tm.fresh("k", "I")
    named = {}
    for pos, (f, asc) in enumerate(cols):
        x = f(k)
        if isinstance(x, Num) and (smt.deep(x.t) or smt.deep(x.nan)):
            g = named[f] = name_values(f)
            cols[pos] = (g, asc)
    if named:
        c2 = TableC(c.n, {x: named.get(f, f) for x, f in c.fns.items()}, c.index)
        c2.perm_of = c.perm_of
        c = c2
    key = [n]
    for f, asc in cols:
        x = f(tm.sym("anyitem", "I"))
        key += [tm.lift(asc)] + ([x.t, x.nan] if isinstance(x, Num) else [boolt(x) if isinstance(x, (bool, SBool)) else valt(x)])
    p, q = E.dfun("srt", key, "I"), E.dfun("srtinv", key, "I")
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, p(i)), tm.lt(p(i), n), tm.eq(q(p(i)), i))))
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, q(i)), tm.lt(q(i), n), tm.eq(p(q(i)), i))))
    order = lambda i, j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, n)), lex(cols, p(i), p(j)))
    ordered = tm.forall("I", lambda i: tm.forall("I", lambda j: order(i, j)))
    E.assume(ordered)
    r = c.rows(n, p, Index(n) if ignore_index else None)
    inst = lambda i, j: E.assume(order(i, j))
    if c.perm_of is None:
        r.perm_of = (p, q, [inst])
    else:       # a sort of sorted rows: ghost permutation from the original rows
        p0, q0, more = c.perm_of
        r.perm_of = (lambda i: p0(p(i)), lambda k: q(q0(k)), [inst])
    E.perms.append((n, p, q, inst))
    return r


class TILoc:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        c = self.t.c
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(b, int):
                f = c.fns[c.names[b]]
                if isinstance(a, slice) and a == slice(None):
                    return SSeries(ArrC((c.n,), f, index=c.index))
                return f(norm_index(a, c.n))
            raise Unsupported("iloc")
        if isinstance(k, slice):
            if k.start in (None, 0) and k.step is None and k.stop is not None:
                kk = idx(k.stop)
                v = cval(kk)
                if v is not None and v < 0:
                    raise Unsupported("negative slice")
                n = tm.ite(tm.le(kk, c.n), kk, c.n)
                return STable(c.rows(n, lambda i: i))
            lo, n = norm_slice(k, c.n)
            return STable(c.rows(n, lambda i: tm.add(i, lo)))
        if isinstance(k, (int, Num)):
            return TRow(c, norm_index(k, c.n))
        raise Unsupported("iloc")


class TLoc:
    def __init__(self, t):
        self.t = t

    def pos(self, lab):
        """row position of a label"""
        c = self.t.c
        if c.index.labels is None:
            t = idx(lab)
            if not E.known(tm.and_(tm.le(0, t), tm.lt(t, c.n))):
                E.require(tm.and_(tm.le(0, t), tm.lt(t, c.n)), "row label exists")
            return t
        inv = getattr(c.index, "inv", None)
        if inv is not None:
            t = inv(lab)
            E.require(tm.and_(tm.le(0, t), tm.lt(t, c.n)), "row label exists")
            return t
        raise Unsupported("label look-up in a general index")

    def __getitem__(self, k):
        t, c = self.t, self.t.c
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, slice) and a == slice(None):
                return t[b]
            if isinstance(a, SArr) and isinstance(probe(a), (bool, SBool)):
                return t[a][b]
            if isinstance(b, str) and not isinstance(a, (SArr, SList, SymSeq)):
                definite(c, b)
                return c.fns[b](self.pos(a))
            if c.index.labels is None and isinstance(a, (SArr, SList, SymSeq)):
                # rows by label, the labels being the positions
                use("DataFrame.loc[labels, columns]: the rows with these labels, in the order of the labels")
                s = to_seq(a)
                if isinstance(s, list):
                    sc = SeqC([("item", x) for x in s])
                    s = SymSeq(sc.length(), sc.at)
                at = lambda i: numt(s.at(i))
                E.require(tm.forall_i(s.n, lambda i: tm.and_(tm.le(0, at(i)), tm.lt(at(i), c.n))), "row labels exist")
                if isinstance(b, str):
                    definite(c, b)
                    f = c.fns[b]
                    return SSeries(ArrC((s.n,), lambda i: f(at(i)), index=Index(s.n, lambda i: s.at(i)), name=b))
                cols = to_seq(b)
                if isinstance(cols, list) and all(isinstance(x, str) for x in cols):
                    for x in cols:
                        definite(c, x)
                    fs = {x: (lambda f: lambda i: f(at(i)))(c.fns[x]) for x in cols}
                    return STable(TableC(s.n, fs, Index(s.n, lambda i: s.at(i))))
            raise Unsupported("loc")
        if isinstance(k, SArr) and isinstance(probe(k), (bool, SBool)):
            return t[k]
        if isinstance(k, (int, Num)):
            return TRow(c, self.pos(k))
        raise Unsupported("loc")

    def __setitem__(self, k, v):
        t, c = self.t, self.t.c
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str)):
            raise Unsupported("loc store")
        a, b = k
        old = c.fns.get(b)
        nanf = lambda i: Num(tm.num(0), TRUE)
        if isinstance(a, slice) and a == slice(None):
            t[b] = v
            return
        if isinstance(a, SArr) and isinstance(probe(a), (bool, SBool)):
            kc = a.c
            if kc.index is not None and not same_index(kc.index, c.index):
                raise Unsupported("mask with a different index")
            if isinstance(v, SArr):
                vi = v.c.index
                val = None
                if vi is not None and same_index(vi, c.index):
                    val = v.c.at
                elif vi is not None and (c.index.labels is None or getattr(c.index, "inv", None) is not None):
                    # a column of the selected rows: each keeps its label
                    m, sel, pos = select(lambda i: boolt(kc.at(i)), c.n)
                    x = tm.fresh("x", "I")
                    if v.c.shape[0] is m and key_term(vi.at(x)) is key_term(c.index.at(sel(x))):
                        val = lifted(v.c.at, sel) or (lambda i: v.c.at(pos(i)))
                if val is None:
                    raise Unsupported("masked store of a column with another index")
            elif isinstance(v, (Heap, Poison)):
                raise Unsupported("masked store")
            else:
                val = lambda i: v
            of = old or nanf
            t.put(c.with_(fns={**c.fns, b: lambda i: ite_val(boolt(kc.at(i)), val(i), of(i))}))
            return
        if isinstance(a, (int, Num)):
            p = self.pos(a)
            of = old or nanf
            t.put(c.with_(fns={**c.fns, b: lambda i: ite_val(tm.eq(i, p), v, of(i))}))
            return
        raise Unsupported("loc store")


# ------------------------------------------------------------------------------------------------ group by
def lifted(f, sel):
    """the column as a function of the row it was selected from, or None"""
    i = tm.fresh("i", "I")
    v = f(i)

    def go(t, j):
        return tm.subst(t, {sel(i): j}, everything=True)
    k = tm.fresh("k", "I")
    if isinstance(v, Num):
        if i in go(v.t, k).syms or i in go(v.nan, k).syms:
            return None
        return lambda j: Num(go(v.t, j), go(v.nan, j))
    if isinstance(v, (SVal, SBool)):
        return None if i in go(v.t, k).syms else (lambda j: type(v)(go(v.t, j)))
    if isinstance(v, (int, float, str, bool)):
        return lambda j: v
    return None


class Base:
    """the rows of a table as a subset of the rows it was selected from: n rows, those satisfying mask"""

    def __init__(self, c):
        self.n, self.sels = c.n, []
        while self.n in tm.SELECTED:
            n0, guard, sel = tm.SELECTED[self.n]
            self.sels.append((guard, sel))
            self.n = n0

    def lift(self, f):
        for _, sel in self.sels:
            f = lifted(f, sel)
            if f is None:
                return None
        return f

    def mask(self):
        """condition on the original row"""
        conds = []
        for d, (guard, _) in enumerate(self.sels):
            f = lambda i, guard=guard: SBool(guard(i))
            for _, sel in self.sels[d + 1:]:
                f = f and lifted(f, sel)
            if f is None:
                return None
            conds.append(f)
        return lambda j: tm.and_(*[boolt(f(j)) for f in conds])


def based(c, cols):
    """(rows, mask, {column: function of the original row}) such that the table lists the rows satisfying mask"""
    b = Base(c)
    fs = {k: b.lift(c.fns[k]) for k in cols}
    m = b.mask()
    if m is None or any(f is None for f in fs.values()):
        return c.n, (lambda j: TRUE), {k: c.fns[k] for k in cols}, False
    return b.n, m, fs, True


def key_term(v):
    if isinstance(v, tuple):
        return tm.app("tuple", [key_term(x) for x in v], "V")
    return v.t if isinstance(v, (Num, SVal, SBool)) else valt(v)


def conjuncts(t):
    return [x for a in t.args for x in conjuncts(a)] if t.op == "and" else [t]


def given(mask, f):
    """the column, simplified for rows that satisfy the mask (it is only read there)"""
    def at(i):
        v = f(i)
        m = {}
        for x in conjuncts(mask(i)):
            if x.op == "not":
                m[x.args[0]] = FALSE
            elif x is not TRUE:
                m[x] = TRUE
        if not m or not isinstance(v, (Num, SVal, SBool)):
            return v
        go = lambda t: tm.subst(t, m, everything=True)
        return Num(go(v.t), go(v.nan)) if isinstance(v, Num) else type(v)(go(v.t))
    return at


class GroupBy:
    """groups of rows with equal keys: ng groups, grp(row) -> group, occ(group) -> a member; rows with a missing key are dropped"""

    def __init__(self, c, by, as_index=True, single=True):
        self.c0, self.by, self.as_index, self.single = c, by, as_index, single
        for b in by:
            if b not in c.fns:
                raise ModelledError(KeyError, b)
        n, mask, fs, self.deep = based(c, by)
        # a row of a group has all keys: what makes them present can be added to the mask
        def present(i, mask=mask, fs=dict(fs)):
            more = [x for b in by for x in conjuncts(tm.not_(isnan_val(fs[b](i))))]
            plain = lambda x: x.op == "not" and x.args[0].op == "app" and x.args[0].args[0] == "isna"
            return tm.and_(mask(i), *[x for x in more if not plain(x)])
        mask = present
        fs = {b: given(mask, f) for b, f in fs.items()}
        self.n, self.mask, self.kf = n, mask, fs
        use("groupby: one group per combination of key values that occurs; rows with a missing key belong to no group")
        self.member = lambda i: tm.and_(mask(i), *[tm.not_(isnan_val(fs[b](i))) for b in by])
        a = tm.sym("anyitem", "I")
        key = [n, self.member(a)] + [key_term(fs[b](a)) for b in by]
        self.ng = ng = E.dfun("ng", key, "I")()
        self.grp, self.occ = E.dfun("grp", key, "I"), E.dfun("occ", key, "I")
        grp, occ = self.grp, self.occ
        self.ident = ("group",) + tuple(key)
        self.keys = {b: (lambda f: lambda g: f(occ(g)))(fs[b]) for b in by}
        same = lambda i, j: [eq_vals(fs[b](i), fs[b](j)) for b in by]
        E.assume(tm.and_(tm.le(0, ng), tm.le(ng, n), tm.le(ng, c.n)))
        E.assume(tm.forall_i(ng, lambda g: tm.and_(tm.le(0, occ(g)), tm.lt(occ(g), n), self.member(occ(g)), tm.eq(grp(occ(g)), g))))
        E.assume(tm.forall_i(n, lambda i: tm.implies(self.member(i), tm.and_(
            tm.le(0, grp(i)), tm.lt(grp(i), ng), *same(i, occ(grp(i)))))))
        E.assume(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(
            tm.le(0, i), tm.lt(i, n), tm.le(0, j), tm.lt(j, n), self.member(i), self.member(j), *same(i, j)), tm.eq(grp(i), grp(j))))))
        E.groups.append(self)
        tm.GROUPED[ng] = (n, lambda j, g: same(j, occ(g)), self.member)

    def inside(self, i, g):
        """row i belongs to group g: it has the group's key"""
        return tm.and_(self.mask(i), *[eq_vals(self.kf[b](i), self.keys[b](g)) for b in self.by])

    def col(self, name):
        f = self.c0.fns[name]
        if not self.deep:
            return f
        g = Base(self.c0).lift(f)
        if g is None:
            raise Unsupported("column of a grouped selection")
        return given(self.mask, g)

    def reduce(self, col, how):
        f = self.col(col)
        n = self.n
        ok = lambda i, g: tm.and_(self.inside(i, g), tm.not_(isnan_val(f(i))))
        val = lambda i: num_of(f(i)).t
        sm = lambda g: tm.mk_sum(n, lambda i: tm.ite(ok(i, g), val(i), 0))
        ct = lambda g: tm.mk_sum(n, lambda i: tm.indicator(ok(i, g)))
        if how == "sum":
            return lambda g: Num(sm(g))
        if how == "count":
            return lambda g: Num(ct(g))
        if how == "size":
            return lambda g: Num(tm.mk_sum(n, lambda i: tm.indicator(self.inside(i, g))))
        if how == "mean":
            def mean(g):
                p = tm.fresh("p", "I")
                if isnan_val(f(p)) is FALSE:
                    return Num(tm.div(sm(g), ct(g)))
                return Num(tm.div(sm(g), ct(g)), tm.eq(ct(g), 0))
            return mean
        if how in ("max", "min"):
            p = tm.fresh("p", "I")
            nn = isnan_val(f(p)) is FALSE
            return lambda g: Num(tm.mk_red(how, n, lambda i: (ok(i, g), val(i))),
                                 FALSE if nn else tm.not_(tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, n), ok(i, g)))))
        if how == "first":
            fst = E.dfun("gfirst", self.ident[1:], "I")
            E.assume(tm.forall_i(self.ng, lambda g: tm.and_(tm.le(0, fst(g)), tm.lt(fst(g), n), self.inside(fst(g), g),
                                                            tm.forall_i(fst(g), lambda i: tm.not_(self.inside(i, g))))))
            if isnan_val(f(tm.fresh("p", "I"))) is not FALSE and not isinstance(f(tm.fresh("p", "I")), SVal):
                raise Unsupported("first with missing values")
            return lambda g: f(fst(g))
        raise Unsupported("aggregate %r" % (how,))

    def result(self, fns):
        ix = Index(self.ng, (lambda g: self.keys[self.by[0]](g)) if len(self.by) == 1 else (lambda g: tuple(k(g) for k in self.keys.values())))
        ix.keycols = dict(self.keys)
        ix.group = self
        ix.ident = self.ident
        if not self.as_index:
            r = TableC(self.ng, {**self.keys, **fns})
        else:
            r = TableC(self.ng, fns, ix)
        r.group = self
        return STable(r)

    def agg(self, spec=None, **named):
        fns = {}
        if isinstance(spec, SDict):
            for col in spec.c.items:
                fns[col] = self.reduce(col, spec[col])
        elif spec is None:
            for out, (col, how) in named.items():
                fns[out] = self.reduce(col, how)
        else:
            raise Unsupported("agg")
        return self.result(fns)
    aggregate = agg

    def __getitem__(self, col):
        if isinstance(col, str):
            return GroupCol(self, col)
        raise Unsupported("groupby columns")

    def size(self):
        t = self.result({"size": self.reduce(self.by[0], "size")})
        return t["size"]

    def sub(self, g):
        """the rows of group g"""
        c = self.c0
        if self.deep:
            cols = {k: Base(c).lift(f) for k, f in c.fns.items()}
            if any(f is None for f in cols.values()):
                raise Unsupported("groups of a selection with computed columns")
            lab = Base(c).lift(c.index.at)
            if lab is None:         # some labels
                name = "label~%d" % vc.next_id()
                lab = lambda b: SVal(tm.app(name, [b], "V"))
        else:
            cols, lab = c.fns, c.index.at
        n, sel, pos = select(lambda i: self.inside(i, g), self.n)
        ix = Index(n, lambda i: lab(sel(i)))
        if c.index.labels is None and not Base(c).sels:
            ix.inv = lambda v: pos(idx(v))
        r = TableC(n, {k: (lambda f: lambda i: f(sel(i)))(f) for k, f in cols.items()}, ix)
        r.sel_of = (self, sel, pos)
        p0 = pos(self.occ(g))
        E.assume(tm.and_(tm.lt(0, n), tm.le(0, p0), tm.lt(p0, n), tm.eq(sel(p0), self.occ(g))))
        return r, sel, pos

    def apply(self, fn, *args, **kw):
        """one number per group: a Series with the keys as its index"""
        use("groupby.apply calls the function with the rows of each group, in order")

        hold = {}
        ng = self.ng
        j = tm.sym("group~%d" % vc.next_id(), "I")
        mark = E.serial

        def run():
            jp = len(E.journal)
            r, sel, pos = self.sub(j)
            hold["sub"] = (r, sel, pos)
            E.applied.append((self, j, r, sel, pos))
            try:
                out = freeze(fn(STable(r), *args, **kw))
            finally:
                E.applied.pop()
            for c, _ in E.journal[jp:]:
                if c.serial <= mark:
                    raise Unsupported("the function applied to the groups changes a location outside it")
            return out
        v = vc.merge_paths(vc.body_paths(j, tm.and_(tm.le(0, j), tm.lt(j, ng)), run))
        if isinstance(v, Fz) and v.cls is STable:
            return self.stacked(v.c, j, *hold["sub"])
        if not isinstance(v, (Num, SVal, SBool)):
            raise Unsupported("groupby.apply returning %s" % type(v).__name__)
        t = self.result({"value": lambda g: vsubst(v, {j: g})})
        return t["value"]

    def stacked(self, c, g, r, sel, pos):
        """the tables returned for the groups, one below the other; each has the rows of its group"""
        if c.n is not r.n:
            raise Unsupported("groupby.apply changing the number of rows")
        use("groupby.apply: the tables returned for the groups are stacked; columns missing from some are filled with NaN")

        def base(f):
            h = lifted(f, sel)
            if h is None:
                raise Unsupported("groupby.apply with columns that do not follow the rows")
            return lambda b: vsubst(h(b), {g: self.grp(b)})
        fs = {k: again(f, base(f)) for k, f in c.fns.items()}
        a = tm.sym("anyitem", "I")
        key = [self.n, self.member(a)] + list(self.ident[1:])
        m = E.dfun("gcnt", key, "I")()
        gsel, gpos = E.dfun("gsel", key, "I"), E.dfun("gselpos", key, "I")
        E.assume(tm.and_(tm.le(0, m), tm.le(m, self.n), tm.eq(m, tm.mk_sum(self.n, lambda i: tm.indicator(self.member(i))))))
        E.assume(tm.forall_i(m, lambda i: tm.and_(tm.le(0, gsel(i)), tm.lt(gsel(i), self.n), self.member(gsel(i)), tm.eq(gpos(gsel(i)), i))))
        E.assume(tm.forall_i(self.n, lambda i: tm.implies(self.member(i), tm.and_(tm.le(0, gpos(i)), tm.lt(gpos(i), m), tm.eq(gsel(gpos(i)), i)))))
        tm.SELECTED[m], tm.SELPOS[m] = (self.n, self.member, gsel), gpos
        ix = Index(m, lambda i: Num(tm.app("stacklabel", [i], "I")))
        return STable(TableC(m, {k: again(f, (lambda f: lambda i: f(gsel(i)))(f)) for k, f in fs.items()}, ix))
    progress_apply = apply

    def _all(self, how):
        return self.result({k: self.reduce(k, how) for k in self.c0.names if k not in self.by})

    def mean(self, **k):
        return self._all("mean")

    def sum(self, **k):
        return self._all("sum")

    def first(self, **k):
        return self._all("first")


class GroupCol:
    def __init__(self, g, col):
        self.g, self.col = g, col

    def agg(self, how):
        if not isinstance(how, str):
            raise Unsupported("agg")
        return self.g.result({self.col: self.g.reduce(self.col, how)})[self.col]
    aggregate = agg

    def mean(self):
        return self.agg("mean")

    def sum(self):
        return self.agg("sum")

    def count(self):
        return self.agg("count")

    def min(self):
        return self.agg("min")

    def max(self):
        return self.agg("max")

    def first(self):
        return self.agg("first")

    def apply(self, fn):
        if fn != lib.NP.array:
            raise Unsupported("groupby.apply")
        use("groupby[column].apply(np.array): per group the array of its members' values, in row order; indexed by the keys")
        g, f, n = self.g, self.g.col(self.col), self.g.n
        cnt, src, at = E.ffun("group_size", "I"), E.ffun("group_member", "I"), E.ffun("place_in_group", "I")
        E.assume(tm.forall_i(g.ng, lambda k: tm.le(1, cnt(k))))
        E.assume(tm.forall("I", lambda k: tm.forall("I", lambda j: tm.implies(
            tm.and_(tm.le(0, k), tm.lt(k, g.ng), tm.le(0, j), tm.lt(j, cnt(k))),
            tm.and_(tm.le(0, src(k, j)), tm.lt(src(k, j), n), g.member(src(k, j)), tm.eq(g.grp(src(k, j)), k), tm.eq(at(src(k, j)), j))))))
        E.assume(tm.forall_i(n, lambda i: tm.implies(g.member(i), tm.and_(tm.le(0, at(i)), tm.lt(at(i), cnt(g.grp(i))), tm.eq(src(g.grp(i), at(i)), i)))))
        if len(g.by) != 1:
            raise Unsupported("groupby.apply by several keys")
        r = ArrC((g.ng,), lambda k: Fz(SArr, ArrC((cnt(k),), lambda j: f(src(k, j)))),
                 index=Index(g.ng, lambda k: g.keys[g.by[0]](k)), name=self.col)
        s = SSeries(r)
        s.c.index.group = g
        s.c.index.parts = (cnt, src, at)
        return s


def reindexed(c, index, fill_value):
    """the grouped table looked up by the labels of another index; missing groups get the fill value"""
    g = getattr(c.index, "group", None)
    if g is None or len(g.by) != 1:
        raise Unsupported("reindex of a general index")
    use("reindex(index, fill_value): the row with that label, or the fill value")
    ix = index.ix if isinstance(index, SIndex) else None
    if ix is None:
        raise Unsupported("reindex by %s" % type(index).__name__)
    b = g.by[0]
    rows_of = lambda v: tm.mk_sum(g.n, lambda j: tm.indicator(tm.and_(g.mask(j), eq_vals(g.kf[b](j), v))))
    some = lambda v: tm.lt(0, rows_of(v))
    d = Num(tm.num(0), TRUE) if fill_value is None else asnum(fill_value)
    k = tm.fresh("g", "I")
    kt = key_term(g.keys[b](k))

    def col(f):
        x = f(k)
        if not isinstance(x, Num):
            raise Unsupported("reindex of opaque columns")

        def at(i):
            lab = ix.at(i)
            t, na = (tm.subst(z, {kt: key_term(lab)}, everything=True) for z in (x.t, x.nan))
            if k in t.syms or k in na.syms:
                raise Unsupported("reindex of a column that is no function of the key")
            return ite_val(some(lab), Num(t, na), d)
        return at
    return TableC(ix.n, {x: col(f) for x, f in c.fns.items()}, ix)


def join(a, b, on):
    """left join: every row of a, with the columns of the (unique) row of b whose index equals the key"""
    if on is None and same_index(a.index, b.index):
        use("join of tables with the same index puts their columns side by side")
        if set(a.fns) & set(b.fns):
            raise Unsupported("join with overlapping columns")
        return STable(TableC(a.n, {**a.fns, **b.fns}, a.index))
    kb = getattr(b.index, "keycols", None)
    if kb is None or len(kb) != 1:
        raise Unsupported("join")
    lab = next(iter(kb.values()))
    key = a.fns[on] if on is not None else (next(iter(getattr(a.index, "keycols", {"": a.index.at}).values())))
    m = E.ffun("joinpos", "I")
    has = E.ffun("joinhas", "B")
    n = a.n
    E.require(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(
        tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, b.n)), tm.not_(eq_vals(lab(i), lab(j)))))), "join keys are distinct")
    E.assume(tm.forall_i(n, lambda i: tm.implies(has(i), tm.and_(tm.le(0, m(i)), tm.lt(m(i), b.n), eq_vals(lab(m(i)), key(i))))))
    E.assume(tm.forall_i(n, lambda i: tm.implies(tm.not_(has(i)), tm.forall_i(b.n, lambda j: tm.not_(eq_vals(lab(j), key(i)))))))
    use("join: each left row with the right row of the same key, missing values where there is none")
    fns = dict(a.fns)

    def pick(f):
        def at(i):
            v = f(m(i))
            if isinstance(v, (Num, int, float)):
                v = asnum(v)
                return Num(v.t, tm.or_(tm.not_(has(i)), v.nan))
            raise Unsupported("join of opaque columns")
        return at
    for k, f in b.fns.items():
        if k in fns:
            raise Unsupported("join with overlapping columns")
        fns[k] = pick(f)
    return STable(TableC(n, fns, a.index))


class SeriesCls:
    """pd.Series"""

    def _vc_isinstance(self, x):
        return isinstance(x, SSeries)

    def __call__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Opaque):
            return data
        if isinstance(data, SSeries) and index is None:
            c = data.c
            return view(SSeries(ArrC(c.shape, c.at, index=c.index, name=name if name is not None else c.name)), data)
        if data is None and isinstance(index, (SIndex, SList)) and cval(idx(index._vc_len())) == 0:
            return SSeries(ArrC((tm.num(0),), lambda i: Num(0), index=Index(tm.num(0)), name=name))
        if isinstance(data, (SArr, SList)) and index is None:
            a = asarray(data).c
            return SSeries(ArrC(a.shape, a.at, index=Index(a.shape[0]), name=name))
        raise Unsupported("pd.Series(%s)" % type(data).__name__)


class IndexCls:
    """pd.Index"""

    def _vc_isinstance(self, x):
        return isinstance(x, SIndex)

    def __call__(self, data, name=None):
        a = asarray(data).c
        return SIndex(Index(a.shape[0], a.at))


class PandasNS:
    Series = SeriesCls()
    Index = IndexCls()
    DataFrame = staticmethod(DataFrame)
    concat = staticmethod(concat)

    def __getattr__(self, n):
        raise Unsupported("pd.%s" % n)

    @staticmethod
    def isna(x):
        if isinstance(x, SSeries):
            return x.isna()
        if isinstance(x, SArr):
            c = x.c
            return x.like(lambda *i: mkbool(isnan_val(c.at(*i))))
        return mkbool(isnan_val(x))
    isnull = isna

    @staticmethod
    def notna(x):
        return not_(PandasNS.isna(x))

    @staticmethod
    def unique(x):
        return lib.NP.unique(x, _sort=False)


PD = PandasNS()


# ------------------------------------------------------------------------------------------------ matrices with labelled rows and columns
class Opaque:
    """numbers whose values do not matter to any obligation"""

    def __init__(self, what="number"):
        self._what = what

    def _any(self, *a, **k):
        return Num(E.fresh(self._what, "R"))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _any

    def max(self, *a, **k):
        return Num(E.fresh(self._what, "R"))
    min = max

    def _vc_minmax(self, kind):
        return Num(E.fresh(self._what, "R"))

    def __getitem__(self, k):
        return Opaque(self._what)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("%s of unmodelled numbers" % n)


class Pivot:
    """df.pivot_table(values, index, columns, aggfunc="first"): cell (x, y) is the value of the first row with these keys, NaN if there is none;
    the labels of either axis are the distinct values of its key column"""
    _vc_frame = True

    def __init__(self, cell, rows, cols, src=None):
        self.cell, self.rows, self.cols, self.src = cell, rows, cols, src

    @property
    def index(self):
        return SIndex(LabelIndex(self.rows))

    @property
    def columns(self):
        return SIndex(LabelIndex(self.cols))

    @property
    def shape(self):
        return (Num(self.rows.n), Num(self.cols.n))

    @property
    def T(self):
        return Pivot(lambda x, y: self.cell(y, x), self.cols, self.rows)

    def _vc_len(self):
        return Num(self.rows.n)

    def copy(self, *a, **k):
        return Pivot(self.cell, self.rows, self.cols, self.src)

    def max(self, *a, **k):
        return Opaque("column_max")
    min = max

    def _vc_diag(self):
        return Opaque("diagonal")

    def sort_index(self, axis=0, key=None, ascending=True, **k):
        if k or axis not in (0, "index"):
            raise Unsupported("sort_index options")
        use("DataFrame.sort_index: the same rows in another order")
        return self._with(rows=permuted(self.rows))

    def _with(self, rows=None, cols=None):
        return Pivot(self.cell, rows or self.rows, cols or self.cols, self.src)

    def _labels(self, k, have, what):
        s = to_seq(k)
        if isinstance(s, list):
            s = SymSeq(tm.num(len(s)), lambda i: pick(s, i))
        return s

    def reindex(self, index=None, columns=None, **k):
        if k:
            raise Unsupported("reindex options")
        use("reindex: the rows (columns) with these labels, in this order; NaN where there is none")
        m = self
        for which, want in (("rows", index), ("cols", columns)):
            if want is None:
                continue
            s, old = m._labels(want, None, which), getattr(m, which)
            a = E.fresh("label", "I")
            if not E.known(tm.implies(tm.and_(tm.le(0, a), tm.lt(a, s.n)), old.has(valt(s.at(a))))):
                raise Unsupported("reindex by labels that may be missing")
            m = m._with(**{which: s})
        return m

    @property
    def loc(self):
        return PivotLoc(self)

    def __getitem__(self, k):
        if isinstance(k, (str, SVal)):
            return Opaque("column")
        s = self._labels(k, None, "cols")
        a = E.fresh("label", "I")
        E.require(tm.implies(tm.and_(tm.le(0, a), tm.lt(a, s.n)), self.cols.has(valt(s.at(a)))), "columns are present")
        return self._with(cols=s)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("matrix.%s" % n)


class PivotLoc:
    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        for x in (r, c):
            if isinstance(x, (str, SVal)) or (isinstance(x, slice) and x != slice(None)):
                raise Unsupported("matrix.loc")
        m = self.m
        if not isinstance(r, slice):
            m = m.reindex(index=r)
        return m if isinstance(c, slice) else m.reindex(columns=c)


class LabelIndex(Index):
    """distinct labels"""

    def __init__(self, seq):
        Index.__init__(self, seq.n, seq.at)
        self.seq = seq


def permuted(s):
    """the labels of s in another order"""
    p, q = E.ffun("order", "I"), E.ffun("place", "I")
    E.assume(tm.forall_i(s.n, lambda i: tm.and_(tm.le(0, p(i)), tm.lt(p(i), s.n), tm.eq(q(p(i)), i))))
    E.assume(tm.forall_i(s.n, lambda i: tm.and_(tm.le(0, q(i)), tm.lt(q(i), s.n), tm.eq(p(q(i)), i))))
    r = SymSeq(s.n, lambda i: s.at(p(i)), pos=lambda k: q(s.pos(k)), has=s._has)
    E.assume(tm.forall_i(s.n, lambda i: s.has(valt(s.at(p(i))))))
    r.perm_of = s
    return r


def key_labels(name, n, col):
    """distinct values of a key column, as a keyed sequence"""
    m, lab, pos, has, wit = E.fresh("n_" + name, "I"), E.ffun(name, "V"), E.ffun(name + "_pos", "I"), E.ffun(name + "_has", "B"), E.ffun(name + "_row", "I")
    c = lambda i: valt(col(i))
    E.assume(tm.and_(tm.le(0, m), tm.le(m, n), tm.implies(tm.lt(0, n), tm.lt(0, m))))
    E.assume(tm.forall_i(n, lambda i: has(c(i))))
    E.assume(tm.forall_i(m, lambda i: tm.and_(has(lab(i)), tm.eq(pos(lab(i)), i), tm.le(0, wit(i)), tm.lt(wit(i), n), tm.eq(c(wit(i)), lab(i)))))
    E.assume(tm.forall("V", lambda q: tm.implies(has(q), tm.and_(tm.le(0, pos(q)), tm.lt(pos(q), m), tm.eq(lab(pos(q)), q)))))
    r = SymSeq(m, lambda i: SVal(lab(i)), pos=lambda q: pos(valt(q)), has=lambda q: has(valt(q)))
    r.row = wit
    return r


def pivot(c, values, index, columns, aggfunc):
    if aggfunc != "first" or not all(isinstance(x, str) for x in (values, index, columns)):
        raise Unsupported("pivot_table options")
    use("pivot_table(aggfunc=first): cell (x, y) is the value of the first row with these keys")
    R, C, V = (c.fns[x] for x in (index, columns, values))
    p = tm.fresh("p", "I")
    if num_of(V(p)).nan is not FALSE and not E.known(tm.implies(tm.and_(tm.le(0, p), tm.lt(p, c.n)), tm.not_(num_of(V(p)).nan))):
        raise Unsupported("pivot_table of missing values")
    first, has = E.ffun("first_row", "I"), E.ffun("has_cell", "B")

    def fact(i):
        x, y = valt(R(i)), valt(C(i))
        f = first(x, y)
        return tm.and_(has(x, y), tm.le(0, f), tm.le(f, i), tm.eq(valt(R(f)), x), tm.eq(valt(C(f)), y))
    E.assume(tm.forall("V", lambda x: tm.forall("V", lambda y: tm.implies(has(x, y), tm.and_(
        tm.le(0, first(x, y)), tm.lt(first(x, y), c.n), tm.eq(valt(R(first(x, y))), x), tm.eq(valt(C(first(x, y))), y))))))
    rows, cols = key_labels("row_label", c.n, R), key_labels("col_label", c.n, C)

    def cell(x, y):
        v = num_of(V(first(x, y)))
        return Num(v.t, tm.not_(has(x, y)))
    m = Pivot(cell, rows, cols)
    m.src = (c, fact, first, has, R, C, V)
    return m
