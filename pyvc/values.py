"""Symbolic containers: sequences, lists, dicts, sets, arrays."""
import weakref

from . import terms as tm
from .core import (E, FALSE, TRUE, UNBOUND, Cell, Heap, ModelledError, Num, Poison, SBool, SVal, SubCell, Sym,
                   Unsupported, asnum, boolt, eq_vals, is_num, ite_num, mkbool, nant, not_, numt, scalar, valt, view)
from .terms import T


def rv(t):
    """numeric reading of a cell"""
    if t.op == "app" and t.args[0] in ("vr", "vi"):
        return t.args[1]
    if t.op == "ite":
        return tm.ite(t.args[0], rv(t.args[1]), rv(t.args[2]))
    return tm.app("rv", [t], "R")


def num_of(x):
    if isinstance(x, SVal):
        return Num(rv(x.t))
    return asnum(x)


def idx(x):
    """index term of an int-like"""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        raise Unsupported("bool index")
    if isinstance(x, int):
        return tm.num(x)
    if isinstance(x, Num):
        return x.t
    if isinstance(x, SVal):
        return rv(x.t)
    raise Unsupported("index %s" % type(x).__name__)


def cval(x):
    """python int of a constant, else None"""
    t = numt(x) if not isinstance(x, T) else x
    v = tm.numval(t)
    return int(v) if v is not None and v.denominator == 1 else None


def ite_val(c, a, b):
    """value-level if"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(tm.ite(c, boolt(a), boolt(b)))
    if isinstance(a, (SVal, str)) or isinstance(b, (SVal, str)):
        return SVal(tm.ite(c, valt(a), valt(b)))
    if isinstance(a, (Num, int, float, SBool)) and isinstance(b, (Num, int, float, SBool)):
        return ite_num(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Fz) and isinstance(b, Fz) and a.cls is b.cls:
        return Fz(a.cls, ite_content(c, a.c, b.c))
    if (a is None) != (b is None):
        raise Unsupported("value is None on one path only")
    if isinstance(a, Heap) and isinstance(b, Heap):
        return ite_val(c, freeze(a), freeze(b))
    if type(a) is type(b) and a == b:
        return a
    raise Unsupported("cannot merge %s and %s" % (type(a).__name__, type(b).__name__))


def ite_content(c, a, b):
    if a is b:
        return a
    if isinstance(a, ArrC) and isinstance(b, ArrC):
        if len(a.shape) != len(b.shape):
            raise Unsupported("merge of arrays of different rank")
        shape = tuple(x if x is y else tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
        return ArrC(shape, lambda *i: ite_val(c, a.at(*i), b.at(*i)), index=a.index if a.index is b.index else None,
                    sorted=a.sorted and b.sorted)
    if isinstance(a, DictC) and isinstance(b, DictC) and a.fam is None and b.fam is None and not a.stores and not b.stores \
            and list(a.items) == list(b.items):
        return DictC({k: ite_val(c, a.items[k], b.items[k]) for k in a.items})
    if isinstance(a, SeqC) and isinstance(b, SeqC) and a.concrete() and b.concrete() and len(a.segs) == len(b.segs):
        return SeqC([("item", ite_val(c, x[1], y[1])) for x, y in zip(a.segs, b.segs)])
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        if E.known(tm.eq(a.length(), b.length())):
            return SeqC([("seg", a.length(), lambda j: ite_val(c, a.at(j), b.at(j)))])
    raise Unsupported("cannot merge contents %s and %s" % (type(a).__name__, type(b).__name__))


class Fz:
    """a heap object stored by value"""
    __slots__ = ("cls", "c")

    def __init__(self, cls, c):
        self.cls, self.c = cls, c


def freeze(v):
    if isinstance(v, Heap):
        if v.hloc.root().owner is not None:
            raise Unsupported("caller-owned object stored in a symbolic family")
        return Fz(type(v), freeze_content(v.c))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def freeze_content(c):
    if isinstance(c, SeqC) and c.concrete():
        return SeqC([("item", freeze(s[1])) for s in c.segs])
    if isinstance(c, DictC) and c.fam is None and not c.stores:
        return DictC({k: freeze(v) for k, v in c.items.items()})
    return c


def thaw(v, loc=None):
    if isinstance(v, Fz):
        return v.cls.from_loc(loc) if loc is not None else v.cls(v.c)
    if isinstance(v, tuple):
        return tuple(thaw(x) for x in v)
    return v


def vsubst(v, m):
    if isinstance(v, Num):
        return Num(tm.subst(v.t, m), tm.subst(v.nan, m))
    if isinstance(v, SVal):
        return SVal(tm.subst(v.t, m))
    if isinstance(v, SBool):
        return mkbool(tm.subst(v.t, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Fz):
        return Fz(v.cls, csubst(v.c, m))
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, Heap):
        return v
    if isinstance(v, Range):
        return v
    return v


def csubst(c, m):
    if isinstance(c, ArrC):
        return ArrC(tuple(tm.subst(s, m) for s in c.shape), lambda *i: under(c.fn, i, m),
                    tuple((tuple(tm.subst(x, m) for x in ii), vsubst(v, m)) for ii, v in c.stores), c.index, c.sorted)
    if isinstance(c, DictC):
        if c.fam is not None and not c.stores and not c.items and type(c) is DictC:
            fam, sq = c.fam, c.fam.seq

            def keyed(fn):
                def at(*k):
                    if not all(isinstance(x, (int, Num, SVal)) for x in k):
                        raise Unsupported("key of a substituted dict")
                    k = [Num(tm.num(x)) if isinstance(x, int) else x for x in k]
                    ph = [Num(tm.fresh("ph", x.t.sort)) if isinstance(x, Num) else SVal(tm.fresh("ph", "V")) for x in k]
                    return vsubst(vsubst(fn(*ph), m), dict(zip([x.t for x in ph], [x.t for x in k])))
                return at
            seq = SymSeq(tm.subst(sq.n, m), lambda i: under(sq.at, (i,), m), pos=keyed(sq.pos) if sq.pos is not None else None, has=keyed(sq.has))
            return DictC(fam=Fam(seq, keyed(fam.val), fam.arity, fam.tup))
        if c.fam is not None or c.stores:
            raise Unsupported("substitution in a symbolic dict")
        return DictC({k: vsubst(v, m) for k, v in c.items.items()})
    if isinstance(c, SeqC):
        out = []
        for s in c.segs:
            if s[0] == "item":
                out.append(("item", vsubst(s[1], m)))
            else:
                out.append(("seg", tm.subst(s[1], m), (lambda f: lambda j: under(f, (j,), m))(s[2])))
        return SeqC(out)
    if hasattr(c, "csubst"):
        return c.csubst(m)
    raise Unsupported("substitution in %s" % type(c).__name__)


def under(fn, args, m):
    """fn(*args) with the substitution applied to fn's own terms only (not to args)"""
    ph = [tm.fresh("ph", a.sort) for a in args]
    v = vsubst(fn(*ph), m)
    return vsubst(v, dict(zip(ph, args)))


def same_val(a, b):
    """Bool term: the two values are equal (deeply)"""
    if a is b:
        return TRUE
    a2 = a.c if isinstance(a, (Fz, Heap)) else a
    b2 = b.c if isinstance(b, (Fz, Heap)) else b
    if isinstance(a, (Fz, Heap)) and isinstance(b, (Fz, Heap)):
        return same_content(a2, b2)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tm.and_(*[same_val(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    return eq_vals(a, b)


def same_content(a, b):
    if a is b:
        return TRUE
    if isinstance(a, ArrC) and isinstance(b, ArrC):
        if len(a.shape) != len(b.shape):
            return FALSE
        hyp = [tm.eq(x, y) for x, y in zip(a.shape, b.shape)]

        def rec(k, ii):
            if k == len(a.shape):
                return same_val(a.at(*ii), b.at(*ii))
            return tm.forall_i(a.shape[k], lambda i: rec(k + 1, ii + (i,)))
        return tm.and_(*hyp, rec(0, ()))
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        return tm.and_(tm.eq(a.length(), b.length()), tm.forall_i(a.length(), lambda i: same_val(a.at(i), b.at(i))))
    if isinstance(a, DictC) and isinstance(b, DictC) and a.fam is None and b.fam is None and not a.stores and not b.stores:
        if list(a.items) != list(b.items):
            return FALSE
        return tm.and_(*[same_val(a.items[k], b.items[k]) for k in a.items])
    if hasattr(a, "same"):
        return a.same(b)
    raise Unsupported("comparison of %s" % type(a).__name__)


# ------------------------------------------------------------------------------------------------ sequences
class SymSeq:
    """immutable symbolic sequence of length n; keyed ones have distinct elements with an inverse `pos`"""

    def __init__(self, n, at, pos=None, arity=None, has=None, key_sort="V"):
        self.n, self._at, self.pos, self.arity = tm.lift(n), at, pos, arity
        self._has = has

    def at(self, i):
        return self._at(i)

    def has(self, *key):
        if self._has is not None:
            return self._has(*key)
        p = self.pos(*key)
        e = self.at(p)
        e = e if isinstance(e, tuple) else (e,)
        return tm.and_(tm.le(0, p), tm.lt(p, self.n), *[tm.eq(valt(x), valt(k)) for x, k in zip(e, key)])

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    # pandas Index look-alikes
    def tolist(self):
        return SList(SeqC([("seg", self.n, self.at)], keyed=self))

    def to_list(self):
        return self.tolist()

    @property
    def values(self):
        return SArr(ArrC((self.n,), lambda i: self.at(i)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of an index")
        k = idx(i)
        if cval(k) is not None and cval(k) < 0:
            k = tm.add(self.n, k)
        E.require(tm.and_(tm.le(0, k), tm.lt(k, self.n)), "sequence index in range")
        return self.at(k)

    def _vc_len(self):
        return Num(self.n)


class Range(SymSeq):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = tm.sub(hi, lo)
        if not E.known(tm.le(0, n)):
            n = tm.ite(tm.le(0, n), n, 0)
        SymSeq.__init__(self, n, lambda i: Num(tm.add(lo, i)), pos=lambda x: tm.sub(numt(x), lo), has=lambda x: self.inside(x))

    def inside(self, x):
        if not isinstance(x, (int, Num)) or numt(x).sort != "I":
            raise Unsupported("is it a number of the range?")
        return tm.and_(tm.le(self.lo, numt(x)), tm.lt(numt(x), tm.add(self.lo, self.n)))


class SeqC:
    """list content: items and symbolic segments"""
    __slots__ = ("segs", "keyed")

    def __init__(self, segs, keyed=None):
        self.segs = tuple(segs)
        self.keyed = keyed

    def concrete(self):
        return all(s[0] == "item" for s in self.segs)

    def length(self):
        return tm.add(0, *[tm.num(1) if s[0] == "item" else s[1] for s in self.segs])

    def at(self, i):
        k = cval(i)
        if k is not None and self.concrete():
            return self.segs[k][1]
        res = None
        off = tm.num(0)
        parts = []
        for s in self.segs:
            n = tm.num(1) if s[0] == "item" else s[1]
            parts.append((off, n, s))
            off = tm.add(off, n)
        for o, n, s in reversed(parts):
            v = s[1] if s[0] == "item" else s[2](tm.sub(i, o))
            res = v if res is None else ite_val(tm.lt(i, tm.add(o, n)), v, res)
        return res

    def seq(self):
        if self.keyed is not None:
            return self.keyed
        if len(self.segs) == 1 and self.segs[0][0] == "seg":
            return SymSeq(self.segs[0][1], self.segs[0][2])
        return SymSeq(self.length(), self.at)


class SList(Heap):
    @classmethod
    def from_loc(cls, loc):
        o = cls.__new__(cls)
        object.__setattr__(o, "hloc", loc)
        return o

    @staticmethod
    def of(items):
        return SList(SeqC([("item", v) for v in items]))

    def append(self, v):
        c = self.c
        self.put(SeqC(c.segs + (("item", v),)))

    def extend(self, it):
        c = self.c
        if isinstance(it, SList):
            self.put(SeqC(c.segs + it.c.segs))
        elif isinstance(it, SymSeq):
            self.put(SeqC(c.segs + (("seg", it.n, it.at),)))
        else:
            self.put(SeqC(c.segs + tuple(("item", v) for v in it)))

    def insert(self, i, v):
        c = self.c
        if i == 0:
            self.put(SeqC((("item", v),) + c.segs))
        elif c.concrete():
            s = list(c.segs)
            s.insert(i, ("item", v))
            self.put(SeqC(s))
        else:
            raise Unsupported("insert")

    def copy(self):
        return SList(self.c)

    def remove(self, v):
        c = self.c
        k = c.keyed
        if k is None:
            raise Unsupported("remove from a list")
        key = v if isinstance(v, tuple) else (v,)
        E.require(k.has(*key), "removed element is present")
        p = k.pos(*key)
        n2 = tm.sub(k.n, 1)

        def at(i):
            return k.at(tm.ite(tm.lt(i, p), i, tm.add(i, 1)))
        new = SymSeq(n2, at, pos=lambda *q: tm.ite(tm.lt(k.pos(*q), p), k.pos(*q), tm.sub(k.pos(*q), 1)),
                     has=lambda *q: tm.and_(k.has(*q), tm.not_(tm.and_(*[tm.eq(valt(a), valt(b)) for a, b in zip(q, key)]))))
        self.put(SeqC([("seg", n2, at)], keyed=new))

    def pop(self, i=-1):
        c = self.c
        if c.segs and c.segs[-1][0] == "item" and i == -1:
            self.put(SeqC(c.segs[:-1]))
            return c.segs[-1][1]
        if c.segs and c.segs[-1][0] == "seg" and i == -1:
            n, f = c.segs[-1][1], c.segs[-1][2]
            E.require(tm.lt(0, c.length()), "pop from a non-empty list")
            if len(c.segs) == 1 or E.known(tm.lt(0, n)):
                v = f(tm.sub(n, 1))
                if isinstance(v, (Heap, Fz)):
                    raise Unsupported("pop of a compound element")
                self.put(SeqC(c.segs[:-1] + (("seg", tm.sub(n, 1), f),)))
                return v
        raise Unsupported("pop")

    def __iter__(self):
        c = self.c
        if c.concrete():
            return iter([self.item(i, s[1]) for i, s in enumerate(c.segs)])
        raise Unsupported("native iteration over a symbolic list")

    def item(self, i, v):
        return thaw(v, SubCell(self.hloc, lambda cc: fz_content(cc.segs[i][1]), no_write)) if isinstance(v, Fz) else v

    def __getitem__(self, i):
        c = self.c
        if isinstance(i, slice):
            if c.concrete() and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SList(SeqC(c.segs[i]))
            raise Unsupported("slice of a symbolic list")
        k = idx(i)
        kv = cval(k)
        if kv is not None and c.concrete():
            try:
                return self.item(kv, c.segs[kv][1])
            except IndexError as e:
                raise ModelledError(IndexError, "list index out of range") from e
        if kv is not None and kv < 0:
            k = tm.add(c.length(), k)
        E.require(tm.and_(tm.le(0, k), tm.lt(k, c.length())), "list index in range")
        v = c.at(k)
        return thaw(v, SubCell(self.hloc, lambda cc: fz_content(cc.at(k)), no_write)) if isinstance(v, Fz) else v

    def __setitem__(self, i, v):
        c = self.c
        if isinstance(i, int) and c.concrete():
            s = list(c.segs)
            s[i] = ("item", v)
            self.put(SeqC(s))
            return
        raise Unsupported("list item assignment")

    def __add__(self, o):
        if isinstance(o, SList):
            return SList(SeqC(self.c.segs + o.c.segs))
        if _is_arr(o):
            return NotImplemented
        return SList(SeqC(self.c.segs + tuple(("item", v) for v in o)))

    def __mul__(self, k):
        if self.c.concrete() and len(self.c.segs) == 1:
            v = self.c.segs[0][1]
            return SList(SeqC([("seg", idx(k), lambda j: v)]))
        raise Unsupported("list repetition")

    def __eq__(self, o):
        if isinstance(o, SList) and self.c.concrete() and o.c.concrete():
            a, b = list(self), list(o)
            return mkbool(tm.and_(*[eq_vals(x, y) for x, y in zip(a, b)])) if len(a) == len(b) else False
        if o is None:
            return False
        raise Unsupported("list comparison")

    __hash__ = object.__hash__

    def index(self, v):
        raise Unsupported("list.index")

    def sort(self, **kw):
        raise Unsupported("list.sort")

    def _vc_len(self):
        v = self.c.length()
        k = cval(v)
        return k if k is not None else Num(v)

    def _vc_truth(self):
        return tm.lt(0, self.c.length())

    def __bool__(self):
        return E.branch(self._vc_truth())


def fz_content(v):
    return v.c


def no_write(c, new):
    raise Unsupported("write into an element of a symbolic sequence")


def _is_arr(o):
    return hasattr(o, "_vc_array")


def to_seq(x):
    """SymSeq of an iterable, or a Python list for concrete ones"""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SList):
        return list(x) if x.c.concrete() else x.c.seq()
    if isinstance(x, SArr):
        c = x.c
        n = cval(c.shape[0])
        if len(c.shape) == 1:
            if n is not None and n <= 16:
                return [c.at(tm.num(i)) for i in range(n)]
            return SymSeq(c.shape[0], lambda i: c.at(i))
        return SymSeq(c.shape[0], lambda i: SArr(ArrC(c.shape[1:], lambda *j: c.at(i, *j))))
    if isinstance(x, SDict):
        return x.keys_seq()
    if isinstance(x, SSet):
        return x.enumerate()
    if hasattr(x, "_vc_seq"):
        return x._vc_seq()
    if isinstance(x, Sym) or isinstance(x, Poison):
        raise Unsupported("iteration over %s" % type(x).__name__)
    return list(x)


# ------------------------------------------------------------------------------------------------ dicts
class Fam:
    """family of values over a symbolic set of keys.  has(*key)->B; val(*key)->frozen value; enumeration n/at/pos"""

    def __init__(self, seq, val, arity, tup, kw=None):
        self.seq, self.val, self.arity, self.tup = seq, val, arity, tup

    def has(self, *k):
        return self.seq.has(*k)


class DictC:
    __slots__ = ("items", "fam", "stores")

    def __init__(self, items=None, fam=None, stores=()):
        self.items, self.fam, self.stores = items or {}, fam, tuple(stores)

    def like(self, items, fam, stores):
        return DictC(items, fam, stores)

    def readable(self, k=None):
        """dicts under construction in a loop refuse reads of what other iterations stored"""


class HvDict(DictC):
    """dict under construction in a loop: keys stored by earlier iterations are unknown.  `elem` is the loop element (its
    own key is untouched by the other iterations); `lists`: a fixed set of keys whose lists are appended to"""
    __slots__ = ("elem", "lists", "hv")

    def like(self, items, fam, stores):
        h = HvDict(items, fam, stores)
        h.elem, h.lists, h.hv = self.elem, self.lists, self.hv
        return h

    def readable(self, k=None):
        if self.lists:
            return
        if k is not None and self.elem is not None and len(k) == len(self.elem):
            try:
                if all(valt(a) is valt(b) for a, b in zip(k, self.elem)):
                    return
            except Unsupported:
                pass
        raise Unsupported("a loop reads entries of a dict that earlier iterations may have stored")


def split_key(k):
    return (tuple(k), True) if isinstance(k, tuple) else ((k,), False)


def concrete_key(k):
    if isinstance(k, tuple):
        return all(concrete_key(x) for x in k)
    return isinstance(k, (str, int, float, bool, type(None), type))


def key_eq(a, b):
    if len(a) != len(b):
        return FALSE
    return tm.and_(*[eq_vals(x, y) for x, y in zip(a, b)])


HELD = weakref.WeakKeyDictionary()      # location of a dict -> the elements handed out


class SDict(Heap):
    default = None

    @classmethod
    def from_loc(cls, loc):
        o = cls.__new__(cls)
        object.__setattr__(o, "hloc", loc)
        return o

    def __init__(self, c=None, loc=None):
        Heap.__init__(self, c if c is not None else DictC(), loc)

    def _vc_has(self, key):
        c = self.c
        k, tup = split_key(key)
        c.readable(k)
        alts = []
        for kk in c.items:
            k2, t2 = split_key(kk)
            if t2 == tup and len(k2) == len(k):
                alts.append(key_eq(k, k2))
        for k2, v in c.stores:
            if len(k2) == len(k):
                alts.append(key_eq(k, k2))
        if c.fam is not None and c.fam.arity == len(k) and c.fam.tup == tup:
            alts.append(c.fam.has(*k))
        return tm.or_(*alts)

    def __getitem__(self, key):
        c = self.c
        if not c.stores and c.fam is None and concrete_key(key):
            c.readable(split_key(key)[0])
            try:
                v = c.items[key]
            except KeyError:
                return self.missing(key)
            return self.wrap_item(key, v)
        h = self._vc_has(key)
        if self.default is not None and not E.known(h):
            if E.branch(h):
                pass
            else:
                return self.missing(key)
        else:
            E.require(h, "dictionary key is present")
        k, tup = split_key(key)
        v = read_key(c, k)
        if isinstance(v, Fz):
            return thaw(v, SubCell(self.hloc, lambda cc: read_key(cc, k).c, lambda cc, new: write_key(cc, k, Fz(v.cls, new))))
        return v

    def wrap_item(self, key, v):
        if isinstance(v, Fz):
            sub = SubCell(self.hloc, lambda cc: cc.items[key].c, lambda cc, new: DictC({**cc.items, key: Fz(v.cls, new)}, cc.fam, cc.stores))
            HELD.setdefault(self.hloc, []).append((key, weakref.ref(sub)))
            return thaw(v, sub)
        return v

    def missing(self, key):
        if self.default is None:
            raise ModelledError(KeyError, repr(key))
        v = self.default()
        self[key] = v
        return self[key] if isinstance(v, Heap) else v          # stored by value under a symbolic key: hand out the stored one

    def __setitem__(self, key, v):
        c = self.c
        if c.fam is None and not c.stores and concrete_key(key):
            for k, r in HELD.get(self.hloc, ()):
                if k == key and r() is not None and r() is not getattr(v, "hloc", None):
                    r().detach()
            self.put(c.like({**c.items, key: v}, None, ()))
            return
        k, tup = split_key(key)
        self.put(write_key(c, k, freeze(v) if isinstance(v, Heap) else v))

    def __delitem__(self, key):
        c = self.c
        if c.fam is None and not c.stores and concrete_key(key):
            if key not in c.items:
                raise ModelledError(KeyError, repr(key))
            self.put(DictC({k: v for k, v in c.items.items() if k != key}))
            return
        if c.fam is not None and not c.stores and not c.items and c.fam.arity == 1 and not c.fam.tup and not isinstance(key, tuple):
            E.require(self._vc_has(key), "dictionary key is present")
            fam, k = c.fam, split_key(key)[0]

            def gone(*a):
                raise Unsupported("enumeration of a dict after del")
            seq = SymSeq(E.fresh("n_keys", "I"), gone, pos=gone, has=lambda f: tm.and_(fam.has(f), tm.not_(key_eq((f,), k))))
            self.put(c.like({}, Fam(seq, fam.val, 1, False), ()))
            return
        raise Unsupported("del on a symbolic dict")

    def get(self, key, default=None):
        h = self._vc_has(key)
        if E.branch(h):
            return self[key]
        return default

    def setdefault(self, key, d=None):
        if not E.branch(self._vc_has(key)):
            self[key] = d
        return self[key]

    def pop(self, key, *d):
        c = self.c
        if c.fam is None and not c.stores and concrete_key(key):
            if key in c.items:
                v = self[key]
                self.put(DictC({k: x for k, x in c.items.items() if k != key}))
                return v
            if d:
                return d[0]
            raise ModelledError(KeyError, repr(key))
        raise Unsupported("pop")

    def copy(self):
        c = self.c
        return type(self)(c) if self.default is None else self._copy_default()

    def _copy_default(self):
        o = type(self)(self.c)
        o.default = self.default
        return o

    def concrete(self):
        c = self.c
        return c.fam is None and not c.stores

    def keys_seq(self):
        c = self.c
        c.readable()
        if self.concrete():
            return list(c.items)
        if c.fam is not None and not c.stores and not c.items:
            return c.fam.seq
        raise Unsupported("keys of an updated symbolic dict")

    def keys(self):
        return DictView(self, "keys")

    def values(self):
        return DictView(self, "values")

    def items(self):
        return DictView(self, "items")

    def update(self, o):
        if isinstance(o, SDict) and o.concrete():
            for k, v in o.c.items.items():
                self[k] = v
            return
        raise Unsupported("dict.update")

    def __iter__(self):
        if self.concrete():
            return iter(list(self.c.items))
        raise Unsupported("native iteration over a symbolic dict")

    def _vc_len(self):
        self.c.readable()
        if self.concrete():
            return len(self.c.items)
        if not self.c.stores and not self.c.items:
            return Num(self.c.fam.seq.n)
        raise Unsupported("len of an updated symbolic dict")

    def _vc_truth(self):
        return tm.ne(numt(self._vc_len()), 0)

    def __bool__(self):
        return E.branch(self._vc_truth())

    __hash__ = object.__hash__


def read_key(c, k):
    res = None
    if c.fam is not None:
        res = c.fam.val(*k)
    for kk, v in c.items.items():
        k2, _ = split_key(kk)
        if len(k2) == len(k):
            res = v if res is None else ite_val(key_eq(k, k2), v, res)
    for k2, v in c.stores:
        if len(k2) == len(k):
            e = key_eq(k, k2)
            res = v if res is None else ite_val(e, v, res)
    return res


def write_key(c, k, v):
    if c.stores and len(c.stores[-1][0]) == len(k) and key_eq(c.stores[-1][0], k) is TRUE:
        return c.like(c.items, c.fam, c.stores[:-1] + ((k, v),))
    return c.like(c.items, c.fam, c.stores + ((k, v),))


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def _vc_seq(self):
        d = self.d
        ks = d.keys_seq()
        if isinstance(ks, list):
            if self.what == "keys":
                return ks
            if self.what == "values":
                return [d[k] for k in ks]
            return [(k, d[k]) for k in ks]
        if self.what == "keys":
            return ks
        c = d.c

        def val(i):
            k = ks.at(i)
            k = k if isinstance(k, tuple) else (k,)
            v = c.fam.val(*k)
            return thaw(v, SubCell(d.hloc, lambda cc: read_key(cc, k).c, no_write)) if isinstance(v, Fz) else v
        r = SymSeq(ks.n, val) if self.what == "values" else SymSeq(ks.n, lambda i: (ks.at(i), val(i)))
        r.of_keys = ks
        return r

    def _vc_has(self, key):
        if self.what != "keys":
            raise Unsupported("membership in dict values")
        return self.d._vc_has(key)

    def _vc_len(self):
        return self.d._vc_len()

    def __iter__(self):
        s = self._vc_seq()
        if isinstance(s, list):
            return iter(s)
        raise Unsupported("native iteration over a symbolic dict")


class SSet:
    """immutable view of a set: membership plus, when known, an enumeration"""

    def __init__(self, has, seq=None, conc=None, src=None):
        self.has, self.seq, self.conc, self.src = has, seq, conc, src

    def _vc_has(self, v):
        return self.has(valt(v))

    def intersection(self, o):
        o = mkset(o)
        return SSet(lambda v: tm.and_(self.has(v), o.has(v)))

    def union(self, o):
        o = mkset(o)
        return SSet(lambda v: tm.or_(self.has(v), o.has(v)))

    def difference(self, o):
        o = mkset(o)
        return SSet(lambda v: tm.and_(self.has(v), tm.not_(o.has(v))))
    __and__, __or__, __sub__ = intersection, union, difference

    def issubset(self, o):
        o = mkset(o)
        return mkbool(tm.forall("V", lambda v: tm.implies(self.has(v), o.has(v))))

    def enumerate(self):
        """any order: fresh enumeration of the members"""
        n = E.fresh("setlen", "I")
        at, pos, has = E.ffun("setat", "V"), E.ffun("setpos", "I"), self.has
        if self.src is not None:            # the members are the elements of a list: name membership and a place of each member
            has, place, s = E.ffun("member", "B"), E.ffun("place", "I"), self.src
            if isinstance(s, SeqC) and all(x[0] == "seg" for x in s.segs):
                for _, m, f in s.segs:
                    E.assume(tm.forall_i(m, lambda i: has(valt(f(i)))))
                    E.assume(tm.implies(tm.lt(0, m), tm.lt(0, n)))
            else:
                E.assume(tm.forall_i(s.length(), lambda i: has(valt(s.at(i)))))
            E.assume(tm.forall("V", lambda v: tm.implies(has(v), tm.and_(tm.le(0, place(v)), tm.lt(place(v), s.length()), tm.eq(valt(s.at(place(v))), v)))))
            E.log.append(("members", n, has, pos, at))
        E.assume(tm.le(0, n))
        E.assume(tm.forall_i(n, lambda i: tm.and_(has(at(i)), tm.eq(pos(at(i)), i))))
        E.assume(tm.forall("V", lambda v: tm.implies(has(v), tm.and_(tm.le(0, pos(v)), tm.lt(pos(v), n), tm.eq(at(pos(v)), v)))))
        return SymSeq(n, lambda i: SVal(at(i)), pos=lambda v: pos(valt(v)), has=lambda v: has(valt(v)))

    def _vc_len(self):
        return Num(self.enumerate().n)

    def __iter__(self):
        if self.conc is not None:
            return iter(list(self.conc))
        raise Unsupported("native iteration over a symbolic set")


def mkset(x):
    if isinstance(x, SSet):
        return x
    s = to_seq(x)
    if isinstance(s, list):
        return SSet(lambda v: tm.or_(*[tm.eq(v, valt(e)) for e in s]), conc=s)
    if s.pos is not None:
        return SSet(lambda v: s.has(SVal(v)), seq=s)
    return SSet(lambda v: tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, s.n), tm.eq(valt(s.at(i)), v))), src=x.c if isinstance(x, SList) else None)


# ------------------------------------------------------------------------------------------------ arrays
class ArrC:
    """array content: shape, element function, point stores (latest last); `index` is the pandas index of a Series"""
    __slots__ = ("shape", "fn", "stores", "index", "sorted", "name")

    def __init__(self, shape, fn, stores=(), index=None, sorted=False, name=None):
        self.name = name
        self.shape, self.fn, self.stores, self.index, self.sorted = tuple(tm.lift(s) for s in shape), fn, tuple(stores), index, sorted

    def at(self, *i):
        v = self.fn(*i)
        for ii, x in self.stores:
            v = ite_val(tm.and_(*[tm.eq(a, b) for a, b in zip(i, ii)]), x, v)
        return v


def const_arr(n, v):
    return ArrC((n,), lambda *i: v)


class Slice:
    pass


class SArr(Heap):
    _vc_array = True
    __array_priority__ = 1000

    @classmethod
    def from_loc(cls, loc):
        o = cls.__new__(cls)
        object.__setattr__(o, "hloc", loc)
        return o

    # ---- shape
    @property
    def shape(self):
        return tuple(_pyint(s) for s in self.c.shape)

    @property
    def ndim(self):
        return len(self.c.shape)

    @property
    def size(self):
        return _pyint(tm.mul(*self.c.shape))

    def _vc_len(self):
        return _pyint(self.c.shape[0])

    def like(self, fn, shape=None, index="same"):
        c = self.c
        return type(self)._new(ArrC(shape or c.shape, fn, index=c.index if index == "same" else index))

    @classmethod
    def _new(cls, c):
        return cls(c)

    # ---- elementwise
    def _bin(self, o, f):
        a = self.c
        if isinstance(o, SArr):
            b = o.c
            if a.index is not None and b.index is not None and not same_index(a.index, b.index):
                raise Unsupported("arithmetic of Series with different indexes")
            if len(a.shape) != len(b.shape):
                if len(a.shape) == 2 and len(b.shape) == 1:
                    E.require(tm.eq(a.shape[1], b.shape[0]), "broadcast shapes agree")
                    return self.like(lambda i, j: f(a.at(i, j), b.at(j)))
                raise Unsupported("broadcasting")
            for x, y in zip(a.shape, b.shape):
                if x is not y:
                    E.require(tm.eq(x, y), "operands have the same length")
            cls = type(self) if a.index is not None or b.index is None else type(o)
            return cls._new(ArrC(a.shape, lambda *i: f(a.at(*i), b.at(*i)), index=a.index or b.index))
        if isinstance(o, SList):
            return self._bin(asarray(o), f)
        return self.like(lambda *i: f(a.at(*i), o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: cell_op(a, b, lambda x, y: x + y))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: cell_op(b, a, lambda x, y: x + y))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: num_of(a) - num_of(b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: num_of(b) - num_of(a))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: num_of(a) * num_of(b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: num_of(a) / num_of(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: num_of(b) / num_of(a))

    def __pow__(self, k):
        c = self.c
        return self.like(lambda *i: num_of(c.at(*i)) ** k)

    def _inplace(self, r):
        c = self.c
        if len(r.c.shape) != len(c.shape):
            raise Unsupported("in-place operation changing the shape")
        for a, b in zip(r.c.shape, c.shape):
            if a is not b:
                E.require(tm.eq(a, b), "in-place operands have the same shape")
        self.put(ArrC(c.shape, r.c.at, index=c.index))
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __neg__(self):
        c = self.c
        return self.like(lambda *i: -num_of(c.at(*i)))

    def __abs__(self):
        c = self.c
        return self.like(lambda *i: abs(num_of(c.at(*i))))

    def __invert__(self):
        c = self.c
        return self.like(lambda *i: mkbool(tm.not_(boolt(c.at(*i)))))

    def __and__(self, o):
        return self._bin(o, lambda a, b: mkbool(tm.and_(boolt(a), boolt(b))))
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: mkbool(tm.or_(boolt(a), boolt(b))))
    __ror__ = __or__

    def __eq__(self, o):
        return self._bin(o, lambda a, b: veq(a, b))

    def __ne__(self, o):
        return self._bin(o, lambda a, b: not_(veq(a, b)))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: vcmp(a, b, "<"))

    def __le__(self, o):
        return self._bin(o, lambda a, b: vcmp(a, b, "<="))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: vcmp(a, b, ">"))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: vcmp(a, b, ">="))

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("truth of an array")

    def __iter__(self):
        n = cval(self.c.shape[0])
        if n is not None:
            return iter([self[i] for i in range(n)])
        raise Unsupported("native iteration over a symbolic array")

    # ---- indexing
    def __getitem__(self, k):
        c = self.c
        if isinstance(k, tuple):
            if len(k) == len(c.shape) and all(not isinstance(x, slice) for x in k):
                ii = [norm_index(x, n) for x, n in zip(k, c.shape)]
                return c.at(*ii)
            if len(k) == 2 and len(c.shape) == 2:
                a, b = k
                if isinstance(a, slice) and a == slice(None) and not isinstance(b, slice):
                    j = norm_index(b, c.shape[1])
                    return view(SArr(ArrC((c.shape[0],), lambda i: c.at(i, j))), self)
                if isinstance(b, slice) and b == slice(None) and not isinstance(a, slice):
                    i0 = norm_index(a, c.shape[0])
                    return view(SArr(ArrC((c.shape[1],), lambda j: c.at(i0, j))), self)
                if isinstance(a, slice) and isinstance(b, slice):
                    la, na = norm_slice(a, c.shape[0])
                    lb, nb = norm_slice(b, c.shape[1])
                    return view(SArr(ArrC((na, nb), lambda i, j: c.at(tm.add(i, la), tm.add(j, lb)))), self)
            raise Unsupported("array index %r" % (k,))
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("strided slice")
            lo, n = norm_slice(k, c.shape[0])
            return view(SArr(ArrC((n,) + c.shape[1:], lambda i, *j: c.at(tm.add(i, lo), *j), sorted=c.sorted)), self)
        if isinstance(k, (SArr, SymSeq, SList)) or hasattr(k, "_vc_seq"):
            return take(self, k)
        i0 = norm_index(k, c.shape[0])
        if len(c.shape) == 1:
            return c.at(i0)
        return view(SArr(ArrC(c.shape[1:], lambda *j: c.at(i0, *j))), self)

    def __setitem__(self, k, v):
        c = self.c
        if isinstance(k, tuple) and len(k) == len(c.shape) and all(not isinstance(x, slice) for x in k):
            ii = tuple(norm_index(x, n) for x, n in zip(k, c.shape))
        elif not isinstance(k, (tuple, slice, SArr, SList, SymSeq)) and len(c.shape) == 1:
            ii = (norm_index(k, c.shape[0]),)
        elif isinstance(k, slice) and k == slice(None) and isinstance(v, SArr):
            vc = v.c
            E.require(tm.eq(vc.shape[0], c.shape[0]), "assigned array has the same length")
            self.put(ArrC(c.shape, vc.at, index=c.index))
            return
        elif isinstance(k, slice) and k == slice(None) and not _is_arr(v):
            self.put(ArrC(c.shape, lambda *i: v, index=c.index))
            return
        elif isinstance(k, (SArr, SList, SymSeq)) and not _is_arr(v) and len(c.shape) == 1:
            s = to_seq(k)
            if isinstance(s, list):
                for x in s:
                    self[x] = v
                return
            first = s.at(tm.fresh("pp", "I"))
            if isinstance(first, (bool, SBool)):
                E.require(tm.eq(s.n, c.shape[0]), "mask has the same length")
                self.put(ArrC(c.shape, lambda i: ite_val(boolt(s.at(i)), v, c.at(i)), index=c.index))
                return
            E.require(tm.forall_i(s.n, lambda j: tm.and_(tm.le(0, numt(s.at(j))), tm.lt(numt(s.at(j)), c.shape[0]))), "indices in range")
            hit, by = E.ffun("assigned", "B"), E.ffun("assigned_by", "I")
            E.assume(tm.forall_i(s.n, lambda j: hit(numt(s.at(j)))))
            E.assume(tm.forall_i(c.shape[0], lambda i: tm.implies(hit(i), tm.and_(tm.le(0, by(i)), tm.lt(by(i), s.n), tm.eq(numt(s.at(by(i))), i)))))
            self.put(ArrC(c.shape, lambda i: ite_val(hit(i), v, c.at(i)), index=c.index))
            return
        else:
            raise Unsupported("array assignment")
        if _is_arr(v) or isinstance(v, SList):
            raise Unsupported("array assigned to an element")
        self.put(ArrC(c.shape, c.fn, c.stores + ((ii, v),), c.index))

    # ---- methods
    def copy(self, *a, **k):
        return type(self)._new(self.c)

    def astype(self, dtype, *a, **k):
        name = dtype if isinstance(dtype, str) else getattr(dtype, "__name__", str(dtype))
        name = name.rpartition(".")[2].removeprefix("b_")
        if a or set(k) - {"copy"}:
            raise Unsupported("astype options")
        v = self.c.at(*[tm.sym("anyitem", "I")] * len(self.c.shape))
        whole = tm.num(0) in self.c.shape or isinstance(v, (bool, SBool)) or (isinstance(v, Num) and v.t.sort == "I" and v.nan is tm.FALSE)
        if not (name.startswith(("float", "double", "object")) or (name.startswith(("int", "uint")) and whole) or (name.startswith("bool") and isinstance(v, (bool, SBool)))):
            raise Unsupported("astype(%s)" % name)
        return type(self)._new(self.c)

    def tolist(self):
        c = self.c
        if len(c.shape) != 1:
            raise Unsupported("tolist of a matrix")
        return SList(SeqC([("seg", c.shape[0], c.at)]))

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    def ravel(self):
        return view(self.flatten(), self)

    @property
    def T(self):
        c = self.c
        if len(c.shape) == 1:
            return self
        return view(SArr(ArrC(tuple(reversed(c.shape)), lambda *i: c.at(*reversed(i)))), self)

    def any(self, *a, **k):
        c = self.c
        return mkbool(exists_idx(c.shape, lambda *i: boolt(c.at(*i))))

    def all(self, *a, **k):
        c = self.c
        return mkbool(tm.not_(exists_idx(c.shape, lambda *i: tm.not_(boolt(c.at(*i))))))

    def sum(self, axis=None, **k):
        c = self.c
        if axis is None or len(c.shape) == 1:
            return asum(c)
        if len(c.shape) == 2:
            ax = axis % 2 if isinstance(axis, int) else axis
            if ax == 1:
                return SArr(ArrC((c.shape[0],), lambda i: asum(ArrC((c.shape[1],), lambda j: c.at(i, j)))))
            return SArr(ArrC((c.shape[1],), lambda j: asum(ArrC((c.shape[0],), lambda i: c.at(i, j)))))
        raise Unsupported("sum")

    def mean(self, axis=None, **k):
        c = self.c
        if axis is None or len(c.shape) == 1:
            return amean(c)
        if len(c.shape) == 2:
            if axis in (1, -1):
                return SArr(ArrC((c.shape[0],), lambda i: amean(ArrC((c.shape[1],), lambda j: c.at(i, j)))))
            return SArr(ArrC((c.shape[1],), lambda j: amean(ArrC((c.shape[0],), lambda i: c.at(i, j)))))
        raise Unsupported("mean")

    def max(self, axis=None, **k):
        if axis is not None and self.ndim > 1:
            raise Unsupported("max along an axis")
        return ared("max", self.c)

    def min(self, axis=None, **k):
        if axis is not None and self.ndim > 1:
            raise Unsupported("min along an axis")
        return ared("min", self.c)

    def std(self, axis=None, ddof=0, **k):
        if axis is not None and self.ndim > 1:
            raise Unsupported("std along an axis")
        return nsqrt_(avar(self.c, ddof))

    def var(self, axis=None, ddof=0, **k):
        return avar(self.c, ddof)

    def round(self, *a):
        raise Unsupported("round")

    def __repr__(self):
        return "SArr(shape=%r)" % (self.c.shape,)


def same_index(a, b):
    """do the two row indexes carry the same labels in the same order?"""
    ia, ib = getattr(a, "ident", None), getattr(b, "ident", None)
    if a is b or (ia is not None and ia == ib):
        return True
    if a is None or b is None:
        return False
    if a.labels is None and b.labels is None:
        return a.n is b.n or E.known(tm.eq(a.n, b.n))
    if a.n is b.n:
        x = tm.sym("anyitem", "I")
        u, v = a.at(x), b.at(x)
        return isinstance(u, (Num, SVal)) and isinstance(v, (Num, SVal)) and type(u) is type(v) and u.t is v.t
    return False


def nsqrt_(x):
    from .core import nsqrt
    return nsqrt(x)


def _pyint(t):
    k = cval(t)
    return k if k is not None else Num(t)


def cell_op(a, b, f):
    if isinstance(a, (SVal, str)) and isinstance(b, (SVal, str)):
        return SVal(tm.app("concat", [valt(a), valt(b)], "V")) if (isinstance(a, str) or isinstance(b, str) or True) and not _numeric_cell(a, b) else f(num_of(a), num_of(b))
    return f(num_of(a), num_of(b))


def _numeric_cell(a, b):
    return False


def veq(a, b):
    if b is None:
        return False if not isinstance(a, SVal) else mkbool(tm.eq(a.t, valt(None)))
    if isinstance(a, SVal) and (isinstance(b, (Num, SBool)) or is_num(b)):
        return mkbool(tm.eq(rv(a.t), numt(b)))
    if isinstance(b, SVal) and (isinstance(a, (Num, SBool)) or is_num(a)):
        return mkbool(tm.eq(rv(b.t), numt(a)))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(tm.eq(boolt(a), boolt(b)))
    return a == b if not (isinstance(a, (str,)) and isinstance(b, SVal)) else b == a


def vcmp(a, b, op):
    a, b = num_of(a), num_of(b)
    return {"<": a.__lt__, "<=": a.__le__, ">": a.__gt__, ">=": a.__ge__}[op](b)


def norm_index(k, n):
    t = idx(k)
    v = cval(t)
    if v is not None and v < 0:
        t = tm.add(n, t)
    E.require(tm.and_(tm.le(0, t), tm.lt(t, n)), "array index in range")
    return t


def norm_slice(s, n):
    """(start, length) of a slice; bounds given must lie inside the array (obligation)"""
    def one(x, dflt):
        if x is None:
            return dflt
        t = idx(x)
        v = cval(t)
        if v is not None and v < 0:
            t = tm.add(n, t)
        return t
    if s.step is not None and s.step != 1:
        raise Unsupported("strided slice")
    lo, hi = one(s.start, tm.num(0)), one(s.stop, n)
    if not (lo is tm.num(0) or E.known(tm.and_(tm.le(0, lo), tm.le(lo, n)))):
        raise Unsupported("slice start not provably inside")
    if hi is not n:
        if E.known(tm.le(n, hi)):
            hi = n
        elif not E.known(tm.and_(tm.le(lo, hi), tm.le(hi, n))):
            # clipped
            hi = tm.ite(tm.lt(n, hi), n, tm.ite(tm.lt(hi, lo), lo, hi))
    return lo, tm.sub(hi, lo)


def take(arr, k):
    """fancy indexing by an integer sequence, or selection by a boolean mask"""
    c = arr.c
    s = to_seq(k)
    if isinstance(s, list):
        vals = [arr[x] for x in s]
        return SArr(ArrC((tm.num(len(vals)),), lambda i: SeqC([("item", v) for v in vals]).at(i)))
    probe = s.at(tm.fresh("pp", "I"))
    if isinstance(probe, (bool, SBool)):
        n, sel, _ = select(lambda i: boolt(s.at(i)), c.shape[0])
        return SArr(ArrC((n,) + c.shape[1:], lambda i, *j: c.at(sel(i), *j)))
    inside = tm.forall_i(s.n, lambda j: tm.and_(tm.le(0, numt(s.at(j))), tm.lt(numt(s.at(j)), c.shape[0])))
    at = lambda i: numt(s.at(i))
    if not E.known(inside, ms=1500):
        # negative indices count from the end
        m = c.shape[0]
        E.require(tm.forall_i(s.n, lambda j: tm.and_(tm.le(tm.neg(m), numt(s.at(j))), tm.lt(numt(s.at(j)), m))), "indices in range")
        at = lambda i: tm.ite(tm.lt(numt(s.at(i)), 0), tm.add(numt(s.at(i)), m), numt(s.at(i)))
    else:
        E.require(inside, "indices in range")
    return SArr(ArrC((s.n,) + c.shape[1:], lambda i, *j: c.at(at(i), *j)))


def select(guard, n):
    """rows satisfying guard, in order: (count, sel, pos) with the defining facts"""
    key = (n, guard(tm.sym("anyitem", "I")))
    m = E.dfun("cnt", key, "I")()
    sel, pos = E.dfun("sel", key, "I"), E.dfun("selpos", key, "I")
    E.assume(tm.and_(tm.le(0, m), tm.le(m, n)))
    count = tm.mk_sum(n, lambda i: tm.indicator(guard(i)))
    E.assume(tm.eq(m, count))
    tm.SELECTED[m], tm.SELPOS[m] = (n, guard, sel), pos
    ctx = m.args[1:]
    tm.REWRITE[m.args[0]] = lambda args: count if args == ctx else None
    E.assume(tm.forall_i(m, lambda j: tm.and_(tm.le(0, sel(j)), tm.lt(sel(j), n), guard(sel(j)), tm.eq(pos(sel(j)), j))))
    E.assume(tm.forall_i(n, lambda i: tm.implies(guard(i), tm.and_(tm.le(0, pos(i)), tm.lt(pos(i), m), tm.eq(sel(pos(i)), i)))))
    E.assume(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, m)), tm.lt(sel(i), sel(j))))))
    return m, sel, pos


def exists_idx(shape, f):
    if len(shape) == 1:
        b = f(tm.sym("anyitem", "I"))
        if b is TRUE:
            return tm.lt(0, shape[0])
        if b is FALSE:
            return FALSE
        return tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, shape[0]), f(i)))
    return tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, shape[0]), exists_idx(shape[1:], lambda *j: f(i, *j))))


def asum(c):
    if len(c.shape) == 2:
        return asum(ArrC((c.shape[0],), lambda i: asum(ArrC((c.shape[1],), lambda j: c.at(i, j)))))
    nan = exists_nan(c)
    return Num(tm.mk_sum(c.shape[0], lambda i: num_of(c.at(i)).t), nan)


def exists_nan(c):
    p = [tm.fresh("pn", "I") for _ in c.shape]
    if nant(c.at(*p)) is FALSE:
        return FALSE
    return exists_idx(c.shape, lambda *i: nant(c.at(*i)))


def amean(c):
    n = tm.mul(*c.shape)
    s = asum(c)
    return s / Num(n) if not E.known(tm.lt(0, n)) else Num(tm.div(s.t, n), s.nan)


def avar(c, ddof=0):
    if len(c.shape) != 1:
        raise Unsupported("variance of a matrix")
    n = c.shape[0]
    m = amean(c)
    s = tm.mk_sum(n, lambda i: tm.power(tm.sub(num_of(c.at(i)).t, m.t), 2))
    d = tm.sub(n, numt(ddof))
    if E.known(tm.lt(0, d)):
        return Num(tm.div(s, d), m.nan)
    return Num(s, m.nan) / Num(d)


def ared(kind, c):
    n = tm.mul(*c.shape)
    E.require(tm.lt(0, n), "%s of a non-empty array" % kind)
    nan = exists_nan(c)
    if len(c.shape) == 1:
        return Num(tm.mk_red(kind, c.shape[0], lambda i: (TRUE, num_of(c.at(i)).t)), nan)
    if len(c.shape) == 2:
        return Num(tm.mk_red(kind, c.shape[0], lambda i: (TRUE, tm.mk_red(kind, c.shape[1], lambda j: (TRUE, num_of(c.at(i, j)).t)))), nan)
    raise Unsupported("reduction")


def asarray(x):
    if isinstance(x, SArr):
        return x if type(x) is SArr else view(SArr(ArrC(x.c.shape, x.c.at)), x)
    if isinstance(x, (Num, int, float, SVal)):
        return x
    s = to_seq(x)
    if isinstance(s, list):
        if not s:
            return SArr(ArrC((tm.num(0),), lambda *i: Num(0)))
        if isinstance(s[0], (SArr, SList, tuple)):
            rows = [asarray(r) for r in s]
            w = rows[0].c.shape[0]
            sc = SeqC([("item", Fz(SArr, r.c)) for r in rows])
            return SArr(ArrC((tm.num(len(s)), w), lambda i, j: sc.at(i).c.at(j)))
        sc = SeqC([("item", v) for v in s])
        return SArr(ArrC((tm.num(len(s)),), sc.at))
    probe = s.at(tm.fresh("pp", "I"))
    if isinstance(probe, (tuple, Fz, Heap)):
        raise Unsupported("array of compound elements")
    return SArr(ArrC((s.n,), s.at))


def token(c, n=None):
    """V-sorted term standing for the whole contents of a 1-D array (extensional)"""
    i = tm.fresh("i", "I")
    v = c.at(i)
    if isinstance(v, (SVal, str)):
        body = (valt(v),)
    elif isinstance(v, (bool, SBool)):
        body = (boolt(v),)
    else:
        v = asnum(v)
        body = (v.t, v.nan) if v.nan is not FALSE else (v.t,)
    return tm.mk_bind("arr%d%s" % (len(body), body[0].sort.replace("I", "R")), (c.shape[0],), "I", i, body, "V")
