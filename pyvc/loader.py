"""Loads the package's modules from /repo's working tree (through rewrite.py) into the symbolic world."""
import inspect
import builtins as _b
import os
import types

from . import rewrite as rw
from . import terms as tm
from . import vc
from .core import (E, FALSE, LINES, NAN, TRUE, AttrCell, Heap, ModelledError, Num, Poison, SBool, SVal, Sym, Unsupported, asnum,
                   boolt, journaled_setattr, mkbool, numt, valt)
from .values import (ArrC, DictC, Fam, Fz, Range, SArr, SDict, SList, SSet, SeqC, SymSeq, asarray, cval, freeze, idx, ite_val,
                     mkset, num_of, to_seq)

REPO = os.environ.get("VC_REPO", "/repo")


# ------------------------------------------------------------------------------------------------ builtins
def b_len(x):
    if hasattr(x, "_vc_len"):
        return x._vc_len()
    return _b.len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi = (tm.num(0), idx(a[0])) if len(a) == 1 else (idx(a[0]), idx(a[1]))
    if len(a) > 2 and a[2] != 1:
        raise Unsupported("range with a step")
    if cval(lo) is not None and cval(hi) is not None:
        return range(cval(lo), cval(hi))
    return Range(lo, hi)


def b_enumerate(it, start=0):
    s = to_seq(it)
    if isinstance(s, list):
        return enumerate(s, start)
    return SymSeq(s.n, lambda i: (Num(tm.add(i, idx(start))), s.at(i)))


def b_zip(*its, **k):
    ss = [to_seq(x) for x in its]
    if all(isinstance(s, list) for s in ss):
        return zip(*ss)
    if any(isinstance(s, list) for s in ss):
        raise Unsupported("zip of concrete and symbolic sequences")
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n:
            E.require(tm.eq(s.n, n), "zipped sequences have the same length")
    return SymSeq(n, lambda i: tuple(s.at(i) for s in ss))


def b_list(it=()):
    if isinstance(it, SList):
        return it.copy()
    s = to_seq(it)
    if isinstance(s, list):
        return SList.of(s)
    return SList(SeqC([("seg", s.n, s.at)], keyed=s if s.pos is not None else None))


def b_tuple(it=()):
    s = to_seq(it)
    if isinstance(s, list):
        return tuple(s)
    return SList(SeqC([("seg", s.n, s.at)], keyed=s if s.pos is not None else None))


def b_set(it=()):
    return mkset(it if not isinstance(it, tuple) or it else SList.of([]))


def b_dict(*a, **k):
    d = SDict()
    if a:
        src = a[0]
        if isinstance(src, SDict):
            d = src.copy()
        else:
            s = to_seq(src)
            if isinstance(s, list):
                for kk, v in s:
                    d[kk] = v
            else:
                # dict of a symbolic sequence of (key, value) pairs: keys must be positions
                j, rng = vc.index_of(s)
                e = s.at(j)
                if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], Num) and e[0].t is j:
                    ks = SymSeq(s.n, lambda i: Num(i), pos=lambda x: idx(x), has=lambda x: tm.and_(tm.le(0, idx(x)), tm.lt(idx(x), s.n)))
                    d = SDict(DictC(fam=Fam(ks, lambda x: s.at(idx(x))[1], 1, False)))
                else:
                    raise Unsupported("dict of a symbolic sequence")
    for kk, v in k.items():
        d[kk] = v
    return d


def b_sorted(it, key=None, reverse=False):
    s = to_seq(it)
    if isinstance(s, list):
        if key is None and len(s) == 2 and any(isinstance(x, SVal) for x in s):
            a, b = SVal(valt(s[0])), SVal(valt(s[1]))
            le = tm.app("vle", [a.t, b.t], "B")
            vle_axioms()
            lo, hi = SVal(tm.ite(le, a.t, b.t)), SVal(tm.ite(le, b.t, a.t))
            return SList.of([hi, lo] if reverse else [lo, hi])
        if all(isinstance(x, (str, int, float)) for x in s):
            return SList.of(sorted(s, key=key, reverse=reverse))
    raise Unsupported("sorted of a symbolic sequence")


def vle_axioms():
    ax = [tm.forall("V", lambda a: tm.forall("V", lambda b: tm.or_(tm.app("vle", [a, b], "B"), tm.app("vle", [b, a], "B")))),
          tm.forall("V", lambda a: tm.forall("V", lambda b: tm.implies(tm.and_(tm.app("vle", [a, b], "B"), tm.app("vle", [b, a], "B")), tm.eq(a, b))))]
    for f in ax:
        if f not in E.pc:
            E.assume(f)


def _minmax(kind):
    def f(*a, **k):
        if k:
            raise Unsupported("%s options" % kind)
        if len(a) == 1:
            if hasattr(a[0], "_vc_minmax"):
                return a[0]._vc_minmax(kind)
            s = to_seq(a[0])
            if not isinstance(s, list):
                from .values import ared
                return ared(kind, ArrC((s.n,), s.at))
            a = s
        if all(isinstance(x, (int, float)) for x in a):
            return (max if kind == "max" else min)(a)
        r = asnum(a[0])
        for x in a[1:]:
            x = asnum(x)
            # Python's max(r, x) keeps r unless x > r (comparisons with NaN are false)
            c = tm.and_(tm.not_(r.nan), tm.not_(x.nan), tm.lt(r.t, x.t) if kind == "max" else tm.lt(x.t, r.t))
            r = Num(tm.ite(c, x.t, r.t), tm.ite(c, x.nan, r.nan))
        return r
    return f


def b_sum(it, start=0):
    s = to_seq(it)
    if isinstance(s, list):
        r = start
        for x in s:
            r = r + x
        return r
    from .values import asum
    return asum(ArrC((s.n,), s.at)) + start


def _quant(kind):
    def f(it):
        g = getattr(it, "filtered", None)
        if g is not None:
            s, guard, at = g
            if kind == "any":
                return mkbool(tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, s.n), guard(i), boolt(at(i)))))
            return mkbool(tm.forall_i(s.n, lambda i: tm.implies(guard(i), boolt(at(i)))))
        s = to_seq(it)
        if isinstance(s, list):
            if kind == "any":
                return mkbool(tm.or_(*[boolt(x) for x in s]))
            return mkbool(tm.and_(*[boolt(x) for x in s]))
        if kind == "any":
            return mkbool(tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, s.n), boolt(s.at(i)))))
        return mkbool(tm.forall_i(s.n, lambda i: boolt(s.at(i))))
    return f


def b_abs(x):
    return abs(x)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if cls is b_list:
        return isinstance(x, SList)
    if cls is b_dict:
        return isinstance(x, SDict)
    if cls is b_tuple:
        return isinstance(x, tuple)
    if cls is b_str:
        return isinstance(x, (str, SVal))
    if cls is b_float:
        return isinstance(x, (float, Num))
    if cls is b_int:
        if isinstance(x, Num):
            return x.t.sort == "I"
        return isinstance(x, int)
    if hasattr(cls, "_vc_isinstance"):
        return cls._vc_isinstance(x)
    return isinstance(x, cls)


def b_float(x=0.0):
    if isinstance(x, (Num, SBool)):
        return asnum(x)
    if isinstance(x, SVal):
        return num_of(x)
    return float(x)


def b_int(x=0):
    if isinstance(x, Num):
        if x.t.sort == "I":
            return x
        raise Unsupported("int() of a symbolic real")
    if isinstance(x, SBool):
        return asnum(x)
    return int(x)


def b_str(x=""):
    if isinstance(x, (SVal,)):
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, Heap) or isinstance(x, Sym):
        return SVal(tm.fresh("str", "V"))
    return str(x)


def b_round(x, n=None):
    if isinstance(x, (Num,)):
        return Num(tm.app("round", [x.t, tm.num(n or 0)], "R"), x.nan)
    return round(x, n)


def b_bool(x=False):
    if isinstance(x, bool):
        return x
    return mkbool(boolt(x)) if isinstance(x, (Sym, Heap)) else bool(x)


def b_map(fn, it, *more):
    if more:
        return vc.comp("map", "gen", b_zip(it, *more), 1 + len(more), [], fn, True)
    return vc.comp("map", "gen", it, 0, [], fn, True)


def b_filter(fn, it):
    return vc.comp("filter", "list", it, 0, [fn], lambda x: x, True)


def b_reversed(it):
    s = to_seq(it)
    if isinstance(s, list):
        return list(reversed(s))
    return SymSeq(s.n, lambda i: s.at(tm.sub(tm.sub(s.n, 1), i)))


def b_next(*a):
    raise Unsupported("next()")


def b_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except (AttributeError, Unsupported):
        return False


def b_type(*a):
    return type(*a)


def b_build_class(func, name, *bases, **kw):
    cls = _b.__build_class__(func, name, *bases, **kw)
    if not issubclass(cls, BaseException) and "__setattr__" not in cls.__dict__:
        cls.__setattr__ = journaled_setattr
    return cls


def make_builtins(importer):
    d = {}
    for n in ("BaseException Exception ValueError KeyError IndexError TypeError AttributeError RuntimeError NotImplementedError "
              "AssertionError StopIteration ZeroDivisionError NameError object property staticmethod classmethod super getattr setattr "
              "callable print id True False None NotImplemented Ellipsis __debug__ repr hash slice ArithmeticError LookupError "
              "DeprecationWarning UserWarning FutureWarning Warning OverflowError issubclass vars delattr divmod iter").split():
        if hasattr(_b, n):
            d[n] = getattr(_b, n)
    d.update(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, set=b_set, frozenset=b_set,
             dict=b_dict, sorted=b_sorted, min=_minmax("min"), max=_minmax("max"), sum=b_sum, any=_quant("any"), all=_quant("all"),
             abs=b_abs, isinstance=b_isinstance, float=b_float, int=b_int, str=b_str, round=b_round, bool=b_bool, map=b_map,
             filter=b_filter, reversed=b_reversed, next=b_next, hasattr=b_hasattr, type=b_type, __build_class__=b_build_class,
             __import__=importer)
    return d


# ------------------------------------------------------------------------------------------------ module table
class VCModule(types.SimpleNamespace):
    pass


class DefaultDict(SDict):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, c=None, loc=None):
        if callable(c):
            SDict.__init__(self)
            object.__setattr__(self, "default", c)
        else:
            SDict.__init__(self, c, loc)


def fit_call(real, fn, a, k):
    """(positional, keyword) arguments for the contract of a call: by name where the contract names all parameters of the function, else by
    position; as given where the contract binds them itself; None if the call does not fit the function's signature (any more)"""
    var = (inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.VAR_KEYWORD)
    own = inspect.signature(fn).parameters.values()
    if any(p.kind in var for p in own):
        return a, k
    try:
        sig = inspect.signature(real)
        if any(p.kind in var for p in sig.parameters.values()):
            return None if k else (a, {})
        b = sig.bind(*a, **k)
    except (TypeError, ValueError):
        return None
    b.apply_defaults()
    want = list(inspect.signature(fn).parameters)[2:]
    if set(want) == set(b.arguments):
        return [b.arguments[x] for x in want], {}
    return (list(b.arguments.values()), {}) if len(want) == len(b.arguments) else None


class World:
    """one loading of the package: modules by name, contracts applied at call sites"""

    def __init__(self):
        from . import lib, stubs, table
        self.mods = {}
        self.sources = {}
        self.contracts = {}         # "module:qualname" -> apply function
        self.under = set()
        self.ext = stubs.modules(lib, table)
        self.builtins = make_builtins(self.imp)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name.split(".")[0] == "artemis":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.find(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load("artemis")
        if name in self.ext:
            m = self.ext[name]
            if not fromlist and "." in name:
                return self.ext[name.split(".")[0]]
            return m
        root = name.split(".")[0]
        if root in ("typing", "abc", "dataclasses", "re", "math", "warnings", "enum", "functools", "copy", "operator", "numbers", "logging", "__future__", "contextlib", "inspect"):
            return _b.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported("import of %s" % name)

    def find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            raise Unsupported("no module %s" % name)
        path, is_pkg = f
        parent = None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        m.__path__ = []
        self.mods[name] = m
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        if path is None:
            return m
        src = open(path).read()
        self.sources[name] = src
        fn = "<artemis %s>" % name
        LINES[fn] = {i + 1: l for i, l in enumerate(src.split("\n"))}
        tree = rw.rewrite(src, name)
        code = compile(tree, fn, "exec")
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g["vc_rt_"] = vc_ns
        g["__name__"] = name
        exec(code, g)
        self.apply_contracts(name, m)
        return m

    # ---- contracts at call sites
    def apply_contracts(self, name, m):
        for key, fn in list(self.contracts.items()):
            mod, _, qual = key.partition(":")
            if mod != name:
                continue
            self.install(m, qual, key, fn)

    def install(self, m, qual, key, fn):
        parts = qual.split(".")
        holder = m
        for p in parts[:-1]:
            holder = getattr(holder, p, None)
            if holder is None:
                return
        real = holder.__dict__.get(parts[-1]) if hasattr(holder, "__dict__") else None
        if real is None:
            return
        world = self
        static = isinstance(real, staticmethod)
        if static:
            real = real.__func__

        def stub(*a, **k):
            if key in world.under:
                return real(*a, **k)
            call = fit_call(real, fn, a, k)
            if call is None:
                return real(*a, **k)
            E.used_contracts.add(key)
            return fn(world, real, *call[0], **call[1])
        stub.__name__ = parts[-1]
        stub._real = real
        setattr(holder, parts[-1], staticmethod(stub) if static else stub)

    def get(self, name, qual):
        m = self.load(name)
        o = m
        for p in qual.split("."):
            o = o.__dict__[p] if isinstance(o, type) else getattr(o, p)
        return o


vc_ns = types.SimpleNamespace(
    for_loop=vc.for_loop, while_loop=vc.while_loop, comp=vc.comp, mklist=vc.mklist, mkdict=vc.mkdict,
    mkset=lambda x: mkset(SList.of(list(x))), contains=vc.contains, not_=vc.not_, fstring=vc.fstring, join=vc.join, kwcall=vc.kwcall,
    native_iter=vc.native_iter, Ret=vc.Ret, BREAK=vc.BREAK)
