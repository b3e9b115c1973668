"""The symbolic engine: path exploration, scalar values, heap cells, loops."""
import sys
import traceback

from . import smt
from . import terms as tm
from .terms import FALSE, TRUE, T


class Unsupported(Exception):
    """the code left the verifier's reach; the property falls back to the bounded check"""


class Infeasible(BaseException):
    """this path cannot happen"""


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Poison:
    """value of a variable after a loop that the engine does not track; any use is Unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of a value left over from a loop: %s" % self.why)
    __getattr__ = __getitem__ = __call__ = __bool__ = __iter__ = __eq__ = __add__ = __radd__ = __len__ = __hash__ = _bad
    __sub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __setitem__ = __truediv__ = _bad


# ------------------------------------------------------------------------------------------------ engine
class Explorer:
    def __init__(self):
        self.trace, self.pos, self.todo = [], 0, []


class Obligation:
    def __init__(self, name, status, backend, detail, model, secs, where):
        self.name, self.status, self.backend, self.detail, self.model, self.secs, self.where = name, status, backend, detail, model, secs, where


class Engine:
    BRANCH_MS = 1500
    FORK_MS = 400          # feasibility of a branch: undecided branches are explored

    def __init__(self):
        self.reset()
        self.obligations = []
        self.ob_names = {}
        self.cache = {}
        self.loop_specs = {}
        self.trusted = set()
        self.used_models = set()
        self.steps_used, self.steps_proved = set(), set()      # loop steps shared between contracts
        self.used_contracts = set()
        self.max_paths = 400
        self.prove_ms = 10000

    def reset(self):
        self.pc = []            # facts and decisions, in order
        self.kind = []          # parallel: 'd' decision, 'f' fact
        self.explorers = []
        self.journal = []
        self.ctx = []           # index symbols of enclosing symbolic bodies
        self.counter = {}
        self.draws = []
        self.samples = []
        self.queries = []       # model queries (for C22)
        self.log = []           # recorded calls of plotting stubs etc.
        self.serial = 0
        self.failed = set()
        self.perms = []         # (n, p, q) of every sort, for witnesses
        self.impure = []        # uses of randomness outside the method's own generator
        self.owned = {}         # id(cell) -> description: caller-owned cells that must not change

    # ---- symbols
    def fresh(self, name, sort):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        nm = "%s.%d" % (name, k)
        if self.ctx:
            return tm.app(nm, list(self.ctx), sort)
        return tm.sym(nm, sort)

    def fname(self, name):
        """name of a fresh function symbol; apply with E.fapp"""
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return "%s.%d" % (name, k)

    def fapp(self, fname, args, sort):
        return tm.app(fname, list(self.ctx_of(fname)) + [tm.lift(a) for a in args], sort)

    def ctx_of(self, fname):
        return self._fctx.get(fname, ()) if hasattr(self, "_fctx") else ()

    def ffun(self, name, sort):
        """fresh function: returns python callable (terms -> term), depending on the enclosing indices"""
        fn = self.fname(name)
        ctx = tuple(self.ctx)
        return lambda *a: tm.app(fn, list(ctx) + [tm.lift(x) for x in a], sort)

    def dfun(self, name, key, sort):
        """function determined by the terms `key`: the same terms give the same function"""
        import hashlib
        fn = "%s:%s" % (name, hashlib.sha256("|".join(tm.full(tm.lift(x)) for x in key).encode()).hexdigest()[:8])
        ctx = tuple(self.ctx)
        return lambda *a: tm.app(fn, list(ctx) + [tm.lift(x) for x in a], sort)

    # ---- facts
    def assume(self, t, kind="f"):
        t = tm.lift(t)
        if t is TRUE or (kind == "f" and t in self.pc):
            return
        if t is FALSE:
            raise Infeasible()
        self.pc.append(t)
        self.kind.append(kind)

    def prove(self, goal, extra=(), ms=None):
        hyps = tuple(self.pc) + tuple(extra)
        key = (frozenset(hyps), goal)
        r = self.cache.get(key)
        if r is None:
            r = smt.prove(list(hyps), goal, ms or self.prove_ms)
            self.cache[key] = r
        return r

    def known(self, t, ms=None):
        """is t certain on this path?"""
        t = tm.lift(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in self.pc:
            return True
        return self.prove(t, ms=ms or self.BRANCH_MS).status == "proved"

    def oblige(self, name, goal, assume=True, extra=(), ms=None):
        goal = tm.lift(goal)
        if name in self.failed:             # another instance already failed: no long search for this one
            ms = min(ms or self.prove_ms, 2000)
        r = self.prove(goal, extra, ms=ms)
        if r.status != "proved":
            self.failed.add(name)
        where = self.where()
        key = (name, r.status)
        self.obligations.append(Obligation(name, r.status, r.backend, r.detail, r.model, r.secs, where))
        if assume and goal is not FALSE:
            if goal is not TRUE and goal not in self.pc:
                self.pc.append(goal)
                self.kind.append("f")
        elif goal is FALSE and assume:
            raise Infeasible()
        return r.status == "proved"

    def require(self, cond, name):
        """safety condition of an operation (index in range, key present, ...)"""
        cond = tm.lift(cond)
        if cond is TRUE:
            return
        if self.known(cond, ms=self.prove_ms):
            self.obligations.append(Obligation("safe: " + name, "proved", "z3", "", None, 0.0, self.where()))
            self.assume(cond)
            return
        self.oblige("safe: " + name, cond)

    def where(self):
        f = sys._getframe(1)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith("<artemis"):
                return "%s:%d %s" % (fn.strip("<>"), f.f_lineno, f.f_code.co_name)
            f = f.f_back
        return ""

    # ---- branching
    def branch(self, t):
        t = tm.lift(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if not self.explorers:
            raise Unsupported("branch outside exploration: %r" % t)
        ex = self.explorers[-1]
        if ex.pos < len(ex.trace):
            d = ex.trace[ex.pos]
        else:
            if t in self.pc:
                d, other = True, False
            elif tm.not_(t) in self.pc:
                d, other = False, False
            else:
                can_f = self.prove(t, ms=self.FORK_MS).status != "proved"
                can_t = self.prove(tm.not_(t), ms=self.FORK_MS).status != "proved"
                if not can_t and not can_f:
                    raise Infeasible()
                d, other = can_t, can_t and can_f
            if other:
                ex.todo.append(list(ex.trace) + [not d])
                if len(ex.todo) > self.max_paths:
                    raise Unsupported("too many paths")
            ex.trace.append(d)
        ex.pos += 1
        self.assume(t if d else tm.not_(t), "d")
        return d

    def explore(self, run, restore=None):
        """run() on every feasible path; yields (decisions, facts, outcome) where outcome = ('ret', v) | ('exc', e)"""
        ex = Explorer()
        ex.todo = [[]]
        base_pc, base_kind, base_counter = list(self.pc), list(self.kind), dict(self.counter)
        jpos = len(self.journal)
        out = []
        n = 0
        top = dict(base_counter)
        while ex.todo:
            ex.trace, ex.pos = ex.todo.pop(), 0
            self.pc, self.kind, self.counter = list(base_pc), list(base_kind), dict(base_counter)
            self.explorers.append(ex)
            n += 1
            if n > self.max_paths:
                self.explorers.pop()
                raise Unsupported("too many paths")
            try:
                try:
                    oc = ("ret", run())
                except Infeasible:
                    oc = None
                except (Unsupported, smt.z3.Z3Exception, RecursionError):
                    raise
                except ModelledError as e:
                    oc = ("exc", e)
                except Exception as e:              # noqa: BLE001
                    if is_engine_error(e):
                        raise Unsupported("engine: %s: %s at %s" % (type(e).__name__, e, err_where(e))) from e
                    oc = ("exc", e)
                if oc is not None:
                    ds = [p for p, k in zip(self.pc[len(base_pc):], self.kind[len(base_pc):]) if k == "d"]
                    fs = [p for p, k in zip(self.pc[len(base_pc):], self.kind[len(base_pc):]) if k == "f"]
                    out.append((ds, fs, oc, restore(self) if restore else None))
            finally:
                self.explorers.pop()
                self.rollback(jpos)
                for k, v in self.counter.items():
                    if v > top.get(k, 0):
                        top[k] = v
        self.pc, self.kind = base_pc, base_kind
        self.counter = top
        return out

    # ---- heap
    def rollback(self, pos):
        while len(self.journal) > pos:
            cell, old = self.journal.pop()
            cell.c = old

    def changed_since(self, pos):
        return list({id(c): c for c, _ in self.journal[pos:]}.values())


E = Engine()


class Done(BaseException):
    """the contract has seen all it is about"""


class ModelledError(Exception):
    """an exception of a modelled library operation, with the Python class it stands for"""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


def is_engine_error(e):
    """raised by the engine's own Python code rather than by a raise statement of the verified code"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return True
    last = tb[-1]
    if not last.filename.startswith("<artemis"):
        return True
    line = LINES.get(last.filename, {}).get(last.lineno, "")
    return "raise" not in line


LINES = {}


def err_where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%s" % (f.filename.split("/")[-1], f.lineno) for f in reversed(tb[-4:]))


# ------------------------------------------------------------------------------------------------ scalars
def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Sym:
    """base of symbolic scalars"""


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = tm.lift(t)

    def __bool__(self):
        return E.branch(self.t)

    def __invert__(self):
        return SBool(tm.not_(self.t))

    def __and__(self, o):
        if hasattr(o, "_vc_array"):
            return NotImplemented
        return SBool(tm.and_(self.t, boolt(o)))
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "_vc_array"):
            return NotImplemented
        return SBool(tm.or_(self.t, boolt(o)))
    __ror__ = __or__

    def __eq__(self, o):
        if hasattr(o, "_vc_array"):
            return NotImplemented
        if isinstance(o, (bool, SBool)):
            return SBool(tm.eq(self.t, boolt(o)))
        if is_num(o):
            return SBool(tm.eq(tm.indicator(self.t), o))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def num(self):
        return Num(tm.indicator(self.t))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "SBool(%r)" % self.t


def boolt(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, T) and x.sort == "B":
        return x
    if isinstance(x, Num):
        return tm.ne(x.t, 0)
    if is_num(x):
        return TRUE if x else FALSE
    if hasattr(x, "_vc_truth"):
        return x._vc_truth()
    raise Unsupported("truth of %s" % type(x).__name__)


def mkbool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SBool(t)


def not_(x):
    if isinstance(x, SBool):
        return mkbool(tm.not_(x.t))
    if isinstance(x, Num):
        return mkbool(tm.eq(x.t, 0))
    if hasattr(x, "_vc_truth"):
        return mkbool(tm.not_(x._vc_truth()))
    return not x


def numt(x):
    if isinstance(x, Num):
        return x.t
    if isinstance(x, bool):
        return tm.num(int(x))
    if isinstance(x, int):
        return tm.num(x)
    if isinstance(x, float):
        return tm.lift(x) if x == x and abs(x) != float("inf") else None
    if isinstance(x, SBool):
        return tm.indicator(x.t)
    if isinstance(x, T):
        return x
    if isinstance(x, SVal):
        return tm.app("rv", [x.t], "R")
    raise Unsupported("number expected, got %s" % type(x).__name__)


def nant(x):
    if isinstance(x, Num):
        return x.nan
    if isinstance(x, float) and x != x:
        return TRUE
    return FALSE


NAN = float("nan")


def asnum(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, float) and x != x:
        return Num(tm.num(0), TRUE)
    if isinstance(x, float) and abs(x) == float("inf"):
        return Num(tm.sym("+oo", "R") if x > 0 else tm.neg(tm.sym("+oo", "R")))
    return Num(numt(x), nant(x))


def _arr(o):
    return hasattr(o, "_vc_array")


class Num(Sym):
    __slots__ = ("t", "nan")

    def __init__(self, t, nan=FALSE):
        self.t, self.nan = tm.lift(t), tm.lift(nan)

    def _bin(self, o, f):
        if _arr(o):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise Unsupported("arithmetic with %r" % (o,))
        o = asnum(o)
        return Num(f(self.t, o.t), tm.or_(self.nan, o.nan))

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: tm.add(b, a))

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, tm.mul)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: tm.mul(b, a))

    def __truediv__(self, o):
        if _arr(o):
            return NotImplemented
        return divide(self, asnum(o))

    def __rtruediv__(self, o):
        if _arr(o):
            return NotImplemented
        return divide(asnum(o), self)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __pow__(self, k):
        if isinstance(k, Num):
            v = tm.numval(k.t)
            k = int(v) if v is not None and v.denominator == 1 else k
        if isinstance(k, int) and k >= 0:
            return Num(tm.power(self.t, k), self.nan)
        if k == 0.5:
            return nsqrt(self)
        raise Unsupported("power %r" % (k,))

    def __neg__(self):
        return Num(tm.neg(self.t), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(tm.absv(self.t), self.nan)

    def _cmp(self, o, f):
        if _arr(o):
            return NotImplemented
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, float) and abs(o) == float("inf"):
            r = f(tm.num(0), tm.num(1 if o > 0 else -1))
            return mkbool(tm.and_(tm.not_(self.nan), r))
        o = asnum(o)
        return mkbool(tm.and_(tm.not_(self.nan), tm.not_(o.nan), f(self.t, o.t)))

    def __eq__(self, o):
        if isinstance(o, SVal):
            return o == self
        return self._cmp(o, tm.eq)

    def __ne__(self, o):
        if _arr(o):
            return NotImplemented
        return not_(self == o)

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, tm.gt)

    def __ge__(self, o):
        return self._cmp(o, tm.ge)

    def __bool__(self):
        return E.branch(tm.or_(self.nan, tm.ne(self.t, 0)))

    def __hash__(self):
        return hash(("num", self.t.uid))

    def __index__(self):
        v = tm.numval(self.t)
        if v is not None and v.denominator == 1:
            return int(v)
        raise Unsupported("symbolic number used as a concrete index")

    def __float__(self):
        v = tm.numval(self.t)
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic number")

    def __format__(self, spec):
        return "<num>"

    def __repr__(self):
        return "Num(%r%s)" % (self.t, "" if self.nan is FALSE else ", nan=%r" % self.nan)

    def astype(self, *_):
        return self

    def item(self):
        return self


def divide(a, b):
    """IEEE division with NaN for 0/0; a non-zero number over zero is left as an uninterpreted quotient"""
    zero = tm.eq(b.t, 0)
    nan = tm.or_(a.nan, b.nan, tm.and_(zero, tm.eq(a.t, 0)))
    return Num(tm.div(a.t, b.t), nan)


def nsqrt(x):
    x = asnum(x)
    return Num(tm.sqrt(x.t), x.nan)


def ite_num(c, a, b):
    a, b = asnum(a), asnum(b)
    return Num(tm.ite(c, a.t, b.t), tm.ite(c, a.nan, b.nan))


class SVal(Sym):
    """opaque value: a cell of the dataset, a feature name, ..."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if _arr(o):
            return NotImplemented
        if o is None:
            return mkbool(tm.eq(self.t, NONE))
        if isinstance(o, (SVal, str)):
            return mkbool(tm.eq(self.t, valt(o)))
        if isinstance(o, Num) or is_num(o):
            return mkbool(tm.eq(self.t, valt(o)))
        return False

    def __ne__(self, o):
        if _arr(o):
            return NotImplemented
        return not_(self == o)

    def __hash__(self):
        return hash(("val", self.t.uid))

    def __add__(self, o):
        if _arr(o):
            return NotImplemented
        if isinstance(o, (str, SVal)):
            return SVal(tm.app("concat", [self.t, valt(o)], "V"))
        raise Unsupported("arithmetic on an opaque cell")

    def __radd__(self, o):
        if isinstance(o, (str, SVal)):
            return SVal(tm.app("concat", [valt(o), self.t], "V"))
        raise Unsupported("arithmetic on an opaque cell")

    def lower(self):
        return SVal(tm.app("lower", [self.t], "V"))

    def __format__(self, spec):
        return "<val>"

    def __bool__(self):
        raise Unsupported("truth of an opaque value")

    def __lt__(self, o):
        return mkbool(tm.and_(tm.app("vle", [self.t, valt(o)], "B"), tm.ne(self.t, valt(o))))

    def __gt__(self, o):
        return mkbool(tm.and_(tm.app("vle", [valt(o), self.t], "B"), tm.ne(self.t, valt(o))))

    def __le__(self, o):
        return mkbool(tm.app("vle", [self.t, valt(o)], "B"))

    def __ge__(self, o):
        return mkbool(tm.app("vle", [valt(o), self.t], "B"))

    def __repr__(self):
        return "SVal(%r)" % self.t


NONE = tm.const("None")


NA = tm.const("NA")         # a missing value in a column of opaque values


def isna_term(t):
    """is the opaque value missing?"""
    if t is NA or t is NONE:
        return TRUE
    if t.op == "const" or (t.op == "app" and t.args[0] in ("vr", "vi")):
        return FALSE
    if t.op == "ite":
        return tm.ite(t.args[0], isna_term(t.args[1]), isna_term(t.args[2]))
    return tm.app("isna", [t], "B")


def valt(x):
    """the V-sorted term of a scalar"""
    if isinstance(x, SVal):
        return x.t
    if isinstance(x, str):
        return tm.strc(x)
    if x is None:
        return NONE
    if isinstance(x, bool):
        return tm.const("True" if x else "False")
    if isinstance(x, Num) or is_num(x):
        t = numt(x)
        if t.op == "app" and t.args[0] == "rv":
            v = t.args[1]
        else:
            v = tm.app("vr", [t], "V") if t.sort == "R" else tm.app("vi", [t], "V")
        return tm.ite(x.nan, NA, v) if isinstance(x, Num) else v
    if isinstance(x, T) and x.sort == "V":
        return x
    raise Unsupported("value expected, got %s" % type(x).__name__)


def scalar(t):
    """wrap a term"""
    if t.sort in ("I", "R"):
        return Num(t)
    if t.sort == "B":
        return mkbool(t)
    return SVal(t)


def eq_vals(a, b):
    """Bool term: a == b for scalars (NaN equals NaN: used for specifications and extensional equality)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tm.and_(*[eq_vals(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if isinstance(a, (SVal, str)) or isinstance(b, (SVal, str)):
        return tm.eq(valt(a), valt(b))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return tm.eq(boolt(a), boolt(b))
    if a is None or b is None:
        return TRUE if a is b else FALSE
    a, b = asnum(a), asnum(b)
    return tm.and_(tm.eq(a.nan, b.nan), tm.or_(a.nan, tm.eq(a.t, b.t)))


def divmod_(a, b):
    """integer quotient and remainder by a positive constant"""
    d = asnum(b)
    v = tm.numval(d.t)
    if v is None or v.denominator != 1 or v <= 0 or a.t.sort != "I" or a.nan is not FALSE:
        raise Unsupported("integer division")
    q = tm.app("intdiv", [a.t, d.t], "I")
    E.assume(tm.and_(tm.le(tm.mul(d.t, q), a.t), tm.lt(a.t, tm.mul(d.t, tm.add(q, 1)))))
    return Num(q), Num(tm.sub(a.t, tm.mul(d.t, q)))


# ------------------------------------------------------------------------------------------------ heap
class Cell:
    """one mutable location; contents are immutable values"""
    __slots__ = ("c", "owner", "serial", "view", "__weakref__")

    def __init__(self, c):
        self.c = c
        self.owner = None
        self.view = None            # (location, its content when the view was taken, does a later write show through)
        E.serial += 1
        self.serial = E.serial

    def get(self):
        if self.view is not None and self.view[2] and self.view[0].get() is not self.view[1] and self.view[0].root().c is not self.view[3]:
            raise Unsupported("view of an array read after the array was written")
        return self.c

    def set(self, new, through=True):
        if self.view is not None and through:
            r = self.view[0].root()
            while r.owner is None and r.view is not None:
                r = r.view[0].root()
            if r.owner is None:
                raise Unsupported("write through a view")
            E.obligations.append(Obligation("frame: %s is not modified" % r.owner, "refuted", "engine", "written through a view of it", None, 0.0, E.where()))
        if self.owner is not None:
            E.obligations.append(Obligation("frame: %s is not modified" % self.owner, *frame_status(self, new), None, 0.0, E.where()))
        E.journal.append((self, self.c))
        self.c = new

    def root(self):
        return self


def frame_status(cell, new):
    """a write to caller-owned data: allowed only if it provably changes nothing"""
    try:
        from . import values
        t = values.same_content(cell.c, new)
        r = E.prove(t)
        if r.status == "proved":
            return "proved", r.backend, ""
        return ("refuted" if r.status == "refuted" else "unknown"), r.backend, "write to caller-owned data"
    except Exception as e:          # noqa: BLE001
        return "refuted", "engine", "write to caller-owned data (%s)" % e


class SubCell:
    """an element of another location's content"""
    __slots__ = ("parent", "read", "write", "apart", "__weakref__")

    def __init__(self, parent, read, write):
        self.parent, self.read, self.write, self.apart = parent, read, write, None

    def get(self):
        return self.apart.get() if self.apart is not None else self.read(self.parent.get())

    def set(self, new):
        if self.apart is not None:
            self.apart.set(new)
        else:
            self.parent.set(self.write(self.parent.get(), new))

    def root(self):
        return self.apart if self.apart is not None else self.parent.root()

    def detach(self):
        """the element of the location is replaced: whoever holds the old one keeps it"""
        if self.apart is None:
            old, self.apart = self.get(), None
            E.journal.append((Detached(self), None))
            self.apart = Cell(old)


class Detached:
    """for the journal"""
    serial = 0
    owner = None
    view = None

    def __init__(self, sub):
        object.__setattr__(self, "sub", sub)

    def __setattr__(self, k, v):
        assert k == "c"
        self.sub.apart = v


class AttrCell:
    """an attribute of a plain object of the verified code, for the journal"""
    serial = 0
    owner = None
    view = None

    def __init__(self, obj, name):
        object.__setattr__(self, "obj", obj)
        object.__setattr__(self, "name", name)

    def __setattr__(self, k, v):
        assert k == "c"
        if v is UNBOUND:
            self.obj.__dict__.pop(self.name, None)
        else:
            self.obj.__dict__[self.name] = v


def journaled_setattr(obj, name, value):
    d = obj.__dict__
    E.journal.append((AttrCell(obj, name), d.get(name, UNBOUND)))
    d[name] = value


class Heap:
    """base of mutable symbolic objects"""
    def __init__(self, c, loc=None):
        object.__setattr__(self, "hloc", loc if loc is not None else Cell(c))

    @property
    def c(self):
        return self.hloc.get()

    def put(self, c):
        self.hloc.set(c)


def view(obj, base, through=True):
    """obj shares memory with base"""
    obj.hloc.view = (base.hloc, base.c, through, base.hloc.root().c)
    return obj


def own(obj, what):
    obj.hloc.root().owner = what
    return obj
