"""The `__vc` object the rewritten code talks to: loops, comprehensions, displays and operators."""
from . import smt
from . import terms as tm
from .core import (Done, E, FALSE, TRUE, UNBOUND, AttrCell, Heap, ModelledError, Num, Poison, SBool, SVal, Sym, Unsupported,
                   asnum, boolt, mkbool, not_, numt, scalar, valt)
from .values import (ArrC, DictC, Fam, Fz, HvDict, SArr, SDict, SList, SSet, SeqC, SymSeq, cval, freeze, idx, ite_val, key_eq, mkset,
                     read_key, same_content, select, split_key, thaw, to_seq, under, vsubst, write_key)


class Ret:
    def __init__(self, value):
        self.value = value


class Break:
    def __repr__(self):
        return "BREAK"


BREAK = Break()
SPECS = []          # LoopSpec instances offered to symbolic loops


class Gen:
    """value of a generator expression over a symbolic iterable"""

    def __init__(self, seq):
        self.seq = seq

    def _vc_seq(self):
        return self.seq


# ------------------------------------------------------------------------------------------------ symbolic bodies
def body_paths(j, rng, run):
    """run() for a generic index j (already a symbol); facts are generalised over j afterwards.
    Returns [(cond, value)] for the feasible normal paths."""
    base_pc, base_kind = list(E.pc), list(E.kind)
    E.ctx.append(j)
    E.pc.append(rng)
    E.kind.append("f")
    try:
        paths = E.explore(run)
    finally:
        E.ctx.pop()
        E.pc, E.kind = base_pc, base_kind
    out = []
    for ds, fs, oc, _ in paths:
        cond = tm.and_(*ds)
        for f in fs:
            g = tm.implies(tm.and_(rng, cond), f)
            hoist(j, g)
        if oc[0] == "exc":
            e = oc[1]
            E.oblige("safe: no %s in an iteration" % (e.cls.__name__ if isinstance(e, ModelledError) else type(e).__name__),
                     tm.forall(j.sort, lambda x: tm.subst(tm.implies(rng, tm.not_(cond)), {j: x})))
            continue
        out.append((cond, oc[1]))
    return out


def hoist(j, g):
    h = tm.forall(j.sort, lambda x: tm.subst(g, {j: x})) if j in g.syms else g
    if h is not TRUE and h not in E.pc:
        E.pc.append(h)
        E.kind.append("f")


def merge_paths(paths):
    if not paths:
        raise Unsupported("no feasible path in an iteration")
    v = paths[-1][1]
    for c, x in reversed(paths[:-1]):
        v = ite_val(c, x, v)
    return v


def elem(seq, j):
    v = seq.at(j)
    return v


def call_elem(fn, arity, v):
    if arity == 0:
        return fn(v)
    if isinstance(v, (SArr, SList)):
        v = tuple(v)
    if not isinstance(v, tuple):
        raise Unsupported("cannot unpack %s" % type(v).__name__)
    if len(v) != arity:
        raise ModelledError(ValueError, "unpack")
    return fn(*v)


def index_of(seq, name="j"):
    j = tm.fresh(name, "I")
    return j, tm.and_(tm.le(0, j), tm.lt(j, seq.n))


# ------------------------------------------------------------------------------------------------ comprehensions
def comp(site, kind, it, arity, conds, body, last):
    s = to_seq(it)
    if isinstance(s, list):
        out = []
        for v in s:
            ok = True
            for c in conds:
                if not truth(call_elem(c, arity, v)):
                    ok = False
                    break
            if ok:
                r = call_elem(body, arity, v)
                if last:
                    out.append(r)
                else:
                    rs = to_seq(r)
                    if not isinstance(rs, list):
                        if len(s) == 1 and not conds:
                            return finish_comp(kind, rs, None)
                        raise Unsupported("nested comprehension over a symbolic iterable")
                    out.extend(rs)
        if kind == "dict":
            return mkdict(out)
        if kind == "set":
            return mkset(SList.of(out))
        return SList.of(out)
    return sym_comp(site, kind, s, arity, conds, body, last)


def finish_comp(kind, seq, keyed):
    if kind in ("list",):
        return SList(SeqC([("seg", seq.n, seq.at)], keyed=seq if seq.pos is not None else None))
    if kind == "gen":
        return Gen(seq)
    if kind == "set":
        return mkset(seq)
    raise Unsupported("comprehension kind")


def sym_comp(site, kind, s, arity, conds, body, last):
    guard = None
    if conds:
        jg, rng = index_of(s)

        def runc():
            v = elem(s, jg)
            for c in conds:
                if not truth(call_elem(c, arity, v)):
                    return False
            return True
        ps = body_paths(jg, rng, runc)
        gt = tm.or_(*[c for c, v in ps if v is True])
        guard = lambda i: tm.subst(gt, {jg: i})
    j, rng = index_of(s)
    if guard is not None:
        rng = tm.and_(rng, guard(j))

    mark = E.serial

    def run():
        jp = len(E.journal)
        r = freeze(call_elem(body, arity, elem(s, j)))
        for c, _ in E.journal[jp:]:
            if isinstance(c, AttrCell) or c.serial <= mark:
                raise Unsupported("comprehension changes a location outside it")
        return r
    value = merge_paths(body_paths(j, rng, run))
    if not last:
        return product(kind, s, guard, j, value)
    if kind == "dict":
        key, val = value
        return family(s, guard, j, key, val, arity)
    at0 = lambda i: thaw(vsubst(value, {j: i}))
    keyed = s.pos is not None and same_elem(value, elem(s, j))
    if guard is None:
        seq = SymSeq(s.n, at0, pos=s.pos if keyed else None, has=s._has if keyed else None)
        return finish_comp(kind, seq, None)
    if kind == "gen":
        g = Gen(None)
        g.filtered = (s, guard, at0)
        m = {}

        def lazy():
            if "s" not in m:
                n, sel, pos = select(guard, s.n)
                m["s"] = SymSeq(n, lambda i: at0(sel(i)))
            return m["s"]
        g._vc_seq = lazy
        return g
    n, sel, pos = select(guard, s.n)
    if keyed:
        seq = SymSeq(n, lambda i: at0(sel(i)), pos=lambda *k: pos(s.pos(*k)),
                     has=lambda *k: tm.and_(s.has(*k), guard(s.pos(*k))))
    else:
        seq = SymSeq(n, lambda i: at0(sel(i)))
    return finish_comp(kind, seq, None)


def same_elem(a, b):
    try:
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(same_elem(x, y) for x, y in zip(a, b))
        return valt(a) is valt(b)
    except Unsupported:
        return False


def product(kind, s, guard, j, value):
    """[e for x in s for y in t(x)] with independent inner bound: rows of a product enumeration"""
    if guard is not None or not isinstance(value, Fz) or not isinstance(value.c, SeqC):
        raise Unsupported("nested comprehension")
    inner = value.c
    m = inner.length()
    if j in m.syms:
        raise Unsupported("nested comprehension with a varying inner length")
    n = tm.mul(s.n, m)
    d, r, rank = E.ffun("pdiv", "I"), E.ffun("pmod", "I"), E.ffun("prank", "I")
    r0 = rank(tm.num(0), tm.num(0))
    smt.HINTS[r0.args[0]] = (r0.args[1:-2], 2)
    tot = E.fresh("ptot", "I")
    E.assume(tm.eq(tot, n))
    E.assume(tm.le(0, tot))
    E.assume(tm.forall_i(tot, lambda i: tm.and_(tm.le(0, d(i)), tm.lt(d(i), s.n), tm.le(0, r(i)), tm.lt(r(i), m),
                                                tm.eq(rank(d(i), r(i)), i))))
    E.assume(tm.forall("I", lambda a: tm.forall("I", lambda b: tm.implies(
        tm.and_(tm.le(0, a), tm.lt(a, s.n), tm.le(0, b), tm.lt(b, m)),
        tm.and_(tm.le(0, rank(a, b)), tm.lt(rank(a, b), tot), tm.eq(d(rank(a, b)), a), tm.eq(r(rank(a, b)), b))))))
    E.used_models.add("nested comprehension enumerates the product of its iterables")

    def at(i):
        x = inner.at(r(i))
        return thaw(vsubst(freeze(x) if isinstance(x, Heap) else x, {j: d(i)}))
    seq = SymSeq(tot, at)
    seq.product = (d, r, rank, s.n, m)
    E.log.append(("product", rank))
    return finish_comp(kind, seq, None)


class Entries:
    """{key(x): value(x) for x in s} with keys that may repeat: only its entries, in order; a later one replaces an earlier one with the same key"""

    def __init__(self, s, j, key, val):
        self.s, self.n = s, s.n
        self.key, self.val = (lambda i: vsubst(key, {j: i})), (lambda i: vsubst(val, {j: i}))

    def __getattr__(self, name):
        raise Unsupported("use (%s) of a dict whose keys may repeat" % name)


def family(s, guard, j, key, val, arity):
    k, tup = split_key(key)
    e = elem(s, j)
    et = e if isinstance(e, tuple) else (e,)
    if s.pos is None or len(k) != len(et) or not all(same_elem(x, y) for x, y in zip(k, et)):
        if guard is not None:
            raise Unsupported("dict comprehension whose key is not the (distinct) element")
        return Entries(s, j, key, val)

    def v(*q):
        return vsubst(val, {j: s.pos(*q)})
    if guard is None:
        seq = s
    else:
        m = {}

        class Lazy(SymSeq):
            def __init__(self):
                self.pos = None
                self.arity = s.arity

            def _get(self):
                if "n" not in m:
                    m["n"], m["sel"], m["pos"] = select(guard, s.n)
                return m

            @property
            def n(self):
                return self._get()["n"]

            def at(self, i):
                return s.at(self._get()["sel"](i))

            def has(self, *q):
                return tm.and_(s.has(*q), guard(s.pos(*q)))
        seq = Lazy()
        seq.base, seq.guard = s, guard
    return SDict(DictC(fam=Fam(seq, v, len(k), tup)))


# ------------------------------------------------------------------------------------------------ loops
class Loop:
    def __init__(self, site, seq, body, getters, setter, cond=None):
        self.site, self.seq, self.body, self.getters, self.setter, self.cond = site, seq, body, getters, setter, cond
        self.entry = self.get()

    def get(self):
        out = {}
        for n, g in self.getters.items():
            try:
                out[n] = g()
            except NameError:
                out[n] = UNBOUND
        return out

    def put(self, d):
        self.setter({n: (Poison("%s is not bound" % n) if v is UNBOUND else v) for n, v in d.items()})


def for_loop(site, it, body, getters, setter):
    s = to_seq(it)
    if isinstance(s, list):
        for v in s:
            r = body(v)
            if r is None:
                continue
            if r is BREAK:
                break
            return r
        return None
    loop = Loop(site, s, body, getters, setter)
    for spec in SPECS:
        if spec.match(loop):
            return by_spec(loop, spec)
    return auto_loop(loop)


class LoopSpec:
    """inductive invariant of a symbolic loop, stated over the abstract state"""
    name = "loop"
    mode, only = "full", None

    def key(self, loop):
        """what the step of this loop depends on, one key per invariant"""
        raise NotImplementedError

    def match(self, loop):
        raise NotImplementedError

    def havoc(self, loop, k):
        """put the loop state after k iterations: fresh contents for everything the loop changes; returns the cells"""
        raise NotImplementedError

    def inv(self, loop, k):
        """[(name, term)] on the current state"""
        raise NotImplementedError

    def hints(self, loop, k):
        return []


def by_spec(loop, spec):
    """mode "full": the step is verified here; "step": the step (of the goals in `only`) is verified and the contract ends here;
    "use": the step is verified by another contract of the same run, which must be for the same loop and abstract state"""
    n = loop.seq.n
    E.log.append(("loopspec", spec.name, loop.site))
    for name, t in spec.inv(loop, tm.num(0)):
        if spec.only is None or name in spec.only or spec.mode == "use":
            E.oblige("%s: invariant holds on entry: %s" % (spec.name, name), t)
    if spec.mode == "use":
        E.steps_used |= {(loop.site,) + tuple(k) for k in spec.key(loop)}
    else:
        step(loop, spec, n)
    if spec.mode == "step":
        E.steps_proved |= {(loop.site,) + tuple(k) for k in spec.key(loop)}
        raise Done()
    loop.put(loop.entry)
    spec.havoc(loop, n)
    for name, t in spec.inv(loop, n):
        E.assume(t)
    spec_exit = getattr(spec, "exit", None)
    if spec_exit:
        spec_exit(loop)
    return None


def step(loop, spec, n):
    """one iteration preserves the invariant"""
    mark = E.serial
    k = E.fresh("k", "I")
    base_pc, base_kind = list(E.pc), list(E.kind)
    E.assume(tm.and_(tm.le(0, k), tm.lt(k, n)))
    jpos = len(E.journal)
    cells = spec.havoc(loop, k)
    for name, t in spec.inv(loop, k):
        E.assume(t)
    start = loop.get()
    allowed = {id(c) for c in cells}

    def run():
        loop.put(start)
        jp = len(E.journal)
        e = elem(loop.seq, k)
        r = loop.body(e)
        if r is not None:
            raise Unsupported("early exit from a loop under an invariant")
        for c, old in E.journal[jp:]:
            if isinstance(c, AttrCell):
                raise Unsupported("attribute assigned in a loop under an invariant")
            if c.serial <= mark and id(c) not in allowed:
                raise Unsupported("loop changes a location outside its frame")
        for h in spec.hints(loop, k):
            E.oblige("%s: step" % spec.name, h)
        for name, t in spec.inv(loop, tm.add(k, 1)):
            if spec.only is None or name in spec.only:
                E.oblige("%s: invariant preserved: %s" % (spec.name, name), t, assume=spec.only is None)
        return None
    paths = E.explore(run)
    for ds, fs, oc, _ in paths:
        if oc[0] == "exc":
            e = oc[1]
            E.oblige("safe: no exception (%s) in %s" % (e, spec.name), tm.not_(tm.and_(*ds)))
    E.rollback(jpos)
    E.pc, E.kind = base_pc, base_kind


# ------------------------------------------------------------------------------------------------ automatic closed forms
class HvToken:
    """marks terms that depend on the unknown loop prefix"""


def is_hv(t):
    """does the term mention a havoced symbol?"""
    names = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym" and str(x.args[0]).startswith("hv"):
            return True
        if x.op == "app" and str(x.args[0]).startswith("hv"):
            return True
        if x.op == "poly":
            for mm, _ in x.args:
                stack.extend(a for a, _ in mm)
        elif x.op == "bind":
            stack.extend(x.args[3])
            stack.extend(x.args[4])
        elif x.op not in ("sym", "bv", "const"):
            stack.extend(a for a in x.args if isinstance(a, tm.T))
    return False


def val_hv(v):
    if isinstance(v, Num):
        return is_hv(v.t) or is_hv(v.nan)
    if isinstance(v, (SVal, SBool)):
        return is_hv(v.t)
    if isinstance(v, tuple):
        return any(val_hv(x) for x in v)
    if isinstance(v, Poison):
        return True
    if isinstance(v, Fz):
        return content_hv(v.c)
    if isinstance(v, Heap):
        return content_hv(v.c)
    return False


def content_hv(c):
    if isinstance(c, ArrC):
        p = [tm.fresh("p", "I") for _ in c.shape]
        return any(is_hv(s) for s in c.shape) or val_hv(c.at(*p))
    if isinstance(c, SeqC):
        for s in c.segs:
            if s[0] == "item":
                if val_hv(s[1]):
                    return True
            elif is_hv(s[1]) or val_hv(s[2](tm.fresh("p", "I"))):
                return True
        return False
    if isinstance(c, DictC):
        return any(val_hv(v) for v in c.items.values()) or any(val_hv(v) or val_hv(k) for k, v in c.stores)
    if hasattr(c, "probe"):
        return any(val_hv(x) for x in c.probe())
    raise Unsupported("closed form over %s" % type(c).__name__)


def hv_content(c, e=None):
    """fresh contents of the same kind"""
    if isinstance(c, SeqC):
        m = tm.fresh("hvlen", "I")
        return SeqC(c.segs + (("seg", m, lambda i: Poison("earlier element of a list under construction")),))
    if isinstance(c, ArrC):
        f, g = "hv%d" % next_id(), None
        p = [tm.fresh("p", "I") for _ in c.shape]
        v = c.at(*p)
        if isinstance(v, (SVal, str)):
            return ArrC(c.shape, lambda *i: SVal(tm.app(f, i, "V")), index=c.index)
        if isinstance(v, (bool, SBool)):
            return ArrC(c.shape, lambda *i: mkbool(tm.app(f, i, "B")), index=c.index)
        return ArrC(c.shape, lambda *i: Num(tm.app(f, i, "R"), tm.app(f + "nan", i, "B")), index=c.index)
    if isinstance(c, DictC):
        h = HvDict(c.items, c.fam, c.stores)
        h.elem = None if e is None else (e if isinstance(e, tuple) else (e,))
        h.lists, h.hv = False, None
        if is_lists(c):
            h.fam, h.lists, h.hv = hv_lists(c), True, True
        return h
    if hasattr(c, "hv"):
        return c.hv()
    raise Unsupported("closed form over %s" % type(c).__name__)


def is_lists(c):
    """a dict over a symbolic set of keys whose values are lists"""
    if c.fam is None or c.items or c.stores:
        return False
    v = c.fam.val(*[SVal(tm.fresh("pk", "V")) for _ in range(c.fam.arity)])
    return isinstance(v, Fz) and v.cls is SList and isinstance(v.c, SeqC)


def hv_lists(c):
    tag, memo = "hvlen%d" % next_id(), {}

    def val(*k):
        key = tuple(valt(x) for x in k)
        if key not in memo:
            segs = c.fam.val(*k).c.segs
            memo[key] = SeqC(segs + (("seg", tm.app(tag, key, "I"), lambda i: Poison("earlier element of a list under construction")),))
        return Fz(SList, memo[key])
    return Fam(c.fam.seq, val, c.fam.arity, c.fam.tup)


def list_updates(old, new):
    """appends to the lists of a dict of lists, relative to the havoced content"""
    def tail(k, v):
        o = old.fam.val(*k).c.segs
        if not isinstance(v, Fz) or not isinstance(v.c, SeqC) or v.c.segs[:len(o)] != o:
            return None
        return v.c.segs[len(o):]
    if new.items or len(old.stores):
        return None
    if new.fam is not old.fam:
        if new.stores or getattr(new.fam, "app_base", None) is not old.fam:
            return None
        return [Update("famappend", new.fam.app)]
    out = []
    for k, v in new.stores:
        t = tail(k, v)
        if t is None:
            return None
        out.append(Update("dappend", (k, tuple(t))))
    return out


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


class Update:
    """one iteration's change to a content, relative to the (havoced) content before it"""

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def diff(old, new):
    """updates turning old (havoced) into new, or None if not expressible"""
    if new is old:
        return []
    if isinstance(old, SeqC) and isinstance(new, SeqC):
        k = len(old.segs)
        if new.segs[:k] == old.segs:
            return [Update("append", s) for s in new.segs[k:]]
        return None
    if isinstance(old, ArrC) and isinstance(new, ArrC):
        if new.fn is old.fn and new.stores[:len(old.stores)] == old.stores:
            return [Update("store", s) for s in new.stores[len(old.stores):]]
        return None
    if isinstance(old, HvDict) and old.lists and isinstance(new, DictC):
        return list_updates(old, new)
    if isinstance(old, DictC) and isinstance(new, DictC):
        if new.fam is old.fam and new.items == old.items and new.stores[:len(old.stores)] == old.stores:
            out = []
            for k, v in new.stores[len(old.stores):]:
                out.append(Update("dstore", (k, v)))
            return out
        if new.fam is old.fam and not new.stores and not old.stores and new.fam is None:
            ks = [k for k in new.items if k not in old.items]
            if all(new.items[k] is old.items[k] for k in old.items):
                return [Update("dstore", (split_key(k)[0], new.items[k])) for k in ks]
        return None
    if hasattr(old, "diff"):
        return old.diff(new)
    return None


def auto_loop(loop):
    cells, nums = {}, set()
    n_ob = len(E.obligations)
    for attempt in range(6):
        res = auto_try(loop, cells, nums, discover=(attempt == 0), n_ob=n_ob)
        if res is not None:
            return res[0]
        del E.obligations[n_ob:]
    raise Unsupported("no closed form found for the loop %s" % loop.site)


def auto_try(loop, cells, nums, discover, n_ob):
    """one run of a generic iteration from the havoced state; extends `cells`/`nums` and returns None if the frame grew"""
    s = loop.seq
    j, rng = index_of(s, "it")
    mark = E.serial
    jpos = len(E.journal)
    hv = {}
    start = dict(loop.entry)
    for n in list(start):
        v = start[n]
        if n in nums:
            start[n] = Num(tm.fresh("hvn", numt(v).sort if not isinstance(v, float) else "R"))
        elif not discover:
            start[n] = Poison("%s carried from an earlier iteration" % n) if n not in loop_const(loop, start) else v
    if not discover:
        for c in cells.values():
            E.journal.append((c, c.c))
            c.c = hv_content(c.c, elem(s, j) if s.pos is not None else None)
            hv[id(c)] = c.c
    pc0, kind0 = list(E.pc), list(E.kind)
    records = []

    def run():
        loop.put(start)
        jp = len(E.journal)
        r = loop.body(elem(s, j))
        if r is not None:
            raise Unsupported("early exit from a symbolic loop (%s)" % loop.site)
        changed = {}
        for c, old in E.journal[jp:]:
            if isinstance(c, AttrCell):
                changed[("attr", id(c.obj), c.name)] = (c, old)
            elif c.serial <= mark and id(c) not in changed:
                changed[id(c)] = (c, old)
        rec = {"cells": {}, "locals": {}, "grow": []}
        for k, (c, old) in changed.items():
            if isinstance(c, AttrCell):
                if c.obj.__dict__.get(c.name) is not old:
                    raise Unsupported("attribute %s assigned in a symbolic loop" % c.name)
                continue
            if k in hv:
                rec["cells"][k] = freeze_updates(diff(hv[k], c.c))
            else:
                # unchanged after all?
                try:
                    same = E.known(same_content(old, c.c))
                except Unsupported:
                    same = False
                if not same:
                    rec["grow"].append(c)
        now = loop.get()
        for n in now:
            if n in nums:
                rec["locals"][n] = now[n]
            elif isinstance(loop.entry[n], (int, float, Num)) and not isinstance(loop.entry[n], bool):
                if now[n] is not start[n] and isinstance(now[n], (int, float, Num)) and reads_itself(loop, n):
                    rec["grow"].append(n)
        return rec
    try:
        paths = body_paths(j, rng, run)
    except Unsupported:
        if not discover:
            raise
        raise
    finally:
        E.rollback(jpos)
    grow = [g for _, r in paths for g in r["grow"]]
    if grow or discover:
        E.pc, E.kind = pc0, kind0
        new = False
        for g in grow:
            if isinstance(g, str):
                if g not in nums:
                    nums.add(g)
                    new = True
            elif id(g) not in cells:
                cells[id(g)] = g
                new = True
        return None
    # closed forms
    news = {}
    for k, c in cells.items():
        ups = [(cond, r["cells"].get(k, [])) for cond, r in paths]
        news[k] = closed(loop, s, j, c.c, ups)
    outs = {}
    for n in nums:
        h = start[n].t
        total = tm.num(0)
        for cond, r in paths:
            v = asnum(r["locals"][n])
            d = tm.sub(v.t, h)
            if is_hv(d) or v.nan is not FALSE or is_hv(cond):
                raise Unsupported("accumulator %s is not a sum" % n)
            total = tm.add(total, tm.ite(cond, d, 0))
        outs[n] = Num(tm.add(numt(loop.entry[n]), tm.sum_close(s.n, j, total)))
    for k, c in cells.items():
        if news[k] is not None:
            c.set(news[k], False)       # writes through a view were judged in the body
    final = {}
    for n, v in loop.entry.items():
        if n in outs:
            final[n] = outs[n]
        else:
            final[n] = Poison("%s was assigned in a loop" % n)
    loop.put(final)
    return (None,)


def reads_itself(loop, n):
    return True


def loop_const(loop, start):
    return ()


def freeze_updates(ups):
    if ups is None:
        raise Unsupported("loop body changes a container in a way without a closed form")
    out = []
    for u in ups:
        if u.kind == "append":
            s = u.data
            if s[0] == "item":
                out.append(Update("append", ("item", freeze(s[1]))))
            else:
                out.append(u)
        elif u.kind in ("store", "dstore"):
            out.append(Update(u.kind, (u.data[0], freeze(u.data[1]))))
        elif u.kind == "dappend":
            out.append(Update(u.kind, (u.data[0], tuple(("item", freeze(x[1])) if x[0] == "item" else x for x in u.data[1]))))
        else:
            out.append(u)
    return out


def closed(loop, s, j, old, ups):
    """content after all iterations"""
    if all(not u for _, u in ups):
        return None
    for cond, us in ups:
        if is_hv(cond):
            raise Unsupported("loop branches on its own earlier results")
        for u in us:
            if u.kind in ("append",) and val_hv(u.data[1] if u.data[0] == "item" else None):
                raise Unsupported("appended value depends on earlier iterations")
            if u.kind in ("store", "dstore") and (val_hv(u.data[1]) or any(val_hv(scalar(x) if isinstance(x, tm.T) else x) for x in u.data[0])):
                raise Unsupported("stored value depends on earlier iterations")
    if isinstance(old, SeqC):
        return closed_list(s, j, old, ups)
    if isinstance(old, ArrC):
        return closed_arr(s, j, old, ups)
    if isinstance(old, DictC):
        return closed_dict(s, j, old, ups)
    if hasattr(old, "closed"):
        return old.closed(s, j, ups)
    raise Unsupported("closed form")


def closed_list(s, j, old, ups):
    counts = {len(u) for _, u in ups}
    if counts == {1} and all(u[0].data[0] == "item" for _, u in ups):
        v = merge_paths([(c, u[0].data[1]) for c, u in ups])
        return SeqC(old.segs + (("seg", s.n, lambda i: thaw(vsubst(v, {j: i}))),))
    if counts == {0, 1} and all(u[0].data[0] == "item" for _, u in ups if u):
        on = [(c, u[0].data[1]) for c, u in ups if u]
        g = tm.or_(*[c for c, _ in on])
        v = merge_paths(on)
        n, sel, pos = select(lambda i: tm.subst(g, {j: i}), s.n)
        return SeqC(old.segs + (("seg", n, lambda i: thaw(vsubst(v, {j: sel(i)}))),))
    if len(ups) == 1 and counts == {1} and ups[0][1][0].data[0] == "seg":
        # a whole segment per iteration, always of the same length: the product of the two index ranges
        seg = ups[0][1][0].data
        if j not in seg[1].syms:
            res = product("list", s, None, j, Fz(SList, SeqC([seg])))
            return SeqC(old.segs + res.c.segs)
    raise Unsupported("loop appends %s items per iteration" % sorted(counts))


def solve(t, j):
    """e such that t(j) = x  <=>  j = e(x):  returns function x -> j, for t = +-j + rest"""
    d = tm.polyd(t)
    c = d.get(((j, 1),))
    if c in (1, -1) and all(m == ((j, 1),) or all(j not in a.syms for a, _ in m) for m in d):
        rest = tm.sub(t, tm.scale(j, c))
        return lambda x: tm.scale(tm.sub(x, rest), c)
    return None


def closed_arr(s, j, old, ups):
    fn = None
    stores = [(c, u.data) for c, us in ups for u in us]
    if any(len(us) > 1 for _, us in ups):
        raise Unsupported("several stores per iteration")
    ii0 = stores[0][1][0]
    for _, (ii, _) in stores:
        if any(a is not b for a, b in zip(ii, ii0)):
            raise Unsupported("stores at different indices on different paths")
    axis = [a for a, t in enumerate(ii0) if j in t.syms]
    if len(axis) != 1:
        raise Unsupported("store index is not one-to-one in the iteration")
    ax = axis[0]
    inv = solve(ii0[ax], j)
    if inv is None:
        e = None
        raise Unsupported("store index is not one-to-one in the iteration")
    g = tm.or_(*[c for c, _ in stores])
    v = merge_paths([(c, d[1]) for c, d in stores])

    def at(*i):
        jj = inv(i[ax])
        cond = tm.and_(tm.le(0, jj), tm.lt(jj, s.n), *[tm.eq(i[a], ii0[a]) for a in range(len(i)) if a != ax])
        cond = tm.and_(cond, tm.subst(g, {j: jj}))
        return ite_val(cond, vsubst(v, {j: jj}), old.at(*i))
    if g is TRUE and len(old.shape) == 1 and ii0[0] is j and (s.n is old.shape[0] or E.known(tm.eq(s.n, old.shape[0]))):
        return ArrC(old.shape, lambda i: vsubst(v, {j: i}), index=old.index)
    return ArrC(old.shape, at, index=old.index)


def seg_subst(x, m):
    if x[0] == "item":
        return ("item", vsubst(x[1], m))
    return ("seg", tm.subst(x[1], m), lambda i: under(x[2], (i,), m))


def closed_lists(s, j, old, ups):
    """every iteration appends one segment to the lists of a dict of lists"""
    if any(len(us) != 1 for _, us in ups) or len(ups) != 1:
        raise Unsupported("conditional appends to lists in a dict")
    u = ups[0][1][0]
    base = old.fam
    if u.kind == "famappend":
        app = u.data

        def grown(*k):
            x = app(*k)
            if x[0] != "item":
                raise Unsupported("a loop appends whole lists")
            v = x[1]
            return ("seg", s.n, lambda i: thaw(vsubst(v, {j: i})))
        return fam_append(old, grown)
    k0, segs = u.data
    if len(segs) != 1:
        raise Unsupported("several appends per iteration")
    x = segs[0]
    if val_hv(x[1] if x[0] == "item" else x[2](tm.fresh("p", "I"))):
        raise Unsupported("appended value depends on earlier iterations")
    e = s.at(j)
    et = e if isinstance(e, tuple) else (e,)
    if all(j not in valt(k).syms for k in k0):
        if x[0] != "item":
            raise Unsupported("a loop appends whole lists")
        v = x[1]
        o = base.val(*k0).c.segs
        return write_key(old, k0, Fz(SList, SeqC(o + (("seg", s.n, lambda i: thaw(vsubst(v, {j: i}))),))))
    if s.pos is None or len(k0) != len(et) or not all(same_elem(a, b) for a, b in zip(k0, et)):
        raise Unsupported("the appended list's key is not the loop element")
    if s is not base.seq:
        raise Unsupported("appends to the lists of some keys only")
    return fam_append(old, lambda *k: seg_subst(x, {j: s.pos(*k)}))


def fam_append(old, app):
    base = old.fam
    f = Fam(base.seq, lambda *k: Fz(SList, SeqC(base.val(*k).c.segs + (app(*k),))), base.arity, base.tup)
    f.app_base, f.app = base, app
    return old.like(old.items, f, old.stores)


def closed_dict(s, j, old, ups):
    if any(u.kind in ("dappend", "famappend") for _, us in ups for u in us):
        return closed_lists(s, j, old, ups)
    stores = [(c, u.data) for c, us in ups for u in us]
    if any(len(us) > 1 for _, us in ups):
        raise Unsupported("several dict stores per iteration")
    k0 = stores[0][1][0]
    e = s.at(j)
    et = e if isinstance(e, tuple) else (e,)
    for _, (k, _) in stores:
        if len(k) != len(k0) or not all(same_elem(x, y) for x, y in zip(k, k0)):
            raise Unsupported("dict stores at different keys")
    if s.pos is None or len(k0) != len(et) or not all(same_elem(x, y) for x, y in zip(k0, et)):
        raise Unsupported("dict store key is not the loop element")
    g = tm.or_(*[c for c, _ in stores])
    v = merge_paths([(c, d[1]) for c, d in stores])
    if g is not TRUE:
        raise Unsupported("conditional dict store")
    if old.fam is None and not old.items and not old.stores:
        return DictC(fam=Fam(s, lambda *q: vsubst(v, {j: s.pos(*q)}), len(et), isinstance(e, tuple)))
    raise Unsupported("dict store loop into a non-empty dict")


def while_loop(site, cond, body, getters, setter):
    loop = Loop(site, None, body, getters, setter, cond)
    for spec in SPECS:
        if spec.match(loop):
            return by_while_spec(loop, spec)
    for _ in range(64):
        c = cond()
        if isinstance(c, (Sym, Heap)) and not isinstance(c, bool):
            t = boolt(c)
            if t is FALSE:
                return None
            if t is not TRUE:
                if E.known(t):
                    pass
                elif E.known(tm.not_(t)):
                    return None
                else:
                    raise Unsupported("while loop with a symbolic condition (%s)" % site)
        elif not c:
            return None
        r = body()
        if r is None:
            continue
        if r is BREAK:
            return None
        return r
    raise Unsupported("while loop unrolled too often")


def by_while_spec(loop, spec):
    """partial correctness: invariant on entry, preserved under the condition, and assumed with the negated condition"""
    for name, t in spec.inv(loop, None):
        E.oblige("%s: invariant holds on entry: %s" % (spec.name, name), t)
    mark = E.serial
    base_pc, base_kind = list(E.pc), list(E.kind)
    jpos = len(E.journal)
    cells = spec.havoc(loop, None)
    for name, t in spec.inv(loop, None):
        E.assume(t)
    start = loop.get()
    allowed = {id(c) for c in cells}

    def run():
        loop.put(start)
        E.assume(boolt(loop.cond()), "d")
        jp = len(E.journal)
        dec = getattr(spec, "variant", None)
        v0 = dec(loop) if dec else None
        if dec:
            E.oblige("%s: the variant is bounded" % spec.name, tm.le(0, v0))
        r = loop.body()
        if r is not None:
            raise Unsupported("early exit from a loop under an invariant")
        for c, old in E.journal[jp:]:
            if isinstance(c, AttrCell) or (c.serial <= mark and id(c) not in allowed):
                raise Unsupported("loop changes a location outside its frame")
        for name, t in spec.inv(loop, None):
            E.oblige("%s: invariant preserved: %s" % (spec.name, name), t)
        if dec:
            E.oblige("%s: the variant decreases" % spec.name, tm.lt(dec(loop), v0))
        return None
    for ds, fs, oc, _ in E.explore(run):
        if oc[0] == "exc":
            E.oblige("safe: no exception (%s) in %s" % (oc[1], spec.name), tm.not_(tm.and_(*ds)))
    E.rollback(jpos)
    E.pc, E.kind = base_pc, base_kind
    loop.put(loop.entry)
    spec.havoc(loop, None)
    for name, t in spec.inv(loop, None):
        E.assume(t)
    E.assume(tm.not_(boolt(loop.cond())))
    done = getattr(spec, "exit", None)
    if done:
        done(loop)
    return None


# ------------------------------------------------------------------------------------------------ displays, operators
def truth(x):
    if isinstance(x, bool):
        return x
    return bool(x)


def mklist(x):
    return SList.of(list(x))


def mkdict(pairs):
    d = SDict()
    for k, v in pairs:
        d[k] = v
    return d


def contains(x, c):
    if hasattr(c, "_vc_has"):
        return mkbool(c._vc_has(x))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (dict, set, frozenset)) and not isinstance(x, Sym):
        return x in c
    s = to_seq(c)
    key = x if isinstance(x, tuple) else (x,)
    if isinstance(s, list):
        return mkbool(tm.or_(*[elem_eq(x, v) for v in s]))
    if s.pos is not None or s._has is not None:
        return mkbool(s.has(*key))
    return mkbool(tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, s.n), elem_eq(x, s.at(i)))))


def elem_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tm.and_(*[elem_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    r = a == b
    return boolt(r)


def join(sep, parts):
    s = to_seq(parts)
    if not isinstance(s, list):
        raise Unsupported("join of a symbolic sequence")
    if all(isinstance(x, str) for x in s):
        return sep.join(s)
    if not all(isinstance(x, (str, SVal)) for x in s):
        raise Unsupported("join of %s" % [type(x).__name__ for x in s])
    return SVal(tm.app("join", [tm.strc(sep)] + [valt(x) for x in s], "V"))


def fstring(parts):
    if all(isinstance(p, (str, int, float)) for p in parts):
        return "".join(str(p) for p in parts)
    out = None
    for p in parts:
        v = p if isinstance(p, (str, SVal)) else SVal(tm.app("str", [valt(p)], "V")) if isinstance(p, (Num, int, float)) else SVal(tm.fresh("str", "V"))
        out = v if out is None else SVal(tm.app("concat", [valt(out), valt(v)], "V"))
    return out


def kwcall(fn, args, kws):
    out = {}
    for k, v in kws:
        if k is not None:
            out[k] = v
            continue
        if isinstance(v, dict):
            out.update(v)
        elif isinstance(v, SDict) and v.concrete() and all(isinstance(x, str) for x in v.c.items):
            for x in v.c.items:
                out[x] = v[x]
        elif isinstance(v, SDict):
            f = getattr(fn, "_vc_starstar", None)
            if f is None:
                raise Unsupported("** call with symbolic keys")
            return f(fn.__self__, args, out, v)
        else:
            raise Unsupported("** call")
    return fn(*args, **out)


def native_iter(it):
    s = to_seq(it)
    if isinstance(s, list):
        return s
    raise Unsupported("for ... else over a symbolic iterable")
