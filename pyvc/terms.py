"""Hash-consed terms with a ring normal form and binders (sums, maxima, quantifiers, model calls).

Sorts: 'I' int, 'R' real, 'B' bool, 'V' opaque value (cell values, column names, strings).
Numbers are mathematical (exact rationals); a polynomial node is the normal form of + - * and of
integer powers, division is multiplication by an `inv` atom.  Binder nodes are locally nameless:
the bound variable of a binder is bv(h) where h is the binder's height, so alpha-equivalent terms are
the same object, and Sigma is kept linear: a sum is distributed over the monomials of its body and
factors that do not mention the index are pulled out.
"""
from fractions import Fraction
from functools import lru_cache

_table = {}
_uid = [0]


class T:
    __slots__ = ("op", "args", "sort", "uid", "syms", "bh", "hasbv", "_hash")

    def __repr__(self):
        return pp(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %s" % pp(self)[:200])


EMPTY = frozenset()


def _mk(op, args, sort, kids):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.sort = op, args, sort
    _uid[0] += 1
    t.uid = _uid[0]
    s = EMPTY
    bh = 0
    for k in kids:
        if k.syms:
            s = s | k.syms if s else k.syms
        if k.bh > bh:
            bh = k.bh
    t.syms, t.bh = s, bh
    t.hasbv = any(x.op == "bv" for x in s)
    _table[key] = t
    return t


def okey(t):
    return (0 if t.hasbv else 1, t.uid)


# ---------------------------------------------------------------- leaves
def sym(name, sort):
    t = _table.get(("sym", (name,), sort))
    if t is not None:
        return t
    t = _mk("sym", (name,), sort, ())
    t.syms = frozenset([t])
    return t


def bv(h, sort):
    t = _table.get(("bv", (h,), sort))
    if t is not None:
        return t
    t = _mk("bv", (h,), sort, ())
    t.syms = frozenset([t])
    t.hasbv = True
    return t


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return sym("%s!%d" % (prefix, _fresh[0]), sort)


def const(name, sort="V"):
    """a constant: distinct names denote distinct values"""
    return _mk("const", (name,), sort, ())


def strc(s):
    return const(("s", s), "V")


TRUE = _mk("true", (), "B", ())
FALSE = _mk("false", (), "B", ())


# equations used left to right by `normalise` (and only there): name -> fn(args) -> term or None
REWRITE = {}
REWRITING = [False]
# names of functions that stand for a (large) term: their definition is one of the equations above and nothing else is known of them
DEFINED = set()


def match(pat, hole, t):
    """is t an instance of pat with the symbol `hole` standing for some term (the same at each place)?"""
    bound = []

    def go(p, u):
        if p is hole:
            if not bound:
                bound.append(u)
            return bound[0] is u
        if p is u:
            return True
        if hole not in p.syms or p.op != u.op or p.op != "app" or p.args[0] != u.args[0] or len(p.args) != len(u.args):
            return False
        return all(go(a, b) for a, b in zip(p.args[1:], u.args[1:]))
    return go(pat, t)


def app(name, args, sort):
    args = tuple(lift(a) for a in args)
    if REWRITING[0]:
        rule = REWRITE.get(name)
        if rule is not None:
            r = rule(args)
            if r is not None:
                return r
    return _mk("app", (name,) + args, sort, args)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(Fraction(x))
    if isinstance(x, str):
        return strc(x)
    raise TypeError("cannot lift %r" % (x,))


# ---------------------------------------------------------------- polynomials
# representation: dict {mono: coeff}, mono = tuple of (atom, exp) sorted by okey
def num(q):
    q = Fraction(q)
    return _mkpoly({(): q} if q else {})


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((okey(a), e) for a, e in mc[0])))
    srt = "I"
    kids = []
    for m, c in items:
        if c.denominator != 1:
            srt = "R"
        for a, e in m:
            kids.append(a)
            if a.sort == "R":
                srt = "R"
    return _mk("poly", items, srt, kids)


def polyd(t):
    if t.op == "poly":
        return dict(t.args)
    if t.sort not in ("I", "R"):
        raise TypeError("not numeric: %r (%s)" % (t, t.sort))
    return {((t, 1),): Fraction(1)}


def numval(t):
    """Fraction if t is a numeric constant else None"""
    if t.op == "poly":
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        t = lift(t)
        for m, c in polyd(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(t, q):
    q = Fraction(q)
    return _mkpoly({m: c * q for m, c in polyd(lift(t)).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def is_indicator(a):
    return a.op == "ite" and numval(a.args[1]) == 1 and numval(a.args[2]) == 0


def _mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    # inv(x) * x for atomic x: cancel only when x is known positive (len, etc.) -> handled by posatoms
    for a in list(d):
        if a.op == "inv" and a.args[0] in d and a.args[0] in POSITIVE:
            k = min(d[a], d[a.args[0]])
            d[a] -= k
            d[a.args[0]] -= k
    for a in list(d):
        if is_indicator(a) and d[a] > 1:
            d[a] = 1
    for a in list(d):
        if a.op == "sqrt" and d[a] > 1:
            return None  # expand by caller
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: okey(ae[0])))


POSITIVE = set()  # atoms declared positive (cancelled against their inverse)


def declare_positive(t):
    POSITIVE.add(t)


def mul(*ts):
    r = num(1)
    for t in ts:
        r = _mul2(r, lift(t))
    return r


def _mul2(a, b):
    d = {}
    extra = []
    for m1, c1 in polyd(a).items():
        for m2, c2 in polyd(b).items():
            m = _mulmono(m1, m2)
            if m is None:
                extra.append(_sqrtmono(m1 + m2, c1 * c2))
                continue
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    return add(r, *extra) if extra else r


def _sqrtmono(m, c):
    """sqrt(x)^2 = x  (sqrt args are nonnegative by construction obligations)"""
    d = {}
    for a, e in m:
        d[a] = d.get(a, 0) + e
    r = num(c)
    rest = {}
    for a, e in d.items():
        if a.op == "sqrt":
            for _ in range(e // 2):
                r = _mul2(r, a.args[0])
            if e % 2:
                rest[a] = 1
        else:
            rest[a] = 1 if is_indicator(a) else e
    mm = tuple(sorted(rest.items(), key=lambda ae: okey(ae[0])))
    return _mul2(r, _mkpoly({mm: Fraction(1)}))


def power(a, k):
    r = num(1)
    for _ in range(k):
        r = _mul2(r, a)
    return r


def inv(b):
    b = lift(b)
    v = numval(b)
    if v is not None:
        if v == 0:
            return _mk("inv", (b,), "R", (b,))
        return num(1 / v)
    d = polyd(b)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(1 / c)
        for a, e in m:
            if a.op == "inv":
                ia = a.args[0] if False else _mk("inv", (a,), "R", (a,))
            else:
                ia = _mk("inv", (a,), "R", (a,))
            r = _mul2(r, power(ia, e))
        return r
    # normalise leading coefficient
    lead = b.args[0][1]
    nb = scale(b, 1 / lead)
    return scale(_mk("inv", (nb,), "R", (nb,)), 1 / lead)


def div(a, b):
    return mul(lift(a), inv(b))


def sqrt(a):
    a = lift(a)
    v = numval(a)
    if v in (0, 1):
        return a
    return _mk("sqrt", (a,), "R", (a,))


def absv(a):
    a = lift(a)
    v = numval(a)
    if v is not None:
        return num(abs(v))
    d = polyd(a)
    if len(d) == 1:
        (m, c), = d.items()
        if all(e % 2 == 0 for _, e in m):
            return scale(a, 1 if c > 0 else -1)
    lead = a.args[0][1] if a.op == "poly" else 1
    if lead < 0:
        a = neg(a)
    return _mk("abs", (a,), a.sort, (a,))


# ---------------------------------------------------------------- booleans
def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort in ("I", "R") and b.sort in ("I", "R"):
        d = sub(a, b)
        v = numval(d)
        if v is not None:
            return TRUE if v == 0 else FALSE
        lead = d.args[0][1] if d.op == "poly" else Fraction(1)
        d = scale(d, 1 / abs(lead) if d.sort == "R" else (1 if lead > 0 else -1))
        if d.op == "poly" and d.args[0][1] < 0:
            d = neg(d)
        # push through ite with constant branches
        if d.op == "ite" and numval(d.args[1]) is not None and numval(d.args[2]) is not None:
            return ite(d.args[0], numval(d.args[1]) == 0, numval(d.args[2]) == 0)
        # constant + coefficient * indicator
        if d.op == "poly" and len(d.args) <= 2:
            at = [(mm, q) for mm, q in d.args if mm]
            if len(at) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
                x, q = at[0][0][0][0], at[0][1]
                k = sum((q0 for mm, q0 in d.args if not mm), Fraction(0))
                if x.op == "ite" and numval(x.args[1]) is not None and numval(x.args[2]) is not None:
                    return ite(x.args[0], k + q * numval(x.args[1]) == 0, k + q * numval(x.args[2]) == 0)
        return _mk("eq0", (d,), "B", (d,))
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        x, y = sorted((a, b), key=okey)
        return _mk("iff", (x, y), "B", (x, y))
    if a.sort != b.sort:
        raise TypeError("eq of %s and %s: %r, %r" % (a.sort, b.sort, a, b))
    if a.op == "const" and b.op == "const":
        return FALSE
    x, y = sorted((a, b), key=okey)
    return _mk("eq", (x, y), "B", (x, y))


def ne(a, b):
    return not_(eq(a, b))


def le(a, b):
    d = sub(lift(a), lift(b))
    v = numval(d)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    lead = abs(d.args[0][1]) if d.op == "poly" else Fraction(1)
    if d.sort == "R":
        d = scale(d, 1 / lead)
    return _mk("le0", (d,), "B", (d,))


def lt(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "I" and b.sort == "I":
        return le(add(a, 1), b)
    return not_(le(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0" and a.args[0].sort == "I":
        return _mk("le0", (add(neg(a.args[0]), 1),), "B", (a.args[0],))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return _mk("not", (a,), "B", (a,))


def and_(*ts):
    s = {}
    for t in ts:
        t = lift(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == "and" else (t,)):
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    a = tuple(sorted(s, key=okey))
    return _mk("and", a, "B", a)


def or_(*ts):
    s = {}
    for t in ts:
        t = lift(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.args if t.op == "or" else (t,)):
            s[x] = 1
    for x in s:
        n = x.args[0] if x.op == "not" else None
        if n is not None and n in s:
            return TRUE
        if x.op == "le0" and not_(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    a = tuple(sorted(s, key=okey))
    return _mk("or", a, "B", a)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return and_(implies(c, a), implies(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if c.op == "eq":
        # ite(x = y, x, y) is y
        if (a is c.args[0] and b is c.args[1]) or (a is c.args[1] and b is c.args[0]):
            return b
    srt = a.sort if a.sort == b.sort else "R"
    if a.sort != b.sort and not {a.sort, b.sort} <= {"I", "R"}:
        raise TypeError("ite sorts %s %s" % (a.sort, b.sort))
    return _mk("ite", (c, a, b), srt, (c, a, b))


def indicator(c):
    return ite(c, 1, 0)


def indpoly(c):
    """indicator of a boolean as a polynomial over indicator atoms of literals"""
    if c is TRUE:
        return num(1)
    if c is FALSE:
        return num(0)
    if c.op == "and":
        return mul(*[indpoly(x) for x in c.args])
    if c.op == "or":
        return sub(1, mul(*[sub(1, indpoly(x)) for x in c.args]))
    if c.op == "not":
        return sub(1, indpoly(c.args[0]))
    if c.op == "le0":
        n = not_(c)
        if n.op == "le0" and okey(n) < okey(c):
            return sub(1, indicator(n))
    return indicator(c)


# ---------------------------------------------------------------- binders
def close(symb, bodies):
    h = 1 + max([b.bh for b in bodies] + [0])
    v = bv(h, symb.sort)
    return h, tuple(subst(b, {symb: v}) for b in bodies)


def mk_bind(kind, extras, vsort, symb, bodies, sort):
    """binder over `symb`; bodies are terms containing symb; extras are closed terms (extras[0] = n)"""
    extras = tuple(lift(e) for e in extras)
    bodies = tuple(lift(b) for b in bodies)
    h, cb = close(symb, bodies)
    args = (kind, h, vsort, extras, cb)
    key = ("bind", args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = _mk("bind", args, sort, extras)
    v = bv(h, vsort)
    s = t.syms
    for b in cb:
        s = s | (b.syms - {v})
    t.syms = s
    t.bh = max([h] + [e.bh for e in extras])
    t.hasbv = any(x.op == "bv" for x in s)
    return t


def open_bind(t, val):
    kind, h, vsort, extras, bodies = t.args
    v = bv(h, vsort)
    return tuple(subst(b, {v: val}) for b in bodies)


def mk_sum(n, f):
    """Sum_{0<=i<n} f(i)"""
    n = lift(n)
    if n is num(0):
        return n
    i = fresh("i", "I")
    return sum_close(n, i, lift(f(i)))


def _point(lit, i):
    """if lit is (i = e) with e free of i, return e"""
    if lit.op == "eq0":
        d = polyd(lit.args[0])
        ci = d.get(((i, 1),))
        if ci in (1, -1) and all(m == ((i, 1),) or all(i not in a.syms for a, _ in m) for m in d):
            rest = _mkpoly({m: c for m, c in d.items() if m != ((i, 1),)})
            return scale(rest, -1 / ci)
    return None


# row selections: number of selected rows -> (number of rows, guard, sel); a sum over the selected rows is a guarded sum over all rows
SELECTED = {}
SELPOS = {}         # ... -> position of a row among the selected ones
# groupings: number of groups -> (rows, [key literal (row, group)], member(row)); see GroupBy
GROUPED = {}


def sum_close(n, i, body, depth=0):
    if n in SELECTED:
        n0, guard, sel = SELECTED[n]
        j = fresh("i", "I")
        t = subst(body, {sel(i): j}, everything=True)
        if i not in t.syms:
            return sum_close(n0, j, mul(indpoly(guard(j)), t))
    res = num(0)
    inside = {le(0, i): 1, lt(i, n): 1, not_(le(0, i)): 0, not_(lt(i, n)): 0}
    for m, c in polyd(body).items():
        # expand ite atoms that depend on i
        for a, e in m:
            if a.op == "ite" and a.args[0] in inside:
                rest = _mkpoly({tuple((x, k) for x, k in m if x is not a): c})
                v = a.args[1] if inside[a.args[0]] else a.args[2]
                res = add(res, sum_close(n, i, mul(rest, power(v, e)), depth + 1))
                break
            if a.op == "ite" and i in a.syms and not is_indicator(a):
                rest = _mkpoly({tuple((x, k if x is not a else k - 1) for x, k in m if not (x is a and k == 1)): c})
                ip = indpoly(a.args[0])
                new = mul(rest, add(mul(ip, a.args[1]), mul(sub(1, ip), a.args[2])))
                res = add(res, sum_close(n, i, new, depth + 1))
                break
            if is_indicator(a) and i in a.syms and a.args[0].op in ("and", "or", "not"):
                rest = _mkpoly({tuple((x, k) for x, k in m if x is not a): c})
                res = add(res, sum_close(n, i, mul(rest, indpoly(a.args[0])), depth + 1))
                break
        else:
            outer, inner = [], []
            for ae in m:
                (inner if i in ae[0].syms else outer).append(ae)
            co = _mkpoly({tuple(outer): c})
            if not inner:
                res = add(res, mul(co, n))
                continue
            # point indicator: Sum_i [i = e] b(i) = [0<=e<n] b(e)
            pt = None
            for a, e in inner:
                if is_indicator(a):
                    pt = _point(a.args[0], i)
                    if pt is not None:
                        rest = _mkpoly({tuple((x, k) for x, k in inner if x is not a): Fraction(1)})
                        val = mul(indpoly(and_(le(0, pt), lt(pt, n))), subst(rest, {i: pt}))
                        res = add(res, mul(co, val))
                        break
            if pt is not None:
                continue
            if n in GROUPED and len(inner) == 1 and inner[0][1] == 1:
                v = regroup(n, i, inner[0][0])
                if v is not None:
                    res = add(res, mul(co, v))
                    continue
            # canonical nesting: finite sums are exchanged so that the smaller bound (in the term order) is outermost
            sums = [a for a, e in inner if a.op == "bind" and a.args[0] == "sum" and e == 1 and i not in a.args[3][0].syms]
            if len(sums) == 1 and okey(sums[0].args[3][0]) < okey(n):
                a = sums[0]
                j = fresh("i", "I")
                rest = _mkpoly({tuple((x, k) for x, k in inner if x is not a): Fraction(1)})
                in2 = sum_close(n, i, mul(rest, open_bind(a, j)[0]), depth + 1)
                res = add(res, mul(co, sum_close(a.args[3][0], j, in2, depth + 1)))
                continue
            b = _mkpoly({tuple(inner): Fraction(1)})
            res = add(res, mul(co, mk_bind("sum", (n,), "I", i, (b,), "R" if b.sort == "R" else "I")))
    return res


def regroup(n, g, a):
    """Sum over the groups g of (Sum over the rows j with key(j) = key(g) of R(j)) is the sum of R over the rows that belong to a group"""
    n0, lits, member = GROUPED[n]
    if not (a.op == "bind" and a.args[0] == "sum" and a.args[3][0] is n0):
        return None
    j = fresh("i", "I")
    ks = [x for x in lits(j, g) if x is not TRUE]
    (m, c), = polyd(open_bind(a, j)[0]).items() if len(polyd(open_bind(a, j)[0])) == 1 else (((), 0),)
    inds = [x for x, _ in m if is_indicator(x)]
    if not ks or any(indicator(k) not in inds for k in ks):
        return None
    rest = _mkpoly({tuple((x, e) for x, e in m if not (is_indicator(x) and x.args[0] in ks)): c})
    if g in rest.syms:
        return None
    return sum_close(n0, j, mul(indpoly(member(j)), rest))


def mk_red(kind, n, f):
    """max/min over 0<=i<n; f(i) -> (guard, value)"""
    i = fresh("i", "I")
    g, v = f(i)
    g, v = lift(g), lift(v)
    v = ite(g, v, 0) if False else v
    if i not in v.syms and g is TRUE:
        return v  # constant body (nonempty range is an obligation at the call)
    return mk_bind(kind, (n,), "I", i, (g, v), v.sort)


def forall(sort, f, pats=()):
    x = fresh("q", sort)
    b = lift(f(x))
    if b is TRUE:
        return TRUE
    if b is FALSE:
        return FALSE
    if x not in b.syms:
        return b
    return mk_bind("forall", (), sort, x, (b,), "B")


def exists(sort, f):
    return not_(forall(sort, lambda x: not_(f(x))))


def forall_i(n, f, lo=0):
    return forall("I", lambda i: implies(and_(le(lo, i), lt(i, n)), f(i)))


# ---------------------------------------------------------------- substitution
def normalise(t):
    """rebuild the term with the registered equations applied"""
    if not REWRITE:
        return t
    REWRITING[0] = True
    try:
        for _ in range(4):
            u = subst(t, {}, everything=True)
            if u is t:
                break
            t = u
        return t
    finally:
        REWRITING[0] = False


def subst(t, m, everything=False):
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not everything and not (t.syms & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = go1(t)
            memo[t] = r
        return r

    def go1(t):
        if t in m:
            return m[t]
        op = t.op
        if everything and op in ("sym", "bv", "const", "true", "false"):
            return t
        if op == "poly":
            r = {}
            parts = []
            for mono, c in t.args:
                if not everything and not any(a.syms & keys for a, _ in mono):
                    r[mono] = r.get(mono, 0) + c
                    continue
                x = num(c)
                for a, e in mono:
                    x = _mul2(x, power(go(a), e))
                parts.append(x)
            return add(_mkpoly(r), *parts)
        if op == "app":
            return app(t.args[0], [go(a) for a in t.args[1:]], t.sort)
        if op == "ite":
            return ite(*[go(a) for a in t.args])
        if op == "eq0":
            return eq(go(t.args[0]), 0)
        if op == "le0":
            return le(go(t.args[0]), 0)
        if op == "eq" or op == "iff":
            return eq(go(t.args[0]), go(t.args[1]))
        if op == "not":
            return not_(go(t.args[0]))
        if op == "and":
            return and_(*[go(a) for a in t.args])
        if op == "or":
            return or_(*[go(a) for a in t.args])
        if op == "inv":
            return inv(go(t.args[0]))
        if op == "sqrt":
            return sqrt(go(t.args[0]))
        if op == "abs":
            return absv(go(t.args[0]))
        if op == "bind":
            kind, h, vsort, extras, bodies = t.args
            x = fresh("b", vsort)
            ob = open_bind(t, x)
            nb = tuple(go(b) for b in ob)
            ne_ = tuple(go(e) for e in extras)
            return rebind(kind, ne_, vsort, x, nb, t.sort)
        raise TypeError(op)

    return go(t)


def rebind(kind, extras, vsort, x, bodies, sort):
    if kind == "sum":
        return sum_close(extras[0], x, bodies[0])
    if kind == "forall":
        b = bodies[0]
        if b is TRUE or b is FALSE or x not in b.syms:
            return b
    if kind in ("max", "min") and bodies[0] is TRUE and x not in bodies[1].syms:
        return bodies[1]
    return mk_bind(kind, extras, vsort, x, bodies, sort)


# ---------------------------------------------------------------- printing
def pp(t, d=0):
    if d > 12:
        return "..."
    op = t.op
    if op == "sym":
        return t.args[0]
    if op == "bv":
        return "%%%d" % t.args[0]
    if op == "const":
        a = t.args[0]
        return repr(a[1]) if isinstance(a, tuple) else str(a)
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            fs = ["%s^%d" % (pp(a, d + 1), e) if e > 1 else pp(a, d + 1) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return "%s(%s)" % (t.args[0], ",".join(pp(a, d + 1) for a in t.args[1:]))
    if op == "bind":
        kind, h, vs, ex, bo = t.args
        return "%s[%%%d;%s](%s)" % (kind, h, ",".join(pp(e, d + 1) for e in ex), " ; ".join(pp(b, d + 1) for b in bo))
    if op == "eq0":
        return "(%s = 0)" % pp(t.args[0], d + 1)
    if op == "le0":
        return "(%s <= 0)" % pp(t.args[0], d + 1)
    if op in ("true", "false"):
        return op
    return "%s(%s)" % (op, ", ".join(pp(a, d + 1) for a in t.args))


_full = {}


def full(t):
    """complete text of a term, by hashing shared sub-terms"""
    import hashlib
    r = _full.get(t)
    if r is None:
        def one(a):
            if isinstance(a, T):
                return full(a)
            if isinstance(a, tuple):
                return "(%s)" % ",".join(one(b) for b in a)
            return repr(a)
        r = hashlib.sha256(("%s|%s|%s" % (t.op, t.sort, one(t.args))).encode()).hexdigest()
        _full[t] = r
    return r
