"""Discharging obligations: ring normal form first, then z3 (cvc5 as a second opinion on unknowns).

Binder terms (sums, maxima, model calls, ...) are lambda-lifted: the body's maximal subterms that do not mention
the bound variable become arguments of an uninterpreted function named by the remaining shape, so instances with
equal arguments are equal by congruence.  Pairs of ground binder atoms of the same kind get a skolemised
extensionality lemma: equal ranges and pointwise equal bodies imply equal values (valid for every binder kind
used).  Products of several factors are first abstracted to atoms (sound: fewer facts), then, on failure,
translated exactly."""
import itertools
import time

import z3

from . import terms as tm
from .terms import T

STATS = {"queries": 0, "z3_s": 0.0, "nf": 0, "z3": 0, "cvc5": 0}
TIMEOUT_MS = 8000
MAX_EXT_ROUNDS = 4
MAX_ATOMS = 60

Val = z3.DeclareSort("Val")


def zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "V": Val}[s]


# index functions whose value at the goal's integer constants is worth instantiating quantifiers with (name -> (leading arguments, arity))
HINTS = {}


# axioms for function symbols: name -> list of closed terms added when the symbol occurs
AXIOMS = {}


def axiom(name, *closed):
    AXIOMS.setdefault(name, []).extend(closed)


def reset_axioms():
    AXIOMS.clear()


_shape_ids = {}


def shape(v, bodies):
    """(id, holes): bodies with their maximal v-free, non-constant subterms abstracted."""
    holes, index = [], {}
    depth0 = {v}

    def go(t, bound):
        if not (t.syms & bound):
            if not t.syms and t.op in ("poly", "const", "true", "false"):
                return ("c", t.uid)
            if t not in index:
                index[t] = len(holes)
                holes.append(t)
            return ("h", index[t], t.sort)
        op = t.op
        if op in ("sym", "bv"):
            return ("b", t.uid)
        if op == "poly":
            out = []
            for m, c in t.args:
                out.append((tuple((go(a, bound), e) for a, e in m), c))
            return ("poly", tuple(out))
        if op == "app":
            return ("app", t.args[0], tuple(go(a, bound) for a in t.args[1:]), t.sort)
        if op == "bind":
            kind, h, vs, extras, bo = t.args
            return ("bind", kind, h, vs, tuple(go(e, bound) for e in extras),
                    tuple(go(b, bound | {tm.bv(h, vs)}) for b in bo))
        return (op, tuple(go(a, bound) for a in t.args))

    key = tuple(go(b, frozenset(depth0)) for b in bodies)
    # canonical bound variable: heights can differ between equal shapes only via holes, keep the uid of v in the key
    key = (v.sort, v.uid, key)
    if key not in _shape_ids:
        _shape_ids[key] = len(_shape_ids)
    return _shape_ids[key], holes


class Trans:
    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.memo = {}
        self.decls = {}
        self.binders = {}       # term -> z3 const/app, ground ones
        self.invs = set()
        self.sqrts = set()
        self.abss = set()
        self.names = set()
        self.consts = {}
        self.monos = set()
        self.has_q = False
        self.loose = False

    def fn(self, name, argsorts, sort):
        k = (name, tuple(argsorts), sort)
        if k not in self.decls:
            self.decls[k] = z3.Function(str(name) + "/" + "".join(argsorts), *[zsort(s) for s in argsorts], zsort(sort)) \
                if argsorts else z3.Const(str(name), zsort(sort))
        return self.decls[k]

    def apply(self, name, args, sort):
        f = self.fn(name, [a.sort for a in args], sort)
        return f(*[self.tr(a) for a in args]) if args else f

    def num(self, t, want):
        z = self.tr(t)
        return z3.ToReal(z) if want == "R" and t.sort == "I" else z

    def tr(self, t):
        z = self.memo.get(t)
        if z is None:
            z = self.tr1(t)
            self.memo[t] = z
        return z

    def mono(self, m, sort):
        if len(m) == 1 and m[0][1] == 1:
            return self.num(m[0][0], sort)
        if not self.nl:
            facs = []
            for a, e in m:
                facs += [a] * e
            name = "prod%s%d" % (sort, len(facs))
            self.monos.add(m)
            f = self.fn(name, [sort] * len(facs), sort)
            return f(*[self.num(a, sort) for a in facs])
        r = None
        for a, e in m:
            z = self.num(a, sort)
            for _ in range(e):
                r = z if r is None else r * z
        return r

    def tr1(self, t):
        op = t.op
        if op == "sym":
            return z3.Const(t.args[0], zsort(t.sort))
        if op == "bv":
            return z3.Const("%%%d%s" % (t.args[0], t.sort), zsort(t.sort))
        if op == "const":
            c = z3.Const("k:%s" % (t.args[0],), zsort(t.sort))
            self.consts[t] = c
            return c
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "poly":
            mk = (lambda q: z3.RealVal(str(q))) if t.sort == "R" else (lambda q: z3.IntVal(int(q)))
            if not t.args:
                return mk(0)
            out = []
            for m, c in t.args:
                if not m:
                    out.append(mk(c))
                elif c == 1:
                    out.append(self.mono(m, t.sort))
                else:
                    out.append(mk(c) * self.mono(m, t.sort))
            return z3.Sum(out) if len(out) > 1 else out[0]
        if op == "app":
            self.names.add(t.args[0])
            return self.apply(t.args[0], t.args[1:], t.sort)
        if op == "ite":
            c, a, b = t.args
            return z3.If(self.tr(c), self.num(a, t.sort), self.num(b, t.sort))
        if op == "eq0":
            z = self.tr(t.args[0])
            return z == 0
        if op == "le0":
            return self.tr(t.args[0]) <= 0
        if op in ("eq", "iff"):
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == "inv":
            if not t.hasbv:
                self.invs.add(t)
            return self.fn("inv", ["R"], "R")(self.num(t.args[0], "R"))
        if op == "sqrt":
            if not t.hasbv:
                self.sqrts.add(t)
            return self.fn("sqrt", ["R"], "R")(self.num(t.args[0], "R"))
        if op == "abs":
            z = self.num(t.args[0], t.sort)
            return z3.If(z >= 0, z, -z)
        if op == "bind":
            kind, h, vs, extras, bodies = t.args
            if kind == "forall":
                self.has_q = True
                v = z3.Const("%%%d%s" % (h, vs), zsort(vs))
                body = self.tr(bodies[0])
                return z3.ForAll([v], body)
            sid, holes = shape(tm.bv(h, vs), bodies)
            z = self.apply("%s#%d" % (kind, sid), list(extras) + holes, t.sort)
            if not t.hasbv:
                self.binders[t] = z
            else:
                self.loose = True
            return z
        raise TypeError(op)


# conditions under which an index of a binder counts
RANGE = {}      # kind -> fn(extras, x) -> Bool term


def in_range(t, x):
    kind, h, vs, extras, bodies = t.args
    if kind in RANGE:
        return RANGE[kind](extras, x)
    if vs == "I":
        return tm.and_(tm.le(0, x), tm.lt(x, extras[0]))
    return tm.TRUE


def ext_lemma(a, b):
    """a = b, or their parameters differ, or some index in range has different bodies"""
    _, _, vs, ea, ba = a.args
    _, _, _, eb, bb = b.args
    k = tm.fresh("ext", vs)
    oa, ob = tm.open_bind(a, k), tm.open_bind(b, k)
    diff = tm.or_(*[tm.not_(tm.eq(x, y)) for x, y in zip(oa, ob)])
    alts = [tm.eq(a, b)] + [tm.not_(tm.eq(x, y)) for x, y in zip(ea, eb)]
    alts.append(tm.and_(in_range(a, k), diff))
    return tm.or_(*alts), k


def red_lemmas(t, tr_atoms):
    """max/min atoms: bound at a skolem witness; universally bounds the body"""
    kind, h, vs, extras, bodies = t.args
    k = tm.fresh("wit", "I")
    g, v = tm.open_bind(t, k)
    ne = tm.not_(tm.forall("I", lambda i: tm.not_(tm.and_(tm.le(0, i), tm.lt(i, extras[0]), tm.open_bind(t, i)[0]))))
    wit = tm.implies(ne, tm.and_(tm.le(0, k), tm.lt(k, extras[0]), g, tm.eq(t, v)))
    def up(i):
        gi, vi = tm.open_bind(t, i)
        rel = tm.le(vi, t) if kind == "max" else tm.le(t, vi)
        return tm.implies(tm.and_(tm.le(0, i), tm.lt(i, extras[0]), gi), rel)
    return [wit, tm.forall("I", up)]


def strip(goal, hyps, known=frozenset()):
    """split a goal into (hyps, atom-ish goal) pieces, opening foralls with fresh symbols"""
    if goal in known:
        return
    if goal.op == "and":
        for g in goal.args:
            yield from strip(g, hyps, known)
        return
    if goal.op == "bind" and goal.args[0] == "forall":
        x = tm.fresh("sk", goal.args[2])
        yield from strip(tm.open_bind(goal, x)[0], hyps)
        return
    if goal.op == "or":
        ls = list(goal.args)
        # treat all but one disjunct as negated hypotheses; prefer to keep a forall/eq as the goal
        pick = None
        for g in ls:
            if g.op in ("bind", "and") or (g.op in ("eq0", "eq", "iff")):
                pick = g
        if pick is None:
            pick = ls[-1]
        rest = [tm.not_(g) for g in ls if g is not pick]
        yield from strip(pick, hyps + rest)
        return
    yield hyps, goal


class Result:
    def __init__(self, status, backend, detail="", model=None, secs=0.0):
        self.status, self.backend, self.detail, self.model, self.secs = status, backend, detail, model, secs

    def __repr__(self):
        return "%s(%s)" % (self.status, self.backend)


def prove(hyps, goal, timeout_ms=None):
    """Result with status 'proved', 'refuted' (a model of the negation was found) or 'unknown'."""
    goal = tm.lift(goal)
    if goal is tm.TRUE:
        STATS["nf"] += 1
        return Result("proved", "normal form")
    hyps = [h for h in map(tm.lift, hyps) if h is not tm.TRUE]
    if any(h is tm.FALSE for h in hyps):
        STATS["nf"] += 1
        return Result("proved", "normal form")
    worst, backend, secs = None, "normal form", 0.0
    for hs, g in strip(goal, [], frozenset(hyps)):
        if g is tm.TRUE or any(h is tm.FALSE for h in hs) or g in hyps:
            continue
        ms = timeout_ms or TIMEOUT_MS
        H = hyps + hs
        if ms <= 400:
            r = prove1(H, g, ms)
            secs += r.secs
        else:
            g2 = tm.normalise(g)
            if g2 is tm.TRUE:
                continue
            named = _has(g, {}, lambda x: x.op == "app" and x.args[0] in tm.DEFINED)
            if named:
                r = attempt([h for h in H if not deep(h)], g, False, 1000, True)
                secs += r.secs
                if r.status == "proved":
                    backend = r.backend
                    continue
            elif not deep(g):
                # no sums: the case distinctions are the solver's business
                r = attempt([h for h in H if not deep(h) and not quantified(h)], g, False, 800, True)
                secs += r.secs
                if r.status == "proved":
                    backend = r.backend
                    continue
                r = attempt(H, g, False, 2500, True)
                secs += r.secs
                if r.status == "proved":
                    backend = r.backend
                    continue
            g0 = g2 if named else g
            g3 = decide_conditions(H, g0)
            if g3 is not g0:
                g3 = tm.normalise(g3)
                if g3 is tm.TRUE:
                    backend = "z3 (conditions) + normal form"
                    continue
            # several formulations of the same goal; short budgets for all of them before long ones
            forms = []
            for x in ([g3, g, g2] if named else [g, g3, g2]):
                if x not in forms:
                    forms.append(x)
            r = None
            for budget in ([min(2000, ms), ms] if ms > 2000 else [ms]):
                for x in forms:
                    hx = H + [y for y in map(tm.normalise, H) if y not in H] if x is not g else H
                    r2 = prove1(hx, x, budget)
                    secs += r2.secs
                    if r is None or r2.status == "proved" or (x is not g and r2.status == "refuted"):
                        r = r2
                    if r2.status == "proved" or (len(forms) == 1 and r2.status == "refuted"):
                        break
                if r.status in ("proved", "refuted"):
                    break
            if r.status == "refuted" and tm.DEFINED and any(_has(h, {}, lambda x: x.op == "app" and x.args[0] in tm.DEFINED) for h in H + [g]):
                r.status = "unknown"
        if r.status != "proved":
            return Result(r.status, r.backend, "%s\n  sub-goal: %s" % (r.detail, tm.pp(g)[:1500]), r.model, secs)
        if r.backend != "normal form":
            backend = r.backend
    STATS["z3" if backend != "normal form" else "nf"] += 1
    return Result("proved", backend, secs=secs)


def conditions(t):
    """ground conditions of the case distinctions in a term"""
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite" and not x.args[0].hasbv:
            c = x.args[0]
            if c.op in ("and", "or"):
                out += [a for a in c.args if a not in out]
            elif c not in out:
                out.append(c)
        if x.op == "bind":
            stack += list(x.args[3]) + list(x.args[4])
        elif x.op == "poly":
            stack += [a for m, _ in x.args for a, _ in m]
        else:
            stack += [a for a in x.args if isinstance(a, tm.T)]
    return out


def decide_conditions(hyps, goal, limit=40):
    """replace the conditions of case distinctions that the hypotheses decide"""
    cs = [c for c in conditions(goal)][:limit]
    if not cs:
        return goal
    light = [h for h in hyps if not deep(h)]
    cs = [c for c in cs if not deep(c)]
    m = {}
    tr = Trans(False)
    s = z3.Solver()
    s.set("timeout", 400)
    s.set("random_seed", 1)
    s.set("auto_config", False)
    s.set("mbqi", False)
    t0 = time.time()
    probe = [tm.or_(c, tm.sym("unused", "B")) for c in cs]
    for h in with_axioms(light + probe)[:]:
        if h not in probe:
            s.add(tr.tr(h))
    done = list(light)
    for c in cs:
        for want, val in ((c, tm.TRUE), (tm.not_(c), tm.FALSE)):
            ok = want in light
            if not ok:
                s.push()
                z = tr.tr(tm.not_(want))
                bysort = {}
                for k in tr.consts.values():
                    bysort.setdefault(str(k.sort()), []).append(k)
                for v in bysort.values():
                    if len(v) > 1:
                        s.add(z3.Distinct(*v))
                s.add(z)
                ok = s.check() == z3.unsat
                STATS["queries"] += 1
                s.pop()
            if ok:
                m[c] = val
                m[tm.not_(c)] = tm.not_(val)
                break
    STATS["z3_s"] += time.time() - t0
    if not m:
        return goal
    return decide_conditions(hyps, tm.subst(goal, m, everything=True), limit)


def relevant(hyps, goal):
    return hyps


def collect_apps(ts):
    seen, names, stack = set(), set(), list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app":
            names.add(t.args[0])
        if t.op == "poly":
            for m, _ in t.args:
                stack.extend(a for a, _ in m)
        elif t.op == "bind":
            stack.extend(t.args[3])
            stack.extend(t.args[4])
        elif t.op not in ("sym", "bv", "const"):
            stack.extend(a for a in t.args if isinstance(a, T))
    return names


def with_axioms(ts):
    done, out = set(), list(ts)
    work = list(ts)
    while work:
        names = collect_apps(work) - done
        work = []
        for n in sorted(names, key=str):
            done.add(n)
            for ax in AXIOMS.get(n, ()):
                if ax not in out:
                    out.append(ax)
                    work.append(ax)
    return out


def prove1(hyps, goal, timeout_ms):
    """portfolio: linear abstraction / exact products, quantifier instantiation by patterns only / model-based"""
    r = None
    total = 0.0
    first = min(2000, timeout_ms)
    # fewer hypotheses first (sound: a proof from fewer hypotheses is a proof)
    if len(hyps) > 4:
        dg = deep(goal)
        light = [h for h in hyps if not deep(h)] if not dg else [h for h in hyps if not quantified(h)]
        if len(light) < len(hyps):
            r2 = attempt(light, goal, False, first, True, ext=not dg)
            total += r2.secs
            if r2.status == "proved":
                return r2
    plan = [(False, True, first), (False, False, first), (True, False, first)]
    if timeout_ms <= 400:        # is a branch feasible?  cheap answers only
        plan = [(False, True, first), (True, True, first)]
    if timeout_ms > first:
        plan += [(True, True, first), (True, False, timeout_ms), (False, True, timeout_ms), (False, False, timeout_ms)]
    skip = set()
    for nl, em, ms in plan:
        if (nl, em) in skip:
            continue
        r2 = attempt(hyps, goal, nl, ms, em)
        total += r2.secs
        if r is None or r.status == "unknown":
            r = r2
        if r2.status == "proved":
            r2.secs = total
            return r2
        if r2.status == "refuted":
            break
        if not r2.nonlin:
            skip |= {(True, True), (True, False)}
        if not r2.quant:
            skip |= {(nl, not em)}
        if not r2.timeout:
            skip.add((nl, em))
    r.secs = total
    return r


_DEEP, _QUANT = {}, {}


def _has(t, memo, test):
    r = memo.get(t)
    if r is None:
        if test(t):
            r = True
        else:
            if t.op == "bind":
                kids = list(t.args[3]) + list(t.args[4])
            elif t.op == "poly":
                kids = [a for m, _ in t.args for a, _ in m]
            else:
                kids = [a for a in t.args if isinstance(a, tm.T)]
            r = any(_has(k, memo, test) for k in kids)
        memo[t] = r
    return r


def deep(t):
    """does the term contain a sum or another reduction?"""
    return _has(t, _DEEP, lambda x: x.op == "bind" and x.args[0] not in ("forall", "phi"))


def quantified(t):
    return _has(t, _QUANT, lambda x: x.op == "bind" and x.args[0] == "forall")


def attempt(hyps, goal, nl, timeout_ms, em=False, ext=True):
    t0 = time.time()
    ng = tm.not_(goal)
    base = with_axioms(list(hyps) + [ng])
    tr = Trans(nl)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.set("random_seed", 1)
    if em:
        s.set("auto_config", False)
        s.set("mbqi", False)
    for h in base:
        s.add(tr.tr(h))
    # extensionality, starting from the binders of the goal
    gtr = Trans(nl)
    gtr.tr(ng)
    goal_b = set(gtr.binders)
    seen_pairs, red_done, lem_done = set(), set(), set()
    for rnd in range(MAX_EXT_ROUNDS if ext else 1):
        atoms = [t for t in list(tr.binders) if t.args[0] not in ("forall",)]
        if len(atoms) > MAX_ATOMS:
            atoms = [a for a in atoms if a in goal_b][:MAX_ATOMS]
        new = []
        for a, b in itertools.combinations(atoms, 2):
            if a.args[0] != b.args[0] or a.sort != b.sort or len(a.args[3]) != len(b.args[3]) or a.args[2] != b.args[2]:
                continue
            if a not in goal_b and b not in goal_b and rnd == 0:
                continue
            k = (a, b)
            if k in seen_pairs or not ext:
                continue
            seen_pairs.add(k)
            lem, sk = ext_lemma(a, b)
            if lem is not tm.TRUE:
                new.append(lem)
        for a in atoms:
            if a.args[0] in ("max", "min") and a not in red_done:
                red_done.add(a)
                new += red_lemmas(a, None)
            if a.args[0] == "sum" and a not in red_done:
                red_done.add(a)
                new += sum_lemmas(a)
        for t in list(tr.invs):
            if t not in lem_done:
                lem_done.add(t)
                b = t.args[0]
                bz, iz = tr.num(b, "R"), tr.tr(t)
                if nl:
                    s.add(z3.Implies(bz != 0, bz * iz == 1))
                s.add(z3.Implies(bz >= 0, iz > 0), z3.Implies(bz < 0, iz < 0))
        for t in list(tr.sqrts):
            if t not in lem_done:
                lem_done.add(t)
                bz, rz = tr.num(t.args[0], "R"), tr.tr(t)
                s.add(rz >= 0, z3.Implies(bz > 0, rz > 0), z3.Implies(bz == 0, rz == 0))
                if nl:
                    s.add(z3.Implies(bz >= 0, rz * rz == bz))
        if not new and rnd:
            break
        ax = with_axioms(new)
        for h in ax:
            s.add(tr.tr(h))
        if not new:
            break
    hints = [n for n in tr.names if n in HINTS]
    if hints:
        ints = sorted((x for x in ng.syms if x.sort == "I" and x.op == "sym"), key=tm.okey)[-6:]
        seen = z3.Function("hint", z3.IntSort(), z3.BoolSort())
        for n in hints:
            pre, ar = HINTS[n]
            for xs in itertools.permutations(ints, ar):
                s.add(seen(tr.tr(tm.app(n, list(pre) + list(xs), "I"))))
    cs = list(tr.consts.values())
    bysort = {}
    for c in cs:
        bysort.setdefault(str(c.sort()), []).append(c)
    for v in bysort.values():
        if len(v) > 1:
            s.add(z3.Distinct(*v))
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["z3_s"] += dt
    nonlin = bool(tr.monos) or bool(tr.invs) or bool(tr.sqrts)
    if r == z3.unsat:
        res = Result("proved", "z3" + (" (nonlinear)" if nl else ""), secs=dt)
    elif r == z3.sat and tr.loose:
        res = Result("unknown", "z3", "z3: model found, but sums under quantifiers are only partly axiomatised", secs=dt)
    elif r == z3.sat and (nl or not nonlin):
        m = s.model()
        res = Result("refuted", "z3", "z3 found a counter-model", model=model_text(m, hyps, goal), secs=dt)
    else:
        res = Result("unknown", "z3", "z3: %s" % (s.reason_unknown() if r == z3.unknown else "sat of the linear abstraction"), secs=dt)
    res.nonlin = nonlin
    res.quant = tr.has_q
    res.timeout = r == z3.unknown and any(k in s.reason_unknown() for k in ("timeout", "canceled", "resource"))
    return res


def sum_lemmas(a):
    """a sum of squares, or of absolute values and squares, is not negative"""
    kind, h, vs, extras, bodies = a.args
    b = bodies[0]
    d = tm.polyd(b)
    if len(d) == 1:
        (m, c), = d.items()
        if all(e % 2 == 0 or x.op == "abs" or x.op == "sqrt" or tm.is_indicator(x) for x, e in m):
            return [tm.le(0, a)]
    return []


def model_text(m, hyps, goal):
    out = []
    for d in sorted(m.decls(), key=str)[:60]:
        if d.arity() == 0:
            out.append("%s = %s" % (d.name(), m[d]))
    return "; ".join(out)[:1500]


def satisfiable(hyps, timeout_ms=4000):
    """'unsat' only if the hypotheses are contradictory"""
    r = prove1([h for h in map(tm.lift, hyps) if h is not tm.TRUE], tm.FALSE, timeout_ms)
    return "unsat" if r.status == "proved" else "ok"
