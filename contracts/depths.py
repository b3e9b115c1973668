"""C11: minimal-depth importance.

Precondition (established by the contracts of the tree walks, C10): per tree an array of node depths and, for every feature that splits in
the tree, the non-empty array of its split nodes, shallowest first.  The feature f0 and nothing else is tracked through the loops; it is
arbitrary, so what is proved for it holds for every feature."""
from pyvc.spec import *
from contracts.pdmethods import is_table
from contracts.splits import listed

MD = "artemis.importance_methods.model_specific._minimal_depth"
G = {}


def trees(p):
    """per-tree depths and split nodes of an arbitrary forest over p features"""
    T = pos_int("trees", 1)
    uses, kn, key, kpos = E.ffun("uses", "B"), E.ffun("n_used", "I"), E.ffun("used", "I"), E.ffun("used_pos", "I")
    nn, node, depth, size, md = E.ffun("n_nodes_of", "I"), E.ffun("node_of", "I"), E.ffun("depth", "I"), E.ffun("tree_size", "I"), E.ffun("shallowest", "I")
    t_ = lambda f: tm.forall_i(T, f)
    E.assume(t_(lambda t: tm.and_(tm.le(0, kn(t)), tm.le(1, size(t)))))
    E.assume(t_(lambda t: tm.forall("I", lambda k: tm.implies(tm.and_(tm.le(0, k), tm.lt(k, kn(t))), tm.and_(
        tm.le(0, key(t, k)), tm.lt(key(t, k), p), uses(t, key(t, k)), tm.eq(kpos(t, key(t, k)), k))))))
    E.assume(t_(lambda t: tm.forall("I", lambda f: tm.implies(uses(t, f), tm.and_(
        tm.le(0, kpos(t, f)), tm.lt(kpos(t, f), kn(t)), tm.eq(key(t, kpos(t, f)), f), tm.le(0, f), tm.lt(f, p),
        tm.le(1, nn(t, f)), tm.le(0, node(t, f, tm.num(0))), tm.lt(node(t, f, tm.num(0)), size(t)), tm.eq(depth(t, node(t, f, tm.num(0))), md(t, f)))))))

    def splits(t):
        seq = SymSeq(kn(t), lambda k: Num(key(t, k)), pos=lambda f: kpos(t, numt(f)), has=lambda f: uses(t, numt(f)))
        seq.tree = t
        return DictC(fam=Fam(seq, lambda f: Fz(SArr, ArrC((nn(t, numt(f)),), lambda i: Num(node(t, numt(f), i)))), 1, False))

    def value(t):
        t = numt(t)
        return Fz(SList, SeqC([("item", Fz(SArr, ArrC((size(t),), lambda i: Num(depth(t, i))))), ("item", Fz(SDict, splits(t)))]))
    seq = SymSeq(T, lambda t: Num(t), pos=lambda t: numt(t), has=lambda t: tm.and_(tm.le(0, numt(t)), tm.lt(numt(t), T)))
    f0 = E.fresh("feature", "I")
    G.clear()
    G.update(T=T, uses=uses, kn=kn, key=key, kpos=kpos, md=md, seq=seq, f0=f0, p=p)
    return SDict(DictC(fam=Fam(seq, value, 1, False)))


def so_far(t):
    """trees before t in which f0 splits: how many, and the sum of the shallowest depths"""
    u, md, f0 = G["uses"], G["md"], G["f0"]
    return (tm.mk_sum(t, lambda s: tm.indicator(u(s, f0))), tm.mk_sum(t, lambda s: tm.ite(u(s, f0), md(s, f0), 0)))


def unfold(t):
    """finite sums: the sum of t+1 terms is the sum of t terms plus the last one"""
    u, md, f0 = G["uses"], G["md"], G["f0"]
    (c, s), (c1, s1) = so_far(t), so_far(tm.add(t, 1))
    E.assume(tm.implies(tm.le(0, t), tm.and_(tm.eq(c1, tm.add(c, tm.indicator(u(t, f0)))), tm.eq(s1, tm.add(s, tm.ite(u(t, f0), md(t, f0), 0))), tm.le(0, c))))


def list_stats(v):
    """length and sum of a list of numbers"""
    n, s = tm.num(0), tm.num(0)
    for seg in v.c.segs:
        if seg[0] == "item":
            n, s = tm.add(n, 1), tm.add(s, num_of(seg[1]).t)
        else:
            n, s = tm.add(n, seg[1]), tm.add(s, tm.mk_sum(seg[1], lambda i: num_of(seg[2](i)).t))
    return n, s


def about(c):
    """(f0 is a key, length of its list, sum of its list, every key is a feature) in the dict content c"""
    f0 = G["f0"]
    has, n, s, keys = FALSE, tm.num(0), tm.num(0), TRUE
    if c.fam is not None:
        (n, s), has = list_stats(c.fam.val(Num(f0))), c.fam.has(Num(f0))
    for k, v in [((k,), v) for k, v in c.items.items()] + list(c.stores):
        v = v if isinstance(v, Fz) else freeze(v)
        e = tm.eq(numt(k[0]), f0)
        ln, ls = list_stats(v)
        has, n, s = tm.or_(e, has), tm.ite(e, ln, n), tm.ite(e, ls, s)
        keys = tm.and_(keys, tm.le(0, numt(k[0])), tm.lt(numt(k[0]), G["p"]))
    return has, n, s, keys


class Depths(vc.LoopSpec):
    """lists of shallowest depths, one per feature: after some trees (and some features of the current one)"""

    def table(self, loop):
        seen = []
        for x in (loop.body.__closure__ or ()):
            try:
                seen.append(x.cell_contents)
            except ValueError:
                pass
        ds = [v for v in seen if isinstance(v, SDict) and (v.c.fam is None or getattr(v.c.fam, "depths", False)) and getattr(v, "default", None) is not None]
        if len(ds) != 1:
            raise Unsupported("which dict collects the depths?")
        return ds[0]

    def havoc(self, loop, k):
        d = self.table(loop)
        n, at, pos, has = E.fresh("n_keys", "I"), E.ffun("listed", "I"), E.ffun("listed_pos", "I"), E.ffun("is_listed", "B")
        ln, el = E.ffun("n_depths", "I"), E.ffun("depth_at", "R")
        p = G["p"]
        E.assume(tm.le(0, n))
        E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, at(i)), tm.lt(at(i), p), has(at(i)), tm.eq(pos(at(i)), i))))
        E.assume(tm.forall("I", lambda f: tm.implies(has(f), tm.and_(tm.le(0, pos(f)), tm.lt(pos(f), n), tm.eq(at(pos(f)), f), tm.le(0, f), tm.lt(f, p), tm.le(1, ln(f))))))
        seq = SymSeq(n, lambda i: Num(at(i)), pos=lambda f: pos(numt(f)), has=lambda f: has(numt(f)))
        fam = Fam(seq, lambda f: Fz(SList, SeqC([("seg", ln(numt(f)), lambda i: Num(el(numt(f), i)))])), 1, False)
        fam.depths, G["pos"] = True, pos
        E.journal.append((d.hloc.root(), d.c))
        d.hloc.root().c = DictC(fam=fam)
        return [d.hloc.root()]

    def want(self, loop, k):
        raise NotImplementedError

    def inv(self, loop, k):
        has, n, s, keys = about(self.table(loop).c)
        wn, ws = self.want(loop, k)
        return [("the keys are features", keys), ("a feature is a key once it has been seen", tm.eq(has, tm.lt(0, wn))),
                ("one depth per tree that uses the feature", tm.implies(tm.lt(0, wn), tm.eq(n, wn))), ("the depths are the shallowest", tm.implies(tm.lt(0, wn), tm.eq(s, ws)))]


class OverTrees(Depths):
    name = "loop over the trees"

    def match(self, loop):
        return bool(G) and getattr(loop.seq, "of_keys", loop.seq) is G["seq"]

    def want(self, loop, k):
        unfold(k)
        unfold(tm.sub(k, 1))
        return so_far(k)


class OverFeatures(Depths):
    name = "loop over the features of a tree"

    def match(self, loop):
        s = getattr(loop.seq, "of_keys", loop.seq)
        return bool(G) and getattr(s, "tree", None) is not None

    def want(self, loop, k):
        t = getattr(loop.seq, "of_keys", loop.seq).tree
        n, s = so_far(t)
        f0 = G["f0"]
        done = tm.and_(G["uses"](t, f0), tm.lt(G["kpos"](t, f0), k))
        # finite sums: a count is not negative, and with a count of zero there is nothing to add up
        E.assume(tm.implies(tm.le(0, t), tm.and_(tm.le(0, n), tm.implies(tm.eq(n, 0), tm.eq(s, 0)))))
        return tm.add(n, tm.indicator(done)), tm.add(s, tm.ite(done, G["md"](t, f0), 0))


@contract(MD + ":MinimalDepthImportance.importance", "C11 C14 C15", specs=[OverTrees, OverFeatures])
def importance(w):
    names = columns("features", 1)
    d = own(trees(names.n), "the tree data")

    class Model:
        feature_names_in_ = SArr(ArrC((names.n,), names.at))
    m = w.load(MD).MinimalDepthImportance()
    got = m.importance(Model, d)
    is_table("importance", got, ["Feature", "Importance"])
    E.oblige("the fitted object keeps the table it returns", TRUE if m.feature_importance is got else FALSE)
    c, f0 = got.c, G["f0"]
    E.assume(tm.and_(tm.le(0, f0), tm.lt(f0, names.n)))
    cnt, tot = so_far(G["T"])
    i, k = E.fresh("row", "I"), E.fresh("other", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, c.n), tm.le(0, k), tm.lt(k, c.n)))
    here = lambda r: tm.eq(valt(c.fns["Feature"](r)), valt(names.at(f0)))
    v = num_of(c.fns["Importance"](i))
    E.oblige("the value of a listed feature is the mean of its shallowest depths over the trees that use it", tm.implies(here(i), tm.and_(
        tm.lt(0, cnt), tm.not_(v.nan), tm.eq(v.t, tm.div(tot, cnt)))))
    E.oblige("no feature is listed twice", tm.implies(tm.and_(here(i), here(k)), tm.eq(i, k)))
    x, y = num_of(c.fns["Importance"](i)), num_of(c.fns["Importance"](k))
    E.oblige("ordered best first", tm.implies(tm.and_(tm.lt(i, k), tm.not_(x.nan), tm.not_(y.nan)), tm.le(x.t, y.t)))
    E.oblige("every listed row is a feature", tm.exists("I", lambda f: tm.and_(tm.le(0, f), tm.lt(f, names.n), tm.eq(valt(c.fns["Feature"](i)), valt(names.at(f))))))
    E.assume(tm.lt(0, cnt))
    z = G["pos"](f0)
    for n, p, q, _ in E.perms:
        E.assume(tm.implies(tm.and_(tm.le(0, z), tm.lt(z, n)), tm.and_(tm.le(0, q(z)), tm.lt(q(z), n), tm.eq(p(q(z)), z))))
        z = q(z)
    listed("every feature that splits somewhere is listed", lambda r: tm.and_(tm.le(0, r), tm.lt(r, c.n), here(r)), [z])
