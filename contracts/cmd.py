"""C10: conditional minimal depth.

A tree is numbered depth-first: the subtree of node v is the interval v..last(v).  That depth(u) > depth(v) exactly on this interval is the
lemma `subtree_is_interval` (by induction over the tree); the main algorithm is verified against it."""
from pyvc.spec import *
from contracts.pdmethods import is_table
from contracts.splits import grouped_at, listed

CMD = "artemis.interactions_methods.model_specific.random_forest._conditional_minimal_depth"
G, D, B, F = {}, {}, {}, {}         # ghosts of the contract being verified


def no_ghosts():
    for x in (G, D, B, F):
        x.clear()


def numbered_tree(p):
    """node depths and split nodes of an arbitrary tree with n nodes, numbered depth-first, over p features"""
    n = pos_int("n_nodes", 1)
    dep, last, var = E.ffun("depth", "I"), E.ffun("last_in_subtree", "I"), E.ffun("split_variable", "I")
    E.assume(tm.forall_i(n, lambda v: tm.and_(tm.le(0, dep(v)), tm.le(v, last(v)), tm.lt(last(v), n), tm.le(-2, var(v)), tm.lt(var(v), p),
                                             tm.not_(tm.eq(var(v), -1)), tm.or_(tm.eq(tm.add(last(v), 1), n), tm.le(dep(tm.add(last(v), 1)), dep(v))))))
    E.assume(tm.forall("I", lambda v: tm.forall("I", lambda u: tm.implies(tm.and_(tm.le(0, v), tm.lt(v, u), tm.le(u, last(v)), tm.lt(v, n)), tm.lt(dep(v), dep(u))))))
    uses, ln, el, pos = E.ffun("uses", "B"), E.ffun("n_splits", "I"), E.ffun("split_node", "I"), E.ffun("split_pos", "I")
    E.assume(tm.forall_i(n, lambda v: tm.implies(tm.le(0, var(v)), tm.and_(uses(var(v)), tm.le(0, pos(v)), tm.lt(pos(v), ln(var(v))), tm.eq(el(var(v), pos(v)), v)))))
    E.assume(tm.forall("I", lambda f: tm.implies(uses(f), tm.and_(tm.le(0, f), tm.lt(f, p), tm.le(1, ln(f)), tm.le(0, el(f, tm.num(0))),
                                                                 tm.lt(el(f, tm.num(0)), n), tm.eq(var(el(f, tm.num(0))), f)))))
    E.assume(tm.forall("I", lambda f: tm.forall("I", lambda j: tm.implies(tm.and_(uses(f), tm.le(0, j), tm.lt(j, ln(f))), tm.and_(
        tm.le(0, el(f, j)), tm.lt(el(f, j), n), tm.eq(var(el(f, j)), f), tm.le(dep(el(f, tm.num(0))), dep(el(f, j))))))))
    nk, key, kpos = E.fresh("n_used", "I"), E.ffun("used", "I"), E.ffun("used_pos", "I")
    seq = SymSeq(nk, lambda k: Num(key(k)), pos=lambda f: kpos(numt(f)), has=lambda f: uses(numt(f)))
    splits = SDict(DictC(fam=Fam(seq, lambda f: Fz(SArr, ArrC((ln(numt(f)),), lambda j: Num(el(numt(f), j)), name=("nodes", numt(f)))), 1, False)))
    # the shallowest g-split strictly inside the subtree of v, if any
    inside, near = E.ffun("has_inside", "B"), E.ffun("nearest", "I")
    E.assume(tm.forall("I", lambda v: tm.forall("I", lambda g: tm.implies(tm.and_(tm.le(0, v), tm.lt(v, n), inside(v, g)), tm.and_(
        tm.lt(v, near(v, g)), tm.le(near(v, g), last(v)), tm.eq(var(near(v, g)), g), uses(g), tm.le(0, near(v, g)), tm.lt(near(v, g), n))))))
    E.assume(tm.forall("I", lambda v: tm.forall("I", lambda u: tm.implies(tm.and_(tm.le(0, v), tm.lt(v, u), tm.le(u, last(v)), tm.lt(v, n), tm.le(0, var(u))),
                                                                        tm.and_(inside(v, var(u)), tm.le(dep(near(v, var(u))), dep(u)))))))
    cost = lambda v, g: tm.ite(inside(v, g), tm.sub(tm.sub(dep(near(v, g)), dep(v)), 1), tm.sub(dep(last(v)), dep(v)))
    oo = asnum(float("inf")).t
    E.assume(tm.forall_i(n, lambda v: tm.lt(dep(v), oo)))
    top = lambda f, v: tm.and_(tm.eq(var(v), f), tm.eq(dep(v), dep(el(f, tm.num(0)))))
    no_ghosts()
    G.update(n=n, dep=dep, last=last, var=var, uses=uses, ln=ln, el=el, pos=pos, inside=inside, near=near, cost=cost, oo=oo, top=top, p=p)
    return splits, SArr(ArrC((n,), lambda v: Num(dep(v))))


def free(loop):
    out = []
    for x in (loop.body.__closure__ or ()):
        try:
            out.append(x.cell_contents)
        except ValueError:
            pass
    return out


class OverTop(vc.LoopSpec):
    """running minimum over the shallowest nodes that split on f, for a feature g"""
    name = "loop over the shallowest nodes splitting on f"

    def __init__(self, mode="full", only=None):
        self.mode, self.only = mode, only

    def key(self, loop):
        return [("shallowest nodes", len(self.low), len(self.flag))]

    def exit(self, loop):
        """what the visited nodes say about all shallowest nodes"""
        now = loop.get()
        m, o = asnum(now[self.low[0]]), asnum(now[self.flag[0]])
        f, g, n, top = self.f, self.g, G["n"], G["top"]
        node = lambda v: tm.and_(tm.le(0, v), tm.lt(v, n), top(f, v))
        b, s = self.v(loop, self.best), self.v(loop, self.seen)
        E.oblige("%s: the closest visited node is a shallowest node" % self.name, tm.and_(tm.le(0, b), tm.lt(b, n), top(f, b), tm.eq(m.t, G["cost"](b, g))))
        E.oblige("%s: a visited node with an occurrence is a shallowest node" % self.name, tm.or_(tm.eq(o.t, 0), tm.and_(tm.eq(o.t, 1), tm.le(0, s), tm.lt(s, n), top(f, s), G["inside"](s, g))))
        E.oblige("%s: every shallowest node is visited" % self.name, tm.forall_i(n, lambda v: tm.implies(top(f, v), tm.and_(
            tm.le(m.t, G["cost"](v, g)), tm.implies(G["inside"](v, g), tm.eq(o.t, 1))))))

    def hints(self, loop, k):
        v, g, n = self.v(loop, k), self.g, G["n"]
        dep, last, near, pos = G["dep"], G["last"], G["near"], G["pos"]
        u = near(v, g)
        return [tm.and_(tm.le(0, v), tm.lt(v, n), G["uses"](g), tm.le(v, last(v)), tm.lt(last(v), n),
                        tm.or_(tm.eq(tm.add(last(v), 1), n), tm.le(dep(tm.add(last(v), 1)), dep(v)))),
                tm.implies(G["inside"](v, g), tm.and_(tm.lt(v, u), tm.le(u, last(v)), tm.eq(G["var"](u), g), tm.le(0, pos(u)), tm.lt(pos(u), G["ln"](g)),
                                                     tm.eq(G["el"](g, pos(u)), u), tm.lt(dep(v), dep(u))))]

    def match(self, loop):
        if not G or loop.seq is None or isinstance(loop.seq, list):
            return False
        v = loop.seq.at(tm.fresh("pp", "I"))
        el = G["el"](tm.num(0), tm.num(0))
        if not (isinstance(v, Num) and v.t.op == "app" and v.t.args[0] == el.args[0]):
            return False
        gs = {x.c.name[1] for x in free(loop) if isinstance(x, SArr) and isinstance(x.c.name, tuple) and x.c.name[0] == "nodes"}
        self.f = v.t.args[-2]
        gs = gs if len(gs) <= 1 else gs - {self.f}
        if len(gs) != 1:
            raise Unsupported("which two features is the loop about?")
        self.g = gs.pop()
        self.low = [k for k, x in loop.entry.items() if isinstance(x, float) and x == float("inf")]
        self.flag = [k for k, x in loop.entry.items() if isinstance(x, (int, bool)) and x == 0]
        if len(self.low) != 1 or len(self.flag) != 1:
            raise Unsupported("which variables does the loop carry?")
        return True

    def v(self, loop, i):
        return loop.seq.at(i).t

    def havoc(self, loop, k):
        loop.put({nm: Num(E.fresh("lowest", "R")) if nm in self.low else Num(E.fresh("found", "I")) if nm in self.flag else Poison("%s was assigned in a loop" % nm)
                  for nm in loop.entry})
        self.at = k
        self.best, self.seen = E.fresh("closest", "I"), E.fresh("occurrence", "I")       # visited nodes that witness the two facts
        return []

    def inv(self, loop, k):
        now = loop.get()
        m, o = asnum(now[self.low[0]]), asnum(now[self.flag[0]])
        v = lambda i: self.v(loop, i)
        c, inside = (lambda i: G["cost"](v(i), self.g)), (lambda i: G["inside"](v(i), self.g))
        if k is tm.num(0):
            best, seen = tm.eq(m.t, G["oo"]), tm.eq(o.t, 0)
        elif k is self.at:
            some = lambda i: tm.and_(tm.le(0, i), tm.lt(i, k))
            best = tm.ite(tm.eq(k, 0), tm.eq(m.t, G["oo"]), tm.and_(some(self.best), tm.eq(m.t, c(self.best))))
            seen = tm.or_(tm.eq(o.t, 0), tm.and_(tm.eq(o.t, 1), some(self.seen), inside(self.seen)))
        else:
            old = lambda i: tm.and_(tm.le(0, i), tm.lt(i, self.at))
            best = tm.or_(tm.eq(m.t, c(self.at)), tm.and_(old(self.best), tm.eq(m.t, c(self.best))))
            seen = tm.or_(tm.eq(o.t, 0), tm.and_(tm.eq(o.t, 1), inside(self.at)), tm.and_(tm.eq(o.t, 1), old(self.seen), inside(self.seen)))
        return [("no visited node is closer", tm.and_(tm.not_(m.nan), tm.forall_i(k, lambda i: tm.le(m.t, c(i))))),
                ("some visited node is that close", best),
                ("an occurrence is a split inside a visited subtree", tm.and_(tm.not_(o.nan), seen)),
                ("no occurrence, no split inside a visited subtree", tm.forall_i(k, lambda i: tm.implies(inside(i), tm.eq(o.t, 1))))]


def ours(a):
    """is the array the tree's depths?"""
    x = tm.fresh("pp", "I")
    return isinstance(a, SArr) and not a.c.stores and a.c.shape == (G["n"],) and num_of(a.c.at(x)).t is G["dep"](x)


@at_call(CMD + ":_calculate_maximal_id_in_subtree")
def last_contract(w, real, depth, root, depths, n_nodes):
    if not G or not ours(depths) or not all(isinstance(x, Num) for x in (depth, root, n_nodes)):
        return real(depth, root, depths, n_nodes)
    v = root.t
    E.oblige("call: the root, its depth and the number of nodes", tm.and_(tm.le(0, v), tm.lt(v, G["n"]), tm.eq(depth.t, G["dep"](v)), tm.eq(n_nodes.t, G["n"])))
    return Num(G["last"](v))


@contract(CMD + ":_calculate_maximal_id_in_subtree", "C10")
def last_in_subtree(w):
    _, depths = numbered_tree(pos_int("n_features", 1))
    v = E.fresh("root", "I")
    E.assume(tm.and_(tm.le(0, v), tm.lt(v, G["n"])))
    real = w.load(CMD)._calculate_maximal_id_in_subtree
    got = real(Num(G["dep"](v)), Num(v), depths, Num(G["n"]))
    E.oblige("the last node of the subtree", tm.eq(numt(got), G["last"](v)))


@at_call(CMD + ":_f_2_split_nodes_in_f_1_subtree")
def inside_contract(w, real, root, nodes, upper):
    name = nodes.c.name if isinstance(nodes, SArr) else None
    if not G or not isinstance(name, tuple) or name[0] != "nodes" or not isinstance(root, Num):
        return real(root, nodes, upper)
    v, g, el, ln = root.t, name[1], G["el"], G["ln"]
    E.oblige("call: a node and the end of its subtree", tm.and_(tm.le(0, v), tm.lt(v, G["n"]), G["uses"](g), tm.eq(numt(upper), G["last"](v))))
    m, e, jw = E.fresh("n_inside", "I"), E.ffun("inside_pos", "I"), E.fresh("nearest_at", "I")
    u = G["near"](v, g)
    inside = lambda k: tm.and_(tm.lt(v, el(g, k)), tm.le(el(g, k), G["last"](v)))
    E.assume(tm.and_(tm.le(0, m), tm.forall_i(m, lambda j: tm.and_(tm.le(0, e(j)), tm.lt(e(j), ln(g)), inside(e(j))))))
    # every position inside is listed; needed for the nearest split only
    E.assume(tm.implies(tm.and_(tm.le(0, G["pos"](u)), tm.lt(G["pos"](u), ln(g)), inside(G["pos"](u))), tm.and_(tm.le(0, jw), tm.lt(jw, m), tm.eq(e(jw), G["pos"](u)))))
    E.oblige("an inside split has its position listed", tm.implies(G["inside"](v, g), tm.lt(0, m)))
    E.oblige("a listed position is a split inside", tm.implies(tm.lt(0, m), tm.and_(inside(e(tm.num(0))), tm.eq(G["var"](el(g, e(tm.num(0)))), g))))
    E.oblige("so a split lies inside", tm.implies(tm.lt(0, m), G["inside"](v, g)))
    E.oblige("no listed split is shallower than the nearest", tm.forall_i(m, lambda j: tm.le(G["dep"](u), G["dep"](el(g, e(j))))))
    E.oblige("the nearest split is listed", tm.implies(tm.lt(0, m), tm.and_(tm.le(0, jw), tm.lt(jw, m), tm.eq(el(g, e(jw)), u))))
    return SArr(ArrC((m,), lambda j: Num(e(j))))


@contract(CMD + ":_f_2_split_nodes_in_f_1_subtree", "C10")
def splits_inside(w):
    n, v, ub = pos_int("n_splits"), E.fresh("root", "I"), E.fresh("upper", "I")
    el = E.ffun("node", "I")
    real = w.load(CMD)._f_2_split_nodes_in_f_1_subtree
    got = real(Num(v), SArr(ArrC((n,), lambda j: Num(el(j)))), Num(ub))
    c = got.c
    j, k = E.fresh("j", "I"), E.fresh("k", "I")
    inside = lambda i: tm.and_(tm.le(0, i), tm.lt(i, n), tm.lt(v, el(i)), tm.le(el(i), ub))
    E.oblige("every listed position is inside", tm.implies(tm.and_(tm.le(0, j), tm.lt(j, c.shape[0])), inside(numt(c.at(j)))))
    E.oblige("every position inside is listed", tm.implies(inside(k), tm.exists("I", lambda j: tm.and_(tm.le(0, j), tm.lt(j, c.shape[0]), tm.eq(numt(c.at(j)), k)))))


@contract(CMD + ":_conditional_minimal_depth", "C10", "inner loop", specs=[OverTop("step")])
def one_tree_loop(w):
    p = pos_int("n_features", 1)
    splits, depths = numbered_tree(p)
    w.load(CMD)._conditional_minimal_depth(splits, depths, 0, Num(p))
    E.oblige("the loop over the shallowest nodes is reached", FALSE)


@contract(CMD + ":_conditional_minimal_depth", "C10", specs=[OverTop("use")])
def one_tree(w):
    p = pos_int("n_features", 1)
    splits, depths = numbered_tree(p)
    got = w.load(CMD)._conditional_minimal_depth(splits, depths, 0, Num(p))
    is_table("one tree's result", got, ["split_variable", "ancestor_variable", "value", "occur"])
    c = got.c
    i = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, c.n)))
    f, g = numt(c.fns["split_variable"](i)), numt(c.fns["ancestor_variable"](i))
    val, occ = num_of(c.fns["value"](i)), num_of(c.fns["occur"](i))
    both = tm.and_(G["uses"](f), G["uses"](g))
    n, top, cost = G["n"], G["top"], G["cost"]
    E.oblige("the features are features", tm.and_(tm.le(0, f), tm.lt(f, p), tm.le(0, g), tm.lt(g, p)))
    E.oblige("a value exactly when both features split", tm.eq(val.nan, tm.not_(both)))
    E.oblige("no occurrence unless both features split", tm.implies(tm.not_(both), tm.eq(occ.t, 0)))
    a, b = E.fresh("f", "I"), E.fresh("g", "I")
    at = lambda r: tm.implies(tm.and_(tm.le(0, a), tm.lt(a, p), tm.le(0, b), tm.lt(b, p)), tm.and_(
        tm.le(0, r), tm.lt(r, c.n), tm.eq(numt(c.fns["split_variable"](r)), a), tm.eq(numt(c.fns["ancestor_variable"](r)), b)))
    listed("a row for every ordered pair of features", at, [x[1](a, b) for x in E.log if x[0] == "product"])
    k = E.fresh("other", "I")
    E.oblige("no ordered pair has two rows", tm.implies(tm.and_(tm.le(0, k), tm.lt(k, c.n), tm.eq(numt(c.fns["split_variable"](k)), f),
                                                               tm.eq(numt(c.fns["ancestor_variable"](k)), g)), tm.eq(i, k)))
    E.assume(both)
    v = E.fresh("node", "I")
    E.oblige("no shallowest node splitting on f is closer to g", tm.implies(tm.and_(tm.le(0, v), tm.lt(v, n), top(f, v)), tm.le(val.t, cost(v, g))))
    E.oblige("the value is the distance of some shallowest node", tm.exists("I", lambda v: tm.and_(tm.le(0, v), tm.lt(v, n), top(f, v), tm.eq(val.t, cost(v, g)))))
    E.oblige("an occurrence when some g-split lies inside", tm.implies(tm.and_(tm.le(0, v), tm.lt(v, n), top(f, v), G["inside"](v, g)), tm.eq(occ.t, 1)))
    E.oblige("no occurrence when no g-split lies inside", tm.or_(tm.eq(occ.t, 0), tm.and_(tm.eq(occ.t, 1), tm.exists("I", lambda v: tm.and_(
        tm.le(0, v), tm.lt(v, n), top(f, v), G["inside"](v, g))))))


# ------------------------------------------------------------------------------------------------ from trees to the result table
def raw_rows(p):
    """rows of all trees: ordered pairs of features, a value that may be missing, an occurrence"""
    n = pos_int("raw_rows", 0)
    a, b, v, m, o = E.ffun("raw_f", "I"), E.ffun("raw_g", "I"), E.ffun("raw_value", "R"), E.ffun("raw_missing", "B"), E.ffun("raw_occurs", "I")
    E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, a(i)), tm.lt(a(i), p), tm.le(0, b(i)), tm.lt(b(i), p), tm.le(0, o(i)), tm.le(o(i), 1))))
    t = table.STable(table.TableC(n, {"split_variable": lambda i: Num(a(i)), "ancestor_variable": lambda i: Num(b(i)),
                                      "value": lambda i: Num(v(i), m(i)), "occur": lambda i: Num(o(i))}))
    return t, a, b, v, m, o


@contract(CMD + ":_summarise_results", "C10 C14")
def summary(w):
    names = columns("features", 1)
    p = names.n
    t, a, b, v, m, o = raw_rows(p)
    n = t.c.n
    mod = w.load(CMD)
    got = mod._summarise_results(t, mod._make_column_dict(SArr(ArrC((p,), names.at))), "the method", True)
    is_table("result", got, ["root_variable", "variable", "the method", "n_occurences"])
    c = got.c
    i, k = E.fresh("row", "I"), E.fresh("other", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, c.n), tm.le(0, k), tm.lt(k, c.n)))
    f, g = E.fresh("f", "I"), E.fresh("g", "I")
    E.assume(tm.and_(tm.le(0, f), tm.lt(f, p), tm.le(0, g), tm.lt(g, p)))
    here = lambda r: tm.and_(tm.eq(valt(c.fns["root_variable"](r)), valt(names.at(f))), tm.eq(valt(c.fns["variable"](r)), valt(names.at(g))))
    on = lambda j: tm.and_(tm.eq(a(j), f), tm.eq(b(j), g))
    tot = tm.mk_sum(n, lambda j: tm.ite(tm.and_(on(j), tm.not_(m(j))), v(j), 0))
    cnt = tm.mk_sum(n, lambda j: tm.indicator(tm.and_(on(j), tm.not_(m(j)))))
    val, occ = num_of(c.fns["the method"](i)), num_of(c.fns["n_occurences"](i))
    E.assume(here(i))
    E.oblige("a feature is not paired with itself", tm.not_(tm.eq(f, g)))
    E.oblige("the value is the mean over the trees that use both", tm.and_(tm.eq(val.nan, tm.eq(cnt, 0)), tm.or_(val.nan, tm.eq(val.t, tm.div(tot, cnt)))))
    E.oblige("the occurrences are summed over the trees", tm.and_(tm.not_(occ.nan), tm.eq(occ.t, tm.mk_sum(n, lambda j: tm.ite(on(j), o(j), 0)))))
    E.oblige("no ordered pair is listed twice", tm.implies(here(k), tm.eq(i, k)))


@contract(CMD + ":_summarise_results", "C10 C14", "rows and order")
def summary_rows(w):
    names = columns("features", 1)
    p = names.n
    t, a, b, v, m, o = raw_rows(p)
    n = t.c.n
    mod = w.load(CMD)
    got = mod._summarise_results(t, mod._make_column_dict(SArr(ArrC((p,), names.at))), "the method", True)
    c = got.c
    i, k = E.fresh("row", "I"), E.fresh("other", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, k), tm.lt(k, c.n)))
    x, y = num_of(c.fns["the method"](i)), num_of(c.fns["the method"](k))
    s, t_ = num_of(c.fns["n_occurences"](i)), num_of(c.fns["n_occurences"](k))
    E.oblige("ordered by occurrences, most first, then by value, smallest first", tm.and_(tm.le(t_.t, s.t), tm.or_(
        tm.lt(t_.t, s.t), x.nan, y.nan, tm.le(x.t, y.t))))
    r0 = E.fresh("raw", "I")
    E.assume(tm.and_(tm.le(0, r0), tm.lt(r0, n), tm.not_(tm.eq(a(r0), b(r0)))))
    at = lambda r: tm.and_(tm.le(0, r), tm.lt(r, c.n), tm.eq(valt(c.fns["root_variable"](r)), valt(names.at(a(r0)))), tm.eq(valt(c.fns["variable"](r)), valt(names.at(b(r0)))))
    wits = []
    for g in E.groups:
        z = grouped_at(g, r0)
        for _, _, q, _ in E.perms:
            z = q(z)
            if c.n in tm.SELECTED:
                n0, guard, sel = tm.SELECTED[c.n]
                pos = tm.SELPOS[c.n]
                E.assume(tm.implies(tm.and_(tm.le(0, z), tm.lt(z, n0), guard(z)), tm.and_(tm.le(0, pos(z)), tm.lt(pos(z), c.n), tm.eq(sel(pos(z)), z))))
                wits.append(pos(z))
            else:
                wits.append(z)
    listed("every ordered pair of different features with a raw row is listed", at, wits)


# ------------------------------------------------------------------------------------------------ depth-first numbering

def binary_tree():
    """an arbitrary binary tree rooted at node 0, all nodes reachable; ghosts: its depth-first numbering and the end of every subtree"""
    n, p = pos_int("n_nodes", 1), pos_int("n_features", 1)
    L, R, var, pre, nd, last = (E.ffun(x, "I") for x in ("children_left", "children_right", "feature", "dfs_number", "dfs_node", "last_in_subtree"))
    rng = lambda v: tm.and_(tm.le(0, v), tm.lt(v, n))
    E.assume(tm.forall_i(n, lambda i: tm.and_(rng(nd(i)), tm.eq(pre(nd(i)), i), tm.le(i, last(i)), tm.lt(last(i), n))))
    E.assume(tm.forall_i(n, lambda v: tm.and_(rng(pre(v)), tm.eq(nd(pre(v)), v))))
    E.assume(tm.and_(tm.eq(pre(tm.num(0)), 0), tm.eq(last(tm.num(0)), tm.sub(n, 1))))
    E.assume(tm.forall_i(n, lambda v: tm.or_(
        tm.and_(tm.eq(L(v), -1), tm.eq(R(v), -1), tm.eq(var(v), -2), tm.eq(last(pre(v)), pre(v))),
        tm.and_(rng(L(v)), rng(R(v)), tm.le(0, var(v)), tm.lt(var(v), p), tm.eq(pre(L(v)), tm.add(pre(v), 1)),
                tm.eq(pre(R(v)), tm.add(last(pre(L(v))), 1)), tm.eq(last(pre(v)), last(pre(R(v))))))))
    no_ghosts()
    D.update(n=n, L=L, R=R, var=var, pre=pre, nd=nd, last=last)

    class Tree:
        children_left, children_right, feature = (SArr(ArrC((n,), (lambda f: lambda i: Num(f(i)))(f))) for f in (L, R, var))
        node_count = Num(n)
    return Tree


class DepthFirst(vc.LoopSpec):
    """stack of the subtrees still to visit: they follow each other, the visited nodes come before"""
    name = "depth-first walk"

    def lists(self, loop):
        inside = lambda fn: [x.cell_contents for x in (fn.__closure__ or ()) if isinstance(_cell(x), SList)]
        stack = inside(loop.cond)
        order = [x for x in inside(loop.body) if all(x is not y for y in stack)]
        if len(stack) != 1 or len(order) != 1:
            raise Unsupported("which list is the stack?")
        return order[0], stack[0]

    def match(self, loop):
        if not D or loop.cond is None:
            return False
        try:
            self.lists(loop)
        except Unsupported:
            return False
        return True

    def havoc(self, loop, k):
        order, stack = self.lists(loop)
        i, m, st = E.fresh("n_visited", "I"), E.fresh("n_stacked", "I"), E.ffun("stacked", "I")
        E.assume(tm.and_(tm.le(0, i), tm.le(0, m)))
        for o, c in ((order, SeqC([("seg", i, lambda j: Num(D["nd"](j)))])), (stack, SeqC([("seg", m, lambda j: Num(st(j)))]))):
            E.journal.append((o.hloc.root(), o.c))
            o.hloc.root().c = c
        loop.put({nm: Poison("%s was assigned in a loop" % nm) for nm in loop.entry})
        return [order.hloc.root(), stack.hloc.root()]

    def inv(self, loop, k):
        order, stack = self.lists(loop)
        n, pre, last, nd = D["n"], D["pre"], D["last"], D["nd"]
        i, m = order.c.length(), stack.c.length()
        at = lambda j: numt(stack.c.at(j)) if stack.c.segs else tm.num(0)
        end = lambda v: tm.add(last(pre(v)), 1)
        return [("visited nodes are in depth-first order", TRUE if i is tm.num(0) else tm.forall_i(i, lambda j: tm.eq(numt(order.c.at(j)), nd(j)))),
                ("the stack holds nodes", tm.forall_i(m, lambda j: tm.and_(tm.le(0, at(j)), tm.lt(at(j), n)))),
                ("the bottom subtree ends with the tree", tm.implies(tm.lt(0, m), tm.eq(end(at(tm.num(0))), n))),
                ("each subtree ends where the one below begins", tm.forall_i(m, lambda j: tm.implies(tm.lt(0, j), tm.eq(end(at(j)), pre(at(tm.sub(j, 1))))))),
                ("the next node is on top", tm.ite(tm.eq(m, 0), tm.eq(i, n), tm.eq(pre(at(tm.sub(m, 1))), i)))]

    def variant(self, loop):
        return tm.sub(D["n"], self.lists(loop)[0].c.length())


def _cell(x):
    try:
        return x.cell_contents
    except ValueError:
        return None


@contract(CMD + ":_tree_representation", "C10 C11", specs=[DepthFirst])
def representation(w):
    t = binary_tree()
    got = w.load(CMD)._tree_representation(t)
    is_table("tree", got, ["id", "left_child", "right_child", "split_variable"])
    c = got.c
    E.oblige("one row per node", tm.eq(c.n, D["n"]))
    i = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, c.n)))
    v = D["nd"](i)
    leaf = tm.eq(D["L"](v), -1)
    E.oblige("rows are numbered", tm.eq(numt(c.fns["id"](i)), i))
    E.oblige("the left child follows its parent", tm.eq(numt(c.fns["left_child"](i)), tm.ite(leaf, -1, tm.add(i, 1))))
    E.oblige("the right child follows the left subtree", tm.eq(numt(c.fns["right_child"](i)), tm.ite(leaf, -1, tm.add(D["last"](tm.add(i, 1)), 1))))
    E.oblige("every row keeps its split variable", tm.eq(numt(c.fns["split_variable"](i)), D["var"](v)))


# ------------------------------------------------------------------------------------------------ levels of a tree

def tree_table():
    """table of an arbitrary binary tree (what `_tree_representation` returns); ghosts: depth, parent, ancestor at a depth, height"""
    n, p = pos_int("n_nodes", 1), pos_int("n_features", 1)
    L, R, var, dpt, par, anc = (E.ffun(x, "I") for x in ("left_child", "right_child", "split_variable", "depth", "parent", "ancestor"))
    H = E.fresh("height", "I")
    rng = lambda v: tm.and_(tm.le(0, v), tm.lt(v, n))
    E.assume(tm.forall_i(n, lambda v: tm.or_(
        tm.and_(tm.eq(L(v), -1), tm.eq(R(v), -1), tm.eq(var(v), -2)),
        tm.and_(rng(L(v)), rng(R(v)), tm.le(0, var(v)), tm.lt(var(v), p), tm.eq(dpt(L(v)), tm.add(dpt(v), 1)), tm.eq(dpt(R(v)), tm.add(dpt(v), 1))))))
    E.assume(tm.forall_i(n, lambda v: tm.and_(tm.le(0, dpt(v)), tm.le(dpt(v), H))))
    E.assume(tm.forall_i(n, lambda v: tm.and_(tm.implies(tm.lt(0, dpt(v)), tm.and_(
        rng(par(v)), tm.eq(dpt(v), tm.add(dpt(par(v)), 1)), tm.or_(tm.eq(L(par(v)), v), tm.eq(R(par(v)), v)))))))
    E.assume(tm.and_(tm.eq(dpt(tm.num(0)), 0), tm.forall_i(n, lambda v: tm.implies(tm.eq(dpt(v), 0), tm.eq(v, 0)))))
    E.assume(tm.forall("I", lambda v: tm.forall("I", lambda e: tm.implies(tm.and_(rng(v), tm.le(0, e), tm.le(e, dpt(v))), tm.and_(
        rng(anc(v, e)), tm.eq(dpt(anc(v, e)), e))))))
    E.assume(tm.and_(tm.eq(L(tm.sub(n, 1)), -1)))
    no_ghosts()
    B.update(n=n, L=L, R=R, var=var, dpt=dpt, par=par, anc=anc, H=H, p=p, rng=rng)
    return table.STable(table.TableC(n, {"id": lambda i: Num(i), "left_child": lambda i: Num(L(i)), "right_child": lambda i: Num(R(i)),
                                        "split_variable": lambda i: Num(var(i))}))


def level(d):
    """a list with the nodes of depth d (ghost: where each is listed)"""
    m, at, pos = E.fresh("n_level", "I"), E.ffun("in_level", "I"), E.ffun("level_pos", "I")
    E.assume(tm.le(0, m))
    E.assume(tm.forall_i(m, lambda j: tm.and_(B["rng"](at(j)), tm.eq(B["dpt"](at(j)), d))))
    E.assume(tm.forall_i(B["n"], lambda v: tm.implies(tm.eq(B["dpt"](v), d), tm.and_(tm.le(0, pos(v)), tm.lt(pos(v), m), tm.eq(at(pos(v)), v)))))
    return SList(SeqC([("seg", m, lambda j: Num(at(j)))])), m, at, pos


def children_at(v, m, pos, when=TRUE):
    """where a node is listed among the children of the level above: the children on one side come first, then those on the other"""
    u = B["par"](v)
    E.oblige("its parent is listed in the level above", tm.implies(when, tm.and_(B["rng"](u), tm.eq(B["dpt"](v), tm.add(B["dpt"](u), 1)), tm.le(0, pos(u)), tm.lt(pos(u), m))))
    out = []
    for k, (n0, guard, sel) in tm.SELECTED.items():
        for first in ("L", "R"):
            x = tm.ite(tm.eq(B[first](u), v), pos(u), tm.add(m, pos(u)))
            E.assume(tm.implies(tm.and_(tm.le(0, x), tm.lt(x, n0), guard(x)), tm.and_(tm.le(0, tm.SELPOS[k](x)), tm.lt(tm.SELPOS[k](x), k), tm.eq(sel(tm.SELPOS[k](x)), x))))
            out.append(tm.SELPOS[k](x))
    return out


@contract(CMD + ":_next_level", "C10 C11")
def next_level(w):
    t = tree_table()
    d = pos_int("depth", 0)
    lst, m, at, pos = level(d)
    got = w.load(CMD)._next_level(lst, t)
    E.oblige("a list", TRUE if isinstance(got, SList) else FALSE)
    c = got.c
    j, v = E.fresh("j", "I"), E.fresh("node", "I")
    E.oblige("the next level holds nodes one deeper", tm.implies(tm.and_(tm.le(0, j), tm.lt(j, c.length())), tm.and_(
        B["rng"](numt(c.at(j))), tm.eq(B["dpt"](numt(c.at(j))), tm.add(d, 1)))))
    E.assume(tm.and_(B["rng"](v), tm.eq(B["dpt"](v), tm.add(d, 1))))
    at_ = lambda i: tm.and_(tm.le(0, i), tm.lt(i, c.length()), tm.eq(numt(c.at(i)), v))
    listed("every node one deeper is listed", at_, children_at(v, m, pos))


def look(c, f):
    """(f is a key, length of its array, its elements) in a dict of arrays"""
    has, n, el = FALSE, tm.num(0), lambda j: tm.num(0)
    if c.fam is not None:
        a = c.fam.val(Num(f)).c
        has, n, el = c.fam.has(Num(f)), a.shape[0], lambda j, a=a: numt(a.at(j))
    for k, v in [((k,), v) for k, v in c.items.items()] + list(c.stores):
        a = (v if isinstance(v, Fz) else freeze(v)).c
        e = tm.eq(numt(k[0]), f)
        has, n, el = tm.or_(e, has), tm.ite(e, a.shape[0], n), (lambda j, e=e, a=a, el=el: tm.ite(e, numt(a.at(j)), el(j)))
    return has, n, el


def arrays(has, ln, el, n=None):
    """dict of arrays with the given keys, lengths and elements (functions of the key)"""
    def no(*a):
        raise Unsupported("order of the keys")
    seq = SymSeq(n if n is not None else E.fresh("n_keys", "I"), no, pos=no, has=lambda f: has(numt(f)))
    return DictC(fam=Fam(seq, lambda f: Fz(SArr, ArrC((ln(numt(f)),), lambda j: Num(el(numt(f), j)))), 1, False))


def closures(*fns):
    out = []
    for fn in fns:
        for x in (fn.__closure__ or ()):
            v = _cell(x)
            if all(v is not y for y in out):
                out.append(v)
    return out


class Appended(vc.LoopSpec):
    """every group's nodes are appended to the array of its key"""
    name = "loop over the groups"

    def match(self, loop):
        c = getattr(loop.seq, "items_of", None)
        if not B or c is None or not hasattr(c.index, "parts"):
            return False
        ds = [x for x in free(loop) if isinstance(x, SDict)]
        if len(ds) != 1:
            raise Unsupported("which dict is filled?")
        g = c.index.group
        key, (cnt, src, place) = (lambda k: numt(c.index.at(k))), c.index.parts
        of = E.ffun("group_of_key", "I")
        E.assume(tm.forall_i(g.ng, lambda k: tm.eq(of(key(k)), k)))
        self.d, self.c0, self.ng = ds[0], ds[0].c, g.ng
        c0 = self.c0
        done = lambda f, k: tm.and_(tm.le(0, of(f)), tm.lt(of(f), k), tm.eq(key(of(f)), f))

        def closed(k):
            def parts(f):
                h, n, el = look(c0, f)
                return h, tm.ite(h, n, 0), el
            return arrays(lambda f: tm.or_(parts(f)[0], done(f, k)), lambda f: tm.add(parts(f)[1], tm.ite(done(f, k), cnt(of(f)), 0)),
                          lambda f, j: tm.ite(tm.lt(j, parts(f)[1]), parts(f)[2](j), numt(c.at(of(f)).c.at(tm.sub(j, parts(f)[1])))))
        self.closed, self.mine = closed, None
        B.update(group=g, place=place, of=of, key=key, before=c0)
        return True

    def havoc(self, loop, k):
        cell = self.d.hloc.root()
        E.journal.append((cell, cell.c))
        cell.c = self.mine = self.closed(k)
        loop.put({nm: Poison("%s was assigned in a loop" % nm) for nm in loop.entry})
        return [cell]

    def inv(self, loop, k):
        if self.d.c is self.mine:
            return []
        c, want = self.d.c, self.closed(k)
        f, j = E.fresh("key", "I"), E.fresh("place", "I")
        (h, n, el), (h1, n1, el1) = look(c, f), look(want, f)
        return [("keys", tm.eq(h, h1)), ("lengths", tm.implies(h, tm.eq(n, n1))),
                ("elements", tm.implies(tm.and_(h, tm.le(0, j), tm.lt(j, n)), tm.eq(el(j), el1(j))))]


class Levels(vc.LoopSpec):
    """level by level: the nodes of depth d are listed, all shallower ones have their depth and are filed under their variable"""
    name = "walk over the levels"

    def match(self, loop):
        if not B or loop.cond is None:
            return False
        st = closures(loop.body)
        arr, dic = [x for x in st if type(x) is SArr], [x for x in st if isinstance(x, SDict)]
        lst = [k for k, x in loop.entry.items() if isinstance(x, SList)]
        ctr = [k for k, x in loop.entry.items() if isinstance(x, int) and not isinstance(x, bool)]
        if len(arr) != 1 or len(dic) != 1 or len(lst) != 1 or len(ctr) != 1:
            raise Unsupported("which variables does the walk over the levels carry?")
        self.arr, self.dic, self.lst, self.ctr, self.mine = arr[0], dic[0], lst[0], ctr[0], None
        return True

    def havoc(self, loop, k):
        d, m, at = E.fresh("level", "I"), E.fresh("n_level", "I"), E.ffun("in_level", "I")
        has, ln, el, dep = E.ffun("filed", "B"), E.ffun("n_filed", "I"), E.ffun("filed_node", "I"), E.ffun("depth_so_far", "I")
        self.lpos, self.spos = E.ffun("level_pos", "I"), E.ffun("filed_pos", "I")
        E.assume(tm.le(0, m))
        cells = []
        self.mine = arrays(has, ln, el)
        for o, c in ((self.arr, ArrC((B["n"],), lambda v: Num(dep(v)))), (self.dic, self.mine)):
            cell = o.hloc.root()
            E.journal.append((cell, cell.c))
            cell.c = c
            cells.append(cell)
        loop.put({nm: SList(SeqC([("seg", m, lambda j: Num(at(j)))])) if nm == self.lst else Num(d) if nm == self.ctr
                  else Poison("%s was assigned in a loop" % nm) for nm in loop.entry})
        self.m0, self.d0 = m, d
        return cells

    def inv(self, loop, k):
        now = loop.get()
        lst, d = now[self.lst], numt(now[self.ctr])
        n, rng, dpt, var = B["n"], B["rng"], B["dpt"], B["var"]
        c, a, l = self.dic.c, self.arr.c, (lst.c if isinstance(lst, SList) else None)
        if l is None:
            raise Unsupported("the level is not a list")
        m, at = l.length(), lambda j: numt(l.at(j))
        have = c is self.mine
        f, j, v, u = (E.fresh(x, "I") for x in ("key", "place", "filed", "node"))
        out = [("levels are counted", tm.le(0, d)), ("array of all nodes", tm.eq(a.shape[0], n)),
               ("the level holds nodes of its depth", tm.forall_i(m, lambda j: tm.and_(rng(at(j)), tm.eq(dpt(at(j)), d)))),
               ("shallower nodes have their depth", tm.forall_i(n, lambda v: tm.implies(tm.lt(dpt(v), d), tm.eq(numt(a.at(v)), dpt(v)))))]
        good = lambda f, j: tm.implies(tm.and_(look(c, f)[0], tm.le(0, j), tm.lt(j, look(c, f)[1])), tm.and_(
            rng(look(c, f)[2](j)), tm.eq(var(look(c, f)[2](j)), f), tm.lt(dpt(look(c, f)[2](j)), d), tm.le(dpt(look(c, f)[2](tm.num(0))), dpt(look(c, f)[2](j)))))
        some = lambda f: tm.implies(look(c, f)[0], tm.le(1, look(c, f)[1]))
        inlevel = lambda v, i: tm.implies(tm.and_(rng(v), tm.eq(dpt(v), d)), tm.and_(tm.le(0, i), tm.lt(i, m), tm.eq(at(i), v)))
        filed = lambda v, i: tm.implies(tm.and_(rng(v), tm.lt(dpt(v), d)), tm.and_(look(c, var(v))[0], tm.le(0, i), tm.lt(i, look(c, var(v))[1]), tm.eq(look(c, var(v))[2](i), v)))
        if have:
            return out + [("filed", tm.forall("I", some)), ("filed nodes", tm.forall("I", lambda f: tm.forall("I", lambda j: good(f, j)))),
                          ("level complete", tm.forall_i(n, lambda v: inlevel(v, self.lpos(v)))), ("all filed", tm.forall_i(n, lambda v: filed(v, self.spos(v))))]
        names = ("no key without a node", "filed nodes are shallower nodes with that variable, a shallowest one first", "the level lists every node of its depth", "every shallower node is filed")
        if self.mine is None:
            return out + list(zip(names, (some(f), good(f, j), inlevel(u, tm.num(0)), filed(v, tm.num(0)))))
        # the level just read is that of depth d0: its nodes are filed behind the nodes with the same variable, its children are the new level
        d0, lpos, g = self.d0, self.lpos, B["group"]
        i = lpos(v)
        h0, n0, _ = look(B["before"], var(v))
        new = tm.and_(rng(v), tm.eq(dpt(v), d0))
        E.oblige("%s: step" % self.name, tm.eq(d, tm.add(d0, 1)))
        E.oblige("%s: step: a node of the level is in its variable's group" % self.name, tm.implies(new, tm.and_(
            tm.le(0, i), tm.lt(i, g.n), g.member(i), tm.le(0, g.grp(i)), tm.lt(g.grp(i), g.ng), tm.eq(B["key"](g.grp(i)), var(v)), tm.eq(B["of"](var(v)), g.grp(i)))))
        wit = tm.ite(tm.lt(dpt(v), d0), self.spos(v), tm.add(tm.ite(h0, n0, 0), B["place"](i)))
        ws = children_at(u, self.m0, lpos, tm.and_(rng(u), tm.eq(dpt(u), d)))
        return out + list(zip(names, (some(f), good(f, j), next((inlevel(u, x) for x in ws if E.known(inlevel(u, x), ms=8000)), inlevel(u, ws[-1]) if ws else FALSE), filed(v, wit))))

    def variant(self, loop):
        now = loop.get()
        d, l = numt(now[self.ctr]), now[self.lst].c
        v = numt(l.at(tm.num(0)))
        if d is self.d0:
            E.oblige("%s: step: a level that holds a node is not below the tree" % self.name, tm.implies(tm.lt(0, l.length()), tm.and_(B["rng"](v), tm.eq(B["dpt"](v), d), tm.le(B["dpt"](v), B["H"]))))
        return tm.sub(tm.add(B["H"], 1), d)

    def exit(self, loop):
        now = loop.get()
        d, n, rng, dpt, anc = numt(now[self.ctr]), B["n"], B["rng"], B["dpt"], B["anc"]
        above = lambda v: tm.and_(rng(anc(v, d)), tm.eq(dpt(anc(v, d)), d))
        x = E.fresh("any_node", "I")
        E.oblige("%s: a deeper node has an ancestor in the level" % self.name, tm.implies(rng(x), tm.or_(tm.lt(dpt(x), d), above(x))))
        E.oblige("%s: an empty level lists nobody" % self.name, tm.forall_i(n, lambda v: tm.not_(tm.eq(dpt(v), d))))
        E.oblige("%s: nobody has an ancestor in an empty level" % self.name, tm.not_(above(x)))
        if E.oblige("%s: all nodes are shallower" % self.name, tm.implies(rng(x), tm.lt(dpt(x), d))):
            E.assume(tm.forall_i(n, lambda v: tm.lt(dpt(v), d)))
        v = tm.sub(n, 1)
        E.oblige("%s: leaves are filed" % self.name, look(self.dic.c, tm.num(-2))[0] if E.known(tm.eq(B["var"](v), -2)) and E.known(look(self.dic.c, B["var"](v))[0]) else TRUE)


@contract(CMD + ":_bfs", "C10 C11", specs=[Levels, Appended])
def levels(w):
    t = tree_table()
    got = w.load(CMD)._bfs(t)
    if not isinstance(got, tuple) or len(got) != 2 or not isinstance(got[1], SDict) or not isinstance(got[0], SArr):
        raise Unsupported("what the walk returns")
    a, c = got[0].c, got[1].c
    n, rng, dpt, var, anc = B["n"], B["rng"], B["dpt"], B["var"], B["anc"]
    E.oblige("a depth for every node", tm.eq(a.shape[0], n))
    v, f, j = E.fresh("node", "I"), E.fresh("variable", "I"), E.fresh("place", "I")
    E.assume(rng(v))
    E.oblige("every node has its depth", tm.eq(numt(a.at(v)), dpt(v)))
    has, ln, el = look(c, f)
    E.oblige("a key has a node that splits on it", tm.implies(has, tm.and_(tm.le(1, ln), rng(el(tm.num(0))), tm.eq(var(el(tm.num(0))), f))))
    E.oblige("only variables that split are keys", tm.implies(has, tm.and_(tm.le(0, f), tm.lt(f, B["p"]), tm.le(1, ln))))
    E.oblige("split nodes are listed under their variable, a shallowest one first", tm.implies(tm.and_(has, tm.le(0, j), tm.lt(j, ln)), tm.and_(
        rng(el(j)), tm.eq(var(el(j)), f), tm.le(dpt(el(tm.num(0))), dpt(el(j))))))
    E.assume(tm.le(0, var(v)))
    has, ln, el = look(c, var(v))
    E.oblige("a variable that splits is a key", has)
    E.oblige("every split node is listed", tm.exists("I", lambda i: tm.and_(tm.le(0, i), tm.lt(i, ln), tm.eq(el(i), v))))


# ------------------------------------------------------------------------------------------------ lemma
@contract(CMD + ":_tree_representation", "C10", "lemma: subtrees are intervals")
def subtree_is_interval(w):
    """in a table numbered depth-first the subtree of v is v..last(v): deeper inside, not deeper right behind.  Induction steps, the first from
    the children (larger ids) to the parent, the second from the parent (smaller id) to the children"""
    n = pos_int("n_nodes", 1)
    L, R, last, dpt, par = (E.ffun(x, "I") for x in ("left_child", "right_child", "last_in_subtree", "depth", "parent"))
    rng = lambda v: tm.and_(tm.le(0, v), tm.lt(v, n))
    leaf = lambda v: tm.and_(tm.eq(L(v), -1), tm.eq(R(v), -1), tm.eq(last(v), v))
    split = lambda v: tm.and_(tm.eq(L(v), tm.add(v, 1)), tm.lt(tm.add(v, 1), n), tm.eq(R(v), tm.add(last(tm.add(v, 1)), 1)), rng(R(v)), tm.eq(last(v), last(R(v))),
                              tm.eq(dpt(L(v)), tm.add(dpt(v), 1)), tm.eq(dpt(R(v)), tm.add(dpt(v), 1)))
    v, u = E.fresh("v", "I"), E.fresh("u", "I")
    E.assume(tm.forall_i(n, lambda v: tm.and_(tm.le(v, last(v)), tm.lt(last(v), n), tm.or_(leaf(v), split(v)))))
    E.assume(tm.forall_i(n, lambda v: tm.implies(tm.lt(0, v), tm.and_(rng(par(v)), tm.lt(par(v), v), split(par(v)), tm.or_(tm.eq(L(par(v)), v), tm.eq(R(par(v)), v))))))
    E.assume(tm.eq(last(tm.num(0)), tm.sub(n, 1)))
    deeper = lambda x, y: tm.implies(tm.and_(tm.lt(x, y), tm.le(y, last(x))), tm.lt(dpt(x), dpt(y)))
    E.assume(rng(v))
    E.oblige("inside a subtree every node is deeper than its root (step)", tm.implies(tm.implies(tm.not_(leaf(v)), tm.and_(deeper(L(v), u), deeper(R(v), u))), deeper(v, u)))
    behind = lambda x: tm.or_(tm.eq(tm.add(last(x), 1), n), tm.le(dpt(tm.add(last(x), 1)), dpt(x)))
    E.oblige("right behind a subtree no node is deeper than its root (root)", behind(tm.num(0)))
    E.oblige("right behind a subtree no node is deeper than its root (step)", tm.implies(tm.and_(tm.lt(0, v), behind(par(v))), behind(v)))


# ------------------------------------------------------------------------------------------------ all trees of a forest

class Estimator:
    def __init__(self, t):
        self.t = t

    @property
    def tree_(self):
        return Tree_(self.t)


class Tree_:
    def __init__(self, t):
        self.t = t


def forest():
    """per-tree results of the functions verified above, as functions of the tree's number"""
    T, p = pos_int("trees", 1), pos_int("n_features", 1)
    no_ghosts()
    F.update(T=T, p=p, **{x: E.ffun(x, s) for x, s in (("size", "I"), ("depth", "I"), ("uses", "B"), ("n_splits", "I"), ("split_node", "I"), ("rows", "I"), ("n_used", "I"),
                                                      ("f", "I"), ("g", "I"), ("value", "R"), ("missing", "B"), ("occurs", "I"))})
    E.assume(tm.forall_i(T, lambda t: tm.and_(tm.le(1, F["size"](t)), tm.le(0, F["rows"](t)))))
    return SList(SeqC([("seg", T, lambda t: Estimator(t))]))


class Numbered:
    """the table of tree t"""

    def __init__(self, t):
        self.t = t


@at_call(CMD + ":_tree_representation")
def representation_contract(w, real, tree):
    if not F or not isinstance(tree, Tree_):
        return real(tree)
    return Numbered(tree.t)


def split_dict(t):
    return arrays(lambda f: F["uses"](t, f), lambda f: F["n_splits"](t, f), lambda f, j: F["split_node"](t, f, j), F["n_used"](t))


@at_call(CMD + ":_bfs")
def bfs_contract(w, real, tree):
    if not F or not isinstance(tree, Numbered):
        return real(tree)
    t = tree.t
    return (SArr(ArrC((F["size"](t),), lambda i: Num(F["depth"](t, i)), name=("depths", t))), SDict(split_dict(t)))


def tree_of(depths):
    """the number of the tree whose depths these are"""
    name = depths.c.name if isinstance(depths, (SArr, Fz)) else None
    if not isinstance(name, tuple) or name[0] != "depths":
        raise Unsupported("depths of which tree?")
    return name[1]


@at_call(CMD + ":_conditional_minimal_depth")
def tree_contract(w, real, splits, depths, tree_id, p):
    if not F:
        return real(splits, depths, tree_id, p)
    t = tree_of(depths)
    f = E.fresh("f", "I")
    E.oblige("call: the split nodes and depths of one tree, and the number of features", tm.and_(tm.eq(numt(p), F["p"]), tm.eq(look(splits.c, f)[0], F["uses"](t, f)), tm.eq(look(splits.c, f)[1], F["n_splits"](t, f))))
    return table.STable(table.TableC(F["rows"](t), {"split_variable": lambda i: Num(F["f"](t, i)), "ancestor_variable": lambda i: Num(F["g"](t, i)),
                                                   "value": lambda i: Num(F["value"](t, i), F["missing"](t, i)), "occur": lambda i: Num(F["occurs"](t, i))}))


@contract(CMD + ":_calculate_conditional_minimal_depths", "C10 C11")
def all_trees(w):
    trees = forest()
    got = w.load(CMD)._calculate_conditional_minimal_depths(trees, Num(F["p"]), False)
    if not isinstance(got, tuple) or len(got) != 2:
        raise Unsupported("what is returned")
    is_table("rows of all trees", got[0], ["split_variable", "ancestor_variable", "value", "occur"])
    c, d = got[0].c, got[1]
    t, i, r, f = (E.fresh(x, "I") for x in ("tree", "row_of_tree", "row", "f"))
    same = lambda r, t, i: tm.and_(tm.eq(numt(c.fns["split_variable"](r)), F["f"](t, i)), tm.eq(numt(c.fns["ancestor_variable"](r)), F["g"](t, i)),
                                   tm.eq(num_of(c.fns["value"](r)).t, F["value"](t, i)), tm.eq(num_of(c.fns["value"](r)).nan, F["missing"](t, i)),
                                   tm.eq(num_of(c.fns["occur"](r)).t, F["occurs"](t, i)))
    tree = lambda t: tm.and_(tm.le(0, t), tm.lt(t, F["T"]))
    row = lambda t, i: tm.and_(tree(t), tm.le(0, i), tm.lt(i, F["rows"](t)))
    E.oblige("every row is a row of some tree", tm.implies(tm.and_(tm.le(0, r), tm.lt(r, c.n)), tm.exists("I", lambda t: tm.exists("I", lambda i: tm.and_(row(t, i), same(r, t, i))))))
    at = [x[1] for x in E.log if x[0] == "stacked"]
    E.oblige("every row of every tree is there once", tm.implies(row(t, i), tm.and_(tm.le(0, at[-1](t, i)), tm.lt(at[-1](t, i), c.n), same(at[-1](t, i), t, i))) if at else FALSE)
    E.assume(tree(t))
    E.oblige("every tree is handed on", d._vc_has(Num(t)))
    E.oblige("only trees are handed on", tm.implies(d._vc_has(Num(f)), tree(f)))
    pair = to_seq(d[Num(t)])
    E.oblige("with two parts", TRUE if isinstance(pair, list) and len(pair) == 2 else FALSE)
    E.oblige("the depths of that tree", tm.and_(tm.eq(pair[0].c.shape[0], F["size"](t)), tm.eq(numt(pair[0].c.at(i)), F["depth"](t, i))))
    h, n, el = look(pair[1].c, f)
    E.oblige("the split nodes of that tree", tm.and_(tm.eq(h, F["uses"](t, f)), tm.eq(n, F["n_splits"](t, f)), tm.eq(el(i), F["split_node"](t, f, i))))


MDI = "artemis.importance_methods.model_specific._minimal_depth"
CALLS = {}


def same(what, got, want):
    """the very object or content; anything else is left to the executable contract"""
    if got is want or (isinstance(got, Heap) and isinstance(want, Heap) and type(got) is type(want) and got.c is want.c):
        return E.oblige(what, TRUE)
    raise Unsupported("%s: computed another way" % what)


@at_call(CMD + ":_calculate_conditional_minimal_depths")
def all_trees_contract(w, real, trees, p, show):
    if not CALLS:
        return real(trees, p, show)
    same("call: all trees", trees, CALLS["trees"])
    E.oblige("call: all features", tm.eq(numt(p), CALLS["names"].n))
    CALLS["raw"], CALLS["by_tree"] = raw_rows(CALLS["names"].n)[0], SDict(DictC())
    return CALLS["raw"], CALLS["by_tree"]


@at_call(CMD + ":_summarise_results")
def summary_contract(w, real, raw, names, method, ascending):
    if not CALLS:
        return real(raw, names, method, ascending)
    same("call: the rows of all trees are summarised", raw, CALLS["raw"])
    f = E.fresh("f", "I")
    E.assume(tm.and_(tm.le(0, f), tm.lt(f, CALLS["names"].n)))
    E.oblige("call: every feature has its name", tm.and_(names._vc_has(Num(f)), tm.eq(valt(names[Num(f)]), valt(CALLS["names"].at(f)))))
    E.oblige("call: under the method's name, smallest first", TRUE if isinstance(method, str) and method == CALLS["m"].method and ascending is True else FALSE)
    CALLS["ovo"] = raw_rows(CALLS["names"].n)[0]
    return CALLS["ovo"]


@at_call(MDI + ":MinimalDepthImportance.importance")
def importance_contract(w, real, self, model, tree_id_to_depth_split):
    if not CALLS:
        return real(self, model, tree_id_to_depth_split)
    same("call: the importance of the same model", model, CALLS["model"])
    same("call: the importance from the same trees", tree_id_to_depth_split, CALLS["by_tree"])
    CALLS["imp"] = raw_rows(CALLS["names"].n)[0]
    return CALLS["imp"]


@contract(CMD + ":ConditionalMinimalDepthMethod.fit", "C10 C11 C14 C15 C17", purity=True)
def whole_fit(w):
    no_ghosts()
    names = columns("features", 1)

    class Model:
        feature_names_in_ = SArr(ArrC((names.n,), names.at))
        estimators_ = SList(SeqC([("seg", pos_int("trees", 1), lambda t: Estimator(t))]))
    m = w.load(CMD).ConditionalMinimalDepthMethod()
    CALLS.clear()
    CALLS.update(names=names, trees=Model.estimators_, model=Model, m=m)
    before = Model.feature_names_in_.c, Model.estimators_.c
    try:
        m.fit(Model)
        same("the summary is the fitted table", m.ovo, CALLS.get("ovo"))
        same("the importance is the fitted importance", m.feature_importance, CALLS.get("imp"))
        E.oblige("the model is left as it was", TRUE if before[0] is Model.feature_names_in_.c and before[1] is Model.estimators_.c else FALSE)
    finally:
        CALLS.clear()
