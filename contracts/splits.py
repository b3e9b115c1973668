"""C12, C13: tables of boosted trees.

Vocabulary.  A tree table has one row per node: tree, node, ID, split_feature, left_child, right_child, gain, cover, depth, leaf; the
content of every column is arbitrary within the stated preconditions."""
from pyvc.spec import *
from contracts.pdmethods import is_table

IMP = "artemis.importance_methods.model_specific._split_score"
COLS = ["tree", "node", "ID", "split_feature", "left_child", "right_child", "gain", "cover", "depth", "leaf"]


def tree_table(nan_depth=False):
    n = pos_int("rows", 0)
    R = lambda nm: (lambda f: lambda i: Num(f(i)))(E.ffun(nm, "R"))
    V = lambda nm: (lambda f: lambda i: SVal(f(i)))(E.ffun(nm, "V"))
    fns = {"tree": R("tree"), "node": R("node"), "ID": V("ID"), "split_feature": V("split_feature"), "left_child": V("left"),
           "right_child": V("right"), "gain": R("gain"), "cover": R("cover"), "depth": R("depth")}
    leaf = E.ffun("leaf", "B")
    fns["leaf"] = lambda i: mkbool(leaf(i))
    if nan_depth:
        fns["depth"] = lambda i: Num(tm.num(0), TRUE)
    sf, gain = fns["split_feature"], fns["gain"]
    E.assume(tm.forall_i(n, lambda i: tm.implies(tm.not_(leaf(i)), tm.and_(tm.lt(0, gain(i).t), tm.not_(tm.app("isna", [sf(i).t], "B"))))))
    return lib_table(n, fns)


def lib_table(n, fns):
    return table.STable(table.TableC(n, {k: fns[k] for k in COLS}))


def metric_value(metric, t, used, v, roots):
    """the metric of feature v over the splits `used`"""
    n, f = t.n, t.fns
    num = lambda k: (lambda i: num_of(f[k](i)).t)
    on = lambda i: tm.and_(used(i), tm.eq(valt(f["split_feature"](i)), v))
    S = lambda g, c=on: tm.mk_sum(n, lambda i: tm.ite(c(i), g(i), 0))
    one = lambda i: tm.num(1)
    kind, _, col = metric.partition("_")
    if metric == "mean_weighted_depth":
        return tm.div(S(lambda i: tm.mul(num("depth")(i), num("gain")(i))), S(num("gain")))
    root = lambda i: tm.and_(on(i), tm.eq(num("depth")(i), 0))
    if metric == "root_frequency":
        sum_lemmas(n, root, root, num("gain"))
        return S(one, root)
    if metric == "weighted_root_frequency":
        # splits always have a feature (precondition)
        anyroot = lambda i: tm.and_(used(i), tm.eq(num("depth")(i), 0), tm.not_(tm.app("isna", [valt(f["split_feature"](i))], "B")))
        sum_lemmas(n, root, anyroot, num("gain"))
        return tm.div(tm.mul(S(one, root), S(num("gain"), root)), S(num("gain"), anyroot))
    if kind == "sum":
        return S(num(col))
    return tm.div(S(num(col)), S(one))


def check_importance(m, got, c, used, metric):
    is_table("importance", got, ["Feature", "Importance"])
    E.oblige("the table is also stored on the method", TRUE if m.feature_importance is got else got.c.same(m.feature_importance.c))
    n, fs = got.c.n, got.c.fns
    i = E.fresh("row", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, n)))
    v = valt(fs["Feature"](i))
    ensure_eq("the value of every listed feature is the metric over its splits", fs["Importance"](i), metric_value(metric, c, used, v, None))
    E.oblige("every listed feature splits somewhere (and was requested)", tm.exists("I", lambda j: tm.and_(
        tm.le(0, j), tm.lt(j, c.n), used(j), tm.eq(valt(c.fns["split_feature"](j)), v))))
    k = E.fresh("other", "I")
    E.oblige("no feature is listed twice", tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n), tm.eq(valt(fs["Feature"](k)), v)), tm.eq(i, k)))
    if got.c.perm_of:
        for inst in got.c.perm_of[2]:
            inst(i, k)
    x, y = num_of(fs["Importance"](i)), num_of(fs["Importance"](k))
    a, b = x.t, y.t
    asc = metric in ("mean_depth", "mean_weighted_depth")
    E.oblige("ordered best first", tm.implies(tm.and_(tm.lt(i, k), tm.lt(k, n), tm.not_(x.nan), tm.not_(y.nan)), tm.le(a, b) if asc else tm.le(b, a)))


def run(metric, mode):
    def go(w):
        t = tree_table()
        own(t, "the caller's tree table")
        c = t.c
        leaf = lambda i: boolt(c.fns["leaf"](i))
        used = lambda i: tm.not_(leaf(i))
        feats = None
        if mode == "list":
            s = columns("feats", 0)
            feats = own(SList(SeqC([("seg", s.n, s.at)], keyed=s)), "the caller's feature list")
            used = lambda i: tm.and_(tm.not_(leaf(i)), s.has(valt(c.fns["split_feature"](i))))
        m = w.load(IMP).SplitScoreImportance()
        got = m.importance(None, feats, metric, False, t)
        check_importance(m, got, c, used, metric)
    return go


def grouped_at(g, row):
    """instances of what is known of a grouping and of the reorderings that followed, for one row; its final place"""
    E.assume(tm.implies(tm.and_(tm.le(0, row), tm.lt(row, g.n), g.member(row)), tm.and_(
        tm.le(0, g.grp(row)), tm.lt(g.grp(row), g.ng), *[eq_vals(g.kf[b](row), g.kf[b](g.occ(g.grp(row)))) for b in g.by])))
    z = g.grp(row)
    for n, p, q, _ in E.perms:
        E.assume(tm.implies(tm.and_(tm.le(0, z), tm.lt(z, n)), tm.and_(tm.le(0, q(z)), tm.lt(q(z), n), tm.eq(p(q(z)), z))))
    return z


def listed(what, at, witnesses):
    """some row satisfies `at`; the witnesses are ghost terms, any of which may prove it"""
    for x in witnesses:
        if E.known(at(x), ms=8000):
            return E.oblige(what, at(x))
    return E.oblige(what, tm.exists("I", at))


def complete(mode):
    def go(w):
        t = tree_table()
        c = t.c
        feats, used = None, lambda i: tm.not_(boolt(c.fns["leaf"](i)))
        if mode == "list":
            s = columns("feats", 0)
            feats = SList(SeqC([("seg", s.n, s.at)], keyed=s))
            used = lambda i: tm.and_(tm.not_(boolt(c.fns["leaf"](i))), s.has(valt(c.fns["split_feature"](i))))
        m = w.load(IMP).SplitScoreImportance()
        got = m.importance(None, feats, "sum_gain", False, t)
        fs = got.c.fns
        j = E.fresh("split", "I")
        E.assume(tm.and_(tm.le(0, j), tm.lt(j, c.n), used(j)))
        q = got.c.perm_of[1] if got.c.perm_of else (lambda x: x)
        listed_at = lambda i: tm.and_(tm.le(0, i), tm.lt(i, got.c.n), tm.eq(valt(fs["Feature"](i)), valt(c.fns["split_feature"](j))))
        listed("every (requested) feature that splits somewhere is listed", listed_at, [q(grouped_at(g, j)) for g in E.groups if g.by == ["split_feature"]])
    return go


METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency"]
for mode in ("all", "list"):
    for metric in METRICS:
        contract(IMP + ":SplitScoreImportance.importance", "C13 C14 C15", "%s, %s features" % (metric, mode))(run(metric, mode))
    contract(IMP + ":SplitScoreImportance.importance", "C13", "completeness, %s features" % mode)(complete(mode))


# ------------------------------------------------------------------------------------------------ C12: walks over the trees
TREE = {}
XCOLS = ["tree", "node", "ID", "split_feature", "left_child", "right_child", "gain", "cover", "leaf", "depth"]
LCOLS = ["tree", "depth", "ID", "left_child", "right_child", "split_feature", "gain", "leaf", "cover"]
MISSING = lambda i: Num(tm.num(0), TRUE)


def forest(package):
    """an arbitrary well-formed forest as the table the handler builds: ghosts are the row of a node id, the parent row and the true depth"""
    n = pos_int("rows", 0)
    F = {nm: E.ffun(nm, "R") for nm in ("tree", "node", "gain", "cover")}
    V = {nm: E.ffun(nm, "V") for nm in ("ID", "split_feature", "left_child", "right_child")}
    par, rowof, td = E.ffun("parent_row", "I"), E.ffun("row_of", "I"), E.ffun("true_depth", "R")
    split, below = E.ffun("is_split", "B"), lambda b: tm.lt(0, td(b))
    leaf, root = (lambda b: tm.not_(split(b))), (lambda b: tm.not_(below(b)))
    isna = lambda t: tm.app("isna", [t], "B")
    E.assume(tm.forall_i(n, lambda b: tm.eq(rowof(V["ID"](b)), b)))
    for side in ("left_child", "right_child"):
        kid = lambda b: rowof(V[side](b))
        E.assume(tm.forall_i(n, lambda b: tm.implies(split(b), tm.and_(
            tm.lt(b, kid(b)), tm.lt(kid(b), n), tm.eq(V["ID"](kid(b)), V[side](b)), tm.eq(F["tree"](kid(b)), F["tree"](b)),
            tm.eq(par(kid(b)), b), tm.not_(root(kid(b)))))))
    E.assume(tm.forall_i(n, lambda b: tm.implies(split(b), tm.and_(
        tm.not_(tm.eq(V["left_child"](b), V["right_child"](b))), tm.lt(0, F["gain"](b)), tm.not_(isna(V["split_feature"](b)))))))
    E.assume(tm.forall_i(n, lambda b: tm.implies(tm.not_(root(b)), tm.and_(
        tm.le(0, par(b)), tm.lt(par(b), b), split(par(b)), tm.eq(F["tree"](par(b)), F["tree"](b)),
        tm.or_(tm.eq(V["left_child"](par(b)), V["ID"](b)), tm.eq(V["right_child"](par(b)), V["ID"](b))),
        tm.eq(td(b), tm.add(td(par(b)), 1)), tm.lt(0, td(b))))))
    E.assume(tm.forall_i(n, lambda b: tm.implies(root(b), tm.eq(td(b), 0))))
    fns = {nm: (lambda f: lambda i: Num(f(i)))(f) for nm, f in F.items()}
    fns.update({nm: (lambda f: lambda i: SVal(f(i)))(f) for nm, f in V.items()})
    fns["leaf"] = lambda i: mkbool(leaf(i))
    if package == "xgboost":
        E.assume(tm.forall_i(n, lambda b: tm.eq(root(b), tm.eq(F["node"](b), 0))))
        fns["depth"] = MISSING
    else:
        fns["depth"] = lambda i: Num(td(i))
        fns["cover"] = MISSING
    t = table.STable(table.TableC(n, {k: fns[k] for k in (XCOLS if package == "xgboost" else LCOLS)}))
    TREE.clear()
    TREE.update(n=n, fns=fns, leaf=leaf, par=par, rowof=rowof, td=td, root=root, package=package, split=split, content=t.c)
    return t


class Walk(vc.LoopSpec):
    """loop over the splits of one tree, in row order, storing facts about a split in the rows of its children"""
    name = "walk over the splits of a tree"

    def __init__(self, mode="full", only=None):
        self.mode, self.only = mode, only

    def key(self, loop):
        cols = list(self.form(tm.num(0))) + ["other columns"]
        about = (TREE["package"], tuple(self.entry.fns), tuple(sorted(self.writes)))
        return [about + (c,) for c in (self.only or cols) if c in self.writes or c == "other columns"]

    def match(self, loop):
        if not TREE or not E.applied or loop.seq is None:
            return False
        g, j, sub, sel, pos = E.applied[-1]
        n = loop.seq.n
        if n is sub.n:
            self.ord = pos
        elif n in tm.SELECTED and tm.SELECTED[n][0] is sub.n:
            p2 = tm.SELPOS[n]
            self.ord = lambda b: p2(pos(b))
        else:
            return False
        cands = [t for t in table.LIVE if t.c.n is sub.n and set(sub.fns) <= set(t.c.fns)]
        if not cands:
            return False
        self.t, self.sub, self.sel, self.n = cands[-1], sub, sel, n
        self.entry = self.t.c
        self.writes = self.discover(loop)
        return True

    def discover(self, loop):
        """names of the columns that an iteration stores"""
        jpos, nob, pc, kind = len(E.journal), len(E.obligations), list(E.pc), list(E.kind)
        k = E.fresh("k", "I")
        E.assume(tm.and_(tm.le(0, k), tm.lt(k, loop.seq.n)))
        names = set()
        ms, E.FORK_MS = E.FORK_MS, 60

        def run():
            loop.put(loop.entry)
            loop.body(vc.elem(loop.seq, k))
            names.update(nm for nm, f in self.t.c.fns.items() if self.entry.fns.get(nm) is not f)
        try:
            E.explore(run)
        finally:
            E.FORK_MS = ms
        E.rollback(jpos)
        del E.obligations[nob:]
        E.pc, E.kind = pc, kind
        loop.put(loop.entry)
        return names

    def form(self, k, full=True):
        """content of every column after k iterations, by original row; the columns of parents only where the walk writes them"""
        T = TREE
        f, par = T["fns"], T["par"]
        visited = (lambda b: tm.lt(self.ord(b), k)) if k is not None else (lambda b: TRUE)
        setp = lambda b: tm.and_(T["split"](b), tm.not_(T["root"](b)), visited(par(b)))
        gain = lambda b: f["gain"](b).t
        name = lambda b: f["split_feature"](b).t
        na = lambda cond, v: lambda b: Num(v(b), tm.not_(cond(b)))
        cols = {"parent_gain": na(setp, lambda b: gain(par(b))),
                "parent_cover": lambda b: Num(num_of(f["cover"](par(b))).t, tm.or_(tm.not_(setp(b)), num_of(f["cover"](par(b))).nan)),
                "parent_name": lambda b: SVal(tm.ite(setp(b), name(par(b)), NA)),
                "interaction": na(setp, lambda b: tm.indicator(tm.and_(tm.lt(gain(par(b)), gain(b)), tm.not_(tm.eq(name(b), name(par(b)))))))}
        if T["package"] == "xgboost":
            cols["depth"] = na(lambda b: tm.or_(tm.and_(T["split"](b), T["root"](b), visited(b)), setp(b)), T["td"])
        return cols

    def havoc(self, loop, k):
        c = self.entry
        done = k is self.n
        form = self.form(None if done else k)
        fns = dict(c.fns)
        for nm, f in form.items():
            g = (lambda f: lambda i: f(self.sel(i)))(f)
            if nm in self.writes:
                fns[nm] = g if nm == "depth" else table.Maybe(g, nm)
        if done:
            b = E.fresh("row", "I")
            T = TREE
            E.oblige("%s: every split above a row of the tree is visited" % self.name, tm.implies(
                tm.and_(tm.le(0, b), tm.lt(b, self.sub.n)), tm.and_(*[tm.implies(c0, tm.lt(self.ord(x), self.n)) for c0, x in (
                    (tm.and_(T["split"](self.sel(b))), self.sel(b)), (tm.not_(T["root"](self.sel(b))), T["par"](self.sel(b))))])))
        self.t.put(c.with_(fns=fns))
        return [self.t.hloc.root()]

    def inv(self, loop, k):
        c, out = self.t.c, []
        form = self.form(k)
        r = E.fresh("row", "I")
        rng = tm.and_(tm.le(0, r), tm.lt(r, self.sub.n))
        for nm, f in form.items():
            if nm not in self.writes:
                continue
            now = c.fns.get(nm, MISSING)(r)
            want = f(self.sel(r))
            if nm == "parent_name":
                t = tm.eq(valt(now), want.t)
            else:
                now = num_of(now)
                t = tm.and_(tm.eq(now.nan, want.nan), tm.or_(want.nan, tm.eq(now.t, want.t)))
            out.append((nm, tm.implies(rng, t)))
        rest = [same_val(c.fns[nm](r), f(r)) for nm, f in self.entry.fns.items() if (nm not in form or nm not in self.writes) and c.fns[nm] is not f]
        out.append(("other columns", tm.implies(rng, tm.and_(*rest)) if not [nm for nm in c.fns if nm not in self.entry.fns and nm not in form] else FALSE))
        return out


SS = "artemis.interactions_methods.model_specific.gb_trees._split_score"
HANDLER = "artemis._utilities._handler"


def handler(w, package):
    h = w.load(HANDLER).GBTreesHandler()
    h.package = package
    h.trees_df = own(forest(package), "the handler's tree table")
    return h


def chain(only_def):
    """the splits that count: a split directly below another split (with a larger gain and another feature)"""
    T = TREE
    par, f = T["par"], T["fns"]
    ok = lambda b: tm.and_(T["split"](b), tm.not_(T["root"](b)))
    if not only_def:
        return ok
    return lambda b: tm.and_(ok(b), tm.lt(f["gain"](par(b)).t, f["gain"](b).t), tm.not_(tm.eq(f["split_feature"](b).t, f["split_feature"](par(b)).t)))


@at_call(IMP + ":SplitScoreImportance.importance")
def importance_contract(w, real, self, model, features=None, selected_metric="mean_gain", show_progress=False, trees_df=None):
    """the C13 contract: needs a well-formed forest and a known metric, changes nothing but the method object"""
    if not TREE or features is not None:
        return real(self, model, features, selected_metric, show_progress, trees_df)
    t = trees_df if trees_df is not None else model.trees_df
    E.oblige("call of importance: the tree table is the model's", TRUE if t.c is TREE["content"] else t.c.same(TREE["content"]))
    E.oblige("call of importance: a known metric", TRUE if selected_metric in METRICS else FALSE)
    n = E.fresh("importance_rows", "I")
    E.assume(tm.le(0, n))
    ft, v = E.ffun("importance_feature", "V"), E.ffun("importance_value", "R")
    got = table.STable(table.TableC(n, {"Feature": lambda i: SVal(ft(i)), "Importance": lambda i: Num(v(i))}))
    self.selected_metric, self.feature_importance = selected_metric, got
    TREE["importance"] = (selected_metric, got)
    return got


def fit_run(package, metric, only_def):
    def go(w):
        h = handler(w, package)
        c = h.trees_df.c
        m = w.load(SS).SplitScoreMethod()
        m.fit(h, False, metric, "root_frequency", only_def)
        T, used = TREE, chain(only_def)
        im, tab = T.get("importance", (None, None))
        E.oblige("feature_importance is the importance table for the requested metric", TRUE if tab is not None and im == "root_frequency" and (
            m.feature_importance is tab or m.feature_importance.c is tab.c) else FALSE)
        par, f, n = T["par"], T["fns"], T["n"]
        name = lambda b: f["split_feature"](b).t
        is_table("ovo", m.ovo, ["Feature 1", "Feature 2", m.method])
        oc = m.ovo.c
        fs = oc.fns
        i = E.fresh("row", "I")
        E.assume(tm.and_(tm.le(0, i), tm.lt(i, oc.n)))
        p, q = valt(fs["Feature 1"](i)), valt(fs["Feature 2"](i))
        on = lambda b: tm.and_(used(b), tm.eq(name(par(b)), p), tm.eq(name(b), q))
        S = lambda g: tm.mk_sum(n, lambda b: tm.ite(on(b), g(b), 0))
        kind, _, col = metric.partition("_")
        val = (lambda b: T["td"](b)) if col == "depth" else (lambda b: num_of(f[col](b)).t)
        want = S(val) if kind == "sum" else tm.div(S(val), S(lambda b: tm.num(1)))
        ensure_eq("the value of every listed pair is the metric over its parent-child splits", fs[m.method](i), want)
        E.oblige("every listed pair occurs as parent and child", tm.exists("I", lambda b: tm.and_(tm.le(0, b), tm.lt(b, n), on(b))))
        k = E.fresh("other", "I")
        E.oblige("no pair is listed twice", tm.implies(tm.and_(tm.le(0, k), tm.lt(k, oc.n), tm.eq(valt(fs["Feature 1"](k)), p),
                                                             tm.eq(valt(fs["Feature 2"](k)), q)), tm.eq(i, k)))
        if oc.perm_of:
            for inst in oc.perm_of[2]:
                inst(i, k)
        x, y = num_of(fs[m.method](i)), num_of(fs[m.method](k))
        asc = metric == "mean_depth"
        E.oblige("ordered best first", tm.implies(tm.and_(tm.lt(i, k), tm.lt(k, oc.n), tm.not_(x.nan), tm.not_(y.nan)), tm.le(x.t, y.t) if asc else tm.le(y.t, x.t)))
        b0 = E.fresh("split", "I")
        E.assume(tm.and_(tm.le(0, b0), tm.lt(b0, n), used(b0)))
        back = oc.perm_of[1] if oc.perm_of else (lambda z: z)
        listed("every pair that occurs is listed", lambda z: tm.and_(tm.le(0, z), tm.lt(z, oc.n), tm.eq(valt(fs["Feature 1"](z)), name(par(b0))),
                                                                     tm.eq(valt(fs["Feature 2"](z)), name(b0))),
               [back(grouped_at(g, b0)) for g in E.groups if len(g.by) == 2])
    return go


def any_metric(name):
    return SVal(E.fresh(name, "V"))


def walk_in_fit(package):
    def go(w):
        h = handler(w, package)
        cls, _ = raises(w.load(SS).SplitScoreMethod().fit, h, mkbool(E.fresh("show_progress", "B")), any_metric("metric"),
                        any_metric("importance_metric"), mkbool(E.fresh("only_def", "B")))
        E.oblige("stops before the walk only with the documented refusal", TRUE if cls is not None and cls.__name__ == "MetricNotSupportedException" else FALSE)
    return go


def walk_in_importance(mode):
    def go(w):
        t = own(forest("xgboost"), "the caller's tree table")
        feats = None
        if mode == "list":
            s = columns("feats", 0)
            feats = SList(SeqC([("seg", s.n, s.at)], keyed=s))
        E.assume(tm.lt(0, TREE["n"]))
        w.load(IMP).SplitScoreImportance().importance(None, feats, any_metric("metric"), mkbool(E.fresh("show_progress", "B")), t)
        E.oblige("depths are worked out before they are used", FALSE)
    return go


def xgb_importance(metric, mode):
    """as `run`, for tables whose depths are still to be worked out"""
    def go(w):
        t = own(forest("xgboost"), "the caller's tree table")
        c, T = t.c, TREE
        used, feats = T["split"], None
        if mode == "list":
            s = columns("feats", 0)
            feats = own(SList(SeqC([("seg", s.n, s.at)], keyed=s)), "the caller's feature list")
            used = lambda i: tm.and_(T["split"](i), s.has(valt(c.fns["split_feature"](i))))
        m = w.load(IMP).SplitScoreImportance()
        got = m.importance(None, feats, metric, False, t)
        check_importance(m, got, c.with_(fns={**c.fns, "depth": lambda i: Num(T["td"](i))}), used, metric)
    return go


PARTS = {"xgboost": [["parent_gain"], ["parent_cover"], ["parent_name"], ["interaction"], ["depth"], ["other columns"]],
         "lightgbm": [["parent_gain", "parent_cover"], ["parent_name"], ["interaction", "other columns"]]}
for package in ("xgboost", "lightgbm"):
    for part in PARTS[package]:
        contract(SS + ":SplitScoreMethod.fit", "C12 C14 C15", "%s walk, %s" % (package, ", ".join(part)), specs=[Walk("step", part)])(walk_in_fit(package))
for package in ("xgboost", "lightgbm"):
    for metric in ("mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth"):
        if package == "lightgbm" and "cover" in metric:
            continue
        for only_def in (True, False):
            contract(SS + ":SplitScoreMethod.fit", "C12 C14 C15" if metric in ("sum_gain", "mean_depth") else "C12", "%s, %s, %s" % (package, metric, "stronger children only" if only_def else "all children"),
                     specs=[Walk("use")])(fit_run(package, metric, only_def))
for mode in ("all", "list"):
    contract(IMP + ":SplitScoreImportance.importance", "C12 C13", "depth walk, %s features" % mode, specs=[Walk("step", ["depth", "other columns"])])(walk_in_importance(mode))
    for metric in METRICS:
        contract(IMP + ":SplitScoreImportance.importance", "C13", "depths unknown, %s, %s features" % (metric, mode), specs=[Walk("use")])(xgb_importance(metric, mode))


# ------------------------------------------------------------------------------------------------ the handler
RAW = {"xgboost": ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"],
       "lightgbm": ["tree_index", "node_depth", "node_index", "left_child", "right_child", "parent_index", "split_feature", "split_gain",
                    "threshold", "decision_type", "missing_direction", "missing_type", "value", "weight", "count"]}
NUMERIC = {"Tree", "Node", "Split", "Gain", "Cover", "tree_index", "node_depth", "split_gain", "threshold", "value", "weight", "count"}
SOURCE = {"xgboost": {"tree": "Tree", "node": "Node", "ID": "ID", "split_feature": "Feature", "left_child": "Yes", "right_child": "No",
                      "gain": "Gain", "cover": "Cover"},
          "lightgbm": {"tree": "tree_index", "ID": "node_index", "left_child": "left_child", "right_child": "right_child",
                       "split_feature": "split_feature", "gain": "split_gain"}}


def booster(package, wrapped):
    """a model of the package whose dumped trees are arbitrary"""
    n = pos_int("rows", 0)
    fns = {}
    for c in RAW[package]:
        f = E.ffun("raw_" + c, "R" if c in NUMERIC else "V")
        fns[c] = (lambda f: lambda i: Num(f(i)))(f) if c in NUMERIC else (lambda f: lambda i: SVal(f(i)))(f)
    raw = table.STable(table.TableC(n, fns))
    if package == "lightgbm":       # what the library dumps for a leaf
        lib.use("lightgbm: trees_to_dataframe has None as the split feature of a leaf")
        sf = lambda i: fns["split_feature"](i).t
        E.assume(tm.forall_i(n, lambda i: tm.eq(tm.app("isna", [sf(i)], "B"), tm.eq(sf(i), valt(None)))))
    inner = type("Booster", (), {"__module__": package + ".core", "trees_to_dataframe": lambda self: table.STable(raw.c)})()
    if not wrapped:
        return inner, raw.c
    att = {"__module__": package + ".sklearn"}
    if package == "xgboost":
        att["get_booster"] = lambda self: inner
    else:
        att["booster_"] = inner
    return type("Model", (), att)(), raw.c


def handler_run(package, wrapped):
    def go(w):
        model, raw = booster(package, wrapped)
        h = w.load(HANDLER).GBTreesHandler(model)
        E.oblige("package", TRUE if h.package == package else FALSE)
        t = h.trees_df.c
        E.oblige("one row per node", tm.eq(t.n, raw.n))
        need = set(SOURCE[package]) | {"leaf", "depth", "cover"}
        E.oblige("unified columns", TRUE if set(t.fns) == need else FALSE)
        i = E.fresh("row", "I")
        E.assume(tm.and_(tm.le(0, i), tm.lt(i, raw.n)))
        for c, src in SOURCE[package].items():
            a, b = t.fns[c](i), raw.fns[src](i)
            E.oblige("column %s is the dumped %s" % (c, src), same_val(a, b))
        missing = "Yes" if package == "xgboost" else "split_feature"
        E.oblige("leaves are the nodes without a split", tm.eq(boolt(t.fns["leaf"](i)), lib.isnan_val(raw.fns[missing](i))))
        d = t.fns["depth"](i)
        if package == "xgboost":
            E.oblige("depth is still to be worked out", lib.isnan_val(d))
        else:
            ensure_eq("depth counts from zero at the root", d, tm.sub(raw.fns["node_depth"](i).t, 1))
            E.oblige("no cover", lib.isnan_val(t.fns["cover"](i)))
    return go


def foreign(w):
    for name in ("sklearn.tree", "xgboost_like.core", "xgboostish", "my.lightgbm", "lightgb", "catboost.core"):
        cls, _ = raises(w.load(HANDLER).GBTreesHandler, type("Model", (), {"__module__": name, "trees_to_dataframe": lambda self: None})())
        E.oblige("a model of package %s is refused" % name.split(".")[0], TRUE if cls is not None and cls.__name__ == "ModelNotSupportedException" else FALSE)


for package in ("xgboost", "lightgbm"):
    for wrapped in (False, True):
        contract(HANDLER + ":GBTreesHandler.__init__", "C12 C13", "%s %s" % (package, "estimator" if wrapped else "booster"))(handler_run(package, wrapped))
contract(HANDLER + ":GBTreesHandler.__init__", "C18", "other packages")(foreign)
