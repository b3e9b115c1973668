"""C20: what reaches the drawing libraries.

Drawing calls are recorded with their arguments; the graph library is modelled as "one edge per row of the edge list"."""
import inspect

from pyvc.spec import *
from pyvc.values import HvDict
from contracts.cmd import free
from contracts.refusals import I as IMPORTANCE
from contracts.refusals import CMD, METHODS, VIS, drawn, make, table_of

FIRST = {False: ("Feature 1", "Feature 2"), True: ("root_variable", "variable")}


def fitted_table(m, directed, cols=()):
    """an arbitrary fitted table, with a further column that numbers the rows"""
    f, g = FIRST[directed]
    t = table_of([f, g, *cols, m.method])
    c = t.c
    return table.STable(table.TableC(c.n, dict(c.fns, row_number=lambda i: Num(i)), c.index))


def row_number(row):
    v = num_of(row["row_number"])
    return v.t


def given(w, key, importance=None, cols=()):
    """a method as after a fit that gave this table"""
    m = make(w, key)
    m.ovo = t = own(fitted_table(m, key.startswith(CMD), cols), "the fitted table")
    m._feature_importance_obj = w.load(IMPORTANCE).PartialDependenceBasedImportance()
    m.feature_importance, m.full_result = None, None
    if importance:
        m.feature_importance = own(importance_table(), "the importance table")
    if key.endswith("FriedmanHStatisticMethod"):
        m.ova = own(table_of(["Feature", m.method]), "the one-vs-all table")
    return m, t


def importance_table():
    """an arbitrary importance table: one row per feature, the largest value positive"""
    t = table_of(["Feature", "Importance"])
    f = lambda i: valt(t.c.fns["Feature"](i))
    E.assume(tm.forall("I", lambda i: tm.forall("I", lambda j: tm.implies(tm.and_(tm.le(0, i), tm.lt(i, j), tm.lt(j, t.c.n)), tm.ne(f(i), f(j))))))
    return t


def last_call(path):
    got = [x for x in drawn() if x[1] == path]
    if not got:
        raise Unsupported("no call of %s" % path)
    return got[-1]


def graph(key, labels, importance=False):
    directed = key.startswith(CMD)

    def run(w):
        m, t = given(w, key, importance=importance)
        asc = directed              # depths: small is strong
        f, g = FIRST[directed]
        n, val = t.c.n, lambda i: numt(t.c.fns[m.method](i))
        thr, width = E.fresh("threshold", "R"), E.fresh("max_width", "R")
        E.assume(tm.and_(tm.lt(0, width), tm.le(0, thr)))
        c0 = t.c
        m.plot("graph", threshold_relevant_interaction=Num(thr), max_edge_width=Num(width))
        gr = [x[1] for x in E.log if x[0] == "graph"]
        if len(gr) != 1:
            raise Unsupported("one graph expected")
        gr = gr[0]
        c = gr.c
        weak = (lambda i: tm.lt(thr, val(i))) if asc else (lambda i: tm.lt(val(i), thr))
        row = lambda i: tm.and_(tm.le(0, i), tm.lt(i, n))
        if labels:
            got = [x for x in drawn() if x[1] == "nx.draw_networkx_edge_labels"]
            if not got:
                return                      # nothing is labelled
            e = got[-1][3]["edge_labels"]
            if not isinstance(e, vc.Entries):
                raise Unsupported("labels as %s" % type(e).__name__)
            i = E.fresh("entry", "I")
            E.assume(tm.and_(tm.le(0, i), tm.lt(i, e.n)))
            x = e.s.at(i)
            r = row_number(x[1] if isinstance(x, tuple) else x)
            E.oblige("a label belongs to a row of the table", row(r))
            E.oblige("interactions weaker than the threshold are not labelled", tm.not_(weak(r)))
            k = e.key(i)
            E.oblige("a label is placed at its row's pair", tm.and_(tm.eq(valt(k[0]), valt(c0.fns[f](r))), tm.eq(valt(k[1]), valt(c0.fns[g](r)))))
            v = num_of(e.val(i))
            E.oblige("a label is its row's value, rounded", tm.and_(tm.not_(v.nan), tm.eq(v.t, tm.app("round", [val(r), tm.num(2)], "R"))))
            return
        E.oblige("edges join the features of the rows", TRUE if (gr.source, gr.target) in ([(f, g)] if directed else [(f, g), (g, f)]) and gr.attr == m.method else FALSE)
        E.oblige("a directed graph for directed methods", TRUE if (gr.kind is not None and gr.kind._path.endswith("DiGraph")) == directed else FALSE)
        E.oblige("one edge per row", tm.eq(c.n, n))
        i, j = (E.fresh(x, "I") for x in ("row", "other"))
        E.assume(tm.and_(row(i), row(j)))
        for col in (f, g):
            E.oblige("edge %s is the row's" % col, tm.eq(valt(c.fns[col](i)), valt(c0.fns[col](i))))
        wd = lambda i: num_of(c.fns[m.method](i))
        E.oblige("a width for every edge", tm.not_(wd(i).nan))
        E.oblige("widths between 0 and the maximum", tm.and_(tm.le(0, wd(i).t), tm.le(wd(i).t, width)))
        E.oblige("widths grow with strength", tm.implies(tm.le(val(i), val(j)) if not asc else tm.le(val(j), val(i)), tm.le(wd(i).t, wd(j).t)))
        d = last_call("nx.draw")[3]
        ws = to_seq(d["width"])
        E.oblige("the edges are drawn with these widths", tm.and_(tm.eq(ws.n, n), tm.eq(numt(ws.at(i)), wd(i).t)))
    return run


for key in METHODS:
    contract(VIS + ":Visualizer.plot_interaction_graph", "C20", "edges, %s" % key.rpartition(":")[2])(graph(key, False))
    contract(VIS + ":Visualizer.plot_interaction_graph", "C15 C20", "labels, %s" % key.rpartition(":")[2])(graph(key, True))
    contract(VIS + ":Visualizer.plot_interaction_graph", "C20", "edges with importance, %s" % key.rpartition(":")[2])(graph(key, False, True))


def names_in(t):
    """the parts of a label put together from strings"""
    if t.op == "app" and t.args[0] == "concat":
        return names_in(t.args[1]) + names_in(t.args[2])
    return [t]


def bars():
    got = [x[1:] for x in E.log if x[0] == "bars"]
    if len(got) != 1:
        raise Unsupported("one bar chart expected")
    return got[0]


def first_rows(m, t, cols, k, f):
    kind, c, x, y, kw = bars()
    n = t.c.n
    E.oblige("bars", TRUE if kind in ("bar", "barh") else FALSE)
    E.oblige("as many bars as asked for", tm.eq(c.n, tm.ite(tm.lt(k, n), k, n)))
    i = E.fresh("bar", "I")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, c.n)))
    ys = [y] if not isinstance(y, (list, SList)) else list(y)
    E.oblige("bars show the method's column", TRUE if len(ys) == 1 and ys[0] in c.fns else FALSE)
    v, u = num_of(c.fns[ys[0]](i)), num_of(f(i))
    E.oblige("bar i is the value of row i", tm.and_(tm.not_(v.nan), tm.eq(v.t, u.t)))
    parts = names_in(valt(c.fns[x](i)))
    want = [valt(t.c.fns[q](i)) for q in cols]
    E.oblige("bar i carries the names of row i", tm.and_(*[tm.or_(*[tm.eq(p, q) for p in parts]) for q in want]))


def bar_chart(key):
    def run(w):
        m, t = given(w, key)
        c0 = t.c
        k = pos_int("top_k", 1)
        m.plot("bar_chart", top_k=Num(k))
        first_rows(m, t, FIRST[key.startswith(CMD)], k, c0.fns[m.method])
    return run


def bar_chart_ova(w):
    m, _ = given(w, next(k for k in METHODS if k.endswith("FriedmanHStatisticMethod")))
    c0 = m.ova.c
    k = pos_int("top_k", 1)
    m.plot("bar_chart_ova", top_k=Num(k))
    first_rows(m, m.ova, ("Feature",), k, c0.fns[m.method])


for key in METHODS:
    contract(VIS + ":Visualizer.plot_barchart_ovo", "C15 C20", "first rows, %s" % key.rpartition(":")[2])(bar_chart(key))
contract(VIS + ":Visualizer.plot_barchart_ova", "C15 C20", "first rows")(bar_chart_ova)


# ------------------------------------------------------------------------------------------------ heatmap
HM = {}


def instance(m, x):
    """ground instance: the keys of row x label the axes"""
    c, _, _, _, R, C, _ = m.src
    E.assume(tm.implies(tm.and_(tm.le(0, x), tm.lt(x, c.n)), tm.and_(m.rows.has(valt(R(x))), m.cols.has(valt(C(x))))))


def diagonal_places(c, q):
    """candidates for the row of feature q among the rows made from the set of features: ground instances of the set and the selection"""
    out = []
    for x in E.log:
        if x[0] != "members":
            continue
        _, n, has, pos, at = x
        i = pos(q)
        E.assume(tm.implies(has(q), tm.and_(tm.le(0, i), tm.lt(i, n), tm.eq(at(i), q))))
        for k, (n0, guard, sel) in list(tm.SELECTED.items()):
            if n0 is not n:
                continue
            p = tm.SELPOS[k](i)
            E.assume(tm.implies(tm.and_(tm.le(0, i), tm.lt(i, n), guard(i)), tm.and_(tm.le(0, p), tm.lt(p, k), tm.eq(sel(p), i))))
            out += [p, tm.add(p, tm.sub(c.n, k))]
        out.append(i)
    return out


@at_call(VIS + ":Visualizer.order_heatmap")
def _(w, real, matrix, asc_order):
    if not HM.get("caller") or not isinstance(matrix, table.Pivot):
        return real(matrix, asc_order)
    i = E.fresh("label", "I")
    c, _, _, _, R, C, _ = matrix.src
    for a, S in ((matrix.rows, R), (matrix.cols, C)):
        x = a.row(i)
        for y in [x, tm.add(x, HM["n"]), tm.sub(x, HM["n"])] + diagonal_places(c, valt(S(x))):
            instance(matrix, y)
    for name, a, b in (("row", matrix.rows, matrix.cols), ("column", matrix.cols, matrix.rows)):
        E.oblige("call of order_heatmap: every %s label also labels the other axis" % name,
                 tm.implies(tm.and_(tm.le(0, i), tm.lt(i, a.n)), b.has(valt(a.at(i)))))
    p = table.permuted(matrix.rows)
    return matrix._with(rows=p, cols=p)


def same_labels(m):
    """labels of the rows in order are the labels of the columns in order"""
    i = E.fresh("place", "I")
    return tm.and_(tm.eq(m.rows.n, m.cols.n), tm.implies(tm.and_(tm.le(0, i), tm.lt(i, m.rows.n)), tm.eq(valt(m.rows.at(i)), valt(m.cols.at(i)))))


def heatmap(key, importance):
    directed = key.startswith(CMD)

    def run(w):
        HM.clear()
        m, t = given(w, key, importance=importance)
        f, g = FIRST[directed]
        n, F, G = t.c.n, (lambda i: valt(t.c.fns[f](i))), (lambda i: valt(t.c.fns[g](i)))
        val = lambda i: numt(t.c.fns[m.method](i))
        HM.update(caller=True, n=n)
        if importance:              # the importance table has a row for every feature of the table
            h = m.feature_importance.c
            for col in (F, G):
                at = E.ffun("importance_row", "I")
                E.assume(tm.forall_i(n, lambda i: tm.and_(tm.le(0, at(i)), tm.lt(at(i), h.n), tm.eq(valt(h.fns["Feature"](at(i))), col(i)))))
        m.plot("heatmap")
        HM.clear()
        calls = [x for x in drawn() if x[1] == "sns.heatmap"]
        mats = [x[2][0] if x[2] else x[3].get("data") for x in calls]
        if len(calls) != 2 or not all(isinstance(x, table.Pivot) for x in mats):
            raise Unsupported("two heatmaps of one matrix expected")
        a = mats[0]
        for k, x in enumerate(mats):
            E.oblige("one order for rows and columns (%d)" % k, same_labels(x))
            i = E.fresh("place", "I")
            if x is not a:
                E.oblige("one order for both parts", tm.and_(tm.eq(x.rows.n, a.rows.n), tm.implies(tm.and_(tm.le(0, i), tm.lt(i, a.rows.n)), tm.eq(valt(x.rows.at(i)), valt(a.rows.at(i))))))
        i, j, r, x = (E.fresh(q, "I") for q in ("across", "down", "row", "other"))
        rng = lambda r: tm.and_(tm.le(0, r), tm.lt(r, n))
        mask = [q[3].get("mask") for q in calls]
        if not all(isinstance(q, SArr) for q in mask):
            raise Unsupported("masks")
        inside = tm.and_(tm.le(0, i), tm.lt(i, a.rows.n), tm.le(0, j), tm.lt(j, a.rows.n))
        k1, k2 = (boolt(q.c.at(i, j)) for q in mask)
        E.oblige("every cell is drawn in one of the two parts", tm.implies(inside, tm.or_(tm.and_(k1, tm.not_(k2)), tm.and_(k2, tm.not_(k1)))))
        # rows of distinct pairs
        E.assume(rng(r))
        same = lambda i, j: tm.and_(tm.eq(F(i), F(j)), tm.eq(G(i), G(j)))
        flip = lambda i, j: tm.and_(tm.eq(F(i), G(j)), tm.eq(G(i), F(j)))
        E.assume(tm.forall_i(n, lambda x: tm.implies(same(x, r), tm.eq(x, r))))
        c, fact, first, has, R, C, V = a.src
        places = lambda r, back=False: [(tm.sub if back else tm.add)(r, o) for o in (tm.num(0), n, tm.sub(c.n, n), tm.sub(tm.sub(c.n, n), n))]
        for y in places(r) + diagonal_places(c, F(r)) + diagonal_places(c, G(r)):
            E.assume(tm.implies(tm.and_(tm.le(0, y), tm.lt(y, c.n)), fact(y)))
        shows = lambda x, y, v: tm.and_(tm.not_(num_of(a.cell(x, y)).nan), tm.eq(num_of(a.cell(x, y)).t, v))
        two = tm.ne(F(r), G(r))
        for y in places(first(F(r), G(r)), True) + places(first(G(r), F(r)), True):
            E.assume(tm.implies(tm.and_(rng(y), same(y, r)), tm.eq(y, r)))
        E.oblige("a pair's value is in its cell", tm.implies(two, shows(F(r), G(r), val(r))))
        if not directed:
            E.oblige("and in the mirrored cell", tm.implies(tm.and_(two, tm.forall_i(n, lambda x: tm.not_(flip(x, r)))), shows(G(r), F(r), val(r))))
        if importance:
            h = m.feature_importance.c
            k = E.fresh("importance_row", "I")
            q = valt(h.fns["Feature"](k))
            E.assume(tm.and_(tm.le(0, k), tm.lt(k, h.n)))
            for name, col in (("first", F), ("second", G)):
                E.oblige("the diagonal shows the importance of a %s feature" % name, tm.implies(tm.eq(q, col(r)), shows(col(r), col(r), numt(h.fns["Importance"](k)))))
        x, y = valt(a.rows.at(i)), valt(a.cols.at(j))
        cell = num_of(a.cell(x, y))
        pair = lambda r: tm.or_(tm.and_(tm.eq(F(r), x), tm.eq(G(r), y)), tm.and_(tm.eq(F(r), y), tm.eq(G(r), x)) if not directed else FALSE)
        ws = places(first(x, y), True)
        E.oblige("a cell beside the diagonal shows a row of the table with its pair", tm.implies(tm.and_(inside, tm.ne(x, y), tm.not_(cell.nan)), tm.or_(*[
            tm.and_(rng(r), pair(r), tm.eq(cell.t, val(r))) for r in ws])))
    return run


for key in METHODS:
    for imp in (False, True):
        if imp or not key.startswith(CMD):
            contract(VIS + ":Visualizer.plot_heatmap", "C15 C20", "cells%s, %s" % (" and diagonal" if imp else "", key.rpartition(":")[2]))(heatmap(key, imp))


class Scores(vc.LoopSpec):
    """a score per feature: its value does not matter"""
    name = "loop over the features"

    def match(self, loop):
        if not HM.get("order"):
            return False
        ds = [x for x in free(loop) if isinstance(x, SDict)]
        if len(ds) != 1:
            return False
        self.d = ds[0]
        return True

    def havoc(self, loop, k):
        cell = self.d.hloc.root()
        E.journal.append((cell, cell.c))
        h = HvDict()
        h.elem = h.lists = h.hv = None
        cell.c = h
        loop.put({nm: Poison("%s was assigned in a loop" % nm) for nm in loop.entry})
        return [cell]

    def inv(self, loop, k):
        return []


@contract(VIS + ":Visualizer.order_heatmap", "C20", specs=[Scores])
def common_order(w):
    HM.clear()
    HM["order"] = True
    n = pos_int("n_features", 2)
    lab, pos, has = E.ffun("feature", "V"), E.ffun("feature_pos", "I"), E.ffun("is_feature", "B")
    E.assume(tm.forall_i(n, lambda i: tm.and_(has(lab(i)), tm.eq(pos(lab(i)), i))))
    E.assume(tm.forall("V", lambda q: tm.implies(has(q), tm.and_(tm.le(0, pos(q)), tm.lt(pos(q), n), tm.eq(lab(pos(q)), q)))))
    s = SymSeq(n, lambda i: SVal(lab(i)), pos=lambda q: pos(valt(q)), has=lambda q: has(valt(q)))
    v, nan = E.ffun("cell", "R"), E.ffun("empty", "B")
    cell = lambda x, y: Num(v(x, y), nan(x, y))
    got = w.load(VIS).Visualizer.order_heatmap(table.Pivot(cell, s, s), SBool(E.fresh("asc_order", "B")))
    if not isinstance(got, table.Pivot):
        raise Unsupported("what order_heatmap returns")
    E.oblige("rows and columns in one order", same_labels(got))
    i, q = E.fresh("place", "I"), E.fresh("any_feature", "V")
    E.assume(tm.and_(tm.le(0, i), tm.lt(i, got.rows.n)))
    E.oblige("all features, and only these", tm.and_(tm.eq(got.rows.n, n), has(valt(got.rows.at(i)))))
    E.oblige("cells keep their values", TRUE if got.cell is cell else FALSE)


# ------------------------------------------------------------------------------------------------ summary
SM = {}


def part(name):
    def run(w, real, *a, **k):
        if not SM:
            return real(*a, **k)
        b = inspect.signature(real).bind(*a, **k)
        b.apply_defaults()
        SM["parts"].append((name, dict(b.arguments)))
    at_call(VIS + ":Visualizer." + name)(run)


for _name in ("plot_heatmap", "plot_interaction_graph", "plot_barchart_ovo", "plot_barchart_ova"):
    part(_name)


def same_table(x, y):
    """the same rows with the same columns"""
    if x is y:
        return TRUE
    if not isinstance(x, table.STable):
        raise Unsupported("table expected")
    if x.c.names != y.c.names:
        return FALSE
    i = E.fresh("row", "I")

    def cell(k):
        u, v = x.c.fns[k](i), y.c.fns[k](i)
        if isinstance(u, SVal) or isinstance(v, SVal):
            return tm.eq(valt(u), valt(v))
        u, v = num_of(u), num_of(v)
        return tm.and_(tm.eq(u.t, v.t), tm.eq(u.nan, v.nan))
    return tm.and_(tm.eq(x.c.n, y.c.n), tm.implies(tm.and_(tm.le(0, i), tm.lt(i, y.c.n)), tm.and_(*[cell(k) for k in y.c.names])))


def summary(key):
    directed = key.startswith(CMD)

    def run(w):
        SM.clear()
        m, t = given(w, key, importance=True)
        f, g = FIRST[directed]
        SM["parts"] = parts = []
        m.plot("summary")
        SM.clear()
        if any(x[0] in ("bars", "graph") for x in E.log) or [x for x in drawn() if x[1] == "sns.heatmap"]:
            raise Unsupported("parts of the summary drawn by something else")
        ova = key.endswith("FriedmanHStatisticMethod")
        want = ["plot_heatmap", "plot_interaction_graph", "plot_barchart_ovo"] + (["plot_barchart_ova"] if ova else [])
        E.oblige("the summary consists of the method's plots", TRUE if sorted(x[0] for x in parts) == sorted(want) else FALSE)
        for name, a in parts:
            if name == "plot_barchart_ova":
                E.oblige("one-vs-all bars of the one-vs-all table", same_table(a.get("ova"), m.ova))
                continue
            E.oblige("%s: drawn from the fitted table" % name, same_table(a.get("ovo"), m.ovo))
            E.oblige("%s: keyed by the table's feature columns" % name, TRUE if (a.get("_f1_name"), a.get("_f2_name")) == (f, g) else FALSE)
            if name == "plot_barchart_ovo":
                continue
            E.oblige("%s: in the method's direction" % name, boolt(a["interactions_ascending_order"]) if directed else tm.not_(boolt(a["interactions_ascending_order"])))
            E.oblige("%s: directed as the method is" % name, TRUE if bool(a.get("_directed")) == directed else FALSE)
            E.oblige("%s: with the importance of the fit" % name, same_table(a.get("feature_importance"), m.feature_importance))
    return run


for key in METHODS:
    contract(VIS + ":Visualizer.plot_summary", "C20", "parts, %s" % key.rpartition(":")[2])(summary(key))


@contract(VIS + ":Visualizer.plot_barchart_conditional", "C15 C20", "first rows")
def conditional_bars(w):
    key = next(k for k in METHODS if k.startswith(CMD))
    m, t = given(w, key, importance=True, cols=("n_occurences",))
    c0, (f, g) = t.c, FIRST[True]
    k = pos_int("top_k", 1)
    m.plot("bar_chart_conditional", top_k=Num(k))
    x = last_call("sns.barplot")
    got = x[2][0] if x[2] else x[3].get("data")
    if not isinstance(got, table.STable):
        raise Unsupported("bars of %s" % type(got).__name__)
    E.log.append(("bars", "bar", got.c, x[3].get("x"), x[3].get("y"), {}))
    first_rows(m, t, (f, g), k, c0.fns[m.method])
