"""External modules as the verified code sees them: modelled libraries (lib.py, table.py) and recording stubs for drawing."""
import types

from . import terms as tm
from . import vc
from .core import E, SVal, Unsupported, valt
from .values import SymSeq


class Recorder:
    """a drawing library object: every call is recorded, its result is another recorder"""

    def __init__(self, path):
        self.__dict__["_path"] = path

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Recorder(self._path + "." + n)

    def __setattr__(self, n, v):
        E.log.append(("set", self._path + "." + n, (v,), {}))

    def __call__(self, *a, **k):
        E.log.append(("call", self._path, a, k))
        return Recorder(self._path + "()")

    def __getitem__(self, k):
        return Recorder(self._path + "[]")

    def __iter__(self):
        # fig, ax = plt.subplots()
        return iter([Recorder(self._path + "[0]"), Recorder(self._path + "[1]")])

    def __repr__(self):
        return "<%s>" % self._path


class GraphNode(SVal):
    """end of the edge of row i of the edge list"""
    __slots__ = ("row",)


class Graph:
    """networkx graph made from an edge list: one edge per row (rows of distinct pairs), its attribute is the row's value; further nodes may be added"""

    def __init__(self, c, source, target, attr, kind):
        self.c, self.source, self.target, self.attr, self.kind = c, source, target, attr, kind
        self.extra = []

    def add_nodes_from(self, nodes):
        self.extra.append(nodes)

    def edges(self):
        def node(col, i):
            v = GraphNode(valt(self.c.fns[col](i)))
            v.row = i
            return v
        return SymSeq(self.c.n, lambda i: (node(self.source, i), node(self.target, i)))

    @property
    def nodes(self):
        """the nodes in an unspecified order"""
        if not hasattr(self, "_nodes"):
            f = E.ffun("node", "V")
            self._nodes = SymSeq(E.fresh("n_nodes", "I"), lambda i: SVal(f(i)))
            E.assume(tm.le(1, self._nodes.n))
        return self._nodes

    def __getitem__(self, u):
        if not isinstance(u, GraphNode):
            raise Unsupported("look-up of a node that is not the end of an edge")
        return GraphEdge(self, u.row)


class GraphEdge:
    def __init__(self, g, row):
        self.g, self.row = g, row

    def __getitem__(self, k):
        if isinstance(k, GraphNode):
            if k.row is not self.row:
                raise Unsupported("look-up of another edge")
            return self
        if k != self.g.attr:
            raise Unsupported("edge attribute %r" % (k,))
        return self.g.c.fns[k](self.row)


class Networkx(Recorder):
    def from_pandas_edgelist(self, df, source="source", target="target", edge_attr=None, create_using=None, edge_key=None):
        E.used_models.add("networkx.from_pandas_edgelist: one edge per row, carrying the row's attribute")
        g = Graph(df.c, source, target, edge_attr, create_using)
        E.log.append(("graph", g))
        return g


class Cls:
    """a library class used only in annotations or isinstance"""

    def __init__(self, name):
        self._n = name

    def _vc_isinstance(self, x):
        return False

    def __call__(self, *a, **k):
        raise Unsupported("%s()" % self._n)


class NS(types.SimpleNamespace):
    _name = ""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self._name, n))


class AnnotNS:
    """namespace whose attributes are only mentioned in annotations"""

    def __init__(self, name):
        self._n = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Cls(self._n + "." + n)


def modules(lib, table):
    from .loader import DefaultDict
    rec = Recorder
    plt = rec("plt")
    m = {
        "numpy": lib.NP, "pandas": table.PD,
        "itertools": NS(combinations=lib.combinations, _name="itertools"),
        "tqdm": NS(tqdm=lib.tqdm, _name="tqdm"),
        "tqdm.auto": NS(tqdm=lib.tqdm, _name="tqdm"),
        "collections": NS(defaultdict=DefaultDict, _name="collections"),
        "random": lib.PyRandom(),
        "math": lib.PyMath(),
        "matplotlib": NS(pyplot=plt, colors=rec("mcolors"), gridspec=rec("gridspec"), _name="matplotlib"),
        "matplotlib.pyplot": plt, "matplotlib.gridspec": rec("gridspec"), "matplotlib.colors": rec("mcolors"),
        "seaborn": rec("sns"), "networkx": Networkx("nx"),
    }
    for s in ("sklearn", "sklearn.ensemble", "sklearn.tree", "sklearn.base", "sklearn.inspection", "sklearn.metrics", "xgboost", "lightgbm", "scipy", "scipy.stats"):
        m[s] = AnnotNS(s)
    return m
