"""Shared pieces of the run-time side: inputs, recording models, tolerant comparisons.

Everything here only uses the public surface of the package (constructors, fit/importance/plot and the
documented attributes), so a rewrite of the internals does not disturb it."""
import itertools
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import numpy as np          # noqa: E402
import pandas as pd         # noqa: E402

np.seterr(all="ignore")


class Mismatch(AssertionError):
    pass


def need(cond, msg):
    if not cond:
        raise Mismatch(msg() if callable(msg) else msg)


def close(a, b, msg="", rtol=1e-6, atol=1e-8):
    a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a_.shape == b_.shape, lambda: f"{msg}: shape {a_.shape} instead of {b_.shape}")
    ok = np.isclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
    need(bool(np.all(ok)), lambda: f"{msg}: got {a_.tolist()} expected {b_.tolist()}")


def raises(exc, fn, msg):
    try:
        fn()
    except exc as e:
        need(type(e) is exc or not isinstance(exc, type), f"{msg}: {type(e).__name__} raised")
        return e
    except Exception as e:                                    # noqa: BLE001
        raise Mismatch(f"{msg}: raised {type(e).__name__}: {e}, expected {exc.__name__}")
    raise Mismatch(f"{msg}: no exception, expected {exc.__name__}")


# ------------------------------------------------------------------ data
NAMES = ["zeta", "a", "Beta", "m1", "q", "B", "x10", "x2"]
INDEXES = ["default", "shuffled", "strings", "duplicated", "offset"]
KINDS = ["float", "int", "str", "bool", "fewfloat", "const", "close"]


def make_index(kind, n, rng):
    if kind == "shuffled":
        return pd.Index(rng.permutation(n))
    if kind == "strings":
        return pd.Index([f"r{v}" for v in rng.permutation(n)])
    if kind == "duplicated":
        return pd.Index([int(v) for v in rng.integers(0, max(1, n // 2), n)])
    if kind == "offset":
        return pd.Index(range(100, 100 + 2 * n, 2))
    return pd.RangeIndex(n)


def make_col(kind, n, rng):
    if kind == "float":
        return rng.permutation(np.arange(n) * 0.75 - 2.25)
    if kind == "int":
        return rng.integers(-3, 4, n)
    if kind == "str":
        return np.array([["u", "v", "ww", "U"][i] for i in rng.integers(0, 4, n)], dtype=object)
    if kind == "bool":
        return rng.integers(0, 2, n).astype(bool)
    if kind == "fewfloat":
        return np.array([0.5, 1.5, -1.25])[rng.integers(0, 3, n)]
    if kind == "close":
        return 1.0 + rng.integers(0, 4, n) * 2.0 ** -30
    if kind == "const":
        return np.full(n, 2)
    raise ValueError(kind)


def make_X(rng, n=None, kinds=None, p=None, index=None, names=None):
    n = int(rng.integers(4, 9)) if n is None else n
    p = int(rng.integers(2, 5)) if p is None else p
    if kinds is None:
        kinds = [KINDS[i] for i in rng.choice(len(KINDS), p, p=[.25, .2, .15, .05, .2, .05, .1])]
    names = list(map(str, rng.permutation(NAMES)[:len(kinds)])) if names is None else names
    index = INDEXES[rng.integers(0, len(INDEXES))] if index is None else index
    X = pd.DataFrame({c: make_col(k, n, rng) for c, k in zip(names, kinds)})
    X.index = make_index(index, n, rng)
    return X


# ------------------------------------------------------------------ models
def code(col, s):
    """Maps any column to numbers, value by value."""
    out = []
    for v in col:
        if isinstance(v, str):
            out.append({"u": 0.5, "v": -1.0, "ww": 2.25, "U": 3.5}[v])
        else:
            out.append((float(v) - 1.0) * 2.0 ** 29 if s else float(v))
    return np.array(out, dtype=float)


class RowModel:
    """A row-wise model: one number per row, from that row's cells only.  Records every table it is asked about."""

    def __init__(self, X, rng, kind="inter"):
        self.cols = list(X.columns)
        self.kind = kind
        self.w = dict(zip(self.cols, np.round(rng.normal(size=len(self.cols)) * 8) / 8 + 0.25))
        self.w2 = {pr: np.round(rng.normal() * 8) / 8 + .125 for pr in itertools.combinations(self.cols, 2)}
        self.sens = {c: X[c].dtype.kind == "f" and bool(np.all(np.abs(np.asarray(X[c], float) - 1) < 1e-6))
                     for c in self.cols}
        self.queries = []
        self.record = False

    def raw(self, D):
        v = {c: code(D[c].values, self.sens[c]) for c in self.cols}
        out = np.full(len(D), 0.375)
        if self.kind == "const":
            return out
        for c in self.cols:
            out = out + self.w[c] * v[c] + 0.25 * np.abs(v[c])
        if self.kind == "add":
            return out
        for (a, b), w in self.w2.items():
            out = out + w * v[a] * v[b]
        if self.kind == "inter3" and len(self.cols) >= 3:
            out = out + v[self.cols[0]] * v[self.cols[1]] * np.sign(v[self.cols[2]] + .1)
        return out

    def seen(self, D):
        if not isinstance(D, pd.DataFrame) or list(D.columns) != self.cols:
            raise Mismatch(f"the model was queried with columns {list(getattr(D, 'columns', []))}, dataset has {self.cols}")
        if self.record:
            self.queries.append(D.copy())


class Reg(RowModel):
    def predict(self, D):
        self.seen(D)
        return self.raw(D)


class Proba(RowModel):
    """Offers predict and predict_proba that disagree on purpose."""

    def predict(self, D):
        self.seen(D)
        return (self.raw(D) > 0).astype(int)

    def predict_proba(self, D):
        self.seen(D)
        p = 1 / (1 + np.exp(-self.raw(D) / 8))
        return np.column_stack([1 - p, p])


def own_predict(m, D):
    """A caller's prediction function that is neither predict nor predict_proba."""
    m.seen(D)
    return m.raw(D) * 0.5 + 1.0


def explained(model, predict_function=None):
    """What the caller asked to be explained, as a plain function of a table."""
    if predict_function is not None:
        return lambda D: np.asarray(predict_function(model, D), dtype=float)
    if hasattr(model, "predict_proba"):
        return lambda D: np.asarray(model.predict_proba(D), dtype=float)[:, 1]
    return lambda D: np.asarray(model.predict(D), dtype=float)


def quietly(model, fn, *a):
    old = model.record
    model.record = False
    try:
        return fn(*a)
    finally:
        model.record = old


# ------------------------------------------------------------------ executable definitions
def set_cols(X, **vals):
    D = X.copy()
    for c, v in vals.items():
        D[c] = v if isinstance(v, np.ndarray) else np.array([v] * len(X), dtype=X[c].dtype)
    return D


def uniq(X, f):
    return sorted(set(X[f].tolist()))


def pd1(phi, X, f, v):
    return float(np.mean(phi(set_cols(X, **{f: v}))))


def pd2(phi, X, f, u, g, v):
    return float(np.mean(phi(set_cols(X, **{f: u, g: v}))))


def pdm(phi, X, f, i):
    """mean over j of the prediction for row i with f replaced by its value in row j."""
    n = len(X)
    D = X.iloc[[i] * n].copy()
    D[f] = X[f].values
    return float(np.mean(phi(D)))


def prof1(phi, X, f):
    return np.array([pd1(phi, X, f, v) for v in uniq(X, f)])


def prof2(phi, X, f, g):
    return np.array([[pd2(phi, X, f, u, g, v) for v in uniq(X, g)] for u in uniq(X, f)])


def is_num(X, f):
    return X[f].dtype.kind in "fiub"


def hstat(a, b, ab, normalized):
    """centred joint minus centred parts, squared; NaN when 0/0.  None when numerically ill-conditioned."""
    c = lambda v: np.asarray(v, float) - np.mean(v)
    num = (c(ab) - c(a) - c(b)) ** 2
    if not normalized:
        return float(np.sqrt(np.mean(num)))
    den = float(np.sum(c(ab) ** 2))
    nu = float(np.sum(num))
    scale = float(np.sum(np.asarray(ab, float) ** 2)) + 1e-300
    if den / scale < 1e-18:
        if np.ptp(np.asarray(ab, float)) == 0 and nu == 0 and len(set(np.asarray(ab).tolist())) == 1 \
                and np.mean(ab) == np.asarray(ab)[0]:
            return 0.0
        return None
    return nu / den


def pd_importance(phi, X, f):
    p = prof1(phi, X, f)
    return float(np.std(p)) if is_num(X, f) else float((p.max() - p.min()) / 4)


def sstd(v):
    v = np.asarray(v, float)
    return float(np.sqrt(np.sum((v - v.mean()) ** 2) / (len(v) - 1))) if len(v) > 1 else np.nan


def cimp(v, num):
    return sstd(v) if num else float((np.max(v) - np.min(v)) / 4)


def greenwell(phi, X, f, g):
    P = prof2(phi, X, f, g)
    a = sstd([cimp(P[i, :], is_num(X, g)) for i in range(P.shape[0])])
    b = sstd([cimp(P[:, j], is_num(X, f)) for j in range(P.shape[1])])
    r = (a + b) / 2
    return 0.0 if np.isnan(r) else r


def additivity(phi, X):
    y = phi(X)
    m = np.mean(y)
    tot = np.full(len(X), m)
    for f in X.columns:
        tab = {v: pd1(phi, X, f, v) for v in uniq(X, f)}
        tot = tot + np.array([tab[v] for v in X[f].tolist()]) - m
    return 1 - np.sum((y - tot) ** 2) / np.sum((y - m) ** 2)


def table(df, keys, val):
    """{key tuple or key: value}; fails on duplicated rows."""
    out = {}
    for row in df[list(keys) + [val]].itertuples(index=False, name=None):
        k = row[:-1] if len(keys) > 1 else row[0]
        need(k not in out, f"{k} is listed twice")
        out[k] = row[-1]
    return out


def pair_table(df, val, f1="Feature 1", f2="Feature 2"):
    out = {}
    for (a, b), v in table(df, [f1, f2], val).items():
        k = frozenset((a, b))
        need(k not in out, f"pair {sorted(k)} is listed twice")
        out[k] = v
    return out


def subset(rng, cols, lo=2):
    k = int(rng.integers(min(lo, len(cols)), len(cols) + 1))
    return [cols[i] for i in rng.permutation(len(cols))[:k]]


def snapshot(df):
    return df.copy(deep=True)


def same_frame(a, b, msg):
    need(type(a) is type(b), f"{msg}: type changed")
    if isinstance(a, pd.DataFrame):
        need(list(a.columns) == list(b.columns), f"{msg}: columns {list(b.columns)} became {list(a.columns)}")
        need(list(a.dtypes) == list(b.dtypes), f"{msg}: dtypes changed")
        need(a.index.equals(b.index), f"{msg}: index changed")
        need(a.equals(b), f"{msg}: values changed")
    elif isinstance(a, pd.Series):
        need(a.index.equals(b.index) and a.dtype == b.dtype and a.equals(b), f"{msg}: series changed")
    elif isinstance(a, np.ndarray):
        need(a.dtype == b.dtype and a.shape == b.shape and
             (np.array_equal(a, b) or np.array_equal(a, b, equal_nan=True)), f"{msg}: array changed")
    else:
        need(a == b, f"{msg}: changed from {b} to {a}")


def models_for(X, rng, kinds=("inter", "inter3", "add")):
    """(model, predict_function or None) in one of the three documented ways."""
    k = kinds[rng.integers(0, len(kinds))]
    which = rng.integers(0, 3)
    if which == 0:
        return Reg(X, rng, k), None
    if which == 1:
        return Proba(X, rng, k), None
    return Proba(X, rng, k), own_predict
