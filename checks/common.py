"""helpers shared by the harnesses (used in symbolic and in concrete mode)"""
import math
import sys

import numpy as np
import pandas as pd

from symx.runtime import Obligation          # noqa: F401
from symx.patches import linear_quantile, smin, smax, sym_sort  # noqa: F401
from symx.core import Sym, SymBool, ite as _ite


def ite(c, a, b):
    if isinstance(c, SymBool):
        return _ite(c, a, b)
    return a if c else b


def pos(x):
    """max(x, 0)"""
    return smax(x, 0)


def absv(x):
    return abs(x)


def arr(rows):
    """object/float array of a nested list, without numpy guessing"""
    a = np.array(rows, dtype=object)
    if not any(isinstance(v, Sym) for v in a.ravel()):
        try:
            return a.astype(float)
        except Exception:
            return a
    return a


def hours(n, freq='h', start='2021-03-01'):
    return pd.date_range(start, periods=n, freq=freq)


def frame(a, index=None, columns=None):
    a = np.asarray(a)
    index = hours(len(a)) if index is None else index
    columns = ['y%d' % i for i in range(a.shape[1])] if columns is None else columns
    return pd.DataFrame(a, index=index, columns=columns)


def mean(v):
    v = list(v)
    s = 0
    for x in v:
        s = s + x
    return s / len(v)


def quantile(v, q):
    return linear_quantile(list(v), q)


def sqrt_is(ctx, got, radicand, label):
    """got == sqrt(radicand), stated without a square root"""
    from symx.runtime import _flat
    sg, fg = _flat(got)
    sr, fr = _flat(radicand)
    if sg != sr:
        ctx.eq(got, radicand, label)
        return
    if ctx.symbolic:
        ctx.le(arr([0.0] * len(fg)), arr(fg), label + ' (non negative)')
        ctx.eq(arr([g * g for g in fg]), arr(fr), label)
    else:
        ctx.eq(arr([float(g) for g in fg]), arr([math.sqrt(max(float(r), 0.)) for r in fr]), label)


class FakeScenGen:
    """stands in for the scenario generator: records what it is fitted on"""
    online_tree_reduction = True

    def __init__(self):
        self.fits = []

    def fit(self, errs, x, n_scen=100, **k):
        self.fits.append((errs, x, n_scen))

    def set_params(self, **k):
        pass


class FakeReg:
    """an arbitrary regressor: its output for row r and target j is a free variable m<tag>[r,j]
    (the row is identified by the concrete feature column 'rid')"""
    count = 0

    def __init__(self, ctx, tag, n_targets=None, rid='rid'):
        self.ctx, self.tag, self.nt, self.rid = ctx, tag, n_targets, rid
        self.fit_x = self.fit_y = None

    def fit(self, x, y=None, **k):
        self.fit_x, self.fit_y = x, y
        if self.nt is None:
            self.nt = 1 if getattr(y, 'ndim', 1) == 1 else y.shape[1]
            self.flat = getattr(y, 'ndim', 1) == 1
        return self

    def out(self, r, j=0):
        return self.ctx.real('m%s[%s,%s]' % (self.tag, r, j))

    def rids(self, x):
        return [int(v) for v in (x[self.rid].values if hasattr(x, 'columns') else np.asarray(x)[:, 0])]

    def predict(self, x, *a, **k):
        r = [[self.out(i, j) for j in range(self.nt)] for i in self.rids(x)]
        r = arr(r)
        return r[:, 0] if getattr(self, 'flat', False) else r


def quiet():
    import io
    import contextlib
    return contextlib.redirect_stdout(io.StringIO())


class stub:
    """with stub(module, name=obj, ...): replace module attributes for the duration"""

    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw if hasattr(self.mod, k)}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k in self.kw:
            if k in self.old:
                setattr(self.mod, k, self.old[k])
            else:
                delattr(self.mod, k)


def no_tqdm(x=None, *a, **k):
    return x


class Train:
    """stub set for every point-regression back end: an arbitrary function of (row id, target)"""

    def __init__(self, ctx, lo=-20, hi=20, free=None):
        self.ctx, self.lo, self.hi = ctx, lo, hi
        self.free = free
        self.fits = []
        self.memo = {}

    def val(self, tag, r, j):
        k = (tag, int(r), int(j))
        if self.free is not None and not self.free(int(r)):
            return float((int(r) * 7 + int(j) * 3) % 11 - 5)
        if k not in self.memo:
            self.memo[k] = self.ctx.real('m%s[%d,%d]' % k, self.lo, self.hi)
        return self.memo[k]

    @staticmethod
    def rids(x):
        if 'rid' in getattr(x, 'columns', ()):
            return [int(round(float(a))) for a in x['rid'].values]
        v = x.values if hasattr(x, 'values') else np.asarray(x)
        return [int(round(float(a))) for a in v[:, 0]]

    @staticmethod
    def others(x):
        """what distinguishes calls for the same row: the other features (their order does not matter)"""
        v = x.values if hasattr(x, 'values') else np.asarray(x)
        return [hash(tuple(sorted(round(float(a), 6) for a in r))) % 99991 for r in v]

    def sk(self, tag=''):
        """sklearn-like class"""
        tr = self

        class Reg:
            def __init__(self, *a, **k):
                self.kw = k

            def fit(self, x, y, **k):
                tr.fits.append((x, y))
                self.flat = y.ndim == 1
                self.nt = 1 if self.flat else y.shape[1]
                self.j0 = len(tr.fits) - 1
                self.name = getattr(y, 'name', None)
                return self

            def predict(self, x, *a, **k):
                ids = tr.rids(x)
                if self.flat:
                    return arr([tr.val('s%d:%d' % (self.j0, o), r, 0) for r, o in zip(ids, tr.others(x))])
                return arr([[tr.val(tag, r, j) for j in range(self.nt)] for r in ids])
        return Reg

    def lgb(self):
        """(Dataset, train) of lightgbm: booster k is the k-th one trained"""
        tr = self

        class DS:
            def __init__(self, x, y, *a, **k):
                self.x, self.y = x, y

        class Booster:
            def __init__(self, j):
                self.j = j

            def predict(self, x, *a, **k):
                return arr([tr.val('b', r, self.j) for r in tr.rids(x)])

        def train(pars, ds, *a, **k):
            tr.fits.append((ds.x, ds.y))
            return Booster(len(tr.fits) - 1)
        return DS, train


def hour_rows(ctx, conditional):
    """time index of the training rows: every hour covered (some twice), or not"""
    if conditional == 'all hours':
        return pd.DatetimeIndex(list(hours(24, start='2021-03-01 03:00')) + list(hours(3, start='2021-03-02 03:00')))
    return hours(4, start='2021-03-01 22:00')


def feats(index, first=0):
    return pd.DataFrame({'rid': np.arange(first, first + len(index)) * 1., 'f': np.cos(np.arange(len(index)))}, index=index)


def disj(cs):
    r = None
    for c in cs:
        r = c if r is None else (r | c)
    return r


def conj(cs):
    r = None
    for c in cs:
        r = c if r is None else (r & c)
    return r


def near(a, b, tol=1e-6):
    d = a - b
    return (d <= tol) & (d >= -tol)


class concretely:
    """with concretely(): the repository sees plain numpy (for steps on concrete data only)"""

    def __enter__(self):
        self.old = {m: m.np for n, m in list(sys.modules.items()) if n.startswith('pyforecaster') and getattr(m, 'np', np) is not np}
        for m in self.old:
            m.np = np

    def __exit__(self, *a):
        for m, v in self.old.items():
            m.np = v


class Affine:
    """any per-column scaling (stands in for a fitted StandardScaler)"""

    def __init__(self, ctx, tag, cols):
        self.cols = list(cols)
        self.mean_, self.scale_ = ctx.reals(tag + '.mean', (len(self.cols),), -3, 3), ctx.reals(tag + '.scale', (len(self.cols),), .5, 3)

    def transform(self, df):
        assert list(df.columns) == self.cols, 'the scaler was fitted on %s, not %s' % (self.cols, list(df.columns))
        return pd.DataFrame((df.values - self.mean_) / self.scale_, index=df.index, columns=df.columns)

    def inverse_transform(self, a):
        v = a.values if hasattr(a, 'values') else np.asarray(a)
        return v * self.scale_ + self.mean_


def pass_float(v=0.):
    """float() that lets symbols through (put in the namespace of a module that calls float on a result)"""
    return v if isinstance(v, Sym) else float(v)
