"""numpy / pandas adaptations so that the real code of /repo can carry proxy numbers.

Allocators called from /repo return object arrays (same numbers, dtype object);
C routines that only accept float64 are replaced by reference implementations of
their documented meaning over object arrays (list in STUBS).  Calls whose
arguments hold no symbolic value always go to the original.
"""
import os
import sys
import types

import numpy as np

from .core import Sym, SymReal, SymInt, SymBool, ite, Unsupported, _is_special
import math

REPO = os.environ.get('SYMX_REPO', '/repo')
STUBS = ['np.zeros/ones/empty/full/eye(+_like) called from /repo: object arrays',
         'np.isnan/isfinite/isinf/maximum/minimum/clip/sign/linalg.*: reference implementations on object arrays']

_installed = False


_ORIG = {}
NP = None


def hook_modules():
    """give every loaded /repo module the allocator-aware numpy namespace"""
    for n, m in list(sys.modules.items()):
        if n.startswith('pyforecaster') and m is not None and getattr(m, 'np', None) is np:
            m.np = NP


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(v, Sym) for v in a.ravel())
    if hasattr(a, 'dtypes') or hasattr(a, 'dtype'):
        try:
            v = a.values
        except Exception:
            return False
        return isinstance(v, np.ndarray) and v.dtype == object and any(isinstance(x, Sym) for x in v.ravel())
    if isinstance(a, (list, tuple)):
        return any(has_sym(v) for v in a)
    return False


def _vec(f):
    def g(a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out
    return g


def _obj(a):
    if isinstance(a, np.ndarray):
        return a if a.dtype == object else a.astype(object)
    if hasattr(a, 'iloc'):
        return np.asarray(a.values, dtype=object)
    if isinstance(a, Sym):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    return np.asarray(a, dtype=object)


def _wrap(r, a):
    """keep the pandas container of a"""
    if hasattr(a, 'iloc'):
        if r.ndim == 2:
            return type(a)(r, index=a.index, columns=a.columns)
        return type(a)(r, index=a.index, name=a.name)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


def smin(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _is_special(a):
            return b if a > 0 else a
        if _is_special(b):
            return a if b > 0 else b
        return ite(a <= b, a, b)
    return min(a, b)


def smax(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _is_special(a):
            return b if a < 0 else a
        if _is_special(b):
            return a if b < 0 else b
        return ite(a >= b, a, b)
    return max(a, b)


def _nan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def _binary(f):
    def g(a, b):
        oa, ob = _obj(a), _obj(b)
        oa, ob = np.broadcast_arrays(oa, ob)
        out = np.empty(oa.shape, dtype=object)
        for i in np.ndindex(*oa.shape):
            out[i] = f(oa[i], ob[i])
        return _wrap(out, a if hasattr(a, 'iloc') else b)
    return g


def sym_inv(M):
    """exact inverse by Gauss-Jordan with a symbolic pivot search (forks on pivots)"""
    M = _obj(M)
    if M.ndim > 2:
        out = np.empty(M.shape, dtype=object)
        for i in np.ndindex(*M.shape[:-2]):
            out[i] = sym_inv(M[i])
        return out
    n = M.shape[0]
    A = np.empty((n, 2 * n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = M[i, j]
            A[i, j] = v
            A[i, n + j] = 1 if i == j else 0
    for c in range(n):
        p = None
        for r in range(c, n):
            if bool(A[r, c] != 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != c:
            A[[c, p]] = A[[p, c]]
        piv = A[c, c]
        A[c] = [_exactdiv(v, piv) for v in A[c]]
        for r in range(n):
            if r != c:
                f = A[r, c]
                A[r] = [v - f * w for v, w in zip(A[r], A[c])]
    return A[:, n:].copy()


def _exactdiv(a, b):
    from fractions import Fraction
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    return float(a) / float(b)


def sym_det(M):
    M = _obj(M)
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    return sum((-1) ** j * M[0, j] * sym_det(np.delete(M[1:], j, axis=1)) for j in range(n))


def sym_pinv(M, *a, **k):
    """full column rank: (M'M)^-1 M' ; full row rank: M'(MM')^-1"""
    M = _obj(M)
    if M.shape[0] >= M.shape[1]:
        return sym_inv(M.T @ M) @ M.T
    return M.T @ sym_inv(M @ M.T)


def sym_solve(A, b):
    return sym_inv(A) @ _obj(b)


def sym_norm(x, ord=None, axis=None, keepdims=False):
    x = _obj(x)
    if ord in (None, 2, 'fro') and axis is None:
        return np.sum(x.ravel() ** 2).sqrt()
    raise Unsupported('norm')


def sym_interp(x, xp, fp, left=None, right=None):
    """documented piecewise linear interpolation (increasing xp), constant outside"""
    x, xp, fp = _obj(x), _obj(xp), _obj(fp)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = x[i]
        n = len(xp)
        r = fp[n - 1] if right is None else right
        if bool(v < xp[0]):
            r = fp[0] if left is None else left
        elif bool(v >= xp[n - 1]):
            r = fp[n - 1] if (right is None or bool(v == xp[n - 1])) else right
        else:
            for k in range(n - 1):
                if bool(v < xp[k + 1]):
                    r = fp[k] + (fp[k + 1] - fp[k]) * (v - xp[k]) / (xp[k + 1] - xp[k])
                    break
        out[i] = r
    return out[()] if out.ndim == 0 else out


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import warnings
    warnings.simplefilter('ignore')

    # ---- allocators: only for the `np` that /repo's modules see
    global NP
    NP = types.ModuleType('numpy')
    NP.__getattr__ = lambda n: getattr(np, n)
    o = {n: getattr(np, n) for n in ('zeros', 'ones', 'zeros_like', 'ones_like', 'full', 'full_like', 'eye', 'identity')}
    _ORIG.update(o)

    def floaty(dtype):
        return dtype is None or dtype is float or (not isinstance(dtype, str) and dtype in (np.float64, np.float32))

    def alloc(orig):
        def f(shape, dtype=None, *a, **k):
            if floaty(dtype):
                return orig(shape).astype(object)
            return orig(shape, dtype, *a, **k)
        return f
    NP.zeros = alloc(o['zeros'])
    NP.ones = alloc(o['ones'])
    NP.empty = alloc(o['zeros'])

    def like(orig):
        def f(x, dtype=None, *a, **k):
            xa = np.asarray(x)
            if floaty(dtype) and (xa.dtype == object or np.issubdtype(xa.dtype, np.floating)):
                return orig(o['zeros'](xa.shape), *a, **k).astype(object)
            return orig(x, dtype, *a, **k) if dtype is not None else orig(x, *a, **k)
        return f
    NP.zeros_like = like(o['zeros_like'])
    NP.ones_like = like(o['ones_like'])
    NP.empty_like = like(o['zeros_like'])

    def full(shape, fill_value, dtype=None, *a, **k):
        if floaty(dtype) and (has_sym(fill_value) or dtype is not None or isinstance(fill_value, float)):
            return o['full'](shape, fill_value, object)
        return o['full'](shape, fill_value, dtype, *a, **k)
    NP.full = full

    def full_like(x, fill_value, dtype=None, *a, **k):
        return full(np.asarray(x).shape, fill_value, dtype)
    NP.full_like = full_like

    def eye(*a, **k):
        r = o['eye'](*a, **k)
        return r.astype(object) if r.dtype == float else r
    NP.eye = eye
    NP.identity = eye

    def asarr(name):
        orig = getattr(np, name)

        def f(x, dtype=None, *a, **k):
            if dtype is not None and floaty(dtype) and has_sym(x):
                return orig(x, object, *a, **k)
            return orig(x, dtype, *a, **k) if dtype is not None else orig(x, *a, **k)
        return f
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        setattr(NP, n, asarr(n))

    # ---- predicates / elementwise
    def pred(orig, f):
        def g(a, *args, **k):
            if isinstance(a, Sym):
                return f(a)
            v = a.values if hasattr(a, 'iloc') else a
            if isinstance(v, np.ndarray) and v.dtype == object or isinstance(v, (list, tuple)) and has_sym(v):
                v = _obj(v)
                r = np.array([bool(f(x)) for x in v.ravel()], dtype=bool).reshape(v.shape)
                return _wrap(r, a)
            return orig(a, *args, **k)
        g.__wrapped__ = orig
        return g
    np.isnan = pred(np.isnan, lambda x: False if isinstance(x, Sym) else (x is None or x != x))
    np.isfinite = pred(np.isfinite, lambda x: True if isinstance(x, Sym) else not _is_special(x))
    np.isinf = pred(np.isinf, lambda x: False if isinstance(x, Sym) else (_is_special(x) and x == x))

    class UfuncLike:
        """a ufunc replacement keeping reduce/accumulate"""
        def __init__(self, orig, f):
            self.orig, self.f = orig, f
            self.bin = _binary(f)
            self.__name__ = orig.__name__

        def __call__(self, a, b, *args, **k):
            if has_sym(a) or has_sym(b):
                return self.bin(a, b)
            return self.orig(a, b, *args, **k)

        def __getattr__(self, n):
            return getattr(self.orig, n)
    if True:
        mx, mn = UfuncLike(np.maximum, smax), UfuncLike(np.minimum, smin)
        np.maximum, np.minimum = mx, mn
    _clip = np.clip

    def clip(a, a_min=None, a_max=None, *args, **k):
        a_min = k.pop('min', a_min)
        a_max = k.pop('max', a_max)
        if has_sym(a) or has_sym(a_min) or has_sym(a_max):
            r = a
            if a_min is not None:
                r = mx.bin(r, a_min)
            if a_max is not None:
                r = mn.bin(r, a_max)
            return r
        return _clip(a, a_min, a_max, *args, **k)
    np.clip = clip
    _sign = np.sign

    def sign(a, *args, **k):
        if has_sym(a):
            return _wrap(_vec(lambda v: v if not isinstance(v, Sym) and v != v else
                              (ite(v > 0, 1, ite(v < 0, -1, 0)) if isinstance(v, Sym) else _sign(v)))(_obj(a)), a)
        return _sign(a, *args, **k)
    np.sign = sign

    def rep(mod, name, f):
        orig = getattr(mod, name)

        def g(a, *args, **k):
            if has_sym(a) or any(has_sym(x) for x in args):
                return f(a, *args, **k)
            if isinstance(a, np.ndarray) and a.dtype == object:
                a = a.astype(float)
            return orig(a, *args, **k)
        g.__wrapped__ = orig
        setattr(mod, name, g)
    # elementwise functions over object arrays mixing proxies and plain numbers
    class Unary:
        def __init__(self, orig):
            self.orig = orig
            self.__name__ = orig.__name__

        def __call__(self, x, *args, **k):
            v = x.values if hasattr(x, 'iloc') else x
            if isinstance(v, Sym) or isinstance(v, np.ndarray) and v.dtype == object or isinstance(v, (list, tuple)) and has_sym(v):
                if isinstance(v, Sym):
                    return getattr(v, self.__name__)()
                n, o = self.__name__, self.orig
                return _wrap(_vec(lambda e: getattr(e, n)() if isinstance(e, Sym) else e if e is None else float(o(float(e))))(_obj(v)), x)
            return self.orig(x, *args, **k)

        def __getattr__(self, n):
            return getattr(self.orig, n)
    for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'log1p', 'expm1', 'log2', 'log10'):
        setattr(NP, n, Unary(getattr(np, n)))

    def plain(name):
        orig = getattr(np, name)

        def g(a, *args, **k):
            if not has_sym(a) and isinstance(a, np.ndarray) and a.dtype == object:
                a = a.astype(float)
            return orig(a, *args, **k)
        setattr(NP, name, g)
    plain('corrcoef')
    plain('cov')

    rep(np.linalg, 'inv', sym_inv)
    rep(np.linalg, 'pinv', sym_pinv)
    rep(np.linalg, 'det', sym_det)
    rep(np.linalg, 'solve', sym_solve)
    rep(np.linalg, 'norm', sym_norm)
    rep(np, 'interp', sym_interp)
    _install_linear_quantile()
    install_pandas()


def sym_sort(v):
    """fork-free sort (odd-even transposition network of min/max)"""
    v = list(v)
    if not any(isinstance(x, Sym) for x in v):
        return sorted(v)
    s = sorted(x for x in v if not isinstance(x, Sym))
    for x in v:
        if isinstance(x, Sym):
            out = []
            for i in range(len(s) + 1):
                t = x if i == len(s) else smin(s[i], x)
                out.append(t if i == 0 else smax(s[i - 1], t))
            s = out
    return s


def linear_quantile(vals, q):
    """numpy's default (linear, Hyndman-Fan 7) sample quantile over python objects"""
    v = sym_sort([x for x in vals])
    n = len(v)
    pos = (n - 1) * q
    if isinstance(pos, Sym):
        k = math.floor(pos)
        k = k.__index__() if isinstance(k, SymInt) else int(k)
    else:
        k = int(math.floor(float(pos) + 1e-12))
    k = min(max(k, 0), n - 1)
    f = pos - k
    if k + 1 >= n:
        return v[n - 1]
    if not isinstance(f, Sym):
        f = float(f)
        if abs(f) < 1e-12:
            return v[k]
    return v[k] + (v[k + 1] - v[k]) * f


def _install_linear_quantile():
    for name in ('quantile', 'nanquantile', 'percentile'):
        orig = getattr(np, name)

        def g(a, q, axis=None, *args, __o=orig, __n=name, **k):
            v = a.values if hasattr(a, 'iloc') else np.asarray(a)
            if has_sym(v) and _sup(args, k):
                qq = np.asarray(q, dtype=object)
                if __n == 'percentile':
                    qq = qq / 100
                if axis is None:
                    v = v.ravel()
                    ax = 0
                else:
                    ax = axis
                if not isinstance(ax, (int, np.integer)):
                    raise Unsupported('quantile axis')
                v = np.moveaxis(v, ax, -1)
                out = np.zeros(qq.shape + v.shape[:-1]).astype(object)
                for iq in np.ndindex(*qq.shape):
                    for i in np.ndindex(*v.shape[:-1]):
                        out[iq + i] = linear_quantile(v[i], qq[iq])
                if k.get('keepdims'):
                    out = np.expand_dims(out, axis=len(qq.shape) + (ax if ax >= 0 else v.ndim + ax))
                return out[()] if out.ndim == 0 else out
            return __o(a, q, axis, *args, **k)
        setattr(np, name, g)


def _sup(args, k):
    if args or any(x not in ('keepdims', 'method', 'interpolation') for x in k):
        raise Unsupported('quantile options')
    if k.get('method', k.get('interpolation', 'linear')) != 'linear':
        raise Unsupported('quantile method')
    return True


# ------------------------------------------------------------------ pandas
def _nan_obj(v):
    return v is None or (isinstance(v, (float, np.floating)) and v != v)


def _stat(name, vals, ddof=1, q=None):
    """documented value of a pandas reduction over a list of non-missing python objects"""
    n = len(vals)
    if name in ('sum', 'nansum'):
        r = 0.0
        for v in vals:
            r = r + v
        return r
    if n == 0:
        return float('nan')
    if name == 'mean':
        return _stat('sum', vals) / n
    if name == 'max':
        r = vals[0]
        for v in vals[1:]:
            r = smax(r, v)
        return r
    if name == 'min':
        r = vals[0]
        for v in vals[1:]:
            r = smin(r, v)
        return r
    if name in ('var', 'std'):
        if n - ddof <= 0:
            return float('nan')
        m = _stat('mean', vals)
        s = 0
        for v in vals:
            s = s + (v - m) * (v - m)
        r = s / (n - ddof)
        if name == 'var':
            return r
        return r.sqrt() if isinstance(r, Sym) else math.sqrt(r)
    if name == 'median':
        return linear_quantile(vals, 0.5)
    if name == 'quantile':
        return linear_quantile(vals, q)
    if name == 'count':
        return n
    if name == 'first':
        return vals[0]
    if name == 'last':
        return vals[-1]
    raise Unsupported('reduction ' + str(name))


def install_pandas():
    import pandas as pd
    from pandas.core import nanops
    from pandas.core.generic import NDFrame
    from pandas.core.groupby.generic import SeriesGroupBy, DataFrameGroupBy

    _en = nanops._ensure_numeric

    def ensure_numeric(x):
        if isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object and has_sym(x)):
            return x
        return _en(x)
    nanops._ensure_numeric = ensure_numeric

    def red(name):
        orig = getattr(nanops, name)
        stat = name[3:]

        def f(values, *args, axis=None, skipna=True, mask=None, **k):
            if isinstance(values, np.ndarray) and values.dtype == object and has_sym(values):
                ddof = k.get('ddof', 1)

                def one(col):
                    v = [x for x in col if not _nan_obj(x)]
                    if len(v) < len(col) and not skipna:
                        return float('nan')
                    return _stat(stat, v, ddof)
                if values.ndim == 1 or axis is None:
                    return one(values.ravel())
                out = np.array([None] * values.shape[1 - axis], dtype=object)
                for i in range(len(out)):
                    out[i] = one(values[:, i] if axis == 0 else values[i])
                return out
            if args:
                return orig(values, *args, **k)
            kk = dict(k)
            if axis is not None:
                kk['axis'] = axis
            return orig(values, skipna=skipna, mask=mask, **kk)
        f.__name__ = name
        setattr(nanops, name, f)
    for n in ('nanmean', 'nanvar', 'nanstd', 'nanmax', 'nanmin', 'nansum', 'nanmedian'):
        red(n)

    # NaN, not None, on shift of an object frame
    for cls in (pd.DataFrame, pd.Series):
        _shift = cls.shift

        def shift(self, *a, __o=_shift, **k):
            r = __o(self, *a, **k)
            try:
                obj = (r.dtype == object) if r.ndim == 1 else (r.dtypes == object).any()
                if obj:
                    r = r.where(r.notna(), np.nan)
            except Exception:
                pass
            return r
        cls.shift = shift

        _astype = cls.astype

        def astype(self, dtype, *a, __o=_astype, **k):
            if has_sym(self) and dtype in (float, np.float64, np.float32, 'float', 'float64', 'float32'):
                return self.copy()
            return __o(self, dtype, *a, **k)
        cls.astype = astype

        _quant = cls.quantile

        def quantile(self, q=0.5, *a, __o=_quant, **k):
            if has_sym(self):
                if self.ndim == 1:
                    vals = [v for v in self.values if not _nan_obj(v)]
                    if np.ndim(q) == 0:
                        return _stat('quantile', vals, q=q)
                    return pd.Series([_stat('quantile', vals, q=p) for p in q], index=list(q), name=self.name, dtype=object)
                axis = a[0] if a else k.get('axis', 0)
                fr = self if axis in (0, 'index') else self.T
                cols = [[v for v in fr.iloc[:, j].values if not _nan_obj(v)] for j in range(fr.shape[1])]
                if np.ndim(q) == 0:
                    r = pd.Series([_stat('quantile', c, q=q) for c in cols], index=fr.columns, dtype=object)
                    r.name = q
                    return r
                d = np.array([[None] * len(cols)] * len(q), dtype=object).reshape(len(q), len(cols))
                for i, p in enumerate(q):
                    for j, c in enumerate(cols):
                        d[i, j] = _stat('quantile', c, q=p)
                return pd.DataFrame(d, index=pd.Index(list(q)), columns=fr.columns)
            return __o(self, q, *a, **k)
        cls.quantile = quantile

        _rolling = cls.rolling

        def rolling(self, *a, __o=_rolling, **k):
            if has_sym(self):
                return SymRolling(self, a, k, __o)
            return __o(self, *a, **k)
        cls.rolling = rolling

    # groupby: layout from the real operation on a float shadow, values from the definition
    def gb(cls, name):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            obj = self._selected_obj
            if not has_sym(obj):
                return orig(self, *a, **k)
            return _groupby_reduce(self, name, orig, a, k)
        setattr(cls, name, f)
    for c in (SeriesGroupBy, DataFrameGroupBy):
        for n in ('mean', 'std', 'var', 'sum', 'min', 'max', 'median', 'quantile', 'first', 'last'):
            gb(c, n)


def _groupby_reduce(g, name, orig, a, k):
    import pandas as pd
    obj = g._obj_with_exclusions if g._selected_obj.ndim == 2 else g._selected_obj
    shadow = obj.isna().astype(float) * np.nan
    shadow = shadow.where(obj.isna(), 1.0)
    # same grouping on the shadow
    codes = g._grouper.codes if hasattr(g, '_grouper') else g.grouper.codes
    gr = g._grouper if hasattr(g, '_grouper') else g.grouper
    sg = shadow.groupby(_grouping_vectors(gr), observed=g.observed, sort=g.sort, dropna=g.dropna)
    try:
        sg._grouper.names
    except Exception:
        pass
    lay = getattr(sg, name)(*a, **k)
    names = list(gr.names)
    if name == 'quantile':
        q = a[0] if a else k.get('q', 0.5)
    out = lay.astype(object)
    nan_ok = obj.isna()
    lev = sg.indices
    vals = obj.values
    for pos in range(len(out)):
        key = out.index[pos]
        qq = None
        if name == 'quantile' and np.ndim(q) > 0:
            qq = key[-1]
            key = key[:-1] if len(key) > 2 else key[0]
        elif name == 'quantile':
            qq = q
        rows = lev.get(key)
        if rows is None:
            continue
        if vals.ndim == 1:
            v = [x for x in vals[rows] if not _nan_obj(x)]
            out.iloc[pos] = _stat(name, v, q=qq, ddof=k.get('ddof', 1))
        else:
            for j in range(vals.shape[1]):
                v = [x for x in vals[rows, j] if not _nan_obj(x)]
                out.iloc[pos, j] = _stat(name, v, q=qq, ddof=k.get('ddof', 1))
    if len(names) == out.index.nlevels:
        out.index.names = names
    elif len(names) + 1 == out.index.nlevels:
        out.index.names = names + [None]
    return out


def _grouping_vectors(gr):
    vs = [p.grouping_vector for p in gr.groupings]
    import pandas as pd
    r = []
    for p in gr.groupings:
        v = p.grouping_vector
        r.append(v)
    return r if len(r) > 1 else r[0]


class SymRolling:
    """windows exactly as pandas computes them (recorded from the real rolling on row positions)"""

    def __init__(self, obj, a, k, orig):
        import pandas as pd
        self.obj = obj
        pos = pd.Series(np.arange(len(obj), dtype=float), index=obj.index)
        self.win = []

        def rec(w):
            self.win.append([int(v) for v in w])
            return 0.0
        kk = dict(k)
        self.min_periods = kk.get('min_periods', a[1] if len(a) > 1 else None)
        window = a[0] if a else kk.get('window')
        kk['min_periods'] = 0
        aa = a[:1]
        orig(pos, *aa, **{x: v for x, v in kk.items()}).apply(rec, raw=True)
        if self.min_periods is None:
            self.min_periods = int(window) if isinstance(window, (int, np.integer)) else 1

    def _col(self, values, name, q=None, ddof=1):
        out = np.array([float('nan')] * len(values), dtype=object)
        for i, w in enumerate(self.win):
            v = [values[j] for j in w if not _nan_obj(values[j])]
            if len(v) >= self.min_periods and (len(v) or name == 'sum'):
                out[i] = _stat(name, v, q=q, ddof=ddof)
        return out

    def _run(self, name, q=None, ddof=1):
        import pandas as pd
        o = self.obj
        if o.ndim == 1:
            return pd.Series(self._col(o.values, name, q, ddof), index=o.index, name=o.name, dtype=object)
        d = np.empty(o.shape, dtype=object)
        v = o.values
        for j in range(o.shape[1]):
            d[:, j] = self._col(v[:, j], name, q, ddof)
        return pd.DataFrame(d, index=o.index, columns=o.columns)

    def mean(self, *a, **k): return self._run('mean')
    def max(self, *a, **k): return self._run('max')
    def min(self, *a, **k): return self._run('min')
    def sum(self, *a, **k): return self._run('sum')
    def median(self, *a, **k): return self._run('median')
    def std(self, ddof=1, *a, **k): return self._run('std', ddof=ddof)
    def var(self, ddof=1, *a, **k): return self._run('var', ddof=ddof)
    def quantile(self, quantile=None, q=None, *a, **k): return self._run('quantile', q if quantile is None else quantile)

    def apply(self, f, raw=False, **k):
        import pandas as pd
        o = self.obj

        def col(values):
            out = np.array([float('nan')] * len(values), dtype=object)
            for i, w in enumerate(self.win):
                v = _obj([values[j] for j in w])
                if sum(not _nan_obj(x) for x in v) >= self.min_periods:
                    out[i] = f(v if raw else pd.Series(v, index=o.index[w]))
            return out
        if o.ndim == 1:
            return pd.Series(col(o.values), index=o.index, name=o.name, dtype=object)
        d = np.empty(o.shape, dtype=object)
        for j in range(o.shape[1]):
            d[:, j] = col(o.values[:, j])
        return pd.DataFrame(d, index=o.index, columns=o.columns)

    def agg(self, f, *a, **k):
        import pandas as pd
        if isinstance(f, str):
            if f == 'quantile':
                return self.quantile(*a, **k)
            return getattr(self, f)(*a, **k)
        if callable(f):
            return self.apply(f)
        if isinstance(f, (list, tuple)):
            fs = [(x if isinstance(x, str) else getattr(x, '__name__', 'f')) for x in f]
            o = self.obj
            if o.ndim == 1:
                return pd.concat({n: self.agg(x) for n, x in zip(fs, f)}, axis=1)
            res = {n: self.agg(x) for n, x in zip(fs, f)}
            cols = pd.MultiIndex.from_tuples([((c if isinstance(c, tuple) else (c,)) + (n,)) for c in o.columns for n in fs],
                                             names=list(o.columns.names) + [None])
            d = np.empty((len(o), len(cols)), dtype=object)
            i = 0
            for j in range(o.shape[1]):
                for n in fs:
                    d[:, i] = res[n].values[:, j]
                    i += 1
            return pd.DataFrame(d, index=o.index, columns=cols)
        if isinstance(f, dict):
            return pd.concat({c: self.obj[[c]].rolling(1).agg(x) for c, x in f.items()}, axis=1)
        raise Unsupported('rolling agg')
    aggregate = agg
