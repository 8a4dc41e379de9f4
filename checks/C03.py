from checks.common import *

PRELOAD = ['pyforecaster.formatter']
STUBS = ['pandas.date_range(start, end, n): n equally spaced instants including both ends (its documentation)',
         'transform metadata: an arbitrary look-back per variable']
OUTSIDE = 'more than 8 samples, more than 4 folds, multipliers above 2; rounding of the fold borders to nanoseconds; the horizon of the targets is not part of the dead band'
F = 'pyforecaster.formatter.Formatter.'
BASE = pd.Timestamp('2021-03-01')


class SymIndex:
    """a time index whose instants are free, increasing numbers of seconds"""

    def __init__(self, v):
        self.v = arr(v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i] if isinstance(i, (int, np.integer)) else SymIndex(self.v[i])

    def __iter__(self):
        return iter(self.v)

    @property
    def values(self):
        return self.v

    def min(self):
        return self.v[0]

    def max(self):
        return self.v[-1]

    @property
    def shape(self):
        return self.v.shape

    def _c(self, o, f):
        o = getattr(o, 'v', o)
        b = np.broadcast_to(np.asarray(o, dtype=object), self.v.shape)
        return np.array([bool(f(a, c)) for a, c in zip(self.v, b)], dtype=bool)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __sub__(self, o): return SymIndex(self.v - getattr(o, 'v', o))
    def __add__(self, o): return SymIndex(self.v + getattr(o, 'v', o))


class PD:
    """the pandas namespace with a date_range over numbers of seconds"""

    def __init__(self, pd):
        self._pd = pd

    def __getattr__(self, k):
        return getattr(self._pd, k)

    @staticmethod
    def date_range(start=None, end=None, periods=None, **k):
        n = int(periods)
        if n == 1:
            return SymIndex([start])
        return SymIndex([start + (end - start) * i / (n - 1) for i in range(n)])

    def Timedelta(self, v=0, unit=None, **k):
        return v if isinstance(v, Sym) else self._pd.Timedelta(v, unit) / self._pd.Timedelta('1s') if not isinstance(v, (int, float)) or unit else v


def _setup(ctx, n, n_d):
    """(time index, formatter whose features look back d seconds, times in seconds, d)"""
    import pyforecaster.formatter as pf
    t = [0]
    for i in range(1, n):
        t.append(t[-1] + ctx.int('gap%d' % i, 600, 7200) * 1.0)
    d = [ctx.int('d%d' % i, 0, 40000) * 1.0 for i in range(n_d)]
    f = pf.Formatter(n_parallel=1)
    f.logger.disabled = True

    class Tr:
        pass
    if ctx.symbolic:
        ti = SymIndex(t)
        td = [-v for v in d]
    else:
        t = [int(v) for v in t]
        d = [int(v) for v in d]
        ti = pd.DatetimeIndex([BASE + pd.Timedelta(v, 's') for v in t])
        td = [pd.Timedelta(-v, 's') for v in d]
    k = 0
    for g in ([td[:1], td[1:]] if n_d == 2 else [td]):
        tr = Tr()
        s = pd.Series(g, dtype=object) if ctx.symbolic else pd.Series(pd.to_timedelta(g))
        tr.metadata = pd.DataFrame({'start_time': s})
        tr.names = ['a']
        f.transformers.append(tr)
    return pf, f, ti, t, d


def _folds(ctx, pf, f, ti, n_k, m):
    if ctx.symbolic:
        with stub(pf, pd=PD(pf.pd)):
            return list(f.time_kfcv(ti, n_k, multiplier_factor=m))
    return list(f.time_kfcv(ti, n_k, multiplier_factor=m))


def _bools(v):
    return [bool(b) for b in np.asarray(v)]


def folds(n, n_k, m, n_d):
    def h(ctx):
        pf, f, ti, t, d = _setup(ctx, n, n_d)
        T = t[-1]
        look = _m(d)
        ctx.assume(look * (2 * n_k + 2) <= T)          # the code refuses dead bands longer than a fold
        fs = _folds(ctx, pf, f, ti, n_k, m)
        ctx.true(len(fs) == n_k * m, 'number of folds')
        seen = [False] * n
        for tr, te in fs:
            tr, te = _bools(tr), _bools(te)
            ctx.true(len(tr) == n and len(te) == n, 'masks cover the index')
            ctx.true(not any(a and b for a, b in zip(tr, te)), 'no sample is in both train and test')
            test = [i for i in range(n) if te[i]]
            seen = [a or b for a, b in zip(seen, te)]
            if test:
                ctx.true(test == list(range(test[0], test[-1] + 1)), 'test samples are consecutive')
            for i in range(n):
                for j in (test[:1] + test[-1:]):
                    if tr[i]:
                        ctx.le(look, abs(t[i] - t[j]), 'train and test are separated by the longest look-back')
        ctx.true(all(seen), 'every sample is tested at least once')
    return h


def _m(d):
    r = d[0]
    for v in d[1:]:
        r = smax(r, v)
    return r


def layout(n, n_k):
    def h(ctx):
        """one pass of folds: consecutive windows of equal length tile the data; training is everything beyond the dead band"""
        pf, f, ti, t, d = _setup(ctx, n, 1)
        T = t[-1]
        look = d[0]
        ctx.assume(look * (2 * n_k + 2) <= T)
        fs = _folds(ctx, pf, f, ti, n_k, 1)
        eps = 0.001
        for k, (tr, te) in enumerate(fs):
            tr, te = _bools(tr), _bools(te)
            lo, hi = T * k / n_k, T * (k + 1) / n_k
            for i in range(n):
                ctx.true(_imp(te[i], t[i] >= lo - eps) , 'test samples are in the fold window')
                ctx.true(_imp(te[i], t[i] <= hi + eps), 'test samples are in the fold window')
                if not te[i]:
                    ctx.true((t[i] <= lo + eps) | (t[i] >= hi - eps), 'every sample of the fold window is tested')
                if not tr[i]:
                    ctx.true((t[i] >= lo - look - eps) & (t[i] <= hi + look + eps), 'everything outside window and dead band is used for training')
                else:
                    ctx.true((t[i] <= lo - look + eps) | (t[i] >= hi + look - eps), 'nothing inside window and dead band is used for training')
        if n_k == 2:
            for tr, te in fs:
                ctx.true(sum(_bools(te)) < n, 'a fold never tests everything')
    return h


def _imp(a, b):
    return b if a else True


def refuse(ctx):
    """a dead band longer than a fold is refused"""
    pf, f, ti, t, d = _setup(ctx, 5, 1)
    ctx.assume(d[0] > t[-1])
    try:
        _folds(ctx, pf, f, ti, 3, 1)
    except Exception:
        ctx.true(True, 'refused')
        return
    ctx.true(False, 'refused')


def real_index(ctx):
    """the whole route with a real formatter and a regular index: dead band from the transforms"""
    import pyforecaster.formatter as pf
    n = ctx.pick('n', 20, 26)
    n_k = ctx.pick('n_k', 2, 3)
    m = ctx.pick('m', 1, 2)
    lag = ctx.pick('lag', 0, 2)
    agg = ctx.pick('agg', 1, 3)
    ahead = ctx.flag('future_feature')
    pre = ctx.flag('transformed_before')
    x = pd.DataFrame(np.arange(n * 2.).reshape(n, 2), index=hours(n), columns=['a', 'b'])
    f = pf.Formatter(n_parallel=1)
    f.logger.disabled = True
    f.add_transform(['a'], lags=[0, lag, -(lag + 2), 1] if ahead else [0, lag, 1])
    f.add_transform(['b'], ['mean'], agg_freq='%dh' % agg)
    f.add_target_transform(['a'], lags=[-1])
    if pre:
        f.transform(x)
    look = max(lag, 1, agg - 1, lag + 2 if ahead else 0)
    fs = list(f.time_kfcv(x.index, n_k, multiplier_factor=m, x=x))
    ctx.true(len(fs) == n_k * m, 'number of folds')
    seen = np.zeros(n, bool)
    for tr, te in fs:
        tr, te = np.asarray(tr, bool), np.asarray(te, bool)
        seen |= te
        ctx.true(not np.any(tr & te) and tr.any() and te.any(), 'disjoint, non empty')
        i, j = np.where(tr)[0], np.where(te)[0]
        ctx.true(np.min(np.abs(i[:, None] - j[None, :])) > look, 'no training row is within the look-back of a test row')
        gap = [k for k in range(n) if not tr[k] and not te[k]]
        ctx.true(all(min(abs(k - j)) <= look + 1 for k in gap), 'only the dead band is skipped')
    ctx.true(bool(seen.all()), 'every sample is tested')


OBLIGATIONS = [
    Obligation('folds_2', folds(5, 2, 1, 1), [F + 'time_kfcv'], '5 samples at any increasing times (gaps 10 min to 2 h), 2 folds, any look-back below half a fold', max_paths=6000),
    Obligation('folds_3', folds(5, 3, 1, 2), [F + 'time_kfcv'], '5 samples, 3 folds, two variables with any look-back', max_paths=6000),
    Obligation('folds_3lags', folds(4, 2, 1, 3), [F + 'time_kfcv'], '4 samples, 2 folds, one variable with any three look-backs in any order', max_paths=6000),
    Obligation('folds_multi', folds(4, 2, 2, 1), [F + 'time_kfcv'], '4 samples, 2 folds, multiplier 2', max_paths=6000),
    Obligation('layout_2', layout(5, 2), [F + 'time_kfcv'], '5 samples, 2 folds', max_paths=6000),
    Obligation('layout_3', layout(6, 3), [F + 'time_kfcv'], '6 samples, 3 folds', max_paths=6000),
    Obligation('real_index', real_index, [F + 'time_kfcv', F + '_simulate_transform'], '20-26 hourly samples, 2-3 folds, multiplier 1-2, look-back 0-4 steps', max_paths=6000),
    Obligation('refuse', refuse, [F + 'time_kfcv'], '5 samples, 3 folds', max_paths=6000),
]
