from checks.common import *

PRELOAD = ['pyforecaster.forecaster']
STUBS = ['numpy.random.default_rng: any draw its documentation allows (choice: any distinct elements in any order; multinomial: any split of m)']
OUTSIDE = 'more than 6 rows, 3 hours of day; the distribution of the draws (only their set of possible values is used)'
S = 'pyforecaster.forecaster.ScenarioGenerator.'


class AnyRng:
    """a generator returning any value allowed"""

    def __init__(self, ctx, log):
        self.ctx, self.log, self.k = ctx, log, 0

    def _i(self, lo, hi):
        self.k += 1
        return self.ctx.pick('rng%d' % self.k, lo, hi)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        self.log.append(('choice', len(pool), size, replace))
        out = []
        for _ in range(1 if size is None else int(size)):
            if replace:
                out.append(pool[self._i(0, len(pool) - 1)])
            else:
                out.append(pool.pop(self._i(0, len(pool) - 1)))
        return np.array(out) if size is not None else out[0]

    def permutation(self, a):
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        out = []
        while pool:
            out.append(pool.pop(self._i(0, len(pool) - 1)))
        return np.array(out)

    def multinomial(self, n, p, size=None):
        self.log.append(('multinomial', int(n), [float(v) for v in p]))
        out, left = [], int(n)
        for i in range(len(p) - 1):
            v = self._i(0, left)
            out.append(v)
            left -= v
        return np.array(out + [left])


class RandomNS:
    def __init__(self, rnd, make):
        self._r, self._m = rnd, make

    def __getattr__(self, k):
        return getattr(self._r, k)

    def default_rng(self, seed=None):
        return self._m(seed)


class NpProxy:
    def __init__(self, np_, make):
        self._np, self.random = np_, RandomNS(np_.random, make)

    def __getattr__(self, k):
        return getattr(self._np, k)


def _index(kind):
    h = {'one hour': [5, 5, 5, 5], 'two hours': [3, 4, 3, 4, 3], 'rare hour': [7, 7, 7, 8], 'three hours': [1, 2, 3, 1, 2], 'unsorted': [4, 3, 4, 3]}[kind]
    idx = pd.DatetimeIndex([pd.Timestamp('2021-03-01') + pd.Timedelta(days=i, hours=k) for i, k in enumerate(h)])
    if kind == 'unsorted':
        idx = idx[[2, 0, 3, 1]]
    return idx


def _gen(m, seed=None, cls=None):
    import pyforecaster.forecaster as fc
    base = cls or fc.ScenarioGenerator

    class Gen(base):
        def __init__(self, **k):
            super().__init__(**k)

        def predict(self, x, **k):
            self.seen = x
            return self.answer(x)

        def _predict_quantiles(self, x, **k):
            raise NotImplementedError
    g = Gen(max_scengen_rows=m, scengen_random_state=seed, q_vect=np.array([0.1, 0.5, 0.9]))
    g.scengen = FakeScenGen()
    g.logger.disabled = True
    return fc, g


def _with_rng(ctx, fc, fn):
    log, seeds = [], []

    def make(seed):
        seeds.append(seed)
        return AnyRng(ctx, log)
    old = fc.np
    fc.np = NpProxy(old, make)
    try:
        r = fn()
    finally:
        fc.np = old
    return r, log, seeds


def _check_rows(ctx, xs, ys, x, y, m):
    rid = [int(v) for v in xs['rid']]
    ctx.true(len(rid) == m and len(ys) == m, 'exactly the requested number of rows')
    ctx.true(len(set(rid)) == len(rid), 'no row is drawn twice')
    ctx.true(list(xs.index) == list(ys.index), 'features and targets stay aligned')
    ctx.true(list(xs.index) == [x.index[r] for r in rid], 'rows keep their time stamp')
    ctx.true(bool(xs.index.is_monotonic_increasing), 'rows are in time order')
    ctx.eq(xs.values, x.values[rid], 'feature values of the rows')
    ctx.eq(ys.values, y.values[rid], 'target values of the rows')
    return rid


def draw(kind):
    def h(ctx):
        idx = _index(kind) if kind != 'range' else pd.RangeIndex(4)
        n = len(idx)
        m = ctx.pick('m', 1, n + 1)
        if n == 5 and m == 4 and ctx.tier == 'quick':
            m = 3
        x = pd.DataFrame(ctx.reals('x', (n, 2)), index=idx, columns=['rid', 'f'])
        x['rid'] = np.arange(n) * 1.
        y = pd.DataFrame(ctx.reals('y', (n, 1)), index=idx, columns=['t'])
        fc, g = _gen(m, seed=7)
        (xs, ys), log, seeds = _with_rng(ctx, fc, lambda: g._maybe_subsample_for_scengen(x, y))
        if n <= m:
            ctx.true(len(xs) == n and len(ys) == n and not seeds, 'no subsampling below the cap')
            ctx.eq(xs.values, x.values, 'all rows are used')
            ctx.eq(ys.values, y.values, 'all rows are used')
            return
        rid = _check_rows(ctx, xs, ys, x, y, m)
        ctx.true(seeds == [7], 'one generator, seeded as configured')
        ctx.true(all(not l[3] for l in log if l[0] == 'choice'), 'drawn without replacement')
        if kind != 'range':
            hr = [t.hour for t in idx]
            u = sorted(set(hr))
            mult = [l for l in log if l[0] == 'multinomial']
            if m >= len(u):
                ctx.true(len(mult) == 1 and mult[0][1] == m, 'the draw is split over the hours')
                ctx.true(all(abs(p - hr.count(v) / n) < 1e-9 for p, v in zip(mult[0][2], u)), 'hours are drawn in proportion to their share of the rows')
                pools = [l[1] for l in log if l[0] == 'choice']
                ctx.true(all(p in [hr.count(v) for v in u] for p in pools), 'rows are drawn within their hour')
    return h


def seed_order(ctx):
    """the seed: explicit, else the model's own integer seed, else zero"""
    idx = _index('two hours')
    n = len(idx)
    x = pd.DataFrame({'rid': np.arange(n) * 1., 'f': 0.}, index=idx)
    y = pd.DataFrame({'t': np.zeros(n)}, index=idx)
    a = ctx.choose('explicit', [None, 0, 11])
    b = ctx.choose('own', ['missing', None, 5, 'generator'])
    fc, g = _gen(1, seed=a)
    if b != 'missing':
        g.random_state = np.random.RandomState(1) if b == 'generator' else b
    _, log, seeds = _with_rng(ctx, fc, lambda: g._maybe_subsample_for_scengen(x, y))
    ctx.true(seeds == [a if a is not None else 5 if b == 5 else 0], 'seed precedence')
    ctx.reach('seed')


def repeatable(ctx):
    """with the real generator the same seed gives the same rows, twice in a row and on a fresh object"""
    n = ctx.pick('n', 5, 8)
    m = ctx.pick('m', 2, 4)
    s = ctx.pick('seed', 0, 3)
    idx = pd.DatetimeIndex([pd.Timestamp('2021-03-01') + pd.Timedelta(days=i, hours=i % 2) for i in range(n)])
    x = pd.DataFrame(ctx.reals('x', (n, 1)), index=idx, columns=['f'])
    x['rid'] = np.arange(n) * 1.
    y = pd.DataFrame(ctx.reals('y', (n, 1)), index=idx, columns=['t'])
    fc, g = _gen(m, seed=s)
    a = g._maybe_subsample_for_scengen(x, y)
    b = g._maybe_subsample_for_scengen(x, y)
    c = _gen(m, seed=s)[1]._maybe_subsample_for_scengen(x, y)
    for o in (b, c):
        ctx.true(list(o[0]['rid']) == list(a[0]['rid']), 'same seed, same rows')
    _check_rows(ctx, a[0], a[1], x, y, m)


def post_fit(ctx):
    """residuals, scenario fit and residual quantiles all use exactly the drawn rows"""
    idx = _index('two hours')
    n, m = len(idx), ctx.pick('m', 2, 3)
    x = pd.DataFrame({'rid': np.arange(n) * 1., 'f': 0.}, index=idx)
    y = pd.DataFrame(ctx.reals('y', (n, 1), -20, 20), index=idx, columns=['t'])
    p = ctx.reals('p', (n,), -20, 20)
    fc, g = _gen(m, seed=1)
    g.conditional_to_hour = False
    g.answer = lambda z: pd.DataFrame(arr([[p[int(r)]] for r in z['rid']]), index=z.index, columns=['t'])
    with quiet():
        _, log, seeds = _with_rng(ctx, fc, lambda: fc.ScenarioGenerator.fit(g, x, y))
    errs, xx, ns = g.scengen.fits[0]
    rid = [int(r) for r in xx['rid']]
    ctx.true(len(rid) == m and len(set(rid)) == m, 'the scenario generator sees the drawn rows')
    ctx.true([int(r) for r in g.seen['rid']] == rid, 'predictions are made for the drawn rows only')
    E = [y.values[r, 0] - p[r] for r in rid]
    ctx.true(list(errs.index) == list(xx.index), 'residuals carry the rows\' time stamps')
    ctx.eq(errs.values[:, 0], arr(E), 'residuals of the drawn rows')
    ctx.eq(g.err_distr[0], arr([quantile(E, q) for q in (0.1, 0.5, 0.9)]), 'residual quantiles of the drawn rows')


def invalid(ctx):
    """a cap that is not a positive integer is refused; misaligned inputs are refused"""
    import pyforecaster.forecaster as fc
    v = ctx.choose('cap', [0, -3, 2.5, 'x'])
    try:
        _gen(v)
        ok = False
    except (ValueError, TypeError):
        ok = True
    ctx.true(ok, 'invalid caps are refused')
    fc, g = _gen(2)
    x = pd.DataFrame({'rid': np.arange(4) * 1.}, index=hours(4))
    y = pd.DataFrame({'t': np.arange(4) * 1.}, index=hours(4)[::-1])
    try:
        g._maybe_subsample_for_scengen(x, y)
        ok = False
    except ValueError:
        ok = True
    ctx.true(ok, 'misaligned features and targets are refused')
    ctx.reach('invalid')


FN = [S + k for k in ('_maybe_subsample_for_scengen', '_subsample_stratified_by_hour', '_subsample_uniform', '_order_rows_by_index_order', '_get_scengen_subsample_seed')]
OBLIGATIONS = [Obligation('draw_' + k.replace(' ', '_'), draw(k), FN, '4-5 rows (%s), every cap, every possible draw' % k, max_paths=20000)
               for k in ('one hour', 'two hours', 'rare hour', 'three hours', 'unsorted', 'range')] + [
    Obligation('seed_order', seed_order, FN, 'all combinations of explicit and own seed'),
    Obligation('repeatable', repeatable, FN, '5-8 rows, caps 2-4, seeds 0-3'),
    Obligation('post_fit', post_fit, FN + [S + 'fit', S + '_estimate_err_distr'], '5 rows, cap 2-3, every possible draw', max_paths=20000),
    Obligation('invalid', invalid, ['pyforecaster.forecaster._validate_max_scengen_rows', S + '_maybe_subsample_for_scengen'], 'four invalid caps'),
]
