from checks.common import *

PRELOAD = ['pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.holtwinters', 'pyforecaster.forecasting_models.statsmodels_wrapper', 'pyforecaster.forecasting_models.identity']
STUBS = ['scenario generator (records the residuals it is fitted on)', 'statsmodels results object: remembers which observations it has seen, its k-th forecast is an arbitrary function of them',
         'support of the discrete targets: any increasing numbers']
OUTSIDE = 'more than 9 rows, 3 steps; seasonality below the horizon; times of day never seen at training; row caps with the seasonal model; exogenous variables of statsmodels'
P = 'pyforecaster.forecasting_models.'


def hank(ctx):
    """row i of the target matrix holds the n values from i on, nothing is lost or invented"""
    from pyforecaster.forecasting_models.holtwinters import hankel
    n, k = ctx.pick('values', 1, 7), ctx.pick('steps', 1, 4)
    ctx.assume(n >= k)
    v = ctx.reals('v', (n,), -9, 9)
    form = ctx.choose('form', ['flat', 'column', 'some steps'])
    g = ctx.choose('steps wanted', [[0], [k - 1], [k - 1, 0]]) if form == 'some steps' else None
    r = hankel(v if form != 'column' else v.reshape(-1, 1), k, g)
    w = list(range(k)) if g is None else g
    ctx.eq(r, arr([[v[i + j] for j in w] for i in range(n - k + 1)]), 'row i holds values i, i+1, ...')


def _m(kind, s, nsa, ratio, hour):
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    kw = dict(n_sa=nsa, q_vect=[.1, .9], val_ratio=ratio, conditional_to_hour=hour)
    m = Persistent('y', **kw) if kind == 'persistent' else SeasonalPersistent('y', seasonality=s, **kw)
    m.scengen = FakeScenGen()
    return m


def persistence(kind):
    def h(ctx):
        """forecasts are past observations of their own row; residuals are future observation minus forecast"""
        ratio = ctx.choose('validation', [None, .5])
        nsa = ctx.pick('steps', 1, 2)
        s = nsa if kind == 'persistent' else ctx.pick('season', nsa, 3)
        n = 8
        v = ctx.reals('y', (n + 3,), -9, 9)
        o = np.arange(n + 3.) + 50
        full = pd.DataFrame({'z': o, 'y': v} if ctx.flag('other variable first') else {'y': v, 'z': o}, index=hours(n + 3, start='2021-03-01 20:00'))
        x = full.iloc[:n]
        m = _m(kind, s, nsa, ratio, False)
        m.fit(x.copy())

        def fc(t, j):
            return v[t] if kind == 'persistent' else v[t + 1 + j - s]
        first = (s if kind != 'persistent' else 0) if ratio is None else n - int(n * ratio)
        rows = list(range(first, n - nsa))
        e = m.scengen.errs if hasattr(m.scengen, 'errs') else None
        errs, ex = m.scengen.fits[-1][:2] if e is None else (e, None)
        ctx.true(list(errs.index) == [x.index[i] for i in rows], 'residuals of the rows which have a past and all the steps ahead')
        ctx.eq(errs.values, arr([[v[i + 1 + j] - fc(i, j) for j in range(nsa)] for i in rows]), 'residual = observation of the step minus forecast')
        ctx.eq(arr(m.err_distr).reshape(nsa, 2), arr([[quantile([v[i + 1 + j] - fc(i, j) for i in rows], q) for q in (.1, .9)] for j in range(nsa)]), 'error quantiles') if len(rows) <= 3 else None
        p = m.predict(full.iloc[n:].copy())
        ctx.true(p.index.equals(full.index[n:]) and p.shape == (3, nsa), 'one row of steps per row')
        ctx.eq(p.values, arr([[fc(t, j) for j in range(nsa)] for t in range(n, n + 3)]), 'forecasts continue the training set')
        ctx.eq(m.predict(full.iloc[n:].copy()).values, p.values, 'predicting twice gives the same')
        q = m.predict_quantiles(full.iloc[n:].copy(), dataframe=False)
        d = arr(m.err_distr).reshape(1, nsa, 2)
        ctx.eq(q, np.expand_dims(p.values, -1) + d, 'quantiles = forecast + error quantiles')
    return h


def discrete(ctx):
    """probabilities are the frequencies of each value at the time of day, forecasts their means"""
    from pyforecaster.forecasting_models.benchmarks import DiscreteDistr
    step = ctx.choose('sampling', ['12h', '8h'])
    per = 2 if step == '12h' else 3
    # training rows may miss a sample, or be stacked series that share their times
    lay = ctx.choose('training rows', ['regular', 'missing', 'stacked'])
    days = 3 if lay == 'missing' else 2
    n = per * days
    names = ctx.choose('targets', [['t10', 't9'], ['a', 'b']][:2 if lay == 'regular' else 1])
    lo, d = ctx.real('low', -9, 9), ctx.real('gap', .5, 5)
    val = [lo, lo + d]
    # which value each cell takes
    free = ctx.pick('free time of day', 0, per - 1)
    cell = {}
    for i in range(n):
        for j in range(2):
            cell[i, j] = ctx.pick('value %d %d' % (i, j), 0, 1) if i % per == free and (j == 0 or lay == 'regular') else (i * 2 + j + i // per) % 2
    ctx.assume(len(set(cell.values())) == 2)
    y = pd.DataFrame(arr([[val[cell[i, j]] for j in range(2)] for i in range(n)]), index=hours(n, freq=step), columns=names)
    # times between the regular ones belong to the interval that has started
    late = [pd.Timedelta(v) for v in ctx.choose('within the interval', [('0h', '0h')] if lay != 'missing' else [('0h', '0h'), ('0h', '5h'), ('3h', '6h')])]
    y.index = y.index + late[0]
    seen = list(range(n))
    if lay == 'missing':
        seen.remove(n - 1 - per if free != per - 1 else n - 2 * per)
    elif lay == 'stacked':
        seen = seen + seen[1:]
    y = y.iloc[seen]
    x = pd.DataFrame({'f': np.arange(len(seen)) * 1.}, index=y.index)
    ctx.assume(len({cell[i, j] for i in seen for j in range(2)}) == 2)
    m = DiscreteDistr(q_vect=[.1, .9])
    with quiet():
        m.fit(x.copy(), y.copy())
    # prediction: any number of rows, any order of the times of day, irregular
    k = ctx.choose('rows', [1, 3])
    at = [pd.Timestamp('2021-04-01') + late[1] + pd.Timedelta(step) * a for a in (free, free + per * 3, (free + 1) % per + per * 5)][:k]
    xt = pd.DataFrame({'f': np.zeros(k)}, index=pd.DatetimeIndex(at))
    p, f = m.predict_probabilities(xt), m.predict(xt)
    ctx.true(p.index.equals(xt.index) and f.index.equals(xt.index), 'index of the features')
    ctx.true(list(f.columns) == names and [c[0] for c in p.columns] == [t for t in names for _ in range(2)], 'columns follow the targets')
    exp, pexp = [], []
    for t in at:
        tod = int((t - t.normalize()) // pd.Timedelta(step))
        rows = [i for i in seen if i % per == tod]
        fr = [[sum(cell[i, j] == u for i in rows) / len(rows) for u in (0, 1)] for j in range(2)]
        pexp.append([q for r in fr for q in r])
        exp.append([r[0] * val[0] + r[1] * val[1] for r in fr])
    ctx.eq(arr(p.values), arr(pexp), 'frequency of each value at the time of day', tol=1e-6)
    ctx.eq(arr(f.values), arr(exp), 'mean of the distribution of the time of day', tol=1e-6)


class Res:
    """statsmodels results: seen = observations filtered so far"""

    def __init__(self, ctx, seen, fail):
        self.ctx, self.seen, self.fail = ctx, seen, fail

    def forecast(self, n, *a, **k):
        return arr([self.ctx.real('f[%s]+%d' % (','.join(map(str, self.seen)), j), -20, 20) for j in range(n)])

    def append(self, y, exog=None, **k):
        if self.fail and not (self.seen and int(y.iloc[0, 0] if y.ndim == 2 else y.iloc[0]) == self.seen[-1] + 1):
            raise ValueError('does not extend the data')
        return Res(self.ctx, self.seen + [int(v) for v in np.ravel(y.values)], self.fail)

    extend = append

    def apply(self, y, exog=None, **k):
        return Res(self.ctx, [int(v) for v in np.ravel(y.values)], self.fail)


def statsmodels(ctx):
    """the forecast of a row follows its observation; residuals compare it with the following ones"""
    from pyforecaster.forecasting_models import statsmodels_wrapper as S
    n, k, nsa = 5, ctx.pick('rows', 1, 3), ctx.pick('steps', 1, 2)
    m = S.ExponentialSmoothing('y', [.1, .9], n_sa=nsa)
    ids = np.arange(n + k + 3.)
    full = pd.DataFrame({'z': ids * 0, 'y': ids}, index=hours(n + k + 3))
    made = []

    def cls(endog=None, **kw):
        made.append(endog)
        return type('M', (), {'fit': lambda self, *a, **k: Res(ctx, [int(v) for v in np.ravel(endog.values)], True)})()
    m.model_class = cls
    with quiet(), stub(S, tqdm=no_tqdm):
        m.fit(full.iloc[:n].copy())
        p = m.predict(full.iloc[n:n + k + 2].copy())
    f = lambda seen, j: ctx.real('f[%s]+%d' % (','.join(map(str, seen)), j), -20, 20)
    ctx.true(len(made) == 1 and list(np.ravel(made[0].values)) == list(ids[:n]), 'fitted on the target')
    ctx.eq(p.values, arr([[f(range(t + 1), j) for j in range(nsa)] for t in range(n, n + k + 2)]), 'a forecast uses the observations up to its row, all of them')
    ctx.true(p.index.equals(full.index[n:n + k + 2]), 'index of the features')
    res = [[ids[i + 1 + j] - f(range(i + 1), j) for j in range(nsa)] for i in range(n - nsa)]
    ctx.eq(m.err_distr, arr([[quantile([r[j] for r in res], q) for q in (.1, .9)] for j in range(nsa)]), 'error quantiles of in-sample forecasts which do not use later observations')
    q = m.predict_quantiles(full.iloc[n:n + 3].copy(), dataframe=False)
    ctx.eq(q, np.expand_dims(p.values[:3], -1) + np.expand_dims(m.err_distr, 0), 'quantiles = forecast + error quantiles')


def identity(ctx):
    from pyforecaster.forecasting_models.identity import IdentityForecaster
    x = frame(ctx.reals('x', (3, 2), -9, 9))
    m = IdentityForecaster()
    m.fit(x, x)
    ctx.eq(m.predict(x.copy()).values, x.values, 'features are returned as they are')


OBLIGATIONS = [
    Obligation('hankel', hank, [P + 'holtwinters.hankel'], '1-7 values, 1-4 steps'),
    Obligation('persistent', persistence('persistent'), [P + 'benchmarks.Persistent.' + f for f in ('fit', 'predict', '_predict_quantiles')], '8+3 rows, 1-2 steps'),
    Obligation('seasonal', persistence('seasonal'), [P + 'benchmarks.SeasonalPersistent.' + f for f in ('fit', 'predict', '_predict_quantiles')], '8+3 rows, 1-2 steps, season 1-3'),
    Obligation('discrete', discrete, [P + 'benchmarks.DiscreteDistr.' + f for f in ('fit', 'predict', 'predict_probabilities')], '2 targets, 2 values, 2-3 days, 2-3 times of day; a missing sample; stacked series'),
    Obligation('statsmodels', statsmodels, [P + 'statsmodels_wrapper.get_forecasts', P + 'statsmodels_wrapper.StatsModelsWrapper.fit', P + 'statsmodels_wrapper.ExponentialSmoothing.fit', P + 'statsmodels_wrapper.ExponentialSmoothing.predict'], '5 training rows, 3-5 rows, 1-2 steps'),
    Obligation('identity', identity, [P + 'identity.IdentityForecaster.predict'], '3 rows'),
]
