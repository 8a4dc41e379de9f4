from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.random_fourier_features',
           'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['the point regressor (sklearn / lightgbm / random-feature regression) is an arbitrary function of the row',
         'the scenario generator of the forecaster (its fit is another property)', 'numpy.quantile: its documented linear definition']
OUTSIDE = 'more than 27 training rows, 2 targets, 3 levels; float rounding'
Q = [0.1, 0.5, 0.9]


def make(ctx, kind, cond, val_ratio=None, free=None, n_single=2):
    """a forecaster of the given kind whose point model is arbitrary -> (fit function)"""
    import pyforecaster.forecaster as F
    import pyforecaster.forecasting_models.gradientboosters as G
    import pyforecaster.forecasting_models.random_fourier_features as R
    tr = Train(ctx, free=free)
    mods = []
    if kind == 'linear':
        mods = [(F, dict(LinearRegression=tr.sk()))]
        m = F.LinearForecaster(q_vect=Q, conditional_to_hour=cond, val_ratio=val_ratio)
    elif kind == 'ridge':
        mods = [(F, dict(RidgeCV=tr.sk()))]
        m = F.LinearForecaster(q_vect=Q, kind='ridge', conditional_to_hour=cond, val_ratio=val_ratio)
    elif kind == 'lgb':
        ds, train = tr.lgb()
        mods = [(F, dict(Dataset=ds, train=train, tqdm=no_tqdm))]
        m = F.LGBForecaster(q_vect=Q, conditional_to_hour=cond, val_ratio=val_ratio)
    elif kind in ('hybrid', 'hybrid_multi'):
        n_single = 2 if kind == 'hybrid' else 0
        mods = [(G, dict(LGBMRegressor=tr.sk(), tqdm=no_tqdm))]
        m = G.LGBMHybrid(q_vect=Q, conditional_to_hour=cond, n_single=n_single, val_ratio=val_ratio)
    elif kind == 'rff':
        m = R.RFFRegression(q_vect=Q, conditional_to_hour=cond, base_model=tr.sk(), dim_kernel=2, val_ratio=val_ratio)
        m.conv = lambda x, index=None: x      # the random projection feeds the arbitrary regressor
    elif kind == 'additive_rff':
        m = R.AdditiveRFFRegression(1, q_vect=Q, conditional_to_hour=cond, base_model=tr.sk(), dim_kernel=2, val_ratio=val_ratio)
        m.models[0].conv = lambda x, index=None: x
    m.scengen = FakeScenGen()
    return m, mods


class _Scaler:
    def fit(self, x):
        return self

    def transform(self, x):
        return x.values


def with_stubs(mods, f):
    import contextlib
    with contextlib.ExitStack() as st, quiet():
        for mod, kw in mods:
            st.enter_context(stub(mod, **kw))
        return f()


def expected(E, idx, cond_used, h, j, q):
    """q-quantile of the residuals of target j, over the rows of hour h (or all rows)"""
    rows = [i for i in range(len(idx)) if not cond_used or idx[i].hour == h]
    return quantile([E[i, j] for i in rows], q)


def quantiles(kind):
    def h(ctx):
        import sklearn.preprocessing as SP
        rows = ctx.choose('rows', ['all hours', 'few hours'])
        cond = ctx.flag('conditional')
        nt = 2
        idx = hour_rows(ctx, rows)
        x = feats(idx)
        few = rows == 'all hours' and not cond      # one pooled distribution: 3 free rows among 24 fixed ones
        free = (lambda r: r in (1, 9, 25) or r >= 100) if few else None
        y = np.array([[(3 * i + 5 * j) % 17 - 8. for j in range(nt)] for i in range(len(idx))], dtype=object)
        for i in range(len(idx)):
            for j in range(nt):
                if not few or free(i):
                    y[i, j] = ctx.real('y[%d,%d]' % (i, j), -20, 20)
        y = frame(arr(y), index=idx)
        m, mods = make(ctx, kind, cond, free=free)
        if kind in ('rff', 'additive_rff'):
            mods = mods + [(SP, dict(StandardScaler=_Scaler))]
        with_stubs(mods, lambda: m.fit(x.copy(), y.copy()))
        point = with_stubs(mods, lambda: m.predict(x.copy()))
        E = y.values - point.values
        # prediction rows: two different hours plus an unaligned minute
        xi = pd.DatetimeIndex(['2021-04-01 03:00', '2021-04-01 05:30', '2021-04-02 00:00', '2021-04-02 03:00'])
        xt = feats(xi, first=100)
        p = with_stubs(mods, lambda: m.predict(xt.copy()))
        qd = with_stubs(mods, lambda: m.predict_quantiles(xt.copy()))
        qn = with_stubs(mods, lambda: m.predict_quantiles(xt.copy(), dataframe=False))
        ctx.true(list(p.columns) == list(y.columns) and p.index.equals(xi), 'point forecast labels')
        ctx.true(qd.index.equals(xi) and list(qd.columns) == [(c, q) for c in y.columns for q in Q], 'quantile labels: (target, level)')
        one = with_stubs(mods, lambda: m.predict(xt.iloc[[2]]))
        ctx.eq(one.values, p.values[[2]], 'a row is forecast the same way alone')
        rev = with_stubs(mods, lambda: m.predict(xt.iloc[[3, 1]]))
        ctx.eq(rev.values, p.values[[3, 1]], 'and in any order')
        used = cond and rows == 'all hours'
        exp = [[[p.values[i, j] + expected(E, idx, used, xi[i].hour, j, q) for q in Q] for j in range(nt)] for i in range(len(xi))]
        ctx.eq(qn, arr(exp), 'quantile = point forecast + residual quantile of the same hour, target and level')
        ctx.eq(qd.values.reshape(len(xi), nt, len(Q)), arr(exp), 'the frame holds the same quantiles as the tensor')
        ctx.le(qn[:, :, :-1], qn[:, :, 1:], 'quantiles do not cross')
        # the residuals handed to the scenario generator are the same ones
        ctx.true(len(m.scengen.fits) == 1, 'scenario generator fitted once')
        e, xs, _ = m.scengen.fits[0]
        ctx.eq(e.values, E, 'the scenario generator is fitted on the residuals')
        ctx.true(e.index.equals(idx) and xs.index.equals(idx), 'residuals keep their time stamps')
    return h


def validation(kind):
    """with a validation ratio the residuals come from the most recent rows, which the model was not trained on"""
    def h(ctx):
        import sklearn.preprocessing as SP
        idx = hours(5, start='2021-03-01 07:00')
        x = feats(idx)
        y = frame(ctx.reals('y', (5, 2), -20, 20), index=idx)
        ratio = ctx.choose('val_ratio', [0.4, 0.2, 0.6])
        nv = int(5 * ratio)
        m, mods = make(ctx, kind, ctx.flag('conditional'), val_ratio=ratio)
        tr_x = []
        if kind in ('rff', 'additive_rff'):
            mods = mods + [(SP, dict(StandardScaler=_Scaler))]
        with_stubs(mods, lambda: m.fit(x.copy(), y.copy()))
        point = with_stubs(mods, lambda: m.predict(x.copy()))
        E = y.values - point.values
        q = with_stubs(mods, lambda: m.predict_quantiles(x.copy(), dataframe=False))
        for j in range(2):
            for k, lev in enumerate(Q):
                r = quantile([E[i, j] for i in range(5 - nv, 5)], lev)
                ctx.eq(q[:, j, k], arr([point.values[i, j] + r for i in range(5)]), 'residual quantiles come from the validation rows')
        ctx.eq(m.scengen.fits[0][0].values, E[5 - nv:], 'scenarios are fitted on the validation residuals')
    return h


def persistent(ctx):
    from pyforecaster.forecasting_models import benchmarks as B
    n_sa = ctx.choose('n_sa', [1, 2])
    cond = ctx.flag('conditional')
    n = 26 + n_sa if cond else 6
    idx = hours(n, start='2021-03-01 04:00')
    v = ctx.reals('v', n, -20, 20)
    x = pd.DataFrame({'p': v, 'other': np.arange(n) * 1.}, index=idx)
    seasonal = ctx.flag('seasonal')
    if seasonal and not cond:
        n_seas = ctx.choose('seasonality', [2, 3])
        m = B.SeasonalPersistent('p', seasonality=n_seas, n_sa=n_sa, q_vect=Q, conditional_to_hour=cond)
    else:
        m = B.Persistent('p', n_sa=n_sa, q_vect=Q, conditional_to_hour=cond)
    m.scengen = FakeScenGen()
    m.fit(x)
    # the seasonal model has no forecast for the first season
    rows = range(n_seas if seasonal and not cond else 0, n - n_sa)
    E = {i: [v[i + 1 + s] - (v[i + 1 + s - n_seas] if seasonal and not cond else v[i]) for s in range(n_sa)] for i in rows}
    xt = x.iloc[[1, 3]] if not seasonal or cond else x
    p = m.predict(xt)
    q = m.predict_quantiles(xt, dataframe=False)
    for i in range(len(xt)):
        for s in range(n_sa):
            for k, lev in enumerate(Q):
                use = [r for r in rows if not cond or idx[r].hour == xt.index[i].hour]
                ctx.eq(q[i, s, k], p.values[i, s] + quantile([E[r][s] for r in use], lev), 'quantile = point + own residual quantile')
    ctx.le(q[:, :, :-1], q[:, :, 1:], 'quantiles do not cross')


def pmf(ctx):
    """probability mass function = share of the forecast quantiles inside each bin"""
    import pyforecaster.forecaster as F
    m = F.ScenarioGenerator(q_vect=Q)
    q = ctx.reals('q', (1, 1, 3), -10, 10)
    # away from the bin edges, whose ownership is a convention of the histogram
    edges = [-8., -2., 3., 9.]
    for v in q.ravel():
        ctx.assume(v > -8)
        ctx.assume(v < 9)
        ctx.assume(abs(v + 2) > 0.01)
        ctx.assume(abs(v - 3) > 0.01)
    m.target_cols = ['a']
    m._predict_quantiles = lambda x, **k: q
    x = feats(hours(1))
    with stub(np, histogram=_hist if ctx.symbolic else np.histogram):
        r = m.predict_pmf(x, np.array(edges))
    exp = [mean([1 if bool(v > a) and bool(v < b) else 0 for v in q.ravel()]) for a, b in zip(edges, edges[1:])]
    ctx.eq(r, arr([[exp]]), 'share of quantiles in each bin')
    ctx.eq(sum(r.ravel()), 1, 'probabilities sum to one')


def _hist(a, bins=10, **k):
    a = list(np.asarray(a).ravel())
    b = list(bins)
    c = [0] * (len(b) - 1)
    for v in a:
        for i in range(len(b) - 1):
            if bool(v >= b[i]) and (bool(v < b[i + 1]) or (i == len(b) - 2 and bool(v <= b[i + 1]))):
                c[i] += 1
                break
    return np.array(c), np.array(b)


P = 'pyforecaster.'
BASE = [P + 'forecaster.ScenarioGenerator.' + f for f in ('fit', '_estimate_err_distr', 'predict_quantiles', 'quantiles_to_df', 'quantiles_to_numpy', 'train_val_split')]
CL = {'linear': 'forecaster.LinearForecaster', 'ridge': 'forecaster.LinearForecaster', 'lgb': 'forecaster.LGBForecaster',
      'hybrid': 'forecasting_models.gradientboosters.LGBMHybrid', 'hybrid_multi': 'forecasting_models.gradientboosters.LGBMHybrid', 'rff': 'forecasting_models.random_fourier_features.RFFRegression',
      'additive_rff': 'forecasting_models.random_fourier_features.AdditiveRFFRegression'}
OBLIGATIONS = []
for k in CL:
    fs = BASE + [P + CL[k] + '.' + f for f in ('fit', 'predict', '_predict_quantiles')]
    OBLIGATIONS.append(Obligation('quantiles_' + k, quantiles(k), fs,
                                  '27 (all hours) or 4 training rows, 2 targets, 3 levels, 4 forecast rows, hourly conditioning on/off, all values in [-20,20]'))
    OBLIGATIONS.append(Obligation('validation_' + k, validation(k), fs, '5 rows, validation share 0.2/0.4/0.6, 2 targets, 3 levels'))
OBLIGATIONS += [
    Obligation('persistent', persistent, BASE + [P + 'forecasting_models.benchmarks.%s.%s' % (c, f) for c in ('Persistent', 'SeasonalPersistent') for f in ('fit', 'predict', '_predict_quantiles')],
               '6 rows (28 when conditioned on the hour), 1-2 steps, seasonality 2-3'),
    Obligation('pmf', pmf, [P + 'forecaster.ScenarioGenerator.predict_pmf'], '1 sample, 1 step, 3 quantiles, 3 bins', stubs=['numpy.histogram: documented definition']),
]
