from checks.common import *
from checks.C25 import make as make_nn, Affine

PRELOAD = ['pyforecaster.formatter', 'pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.random_fourier_features',
           'pyforecaster.forecasting_models.randomforests', 'pyforecaster.forecasting_models.neural_models.base_nn', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['point regressors, quantile forests, network outputs: arbitrary functions of row, target (and level)', 'scenario generator of the forecaster (records the residuals it is fitted on)',
         'random projections, standard scaling of the random-feature models: identity']
OUTSIDE = 'denormalising expressions other than the affine ones listed (the standard deviations of networks need an affine one); networks with structured objectives; more than 4 rows, 2 targets, 3 levels'
P = 'pyforecaster.'
Q = [0.1, 0.5, 0.9]
Y = ['a_lag_-001', 'a_lag_-002']
EXPR = [("(df[t] - df['m']) / (df['s'] + 100)", "df[t] * (df['s'] + 100) + df['m']", lambda v, m, s: v * (s + 100) + m, False),
        ("df[t] * 2 - df['m'] + df['s']", "(df[t] + df['m'] - df['s']) / 2", lambda v, m, s: (v + m - s) / 2, True)]


class Rows(Train):
    """rows are told apart by their first column only (scaled frames have no names)"""

    @staticmethod
    def others(x):
        return [0] * len(x)

    def sk(self, tag=''):
        tr, base = self, Train.sk(self, tag)

        class Reg(base):
            def predict(self, x, *a, **k):
                j = Y.index(self.name) if self.flat and self.name in Y else None
                if j is not None:
                    return arr([tr.val('p', r, j) for r in tr.rids(x)])
                if self.flat:                       # one model for several steps: the step is the last column
                    v = np.asarray(x)
                    return arr([tr.val('p', r, int(round(float(s)))) for r, s in zip(tr.rids(x), v[:, -1])])
                return arr([[tr.val('p', r, j) for j in range(self.nt)] for r in tr.rids(x)])
        return Reg

    def forest(self):
        tr = self

        class Forest:
            def __init__(self, **k):
                pass

            def fit(self, x, y, **k):
                self.cols = [Y.index(c) for c in (y.columns if hasattr(y, 'columns') else [y.name])]
                return self

            def predict(self, x, quantiles='mean', **k):
                if isinstance(quantiles, str):
                    a = arr([[tr.val('p', r, j) for j in self.cols] for r in tr.rids(x)])
                    return a[:, 0] if len(self.cols) == 1 else a
                a = arr([[[tr.val('q%s' % q, r, j) for q in quantiles] for j in self.cols] for r in tr.rids(x)])
                return a[:, 0, :] if len(self.cols) == 1 else a
        return Forest


class _Scaler:
    def fit(self, x):
        return self

    def transform(self, x):
        return x.values


def formatter(e):
    """a formatter that normalises variable a with two normalisers, after its metadata has been filled"""
    import pyforecaster.formatter as pf
    f = pf.Formatter(augment=False, n_parallel=1)
    f.logger.disabled = True
    f.add_transform(['a'], lags=[0, 1])
    f.add_target_transform(['a'], lags=[-1, -2])
    f.add_target_normalizer(['a'], 'mean', agg_freq='2h', name='m')
    f.add_target_normalizer(['a'], 'max', agg_freq='3h', name='s')
    f.add_normalizing_fun(expr=e[0], inv_expr=e[1])
    raw = pd.DataFrame({'a': np.arange(8.) % 3 + 1}, index=hours(8))
    with quiet():
        f.transform(raw, time_features=False)
    return f


def table(ctx, n, first, free, start):
    x = pd.DataFrame({'rid': np.arange(first, first + n) * 1., 'a_lag_000': np.arange(n) * 1., 'a_lag_001': np.arange(n) * .5 - 1}, index=hours(n, start=start))
    if free:
        x['m'], x['s'] = ctx.reals('m%d' % first, n, -5, 5), ctx.reals('s%d' % first, n, -5, 5)
    else:
        x['m'], x['s'] = [(3. * i) % 7 - 2 for i in range(first, first + n)], [(5. * i) % 11 - 4 for i in range(first, first + n)]
    return x


def build(ctx, kind, f, tr, **kw):
    import pyforecaster.forecaster as F
    import pyforecaster.forecasting_models.gradientboosters as G
    import pyforecaster.forecasting_models.random_fourier_features as R
    import pyforecaster.forecasting_models.randomforests as RF
    import sklearn.preprocessing as SP
    kw = dict(dict(q_vect=Q, formatter=f), **kw)
    meta = dict(metadata_features=['rid'])
    if kind == 'linear':
        mods, m = [(F, dict(LinearRegression=tr.sk()))], F.LinearForecaster(**kw)
    elif kind == 'ridge':
        mods, m = [(F, dict(RidgeCV=tr.sk()))], F.LinearForecaster(kind='ridge', **kw)
    elif kind == 'lgb':
        ds, train = tr.lgb()
        mods, m = [(F, dict(Dataset=ds, train=train, tqdm=no_tqdm))], F.LGBForecaster(**kw)
    elif kind in ('hybrid', 'hybrid_multi'):
        mods = [(G, dict(LGBMRegressor=tr.sk(), tqdm=no_tqdm))]
        m = G.LGBMHybrid(n_single=2 if kind == 'hybrid' else 1, **meta, **kw)
    elif kind == 'energy':
        mods, m = [(G, dict(LGBMRegressor=tr.sk(), tqdm=no_tqdm))], G.LGBEnergyAware(n_single=2, **meta, **kw)
    elif kind == 'rff':
        mods, m = [(SP, dict(StandardScaler=_Scaler))], R.RFFRegression(base_model=tr.sk(), dim_kernel=2, **kw)
        m.conv = lambda x, index=None: x
    elif kind == 'additive_rff':
        mods, m = [(SP, dict(StandardScaler=_Scaler))], R.AdditiveRFFRegression(1, base_model=tr.sk(), dim_kernel=2, **kw)
        m.models[0].conv = lambda x, index=None: x
    elif kind in ('forest', 'forest_multi'):
        mods, m = [(RF, dict(RandomForestQuantileRegressor=tr.forest(), tqdm=no_tqdm))], RF.QRF(n_single=2 if kind == 'forest' else 1, parallel=False, **meta, **kw)
    m.scengen = FakeScenGen()
    return m, mods


def run(mods, f):
    import contextlib
    with contextlib.ExitStack() as st, quiet():
        for mod, kw in mods:
            st.enter_context(stub(mod, **kw))
        return f()


def units(kind):
    """forecasts, residuals and quantiles are in the units of the original target, each row with its own normalisers"""
    def h(ctx):
        e = ctx.choose('expr', EXPR)
        back, free = e[2], e[3] and kind not in ('linear', 'ridge', 'forest', 'forest_multi')      # these encode columns of objects
        cond = ctx.flag('conditional to hour')
        f = formatter(e)
        tr = Rows(ctx)
        if kind == 'lgb':
            base = tr.val
            tr.val = lambda tag, r, j: base('p', r, j)
        x, y = table(ctx, 4, 0, free, '2021-03-01 02:00'), pd.DataFrame(ctx.reals('y', (4, 2), -20, 20), index=hours(4, start='2021-03-01 02:00'), columns=Y)
        ratio = ctx.choose('val_ratio', [None, .5])
        m, mods = build(ctx, kind, f, tr, conditional_to_hour=cond, val_ratio=ratio)
        x0, y0 = x.copy(), y.copy()
        run(mods, lambda: m.fit(x, y))
        ctx.true(list(m.target_cols) == Y, 'names of the targets')
        den = lambda v, t: arr([[back(v[i, j], t['m'].iloc[i], t['s'].iloc[i]) for j in range(2)] for i in range(len(t))])
        point = lambda t: den(arr([[tr.val('p', int(r), j) for j in range(2)] for r in t['rid']]), t)
        rows = [0, 1, 2, 3] if ratio is None else [2, 3]
        E = (den(y0.values, x0) - point(x0))[rows]
        ctx.true(len(m.scengen.fits) == 1, 'scenarios fitted once')
        ctx.eq(arr(m.scengen.fits[0][0].values), E, 'residuals: original target minus forecast in its units')
        xt = table(ctx, 3, 10, free, '2021-03-05 03:00').iloc[[2, 0, 1]]
        xt0 = xt.copy()
        p = run(mods, lambda: m.predict(xt))
        ctx.true(p.index.equals(xt0.index) and list(p.columns) == Y, 'labels of the forecast')
        ctx.eq(p.values, point(xt0), 'forecasts in the units of the target, with the normalisers of their own row')
        d = run(mods, lambda: m.predict_quantiles(xt))
        t = run(mods, lambda: m.predict_quantiles(xt, dataframe=False))
        if 'forest' in kind:
            exp = np.dstack([den(arr([[tr.val('q%s' % q, int(r), j) for j in range(2)] for r in xt0['rid']]), xt0) for q in Q])
        else:
            exp = np.dstack([point(xt0) + arr([[quantile(list(E[:, j]), q) for j in range(2)]] * 3) for q in Q])
        ctx.true(d.index.equals(xt0.index) and [(a, float(b)) for a, b in d.columns] == [(c, q) for c in Y for q in Q], 'labels of the quantiles')
        ctx.eq(d.values.reshape(3, 2, 3), exp, 'quantiles in the units of the target')
        ctx.eq(t, exp, 'the tensor holds the same quantiles')
        ctx.eq(arr(x.values), arr(x0.values), 'features of the caller are not modified')
        ctx.eq(y.values, y0.values, 'targets of the caller are not modified')
        ctx.eq(arr(xt.values), arr(xt0.values), 'features of the caller are not modified at prediction')
    return h


def network(ctx):
    """the same for networks, with and without normalised target and variances"""
    from scipy.special import erfinv
    from pyforecaster.forecaster import ScenarioGenerator
    e = ctx.choose('expr', EXPR)
    back, free = e[2], False
    kind = ctx.choose('class', ['FFNN', 'NN'])
    prob, norm = ctx.flag('probabilistic'), ctx.flag('scaled target')
    f = formatter(e)
    cols = ['rid', 'a_lag_000', 'a_lag_001', 'm', 's']
    m = make_nn(kind, probabilistic=prob, normalize_target=norm, unnormalized_inputs=cols, n_out=4 if prob else 2, q_vect=Q, formatter=f, conditional_to_hour=False)
    m.input_scaler, m.pars, m.target_columns = None, 'trained', pd.Index(Y)
    m.target_scaler = Affine(ctx, 'out', Y) if norm else None
    tr = Rows(ctx)

    def net(pars, x):
        o = arr([[tr.val('p', r, j) for j in range(2)] for r in tr.rids(x)])
        return np.concatenate([o, arr([[4.] * 2 for r in o])], axis=1) if prob else o
    m.predict_batch = net
    den = lambda v, t: arr([[back(v[i, j], t['m'].iloc[i], t['s'].iloc[i]) for j in range(2)] for i in range(len(t))])
    sc = (lambda v: v * m.target_scaler.scale_ + m.target_scaler.mean_) if norm else (lambda v: v)
    point = lambda t: den(sc(arr([[tr.val('p', int(r), j) for j in range(2)] for r in t['rid']])), t)
    x = table(ctx, 3, 0, free, '2021-03-01 02:00')
    y = pd.DataFrame(ctx.reals('y', (3, 2), -20, 20), index=x.index, columns=Y)
    x0, y0 = x.copy(), y.copy()
    with quiet():
        ScenarioGenerator.fit(m, x, y)
    E = den(y0.values, x0) - point(x0)
    ctx.eq(arr(m.scengen.fits[0][0].values), E, 'residuals: original target minus forecast in its units')
    xt = table(ctx, 2, 10, free, '2021-03-05 03:00').iloc[[1, 0]]
    with quiet():
        p = m.predict(xt)
        q = m.predict_quantiles(xt)
    ctx.true(p.index.equals(xt.index) and list(p.columns) == Y, 'labels of the forecast')
    ctx.eq(p.values, point(xt), 'forecasts in the units of the target, with the normalisers of their own row')
    if prob:
        z = [np.sqrt(2) * erfinv(2 * l - 1) for l in Q]
        k = m.target_scaler.scale_ if norm else np.ones(2)
        raw = sc(arr([[tr.val('p', int(r), j) for j in range(2)] for r in xt['rid']]))
        ctx.eq(arr(q), np.dstack([den(raw + 2. * k * s, xt) for s in z]), 'quantiles: those of the normalised target, denormalised', tol=1e-6)
    else:
        ctx.eq(arr(q), np.dstack([point(xt) + arr([[quantile(list(E[:, j]), l) for j in range(2)]] * 2) for l in Q]), 'quantiles in the units of the target')


def invertible(ctx):
    """the same for causal invertible networks"""
    from pyforecaster.forecasting_models.neural_models.INN import CausalInvertibleNN
    e = ctx.choose('expr', EXPR)
    norm = ctx.flag('scaled target')
    m = CausalInvertibleNN.__new__(CausalInvertibleNN)
    m.end_to_end, m.normalize_target, m.pars, m.formatter, m.target_columns = 'no', norm, 'trained', formatter(e), pd.Index(Y)
    m.target_scaler = Affine(ctx, 'out', Y) if norm else None
    m.input_scaler, m.unnormalized_inputs, m.to_be_normalized = None, None, None
    m.reorder_inputs = lambda x: x
    m.get_normalized_inputs = lambda x, t=None: (x.values, t)
    tr = Rows(ctx)
    m.predict_batch = lambda pars, x: arr([[tr.val('p', r, j) for j in range(2)] for r in tr.rids(x)])
    x = table(ctx, 2, 3, e[3], '2021-03-05 03:00').iloc[[1, 0]]
    with quiet():
        p = m.predict(x)
    raw = arr([[tr.val('p', int(r), j) for j in range(2)] for r in x['rid']])
    raw = raw * m.target_scaler.scale_ + m.target_scaler.mean_ if norm else raw
    ctx.true(p.index.equals(x.index) and list(p.columns) == Y, 'labels of the forecast')
    ctx.eq(p.values, arr([[e[2](raw[i, j], x['m'].iloc[i], x['s'].iloc[i]) for j in range(2)] for i in range(2)]),
           'forecasts in the units of the target, with the normalisers of their own row')


SG = [P + 'forecaster.ScenarioGenerator.' + f for f in ('fit', 'anti_transform', 'predict_quantiles', 'train_val_split', '_estimate_err_distr')] + \
     [P + 'formatter.Formatter.' + f for f in ('denormalize', 'normalize', 'normalize_target_inner')]
CL = {'linear': 'forecaster.LinearForecaster', 'ridge': 'forecaster.LinearForecaster', 'lgb': 'forecaster.LGBForecaster',
      'hybrid': 'forecasting_models.gradientboosters.LGBMHybrid', 'hybrid_multi': 'forecasting_models.gradientboosters.LGBMHybrid',
      'energy': 'forecasting_models.gradientboosters.LGBEnergyAware', 'rff': 'forecasting_models.random_fourier_features.RFFRegression',
      'additive_rff': 'forecasting_models.random_fourier_features.AdditiveRFFRegression', 'forest': 'forecasting_models.randomforests.QRF', 'forest_multi': 'forecasting_models.randomforests.QRF'}
OBLIGATIONS = [Obligation('units_' + k, units(k), [P + c + '.' + f for f in ('fit', 'predict', 'predict_quantiles')] + SG,
                          '4 training and 3 forecast rows, 2 targets, 3 levels, two affine expressions (one with free normalisers), validation share none or half') for k, c in CL.items()] + [
    Obligation('network', network, [P + 'forecasting_models.neural_models.base_nn.NN.' + f for f in ('predict', 'predict_quantiles')] + SG, '3 training and 2 forecast rows, 2 targets, 3 levels, every scaling'),
    Obligation('invertible', invertible, [P + 'forecasting_models.neural_models.INN.CausalInvertibleNN.predict'] + SG, '2 rows, 2 targets, every scaling'),
]
