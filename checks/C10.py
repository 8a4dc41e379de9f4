import inspect
from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.random_fourier_features',
           'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.randomforests', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['point regressors: a learner whose forecast is a different affine function of all its training targets for every training size, row and target '
         '(so that any use of an earlier training set changes the forecast)', 'scenario generator of the forecaster', 'numpy.random.choice: a fixed draw']
OUTSIDE = 'more than 4 rows or 3 targets'
P = 'pyforecaster.'
Q = [0.2, 0.5]


def learner(log=None, squeeze=False):
    class Reg:
        def __init__(self, *a, **k):
            if log is not None:
                log.append(k)

        def fit(self, x, y, **k):
            y = np.asarray(y)
            self.flat = y.ndim == 1
            y = y.reshape(len(y), -1)
            self.c = [sum(y[i, j] * (i + 1) for i in range(len(y))) + len(y) for j in range(y.shape[1])]
            return self

        def predict(self, x, quantiles=None, *a, **k):
            ids = Train.rids(x)
            p = arr([[c + r * 0.5 for c in self.c] for r in ids])
            if quantiles is not None and not isinstance(quantiles, str):
                p = arr([[[v + q for q in quantiles] for v in row] for row in p])
                return p[:, 0, :] if self.flat or p.shape[1] == 1 else p
            return p[:, 0] if self.flat else p
    return Reg


class _Scaler:
    """a scaler that depends on all the rows it was fitted on (an integer shift per column, so that the rows stay recognisable)"""

    def fit(self, x, *a, **k):
        self.shift = [float(np.floor(sum(float(v) for v in x.values[:, j]))) for j in range(x.shape[1])]
        return self

    def transform(self, x):
        return x.values.astype(float) - np.array(self.shift)

    def fit_transform(self, x, *a, **k):
        return self.fit(x).transform(x)


def build(ctx, kind, params=None, log=None):
    """a fresh forecaster of the given kind and the modules to stub"""
    import pyforecaster.forecaster as F
    import pyforecaster.forecasting_models.gradientboosters as G
    import pyforecaster.forecasting_models.random_fourier_features as R
    import pyforecaster.forecasting_models.randomforests as RF
    import pyforecaster.forecasting_models.benchmarks as B
    import sklearn.preprocessing as SP
    k = dict(q_vect=Q, **(params or {}))
    L = learner(log)
    if kind == 'linear':
        mods = [(F, dict(LinearRegression=L, RidgeCV=L))]
        m = F.LinearForecaster(kind='ridge', **k)
    elif kind == 'lgb':
        class DS:
            def __init__(self, x, y, *a, **kk):
                self.x, self.y = x, y
        def train(pars, ds, num_boost_round=None, **kk):
            return L(**dict(pars, num_boost_round=num_boost_round)).fit(ds.x, ds.y)
        mods = [(F, dict(Dataset=DS, train=train, tqdm=no_tqdm))]
        m = F.LGBForecaster(**k)
    elif kind in ('hybrid', 'hybrid_multi'):
        mods = [(G, dict(LGBMRegressor=L, tqdm=no_tqdm))]
        m = G.LGBMHybrid(n_single=2 if kind == 'hybrid' else 1, **k)
    elif kind == 'energy':
        mods = [(G, dict(LGBMRegressor=L, tqdm=no_tqdm))]
        m = G.LGBEnergyAware(n_single=2, **k)
    elif kind == 'rff':
        mods = [(SP, dict(StandardScaler=_Scaler))]
        m = R.RFFRegression(base_model=L, dim_kernel=2, **k)
        m.conv = lambda x, index=None: x
    elif kind == 'additive_rff':
        mods = [(SP, dict(StandardScaler=_Scaler))]
        m = R.AdditiveRFFRegression(2, base_model=L, dim_kernel=2, **k)
        for s in m.models:
            s.conv = lambda x, index=None: x
    elif kind in ('qrf', 'qrf_multi'):
        mods = [(RF, dict(RandomForestQuantileRegressor=L, tqdm=no_tqdm))]
        m = RF.QRF(parallel=False, n_single=2 if kind == 'qrf' else 1, **k)
    elif kind == 'persistent':
        mods = []
        m = B.Persistent('p', n_sa=2, **k)
    elif kind == 'seasonal':
        mods = []
        m = B.SeasonalPersistent('p', n_sa=1, seasonality=2, **k)
    elif kind == 'discrete':
        mods = []
        m = B.DiscreteDistr(**k)
    if hasattr(m, 'logger'):
        m.logger.setLevel(100)
    m.scengen = FakeScenGen()
    return m, mods + [(np.random, dict(choice=lambda a, size=None, *r, **kk: np.resize(np.asarray(a), size)))]


def with_stubs(mods, f):
    import contextlib
    with contextlib.ExitStack() as st, quiet():
        for mod, kw in mods:
            st.enter_context(stub(mod, **kw))
        return f()


def refit(kind):
    def h(ctx):
        cond = ctx.flag('conditional')
        n1, n2 = (5, 6) if kind == 'seasonal' else (3, 4)
        t1, t2 = 2, ctx.pick('second_targets', 2, 3) if kind in ('linear', 'lgb', 'rff', 'additive_rff', 'qrf_multi', 'hybrid_multi') else 2
        i1, i2 = hours(n1), hours(n2, start='2021-05-01 07:00')
        x1, x2 = feats(i1), feats(i2, first=20)
        y1 = frame(ctx.reals('y1', (n1, t1), -20, 20), index=i1, columns=['a%d' % i for i in range(t1)])
        y2 = frame(ctx.reals('y2', (n2, t2), -20, 20), index=i2, columns=['b%d' % i for i in range(t2)])
        x1['p'], x2['p'] = y1.values[:, 0], y2.values[:, 0]
        if kind not in ('persistent', 'seasonal'):
            x1, x2 = x1.drop(columns='p'), x2.drop(columns='p')
        again, mods = build(ctx, kind, {'conditional_to_hour': cond})
        fresh, mods2 = build(ctx, kind, {'conditional_to_hour': cond})
        with_stubs(mods, lambda: again.fit(x1.copy(), y1.copy()))
        with_stubs(mods, lambda: again.predict(x1.copy()))
        with_stubs(mods, lambda: again.fit(x2.copy(), y2.copy()))
        with_stubs(mods2, lambda: fresh.fit(x2.copy(), y2.copy()))
        p = with_stubs(mods, lambda: again.predict(x2.copy()))
        pf = with_stubs(mods2, lambda: fresh.predict(x2.copy()))
        ctx.true(list(p.columns) == list(pf.columns) and p.shape == pf.shape, 'a refitted model has the labels of a fresh one')
        ctx.eq(p.values, pf.values, 'a refitted model forecasts like a fresh one')
        q = with_stubs(mods, lambda: again.predict_quantiles(x2.copy(), dataframe=False))
        qf = with_stubs(mods2, lambda: fresh.predict_quantiles(x2.copy(), dataframe=False))
        ctx.eq(q, qf, 'a refitted model has the quantiles of a fresh one')
        ctx.eq(again.scengen.fits[-1][0].values, fresh.scengen.fits[-1][0].values, 'and its residuals')
        # predicting has no effect on later predictions
        p2 = with_stubs(mods, lambda: again.predict(x2.copy()))
        ctx.eq(p2.values, pf.values, 'predicting again gives the same forecast')
    return h


def brutal(ctx):
    """boosted binned means: the second fit starts from scratch"""
    import pyforecaster.forecasting_models.random_fourier_features as R
    n, nt = 4, 2
    x = pd.DataFrame({'a': [0.1, 0.2, 0.8, 0.9]}, index=hours(n))
    y1 = frame(ctx.reals('y1', (n, nt), -20, 20), columns=['a', 'b'])
    y2 = frame(ctx.reals('y2', (n, nt), -20, 20), columns=['a', 'b'])
    ident = lambda a, size=None, *r, **k: np.arange(size)
    mk = lambda: R.BrutalRegressor(n_iter=ctx.pick('n_iter', 1, 2), n_bins=2, learning_rate=0.5, bootstrap_fraction=1)
    with stub(np.random, choice=ident), stub(R, tqdm=no_tqdm), quiet():
        again, fresh = mk(), mk()
        again.fit(x, y1)
        again.fit(x, y2)
        fresh.fit(x, y2)
        ctx.eq(again.predict(x).values, fresh.predict(x).values, 'a refitted model forecasts like a fresh one')


# hyper-parameters that the learner must receive: (class, learner signature)
def _learner_params(kind):
    if kind.startswith('qrf'):
        from quantile_forest import RandomForestQuantileRegressor as L
        return set(inspect.signature(L.__init__).parameters) - {'self', 'n_jobs'}     # n_jobs is scaled by the number of workers
    return {'device_type', 'objective', 'max_depth', 'n_estimators', 'num_leaves', 'learning_rate', 'verbose', 'metric', 'min_child_samples',
            'n_jobs', 'colsample_bytree', 'colsample_bynode'}


def hyper(kind):
    def h(ctx):
        import pyforecaster.forecaster as F
        import pyforecaster.forecasting_models.gradientboosters as G
        import pyforecaster.forecasting_models.randomforests as RF
        cls = {'lgb': F.LGBForecaster, 'qrf': RF.QRF, 'qrf_multi': RF.QRF}.get(kind, G.LGBMHybrid)
        names = sorted(set(inspect.signature(cls.__init__).parameters) & _learner_params(kind))
        ctx.true(len(names) >= 8, 'the learner is configurable')
        given = {p: ctx.int('given_' + p, 1, 1000) for p in names}
        later = {p: ctx.int('later_' + p, 1, 1000) for p in names}
        log = []
        m, mods = build(ctx, kind, dict(given), log)
        g = m.get_params()
        ctx.true(set(names) <= set(g), 'get_params returns every hyper-parameter')
        ctx.eq([g[p] for p in names], [given[p] for p in names], 'get_params returns the constructor values')
        x = feats(hours(3))
        y = frame(np.arange(6.).reshape(3, 2), index=x.index)
        with_stubs(mods, lambda: m.fit(x.copy(), y.copy()))
        ctx.true(len(log) > 0, 'learner built')
        for k in log:
            ctx.true(set(names) <= set(k), 'every hyper-parameter of the constructor reaches the learner')
            ctx.eq([k[p] for p in names], [given[p] for p in names], 'with its value')
            if kind == 'lgb':
                ctx.eq(k['num_boost_round'], given['n_estimators'], 'number of boosting rounds')
        del log[:]
        m.set_params(**later)
        g = m.get_params()
        ctx.true(set(names) <= set(g), 'get_params returns every hyper-parameter')
        ctx.eq([g[p] for p in names], [later[p] for p in names], 'get_params returns the values set')
        with_stubs(mods, lambda: m.fit(x.copy(), y.copy()))
        ctx.true(len(log) > 0, 'learner built')
        for k in log:
            ctx.true(set(names) <= set(k), 'hyper-parameters reach the learner after set_params')
            ctx.eq([k[p] for p in names], [later[p] for p in names], 'set_params takes effect at the next fit')
            if kind == 'lgb':
                ctx.eq(k['num_boost_round'], later['n_estimators'], 'number of boosting rounds')
        # one parameter alone leaves the others as they are
        one = ctx.choose('one', names)
        m.set_params(**{one: given[one]})
        g = m.get_params()
        ctx.true(set(names) <= set(g), 'get_params returns every hyper-parameter')
        ctx.eq([g[p] for p in names], [(given if p == one else later)[p] for p in names], 'setting one parameter leaves the others')
        m2 = cls(**{p: v for p, v in g.items() if p in inspect.signature(cls.__init__).parameters})
        g2 = m2.get_params()
        ctx.true(set(names) <= set(g2), 'get_params returns every hyper-parameter')
        ctx.eq([g2[p] for p in names], [g[p] for p in names], 'a model rebuilt from get_params has the same hyper-parameters')
    return h


def kernel(kind):
    def h(ctx):
        """width, scale, linear model and number of models of random-feature regressions, given or set later, are those of the next fit"""
        import pyforecaster.forecasting_models.random_fourier_features as R
        import sklearn.preprocessing as SP
        from sklearn.base import clone
        cls = R.RFFRegression if kind == 'rff' else R.AdditiveRFFRegression
        used = []

        def base(tag):
            class Reg:
                def fit(self, x, y, **k):
                    used.append((tag, np.asarray(x).shape))
                    self.nt = np.shape(y)[1]
                    return self

                def predict(self, x, **k):
                    return np.zeros((len(x), self.nt))
            return Reg
        A, B = base('A'), base('B')
        d1, d2 = ctx.pick('width', 1, 3), ctx.pick('later width', 1, 3)
        s1, s2 = ctx.real('scale', .1, 9), ctx.real('later scale', .1, 9)
        extra = dict(n_models=2) if kind != 'rff' else {}
        draws = []

        def randn(*shape):
            draws.append(ctx.reals('draw%d' % len(draws), shape, -3, 3))
            return draws[-1]

        def fit(m, cols=('u', 'v')):
            m.scengen = FakeScenGen()
            del used[:]
            x = pd.DataFrame(np.arange(3. * len(cols)).reshape(3, -1) % 4, index=hours(3), columns=list(cols))
            y = pd.DataFrame(np.arange(6.).reshape(3, 2), index=x.index)
            m.fit(x, y)
            return list(used), [m.W] if kind == 'rff' else [k.W for k in m.models]

        def expect(m, nf, d, s, tag, n_models, label, fresh=True):
            got, Ws = fit(m, ['u', 'v', 'w'][:nf])
            ctx.true(got == [(tag, (3, d))] * n_models, label + ': linear model and number of features')
            ctx.true(all(np.shape(W) == (nf, d) for W in Ws) and len(Ws) == n_models, label + ': size of the projection')
            for W in Ws:
                ctx.true(disj([conj([W[i, j] == s * D[i, j] for i in range(nf) for j in range(d)]) for D in draws if np.shape(D) == (nf, d)] or [False]), label + ': scale of the projection')
        n1 = extra.get('n_models', 1)
        with stub(np.random, randn=randn), stub(SP, StandardScaler=_Scaler), quiet():
            m = cls(dim_kernel=d1, std_kernel=s1, base_model=A, q_vect=Q, **extra)
            how = ctx.choose('copy', ['same', 'rebuilt', 'clone'])
            if how == 'rebuilt':
                g = m.get_params()
                m = cls(**{k: v for k, v in g.items() if k in inspect.signature(cls.__init__).parameters})
            elif how == 'clone':
                m = cls(**dict(m.get_params(), dim_kernel=getattr(clone(m), 'dim_kernel', -1)))
            g = m.get_params()
            ctx.true(g.get('dim_kernel') == d1 and g.get('base_model') is A and 'std_kernel' in g and all(g.get(k) == v for k, v in extra.items()), 'get_params returns the constructor values')
            ctx.eq(g['std_kernel'], s1, 'get_params returns the constructor values')
            if ctx.flag('fitted before'):
                expect(m, 2, d1, s1, 'A', n1, 'first fit')
            later = dict(dim_kernel=d2, std_kernel=s2, base_model=B)
            if kind != 'rff':
                later['n_models'] = ctx.pick('later models', 1, 3)
            m.set_params(**later)
            expect(m, 2, d2, s2, 'B', later.get('n_models', 1), 'after set_params')
            expect(m, 3, d2, s2, 'B', later.get('n_models', 1), 'other features')
            W0 = ctx.reals('W', (2, 2), -3, 3)
            b0 = ctx.reals('b', (2,), 0, 6)
            m = cls(W=W0, b=b0, dim_kernel=2, base_model=A, q_vect=Q, **extra)
            for i in range(2):
                for W in fit(m)[1]:
                    ctx.eq(W, W0, 'the projection of the user is kept')
    return h


CL = {'linear': 'forecaster.LinearForecaster', 'lgb': 'forecaster.LGBForecaster', 'hybrid': 'forecasting_models.gradientboosters.LGBMHybrid',
      'hybrid_multi': 'forecasting_models.gradientboosters.LGBMHybrid', 'energy': 'forecasting_models.gradientboosters.LGBEnergyAware',
      'rff': 'forecasting_models.random_fourier_features.RFFRegression', 'additive_rff': 'forecasting_models.random_fourier_features.AdditiveRFFRegression',
      'qrf': 'forecasting_models.randomforests.QRF', 'qrf_multi': 'forecasting_models.randomforests.QRF',
      'persistent': 'forecasting_models.benchmarks.Persistent', 'seasonal': 'forecasting_models.benchmarks.SeasonalPersistent'}
SG = P + 'forecaster.ScenarioGenerator.'
OBLIGATIONS = []
for k in CL:
    OBLIGATIONS.append(Obligation('refit_' + k, refit(k), [P + CL[k] + '.' + f for f in ('fit', 'predict')] + [SG + f for f in ('fit', '_estimate_err_distr')],
                                  'first fit 3 rows x 2 targets, second fit 4 rows x 2-3 targets, all target values, hourly conditioning on/off'))
OBLIGATIONS.append(Obligation('refit_brutal', brutal, [P + 'forecasting_models.random_fourier_features.BrutalRegressor.' + f for f in ('fit', 'predict', 'one_level_fit')],
                              '4 rows, 1 feature, 2 targets, 1-2 iterations'))
for k in ('rff', 'additive_rff'):
    OBLIGATIONS.append(Obligation('kernel_' + k, kernel(k), [P + CL[k] + f for f in ('.__init__', '.fit')] + [SG + 'set_params', SG + 'get_params'], 'width 1-3 and any scale, given and set later, 2-3 features, 1-3 models'))
for k in ('lgb', 'hybrid_multi', 'qrf', 'qrf_multi'):
    OBLIGATIONS.append(Obligation('hyper_' + k, hyper(k), [P + CL[k] + f for f in ('.__init__', '.fit')] + [SG + 'set_params', SG + 'get_params'],
                                  'every numeric hyper-parameter of the learner, any pair of values 1..1000'))


# ---- settings of the residual model and of the scenario generator
ARGS = {'LinearForecaster': {}, 'LGBForecaster': {}, 'Persistent': dict(target_col='a'), 'SeasonalPersistent': dict(target_col='a'), 'DiscreteDistr': {}, 'Fourier_es': {}, 'FK': {},
        'FK_multi': {}, 'LGBMHybrid': {}, 'LGBEnergyAware': {}, 'HoltWinters': dict(periods=[2], target_name='a'), 'HoltWintersMulti': dict(periods=[2], target_name='a'), 'RFFRegression': {},
        'AdditiveRFFRegression': dict(n_models=2), 'QRF': {}, 'ExponentialSmoothing': dict(target_name='a'), 'NN': {}, 'FFNN': dict(n_out=2), 'LSTMNN': dict(n_out=2), 'PICNN': {}, 'PIQCNN': {},
        'PIQCNNSigmoid': {}, 'RecStablePICNN': {}, 'StructuredPICNN': dict(objective_fun=lambda a, b: a.sum()), 'LatentStructuredPICNN': {}, 'CausalInvertibleNN': dict(n_in=4, n_out=2)}
HOME = {'forecaster': ('LinearForecaster', 'LGBForecaster'), 'forecasting_models.benchmarks': ('Persistent', 'SeasonalPersistent', 'DiscreteDistr'),
        'forecasting_models.fast_adaptive_models': ('Fourier_es', 'FK', 'FK_multi'), 'forecasting_models.gradientboosters': ('LGBMHybrid', 'LGBEnergyAware'),
        'forecasting_models.holtwinters': ('HoltWinters', 'HoltWintersMulti'), 'forecasting_models.random_fourier_features': ('RFFRegression', 'AdditiveRFFRegression'),
        'forecasting_models.randomforests': ('QRF',), 'forecasting_models.statsmodels_wrapper': ('ExponentialSmoothing',), 'forecasting_models.neural_models.base_nn': ('NN', 'FFNN', 'LSTMNN'),
        'forecasting_models.neural_models.ICNN': ('PICNN', 'PIQCNN', 'PIQCNNSigmoid', 'RecStablePICNN', 'StructuredPICNN', 'LatentStructuredPICNN'),
        'forecasting_models.neural_models.INN': ('CausalInvertibleNN',)}
GIVEN = {'q_vect': [[.2, .5], [.1, .6, .9]], 'nodes_at_step': [[1, 2], [2, 3]], 'val_ratio': [.4, .6], 'n_scen_fit': [7, 9], 'additional_node': [True, False], 'conditional_to_hour': [False, True],
         'max_scengen_rows': [None, 3], 'scengen_random_state': [1, 4], 'tree_type': ['NeuralGas', 'ScenredTree'], 'copula_type': ['ConditionalGaussianCopula', 'HourlyGaussianCopula'],
         'online_tree_reduction': [False, True], 'parallel_preds': [True, False], 'formatter': [False, True]}
CAPPED = ('Fourier_es', 'FK', 'FK_multi', 'HoltWinters', 'HoltWintersMulti')      # these refuse a cap of the rows


def settings(kind, home):
    def h(ctx):
        import importlib
        import pyforecaster.forecaster as F
        cls = getattr(importlib.import_module(P + home), kind)
        real = F.ScenGen
        sig = inspect.signature(real.__init__)
        n = 6
        x = pd.DataFrame({'a': np.arange(n) * 1., 'b': np.cos(np.arange(n))}, index=hours(n))
        y = pd.DataFrame(ctx.reals('y', (n, 2), -9, 9), index=x.index, columns=['t0', 't1'])
        p = pd.DataFrame(ctx.reals('p', (n, 2), -9, 9), index=x.index, columns=['t0', 't1'])
        w = ctx.reals('w', (n,), -9, 9)

        class Rec:
            online_tree_reduction = True

            def __init__(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                self.given = dict(b.arguments)
                self.given.update(self.given.pop('kwargs', {}))
                del self.given['self']

            def fit(self, errs, x, n_scen=100, **k):
                self.fitted = errs, x, n_scen

        class Fmt:
            denormalizing_fun = 'f'

            def denormalize(self, x_, y_):
                rows = [list(x.index).index(t) for t in x_.index]
                return pd.DataFrame(arr([[v + w[r] for v in vs] for r, vs in zip(rows, y_.values)]), index=y_.index, columns=y_.columns)
        which = ctx.pick('settings', 0, 1)
        kw = {k: v[which] for k, v in GIVEN.items() if not (kind in CAPPED and k in ('max_scengen_rows', 'scengen_random_state'))}
        for k in ctx.choose('changed', [(), ('additional_node',), ('conditional_to_hour',), ('formatter', 'max_scengen_rows')]):
            if k in kw:
                kw[k] = GIVEN[k][1 - which]
        kw['formatter'] = Fmt() if kw['formatter'] else None

        class Ref(F.ScenarioGenerator):
            predict = _predict_quantiles = None
        out = []
        with stub(F, ScenGen=Rec), quiet():
            for c, base in ((cls, ARGS[kind]), (Ref, {})):
                m = c(**dict(base), **kw)
                m.predict = lambda x_, *a, **k: p.loc[x_.index]
                split = m.train_val_split(x, y)
                F.ScenarioGenerator.fit(m, x, y.copy())
                out.append((m, split))
        (m, s), (r, t) = out
        show = lambda d: {k: str(list(v)) if isinstance(v, (list, np.ndarray)) else str(v) for k, v in d.items()}
        given = {k: m.scengen.given.get(k) for k in r.scengen.given}       # further options may be handed on without any effect
        ctx.true(show(given) == show(r.scengen.given), 'settings of the scenario generator')
        ctx.true([list(a.index) for a in s] == [list(a.index) for a in t], 'share of the rows kept for the residuals')
        a, b = m.scengen.fitted, r.scengen.fitted
        ctx.true(a[2] == b[2] and list(a[0].index) == list(b[0].index) and list(a[1].index) == list(b[1].index), 'rows of the residuals')
        ctx.eq(a[0].values, b[0].values, 'residuals')
        e, f = m.err_distr, r.err_distr
        ctx.true(isinstance(e, dict) == isinstance(f, dict) and (not isinstance(e, dict) or sorted(e) == sorted(f)), 'hours of the residual quantiles')
        for k in (sorted(f) if isinstance(f, dict) else [None]):
            u, v = (e, f) if k is None else (e[k], f[k])
            ctx.true(np.shape(u) == np.shape(v), 'levels of the residual quantiles')
            ctx.eq(np.asarray(u), np.asarray(v), 'residual quantiles', tol=1e-6)
    return h


for home, ks in HOME.items():
    for k in ks:
        OBLIGATIONS.append(Obligation('settings_' + k, settings(k, home), [P + home + '.' + k + '.__init__', SG + '__init__', SG + 'fit', SG + '_estimate_err_distr'],
                                      '6 rows, 2 targets, two sets of all the settings with four variations'))
