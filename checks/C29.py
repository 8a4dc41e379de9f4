import copy
import os
import pickle
import shutil
import tempfile

from checks.common import *
from checks.C25 import fill
from checks.C24 import make as make_picnn, COLS as PCOLS, CTRL
from symx import jaxpr as J

PRELOAD = ['pyforecaster.formatter', 'pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.random_fourier_features',
           'pyforecaster.forecasting_models.randomforests', 'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.holtwinters',
           'pyforecaster.forecasting_models.neural_models.base_nn', 'pyforecaster.forecasting_models.neural_models.ICNN', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['networks: the jaxpr (IR) of the real prediction function of the original and of the loaded model', 'scalers: any affine map per column', 'scenario generators: arbitrary scenarios',
         'regressors and forests: any linear map of the features', 'files: written in a scratch folder; pickled terms are read back by identity']
OUTSIDE = 'pickles of another version of the code; pickling of networks outside save and load; objects that cannot be pickled (lambdas) given by the user'
P = 'pyforecaster.'
Q = [.1, .5, .9]
COLS = ['f0', 'f1', 'f2']
Y = ['t0', 't1']


class Scale:
    def __init__(self, ctx, tag, cols):
        self.cols = list(cols)
        # what goes through the network is concrete, what follows is not
        n = len(self.cols)
        self.scale_ = .5 + np.arange(n) / 4
        self.mean_ = ctx.reals(tag + '.mean', (n,), -3, 3) if tag == 'out' else np.arange(n) / 2 - .25

    def transform(self, df):
        assert list(df.columns) == self.cols, 'the scaler was fitted on %s, not %s' % (self.cols, list(df.columns))
        return pd.DataFrame((df.values - self.mean_) / self.scale_, index=df.index, columns=df.columns)

    def inverse_transform(self, a):
        v = a.values if hasattr(a, 'values') else np.asarray(a)
        return v * self.scale_ + self.mean_


class Scen:
    online_tree_reduction = True

    def __init__(self, s=None):
        self.s, self.set = s, []

    def fit(self, *a, **k):
        pass

    def set_params(self, **k):
        self.set.append(k)


def objective(a, c):
    return a.sum() + c.sum()


def _formatter():
    import pyforecaster.formatter as pf
    f = pf.Formatter(augment=True, n_parallel=1)
    f.logger.disabled = True
    f.add_transform(['a'], lags=[1, 2])
    f.add_target_transform(['a'], lags=[-1, -2])
    f.add_target_normalizer(['a'], 'mean', agg_freq='2h', name='m')
    f.add_normalizing_fun("df[t] * 2 - df['m']", "(df[t] + df['m']) / 2")
    f._simulate_transform(pd.DataFrame({'a': np.arange(8.)}, index=hours(8)))
    return f


def reloaded(m, **kw):
    """save the model, read it back in a new one made with defaults"""
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'model.pk')
        m.save(path)
        with quiet():
            return type(m)(load_path=path, **kw)
    finally:
        shutil.rmtree(d)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'shape'):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a is b or bool(a == b)


SETTINGS = ['n_epochs', 'batch_size', 'stats_step', 'rel_tol', 'stopping_rounds', 'learning_rate', 'n_layers', 'n_hidden_x', 'n_out', 'val_ratio', 'normalize_target', 'probabilistic',
            'probabilistic_loss_kind', 'subtract_mean_when_normalizing', 'q_vect', 'n_scen_fit', 'conditional_to_hour', 'additional_node', 'max_scengen_rows', 'scengen_random_state']


def compare(ctx, m, l, x, settings, quant=True):
    # (functions that are jitted once and for all would keep the run of another harness: they are traced again)
    for g in (m, l):
        g.predict_batch = (lambda f: lambda p, i: J.call(ctx, f, p, i, single=type(m).__name__ == 'LSTMNN'))(g.predict_batch)
        if hasattr(g, 'objective'):
            g.objective = (lambda f: lambda *a: J.call(ctx, f, *a))(g.objective)
    ctx.true([s for s in settings if not same(getattr(m, s), getattr(l, s, 'lost'))] == [], 'settings are kept')
    ctx.true(list(l.target_columns) == list(m.target_columns), 'targets are kept')
    with quiet():
        p, q = m.predict(x), l.predict(x)
    ctx.true(q.index.equals(p.index) and list(q.columns) == list(p.columns), 'labels of the forecast')
    ctx.eq(q.values, p.values, 'the loaded model gives the forecasts of the saved one')
    if quant:
        with quiet():
            p, q = m.predict_quantiles(x), l.predict_quantiles(x)
        ctx.true(np.shape(p) == np.shape(q), 'rows, targets and levels')
        ctx.eq(arr(q), arr(p), 'the loaded model gives the quantiles of the saved one')
    ctx.eq(arr(l.scengen.s), arr(m.scengen.s), 'the scenario generator is kept')


def trained(ctx, m, cols, todo, nt=2, cond=True, norm=True):
    m.target_columns = m.target_cols = pd.Index(Y[:nt])
    m.input_scaler = Scale(ctx, 'in', todo) if todo else None
    m.to_be_normalized = pd.Index(todo)
    m.target_scaler = Scale(ctx, 'out', Y[:nt]) if norm else None
    D = ctx.reals('err', (2, nt, len(m.q_vect)), -3, 3)
    m.err_distr = {22: D[0], 23: D[1]} if cond else D[0]
    m.scengen = Scen(ctx.reals('scenarios', (2, 2), -9, 9))
    m.logger.setLevel(100)
    return m


def table(ctx, cols, norm_col=False):
    x = pd.DataFrame(np.arange(2. * len(cols)).reshape(2, len(cols)) / 4 - .5, columns=cols, index=pd.DatetimeIndex(['2021-03-01 23:00', '2021-03-02 22:00']))
    return x


def network(kind):
    def h(ctx):
        from pyforecaster.forecasting_models.neural_models import base_nn
        prob = ctx.flag('probabilistic') if kind != 'LSTMNN' else False
        cond = ctx.flag('conditional to hour') if not prob else True
        norm = ctx.flag('normalised target')
        form = ctx.flag('formatter') if kind == 'FFNN' and not prob else False
        unn = ctx.choose('unnormalized', [None, ['f1']])
        opt = ctx.choose('option', [{}, dict(skip_connection=True), dict(split_heads=True), dict(selector=np.array([2, 0]))]) if kind == 'FFNN' and not prob else {}
        ko = dict(n_layers=1 if kind == 'LSTMNN' else 2, n_hidden_x=2, n_out=4 if prob else 2, q_vect=list(Q), n_epochs=7, batch_size=3, stats_step=9, learning_rate=.5, rel_tol=.25,
                  stopping_rounds=2, val_ratio=.25, normalize_target=norm, probabilistic=prob, subtract_mean_when_normalizing=True, unnormalized_inputs=unn, n_scen_fit=5,
                  conditional_to_hour=cond, max_scengen_rows=11, scengen_random_state=4, **opt)
        cols = COLS
        if form:
            cols = ['m', 'a_lag_001', 'a_lag_002']
            ko.update(formatter=_formatter(), unnormalized_inputs=cols)
        with quiet():
            m = getattr(base_nn, kind)(**ko)
        trained(ctx, m, cols, [] if form else [c for c in cols if c not in (unn or [])], cond=cond, norm=norm)
        if form:
            m.target_columns = pd.Index(['a_lag_-001', 'a_lag_-002'])
            m.target_scaler = Scale(ctx, 'out', list(m.target_columns)) if norm else None
        shape = (len(cols), 1) if kind == 'LSTMNN' else (len(cols),)
        m.pars = fill(m.init_arch(m.model, *shape), ctx, lambda q: q[-1] == 'bias' and q[-2] in ('dense_1', 'dense_-1', 'subnet_out_0', 'subnet_out_1', 'Dense_0'))
        l = reloaded(m)
        compare(ctx, m, l, table(ctx, cols), SETTINGS + ([] if kind != 'FFNN' else ['split_heads', 'skip_connection']))
    return h


def convex(kind):
    def h(ctx):
        prob = ctx.flag('probabilistic') if kind in ('PICNN', 'PIQCNN', 'RecStablePICNN') else False
        aug = ctx.flag('augmented controls') if kind == 'PICNN' else False
        bounds = dict(z_min=np.array([-1., -2.]), z_max=np.array([1., 3.])) if kind in ('PICNN', 'PIQCNNSigmoid') and not prob and ctx.flag('bounded') else {}
        kw = dict(n_epochs=7, batch_size=3, stats_step=9, learning_rate=.5, rel_tol=.25, stopping_rounds=2, val_ratio=.25, n_scen_fit=5, inverter_learning_rate=.75, n_latent=1,
                  n_out=4 if prob and kind == 'PIQCNN' else 2, inverter_class=__import__('optax').sgd, q_vect=list(Q), probabilistic=prob, augment_ctrl_inputs=aug, unnormalized_inputs=['x1'], optimization_vars=list(CTRL), normalize_target=True, **bounds)
        if kind == 'StructuredPICNN':
            kw['objective_fun'] = objective
        m = make_picnn(kind, layers=2, **{k: v for k, v in kw.items() if k != 'objective_fun'}) if kind != 'StructuredPICNN' else make_structured(kw)
        trained(ctx, m, PCOLS, [c for c in PCOLS if c != 'x1'])
        m.pars = fill(m.init_arch(m.model, 2, 2), ctx, lambda q: q[-1] == 'bias' and ('wuz' in q or 'dense_1' in q or 'Dense_1' in str(q)))
        l = reloaded(m, **({'objective_fun': objective} if kind == 'StructuredPICNN' else {}))
        ctx.true(list(l.optimization_vars) == list(CTRL) and all(getattr(l, k) == getattr(m, k) for k in ('inverter_learning_rate', 'n_latent', 'augment_ctrl_inputs', 'init_type', 'distribution', 'n_hidden_y')),
                 'settings of the controls are kept')
        g, y = ctx.reals('gradient', (2,), -3, 3), ctx.reals('control', (2,), -3, 3)
        step = lambda o: J.call(ctx, lambda g, y: o.update(g, o.init(y), y)[0], g, y)
        ctx.eq(step(l.inverter_optimizer), step(m.inverter_optimizer), 'the controls are optimised with the same steps', tol=1e-6)
        ctx.true(l.inverter_class is m.inverter_class, 'the optimiser of the controls is kept')
        compare(ctx, m, l, table(ctx, PCOLS), SETTINGS, quant=kind != 'StructuredPICNN')
    return h


def make_structured(kw):
    from pyforecaster.forecasting_models.neural_models import ICNN
    with quiet():
        return ICNN.StructuredPICNN(n_layers=2, n_hidden_x=2, **kw)


def invertible(ctx):
    from pyforecaster.forecasting_models.neural_models import INN
    end = ctx.choose('end to end', ['none', 'quasi', 'full'])
    exo = ctx.choose('exogenous', [None, ['f2']]) if end != 'none' else None
    with quiet():
        m = INN.CausalInvertibleNN(n_in=3, n_out=2, n_layers=1, q_vect=list(Q), end_to_end=end, names_exogenous=exo, n_prediction_layers=2, n_hidden_y=3, scaling_factor=.5, n_epochs=7, batch_size=3,
                                   learning_rate=.5, n_scen_fit=5, val_ratio=.25)
    trained(ctx, m, COLS, [], norm=False)
    m.target_columns = m.target_cols = pd.Index(Y if end != 'none' else COLS)
    nt = len(m.target_columns)
    D = ctx.reals('errors', (2, nt, 3), -3, 3)
    m.err_distr = {22: D[0], 23: D[1]}
    m.pars = fill(m.init_arch(m.model, 3), ctx, lambda q: q[-1] == 'bias' and 'layers_0' in q or q[-2:] == ('dense_1', 'bias'))
    ctx.true(end == 'none' or np.shape(m.pars['params']['predictor']['dense_0']['kernel'])[1] == 3, 'the prediction layers have the requested width')
    l = reloaded(m)
    ctx.true([k for k in ('end_to_end', 'names_exogenous', 'n_exogenous', 'n_prediction_layers', 'n_hidden_y') if not same(getattr(m, k), getattr(l, k))] == [], 'settings of the invertible network are kept')
    with stub(INN, invert=lambda p, y, model, f=INN.invert: J.call(ctx, lambda p, y: f(p, y, model), p, y), embed=lambda p, y, model, f=INN.embed: J.call(ctx, lambda p, y: f(p, y, model), p, y), plt=_NoPlot()):
        compare(ctx, m, l, table(ctx, COLS), SETTINGS)


class _NoPlot:
    def __getattr__(self, k):
        return lambda *a, **kk: (_NoPlot(), [_NoPlot(), _NoPlot()]) if k == 'subplots' else None


# ---------------------------------------------------------------- copies
class Reg:
    """a linear model with arbitrary coefficients"""
    ctx, n = None, 0

    def __init__(self, *a, **k):
        self.learning_rate_ = 1

    def fit(self, x, y, *a, **k):
        Reg.n += 1
        self.nt = 1 if np.ndim(y) == 1 else np.shape(y)[1]
        self.flat = np.ndim(y) == 1
        self.c = Reg.ctx.reals('c%d' % Reg.n, (np.shape(x)[1], self.nt), -3, 3)
        return self

    def predict(self, x, quantiles='mean', **k):
        p = np.asarray(x, dtype=float) @ self.c
        if isinstance(quantiles, str):
            return p[:, 0] if self.flat else p
        p = np.dstack([p + q for q in quantiles])
        return p[:, 0, :] if self.nt == 1 else p


class Data:
    def __init__(self, x, y, *a, **k):
        self.x, self.y = x, y


class Same:
    def fit(self, x):
        return self

    def transform(self, x):
        return np.asarray(x)

    def fit_transform(self, x):
        return np.asarray(x)


def _train(pars, ds, num_boost_round=None, **k):
    return Reg().fit(ds.x, ds.y)


def build(kind):
    """a forecaster, its stand-ins, the function that fits it on x, y"""
    import pyforecaster.forecaster as F
    from pyforecaster.forecasting_models import benchmarks as B, gradientboosters as G, randomforests as R, holtwinters as H, random_fourier_features as RF
    import sklearn.preprocessing as SP
    kw = dict(q_vect=list(Q), val_ratio=None)
    mods = []
    if kind == 'linear':
        mods, m = [(F, dict(LinearRegression=Reg))], F.LinearForecaster(**kw)
    elif kind == 'lgb':
        mods, m = [(F, dict(Dataset=Data, train=_train, tqdm=no_tqdm))], F.LGBForecaster(**kw)
    elif kind in ('hybrid', 'hybrid_multi'):
        mods, m = [(G, dict(LGBMRegressor=Reg, tqdm=no_tqdm))], G.LGBMHybrid(n_single=2 if kind == 'hybrid' else 1, **kw)
    elif kind == 'forest':
        mods, m = [(R, dict(RandomForestQuantileRegressor=Reg, tqdm=no_tqdm))], R.QRF(n_single=1, parallel=False, **kw)
    elif kind == 'persistent':
        m = B.Persistent('p', n_sa=2, **kw)
    elif kind == 'seasonal':
        m = B.SeasonalPersistent('p', n_sa=1, seasonality=2, **kw)
    elif kind == 'discrete':
        m = B.DiscreteDistr(**kw)
    if hasattr(m, 'logger'):
        m.logger.setLevel(100)
    m.scengen = Scen()
    return m, mods


def copies(kind):
    def h(ctx):
        """copies and stored models forecast as the original and do not share its state"""
        import contextlib
        Reg.ctx, Reg.n = ctx, 0
        how = ctx.choose('copy', ['deepcopy', 'pickle'])
        cond = ctx.flag('conditional to hour')
        cat = kind in ('linear', 'forest') and ctx.flag('categorical')
        n = 4
        mk = lambda i, first: pd.DataFrame({'rid': np.arange(n) * 1. + first, 'g': [2., 1., 4., 3.]}, index=i)
        i1, i2 = hours(n, start='2021-03-01 22:00'), hours(n, start='2021-05-01 22:00')
        x1, x2 = mk(i1, 0), mk(i2, 10)
        y1, y2 = (frame(ctx.reals(t, (n, 2), -9, 9), index=i, columns=Y) for t, i in (('y1', i1), ('y2', i2)))
        if cat:
            x1['cat'], x2['cat'] = ['u', 'v', 'u', 'w'], ['w', 'w', 'u', 'z']
        if kind in ('persistent', 'seasonal'):
            x1['p'], x2['p'] = y1.values[:, 0], y2.values[:, 0]
        if kind == 'discrete':
            y1, y2 = (frame(np.array(v), index=i, columns=Y) for v, i in (([[1., 2.], [2., 2.], [1., 1.], [2., 1.]], i1), ([[3., 1.], [1., 3.], [3., 3.], [1., 1.]], i2)))
        with contextlib.ExitStack() as st, quiet():
            m, mods = build(kind)
            m.conditional_to_hour = cond
            for mod, kw in mods:
                st.enter_context(stub(mod, **kw))
            m.fit(x1.copy(), y1.copy())
            cp = copy.deepcopy if how == 'deepcopy' else lambda o: pickle.loads(pickle.dumps(o))
            g, other = cp(m), cp(m)
            other.fit(x2.copy(), y2.copy())
            xt = x1.iloc[[1, 2]]
            other.predict(xt if not cat else x2.iloc[[0, 2]])
            a = m.predict(xt)
            b = g.predict(xt)
            ctx.true(b.index.equals(a.index) and list(b.columns) == list(a.columns), 'labels')
            ctx.eq(b.values, a.values, 'same forecast')
            fresh, _ = build(kind)
            fresh.conditional_to_hour = cond
            Reg.n = 0
            fresh.fit(x1.copy(), y1.copy())
            ctx.eq(fresh.predict(xt).values, a.values, 'the original does not follow its copies')
            q0, q1, q2 = (arr(np.asarray(k.predict_quantiles(xt), dtype=object).astype(object).tolist()) for k in (m, g, fresh))
            ctx.eq(q1, q0, 'same quantiles')
            ctx.eq(q2, q0, 'the quantiles of the original do not follow its copies')
            if cat:
                try:
                    g.predict(x2.iloc[[3]])
                    ok = False
                except ValueError:
                    ok = True
                ctx.true(ok, 'the copy knows the categories of the original only')
    return h


def smoothing(ctx):
    """the same for Holt-Winters, with its states"""
    from pyforecaster.forecasting_models import holtwinters as H
    multi = ctx.flag('several horizons')
    how = ctx.choose('copy', ['deepcopy', 'pickle'])
    kw = dict(periods=[1, 2], target_name='y', n_sa=2, q_vect=list(Q), optimize_hyperpars=False, verbose=False)
    mk = lambda: H.HoltWintersMulti(optimize_submodels_hyperpars=False, models_periods=[1, 2], **kw) if multi else H.HoltWinters(**kw)
    x0 = pd.DataFrame({'y': [1., 3., 2., 5., 4., 1., 2., 3.]}, index=hours(8))
    cp = copy.deepcopy if how == 'deepcopy' else lambda o: pickle.loads(pickle.dumps(o))
    with quiet():
        with concretely():
            m, r = mk(), mk()
            m.fit(x0)
            r.fit(x0)
        v = ctx.reals('level', (3,), -9, 9)
        e = ctx.reals('err', (2, 3), -3, 3)
        for k in (m, r):
            k.err_distr = e
            for b in (k.models if multi else [k]):
                b.a, b.b = v[0], v[1]
        g, other = cp(m), cp(m)
        with concretely():
            for b in (other.models if multi else [other]):
                b.a = b.b = None
            other.fit(x0 * 3)
        xt = pd.DataFrame({'y': v[2:]}, index=hours(1))
        run_py = H.run.py_func if hasattr(H.run, 'py_func') else H.run
        ctx.eq([(g.models[-1] if multi else g).a, (g.models[-1] if multi else g).b], [v[0], v[1]], 'states are kept')
        ctx.eq([(m.models[-1] if multi else m).a, (m.models[-1] if multi else m).b], [v[0], v[1]], 'the original does not follow its copies')
        ctx.eq(arr(g.err_distr), e, 'error quantiles are kept')
        ctx.eq(arr(m.err_distr), e, 'the error quantiles of the original do not follow its copies')


def stored_formatter(ctx):
    """a stored formatter gives the tables of the original"""
    import pyforecaster.formatter as pf
    n = 8
    x = frame(ctx.reals('x', (n, 2), -50, 50), columns=['a', 'b'])
    augment, dt, norm = ctx.flag('augment'), ctx.flag('calendar'), ctx.flag('normalised')
    when = ctx.choose('stored', ['before use', 'after use'])
    how = ctx.choose('copy', ['deepcopy', 'pickle'])

    def mk():
        f = pf.Formatter(augment=augment, n_parallel=1, dt=pd.Timedelta('1h')) if ctx.flag('sampling time given') else pf.Formatter(augment=augment, n_parallel=1)
        f.logger.disabled = True
        f.add_transform(['a', 'b'], lags=[1, 2])
        f.add_transform(['b'], ['mean'], agg_freq='2h', lags=[1])
        f.add_target_transform(['a'], lags=[-1, -2])
        if norm:
            f.add_target_normalizer(['a'], 'mean', agg_freq='2h', name='m')
            f.add_normalizing_fun("df[t] * 2 - df['m']", "(df[t] + df['m']) / 2")
        return f
    f = mk()
    cp = copy.deepcopy if how == 'deepcopy' else lambda o: pickle.loads(pickle.dumps(o))
    if when == 'before use':
        g = cp(f)
        xt, yt = f.transform(x, time_features=dt)
    else:
        xt, yt = f.transform(x, time_features=dt)
        g = cp(f)
    xg, yg = g.transform(x, time_features=dt)
    ctx.true(list(xg.columns) == list(xt.columns) and list(yg.columns) == list(yt.columns) and xg.index.equals(xt.index) and yg.index.equals(yt.index), 'labels')
    ctx.eq(arr(xg.values), arr(xt.values), 'features')
    ctx.eq(arr(yg.values), arr(yt.values), 'targets')
    xg2, _ = g.transform(x, time_features=dt, return_target=False)
    xt2, _ = f.transform(x, time_features=dt, return_target=False)
    ctx.true(list(xg2.columns) == list(xt2.columns) and xg2.index.equals(xt2.index), 'labels at prediction time')
    ctx.eq(arr(xg2.values), arr(xt2.values), 'features at prediction time')
    if norm:
        ctx.eq(arr(g.denormalize(xt, yt).values), arr(f.denormalize(xt, yt).values), 'denormalised targets')


NNP = P + 'forecasting_models.neural_models.base_nn.'
ICP = P + 'forecasting_models.neural_models.ICNN.'
NB = [NNP + 'NN.' + f for f in ('save', 'load', 'get_serializable_properties', 'get_class_properties', 'predict', 'predict_quantiles', 'get_normalized_inputs')]
CL = {'linear': 'forecaster.LinearForecaster', 'lgb': 'forecaster.LGBForecaster', 'hybrid': 'forecasting_models.gradientboosters.LGBMHybrid', 'hybrid_multi': 'forecasting_models.gradientboosters.LGBMHybrid',
      'forest': 'forecasting_models.randomforests.QRF', 'persistent': 'forecasting_models.benchmarks.Persistent', 'seasonal': 'forecasting_models.benchmarks.SeasonalPersistent',
      'discrete': 'forecasting_models.benchmarks.DiscreteDistr'}
B = '2 rows, 2 targets, 3 levels, every bias of the network, scaling, error quantile and scenario; settings away from their defaults'
OBLIGATIONS = [Obligation('save_' + k, network(k), [NNP + k + '.__init__', NNP + k + '.set_arch'] + NB, B) for k in ('NN', 'FFNN', 'LSTMNN')] + [
    Obligation('save_' + k, convex(k), [ICP + k + '.__init__', ICP + k + '.set_arch'] + NB, B) for k in ('PICNN', 'PIQCNN', 'PIQCNNSigmoid', 'RecStablePICNN', 'StructuredPICNN', 'LatentStructuredPICNN')] + [
    Obligation('save_invertible', invertible, [P + 'forecasting_models.neural_models.INN.CausalInvertibleNN.' + f for f in ('__init__', 'set_arch', 'predict', 'predict_quantiles')] + NB, B)] + [
    Obligation('copy_' + k, copies(k), [P + c + '.' + f for f in ('fit', 'predict', 'predict_quantiles')], '4 training and 2 forecast rows, 2 targets, 3 levels, every target and coefficient') for k, c in CL.items()] + [
    Obligation('copy_smoothing', smoothing, [P + 'forecasting_models.holtwinters.HoltWinters.fit', P + 'forecasting_models.holtwinters.HoltWintersMulti.fit'], 'any state and error quantile, 2 steps, 3 levels'),
    Obligation('stored_formatter', stored_formatter, [P + 'formatter.Formatter.' + f for f in ('transform', 'denormalize')], '8 rows, 2 variables, normaliser, calendar features on/off'),
]
