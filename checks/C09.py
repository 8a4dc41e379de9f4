from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.random_fourier_features',
           'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.randomforests', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['point regressors (sklearn, lightgbm, quantile forest): arbitrary functions of row and step that record what they are trained on',
         'scenario generator of the forecaster (records the residuals it is fitted on)', 'numpy.random.choice: any draw with replacement']
OUTSIDE = 'more than 6 rows, 3 targets; parallel (process pool) training of single-step models'
P = 'pyforecaster.'


class Rec:
    """records the training sets; the forecast of row r and step j is arbitrary"""

    def __init__(self, ctx):
        self.ctx, self.fits = ctx, []

    def val(self, m, r, j):
        return self.ctx.real('m%d[%d,%d]' % (m, r, j), -20, 20)

    def sk(self):
        rec = self

        class Reg:
            def __init__(self, *a, **k):
                self.kw = k

            def fit(self, x, y, sample_weight=None, **k):
                self.m = len(rec.fits)
                rec.fits.append((x, y, sample_weight))
                self.nt = 0 if np.ndim(y) == 1 else np.shape(y)[1]
                return self

            def predict(self, x, *a, **k):
                ids = Train.rids(x)
                v = x.values if hasattr(x, 'values') else x
                if self.nt:
                    return arr([[rec.val(self.m, r, j) for j in range(self.nt)] for r in ids])
                # a one-output model may be told the step in its last column
                s = [int(v[i, -1]) if v.shape[1] > 2 else 0 for i in range(len(ids))]
                return arr([rec.val(self.m, r, j) for r, j in zip(ids, s)])
        return Reg

    def lgb(self):
        R = self.sk()

        class DS:
            def __init__(self, x, y, *a, **k):
                self.x, self.y = x, y
        return DS, lambda pars, ds, *a, **k: R().fit(ds.x, ds.y)


class _Scaler:
    def fit(self, x):
        return self

    def transform(self, x):
        return x.values


def build(ctx, kind, rec, ratio, nt):
    import pyforecaster.forecaster as F
    import pyforecaster.forecasting_models.gradientboosters as G
    import pyforecaster.forecasting_models.random_fourier_features as R
    import pyforecaster.forecasting_models.randomforests as RF
    import sklearn.preprocessing as SP
    k = dict(q_vect=[0.1, 0.9], val_ratio=ratio)
    n_single = None
    if kind == 'linear':
        ridge = ctx.flag('ridge')
        mods = [(F, dict(LinearRegression=rec.sk(), RidgeCV=rec.sk()))]
        m = F.LinearForecaster(kind='ridge' if ridge else 'linear', **k)
    elif kind == 'lgb':
        ds, train = rec.lgb()
        mods = [(F, dict(Dataset=ds, train=train, tqdm=no_tqdm))]
        m = F.LGBForecaster(**k)
    elif kind == 'hybrid':
        n_single = ctx.pick('n_single', 0, nt)
        mods = [(G, dict(LGBMRegressor=rec.sk(), tqdm=no_tqdm))]
        m = G.LGBMHybrid(n_single=n_single, red_frac_multistep=ctx.choose('red_frac', [1, 0.5]), **k)
    elif kind == 'energy':
        mods = [(G, dict(LGBMRegressor=rec.sk(), tqdm=no_tqdm))]
        m = G.LGBEnergyAware(n_single=nt, **k)
    elif kind == 'rff':
        mods = [(SP, dict(StandardScaler=_Scaler))]
        m = R.RFFRegression(base_model=rec.sk(), dim_kernel=2, **k)
        m.conv = lambda x, index=None: x
    elif kind == 'additive_rff':
        mods = [(SP, dict(StandardScaler=_Scaler))]
        m = R.AdditiveRFFRegression(2, base_model=rec.sk(), dim_kernel=2, **k)
        for s in m.models:
            s.conv = lambda x, index=None: x
    elif kind == 'qrf':
        n_single = ctx.pick('n_single', 0, nt)
        mods = [(RF, dict(RandomForestQuantileRegressor=rec.sk(), tqdm=no_tqdm))]
        m = RF.QRF(parallel=False, n_single=n_single, **k)
    if hasattr(m, 'logger'):
        m.logger.setLevel(100)
    m.scengen = FakeScenGen()
    return m, mods, n_single


def with_stubs(mods, f):
    import contextlib
    with contextlib.ExitStack() as st, quiet():
        for mod, kw in mods:
            st.enter_context(stub(mod, **kw))
        return f()


def split(kind):
    def h(ctx):
        n, nt = 4, 2
        idx = hours(n, start='2021-03-01 22:00')
        ratio = None if ctx.flag('no_split') else ctx.real('val_ratio', 0.25, 0.8)
        nv = n if ratio is None else 1
        if ratio is not None:
            for k in range(2, n):
                if bool(ratio * n >= k):
                    nv = k
        ntr = n if ratio is None else n - nv
        rec = Rec(ctx)
        x = feats(idx)
        y = frame(ctx.reals('y', (n, nt), -20, 20), index=idx)
        w = [1., 2., 3., 5.] if kind == 'qrf' and ctx.flag('weights') else None
        m, mods, n_single = build(ctx, kind, rec, ratio, nt)
        draws = []

        def choice(a, size=None, *r, **k):
            pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
            out = []
            for i in range(int(size)):
                out.append(pool[ctx.pick('draw%d' % len(draws), 0, len(pool) - 1)] if len(draws) < 3 else pool[len(draws) % len(pool)])
                draws.append(out[-1])
            return np.array(out)

        x0, y0 = x.copy(), y.copy()
        with stub(np.random, choice=choice):
            with_stubs(mods, lambda: m.fit(x, y, **({'sample_weight': np.array(w)} if w else {})))
        ctx.true(x.equals(x0) and list(x.columns) == list(x0.columns), 'the caller\'s features are not modified')
        ctx.eq(y.values, y0.values, 'the caller\'s targets are not modified')

        if kind in ('linear', 'lgb', 'energy', 'rff', 'additive_rff'):
            n_fits = {'linear': 1, 'lgb': nt, 'energy': nt, 'rff': 1, 'additive_rff': 2}[kind]
        else:
            n_fits = n_single + (1 if n_single < nt else 0)
        ctx.true(len(rec.fits) == n_fits, 'each learner is trained once')
        for i, (fx, fy, fw) in enumerate(rec.fits):
            long_form = kind == 'hybrid' and i == n_single
            ids = Train.rids(fx)
            fy = np.asarray(fy)
            if long_form:
                ctx.true(all(r < ntr for r in ids), 'the multi-step learner sees training rows only')
                s = [int(round(float(v))) for v in fx.values[:, -1]]
                if ntr < nt - n_single:
                    continue            # fewer rows than steps: no full batch to draw
                ctx.true(len(ids) == len(fy) and set(s) == set(range(nt - n_single)), 'every remaining step is trained')
                ctx.true(len(set(s.count(v) for v in set(s))) == 1, 'equally many rows per step')
                ctx.eq(fy.ravel(), arr([y0.values[r, n_single + v] for r, v in zip(ids, s)]), 'features, step and target belong together')
                ctx.eq(fx.values[:, 1], arr([x0['f'].values[r] for r in ids]), 'feature row intact')
                continue
            ctx.true(ids == list(range(ntr)), 'trained on exactly the earliest rows, in order')
            ctx.eq((fx.values if hasattr(fx, 'values') else fx)[:, 1], x0['f'].values[:ntr], 'feature row intact')
            if kind in ('linear', 'rff') or (kind == 'additive_rff' and i == 0):
                ctx.eq(fy, y0.values[:ntr], 'targets of the training rows')
            elif kind == 'additive_rff':
                ctx.eq(fy, y0.values[:ntr] - arr([[rec.val(0, r, j) for j in range(nt)] for r in range(ntr)]), 'the next stage learns what is left')
            elif n_single is not None and i == n_single:
                ctx.eq(fy.reshape(ntr, -1), y0.values[:ntr, n_single:], 'remaining steps')
            else:
                ctx.eq(fy.ravel(), y0.values[:ntr, i], 'model of step i is trained on step i')
            if w:
                ctx.true(fw is not None and [float(v) for v in fw] == w[:ntr], 'sample weights accompany their rows')
        # post-fit phase
        ctx.true(len(m.scengen.fits) == 1, 'residuals are computed once')
        e, xs, _ = m.scengen.fits[0]
        ctx.true(Train.rids(xs) == list(range(n - nv, n)) and e.index.equals(idx[n - nv:]), 'residuals come from exactly the last rows')
    return h


def point_assembly(kind):
    """row r, step j of the forecast is what the learner of step j says for row r"""
    def h(ctx):
        nt = ctx.pick('targets', 1, 3)
        rec = Rec(ctx)
        n = 3
        idx = hours(n)
        m, mods, n_single = build(ctx, kind, rec, None, nt)
        y = pd.DataFrame(np.arange(n * nt).reshape(n, nt) * 1., index=idx, columns=['t%d' % (nt - j) for j in range(nt)])
        with_stubs(mods, lambda: m.fit(feats(idx), y.copy()))
        xt = feats(hours(2, start='2022-01-01 05:00'), first=50)
        x0 = xt.copy()
        p = with_stubs(mods, lambda: m.predict(xt))
        ctx.true(xt.equals(x0) and list(xt.columns) == list(x0.columns), 'the caller\'s features are not modified')
        ctx.true(list(p.columns) == list(y.columns) and p.index.equals(xt.index), 'labels')
        f = lambda r, j: rec.val(j, r, 0)
        if kind in ('linear', 'rff'):
            f = lambda r, j: rec.val(0, r, j)
        elif kind == 'additive_rff':
            f = lambda r, j: rec.val(0, r, j) + rec.val(1, r, j)
        elif kind == 'hybrid':
            f = lambda r, j: rec.val(j, r, 0) if j < n_single else rec.val(n_single, r, j - n_single)
        ctx.eq(p.values, arr([[f(50 + i, j) for j in range(nt)] for i in range(2)]), 'forecast of row and step')
    return h


def naive(ctx):
    """persistence models: residuals on the held-out rows, targets are the following samples"""
    from pyforecaster.forecasting_models import benchmarks as B
    n = 6
    n_sa = ctx.pick('n_sa', 1, 2)
    idx = hours(n)
    v = ctx.reals('v', n, -20, 20)
    x = pd.DataFrame({'p': v, 'rid': np.arange(n) * 1.}, index=idx)
    ratio = None if ctx.flag('no_split') else ctx.real('val_ratio', 0.5, 0.9)
    nv = n if ratio is None else 3
    if ratio is not None:
        for k in range(4, n):
            if bool(ratio * n >= k):
                nv = k
    m = B.Persistent('p', n_sa=n_sa, q_vect=[0.1, 0.9], val_ratio=ratio)
    m.scengen = FakeScenGen()
    x0 = x.copy()
    m.fit(x)
    ctx.eq(x['p'].values, x0['p'].values, 'the caller\'s data is not modified')
    e, xs, _ = m.scengen.fits[0]
    rows = list(range(n - nv, n - n_sa))
    ctx.true([int(r) for r in xs['rid']] == rows, 'residual rows: held-out rows whose targets are known')
    ctx.eq(e.values, arr([[v[r + 1 + s] - v[r] for s in range(n_sa)] for r in rows]), 'residual = following samples minus forecast')


def real_split(ctx):
    """the split itself, on other index types and sizes"""
    from pyforecaster.forecaster import ScenarioGenerator
    n = ctx.pick('n', 1, 7)
    ratio = ctx.real('val_ratio', 0, 1)
    kind = ctx.choose('index', ['time', 'integers', 'unsorted'])
    idx = hours(n) if kind == 'time' else pd.Index([(5 * i) % 7 for i in range(n)] if kind == 'unsorted' else range(n))
    x, y = pd.DataFrame({'a': np.arange(n) * 1.}, index=idx), pd.DataFrame({'t': np.arange(n) + 100.}, index=idx)
    nv = 0
    for k in range(1, n + 1):
        if bool(ratio * n >= k):
            nv = k
    m = ScenarioGenerator(val_ratio=ratio)
    a, b, c, d = m.train_val_split(x, y)
    ctx.true(list(a['a']) == list(range(n - nv)) and list(b['t']) == [100 + i for i in range(n - nv)], 'training rows are the earliest')
    ctx.true(list(c['a']) == list(range(n - nv, n)) and list(d['t']) == [100 + i for i in range(n - nv, n)], 'held-out rows are the last')
    ctx.true(len(a) + len(c) == n, 'no row lost or shared')


CL = {'linear': 'forecaster.LinearForecaster', 'lgb': 'forecaster.LGBForecaster', 'hybrid': 'forecasting_models.gradientboosters.LGBMHybrid',
      'energy': 'forecasting_models.gradientboosters.LGBEnergyAware', 'rff': 'forecasting_models.random_fourier_features.RFFRegression',
      'additive_rff': 'forecasting_models.random_fourier_features.AdditiveRFFRegression', 'qrf': 'forecasting_models.randomforests.QRF'}
OBLIGATIONS = []
for k in CL:
    fs = [P + 'forecaster.ScenarioGenerator.train_val_split', P + 'forecaster.ScenarioGenerator.fit', P + CL[k] + '.fit', P + CL[k] + '.predict']
    OBLIGATIONS.append(Obligation('split_' + k, split(k), fs, '4 rows, 2 targets, any validation share from 1/4 to 4/5 or none, any number of single-step models, any 3 first bootstrap draws'))
    if k not in ('energy', 'qrf'):
        OBLIGATIONS.append(Obligation('assembly_' + k, point_assembly(k), fs, '1-3 targets, 2 forecast rows, arbitrary learners'))
OBLIGATIONS += [
    Obligation('naive', naive, [P + 'forecasting_models.benchmarks.Persistent.fit', P + 'forecasting_models.benchmarks.Persistent.predict', P + 'forecasting_models.holtwinters.hankel'], '6 samples, 1-2 steps'),
    Obligation('train_val_split', real_split, [P + 'forecaster.ScenarioGenerator.train_val_split'], '1-7 rows, any share in [0,1], three index kinds'),
]
