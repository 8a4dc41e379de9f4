from checks.common import *

PRELOAD = ['pyforecaster.forecasting_models.random_fourier_features']
STUBS = ['linear models: fixed coefficients per fit, features and targets recorded', 'random draws: any numbers, recorded with their shapes', 'feature scaler: a fixed affine map per column',
         'orthogonal factors and chi draws of the orthogonal projection: any numbers of the requested shape', 'resampled rows of the boosted regression: a fixed draw', 'cosine: an uninterpreted function']
OUTSIDE = 'distribution of the random projections; more than 5 rows, 2 rounds and 2 features; numba compilation (the same code is interpreted)'
P = 'pyforecaster.forecasting_models.random_fourier_features.'


class Linear:
    """a linear model whose coefficients differ for every fit; training sets are recorded"""

    def __init__(self):
        self.fits = []

    def cls(self):
        rec = self

        class Reg:
            def fit(self, x, y, **k):
                k = len(rec.fits)
                v = x.values if hasattr(x, 'values') else np.asarray(x)
                self.c = np.array([[((3 * i + 5 * j + 7 * k) % 11 - 5) / 4. for j in range(np.shape(y)[1])] for i in range(v.shape[1])])
                self.d = np.array([k + 1. - j for j in range(np.shape(y)[1])])
                rec.fits.append((v.copy(), np.array(y), self))
                return self

            def predict(self, x, **k):
                return (x.values if hasattr(x, 'values') else np.asarray(x)) @ self.c + self.d
        return Reg


class Scale:
    def fit(self, x, *a):
        return self

    def transform(self, x):
        v = x.values if hasattr(x, 'values') else np.asarray(x)
        return (v.astype(float) - 1.) / 2. + np.arange(v.shape[1])

    def fit_transform(self, x, *a):
        return self.transform(x)



def draws(ctx):
    log = []

    def normal(*shape):
        log.append(ctx.reals('normal%d' % len(log), shape, -3, 3))
        return log[-1]

    def uniform(lo=0., hi=1., size=None):
        log.append(ctx.reals('uniform%d' % len(log), (size,) if np.ndim(size) == 0 else size, 0, 6))
        return log[-1]
    return log, dict(randn=normal, uniform=uniform)


def features(kind):
    def h(ctx):
        """forecast = linear model at cos(xW + b), with the W and b of the training; additive models learn what is left"""
        import sklearn.preprocessing as SP
        from pyforecaster.forecasting_models import random_fourier_features as R
        given = ctx.flag('projection given')
        dim, nf, n, nt = ctx.pick('width', 1, 2), 2, 3, ctx.pick('targets', 1, 2)
        std = ctx.real('std', .1, 2)
        W0, b0 = (ctx.reals('W', (nf, dim), -2, 2), ctx.reals('b', (dim,), 0, 6)) if given else (None, None)
        rec = Linear()
        kw = dict(dim_kernel=dim, std_kernel=std, W=W0, b=b0)
        idx = hours(n, start='2021-03-01 22:00')
        x = pd.DataFrame({'u': [1., 4., -2.], 'v': [3., 0., 5.]}, index=idx)
        y = frame(ctx.reals('y', (n, nt), -9, 9), index=idx, columns=['t%d' % (nt - j) for j in range(nt)])
        xt = pd.DataFrame({'u': [2., -3.], 'v': [7., 1.]}, index=hours(2, start='2021-05-01 22:00'))
        copies = [k.copy() for k in (x, y, xt)]
        log, rnd = draws(ctx)
        with stub(np.random, **rnd), stub(SP, StandardScaler=Scale), quiet():
            if kind == 'plain':
                m = R.RandomFFRegressor('rff', rec.cls(), **kw)
            elif kind == 'forecaster':
                m = R.RFFRegression(base_model=rec.cls(), q_vect=[.1, .9], **kw)
            else:
                m = R.AdditiveRFFRegression(2, base_model=rec.cls(), q_vect=[.1, .9], **kw)
            if kind != 'plain':
                m.scengen = FakeScenGen()
            m.fit(x, y)
            fits = list(rec.fits)
            p = m.predict(xt)
            one = m.predict(xt.iloc[1:])
            flip = m.predict(xt.iloc[::-1])
        for a, b in zip((x, y, xt), copies):
            ctx.eq(arr(a.values), arr(b.values), 'tables of the caller are not modified')
            ctx.true(list(a.columns) == list(b.columns) and a.index.equals(b.index), 'labels of the tables of the caller')
        k = 2 if kind == 'additive' else 1
        ctx.true(len(fits) == k, 'one fit for each model')
        mats = []
        if not given:
            N, U = [d for d in log if np.shape(d) == (nf, dim)], [d for d in log if np.shape(d) == (dim,)]
            ctx.true(len(N) == len(U) == k, 'one projection for each model')
            mats = [(N[i] * std, U[i]) for i in range(k)]
        else:
            mats = [(W0, b0)] * k
        z = (lambda t: t.values) if kind == 'plain' else (lambda t: Scale().transform(t))

        def feat(t, i):
            return arr([[np.cos(arr([sum(r[q] * mats[i][0][q, d] for q in range(nf)) + mats[i][1][d]]))[0] for d in range(dim)] for r in z(t)])
        left = y.values
        tot = 0
        for i, (fx, fy, reg) in enumerate(fits):
            ctx.eq(fx, feat(x, i), 'training features')
            ctx.eq(fy, left, 'each model is trained on what the previous ones leave')
            left = left - (feat(x, i) @ reg.c + reg.d)
            tot = tot + (feat(xt, i) @ reg.c + reg.d)
        ctx.eq(p.values, tot, 'forecasts')
        ctx.true(p.index.equals(xt.index) and list(p.columns) == list(y.columns), 'labels')
        ctx.eq(one.values, p.values[1:], 'the forecast of a row does not depend on the other rows')
        ctx.eq(flip.values, p.values[::-1], 'nor on their order')
        if kind != 'plain':
            ctx.eq(m.scengen.fits[-1][0].values, left, 'residuals')
    return h


def matrices(ctx):
    """projections have the requested shape and width"""
    from pyforecaster.forecasting_models import random_fourier_features as R
    d, k = ctx.pick('inputs', 1, 3), ctx.pick('width', 1, 5)
    std = ctx.real('std', .1, 2)
    kind = ctx.choose('projection', ['rff', 'orf'])
    log, rnd = draws(ctx)
    qs, cs = [], []

    class Lin:
        @staticmethod
        def qr(a, *r):
            qs.append((a, np.array([[((i + 2 * j + len(qs)) % 5 - 2) / 2. for j in range(a.shape[1])] for i in range(a.shape[0])])))
            return qs[-1][1], None

    class Chi:
        class chi:
            @staticmethod
            def rvs(df=None, size=None):
                ctx.true(df == d, 'degrees of freedom of the lengths')
                cs.append(ctx.reals('chi%d' % len(cs), size, 0, 3))
                return cs[-1]

    class Sp:
        stats = Chi
    with stub(np.random, **rnd), stub(np.linalg, qr=Lin.qr), stub(R, scipy=Sp), quiet():
        W = R.get_matrix_generator(kind, std, k)(d)
        try:
            R.get_matrix_generator('other', std, k)
            ok = False
        except RuntimeError:
            ok = True
    ctx.true(ok, 'unknown projections are refused')
    ctx.true(np.shape(W) == (d, k), 'one row for each input and one column for each feature')
    if kind == 'rff':
        ctx.eq(W, log[0] * std, 'normal draws of the requested width')
    else:
        # every block of columns is the orthogonal factor of its own draw, rows scaled by their own lengths
        for j in range(k):
            q, c = qs[j // d][1], cs[j // d]
            ctx.eq(W[:, j], arr([std * c[i] * q[i, j % d] for i in range(d)]), 'orthogonal directions with random lengths')


def boosted(ctx):
    """forecast of any row = rate x sum over the rounds of the mean error left in its bin"""
    from pyforecaster.forecasting_models import random_fourier_features as R
    xs = ctx.choose('training feature', [[.1, .2, .8, .9, .5], [0., 0., 0., 1., 1.], [3., 3., 3., 3., 3.], [0., 5., 0., 5., 5.]])
    n, nt = 5, 2
    nb, it, lr = ctx.pick('bins', 1, 4), ctx.pick('rounds', 1, 2), .5
    resampled = ctx.choose('resampled rows', [[0, 1, 2, 3, 4], [4, 1, 1, 0], [2, 3]])
    frac = len(resampled) / n
    x = pd.DataFrame({'a': xs}, index=hours(n))
    y = frame(ctx.reals('y', (n, nt), -20, 20), columns=['b', 'a'][:nt])
    x0, y0 = x.copy(), y.copy()
    new = [-9., .15, .3, .55, .85, 99., 2.5, .7, 3.]
    sizes = []

    def choice(a, size=None, replace=True, **k):
        sizes.append(int(size))
        return np.array(resampled)
    with stub(np.random, choice=choice), stub(R, tqdm=no_tqdm), quiet():
        m = R.BrutalRegressor(n_iter=it, n_bins=nb, learning_rate=lr, bootstrap_fraction=frac)
        m.fit(x, y)
        xt = pd.DataFrame({'a': new}, index=hours(len(new), start='2022-01-01'))
        p = m.predict(xt)
        one = m.predict(xt.iloc[1:2])
        again = m.predict(x)
    ctx.true(sizes == [len(resampled)] * it, 'number of resampled rows')
    ctx.true(x.equals(x0), 'features of the caller')
    ctx.eq(y.values, y0.values, 'targets of the caller')
    ctx.true(list(p.columns) == list(y.columns) and p.index.equals(xt.index), 'labels')
    tr = [xs[i] for i in resampled]
    cut = sorted(np.quantile(np.array(tr), np.arange(1, nb + 1) / (nb + 1)))
    bin_of = lambda v: sum(1 for c in cut if c <= v)

    def corrections(v, err):
        members = [i for i in resampled if bin_of(xs[i]) == bin_of(v)]
        return [sum(err[i][t] for i in members) / len(members) if members else 0. for t in range(nt)]
    err = [[y0.values[i, t] for t in range(nt)] for i in range(n)]
    tot = [[0.] * nt for _ in new]
    fit = [[0.] * nt for _ in xs]
    for r in range(it):
        at, own = [corrections(v, err) for v in new], [corrections(v, err) for v in xs]
        tot = [[tot[i][t] + lr * at[i][t] for t in range(nt)] for i in range(len(new))]
        fit = [[fit[i][t] + lr * own[i][t] for t in range(nt)] for i in range(n)]
        err = [[err[i][t] - lr * own[i][t] for t in range(nt)] for i in range(n)]
    ctx.eq(p.values, arr(tot), 'sum of the corrections of the bin of the row', tol=1e-6)
    ctx.eq(again.values, arr(fit), 'training rows', tol=1e-6)
    ctx.eq(one.values, p.values[1:2], 'the forecast of a row does not depend on the other rows')


def choice_of_feature(ctx):
    """each round corrects along the feature that leaves the least squared error"""
    from pyforecaster.forecasting_models import random_fourier_features as R
    n = 4
    x = pd.DataFrame({'a': [0., 1., 0., 1.], 'b': [0., 0., 1., 1.]}, index=hours(n))
    v = ctx.real('v', -5, 5)
    base = ctx.choose('targets', [[0., 1., 1., 0.], [0., 3., 1., 4.], [2., 2., -1., 0.]])
    along = ctx.choose('direction', [[0., 1., 0., 1.], [1., 1., 0., 0.], [1., 0., 0., 0.]])
    y = frame(arr([[base[i] + v * along[i]] for i in range(n)]), columns=['t'])
    with stub(np.random, choice=lambda a, size=None, *r, **k: np.arange(n)), stub(R, tqdm=no_tqdm), quiet():
        m = R.BrutalRegressor(n_iter=1, n_bins=1, learning_rate=1., bootstrap_fraction=1.)
        m.fit(x, y)
        p = m.predict(x).values[:, 0]
    t = y.values[:, 0]
    group = lambda c: [sum(t[j] for j in range(n) if x[c].iloc[j] == x[c].iloc[i]) / 2 for i in range(n)]
    a, b = group('a'), group('b')
    sse = lambda f: sum((t[i] - f[i]) * (t[i] - f[i]) for i in range(n))
    isa, isb = conj([p[i] == a[i] for i in range(n)]), conj([p[i] == b[i] for i in range(n)])
    ctx.true(isa | isb, 'means of the bins of one feature')
    ctx.le(sse(p), sse(a), 'the error left is the least of the two', tol=1e-6)
    ctx.le(sse(p), sse(b), 'the error left is the least of the two', tol=1e-6)


OBLIGATIONS = [
    Obligation('features_plain', features('plain'), [P + 'RandomFFRegressor.fit', P + 'RandomFFRegressor.predict', P + 'Base.conv', P + 'Base.set_weight'], '3 training and 2 forecast rows, 2 features, width 1-2, 1-2 targets, any projection, width and target'),
    Obligation('features_forecaster', features('forecaster'), [P + 'RFFRegression.fit', P + 'RFFRegression.predict', P + 'Base.conv', P + 'Base.set_weight'], 'as above'),
    Obligation('features_additive', features('additive'), [P + 'AdditiveRFFRegression.fit', P + 'AdditiveRFFRegression.predict', P + 'Base.conv', P + 'Base.set_weight'], 'as above, 2 models'),
    Obligation('matrices', matrices, [P + 'get_rff_matrix', P + 'get_orf_matrix', P + 'get_matrix_generator'], '1-3 inputs, width 1-5'),
    Obligation('boosted', boosted, [P + 'BrutalRegressor.fit', P + 'BrutalRegressor.predict', P + 'BrutalRegressor.one_level_fit', P + 'compute_coeffs', P + 'linear_response', P + 'fit_feature'], '5 training rows with gaps and ties, 1-4 bins, 1-2 rounds, 2 targets, every target, three resamplings, 9 new values'),
    Obligation('choice_of_feature', choice_of_feature, [P + 'BrutalRegressor.one_level_fit', P + 'fit_features', P + 'fit_feature'], '4 rows, 2 features, a line of targets'),
]
