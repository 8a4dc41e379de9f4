from checks.common import *

PRELOAD = ['pyforecaster.forecasting_models.fast_adaptive_models', 'pyforecaster.utilities']
STUBS = ['compiled kernels run as the python functions they are compiled from', 'numpy.corrcoef of past coefficients: a fixed positive definite matrix (its argument is checked)',
         'experts of the multi-model: any forecasts']
OUTSIDE = 'windows above 4, more than 9 rows, 2 harmonics, smoothing coefficients other than those listed; training of the hyper-parameters; repeated fits'
M = 'pyforecaster.forecasting_models.fast_adaptive_models.'
U = 'pyforecaster.utilities.'
T = 1e-6


def kalman_scalar(ctx):
    """scalar case: the update is the minimum-variance one"""
    from pyforecaster.utilities import kalman_update, kalman_predict
    x, y = ctx.real('x', -9, 9), ctx.real('y', -9, 9)
    p, r, q = ctx.real('P', 0, 9), ctx.real('R', .1, 9), ctx.real('Q', 0, 9)
    f = ctx.choose('F', [1., .5, -2.])
    h = ctx.choose('H', [1., 2., -.5])
    o = lambda v: arr([[v]])
    x1, p1 = kalman_predict(arr([x]), o(p), o(f), o(q))
    ctx.eq(x1, arr([f * x]), 'predicted state')
    ctx.eq(p1, o(f * f * p + q), 'predicted variance')

    def pinv(m):
        return o(1 / m[0, 0])
    with stub(np.linalg, pinv=pinv):
        x2, p2 = kalman_update(arr([x]), o(p), arr([y]), o(h), o(r))
    s = h * p * h + r
    ctx.eq(x2[0] * s, x * s + p * h * (y - h * x), 'updated state', tol=T)
    ctx.eq(p2[0, 0] * s, p * r, 'updated variance', tol=T)
    k = ctx.real('any gain', -3, 3)
    ctx.le(p2[0, 0] * s, s * ((1 - k * h) * (1 - k * h) * p + k * k * r) + T, 'no other gain has a lower variance')


def kalman_matrix(ctx):
    """the update is the gaussian conditional mean and covariance"""
    from pyforecaster.utilities import kalman
    x, y = ctx.reals('x', (2,), -9, 9), ctx.reals('y', (2,), -9, 9)
    P = ctx.choose('P', [[[2., .5], [.5, 1.]], [[1000., 0], [0, 1000.]], [[.3, -.2], [-.2, .4]]])
    F = ctx.choose('F', [[[1., 0], [0, 1]], [[1., .5], [0, .9]]])
    H = ctx.choose('H', [[[1., 0], [0, 1]], [[1., -1.], [.5, 2.]]])
    Q = [[.1, .03], [.03, .2]]
    R = [[.5, .1], [.1, .4]]
    P, F, H, Q, R = (np.array(v) for v in (P, F, H, Q, R))
    x1, p1 = kalman(x.copy(), P.copy(), F, Q, y.copy(), H, R)
    Pp = F @ P @ F.T + Q
    K = Pp @ H.T @ np.linalg.inv(H @ Pp @ H.T + R)
    xp = F @ x
    ctx.eq(x1, xp + K @ (y - H @ xp), 'conditional mean', tol=T)
    ctx.eq(p1, np.linalg.inv(np.linalg.inv(Pp) + H.T @ np.linalg.inv(R) @ H), 'conditional covariance', tol=T)


def history(ctx):
    """the window holds the last observations, from the stored window and the new ones"""
    from pyforecaster.forecasting_models import fast_adaptive_models as A
    m = ctx.pick('window', 1, 4)
    i = ctx.pick('row', 0, 5)
    y, w = ctx.reals('y', (6,)), ctx.reals('w', (m,))
    start = max(0, i - m + 1)
    f = ctx.choose('function', [A.generate_recent_history, A.StatefulForecaster.generate_recent_history])
    wi, yi = w.copy(), y.copy()
    r = f(yi, wi, start, i)
    ctx.eq(np.asarray(r), arr((list(w) + list(y[:i + 1]))[-m:]), 'last observations')
    ctx.eq(wi, w, 'stored window untouched')
    ctx.eq(yi, y, 'series untouched')


def row(t, m, nh):
    v = [1 / math.sqrt(2)]
    for k in range(1, nh + 1):
        half = math.sqrt(2) if 2 * k == m else 1        # two samples per period: only the cosine is left, with twice the norm
        v += [math.sin(2 * math.pi * k * t / m) / half, math.cos(2 * math.pi * k * t / m) / half]
    return np.array(v) * math.sqrt(2 / m)


def es_spec(y, m, nsa, per, nh, al, om):
    w, c, eps, last, out = [0.] * m, None, 0., 0., []
    for i, v in enumerate(y):
        w = w[1:] + [v]
        if c is None:
            c = np.zeros(2 * nh + 1, dtype=object)
            c[0] = v * math.sqrt(m)
        new = sum(row(i + q, m, nh) * w[q] for q in range(m))
        c = al * new + (1 - al) * c
        eps = om * (v - last) + (1 - om) * eps
        f = [sum(row(i + m - per + j, m, nh) * c) for j in range(nsa)]
        last = f[0]
        out.append([f[j] + eps * (nsa - j) ** 2 / nsa ** 2 for j in range(nsa)])
    return out


SPD = lambda n: np.eye(n) + .1 * np.ones((n, n))


def fk_spec(y, m, nsa, per, nh, om, r, q, hist, restart):
    """restart: rows at which a new call begins"""
    d = 2 * nh + 1
    w, c, eps, last, P, Q, R, out, cs = [0.] * m, np.zeros(d), 0., 0., np.eye(d) * 1000, np.eye(d) * q, np.eye(d) * r, [], []
    loc = 0
    for i, v in enumerate(y):
        if i in restart:
            loc = 0
            cs = []
        w = w[1:] + [v]
        new = sum(row(i + k, m, nh) * w[k] for k in range(m))
        P = P + Q
        K = P @ np.linalg.inv(P + R)
        c = c + K @ (new - c)
        P = (np.eye(d) - K) @ P
        f = [sum(row(i + m - per + j, m, nh) * c) for j in range(nsa)]
        eps = om * (v - last) + (1 - om) * eps
        last = f[0]
        out.append([f[j] + eps * (nsa - j) ** 2 / nsa ** 2 for j in range(nsa)])
        if loc % m == 0 and loc >= m:
            hist.append(list(cs))
            Q = SPD(d)
            R = Q * .01
        cs.append(c)
        loc += 1
    return out


def fourier(kind, big=False):
    def h(ctx):
        """forecasts, after fitting and predicting, are those of one pass over the whole series"""
        from pyforecaster.forecasting_models import fast_adaptive_models as A
        m, nh, nsa, per = ctx.choose('sizes', [(3, 1, 1, 1), (3, 1, 2, 3), (4, 2, 2, 2), (2, 1, 2, None), (3, 2, 1, None)] + ([(4, 1, 3, 4), (5, 2, 2, 5)] if big else []))
        nt, npr = nsa + (3 if big else 2) + (ctx.pick('extra', 0, 1) if kind == 'es' else 0), 3
        if kind == 'fk' and ctx.flag('long'):
            nt, npr = nsa + m + 2, m + 2
        n = nt + npr
        y = ctx.reals('y', (n,), -9, 9)
        al, om = ctx.choose('smoothing', [(.8, .99), (.3, .6)])
        kw = dict(target_name='y', n_sa=nsa, m=m, optimize_hyperpars=False, n_harmonics=nh, periodicity=per, alpha=al, omega=om, q_vect=[.1, .5], verbose=False)
        per = nsa if per is None else per
        x = pd.DataFrame({'z': np.arange(n) * 1., 'y': y}, index=hours(n))
        args = []

        def corr(c):
            args.append(np.array(c))
            return SPD(len(c))
        short = nt - nsa <= 4
        with quiet(), stub(np, corrcoef=corr), stub(A.np, corrcoef=corr):
            if kind == 'es':
                f = A.Fourier_es(**kw)
            else:
                f = A.FK(r=.2, q=.4, **kw)
            ctx.true(f.n_harmonics_int == min(nh, m // 2), 'harmonics that the window can tell apart')
            nh = min(nh, m // 2)
            cap = []
            npq = np.quantile

            def qs(r, q, axis=None, **k):
                cap.append(np.asarray(r))
                return npq(r, q, axis=axis, **k) if short else np.zeros((len(q), nsa))
            with stub(A.np, quantile=qs):
                f.fit(x.iloc[:nt].copy())
            nfit = len(args)
            p = f.predict(x.iloc[nt:].copy())
            q = f.predict_quantiles(x.iloc[nt:].copy(), dataframe=False)
            p2 = f.predict(x.iloc[nt:].copy())
            part = f.predict(x.iloc[nt:nt + 1].copy())
        hist = []
        if kind == 'es':
            exp = es_spec(y, m, nsa, per, nh, al, om)
        else:
            exp = fk_spec(y, m, nsa, per, nh, om, .2, .4, hist, [nt])
        ctx.eq(p.values, arr(exp[nt:]), 'forecasts of the recursion continued from the fit', tol=T)
        ctx.true(list(p.columns) == ['y_t+%d' % (j + 1) for j in range(nsa)] and p.index.equals(x.index[nt:]), 'labels')
        ctx.eq(p2.values, p.values, 'predicting again gives the same')
        ctx.eq(part.values, p.values[:1], 'forecasts do not use later rows')
        ctx.eq(q, np.expand_dims(p.values, -1) + np.expand_dims(f.err_distr, 0), 'quantiles = forecasts + error quantiles')
        res = arr([[y[i + 1 + j] - exp[i][j] for j in range(nsa)] for i in range(nt - nsa)])
        if cap:
            ctx.eq(cap[-1], res, 'residual = observation minus forecast', tol=T)
            res = cap[-1]
        if short:
            ctx.eq(f.err_distr, arr([[quantile(list(res[:, j]), l) for l in (.1, .5)] for j in range(nsa)]), 'error quantiles of observation minus forecast', tol=T)
        if kind == 'fk' and nfit and hist:
            ctx.true(all(np.shape(a) == (2 * nh + 1, len(c)) for a, c in zip(args[:nfit], hist)), 'noise estimated on all the past coefficients')
            for a, c in zip(args[:nfit], hist):
                ctx.eq(a, arr(c).T, 'noise estimated on the past coefficients', tol=T)
    return h


def periodic(ctx):
    """a periodic signal within the harmonics of the model is forecast exactly once it is known"""
    from pyforecaster.forecasting_models import fast_adaptive_models as A
    m, nh, nsa = ctx.choose('sizes', [(3, 1, 2), (4, 2, 3), (5, 2, 2), (4, 1, 4)])
    k = ctx.choose('model', ['es', 'fk'])
    d = 2 * nh + 1
    co = ctx.reals('coefficients', (d,), -3, 3)
    t0 = ctx.pick('rows seen before', 0, 3)
    y = lambda t: sum(row(t - 1, m, nh) * co)       # the basis of a row ends at its own observation
    kw = dict(target_name='y', n_sa=nsa, m=m, optimize_hyperpars=False, n_harmonics=nh, periodicity=m, alpha=.6, omega=.7, q_vect=[.1], verbose=False)
    with quiet():
        f = A.Fourier_es(**kw) if k == 'es' else A.FK(**kw)
    f.states.update({'x': co.copy(), 'w': arr([y(t) for t in range(t0 - m, t0)]), 'eps': 0., 'last_1sa_preds': y(t0), 't': t0 % m})
    n = 3
    x = pd.DataFrame({'y': [y(t) for t in range(t0, t0 + n)]}, index=hours(n))
    p = f.predict(x)
    ctx.eq(p.values, arr([[y(t0 + i + 1 + j) for j in range(nsa)] for i in range(n)]), 'forecasts continue the signal', tol=1e-5)


def basis(ctx):
    """the basis is orthonormal over any window: the coefficients of a signal in its span are recovered"""
    from pyforecaster.forecasting_models.fast_adaptive_models import get_basis
    m = ctx.pick('window', 3, 7)
    nh = ctx.pick('harmonics', 1, m // 2)
    t0 = ctx.pick('start', 0, 4)
    co = ctx.reals('coefficients', (2 * nh + 1,), -9, 9)
    P = get_basis(np.arange(t0, t0 + m), m, nh)
    s = P @ co
    ctx.eq(s, arr([sum(row(t, m, nh) * co) for t in range(t0, t0 + m)]), 'sum of the harmonics', tol=T)
    keep = [q for q in range(2 * nh + 1) if not (q == 2 * nh - 1 and 2 * nh == m)]      # the sine with two samples per period is zero
    ctx.eq((P.T @ s)[keep], co[keep], 'coefficients recovered', tol=T)


def copies(ctx):
    """copies and stored models forecast as the original, and do not share its state"""
    import copy
    import pickle
    from pyforecaster.forecasting_models import fast_adaptive_models as A
    kind = ctx.choose('model', ['es', 'fk', 'multi'])
    how = ctx.choose('copy', ['deepcopy', 'pickle'])
    kw = dict(target_name='y', n_sa=1, m=3, optimize_hyperpars=False, periodicity=2, q_vect=[.1, .9], verbose=False)
    y0 = np.array([1., 3., 2., 5., 4., 1., 2.])
    x0 = pd.DataFrame({'y': y0}, index=hours(7))
    with quiet():
        with concretely():
            mk = lambda: A.Fourier_es(**kw) if kind == 'es' else A.FK(**kw) if kind == 'fk' else A.FK_multi(optimize_submodels_hyperpars=False, n_predictors=2, **kw)
            cp = copy.deepcopy if how == 'deepcopy' else lambda o: pickle.loads(pickle.dumps(o))
            f, r = mk(), mk()
            f.fit(x0)
            r.fit(x0)
            g = cp(f)
            cp(f).fit(x0 * 3)
        for a in (f, g, r):
            for b in [a] + (a.models if kind == 'multi' else []):
                b.states = {k: v.astype(object) if isinstance(v, np.ndarray) and ctx.symbolic else v for k, v in b.states.items()}
        v = ctx.reals('y', (1,), -9, 9)
        xt = pd.DataFrame({'y': v}, index=hours(1))
        a = f.predict(xt).values
        ctx.eq(g.predict(xt).values, a, 'same forecast')
        ctx.eq(r.predict(xt).values, a, 'the original does not follow its copies')


def experts(nsa, npred, sym_rows):
    def h(ctx):
        """the forecast combines the experts' with non negative weights of sum one, larger for the experts with lower errors at the last observation"""
        from pyforecaster.forecasting_models import fast_adaptive_models as A
        n = nsa + 2
        mem = {}

        class Exp:
            def __init__(self, **k):
                self.k, self.fits = k, []

            def fit(self, x):
                self.fits.append(x)

            def predict(self, x):
                e = mods.index(self)
                return pd.DataFrame(arr([[mem.setdefault((e, i, j), ctx.real('e%d[%d,%d]' % (e, i, j), -5, 5) if (i, j) in sym_rows else float((e * 5 + i * 3 + j * 2) % 7 - 2.5)) for j in range(nsa)] for i in range(n)]), index=x.index)
        mods = []
        seen = []

        def kal(x, P, F, Q, y, H, R):
            seen.append(y)
            return y, P
        with quiet():
            f = A.FK_multi(target_name='y', n_sa=nsa, m=nsa + 4, n_predictors=npred, periodicity=nsa, base_predictor=Exp, verbose=False, q_vect=[.1])
        mods += f.models
        ctx.true(len(mods) == npred and all(m.k['target_name'] == 'y' and m.k['n_sa'] == nsa for m in mods), 'experts of the same target')
        ctx.true(all(max(nsa, 1) <= m.k['m'] <= nsa + 4 for m in mods) and mods[-1].k['m'] == nsa + 4, 'windows up to the largest')
        ctx.true([m.k['m'] for m in mods] == sorted(m.k['m'] for m in mods), 'increasing windows')
        y = np.array([1., -2., 3., .5, 2., -1.])[:n]
        x = pd.DataFrame({'z': np.arange(n) * 1., 'y': y}, index=hours(n))
        with stub(A, kalman=kal), quiet():
            f.target_cols = ['y_t+%d' % (j + 1) for j in range(nsa)]
            p = f.predict(x)
        ctx.true(p.index.equals(x.index) and p.shape == (n, nsa), 'labels')
        got, exp = [], []
        errs = lambda i: [mean([absv(mem[(e, i - j - 1, j)] - y[i]) for j in range(nsa)]) for e in range(npred)]
        for i in range(n):
            if i < nsa:
                w = [1. / npred] * npred
            elif sum(errs(i)) == 0:
                w = [1. / npred] * npred
            else:
                err = errs(i)
                t = mean(err)
                ex = [np.exp(-arr([v / t])[0]) if not isinstance(v / t, Sym) else (-(v / t)).exp() for v in err]
                s = sum(ex)
                w = [v / s for v in ex]
            for j in range(nsa):
                got.append(p.values[i, j])
                exp.append(sum(mem[(e, i, j)] * w[e] for e in range(npred)))
                lo, hi = mem[(0, i, j)], mem[(0, i, j)]
                for e in range(1, npred):
                    lo, hi = smin(lo, mem[(e, i, j)]), smax(hi, mem[(e, i, j)])
                if i in (n - 1, 0):
                    ctx.le(arr([lo - T, p.values[i, j]]), arr([p.values[i, j], hi + T]), 'between the experts')
        ctx.eq(arr(got), arr(exp), 'weights from the errors at the last observation', tol=T)
    return h


def multi_fit(ctx):
    """residuals of the multi-model compare its forecasts with the observations that follow"""
    from pyforecaster.forecasting_models import fast_adaptive_models as A
    nsa = ctx.pick('steps', 1, 2)
    n = nsa + 3
    y = ctx.reals('y', (n,), -9, 9)
    x = pd.DataFrame({'z': np.arange(n) * 1., 'y': y}, index=hours(n))

    class Exp:
        def __init__(self, **k):
            pass
    with quiet():
        f = A.FK_multi(target_name='y', n_sa=nsa, m=nsa + 4, n_predictors=2, periodicity=nsa, base_predictor=Exp, verbose=False, q_vect=[.1, .9])
    pr = ctx.reals('p', (n, nsa), -9, 9)
    with stub(f, run=lambda x_pd, return_coeffs=True, fit=True: (pr[:len(x_pd)], None)):
        f.fit(x)
        res = [[y[i + 1 + j] - pr[i, j] for j in range(nsa)] for i in range(n - nsa)]
        ctx.eq(f.err_distr, arr([[quantile([r[j] for r in res], l) for l in (.1, .9)] for j in range(nsa)]), 'error quantiles of observation minus forecast')
        q = f.predict_quantiles(x.iloc[:2], dataframe=False)
        ctx.eq(q, np.expand_dims(pr[:2], -1) + np.expand_dims(f.err_distr, 0), 'quantiles = forecasts + error quantiles')


OBLIGATIONS = [
    Obligation('kalman_scalar', kalman_scalar, [U + 'kalman_predict', U + 'kalman_update'], 'any variances, 9 pairs of coefficients'),
    Obligation('kalman_matrix', kalman_matrix, [U + 'kalman', U + 'kalman_predict', U + 'kalman_update'], '2 states, 12 sets of matrices, any state and measure'),
    Obligation('history', history, [M + 'generate_recent_history', M + 'StatefulForecaster.generate_recent_history'], 'windows 1-4, 6 rows'),
    Obligation('fourier', fourier('es'), [M + 'Fourier_es.' + k for k in ('fit', 'predict', 'run', '_predict_quantiles')] + [M + 'get_basis'], 'windows 2-4, 1-2 harmonics and steps, 6-8 rows'),
    Obligation('fourier_kalman', fourier('fk'), [M + 'FK.' + k for k in ('fit', 'predict', 'run', '_predict_quantiles')] + [M + 'update_predictions', U + 'kalman'], 'windows 2-4, 1-2 harmonics and steps, 6-12 rows'),
    Obligation('periodic', periodic, [M + 'Fourier_es.run', M + 'FK.run', M + 'update_predictions'], 'windows 3-5, any coefficients and phase'),
    Obligation('basis', basis, [M + 'get_basis'], 'windows 3-7'),
    Obligation('copies', copies, [M + 'Fourier_es.run', M + 'FK.run', M + 'FK_multi.run'], '7 rows of training, 1 of prediction'),
    Obligation('experts_1', experts(1, 2, {(1, 0), (2, 0)}), [M + 'FK_multi.run', M + 'FK_multi.predict', M + 'FK_multi.reinit_pars'], '1 step, 2 experts, their last two forecasts symbolic'),
    Obligation('experts_2', experts(2, 2, {(2, 0), (1, 1)}), [M + 'FK_multi.run', M + 'FK_multi.predict'], '2 steps, 2 experts, the forecasts of the last observation symbolic'),
    Obligation('experts_3', experts(1, 3, {(1, 0)}), [M + 'FK_multi.run', M + 'FK_multi.predict'], '1 step, 3 experts'),
    Obligation('multi_fit', multi_fit, [M + 'FK_multi.fit', M + 'FK_multi._predict_quantiles'], '4-5 rows, 1-2 steps'),
]
