from checks.common import *

PRELOAD = ['pyforecaster.forecasting_models.holtwinters']
STUBS = ['compiled kernels run as the python functions they are compiled from', 'process pool of the tuner: trials run in order on copies of the arguments',
         'covariate regression: any coefficients (numpy.linalg.pinv)', 'trial model of the tuner: arbitrary score of its parameters']
OUTSIDE = 'more than 5 observations, periods above 3, 3 steps; smoothing coefficients other than those listed where the recursion is unrolled more than twice'
P = 'pyforecaster.forecasting_models.holtwinters.'


def clip(x, c):
    return x if c is None else smin(smax(c[0], x), c[1])


def spec(Y, al, be, g1, g2, per, a, b, s1, s2, n, c=None):
    """additive exponential smoothing with two seasonal components"""
    s1, s2, out = list(s1), list(s2), []
    for y in Y:
        if y is None:
            y = a + b + s1[0] + s2[0]
        a_ = al * (y - s1[0] - s2[0]) + (1 - al) * (a + b)
        n1 = clip(g1 * (y - a_ - s2[0]) + (1 - g1) * s1[0], c)
        n2 = clip(g2 * (y - a_ - s1[0]) + (1 - g2) * s2[0], c)
        b = be * (a_ - a) + (1 - be) * b
        a = a_
        s1, s2 = s1[1:] + [n1], s2[1:] + [n2]
        out.append([a + (h + 1) * b + s1[h % per[0]] + s2[h % per[1]] for h in range(n)])
    return out, a, b, s1, s2


def model(per, nsa, **k):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    k.setdefault('q_vect', [.1, .9])
    return HoltWinters(per, 'y', n_sa=nsa, optimize_hyperpars=False, verbose=False, **k)


def coefs(ctx, free):
    if free:
        return [ctx.real(n, 0, 1) for n in ('alpha', 'beta', 'gamma 1', 'gamma 2')]
    return ctx.choose('coefficients', [(.3, .2, .4, .1), (.9, 0., .05, .6), (.2, .1, 0., .5)])


def recursion(nobs, free, cons):
    def h(ctx):
        """level, trend, seasons and forecasts follow the smoothing equations, from any state"""
        per = ctx.choose('periods', [[1, 2], [2, 3], [3, 1], [2, 2]])
        nsa = ctx.pick('steps', 1, 3)
        al, be, g1, g2 = coefs(ctx, free)
        m = model(per, nsa, alpha=al, beta=be, gamma_1=g1, gamma_2=g2, constraints=[-2., 1.5] if cons else None)
        a, b = ctx.real('level', -9, 9), ctx.real('trend', -9, 9)
        s1, s2 = ctx.reals('s1', (per[0],), -9, 9), ctx.reals('s2', (per[1],), -9, 9)
        y = ctx.reals('y', (nobs,), -9, 9)
        miss = ctx.choose('missing', [None] + list(range(nobs)) if not free else [None])
        Y = y.copy()
        if miss is not None:
            Y[miss] = np.nan
        m.set_states(a, b, s1.copy(), s2.copy())
        exp = spec([None if i == miss else v for i, v in enumerate(y)], al, be, g1, g2, per, a, b, s1, s2, nsa, [-2., 1.5] if cons else None)
        f, a2, b2, t1, t2 = m._run(Y)
        ctx.eq(f, arr(exp[0]), 'forecasts of the smoothing equations')
        ctx.eq(arr([a2, b2] + list(t1) + list(t2)), arr([exp[1], exp[2]] + exp[3] + exp[4]), 'states of the smoothing equations')
        ctx.eq(arr([m.a, m.b] + list(m.s1) + list(m.s2)), arr([a, b] + list(s1) + list(s2)), 'states only change when they are stored')
        x = pd.DataFrame({'y': Y}, index=hours(nobs))
        m.target_cols = ['y_%d' % i for i in range(nsa)]
        p = m.predict(x)
        ctx.eq(p.values, arr(exp[0]), 'predictions use the fitted coefficients')
        ctx.eq(arr([m.a, m.b] + list(m.s1) + list(m.s2)), arr([exp[1], exp[2]] + exp[3] + exp[4]), 'predictions advance the states')
    return h


def chunks(ctx):
    """predicting in consecutive pieces is the same as predicting at once"""
    per = ctx.choose('periods', [[2, 3], [3, 1]])
    nsa = ctx.pick('steps', 1, 2)
    al, be, g1, g2 = coefs(ctx, False)
    n, cut = 5, ctx.pick('cut', 1, 4)
    y = ctx.reals('y', (n,), -9, 9)
    st = [ctx.real('level', -9, 9), ctx.real('trend', -9, 9), ctx.reals('s1', (per[0],), -9, 9), ctx.reals('s2', (per[1],), -9, 9)]
    x = pd.DataFrame({'y': y}, index=hours(n))
    out = []
    for pieces in ([x], [x.iloc[:cut], x.iloc[cut:]]):
        m = model(per, nsa, alpha=al, beta=be, gamma_1=g1, gamma_2=g2)
        m.target_cols = ['y_%d' % i for i in range(nsa)]
        m.set_states(st[0], st[1], st[2].copy(), st[3].copy())
        p = [m.predict(c.copy()) for c in pieces]
        out.append((pd.concat(p), arr([m.a, m.b] + list(m.s1) + list(m.s2))))
    ctx.true(out[0][0].index.equals(out[1][0].index), 'rows of the data')
    ctx.eq(out[0][0].values, out[1][0].values, 'same forecasts')
    ctx.eq(out[0][1], out[1][1], 'same states')


def any_pinv(ctx):
    def pinv(m, *a, **k):
        s = np.shape(m)
        r = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            r[i] = [0.5, -0.25, 0.125, 0.3][(3 * i[0] + i[1]) % 4]
        return r.astype(float)
    return pinv


def fit(ctx):
    """residuals compare the forecasts that are returned with the observations of their steps; error quantiles have one row per step"""
    from pyforecaster.forecasting_models import holtwinters as H
    per, nsa = [1, 2], ctx.pick('steps', 1, 2)
    n = 3 + nsa
    cov = ctx.flag('covariates')
    y = ctx.reals('y', (n + 2,), -9, 9)
    z = np.cos(np.arange(n + 2.))
    d = {'z': z, 'y': y} if ctx.flag('covariate first') else {'y': y, 'z': z}
    full = pd.DataFrame(d if cov else {'y': y}, index=hours(n + 2))
    al, be, g1, g2 = .3, .2, .4, .1
    m = model(per, nsa, alpha=al, beta=be, gamma_1=g1, gamma_2=g2)
    x = full.iloc[:n]
    with stub(np.linalg, pinv=any_pinv(ctx)), quiet():
        m.fit(x.copy())
    init = [0, 0, [y[n - 1]] * per[0], [y[n - 1]] * per[1]]
    f, a, b, s1, s2 = spec(y[:n], al, be, g1, g2, per, *init, nsa)
    rows = range(n - nsa)
    X = x.values
    res = [[y[i + 1 + j] - f[i][j] for j in range(nsa)] for i in rows]
    pi = any_pinv(ctx)(np.zeros((X.shape[1],) * 2))
    co = np.zeros((X.shape[1], nsa)) if not cov else pi @ (X[:n - nsa].T @ arr(res))
    corr = [[res[i][j] - sum(X[i, q] * co[q, j] for q in range(X.shape[1])) for j in range(nsa)] for i in rows]
    if not cov:
        ctx.eq(m.err_distr, arr([[quantile([c[j] for c in corr], q) for q in (.1, .9)] for j in range(nsa)]), 'error quantiles of observation minus forecast')
    ctx.eq(m.y_tr.values, arr([[y[i + 1 + j] for j in range(nsa)] for i in rows]), 'targets are the observations of the steps ahead')
    if cov:
        # with covariates, quantiles of products are out of reach: one residual stands for all
        ctx.eq(m.y_tr.values - m.y_hat_tr.values, arr(corr), 'residual = observation minus corrected forecast')
    ctx.true(list(m.y_tr.index) == list(x.index[:n - nsa]) == list(m.y_hat_tr.index), 'rows with all the steps ahead')
    # the state after fitting: twenty passes over the last season
    ctx.true(np.shape(m.err_distr) == (nsa, 2), 'one row of error quantiles per step')
    st = [m.a, m.b, list(m.s1), list(m.s2)]
    p = m.predict(full.iloc[n:].copy())
    g = spec(y[n:], al, be, g1, g2, per, *st, nsa)[0]
    Xt = full.iloc[n:].values
    ctx.eq(p.values, arr([[g[i][j] + sum(Xt[i, q] * co[q, j] for q in range(X.shape[1])) for j in range(nsa)] for i in range(2)]), 'predictions = smoothing forecast + correction')
    ctx.true(p.index.equals(full.index[n:]) and list(p.columns) == list(m.target_cols), 'labels')
    for k in ('a', 'b', 's1', 's2'):
        setattr(m, k, dict(a=st[0], b=st[1], s1=arr(st[2]), s2=arr(st[3]))[k])
    q = m.predict_quantiles(full.iloc[n:].copy(), dataframe=False)
    ctx.eq(q, np.expand_dims(p.values, -1) + np.expand_dims(m.err_distr, 0), 'quantiles = forecast + error quantiles')


def again(ctx):
    """fitting again gives what fitting a new model gives"""
    per, nsa = [1, 2], 1
    y, w = ctx.reals('y', (4,), -9, 9), ctx.reals('w', (4,), -9, 9)
    mk = lambda v: pd.DataFrame({'y': v}, index=hours(4))
    a, b = model(per, nsa), model(per, nsa)
    with stub(np.linalg, pinv=any_pinv(ctx)), quiet():
        a.fit(mk(w))
        a.fit(mk(y))
        b.fit(mk(y))
    ctx.eq(arr([a.a, a.b] + list(a.s1) + list(a.s2)), arr([b.a, b.b] + list(b.s1) + list(b.s2)), 'states do not depend on the previous fit')
    ctx.eq(a.err_distr, b.err_distr, 'errors do not depend on the previous fit')


def reinit(ctx):
    """the seasonal states end in phase with the next observation"""
    per = ctx.choose('periods', [[1, 2], [2, 2], [1, 3]])
    m = model(per, 1, alpha=.5, gamma_1=.2, gamma_2=.3)
    p = max(per)
    s = ctx.reals('season', (p,), -9, 9)
    form = ctx.choose('form', ['array', 'series', 'frame'])
    st = [0., 0., 0. * s[:1].repeat(per[0]), s.copy()]
    m.set_states(*st)
    v = arr([s[i % p] for i in range(2 * p)])
    m.reinit(v if form == 'array' else pd.Series(v) if form == 'series' else pd.DataFrame({'y': v}))
    # a signal equal to the stored season is a fixed point of the smoothing
    ctx.eq(arr([m.a, m.b] + list(m.s1) + list(m.s2)), arr([0., 0.] + [0.] * per[0] + list(s)), 'a repeated season leaves the states as they are')


def multi(ctx):
    """each step is forecast, with its errors, by the first model that reaches it"""
    from pyforecaster.forecasting_models import holtwinters as H
    periods = ctx.choose('horizons', [[1, 2, 3], [1, 3], [3], [2, 3], None])
    nsa = 3
    cons = ctx.choose('constraints', [None, [-1., 1.]])
    nq = ctx.choose('levels', [[.5], [.1, .9], [.1, .3, .5, .7]])
    m = H.HoltWintersMulti([1, 2], 'y', n_sa=nsa, q_vect=nq, optimize_hyperpars=False, optimize_submodels_hyperpars=False, models_periods=periods, constraints=cons,
                           alphas=[.1, .2, .3], gammas_1=[.4, .5, .6], gammas_2=[.7, .8, .9])
    hz = periods or [1, 2, 3]
    ctx.true([q.n_sa for q in m.models] == hz, 'one model per horizon')
    ctx.true(all((q.alpha, q.gamma_1, q.gamma_2, q.constraints) == ([.1, .2, .3][i], [.4, .5, .6][i], [.7, .8, .9][i], cons) for i, q in enumerate(m.models)), 'parameters reach their model')
    x = pd.DataFrame({'y': np.arange(6.)}, index=hours(6))
    seen = []

    def mfit(self, x_pd, y_pd=None, **k):
        i = hz.index(self.n_sa)
        seen.append(i)
        self.err_distr = ctx.reals('e%d' % i, (self.n_sa, len(nq)), -9, 9)
        self.target_cols = ['y_%d' % t for t in range(self.n_sa)]
        return self

    def mpred(self, x_pd, **k):
        i = hz.index(self.n_sa)
        return pd.DataFrame(ctx.reals('p%d' % i, (len(x_pd), self.n_sa), -9, 9), index=x_pd.index, columns=self.target_cols)
    with stub(H.HoltWinters, fit=mfit, predict=mpred, reinit=lambda self, y: None):
        m.fit(x)
        xt = pd.DataFrame({'y': np.arange(2.)}, index=hours(2))
        p = m.predict(xt)
        q = m.predict_quantiles(xt, dataframe=False)
        qd = m.predict_quantiles(xt)
    own = [min(i for i, h in enumerate(hz) if h > j) for j in range(nsa)]
    exp = arr([[ctx.reals('p%d' % own[j], (2, hz[own[j]]), -9, 9)[i, j] for j in range(nsa)] for i in range(2)])
    er = arr([ctx.reals('e%d' % own[j], (hz[own[j]], len(nq)), -9, 9)[j] for j in range(nsa)])
    ctx.eq(p.values, exp, 'forecast of the first model that reaches the step')
    ctx.true(p.index.equals(xt.index), 'index of the features')
    ctx.eq(q, np.expand_dims(exp, -1) + np.expand_dims(er, 0), 'quantiles = forecast + errors of the same model')
    for j, c in enumerate(p.columns):
        for k, l in enumerate(nq):
            ctx.eq(qd[(c, l)].values, q[:, j, k], 'labels (step, level)')


class InPool:
    def __init__(self, *a, **k):
        pass

    def map(self, f, args, **k):
        import copy
        import functools
        return [functools.partial(f.func, *copy.deepcopy(f.args), **copy.deepcopy(f.keywords))(copy.deepcopy(a)) for a in args]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def tune(ctx):
    """the parameters with the least score are selected, whatever the scores, serial or parallel, one or several targets"""
    from pyforecaster.forecasting_models import holtwinters as H
    import concurrent.futures
    par = ctx.flag('parallel')
    nt = ctx.pick('targets', 1, 2)
    trials = ctx.pick('trials', 1, 3)
    names = ['u', 'v'][:nt]
    x = pd.DataFrame({n: np.arange(10.) for n in ['z', 'u', 'v']}, index=hours(10))
    sc = ctx.reals('score', (trials, nt), 0, 9)
    draws, calls = [], []

    def rand(*a):
        draws.append(1)
        k = len(draws) - 1
        r = [.1, .5, .9, .3, .7, .2, .4, .6, .8][k % 9]
        return r if not a else np.full(a, r)
    pars = []

    def score(model, xx, tr_ratio=.7, target_name=None, n_sa=1):
        al = float(model.alpha)
        if al not in pars:
            pars.append(al)
        calls.append((al, target_name, list(xx.columns)))
        return sc[pars.index(al), names.index(target_name)]
    init = {'periods': [1, 2], 'target_name': 'u', 'targets_names': list(names), 'n_sa': 1, 'optimize_hyperpars': True, 'q_vect': [.1, .9], 'verbose': False}
    with stub(np.random, rand=rand), stub(H, score_autoregressive=score, tqdm=no_tqdm), stub(concurrent.futures, ProcessPoolExecutor=InPool), quiet():
        best = H.tune_hyperpars(x, H.HoltWinters, {'alpha': [0, 1], 'gamma_1': [0, .5]}, n_trials=trials, return_model=False, parallel=par, model_init_kwargs=dict(init))
    ctx.true(len(calls) == trials * nt and len(pars) == trials, 'each trial is scored on each target')
    ctx.true(all(c[2] == [n for n in x.columns if n == c[1] or n not in names] for c in calls), 'features: covariates and the target itself')
    tot = [sum(sc[i]) for i in range(trials)]
    k = pars.index(float(best['alpha']))
    ctx.le(arr([tot[k]] * trials), arr(tot), 'no trial has a lower score')
    ctx.true(best['target_name'] == 'u' or not par, 'the target stays')
    ctx.true(best['optimize_hyperpars'] is False and best['n_sa'] == 1, 'other parameters stay')


def score(ctx):
    """the score compares forecasts of the test rows with the observations which follow them"""
    from pyforecaster.forecasting_models import holtwinters as H
    n, nsa = 10, ctx.pick('steps', 1, 3)
    y = ctx.reals('y', (n,), -3, 3)
    x = pd.DataFrame({'z': np.arange(n) * 1., 'y': y}, index=hours(n))
    at = ctx.pick('row with an error', 7, 9 - nsa)
    e = ctx.real('error', -3, 3)

    class M:
        def fit(self, x, y=None):
            self.tr = x
            return self

        def predict(self, xt):
            i0 = int(xt['z'].iloc[0])
            return pd.DataFrame(arr([[(y[i + 1 + j] if i + 1 + j < n else 99.) + (e if i == at and j == nsa - 1 else 0) for j in range(nsa)] for i in range(i0, n)]), index=xt.index)
    m = M()
    s = H.score_autoregressive(m, x, target_name='y', n_sa=nsa)
    ctx.true(list(m.tr['z']) == list(range(7)), 'trained on the first rows only')
    ctx.eq(s, e * e / ((3 - nsa) * nsa), 'mean squared error of the steps ahead')


OBLIGATIONS = [
    Obligation('recursion_any', recursion(1, True, False), [P + 'run', P + 'HoltWinters._run', P + 'HoltWinters.predict'], '1 observation, any coefficients and states', timeout=300),
    Obligation('recursion', recursion(3, False, False), [P + 'run', P + 'HoltWinters._run', P + 'HoltWinters.predict'], '3 observations, 3 sets of coefficients, any states, one missing'),
    Obligation('recursion_bounded', recursion(2, False, True), [P + 'run', P + 'constrainify', P + 'HoltWinters._run'], '2 observations, bounds on the seasons', max_paths=20000, timeout=300),
    Obligation('chunks', chunks, [P + 'HoltWinters.predict', P + 'HoltWinters._run', P + 'run'], '5 observations, any cut'),
    Obligation('fit', fit, [P + 'HoltWinters.fit', P + 'HoltWinters.predict', P + 'HoltWinters._predict_quantiles', P + 'hankel'], '4-5 rows, with and without a covariate'),
    Obligation('again', again, [P + 'HoltWinters.fit', P + 'HoltWinters.reinit'], '4 rows'),
    Obligation('reinit', reinit, [P + 'HoltWinters.reinit'], 'periods up to 3'),
    Obligation('multi', multi, [P + 'HoltWintersMulti.' + f for f in ('fit', 'predict', '_predict_quantiles', 'reinit_pars')], '3 steps, 5 sets of horizons'),
    Obligation('tune', tune, [P + 'tune_hyperpars', P + 'fit_sample'], '1-3 trials, 1-2 targets, any scores'),
    Obligation('score', score, [P + 'score_autoregressive', P + 'hankel'], '10 rows, 1-3 steps'),
]
