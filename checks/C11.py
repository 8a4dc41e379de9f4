from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.scenarios_generator', 'pyforecaster.copula']
STUBS = ['scipy.interpolate.interp1d(fill_value=extrapolate): its definition (piecewise linear, end segments prolonged)',
         'scipy.stats.multivariate_normal: any draw, with the squeezed shapes scipy returns; norm.cdf: an injective stand-in',
         'sklearn covariance estimators: any symmetric matrix with positive diagonal (recording what they are fitted on)',
         'numpy.corrcoef: its definition; numpy.random.randn/rand: any value in [-8,8] / [0,1)']
OUTSIDE = 'more than 3 rows, 3 steps, 3 scenarios, 4 levels; that the draws follow the stated distribution (library code)'
P = 'pyforecaster.'


def lin(q, v, u):
    """piecewise linear function through (q, v), end segments prolonged, at u"""
    k = 0
    for i in range(1, len(q) - 1):
        if bool(u > q[i]):
            k = i
    return v[k] + (v[k + 1] - v[k]) * (u - q[k]) / (q[k + 1] - q[k])


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        assert kind == 'linear' and np.ndim(y) == 1
        self.x, self.y, self.ext = list(x), list(y), fill_value

    def __call__(self, u):
        u = np.asarray(u, dtype=object)
        out = []
        for v in u.ravel():
            if not isinstance(self.ext, str):
                lo, hi = self.ext if isinstance(self.ext, tuple) else (self.ext, self.ext)
                if bool(v < self.x[0]):
                    out.append(lo)
                    continue
                if bool(v > self.x[-1]):
                    out.append(hi)
                    continue
            out.append(lin(self.x, self.y, v))
        return arr(out).reshape(u.shape)


def levels(ctx, n):
    q = [ctx.real('lev%d' % i, 0.01, 0.99) for i in range(n)]
    for a, b in zip(q, q[1:]):
        ctx.assume(b - a > 0.01)
    return q


def interpolation(ctx):
    """scenario value = quantile curve of its own step at its own copula draw"""
    import pyforecaster.scenarios_generator as G
    nl = ctx.pick('levels', 2, 4)
    steps, ns = (2, 2) if nl < 4 else (1, 2)
    q = levels(ctx, nl) if nl < 4 else [0.1, 0.4, 0.6, 0.9]
    qm = ctx.reals('q', (steps, nl), -20, 20)
    u = ctx.reals('u', (steps, ns), 0, 1)
    with stub(G, interp1d=Interp1d if ctx.symbolic else G.interp1d):
        s = G.interp_scens(u if ctx.symbolic else np.asarray(u, dtype=float), qm, arr(q))
    ctx.eq(s, arr([[lin(q, qm[i], u[i, k]) for k in range(ns)] for i in range(steps)]), 'quantile curve at the copula draw')


def monotone(ctx):
    """non-crossing quantiles: a higher draw never gives a lower scenario; draws inside the levels stay inside the quantiles"""
    import pyforecaster.scenarios_generator as G
    q = [0.1, 0.4, 0.9]
    qm = ctx.reals('q', (1, 3), -20, 20)
    ctx.assume(qm[0, 0] <= qm[0, 1])
    ctx.assume(qm[0, 1] <= qm[0, 2])
    u = ctx.reals('u', (1, 2), 0, 1)
    ctx.assume(u[0, 0] <= u[0, 1])
    with stub(G, interp1d=Interp1d if ctx.symbolic else G.interp1d):
        s = G.interp_scens(u if ctx.symbolic else np.asarray(u, dtype=float), qm, arr(q))
    ctx.le(s[0, 0], s[0, 1], 'scenarios are ordered like their draws', tol=1e-9)
    for k in range(2):
        if bool(u[0, k] >= 0.1) and bool(u[0, k] <= 0.9):
            ctx.le(qm[0, 0], s[0, k], 'inside the quantile range', tol=1e-9)
            ctx.le(s[0, k], qm[0, 2], 'inside the quantile range', tol=1e-9)


def noise(ctx):
    c = [0]

    def rn(lo, hi):
        def f(*size):
            a = np.zeros(size, dtype=object)
            for i in np.ndindex(*size):
                c[0] += 1
                a[i] = ctx.real('noise%d' % c[0], lo, hi)
            return a if ctx.symbolic else a.astype(float)
        return f
    return dict(randn=rn(-8, 8), rand=rn(0, 1))


def scenarios(ctx):
    """placement: (row, step, scenario), optional extra first node, any form of the quantiles"""
    import pyforecaster.scenarios_generator as G
    n, steps, ns = ctx.pick('rows', 1, 2), ctx.pick('steps', 1, 2), ctx.pick('scenarios', 1, 2)
    q = [0.2, 0.6]
    extra = ctx.flag('additional_node')
    g = G.ScenGen(q_vect=q, additional_node=extra)
    u = ctx.reals('u', (n, steps, ns), 0, 1)
    seen = []

    class Cop:
        def sample(self, x, n_scen, **k):
            seen.append((x, n_scen, k))
            return u if ctx.symbolic else np.asarray(u, dtype=float)
    g.copula = Cop()
    t = ctx.reals('q', (n, steps, 2), -20, 20)
    x = feats(pd.DatetimeIndex(['2021-03-01 05:00', '2021-03-04 22:00'])[:n])
    form = ctx.choose('form', ['tensor', 'frame', 'frame without features'])
    quant = t
    if form != 'tensor':
        quant = pd.DataFrame(np.hstack([t[:, :, a] for a in range(2)]), index=x.index, columns=pd.MultiIndex.from_product([q, range(steps)]))
    init = None
    if extra and ctx.flag('first_observation'):
        init = ctx.reals('o', n, -20, 20)
    with stub(G, interp1d=Interp1d if ctx.symbolic else G.interp1d), stub(np.random, **noise(ctx)):
        s = g.predict_scenarios(quant, n_scen=ns, x=None if form == 'frame without features' else x, init_obs=init, random_state=7)
    off = 1 if extra else 0
    ctx.true(s.shape == (n, steps + off, ns), 'shape (row, step, scenario)')
    exp = arr([[[lin(q, t[i, j], u[i, j, k]) for k in range(ns)] for j in range(steps)] for i in range(n)])
    d = s[:, off:, :] - exp
    ctx.le(d, d * 0 + 1e-6, 'scenario = quantile curve at the draw')
    ctx.le(d * 0 - 1e-6, d, 'scenario = quantile curve at the draw')
    if extra:
        o = s[:, 0, :] - arr([[init[i] if init is not None else 0] * ns for i in range(n)])
        ctx.le(o, o * 0 + 1e-5, 'first node is the observation')
        ctx.le(o * 0 - 1e-5, o, 'first node is the observation')
    ctx.true(len(seen) == 1 and seen[0][0].index.equals(x.index) and seen[0][1] == ns and seen[0][2] == {'random_state': 7}, 'copula sampled for these rows')


class MVN:
    """scipy.stats.multivariate_normal: rvs squeezes axes of length one"""
    ctx = None
    calls = None

    def __init__(self, mean=None, cov=1, **k):
        self.mean, self.cov = np.asarray(mean), np.asarray(cov)
        self.id = int(round(float(self.cov[0, 0] * 10)))

    def rvs(self, size=1, random_state=None):
        size = (size,) if np.ndim(size) == 0 else tuple(int(v) for v in size)
        d = len(self.mean)
        MVN.calls.append((self.id, size, random_state))
        a = np.zeros(size + (d,), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = MVN.ctx.real('z%d_%s' % (self.id, '_'.join(map(str, i))), -4, 4)
        a = a if MVN.ctx.symbolic else a.astype(float)
        a = np.squeeze(a)
        return a if a.ndim else a[()]


class Norm:
    @staticmethod
    def cdf(z):
        return z * 0.1 + 0.5


def draws(ctx):
    """each row is drawn from the copula of its own hour, at its own position"""
    import pyforecaster.copula as C
    dim, ns = ctx.pick('steps', 1, 3), ctx.pick('scenarios', 1, 3)
    rows = ctx.choose('rows', [['01 05:00'], ['01 05:00', '01 22:00'], ['01 05:00', '02 05:30', '02 22:00'], ['01 05:00', '01 22:00', '02 05:00'], ['01 22:00', '01 05:15', '01 05:30']])
    idx = pd.DatetimeIndex(['2021-03-' + r for r in rows])
    c = C.HourlyGaussianCopula()
    c.dim = dim
    c.pars = {h: np.eye(dim) * (h + 1.) / 10 for h in range(24)}
    MVN.ctx, MVN.calls = ctx, []
    x = feats(idx)
    with stub(C, multivariate_normal=MVN, norm=Norm):
        u = c.sample(x, ns, random_state=3)
    ctx.true(u.shape == (len(idx), dim, ns), 'shape (row, step, scenario)')
    exp = np.zeros(u.shape, dtype=object)
    for h in sorted(set(idx.hour)):
        for a, i in enumerate([i for i in range(len(idx)) if idx[i].hour == h]):
            for k in range(ns):
                for j in range(dim):
                    exp[i, j, k] = ctx.real('z%d_%d_%d_%d' % (h + 1, a, k, j), -4, 4) * 0.1 + 0.5
    ctx.eq(u, exp, 'draws of the row\'s hour, at (row, step, scenario)')
    ctx.true(all(c[2] == 3 for c in MVN.calls), 'the seed reaches the draws')


def estimation(method):
    """the copula of an hour is a correlation matrix estimated on the residuals of that hour only"""
    def h(ctx):
        import pyforecaster.copula as C
        dim = ctx.pick('steps', 1, 2)
        idx = pd.DatetimeIndex(['2021-03-01 05:00', '2021-03-01 22:00', '2021-03-02 05:00', '2021-03-02 22:00', '2021-03-03 05:30', '2021-03-03 22:15', '2021-03-03 22:45'])
        y = frame(ctx.reals('e', (len(idx), dim), -20, 20), index=idx)
        log, cvlog = [], []

        class Cov:
            def __init__(self, *a, **k):
                self.kw = k

            def fit(self, x, *a):
                x = np.asarray(x)
                log.append((x, self.kw))
                n = len(log)
                d = [ctx.real('var%d_%d' % (n, i), 0.25, 16) for i in range(dim)]
                r = ctx.real('cov%d' % n, -0.2, 0.2)
                self.covariance_ = arr([[d[i] if i == j else r for j in range(dim)] for i in range(dim)])
                self.alpha_ = 0.25
                return self

        class CV(Cov):
            def fit(self, x, *a):
                cvlog.append(np.asarray(x))
                self.alpha_ = 0.75
                return self

        c = C.HourlyGaussianCopula(cov_est_method=method)
        x0 = y.copy()
        for j in range(dim):                       # no constant residuals
            for hh in (5, 22):
                v = y.values[idx.hour == hh, j]
                ctx.assume(v[0] - v[1] > 0.01)
        seen = []

        def corr(m, *a, **k):
            m = np.atleast_2d(m)
            seen.append(m)
            r = arr([[pearson(m[i], m[j]) if i != j else 1. for j in range(len(m))] for i in range(len(m))])
            return r if len(m) > 1 else r[0, 0]
        mods = dict(ShrunkCovariance=Cov, GraphicalLasso=Cov, GraphicalLassoCV=CV)
        with stub(C, **mods), stub(np, corrcoef=corr), stub(C.np, corrcoef=corr):
            c.fit(y)
        ctx.true(sorted(c.pars) == [5, 22] and c.dim == dim, 'one matrix per hour')
        for k, hh in enumerate((5, 22)):
            e = x0.values[idx.hour == hh]
            ctx.true(np.shape(c.pars[hh]) == (dim, dim), 'shape')
            m = c.pars[hh]
            if method == 'vanilla':
                ctx.eq(seen[k].T, e, 'estimated on the rows of the hour')
            else:
                ctx.eq(log[k][0], e, 'estimated on the rows of the hour')
            for i in range(dim):
                ctx.eq(m[i, i], 1, 'unit variances (uniform margins)', tol=1e-5)
            if dim == 2:
                if method == 'vanilla':
                    ctx.eq(m[0, 1], pearson(e[:, 0], e[:, 1]), 'correlation of the residuals')
                    ctx.eq(m[1, 0], m[0, 1], 'symmetric')
                else:
                    # r = cov / sqrt(v1 v2), stated without roots
                    v1, v2 = [ctx.real('var%d_%d' % (k + 1, i), 0.25, 16) for i in range(2)]
                    cv = ctx.real('cov%d' % (k + 1), -0.2, 0.2)
                    ctx.eq(m[0, 1] * m[0, 1] * v1 * v2, cv * cv, 'correlation of the estimate')
                    ctx.true(bool(m[0, 1] * cv >= 0), 'sign of the correlation')
        if method == 'glasso_cv':
            ctx.true(len(cvlog) == 1, 'one cross-validation')
            ctx.eq(cvlog[0], x0.values[idx.hour == 22], 'on the hour with most residuals')
            ctx.true(all(k.get('alpha') == 0.75 for _, k in log), 'the selected penalty is used')
    return h


def pearson(a, b):
    a, b = list(a), list(b)
    ma, mb = mean(a), mean(b)
    c = sum((x - ma) * (z - mb) for x, z in zip(a, b))
    va, vb = sum((x - ma) ** 2 for x in a), sum((z - mb) ** 2 for z in b)
    return c / (np.sqrt(arr([va]))[0] * np.sqrt(arr([vb]))[0])


def passing(ctx):
    """the forecaster hands its own quantiles and residuals to the scenario generator"""
    import pyforecaster.forecaster as F
    n, steps = ctx.pick('rows', 1, 2), ctx.pick('steps', 1, 2)
    q = [0.2, 0.6]
    m = F.ScenarioGenerator(q_vect=q, n_scen_fit=ctx.pick('n_scen_fit', 1, 2))
    ctx.true(list(m.scengen.q_vect) == q, 'same levels in forecaster and scenario generator')
    t = ctx.reals('q', (n, steps, 2), -20, 20)
    m.target_cols = ['s%d' % i for i in range(steps)]
    m._predict_quantiles = lambda x, **k: t
    got = []

    class SG(FakeScenGen):
        def predict_scenarios(self, quantiles, n_scen=None, x=None, random_state=None, **k):
            got.append((quantiles, n_scen, x, random_state))
            return np.zeros((n, steps, n_scen))

        def predict_trees(self, quantiles=None, n_scen=None, x=None, nodes_at_step=None, init_obs=None, random_state=None, **k):
            got.append((quantiles, n_scen, x, random_state, nodes_at_step, init_obs))
            return ['tree%d' % i for i in range(len(x))]
    m.scengen = SG()
    x = feats(hours(n))
    ns = ctx.pick('n_scen', 1, 3)
    given = ctx.flag('n_scen_given')
    s = m.predict_scenarios(x, n_scen=ns if given else None, random_state=5)
    a = got[-1]
    ctx.true(s.shape == (n, steps, ns if given else m.n_scen_fit) and a[1] == s.shape[2] and a[2] is x and a[3] == 5, 'arguments')
    ctx.eq(a[0], t, 'the forecaster\'s own quantiles')
    tr = m.predict_trees(x, n_scen=ns, nodes_at_step=[1, 2], init_obs=4, random_state=6)
    a = got[-1]
    ctx.eq(a[0], t, 'the forecaster\'s own quantiles')
    ctx.true(a[1:] == (ns, x, 6, [1, 2], 4) if n == 0 else (a[1] == ns and a[2] is x and a[3:] == (6, [1, 2], 4)), 'arguments')
    ctx.true(tr == ('tree0' if n == 1 else ['tree0', 'tree1']), 'one tree per row')


G_ = P + 'scenarios_generator.'
CP = P + 'copula.HourlyGaussianCopula.'
OBLIGATIONS = [
    Obligation('interpolation', interpolation, [G_ + 'interp_scens'], '1-2 steps, 2-4 levels (symbolic up to 3), 2 scenarios, any quantiles (crossing allowed)'),
    Obligation('monotone', monotone, [G_ + 'interp_scens'], '1 step, 3 levels, 2 scenarios'),
    Obligation('scenarios', scenarios, [G_ + 'ScenGen.predict_scenarios', G_ + 'ScenGen.sample_scenarios', G_ + 'interp_scens'], '1-2 rows, steps and scenarios, 2 levels, three quantile forms, with and without first node'),
    Obligation('draws', draws, [CP + 'sample'], '1-3 rows in 5 hour layouts, 1-3 steps, 1-3 scenarios'),
    Obligation('passing', passing, [P + 'forecaster.ScenarioGenerator.' + f for f in ('predict_scenarios', 'predict_trees', 'predict_quantiles')], '1-2 rows and steps'),
]
for mth in ('vanilla', 'shrunk', 'glasso', 'glasso_cv'):
    OBLIGATIONS.append(Obligation('estimation_' + mth, estimation(mth), [CP + 'fit'], '7 residual rows in two hours, 1-2 steps'))
