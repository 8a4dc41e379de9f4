from checks.common import *

PRELOAD = ['pyforecaster.reconciliation.reconciliation', 'sklearn.covariance', 'seaborn']
STUBS = ['sklearn ShrunkCovariance / GraphicalLassoCV: any symmetric positive definite matrix (coherence), or a function of the columns they are fitted on',
         'numpy.linalg.inv, for coherence: any matrix', 'base forecasters: arbitrary functions of the row',
         'DataFrame.sample: any rows with replacement']
OUTSIDE = 'more than 5 series, 2 steps ahead, 3 rows per hour; numerical conditioning of the inverses; hours without training errors'
P = 'pyforecaster.reconciliation.reconciliation.HierarchicalReconciliation.'
HIER = [{'u': ['u1', 'au']}, {'u': ['v', 'c'], 'v': ['a', 'b']}, {'v': ['a', 'b'], 'u': ['c', 'v']}, {'u': [0, 'v'], 'v': [1, 2]},
        {'u': ['v', 'w'], 'v': ['a', 'b'], 'w': ['c']}]
LEAVES = [{'u': ['u1', 'au']}, {'u': ['a', 'b', 'c'], 'v': ['a', 'b']}, {'u': ['a', 'b', 'c'], 'v': ['a', 'b']}, {'u': [0, 1, 2], 'v': [1, 2]},
          {'u': ['a', 'b', 'c'], 'v': ['a', 'b'], 'w': ['c']}]


def hr(k, method, **kw):
    from pyforecaster.reconciliation import reconciliation as R
    m = R.HierarchicalReconciliation(HIER[k], method=method, **kw)
    m.logger.setLevel(100)
    return m


def bottoms(k):
    return [b for b in max(LEAVES[k].values(), key=len)]


def coherent(ctx, rec, k, tol=0):
    for u, lv in LEAVES[k].items():
        ctx.eq(rec[u].values, sum(rec[b].values for b in lv), 'every aggregation equals the sum of its bottom series', tol=tol)


def orders(ctx, k):
    """columns as the library builds them, or shuffled"""
    cols = list(HIER[k]) + bottoms(k)
    return ctx.choose('order of the series', [cols, cols[::-1], cols[1:] + cols[:1]])


def mk(v, cols, n=2):
    return pd.DataFrame(v, index=hours(n), columns=cols)


class AnyCov:
    """a covariance estimator that may return anything"""
    n = 0

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, *a, **k):
        o = AnyCov(self.ctx)
        AnyCov.n += 1
        o.tag = AnyCov.n
        return o

    def fit(self, x):
        n = np.asarray(x).shape[1]
        for name in ('covariance_', 'precision_'):
            m = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(i + 1):
                    m[i, j] = m[j, i] = self.ctx.real('%s%d[%d,%d]' % (name[:3], self.tag, i, j), -5, 5)
                self.ctx.assume(m[i, i] > 0.01)
            setattr(self, name, m if self.ctx.symbolic else m.astype(float))
        return self


def any_inv(ctx):
    n = [0]

    def inv(m, *a, **k):
        n[0] += 1
        s = np.asarray(m).shape
        r = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            r[i] = ctx.real('inv%d[%s]' % (n[0], ','.join(map(str, i))), -5, 5)
        return r if ctx.symbolic else r.astype(float)
    return inv


def coherence(method):
    def h(ctx):
        """whatever the estimated matrices, reconciled forecasts add up along the hierarchy"""
        from pyforecaster.reconciliation import reconciliation as R
        k = ctx.pick('hierarchy', 0, len(HIER) - 1)
        cols = orders(ctx, k)
        AnyCov.n = 0
        n = len(cols)
        y = mk(np.cos(np.arange(4. * n).reshape(4, n)), cols, 4)
        yh = mk(np.sin(np.arange(4. * n).reshape(4, n)), cols, 4)
        m = hr(k, method)
        c = AnyCov(ctx)
        with stub(R, ShrunkCovariance=c, GraphicalLassoCV=c), stub(np.linalg, inv=any_inv(ctx)):
            m.fit_reconciliation(y, yh, HIER[k])
        cols2 = cols if ctx.flag('same order at prediction') else list(reversed(cols))
        v = ctx.reals('yhat', (2, n), -20, 20)
        f = mk(v, cols2)
        r = m.reconcile(f)
        ctx.true(set(r.columns) == set(cols) and len(r.columns) == n and r.index.equals(f.index), 'one reconciled series per series')
        coherent(ctx, r, k, tol=1e-9)
        ctx.eq(f.values, v, 'the forecasts are not modified')
    return h


def known_cov(ctx, cols_of, W, names):
    """estimator which returns the matrix of the columns it is given (recognised by their values)"""
    class C:
        def __init__(self, *a, **k):
            pass

        def fit(self, x):
            x = np.asarray(x, dtype=float)
            ids = []
            for j in range(x.shape[1]):
                hit = [n for n in names if np.allclose(cols_of[n], x[:, j])]
                assert len(hit) == 1, 'errors of an unknown series'
                ids.append(hit[0])
            self.covariance_ = np.array([[W[a, b] for b in ids] for a in ids], dtype=object if ctx.symbolic else float)
            self.precision_ = np.array([[W[a, b] for b in ids] for a in ids], dtype=object if ctx.symbolic else float)
            return self
    return C


def minT(ctx):
    """the reconciled forecasts are the coherent ones closest to the base forecasts in the metric of the error precision"""
    from pyforecaster.reconciliation import reconciliation as R
    method = ctx.choose('method', ['minT', 'dummy'])
    k = ctx.choose('hierarchy', [0, 2])
    cols = orders(ctx, k)
    n = len(cols)
    names = sorted(cols)
    W = {}
    kind = ctx.choose('precision matrix', [0, 1, 2])
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            W[a, b] = ([3. + i, 9. - 1.5 * i, 2.5][kind] if i == j else [0.5, -0.8, 0.9][kind] / (1 + i + j))
    e = {c: np.cos(np.arange(6.) * (1 + names.index(c)) + names.index(c)) for c in cols}
    y = pd.DataFrame({c: np.arange(6.) for c in cols}, index=hours(6))[cols]
    yh = pd.DataFrame({c: np.arange(6.) - e[c] for c in cols}, index=hours(6))[cols]
    m = hr(k, method)
    with stub(R, ShrunkCovariance=known_cov(ctx, e, W, names)):
        m.fit_reconciliation(y, yh, HIER[k])
    if method == 'dummy':
        W = {(a, b): float(a == b) for a in names for b in names}
    v = ctx.reals('yhat', (1, n), -20, 20)
    r = m.reconcile(mk(v, cols, 1))
    d = {c: v[0, i] - r[c].iloc[0] for i, c in enumerate(cols)}
    bot = bottoms(k)
    # normal equations: S' W (base - reconciled) = 0
    for b in bot:
        s = 0
        for c in cols:
            if c == b or b in LEAVES[k].get(c, []):
                s = s + sum(W[c, c2] * d[c2] for c2 in cols)
        ctx.eq(s, 0, 'no coherent forecast is closer to the base forecasts', tol=1e-6)
    # coherent forecasts stay as they are
    z = ctx.reals('z', (1, len(bot)), -20, 20)
    base = {b: z[0, i] for i, b in enumerate(bot)}
    f = mk(arr([[base[c] if c in base else sum(base[b] for b in LEAVES[k][c]) for c in cols]]), cols, 1)
    ctx.eq(m.reconcile(f).values, f.values, 'coherent forecasts are left as they are', tol=1e-6)


def bayes(ctx):
    """gaussian update of the bottom forecasts with the aggregated ones as observations"""
    from pyforecaster.reconciliation import reconciliation as R
    k = ctx.choose('hierarchy', [0, 2])
    cols = orders(ctx, k)
    names = sorted(cols)
    W = {(a, b): (3. + i if i == j else 0.5 / (1 + i + j)) for i, a in enumerate(names) for j, b in enumerate(names)}
    up, bot = list(LEAVES[k]), bottoms(k)
    e = {c: np.cos(np.arange(6.) * (1 + names.index(c)) + names.index(c)) * (2. + names.index(c)) for c in cols}
    y = pd.DataFrame({c: np.arange(6.) for c in cols}, index=hours(6))[cols]
    yh = pd.DataFrame({c: np.arange(6.) - e[c] for c in cols}, index=hours(6))[cols]
    m = hr(k, 'bayes')
    with stub(R, ShrunkCovariance=known_cov(ctx, e, W, names)):
        m.fit_reconciliation(y, yh, HIER[k])
    if len(up) == 1:
        # one aggregation: its error variance (up to the normalisation of the estimate)
        W[up[0], up[0]] = float(np.var(e[up[0]]))
    A = np.array([[float(b in LEAVES[k][u]) for b in bot] for u in up])
    Sb = np.array([[W[a, b] for b in bot] for a in bot])
    Su = np.array([[W[a, b] for b in up] for a in up])
    G = Sb @ A.T @ np.linalg.inv(Su + A @ Sb @ A.T)
    v = ctx.reals('yhat', (1, len(cols)), -20, 20)
    f = mk(v, cols, 1)
    r = m.reconcile(f)
    inno = [f[u].iloc[0] - sum(f[b].iloc[0] for b in LEAVES[k][u]) for u in up]
    for i, b in enumerate(bot):
        ctx.eq(r[b].iloc[0], f[b].iloc[0] + sum(float(G[i, j]) * inno[j] for j in range(len(up))), 'bottom forecast + gain x innovation', tol=1e-6)
    coherent(ctx, r, k, tol=1e-6)


# ------------------------------------------------------------------ whole route
def glob(ctx, k, n, nt, tag, order=None, start='2021-03-01 22:00', sym=False):
    """a data set in global form: n rows per series"""
    idx = hours(n, start=start)
    names = order or (list(HIER[k]) + bottoms(k))
    xs, ys = [], []
    base = {b: np.array([[np.cos(3 * i + j + 7 * q) * (1 + q) + 2 * q for j in range(nt)] for i in range(n)]) for q, b in enumerate(bottoms(k))}
    for s in names:
        v = base[s] if s in base else sum(base[b] for b in LEAVES[k][s])
        xs.append(pd.DataFrame({'rid': np.arange(n) * 1. + 100 * (list(HIER[k]) + bottoms(k)).index(s) + tag, 'name': [s] * n}, index=idx))
        ys.append(pd.DataFrame(v, index=idx, columns=['t%d' % j for j in range(nt)]))
    return pd.concat(xs), pd.concat(ys), idx


class Base:
    """a base forecaster: arbitrary forecasts per row after the training rows, concrete ones for these"""
    log = []
    ctx = None

    def __init__(self, **k):
        self.kw = k

    def fit(self, x, y):
        Base.log.append((x, y))
        self.cols, self.k = y.columns, len(Base.log)
        return self

    def predict(self, x):
        out = []
        for r in Train.rids(x):
            row = []
            for j in range(len(self.cols)):
                if r % 100 >= 50:
                    # m: which model, r: which row
                    row.append(Base.ctx.real('p%d[%d,%d]' % (self.k, r, j), -20, 20))
                else:
                    row.append(float(np.sin(r * (1 + j) + self.k) * (1 + r % 7)))
            out.append(row)
        return pd.DataFrame(arr(out), index=x.index, columns=self.cols)

    def predict_quantiles(self, x, dataframe=True, **k):
        p = self.predict(x)
        d = {(c, q): p[c] + q for c in p.columns for q in (0.1, 0.9)}
        r = pd.DataFrame(d)
        return r if dataframe else r.values.reshape(len(x), len(self.cols), 2)


def fitted(ctx, k, method, nt=2, **kw):
    from pyforecaster.reconciliation import reconciliation as R
    Base.log, Base.ctx = [], ctx
    x, y, idx = glob(ctx, k, 4, nt, 0)
    m = hr(k, method, base_forecaster_class=Base, q_vect=[0.1, 0.9], **kw)
    with quiet(), stub(R, tqdm=no_tqdm):
        m.fit(x.copy(), y.copy())
    return m, x, y, idx


def route(ctx):
    """fit and predict: own data per model, own matrices per step, labels follow the series"""
    from pyforecaster.reconciliation import reconciliation as R
    k = ctx.choose('hierarchy', [0, 2, 3])
    method = ctx.choose('method', ['minT', 'bayes', 'dummy'])
    m, x, y, idx = fitted(ctx, k, method)
    up, bot = list(HIER[k]), bottoms(k)
    for u, (fx, fy) in zip(up, Base.log):
        ids = [i for i in range(len(x)) if x['name'].iloc[i] == u]
        ctx.true(Train.rids(fx) == Train.rids(x.iloc[ids]) and list(fx.columns) == ['rid'] and np.array_equal(fy.values, y.values[ids]), 'each aggregation has a model of its own rows')
    fx, fy = Base.log[-1]
    ids = [i for i in range(len(x)) if x['name'].iloc[i] in bot]
    ctx.true(len(Base.log) == len(up) + 1 and Train.rids(fx) == Train.rids(x.iloc[ids]) and np.array_equal(fy.values, y.values[ids]), 'one model of all bottom series')
    order = ctx.choose('order at prediction', [up + bot, bot[::-1] + up, up[::-1] + bot[1:] + bot[:1]])
    xt, _, ti = glob(ctx, k, 1, 2, 50, order=order, start='2021-04-02 05:00')
    with quiet(), stub(R, tqdm=no_tqdm):
        p = m.predict(xt.copy())
        van = m.predict(xt.copy(), method='vanilla')
        e_h, e_t = m.errs_hat, m.errs_tilde
    ctx.true(p.index.equals(ti) and set(p.columns) == {(s, t) for s in up + bot for t in ('t0', 't1')}, 'labels (series, step)')
    full = {s: 100 * (up + bot).index(s) + 50 for s in up + bot}
    mod = {s: (up.index(s) + 1 if s in up else len(up) + 1) for s in up + bot}
    base = {(s, j): ctx.real('p%d[%d,%d]' % (mod[s], full[s], j), -20, 20) for s in up + bot for j in (0, 1)}
    for (s, j), v in base.items():
        ctx.eq(van[(s, 't%d' % j)].iloc[0], v, 'vanilla forecasts are those of the base models')
    for j in (0, 1):
        coherent(ctx, pd.DataFrame({s: p[(s, 't%d' % j)] for s in up + bot}), k, tol=1e-6)
        # the same as reconciling this step alone
        alone = hr(k, method)
        yj = {s: y.values[[i for i in range(len(x)) if x['name'].iloc[i] == s], j] for s in up + bot}
        hj = {s: yj[s] - e_h[(s, 't%d' % j)].values for s in up + bot}
        pred = {s: [float(np.sin((100 * (up + bot).index(s) + i) * (1 + j) + mod[s]) * (1 + (100 * (up + bot).index(s) + i) % 7)) for i in range(4)] for s in up + bot}
        for s in up + bot:
            ctx.eq(e_h[(s, 't%d' % j)].values, yj[s] - np.array(pred[s]), 'base errors are target minus base forecast', tol=1e-9)
        alone.fit_reconciliation(mk(np.array([yj[s] for s in up + bot]).T, up + bot, 4), mk(np.array([pred[s] for s in up + bot]).T, up + bot, 4), HIER[k])
        ra = alone.reconcile(mk(arr([[base[s, j] for s in up + bot]]), up + bot, 1))
        rt = alone.reconcile(mk(np.array([pred[s] for s in up + bot]).T, up + bot, 4))
        for s in up + bot:
            ctx.eq(p[(s, 't%d' % j)].values, ra[s].values, 'each step is reconciled with the errors of its own step', tol=1e-6)
            ctx.eq(e_t[(s, 't%d' % j)].values, yj[s] - np.asarray(rt[s].values, dtype=float), 'reconciled errors are target minus reconciled forecast', tol=1e-6)


B = '2 rows; 5 hierarchies of 3-6 series in one or two levels, columns in any of three orders'
OBLIGATIONS = [Obligation('coherence_' + m, coherence(m), [P + f for f in ('fit_reconciliation', 'reconcile', 'get_summation_matrix')], B) for m in ('minT', 'bayes', 'dummy')] + [
    Obligation('minT', minT, [P + f for f in ('fit_reconciliation', 'reconcile', 'estimate_covariance')], '2-3 bottom series, 1-2 aggregations, three error precision matrices'),
    Obligation('bayes', bayes, [P + f for f in ('fit_reconciliation', 'reconcile', 'estimate_covariance')], '2-3 bottom series, 1-2 aggregations'),
    Obligation('route', route, [P + f for f in ('fit', 'predict', 'get_predictions', 'get_target_matrix', 'reconcile')], '3 hierarchies, 3 methods, 2 steps, 4 training rows per series'),
]
