from checks.common import *
from checks import C14
from checks.C14 import HIER, LEAVES, bottoms, hr, coherent, mk, glob, Base, fitted

PRELOAD = C14.PRELOAD
STUBS = ['base forecasters: arbitrary functions of the row', 'DataFrame.sample / numpy.random.choice: any rows with replacement', 'metric of compute_kpis: one that records its arguments']
OUTSIDE = 'more than 6 series, 2 steps ahead, 2 training rows per hour, 2 scenarios; hours without training errors; hierarchies where a series has two parents or the root has a single child'
P = 'pyforecaster.reconciliation.reconciliation.HierarchicalReconciliation.'


def forest(ctx, n):
    """any tree: parent of node i is one of the earlier nodes; names and key order are free"""
    par = [None] + [ctx.pick('parent of %d' % i, 0, i - 1) for i in range(1, n)]
    names = ctx.choose('names', [['n%d' % i for i in range(n)], [('s_%d' % i if any(p == i for p in par) else i) for i in range(n)], ['z%d' % (n - i) for i in range(n)]])
    kids = {i: [j for j in range(n) if par[j] == i] for i in range(n)}
    inner = [i for i in range(n) if kids[i]]
    inner = ctx.choose('order of the keys', [inner, inner[::-1], inner[1:] + inner[:1]])
    if ctx.flag('children listed backwards'):
        kids = {i: v[::-1] for i, v in kids.items()}
    h = {names[i]: [names[j] for j in kids[i]] for i in inner}

    def leaves(i):
        return [i] if not kids[i] else [l for j in kids[i] for l in leaves(j)]
    depth = [0] * n
    for i in range(1, n):
        depth[i] = depth[par[i]] + 1
    return h, names, inner, [i for i in range(n) if not kids[i]], leaves, depth


def structure(n):
    def h(ctx):
        """flattened hierarchy, summation matrix and levels of every tree"""
        from pyforecaster.reconciliation import reconciliation as R
        hi, names, inner, lv, leaves, depth = forest(ctx, n)
        flat = R.HierarchicalReconciliation.unroll_dict(hi)
        ctx.true(set(flat) == set(hi) and all(sorted(map(str, flat[names[i]])) == sorted(str(names[j]) for j in leaves(i)) for i in inner), 'leaves below each aggregation')
        m = R.HierarchicalReconciliation(hi, method='dummy')
        cols = [names[i] for i in inner] + [names[j] for j in lv]
        cols = ctx.choose('order of the series', [cols, cols[::-1]])
        z = ctx.reals('z', (len(lv),), -20, 20)
        val = {names[j]: z[q] for q, j in enumerate(lv)}
        full = {names[i]: (sum(val[names[l]] for l in leaves(i)) if i in inner else val[names[i]]) for i in range(n)}
        f = mk(arr([[full[c] for c in cols]]), cols, 1)
        e = mk(np.cos(np.arange(3. * n).reshape(3, n)), cols, 3)
        m.fit_reconciliation(e, e * 0, hi)
        ctx.eq(m.reconcile(f).values, f.values, 'coherent forecasts are left as they are', tol=1e-6)
        b = ctx.reals('b', (1, n), -20, 20)
        r = m.reconcile(mk(b, cols, 1))
        for i in inner:
            ctx.eq(r[names[i]].iloc[0], sum(r[names[l]].iloc[0] for l in leaves(i)), 'every aggregation is the sum of its leaves', tol=1e-6)
        # level of each series = its distance from the root
        L = m.get_hierarchy_levels()
        if len(leaves(0)) > max([len(leaves(i)) for i in inner if i] + [0]):
            ctx.true(L['level'].to_dict() == {names[i]: depth[i] for i in range(n)}, 'level of each series')
    return h


def fit_sym(ctx, k, nt, hrs, method='dummy', **kw):
    """fitted on symbolic targets (training predictions stay concrete)"""
    from pyforecaster.reconciliation import reconciliation as R
    Base.log, Base.ctx = [], ctx
    up, bot = list(HIER[k]), bottoms(k)
    n = len(hrs)
    idx = pd.DatetimeIndex(['2021-03-%02d %02d:00' % (1 + i, h) for i, h in enumerate(hrs)])
    xs, ys, tgt = [], [], {}
    for b in bot:
        tgt[b] = ctx.reals('y_%s' % b, (n, nt), -9, 9)
    inc = ctx.flag('targets add up')
    for s in up:
        tgt[s] = sum(tgt[b] for b in LEAVES[k][s]) if inc else ctx.reals('y_%s' % s, (n, nt), -9, 9)
    for s in up + bot:
        xs.append(pd.DataFrame({'rid': np.arange(n) * 1. + 100 * (up + bot).index(s), 'name': [s] * n}, index=idx))
        ys.append(pd.DataFrame(tgt[s], index=idx, columns=['t%d' % j for j in range(nt)]))
    m = hr(k, method, base_forecaster_class=Base, **kw)
    with quiet(), stub(R, tqdm=no_tqdm):
        m.fit(pd.concat(xs), pd.concat(ys))
    return m, tgt, idx, inc


class Draw:
    """any rows, with replacement"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def rows(self, n, size):
        r = []
        for _ in range(size):
            r.append(self.ctx.pick('drawn row %d' % self.n, 0, n - 1))
            self.n += 1
        return r

    def __enter__(self):
        d = self
        ochoice = np.random.choice

        def sample(df, n=None, frac=None, replace=False, *a, **k):
            n = 1 if n is None else n
            if not replace and n > len(df):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            return df.iloc[d.rows(len(df), n)]

        def choice(a, size=None, replace=True, p=None):
            v = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            r = v[d.rows(len(v), int(np.prod(size)) if size is not None else 1)]
            return r[0] if size is None else r.reshape(size)
        self.st = [stub(pd.DataFrame, sample=sample), stub(np.random, choice=choice, randint=lambda lo, hi=None, size=None, **k: choice(np.arange(lo if hi is None else hi - lo), size) + (0 if hi is None else lo))]
        for s in self.st:
            s.__enter__()
        return self

    def __exit__(self, *a):
        for s in self.st:
            s.__exit__(*a)


def scenarios(method, k, rows, nscen):
    def h(ctx):
        """scenario = forecast + the errors which one training row of the same hour has in all series and steps"""
        from pyforecaster.reconciliation import reconciliation as R
        nt = 2
        hrs = [5, 22, 5, 22] if rows > 1 else [22, 5, 5]
        m, tgt, idx, inc = fit_sym(ctx, k, nt, hrs, n_scenarios=nscen)
        up, bot = list(HIER[k]), bottoms(k)
        xs = []
        ti = pd.DatetimeIndex(['2021-05-0%d %02d:00' % (1 + i, h) for i, h in enumerate([5, 22, 5][:rows])])
        for s in up + bot:
            xs.append(pd.DataFrame({'rid': np.arange(rows) * 1. + 100 * (up + bot).index(s) + 50, 'name': [s] * rows}, index=ti))
        xt = pd.concat(xs)
        with quiet(), stub(R, tqdm=no_tqdm):
            f = m.predict(xt.copy(), method=method)
        with Draw(ctx) as d, quiet(), stub(R, tqdm=no_tqdm):
            sc = m.predict_scenarios(xt.copy(), method=method)
        ctx.true(d.n > 0, 'rows are drawn')
        ctx.reach('scenarios')
        labels = {(s, c, 't%d' % j) for s in up + bot for j in range(nt) for c in range(nscen)}
        ctx.true(sc.index.equals(ti) and len(sc.columns) == len(labels), 'one row per row, one column per series, step and scenario')
        get = {tuple(c): sc.iloc[:, i] for i, c in enumerate(sc.columns)}
        if not labels == set(get):
            get = {(c[1], c[0], c[2]) if (c[1], c[0], c[2]) in labels else c: v for c, v in get.items()}
        ctx.true(labels == set(get), 'labels of the scenarios')
        errs = m.errs_hat if method == 'vanilla' else m.errs_tilde
        for i in range(rows):
            same = [q for q in range(len(idx)) if idx[q].hour == ti[i].hour]
            for c in range(nscen):
                ctx.true(disj([conj([near(get[s, c, 't%d' % j].iloc[i] - f[(s, 't%d' % j)].iloc[i], errs[(s, 't%d' % j)].iloc[q]) for s in up + bot for j in range(nt)]) for q in same]),
                         'the errors of one training row of the same hour, in all series and steps')
                if inc and method == 'reconciled':
                    for u, lv in LEAVES[k].items():
                        for j in range(nt):
                            ctx.eq(get[u, c, 't%d' % j].iloc[i], sum(get[b, c, 't%d' % j].iloc[i] for b in lv), 'scenarios add up', tol=1e-6)
        # errors which are added are those of the kind of forecast
        for (s, t) in [(s, j) for s in up + bot for j in range(nt)]:
            if method == 'vanilla':
                ids = 100 * (up + bot).index(s)
                mod = up.index(s) + 1 if s in up else len(up) + 1
                pred = np.array([np.sin((ids + q) * (1 + t) + mod) * (1 + (ids + q) % 7) for q in range(len(idx))])
                ctx.eq(errs[(s, 't%d' % t)].values, tgt[s][:, t] - pred, 'errors of the base forecasts', tol=1e-6)
    return h


def error_scenarios(ctx):
    """scenarios from past errors: forecast plus the whole error row of one training time of the same hour"""
    m = hr(0, 'dummy')
    tr = pd.DatetimeIndex(['2021-03-01 05:00', '2021-03-01 07:00', '2021-03-02 05:00', '2021-03-03 09:00'])
    te = pd.DatetimeIndex(['2021-04-01 05:00', '2021-04-01 07:00', '2021-04-02 05:00'])[ctx.choose('order', [[0, 1, 2], [2, 1, 0]])]
    e = frame(ctx.reals('e', (4, 2), -9, 9), index=tr, columns=['p', 'q'])
    y = frame(ctx.reals('y', (3, 2), -9, 9), index=te, columns=['p', 'q'])
    with Draw(ctx):
        s = m.get_scenarios(e, y, 2)
    ctx.true(np.shape(s) == (3, 2, 2), 'row, column, scenario')
    rows = {5: [0, 2], 7: [1]}
    for r in range(3):
        for k in range(2):
            ctx.true(disj([conj([absv(s[r, c, k] - y.values[r, c] - e.values[i, c]) <= 1e-6 for c in range(2)]) for i in rows[te[r].hour]]), 'forecast plus an error row of its hour')


def quantiles(ctx):
    """quantiles of a series and step are those of its scenarios; vanilla ones are those of the base model of the series"""
    from pyforecaster.reconciliation import reconciliation as R
    k = ctx.choose('hierarchy', [0, 3])
    method = ctx.choose('method', ['vanilla', 'reconciled'])
    up, bot = list(HIER[k]), bottoms(k)
    ids = {s: 100 * (up + bot).index(s) + 50 for s in up + bot}
    m, tgt, idx, inc = fit_sym(ctx, k, 2, [5, 22], n_scenarios=2, q_vect=[0.1, 0.9])
    ti = pd.DatetimeIndex(['2021-05-01 05:00', '2021-05-02 22:00'])
    xt = pd.concat([pd.DataFrame({'rid': np.arange(2) * 1. + ids[s], 'name': [s] * 2}, index=ti) for s in up + bot])
    if method == 'vanilla':
        with quiet(), stub(R, tqdm=no_tqdm):
            q = m.predict_quantiles(xt.copy(), method='vanilla')
            f = m.predict(xt.copy(), method='vanilla')
        ctx.true(set(q.columns) == {(s, t, a) for s in up + bot for t in ('t0', 't1') for a in (.1, .9)} and q.index.equals(ti), 'labels (series, step, level)')
        for s, t, a in q.columns:
            ctx.eq(q[(s, t, a)].values, f[(s, t)].values + a, 'quantiles of the series\' own base model')
        return
    names = [(s, c, t) for s in up + bot for c in range(2) for t in ('t0', 't1')]
    v = ctx.reals('scenario', (2, len(names)), -20, 20)
    # one series and step at a time is free to lie anywhere
    free = ctx.pick('free series and step', 0, 2 * len(up + bot) - 1)
    for i, (s, c, t) in enumerate(names):
        if (up + bot).index(s) * 2 + int(t[1]) != free:
            v[:, i] = [(-1) ** c * (3. + i), 2. * i - c]
    sc = pd.DataFrame(v, index=ti, columns=pd.MultiIndex.from_tuples(names, names=['series', 'scenario', 'step'])).sort_index(axis=1)
    with quiet(), stub(R.HierarchicalReconciliation, predict_scenarios=lambda self, *a, **k: sc):
        q = m.predict_quantiles(xt.copy())
    ctx.true(set(q.columns) == {(s, t, a) for s in up + bot for t in ('t0', 't1') for a in (.1, .9)} and q.index.equals(ti), 'labels (series, step, level)')
    for s, t, a in q.columns:
        for i in range(2):
            ctx.eq(q[(s, t, a)].iloc[i], quantile([v[i, names.index((s, c, t))] for c in range(2)], a), 'quantiles of the scenarios of the series and step')


def kpis(ctx):
    """metrics are given each series with its own target of the same step, and averaged over the series of a level"""
    from pyforecaster.reconciliation import reconciliation as R
    k = ctx.choose('hierarchy', [0, 2, 3, 4])
    up, bot = list(HIER[k]), bottoms(k)
    m, x, y, idx = fitted(ctx, k, 'dummy')
    kind = ctx.choose('forecast', ['points', 'quantiles'])
    cols = [(s, t) for s in up + bot for t in ('t0', 't1')] if kind == 'points' else [(s, t, a) for s in up + bot for t in ('t0', 't1') for a in (.1, .9)]
    v = ctx.reals('hat', (2, len(cols)), -20, 20)
    hat = pd.DataFrame(np.vstack([v, np.ones((2, len(cols)))]), index=idx, columns=pd.MultiIndex.from_tuples(cols))
    if ctx.flag('sorted'):
        # orders in which the library itself returns forecasts and quantiles
        hat = hat[sorted(hat.columns, key=str)]
    yt = {(s, 't%d' % j): y.values[[i for i in range(len(x)) if x['name'].iloc[i] == s], j] for s in up + bot for j in (0, 1)}
    calls = []

    def metric(yh, yy, **kw):
        calls.append((yh, yy))
        a = np.asarray(yh.values if hasattr(yh, 'values') else yh, dtype=object)
        if a.ndim == 2:
            val = [sum((a[:, c] - yy.values[:, c])) for c in range(yy.shape[1])]
        else:
            val = [sum((a[:, c, 0] - yy.values[:, c])) + 3 * sum(a[:, c, 1]) for c in range(yy.shape[1])]
        return pd.DataFrame(arr([val]), columns=yy.columns)
    out = m.compute_kpis(hat, x, y, metric)
    depth = {s: sum(s == u or s in LEAVES[k][u] or s in HIER[k][u] for u in up if u != s) for s in up + bot}
    ctx.true(m.get_hierarchy_levels()['level'].to_dict() == depth, 'level of each series')
    for lev in sorted(set(depth.values())):
        mem = [s for s in up + bot if depth[s] == lev]
        for t in ('t0', 't1'):
            if kind == 'points':
                val = [sum(hat[(s, t)].values - yt[s, t]) for s in mem]
            else:
                val = [sum(hat[(s, t, .1)].values - yt[s, t]) + 3 * sum(hat[(s, t, .9)].values) for s in mem]
            ctx.eq(out.loc[lev, t], mean(val), 'average over the level of the metric of each series against its own target', tol=1e-6)


S = [P + f for f in ('unroll_dict', 'unroll_subdict', 'get_summation_matrix', 'get_hierarchy_levels', 'explore_hierarchy')]
SC = [P + f for f in ('predict_scenarios', 'fit', 'reconcile', 'get_predictions')]
OBLIGATIONS = [
    Obligation('structure_4', structure(4), S, 'every tree of 4 series, 3 namings, key, child and column orders'),
    Obligation('structure_5', structure(5), S, 'every tree of 5 series', timeout=400),
    Obligation('structure_6', structure(6), S, 'every tree of 6 series', tiers=('thorough',), thorough_timeout=2000, max_paths=100000),
    Obligation('scenarios', scenarios('reconciled', 0, 2, 2), SC, '1 aggregation, 2 series, 2 steps, 2 rows, 2 scenarios, 2 training rows per hour, any draw'),
    Obligation('scenarios_vanilla', scenarios('vanilla', 0, 2, 1), SC, '1 aggregation, 2 series, 2 steps, 2 rows, 1 scenario'),
    Obligation('scenarios_two', scenarios('reconciled', 2, 2, 1), SC, '2 aggregations, 3 series, 2 steps, 2 rows'),
    Obligation('scenarios_3rows', scenarios('reconciled', 0, 3, 1), SC, '1 aggregation, 2 series, 3 rows out of 2 hours'),
    Obligation('error_scenarios', error_scenarios, [P + 'get_scenarios'], '3 rows out of 2 hours, 2 columns, 2 scenarios, any draw'),
    Obligation('quantiles', quantiles, [P + 'predict_quantiles', P + 'get_quantiles'], '2 hierarchies, 2 scenarios, 2 levels, one free series and step'),
    Obligation('kpis', kpis, [P + 'compute_kpis', P + 'get_target_matrix', P + 'get_hierarchy_levels'], '4 hierarchies, 2 steps, 4 rows'),
]
