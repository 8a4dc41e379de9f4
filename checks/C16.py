from checks.common import *

PRELOAD = ['pyforecaster.metrics']
STUBS = ['pandas groupby.mean / Series.quantile / DataFrame.mean on object columns: their documented definitions']
OUTSIDE = 'more than 3 samples x 2 steps; n_samples == n_steps with per-step aggregation (ambiguous by design); float rounding'


def _xt(ctx, n, m):
    x = frame(ctx.reals('x', (n, m), -50, 50))
    t = frame(ctx.reals('t', (n, m), -50, 50), index=x.index)
    return x, t


def _aggs(ctx, n, m):
    """symbolic aggregation labels: per sample (axis 0), per step (axis 1) or none"""
    kind = ctx.choose('agg', ['none', 'samples', 'steps'])
    if kind == 'none':
        return None, 0, [list(range(n))]
    k = n if kind == 'samples' else m
    lab = [ctx.pick('lab%d' % i, 0, 1) for i in range(k)]
    groups = [[i for i in range(k) if lab[i] == g] for g in sorted(set(lab))]
    return np.array(lab), (0 if kind == 'samples' else 1), groups


def _cells(axis, groups, n, m):
    """list (row-major of the expected result) of lists of cells averaged together"""
    out = []
    for g in groups:
        row = []
        for c in range(m if axis == 0 else n):
            row.append([(i, c) if axis == 0 else (c, i) for i in g])
        out.append(row)
    return out


def _labels_ok(ctx, res, agg, axis, groups, x):
    if agg is not None:
        ctx.eq(arr([float(v) for v in res.index]), arr([float(agg[g[0]]) for g in groups]), 'rows are the aggregation labels')
    cols = x.columns if axis == 0 else x.index
    ctx.true(list(res.columns) == list(cols), 'columns are the steps (or samples)')


def rmse(ctx):
    from pyforecaster import metrics as pm
    n, m = (3, 2)
    x, t = _xt(ctx, n, m)
    agg, axis, groups = _aggs(ctx, n, m)
    res = pm.rmse(x, t, agg_index=agg)
    X, T = x.values, t.values
    exp = arr([[mean((X[c] - T[c]) ** 2 for c in cell) for cell in row] for row in _cells(axis, groups, n, m)])
    sqrt_is(ctx, res.values, exp, 'rmse = root of the mean squared error of each group')
    _labels_ok(ctx, res, agg, axis, groups, x)


def mape(ctx):
    from pyforecaster import metrics as pm
    n, m = (3, 2)
    x, t = _xt(ctx, n, m)
    agg, axis, groups = _aggs(ctx, n, m)
    res = pm.mape(x, t, agg_index=agg)
    X, T = x.values, t.values
    exp = arr([[mean(abs((X[c] - T[c]) / (abs(T[c]) + 1e-5)) for c in cell) for cell in row] for row in _cells(axis, groups, n, m)])
    ctx.eq(res.values, exp, 'mape = mean absolute error relative to the target')
    ctx.le(0, res.values, 'mape is non negative')
    _labels_ok(ctx, res, agg, axis, groups, x)


def nmae(ctx):
    from pyforecaster import metrics as pm
    n, m = (3, 2)
    x, t = _xt(ctx, n, m)
    agg, axis, groups = _aggs(ctx, n, m)
    inter = ctx.flag('inter_normalization')
    res = pm.nmae(x, t, agg_index=agg, inter_normalization=inter)
    X, T = x.values, t.values
    norm = [mean(abs(T[i, j]) for j in range(m)) for i in range(n)]
    off = quantile(norm, 0.5) * 0.01 + 1e-12 if inter else 1e-12
    exp = arr([[mean(abs((X[c] - T[c]) / (norm[c[0]] + off)) for c in cell) for cell in row] for row in _cells(axis, groups, n, m)])
    ctx.eq(res.values, exp, 'nmae = mean absolute error relative to the sample mean absolute target')
    _labels_ok(ctx, res, agg, axis, groups, x)


def errs(ctx):
    from pyforecaster import metrics as pm
    x, t = _xt(ctx, 2, 2)
    ctx.eq(pm.err(x, t), x.values - t.values, 'err')
    ctx.eq(pm.squerr(x, t), (x.values - t.values) ** 2, 'squerr')


def perfect(ctx):
    """zero exactly when the forecast is perfect"""
    from pyforecaster import metrics as pm
    x, t = _xt(ctx, 2, 2)
    for i in np.ndindex(2, 2):
        ctx.assume(t.values[i] > 1)
    name = ctx.choose('metric', ['rmse', 'mape', 'nmae'])
    r = getattr(pm, name)(t.copy(), t.copy())
    ctx.eq(r.values, np.zeros((1, 2)), 'perfect forecast scores zero')
    ctx.assume(abs(x.values[1, 0] - t.values[1, 0]) > 1)
    r = getattr(pm, name)(x, t)
    ctx.le(1e-4, r.values[0, 0], 'a wrong forecast scores more than zero')


def summary(ctx):
    """summary_score aligns arrays and frames; summary_scores = one block per aggregation variable, mask excludes cells"""
    from pyforecaster import metrics as pm
    n, m = 3, 2
    x, t = _xt(ctx, n, m)
    form = ctx.choose('form', ['df-df', 'df-np', 'np-df', 'renamed'])
    exp = arr([[mean(abs((x.values[i, j] - t.values[i, j]) / (abs(t.values[i, j]) + 1e-5)) for i in g) for j in range(m)]
               for g in ([0, 2], [1])])
    xx, tt = x.copy(), t.copy()
    if form == 'df-np':
        tt = t.values
    elif form == 'np-df':
        xx = x.values
    elif form == 'renamed':
        xx.columns = ['a', 'b']
    r = pm.summary_score(xx, tt, score=pm.mape, agg_index=np.array([0, 1, 0]))
    ctx.eq(r.values, exp, 'summary_score scores x against t')


def at(table, key, lab):
    """row of an aggregation label: the label itself or the interval of values that holds it"""
    for k, row in zip(table.index, table.values):
        if k[0] == key and (lab in k[1] if isinstance(k[1], pd.Interval) else k[1] == lab):
            return row
    raise KeyError((key, lab))


def summary_many(ctx):
    from pyforecaster import metrics as pm
    n, m = 3, 2
    x, t = _xt(ctx, n, m)
    # as many samples masked out as the solver likes, but never a whole group
    mask = [[True] * m for _ in range(n)]
    which = ctx.choose('masked', [None, (0, 0), (2, 1), (1, 0)])
    if which is not None and which[0] != 1:
        mask[which[0]][which[1]] = False
    mdf = pd.DataFrame(np.array(mask), index=x.index, columns=x.columns) if which is not None else None
    # labels of any type; continuous variables with enough values are grouped by quantiles
    idxs = pd.DataFrame({'h': [0, 1, 0], 'w': [5, 5, 7]}, index=x.index)
    rows = [('h', 0, [0, 2]), ('h', 1, [1]), ('w', 5, [0, 1]), ('w', 7, [2])]
    kind = ctx.choose('labels', ['int64', 'int32', 'int16', 'text', 'few values'])
    if kind in ('int32', 'int16'):
        idxs['h'] = idxs['h'].astype(kind)
    elif kind == 'text':
        idxs['h'] = ['p', 'q', 'p']
        rows[:2] = [('h', 'p', [0, 2]), ('h', 'q', [1])]
    elif kind == 'few values':
        idxs['h'] = [.5, 1.5, .5]
        rows[:2] = [('h', .5, [0, 2]), ('h', 1.5, [1])]
    many = ctx.pick('continuous variables', 0, 2)
    if many:
        idxs['f'] = [.1, .9, .2]
        rows += [('f', .15, [0, 2]), ('f', .5, [1])]
    if many == 2:
        idxs['g'] = [.9, .1, .8]
        rows += [('g', .5, [1, 2]), ('g', .85, [0])]
    before, labels = idxs.copy(deep=True), [list(x.columns), ['first', 'second']]
    t.columns = labels[1]
    res = pm.summary_scores(x, t, [pm.mape, pm.rmse], idxs, mask=mdf, n_quantiles=3 if kind == 'few values' else 2)
    ctx.true(idxs.equals(before) and [list(x.columns), list(t.columns)] == labels, 'tables of the caller are not modified')
    if kind == 'few values' and 'f' in idxs:
        rows = [r for r in rows if r[0] not in 'fg'] + [('f', .1, [0]), ('f', .9, [1]), ('f', .2, [2])] + ([('g', .9, [0]), ('g', .1, [1]), ('g', .8, [2])] if many == 2 else [])
    ctx.true(set(res) == {'mape', 'rmse'}, 'one table per metric')
    X, T = x.values, t.values
    for key, lab, g in rows:
        for j in range(m):
            sel = [i for i in g if mask[i][j]]
            if not sel:
                continue
            got = at(res['mape'], key, lab)[j]
            ctx.eq(got, mean(abs((X[i, j] - T[i, j]) / (abs(T[i, j]) + 1e-5)) for i in sel), 'mape table over unmasked cells')
            sqrt_is(ctx, at(res['rmse'], key, lab)[j], mean((X[i, j] - T[i, j]) ** 2 for i in sel), 'rmse table over unmasked cells')
    ctx.eq(len(res['mape']), len(rows), 'a row per label of each aggregation variable')


class _Est:
    def __init__(self, y_hat, q_hat=None, q_vect=None, seen=None):
        self.y_hat, self.q_hat, self.seen = y_hat, q_hat, seen
        if q_vect is not None:
            self.q_vect = q_vect

    def predict(self, X):
        self.seen.append(X)
        return self.y_hat

    def predict_quantiles(self, X, **k):
        self.seen.append(X)
        return self.q_hat


def scorer(ctx):
    """make_scorer(metric)(estimator, X, y) is the plain mean of the metric of that estimator's own forecasts"""
    from pyforecaster import metrics as pm
    n, m = 3, 2
    x, t = _xt(ctx, n, m)
    X = pd.DataFrame({'f': np.arange(n) * 1.}, index=x.index)
    seen = []
    as_df = ctx.flag('as_df')
    est = _Est(x.copy() if as_df else x.values, seen=seen)
    s = pm.make_scorer(pm.mape)(est, X, t)
    ctx.true(len(seen) == 1 and seen[0].equals(X), 'the estimator is asked on X')
    ctx.eq(s, mean(abs((x.values[i] - t.values[i]) / (abs(t.values[i]) + 1e-5)) for i in np.ndindex(n, m)), 'score = mean over samples and steps')
    # quantile metric
    q = ctx.reals('q', (n, m, 2), -50, 50)
    for i in range(1, n):       # keep the number of forks small: one free sample is enough for the plumbing
        for j in range(m):
            for a in range(2):
                ctx.assume(q[i, j, a] > t.values[i, j])
    est = _Est(None, q, np.array([0.2, 0.7]), [])
    s = pm.make_scorer(pm.crps)(est, X, t)
    exp = mean(((1 if bool(q[i, j, a] > t.values[i, j]) else 0) - al) * (q[i, j, a] - t.values[i, j])
               for i in range(n) for j in range(m) for a, al in enumerate([0.2, 0.7]))
    ctx.eq(s, exp, 'quantile metrics are scored on the predicted quantiles with the estimator levels')


M = 'pyforecaster.metrics.'
B = '3 samples x 2 steps, values in [-50,50], all 0/1 aggregation labels over samples or steps, or none'
OBLIGATIONS = [
    Obligation('rmse', rmse, [M + 'rmse', M + 'squerr', M + 'err', M + 'chose_axis'], B),
    Obligation('mape', mape, [M + 'mape', M + 'err', M + 'chose_axis'], B),
    Obligation('nmae', nmae, [M + 'nmae', M + 'err', M + 'chose_axis'], B + ', inter_normalization on/off'),
    Obligation('errs', errs, [M + 'err', M + 'squerr'], '2x2'),
    Obligation('perfect', perfect, [M + 'rmse', M + 'mape', M + 'nmae'], '2x2, targets > 1'),
    Obligation('summary', summary, [M + 'summary_score', M + 'mape'], '3x2; frame/array combinations'),
    Obligation('summary_many', summary_many, [M + 'summary_scores', M + 'summary_score'], '3x2; two aggregation variables; one masked cell'),
    Obligation('scorer', scorer, [M + 'make_scorer', M + 'crps', M + 'quantile_scores', M + 'mape'], '3x2, 2 quantile levels'),
]
