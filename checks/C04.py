from checks.common import *

PRELOAD = ['pyforecaster.formatter']
STUBS = ['pandas rolling windows: row positions recorded from the real rolling, statistics from their definition']
OUTSIDE = 'normalising expressions other than the affine ones listed; more than 8 rows; float rounding'
F = 'pyforecaster.formatter.Formatter.'
EXPR = [("(df[t] - df['m']) / (df['s'] + 100)", "df[t] * (df['s'] + 100) + df['m']", lambda v, m, s: (v - m) / (s + 100), lambda v, m, s: v * (s + 100) + m),
        ("df[t] * 2 - df['m'] + df['s']", "(df[t] + df['m'] - df['s']) / 2", lambda v, m, s: v * 2 - m + s, lambda v, m, s: (v + m - s) / 2)]


def _x(ctx, n):
    return frame(ctx.reals('x', (n, 3), -50, 50), columns=['a', 'b', 'c'])


def _make(ctx, augment, b_target, late=False):
    import pyforecaster.formatter as pf
    f = pf.Formatter(augment=augment, n_parallel=1)
    f.logger.disabled = True
    f.add_transform(['a', 'b'], lags=[1, 2])
    f.add_transform(['b'], ['mean'], agg_freq='2h')
    f.add_target_transform(['a', 'b'] if b_target else ['a'], lags=[-1, -2])
    f.add_target_normalizer(['a'], 'mean', agg_freq='2h', name='m')
    f.add_target_normalizer(['a'], 'max', agg_freq='3h', name='s')
    return f


def _norms(x):
    a = x['a'].values
    n = len(a)
    m = [None if i < 1 else (a[i] + a[i - 1]) / 2 for i in range(n)]
    s = [None if i < 2 else smax(smax(a[i], a[i - 1]), a[i - 2]) for i in range(n)]
    return m, s


def _spec(x, k, f, norms=None):
    """expected normalised frame columns per row"""
    a, b = x['a'].values, x['b'].values
    n = len(x)
    m, s = norms or _norms(x)
    g = (lambda v, i: k(v, m[i], s[i])) if k else (lambda v, i: v)
    feat = {}
    for l in (1, 2):
        feat['a_lag_%03d' % l] = [g(a[i - l], i) if i >= 2 else None for i in range(n)]
        feat['b_lag_%03d' % l] = [b[i - l] if i >= l else None for i in range(n)]
    feat['b_2h_mean'] = [(b[i] + b[i - 1]) / 2 if i >= 1 else None for i in range(n)]
    feat['m'], feat['s'] = m, s
    targ = {}
    for h in (1, 2):
        targ['a_lag_%04d' % -h] = [g(a[i + h], i) if i >= 2 and i + h < n else None for i in range(n)]
        targ['b_lag_%04d' % -h] = [b[i + h] if i + h < n else None for i in range(n)]
    return feat, targ


def scope(ctx):
    """the transform normalises the target and the features of the normalised variable with the row's own normalisers, nothing else"""
    n = 7
    x = _x(ctx, n)
    augment, bt = ctx.flag('augment'), ctx.flag('b_target')
    f = _make(ctx, augment, bt)
    e = ctx.choose('expr', [None] + EXPR)
    if e is not None:
        f.add_normalizing_fun(expr=e[0], inv_expr=e[1])
    before = x.copy()
    xt, yt = f.transform(x, time_features=False)
    xp, _ = f.transform(x, time_features=False, return_target=False)
    keep = [i for i in range(n) if i >= 2 and i + 2 < n]
    kp = [i for i in range(n) if i >= 2]
    ctx.true(list(xp.index) == [x.index[i] for i in kp], 'prediction rows')
    m, s = _norms(x)
    ctx.eq(xp['m'].values, arr([m[i] for i in kp]), 'normaliser of the row')
    ctx.eq(xp['s'].values, arr([s[i] for i in kp]), 'normaliser of the row')
    feat, targ = _spec(x, e[2] if e else None, f, ([None, None] + list(xp['m'].values), [None, None] + list(xp['s'].values)))
    ctx.true(list(xt.index) == [x.index[i] for i in keep] and list(yt.index) == list(xt.index), 'rows')
    for c in yt.columns:
        ctx.eq(yt[c].values, arr([targ[c][i] for i in keep]), 'target column: normalised iff it derives from the normalised variable')
    ctx.true(list(yt.columns) == [c for c in ('a_lag_-001', 'a_lag_-002', 'b_lag_-001', 'b_lag_-002') if bt or c[0] == 'a'], 'target columns')
    for c in feat:
        ctx.true(c in xt.columns, 'feature columns kept')
        ctx.eq(xt[c].values, arr([feat[c][i] for i in keep]), 'feature column: normalised iff it derives from the normalised variable')
    if augment:
        ctx.eq(xt[['a', 'b', 'c']].values, before.values[keep], 'the original variables are not normalised')
    ctx.eq(x.values, before.values, 'the input is not modified')
    for c in feat:
        ctx.eq(xp[c].values, arr([feat[c][i] for i in kp]), 'the same features at prediction time')


def roundtrip(ctx):
    """denormalising normalised targets gives the raw targets; inputs are left alone"""
    n = 7
    x = _x(ctx, n)
    e = ctx.choose('expr', EXPR)
    bt = ctx.flag('b_target')
    f = _make(ctx, True, bt)
    raw = _make(ctx, True, bt).transform(x, time_features=False)[1]
    f.add_normalizing_fun(expr=e[0], inv_expr=e[1])
    xt, yt = f.transform(x, time_features=False)
    xb, yb = xt.copy(), yt.copy()
    y = f.denormalize(xt, yt)
    ctx.true(list(y.index) == list(raw.index) and list(y.columns) == list(raw.columns), 'labels of the restored targets')
    ctx.eq(y.values, raw.values, 'denormalising restores the targets')
    ctx.eq(xt.values, xb.values, 'features are not modified by denormalising')
    ctx.eq(yt.values, yb.values, 'predictions are not modified by denormalising')


def predictions(ctx):
    """arbitrary forecasts (plain or quantile tables) are mapped back row by row with that row's normalisers"""
    n = 7
    x = _x(ctx, n)
    e = ctx.choose('expr', EXPR)
    f = _make(ctx, True, False)
    f.add_normalizing_fun(expr=e[0], inv_expr=e[1])
    xt, yt = f.transform(x, time_features=False)
    rows = [2, 3, 4]
    m, s = [None, None] + list(xt['m'].values), [None, None] + list(xt['s'].values)
    q = ctx.flag('quantiles')
    if q:
        cols = pd.MultiIndex.from_product([list(yt.columns), [0.1, 0.9]])
        if ctx.flag('level_major'):
            cols = pd.MultiIndex.from_tuples([(c, t) for t in (0.1, 0.9) for c in yt.columns])
    else:
        cols = yt.columns
    p = pd.DataFrame(ctx.reals('p', (len(rows), len(cols)), -50, 50), index=xt.index, columns=cols)
    pb, xb = p.copy(), xt.copy()
    y = f.denormalize(xt, p)
    ctx.true(list(y.index) == list(p.index) and list(y.columns) == list(cols), 'labels of the forecast')
    ctx.eq(y.values, arr([[e[3](pb.values[r, c], m[i], s[i]) for c in range(len(cols))] for r, i in enumerate(rows)]),
           'each forecast is mapped back with the normalisers of its own row')
    ctx.eq(p.values, pb.values, 'the caller keeps its forecast')
    ctx.eq(xt.values, xb.values, 'the caller keeps its features')


def stacked(ctx):
    """rows of several signals stacked in one table (times repeat) or in another order: still each row with its own normalisers"""
    n = 7
    x = _x(ctx, n)
    e = ctx.choose('expr', EXPR)
    f = _make(ctx, True, False)
    f.add_normalizing_fun(expr=e[0], inv_expr=e[1])
    xt, yt = f.transform(x, time_features=False)
    form = ctx.choose('form', ['stacked', 'reversed', 'repeated'])
    if form == 'stacked':
        x2 = xt.copy()
        x2['m'], x2['s'] = ctx.reals('m2', len(xt), -50, 50), ctx.reals('s2', len(xt), -50, 50)
        xs = pd.concat([xt, x2])
    elif form == 'reversed':
        xs = xt.iloc[::-1]
    else:
        xs = xt.iloc[[0, 0, 2]]
    p = pd.DataFrame(ctx.reals('p', (len(xs), len(yt.columns)), -50, 50), index=xs.index, columns=yt.columns)
    pb, m, s = p.values.copy(), list(xs['m'].values), list(xs['s'].values)
    y = f.denormalize(xs, p)
    ctx.true(list(y.index) == list(xs.index) and list(y.columns) == list(yt.columns), 'labels of the forecast')
    ctx.eq(y.values, arr([[e[3](pb[r, c], m[r], s[r]) for c in range(pb.shape[1])] for r in range(len(xs))]), 'each row with its own normalisers')


B = '7 rows, 3 variables, two normalisers (mean and maximum of the recent past), two affine expressions, values in [-50,50]'
OBLIGATIONS = [
    Obligation('scope', scope, [F + k for k in ('transform', '_transform', 'normalize', 'normalize_target_inner', 'normalizing_wrapper', 'add_normalizing_columns')], B),
    Obligation('roundtrip', roundtrip, [F + k for k in ('denormalize', 'normalize', 'normalize_target_inner')], B),
    Obligation('predictions', predictions, [F + k for k in ('denormalize', 'normalize', 'normalize_target_inner')], B + ', 2 levels'),
    Obligation('stacked', stacked, [F + k for k in ('denormalize', 'normalize', 'normalize_target_inner')], B + '; features stacked with a second signal at the same times, reversed, or with repeated rows'),
]
