from checks.common import *
from checks.C01 import _binned

PRELOAD = ['pyforecaster.formatter']
STUBS = ['pandas rolling windows: row positions recorded from the real rolling, statistics from their definition']
OUTSIDE = 'the list of holidays of a country; correlation reordering and memory reduction of the global form (reduction is a property of its own); irregular indexes; more than 9 rows'
F = 'pyforecaster.formatter.Formatter.'


def _x(ctx, n, tz, cols=('a', 'b', 'c')):
    idx = pd.date_range('2021-03-28 00:00', periods=n, freq='h', tz=tz)      # Zurich: DST starts on this day
    return pd.DataFrame(ctx.reals('x', (n, len(cols)), -50, 50), index=idx, columns=list(cols))


def _make(ctx, augment, lags, h):
    import pyforecaster.formatter as pf
    f = pf.Formatter(augment=augment, n_parallel=1)
    f.add_transform(['a'], lags=lags)
    f.add_transform(['b'], ['mean', 'max'], agg_freq='2h')
    f.add_target_transform(['a'], lags=[-1, -h])
    return f


def _spec(x, lags, h):
    a, b = x['a'].values, x['b'].values
    n = len(x)
    feat = {}
    for l in lags:
        feat['a_lag_%03d' % l] = [a[i - l] if i >= l else None for i in range(n)]
    ok = [i >= 1 and not any(isinstance(v, float) and math.isnan(v) for v in (b[i], b[i - 1])) for i in range(n)]
    feat['b_2h_mean'] = [(b[i] + b[i - 1]) / 2 if ok[i] else None for i in range(n)]
    feat['b_2h_max'] = [smax(b[i], b[i - 1]) if ok[i] else None for i in range(n)]
    targ = {'a_lag_%04d' % -k: [a[i + k] if i + k < n else None for i in range(n)] for k in (1, h)}
    return feat, targ


def _same(ctx, a, b, label):
    na = [isinstance(v, float) and math.isnan(v) for v in a.ravel()]
    nb = [isinstance(v, float) and math.isnan(v) for v in b.ravel()]
    ctx.true(na == nb, label + ' (missing cells)')
    ctx.eq(arr([v for v, m in zip(a.ravel(), na) if not m]), arr([v for v, m in zip(b.ravel(), nb) if not m]), label)


def _time(ctx, xt, tz):
    exp = {'hour': [t.hour for t in xt.index], 'dayofweek': [t.dayofweek for t in xt.index],
           'minuteofday': [t.hour * 60 + t.minute for t in xt.index]}
    if tz is not None:
        exp['utc_offset'] = [t.utcoffset().total_seconds() / 3600 for t in xt.index]
    for c, v in exp.items():
        ctx.true(c in xt.columns and [float(u) for u in xt[c]] == [float(u) for u in v], 'time feature ' + c)
    if tz is None:
        ctx.true('utc_offset' not in xt.columns, 'no UTC offset for naive data')
    return list(exp)


def pipeline(ctx):
    n = 9
    tz = ctx.choose('tz', [None, 'Europe/Zurich'])
    augment = ctx.flag('augment')
    time_features = ctx.flag('time_features')
    par = ctx.flag('parallel')
    lags = [ctx.pick('l0', 0, 1), ctx.pick('l1', 2, 3)]
    h = ctx.pick('h', 2, 3)
    x = _x(ctx, n, tz)
    f = _make(ctx, augment, lags, h)
    hole = ctx.choose('missing', [None, ('a', 3), ('b', 3), ('c', 3)])
    if hole is not None:
        x.loc[x.index[hole[1]], hole[0]] = float('nan')
    before = x.copy()
    if par:
        xt, yt = f._transform(x, time_features=time_features, parallel=True)
    else:
        xt, yt = f.transform(x, time_features=time_features)
    feat, targ = _spec(x, lags, h)
    if hole is not None and hole[0] == 'a':
        for l in lags:
            if hole[1] + l < n:
                feat['a_lag_%03d' % l][hole[1] + l] = None
        for k in (1, h):
            targ['a_lag_%04d' % -k][hole[1] - k] = None
    if hole is not None and hole[0] == 'b':
        for c in ('b_2h_mean', 'b_2h_max'):
            feat[c][hole[1]] = feat[c][hole[1] + 1] = None
    keep = [i for i in range(n) if all(v[i] is not None for v in list(feat.values()) + list(targ.values()))]
    ctx.true(list(xt.index) == [x.index[i] for i in keep] and list(yt.index) == list(xt.index),
             'features and targets share exactly the rows whose windows and targets are inside the data')
    tcols = _time(ctx, xt, tz) if time_features else []
    ctx.true(list(xt.columns) == (list(x.columns) if augment else []) + list(feat) + tcols, 'feature columns')
    ctx.true(list(yt.columns) == list(targ), 'target columns')
    ctx.eq(xt[list(feat)].values, arr([[feat[c][i] for c in feat] for i in keep]), 'features of the row')
    ctx.eq(yt.values, arr([[targ[c][i] for c in targ] for i in keep]), 'targets of the row')
    if augment:
        _same(ctx, xt[list(x.columns)].values, before.values[keep], 'original variables of the row')
    ctx.true(list(x.columns) == list(before.columns), 'input frame keeps its columns')
    _same(ctx, x.values, before.values, 'input frame is not modified')
    # prediction time
    xp, yp = f.transform(x, time_features=time_features, return_target=False)
    keep_p = [i for i in range(n) if all(v[i] is not None for v in feat.values())]
    ctx.true(list(xp.index) == [x.index[i] for i in keep_p], 'prediction rows: every row with complete features, the latest included')
    ctx.true(list(xp.columns) == list(xt.columns), 'same feature columns when training and predicting')
    ctx.eq(xp[list(feat)].values, arr([[feat[c][i] for c in feat] for i in keep_p]), 'same features when training and predicting')
    if time_features:
        _time(ctx, xp, tz)


def causal(ctx):
    """two histories equal up to time t give equal features up to t"""
    n = 6
    x = _x(ctx, n, None)
    k = ctx.pick('k', 2, 4)
    z = x.copy()
    fut = ctx.reals('z', (n, 3), -50, 50)
    for j in range(3):
        z[z.columns[j]] = list(x.values[:k + 1, j]) + list(fut[k + 1:, j])
    z = z.astype(object) if ctx.symbolic else z.astype(float)
    lags = [ctx.pick('l0', 0, 1), 2]
    f = _make(ctx, True, lags, 2)
    xa, _ = f.transform(x, return_target=False)
    xb, _ = f.transform(z, return_target=False)
    rows = [t for t in xa.index if t <= x.index[k]]
    ctx.true(x.index[k] in xa.index, 'the row is available')
    ctx.eq(xb.loc[rows].values, xa.loc[rows].values, 'features never depend on later samples')


def time_zone_memory(ctx):
    """columns seen at training are the columns produced later, whatever the zone of the new data"""
    tz = ctx.choose('tz', [None, 'Europe/Zurich'])
    tz2 = ctx.choose('tz2', [None, 'Europe/Zurich'])
    f = _make(ctx, True, [0, 1], 2)
    xa, _ = f.transform(_x(ctx, 5, tz))
    xb, _ = f.transform(_x(ctx, 5, tz2))
    ctx.true(list(xa.columns) == list(xb.columns), 'time features stay those of the first transform')


def global_form(ctx):
    """stacked signals: each block is the transform of its own signal"""
    import pyforecaster.formatter as pf
    n = 6
    l = ctx.pick('l', 0, 2)
    multi = ctx.flag('shared_multiindex')
    x = _x(ctx, n, None, cols=('s1', 's2', 'w'))
    f = pf.Formatter(augment=False, n_parallel=1)
    f.add_transform(['w'], ['mean'], agg_freq='2h', lags=[0, l + 1])
    f.add_transform(['target'], lags=[l])
    f.add_target_transform(['target'], lags=[-1])
    xin = x
    if multi:
        xin = pd.DataFrame(x.values, index=x.index, columns=pd.MultiIndex.from_tuples([('p1', 's1'), ('p2', 's2'), ('shared', 'w')]))
    xt, yt = f.transform(xin, global_form=True, reduce_memory=False)
    w = x['w'].values
    pos = 0
    nb = len(xt) // 2
    keep = [i for i in range(n) if i >= l + 2 and i + 1 < n]
    ctx.true(len(xt) == 2 * len(keep) and len(yt) == len(xt), 'one block of complete rows per signal')
    for s in ('s1', 's2'):
        v = x[s].values
        b, y = xt.iloc[pos:pos + nb], yt.iloc[pos:pos + nb]
        ctx.true(list(b.index) == [x.index[i] for i in keep] and list(y.index) == list(b.index), 'rows of the block')
        ctx.eq(b['target_lag_%03d' % l].values, arr([v[i - l] for i in keep]), 'own history')
        ctx.eq(b['w_2h_mean_lag_%03d' % (l + 1)].values, arr([(w[i - l - 1] + w[i - l - 2]) / 2 for i in keep]), 'shared variable')
        ctx.eq(y.values[:, 0], arr([v[i + 1] for i in keep]), 'own target')
        pos += nb


def holidays(ctx):
    """the calendar code of a day is the one of its own date, whatever the rows transformed with it, also across the new year"""
    import pyforecaster.formatter as pf
    import datetime as dt
    days = [dt.date(2018, 12, 29) + dt.timedelta(i) for i in range(7)]                      # Saturday .. Friday
    free = {d for d in days[2:] if ctx.flag('holiday %s' % d)}
    d0, d1 = days[0] - dt.timedelta(4), days[-1] + dt.timedelta(4)
    span = [d0 + dt.timedelta(i) for i in range((d1 - d0).days + 1)]
    off = [d.weekday() > 4 or d in free for d in span]
    bridge = [not off[i] and 0 < i < len(span) - 1 and off[i - 1] and off[i + 1] for i in range(len(span))]
    rest = [a or b for a, b in zip(off, bridge)]
    code = {}
    for i in range(2, len(span) - 2):
        run = any(all(rest[j:j + 3]) for j in (i - 2, i - 1, i))
        code[span[i]] = 3 if span[i] in free else 2 if run else 1 if bridge[i] else 0

    class Api:
        @staticmethod
        def country_holidays(country=None, years=None, **k):
            ys = {int(v) for v in (years if hasattr(years, '__iter__') else [years])}
            return {d: 'h' for d in sorted(free) if d.year in ys} or {dt.date(min(ys), 7, 4): 'h'}
    a = ctx.pick('first day', 0, 4)
    n = ctx.pick('days', 1, 2)
    tz = ctx.choose('tz', [None, 'Europe/Zurich'])
    idx = pd.date_range(days[a], periods=2 * n, freq='12h', tz=tz)
    x = pd.DataFrame({'v': ctx.reals('v', (2 * n,), -9, 9)}, index=idx)
    with stub(pf, holidays_api=Api):
        xt, _ = pf.Formatter().transform(x, time_features=False, holidays=True, return_target=False)
    ctx.true(xt.index.equals(idx) and list(xt.columns) == ['v', 'holidays'] and list(x.columns) == ['v'], 'labels')
    ctx.eq(xt['v'].values, x['v'].values, 'data')
    ctx.eq(arr([int(v) for v in xt['holidays'].values]), arr([code[t.date()] for t in idx]), 'holidays, bridges and long weekends of the day')


def calendar_only(ctx):
    """tables with calendar features only, at training and at prediction time"""
    import pyforecaster.formatter as pf
    tz = ctx.choose('tz', [None, 'Europe/Zurich'])
    augment = ctx.flag('augment')
    n = 6
    x = _x(ctx, n, tz, cols=('a',))
    k, m = ctx.pick('first row', 0, 3), ctx.pick('rows', 1, 3)
    f = pf.Formatter(augment=augment, n_parallel=1)
    f.add_target_transform(['a'], lags=[-1])
    xt, yt = f.transform(x)
    cols = _time(ctx, xt, tz)
    ctx.true(xt.index.equals(x.index[:-1]) and list(xt.columns) == (['a'] if augment else []) + cols, 'labels')
    ctx.eq(yt.values[:, 0], x['a'].values[1:], 'target')
    xp, _ = f.transform(x.iloc[k:k + m], return_target=False)
    _time(ctx, xp, tz)
    ctx.true(xp.index.equals(x.index[k:k + m]) and list(xp.columns) == list(xt.columns), 'same columns for the rows asked for')
    if augment:
        ctx.eq(xp['a'].values, x['a'].values[k:k + m], 'data')


def options(ctx):
    """what a formatter generates for a transform is what the transform with the same options generates, for features and for targets"""
    import pyforecaster.formatter as pf
    target = ctx.flag('target')
    kind = ctx.choose('options', [dict(lags=[1, 2]), dict(lags=[-1, 1]), dict(functions=['mean', 'max'], agg_freq='2h'), dict(functions=['min'], agg_freq='2h', lags=[1, 2]),
                                  dict(functions=['min'], agg_freq='2h', lags=[1, 2], relative_lags=True), dict(functions=['max', 'mean'], agg_bins=[0, 1, 3]),
                                  dict(functions=['mean'], agg_bins=[3, 1, 0], lags=[-3, 1]), dict(functions=['mean'], agg_bins=[0, 1, 3], nested=False),
                                  dict(functions=['mean', 'max'], agg_bins=[0, 1, 3], nested=True, lags=[1])])
    if target:
        kind = {k: v for k, v in kind.items() if k != 'nested'}
    names = ctx.choose('names', [['a'], ['b', 'a']])
    dt = ctx.choose('sampling time given', [None, pd.Timedelta('1h')])
    x = _x(ctx, 8, None, cols=('a', 'b'))
    f = pf.Formatter(augment=False, n_parallel=1, dt=dt)
    (f.add_target_transform if target else f.add_transform)(names, **kind)
    f.add_transform(['b'], lags=[4])
    f.add_target_transform(['a'], lags=[-4])
    made = (f.target_transformers if target else f.transformers)
    ctx.true(len(f.transformers) + len(f.target_transformers) == 3, 'one transform for each request')
    real = pf.binned_statistic
    with stub(pf, binned_statistic=_binned if ctx.symbolic else real):
        spec = pf.Transformer(names, dt=dt, **kind)
        want = spec.transform(x.copy(), augment=False)
        have = made[0].transform(x.copy(), augment=False)
        ctx.true(list(have.columns) == list(want.columns) and have.index.equals(want.index), 'labels')
        _same(ctx, want.values, have.values, 'values')
        ctx.true(made[0].metadata.astype(str).equals(spec.metadata.astype(str)), 'metadata')
        xt, yt = f.transform(x, time_features=False)
        part = yt if target else xt
        ctx.true(list(part.columns)[:want.shape[1]] == list(want.columns), 'columns of the table')
        w = want.loc[xt.index]
        _same(ctx, w.values, part.values[:, :want.shape[1]], 'values of the table')


B = '7 rows, 3 variables, lags 0-3, horizons 1-3, values in [-50,50], naive and DST time index'
OBLIGATIONS = [
    Obligation('pipeline', pipeline, [F + k for k in ('transform', '_transform', 'add_time_features', 'add_transform', 'add_target_transform')] + ['pyforecaster.formatter.Transformer.transform'], B),
    Obligation('causal', causal, [F + '_transform'], '6 rows, any cut time'),
    Obligation('time_zone_memory', time_zone_memory, [F + 'add_time_features'], '5 rows'),
    Obligation('holidays', holidays, [F + 'add_holidays', F + 'transform'], '1-2 consecutive days around a new year, any set of holidays among 5 days, naive and local index'),
    Obligation('calendar_only', calendar_only, [F + 'add_time_features', F + '_transform'], '6 rows, any part of 1-3 rows at prediction time'),
    Obligation('global_form', global_form, [F + 'global_form_preprocess', F + 'global_form_postprocess', F + 'transform'], '6 rows, two signals and a shared variable'),
    Obligation('options', options, [F + k for k in ('add_transform', 'add_target_transform', '_transform')] + ['pyforecaster.formatter.Transformer.__init__', 'pyforecaster.formatter.Transformer.transform'],
               '8 rows, 1 or 2 variables, nine combinations of lags, windows and bins'),
]
