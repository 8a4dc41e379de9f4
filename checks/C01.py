from checks.common import *

PRELOAD = ['pyforecaster.formatter']
STUBS = ['scipy.stats.binned_statistic: per-bin statistic of its documentation (half open bins, last bin closed)',
         'pandas rolling windows: row positions recorded from the real rolling, statistics from their definition']
OUTSIDE = 'irregular time indexes; aggregation periods that are not a multiple of the sampling time; more than 9 rows; float rounding'
T = 'pyforecaster.formatter.Transformer.'

FUN = {'mean': mean, 'max': lambda v: _fold(smax, v), 'min': lambda v: _fold(smin, v), 'sum': lambda v: sum(v[1:], v[0]),
       'spread': lambda v: v[-1] - v[0]}


def _fold(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


def spread(w):
    w = np.asarray(w)
    return w[-1] - w[0]


def _data(ctx, n, cols, dt):
    x = frame(ctx.reals('x', (n, len(cols)), -50, 50), index=hours(n, dt, start='2021-03-01 21:00'), columns=list(cols))
    x['other'] = np.arange(n) * 1.
    return x


def _check(ctx, tr, out, x, name, spec, dt, n, label_of, nan_ok=False, flat=False):
    """spec: ordered list of (lag value, function name, first offset, last offset) of the columns of one variable"""
    md = tr.metadata[tr.metadata['name'] == name]
    ctx.true(len(md) == len(spec), 'one metadata row per generated column')
    for c, (lag, fun, o0, o1) in zip(md.index, spec):
        m = md.loc[c]
        ctx.true(c == label_of(name, lag, fun, o0, o1), 'column name states variable, window, function and lag')
        ctx.true((m['lag'] is None and lag is None) or (lag is not None and m['lag'] == lag), 'metadata lag')
        ctx.true(m['function'] == fun, 'metadata function')
        if fun != 'none':
            ctx.true(m['start_time'] == o0 * dt, 'metadata start of the window')
        ctx.true(m['end_time'] == (o1 + 1) * dt, 'metadata end of the window')
        v = out[c].values
        ctx.true(len(v) == n, 'no row is added or removed')
        w0 = o1 if fun == 'none' else o0
        got, exp = [], []
        for i in range(n):
            if i + w0 < 0 or i + o1 >= n:
                ctx.true(isinstance(v[i], (float, np.floating)) and math.isnan(v[i]), 'undefined where the window leaves the data')
            else:
                w = [x[name].values[k] for k in range(i + w0, i + o1 + 1)]
                if (nan_ok or (flat and not (i + min(a for _, _, a, b in spec) >= 0 and i + max(b for _, _, a, b in spec) < n))) and isinstance(v[i], (float, np.floating)) and math.isnan(v[i]):
                    continue
                got.append(v[i])
                exp.append(w[0] if fun == 'none' else FUN[fun](w))
        ctx.eq(arr(got), arr(exp), 'value = function of exactly the samples of its window')


def _hr(td):
    from pyforecaster.formatter import hr_timedelta
    return hr_timedelta(td)


def _lags(ctx, options=((None,), (0, 1), (-1, 2), (1,))):
    k = ctx.choose('lags', ['none', 'two', 'one'])
    if k == 'none':
        return None
    l0 = ctx.pick('l0', -2, 2)
    if k == 'one':
        return [l0]
    l1 = ctx.pick('l1', -2, 2)
    if l1 == l0:
        ctx.assume(False)
    return [l0, l1]


def windows(relative):
    def h(ctx):
        import pyforecaster.formatter as pf
        n = 7 if ctx.tier == 'quick' else 10
        dt, explicit, augment = ctx.choose('setting', [('20min', False, True), ('1h', True, False)])
        dt = pd.Timedelta(dt)
        functions = ctx.choose('functions', [None, ['mean', 'max'], ['min', spread]])
        a = ctx.pick('agg', 1, 3) if functions is not None or relative else 1
        form = ctx.choose('form', ['string', 'steps', 'none'] if a > 1 else ['none', 'steps'])
        agg = {'string': '%dmin' % (a * dt / pd.Timedelta('1min')), 'steps': a, 'none': None}[form]
        if form == 'none' and a > 1:
            ctx.assume(False)
        lags = _lags(ctx)
        cols = ['a', 'b'] if ctx.flag('two') else ['b']
        x = _data(ctx, n, ['a', 'b'], dt)
        before = x.copy()
        tr = pf.Transformer(cols, functions, agg, lags=lags, relative_lags=relative, dt=dt if explicit else None)
        out = tr.transform(x, augment=augment)
        ctx.true(list(out.index) == list(x.index), 'time index kept')
        step = a if relative else 1
        fnames = ['none'] if functions is None else [f if isinstance(f, str) else 'spread' for f in functions]
        spec = [(l, f, -(l or 0) * step - a + 1, -(l or 0) * step) for l in (lags or [None]) for f in fnames]
        hr = agg if form == 'string' else _hr(a * dt)

        def label(name, lag, fun, o0, o1):
            s = name if fun == 'none' else '%s_%s_%s' % (name, hr, fun)
            return s if lag is None else s + ('_lag_%03d' % lag if lag >= 0 else '_lag_%04d' % lag)
        new = [label(c, *s) for c in cols for s in spec]
        ctx.true(list(out.columns) == (list(x.columns) if augment else []) + new, 'columns: the data (when augmenting), then the transforms')
        if augment:
            for c in x.columns:
                if c not in new:
                    ctx.eq(out[c].values, before[c].values, 'the original columns are untouched')
        if functions is None and lags is None and augment:
            return                          # duplicates of the original columns
        for c in cols:
            _check(ctx, tr, out, x, c, spec, dt, n, label)
        ctx.eq(x.values, before.values, 'the input is not modified')
    return h


def _binned(xs, v, statistic, bins):
    """scipy.stats.binned_statistic from its documentation"""
    class R:
        pass
    r = R()
    bins = list(bins)
    out = []
    for i in range(len(bins) - 1):
        last = i == len(bins) - 2
        w = [v[k] for k in range(len(xs)) if bins[i] <= xs[k] and (xs[k] < bins[i + 1] or (last and xs[k] == bins[i + 1]))]
        out.append(FUN[statistic if isinstance(statistic, str) else 'spread'](w))
    r.statistic = arr(out)
    return r


BINS = [([0, 1, 3], True), ([3, 2, 0], True), ([-1, -3], True), ([4, 2, 1], True), ([1, 2, 4], False), ([0, 2, 3], False), ([-1, -2, -4], False)]


def bins(ctx):
    import pyforecaster.formatter as pf
    n = 9
    dt = pd.Timedelta(ctx.choose('dt', ['20min', '1h']))
    b, nested = ctx.choose('bins', BINS)
    functions = ctx.choose('functions', [['mean'], ['min', 'max'], ['max', 'sum']])
    lags = ctx.choose('lags', [None, [1], [0, 2], [2, -1]])
    two = ctx.flag('two')
    explicit = ctx.flag('explicit_dt') if nested else False
    x = _data(ctx, n, ['a', 'b'], dt)
    tr = pf.Transformer(['a', 'b'] if two else ['b'], list(functions), agg_bins=b, lags=lags, nested=nested, dt=dt if explicit else None)
    if ctx.symbolic:
        with stub(pf, binned_statistic=_binned):
            out = tr.transform(x, augment=False)
    else:
        out = tr.transform(x, augment=False)
    ctx.true(list(out.index) == list(x.index), 'time index kept')
    B = sorted(b, reverse=True)
    pairs = [(B[i], B[i + 1]) for i in range(len(B) - 1)]
    order = [(p, f) for p in pairs for f in functions] if nested else [(p, f) for f in functions for p in pairs]
    spec = [(l, f, -(p[0] - 1) - (l or 0), -p[1] - (l or 0)) for l in (lags or [None]) for p, f in order]
    edges = [p for l in (lags or [None]) for p, f in order]
    it = {}

    def label(name, lag, fun, o0, o1):
        k = it.get(name, 0)
        it[name] = k + 1
        s = '%s_%s_%d_%d' % (name, fun, edges[k][0], edges[k][1])
        return s if lag is None else s + ('_lag_%03d' % lag if lag >= 0 else '_lag_%04d' % lag)
    md = tr.metadata
    for c in (['a', 'b'] if two else ['b']):
        if lags is None:
            spec_c = [(0, f, o0, o1) for _, f, o0, o1 in spec]
        else:
            spec_c = spec
        _check(ctx, tr, out, x, c, spec_c, dt, n, (lambda *a: label(*((a[0], None) + a[2:]))) if lags is None else label,
               nan_ok=lags is not None and (min(lags) < 0 or b[0] < 0), flat=not nested)   # opposite shifts drop rows at the border


def simulate(ctx):
    """metadata obtained without data, or on other data, is the metadata of the real transform"""
    import pyforecaster.formatter as pf
    dt = pd.Timedelta('1h')
    kind = ctx.choose('kind', ['plain', 'agg', 'bins', 'flat bins'])
    lags = ctx.choose('lags', [None, [1, -1], [0]])
    rel = ctx.flag('relative') if kind == 'agg' else False
    kw = {'plain': {}, 'agg': dict(functions=['mean', 'max'], agg_freq='2h'), 'bins': dict(functions=['min', 'max'], agg_bins=[3, 1, 0]),
          'flat bins': dict(functions=['min', 'max'], agg_bins=[3, 1, 0], nested=False)}[kind]
    x = _data(ctx, 7, ['a', 'b'], dt)
    if ctx.symbolic:
        s = stub(pf, binned_statistic=_binned)
    else:
        s = stub(pf)
    with s:
        t1 = pf.Transformer(['a', 'b'], lags=lags, relative_lags=rel, dt=dt, **kw)
        o1 = t1.transform(x, augment=False)
        t2 = pf.Transformer(['a', 'b'], lags=lags, relative_lags=rel, dt=dt, **kw)
        t2.transform(simulate=True)
        m1, m2 = t1.metadata, t2.metadata
        ctx.true(list(m1.index) == list(m2.index) and list(m1.index) == list(o1.columns), 'simulated column names')
        for c in ('name', 'function', 'start_time', 'end_time', 'spacing_time'):
            ctx.true(list(m1[c]) == list(m2[c]), 'simulated ' + c)
        o2 = t2.transform(x, augment=False)
        o3 = t1.transform(x, augment=False)
        ctx.true(list(o2.columns) == list(o1.columns) and list(o3.columns) == list(o1.columns), 'transforming again gives the same columns')
        for o in (o2, o3):
            for c in set(o1.columns):
                for p, q in zip(np.ravel(o1[c].values), np.ravel(o[c].values)):
                    if isinstance(p, float) and math.isnan(p):
                        ctx.true(isinstance(q, float) and math.isnan(q), 'same undefined cells')
                    else:
                        ctx.eq(q, p, 'transforming again gives the same values')


def limits(ctx):
    """the declared time span of a formatter covers exactly the observations its rows can depend on"""
    import pyforecaster.formatter as pf
    n, dt = 10, pd.Timedelta('1h')
    x = _data(ctx, n, ['a', 'b'], dt)[['a', 'b']]
    l = ctx.choose('lags', [[0, 1], [-1, 2], [2]])
    fa, fb = ctx.choose('functions', [(None, 'max'), ('mean', 'min')])
    agg = ctx.pick('aggregation', 1, 3)
    f = pf.Formatter(augment=False, dt=dt)
    f.add_transform(['a'], functions=None if fa is None else [fa], agg_freq=None if fa is None else 2, lags=l)
    f.add_transform(['b'], functions=[fb], agg_freq=agg, lags=[1])
    f.add_target_transform(['a'], lags=[-1, -2])
    lims = lambda target, ext: f.get_time_lims(include_target=target, extremes=ext)
    na = 1 if fa is None else 2
    feats = {'a': (-max(l) - na + 1, -min(l) + 1), 'b': (-1 - agg + 1, 0)}
    both = {'a': (min(feats['a'][0], 1), max(feats['a'][1], 3)), 'b': feats['b']}
    before = ctx.flag('before any data')
    if not before:
        f.transform(x, time_features=False)
    for target, want in ((False, feats), (True, both)):
        t = lims(target, False)
        ctx.true(sorted(t.index) == ['a', 'b'], 'one span for each variable')
        for c in want:
            ctx.true(t.loc[c, 'start_time'] == want[c][0] * dt and t.loc[c, 'end_time'] == want[c][1] * dt, 'span of each variable')
        e = lims(target, True)
        ctx.true(len(e) == 1 and e['start_time'].iloc[0] == min(v[0] for v in want.values()) * dt and e['end_time'].iloc[0] == max(v[1] for v in want.values()) * dt, 'span of the formatter')
    # and the rows do depend only on the data of the span
    i = 4
    lo, hi = feats['a']
    z = x.copy()
    other = ctx.reals('z', (n,), -50, 50)
    outside = [k for k in range(n) if not i + lo <= k < i + hi]
    z.loc[z.index[outside], 'a'] = other[outside]
    r = [g.transform(v, time_features=False, return_target=False) for g, v in ((f, x), (f, z))]
    r = [v[0] if isinstance(v, tuple) else v for v in r]
    for v in r:
        ctx.true(x.index[i] in v.index, 'row is there')
    ctx.eq(r[1].loc[x.index[i]].values, r[0].loc[x.index[i]].values, 'observations out of the span do not matter')


B = '7 rows (10 thorough), 2 variables, aggregation over 1-3 steps, up to two lags in [-2,2], values in [-50,50]'
OBLIGATIONS = [
    Obligation('windows', windows(False), [T + '__init__', T + 'transform', 'pyforecaster.formatter.hr_timedelta'], B, max_paths=4000),
    Obligation('windows_relative', windows(True), [T + '__init__', T + 'transform'], B, max_paths=4000),
    Obligation('bins', bins, [T + 'transform', 'pyforecaster.formatter.Reducer.reduce'], '9 rows, 7 bin layouts (nested and flat), up to 2 functions and 2 lags', max_paths=4000),
    Obligation('limits', limits, ['pyforecaster.formatter.Formatter.get_time_lims', T + 'transform'], '10 rows, 2 variables, aggregation 1-3'),
    Obligation('simulate', simulate, [T + 'transform'], '7 rows, 4 kinds of transform'),
]
