from checks.common import *

PRELOAD = ['pyforecaster.formatter', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.randomforests']
STUBS = ['pandas.Timedelta / to_timedelta: numbers of seconds', 'transform metadata: arbitrary window bounds per feature']
OUTSIDE = 'more than one target transform; more than 3 generated features; windows beyond +-3 days'
F = 'pyforecaster.formatter.Formatter.'
UNIT = {'h': 3600, 'min': 60, 's': 1, 'm': 60}


class PD:
    def __init__(self, pd):
        self._pd = pd

    def __getattr__(self, k):
        return getattr(self._pd, k)

    def Timedelta(self, v=0, unit=None, **k):
        if isinstance(v, Sym):
            return v
        if isinstance(v, str):
            return self._pd.Timedelta(v).total_seconds()
        if isinstance(v, (int, float, np.integer)):
            return self._pd.Timedelta(v, unit or 'ns').total_seconds()
        return v

    def to_timedelta(self, v, unit=None):
        return self.Timedelta(v, unit)


class Meta:
    """builds metadata either with symbolic seconds (object) or with real timedeltas"""

    def __init__(self, ctx):
        self.ctx = ctx

    def col(self, v):
        if self.ctx.symbolic:
            return pd.Series(list(v), dtype=object).values
        return pd.to_timedelta([float(a) for a in v], unit='s').values


def _setup(ctx, nf, nt, lags=False):
    import pyforecaster.formatter as pf
    f = pf.Formatter(n_parallel=1)
    mk = Meta(ctx)
    S, E, L = [], [], []
    for i in range(nf):
        e = ctx.int('e%d' % i, -259200, 259200)
        w = ctx.int('w%d' % i, 1, 90000)
        S.append((e - w) * 1.0)
        E.append(e * 1.0)
    L += list(ctx.choose('lags', [(0, 1, 2), (3, 1, 0), (-1, 2, 7)]) if lags else (0, 1, 2))[:nf]
    TS, TE = [], []
    for j in range(nt):
        s = ctx.int('ts%d' % j, 0, 200000)
        w = ctx.int('tw%d' % j, 1, 8000)
        TS.append(s * 1.0)
        TE.append((s + w) * 1.0)

    class Tr:
        pass

    def tr(names, s, e, lags):
        t = Tr()
        t.metadata = pd.DataFrame({'lag': lags, 'start_time': mk.col(s), 'end_time': mk.col(e), 'name': 'a'}, index=names)
        return t
    cols = ['f%d' % i for i in range(nf)]
    f.transformers = [tr(cols[:1], S[:1], E[:1], L[:1]), tr(cols[1:], S[1:], E[1:], L[1:])] if nf > 1 else [tr(cols, S, E, L)]
    f.target_transformers = [tr(['t%d' % j for j in range(nt)], TS, TE, list(range(nt)))]
    df = pd.DataFrame(ctx.reals('x', (2, nf + 2)), columns=cols + ['hour', 'unused'])
    f.lags_ = L
    return pf, f, df, cols, S, E, TS, TE


def _run(ctx, pf, f, df, j, meta, **k):
    if ctx.symbolic:
        with stub(pf, pd=PD(pf.pd)):
            return f.prune_dataset_at_stepahead(df, j, meta, **k)
    return f.prune_dataset_at_stepahead(df, j, meta, **k)


def _b(c):
    return bool(c)


def periodic(ctx):
    """kept iff the window start or end precedes the target's by a whole number of periods (within the tolerance)"""
    pf, f, df, cols, S, E, TS, TE = _setup(ctx, 2, 2)
    j = ctx.pick('target', 0, 1)
    period, tol = ctx.choose('period', [('24h', '1h'), ('12h', '10min')])
    P, W = {'24h': 86400, '12h': 43200}[period], {'1h': 3600, '10min': 600}[tol]
    lagk = ctx.pick('keep_last_n_lags', 0, 1)
    out = _run(ctx, pf, f, df, j, ['hour'], method='periodic', period=period, tol_period=tol, keep_last_n_lags=lagk)
    kept = list(out.columns)
    for i, c in enumerate(cols):
        ds, de = TS[j] - S[i], TE[j] - E[i]
        near = _periods(ctx, ds, P, W) | _periods(ctx, de, P, W)
        if f.lags_[i] in range(lagk):
            ctx.true(c in kept, 'the last lags are kept')
        elif c in kept:
            ctx.true(near, 'kept features are aligned with the target')
        else:
            ctx.true(_not(near), 'aligned features are kept')
    _rest(ctx, out, df, kept, cols)


def _periods(ctx, d, P, W):
    """exists an integer k: 0 <= d - k P <= W  (|d| < 7 days)"""
    r = False
    K = range(-int(600000 / P) - 1, int(600000 / P) + 2)
    for k in K:
        c = (d - k * P >= 0) & (d - k * P <= W)
        r = c if r is False else (r | c)
    return r


def _not(c):
    return ~c if isinstance(c, SymBool) else not c


def _rest(ctx, out, df, kept, cols):
    ctx.true(kept[-1] == 'hour' and 'unused' not in kept and len(set(kept)) == len(kept), 'requested extra columns, and only those')
    ctx.true([c for c in cols if c in kept] == kept[:-1], 'original order')
    ctx.eq(out.values, df[kept].values, 'values untouched')


def up_to(ctx):
    """kept iff the window ends no later than the target's"""
    pf, f, df, cols, S, E, TS, TE = _setup(ctx, 3, 2, lags=True)
    j = ctx.pick('target', 0, 1)
    lagk = ctx.pick('keep_last_n_lags', 0, 2)
    out = _run(ctx, pf, f, df, j, ['hour'], method='up_to', keep_last_n_lags=lagk)
    kept = list(out.columns)
    for i, c in enumerate(cols):
        if f.lags_[i] in range(lagk):
            ctx.true(c in kept, 'the last lags are kept')
        elif c in kept:
            ctx.true(E[i] <= TE[j], 'no kept feature looks beyond the target')
        else:
            ctx.true(E[i] > TE[j], 'every feature known by the target time is kept')
    _rest(ctx, out, df, kept, cols)


def recent(ctx):
    """keep_last_seconds adds the features that end within that many seconds of the present (and not after the target)"""
    pf, f, df, cols, S, E, TS, TE = _setup(ctx, 2, 1)
    sec = ctx.choose('seconds', [1800, 7200])
    period, P, W = '24h', 86400, 600
    out = _run(ctx, pf, f, df, 0, ['hour'], method='periodic', period=period, tol_period='10min', keep_last_seconds=sec)
    kept = list(out.columns)
    for i, c in enumerate(cols):
        near = _periods(ctx, TS[0] - S[i], P, W) | _periods(ctx, TE[0] - E[i], P, W)
        close = (abs(E[i]) <= sec) & (E[i] <= TE[0])
        if c in kept:
            ctx.true(near | close, 'kept features are aligned or recent')
        else:
            ctx.true(_not(near | close), 'recent features are kept')
    _rest(ctx, out, df, kept, cols)


def keep_all(ctx):
    pf, f, df, cols, S, E, TS, TE = _setup(ctx, 3, 1)
    out = _run(ctx, pf, f, df, 0, ['hour'], method='none')
    ctx.true(list(out.columns) == cols + ['hour'], 'without a method every feature is kept')
    ctx.eq(out.values, df[cols + ['hour']].values, 'values untouched')


def models(kind):
    def h(ctx):
        """the learner of a step is trained on, and asked with, the features the rule keeps for that step with the settings of the model"""
        from pyforecaster.forecasting_models import gradientboosters as G, randomforests as R
        n, nt = 3, 3
        single = 3 if kind == 'energy' else ctx.pick('single-step models', 0, 3)
        cols = ['a', 'b', 'c', 'd']
        kept = ctx.choose('kept', [{0: ['b', 'd'], 1: ['a', 'b', 'd'], 2: ['c', 'd']}, {0: ['d', 'a'], 1: ['d'], 2: ['d', 'a']}, {0: cols, 1: ['c'], 2: cols[::-1]}])
        opts = dict(metadata_features=['d'], keep_last_n_lags=ctx.choose('lags', [0, 2]), keep_last_seconds=ctx.choose('seconds', [0, 7200]), tol_period=ctx.choose('tolerance', ['1h', '10min']))
        calls = []

        class Form:
            denormalizing_fun = None

            def prune_dataset_at_stepahead(self, df, j, **k):
                calls.append((int(j), list(df.columns), dict(k)))
                return df[kept[int(j)]]
        log = []

        class Reg:
            def __init__(self, *a, **k):
                self.k = len([e for e in log if e[0] == 'fit'])

            def fit(self, x, y, **k):
                log.append(('fit', x.copy(), np.shape(y), self))
                self.nt = 1 if np.ndim(y) == 1 else np.shape(y)[1]
                self.flat = np.ndim(y) == 1
                return self

            def predict(self, x, *a, **k):
                log.append(('predict', x.copy(), k.get('quantiles', a[0] if a else None), self))
                p = x.values.sum(axis=1).reshape(-1, 1) * np.ones((1, self.nt))
                return p[:, 0] if self.flat else p
        x = pd.DataFrame(np.arange(n * 4.).reshape(n, 4) ** 1.5, columns=cols, index=hours(n))
        y = frame(ctx.reals('y', (n, nt), -9, 9), index=x.index, columns=['t0', 't1', 't2'])
        x0 = x.copy()
        mod = R if kind == 'forest' else G
        st = dict(RandomForestQuantileRegressor=Reg, tqdm=no_tqdm) if kind == 'forest' else dict(LGBMRegressor=Reg, tqdm=no_tqdm)
        with stub(mod, **st), stub(np.random, choice=lambda a, size=None, *r, **k: np.resize(np.asarray(a), size)), quiet():
            m = {'forest': R.QRF, 'hybrid': G.LGBMHybrid, 'energy': G.LGBEnergyAware}[kind](n_single=single, parallel=False, formatter=Form(), q_vect=[.1, .9], **opts)
            m.scengen = FakeScenGen()
            m.fit(x, y)
            fits = [e for e in log if e[0] == 'fit']
            for j, c, k in calls:
                ctx.true(c == cols and [d for d in k if d in opts and k[d] != opts[d]] == [] and set(opts) <= set(k) and k.get('method', 'periodic') == 'periodic' and k.get('period', '24h') == '24h',
                         'settings of the model reach the rule at training')
            trained = {id(e[3]): list(e[1].columns) for e in fits}
            ctx.true(len(fits) == single + (single < nt), 'one learner for each step and one for the rest')
            for j in range(single):
                fx = fits[j][1]
                got = [c for c in fx.columns if c in cols]
                ctx.true(got == kept[j], 'the learner of a step is trained on the features kept for it')
                ctx.eq(fx[got].values, x0[got].values, 'values of the features')
            if single < nt and kind == 'forest':
                ctx.true(list(fits[single][1].columns) == cols, 'the learner of the other steps is trained on every feature')
            del log[:], calls[:]
            period = ctx.choose('period', [None, '24h', '12h']) if kind != 'energy' else None
            m.predict(x, **({'period': period} if period else {}))
        ctx.true(sorted(set(c[0] for c in calls)) == list(range(single)), 'features are pruned for every step')
        for j, c, k in calls:
            ctx.true(c == cols and [d for d in k if d in opts and k[d] != opts[d]] == [] and set(opts) <= set(k) and k.get('method', 'periodic') == 'periodic', 'settings of the model reach the rule')
            ctx.true(k.get('period', '24h') == (period or '24h'), 'requested period')
        for e in log:
            ctx.true(list(e[1].columns) == trained[id(e[3])], 'each learner is asked with the features it was trained on')
        ctx.true(x.equals(x0), 'the features of the caller are not modified')
    return h


B = '2-3 features and 1-2 targets with arbitrary windows (to the second, within 3 days)'
MP = 'pyforecaster.forecasting_models.'
OBLIGATIONS = [
    Obligation('periodic', periodic, [F + 'prune_dataset_at_stepahead'], B + ', periods 24h and 12h'),
    Obligation('up_to', up_to, [F + 'prune_dataset_at_stepahead'], B),
    Obligation('recent', recent, [F + 'prune_dataset_at_stepahead'], B),
    Obligation('keep_all', keep_all, [F + 'prune_dataset_at_stepahead'], B),
] + [Obligation('models_' + k, models(k), [MP + c + '.fit', MP + c + '.predict'] + [MP + c.rsplit('.', 1)[0] + '.' + ('QRF.' if k == 'forest' else 'LGBMHybrid.') + f for f in ('__init__', 'dataset_at_stepahead') + (('_fit', '_predict') if k == 'forest' else ())],
                 '3 rows, 4 features, 3 targets, three selections per step, all settings') for k, c in (('forest', 'randomforests.QRF'), ('hybrid', 'gradientboosters.LGBMHybrid'), ('energy', 'gradientboosters.LGBEnergyAware'))]
