from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.forecasting_models.randomforests', 'pyforecaster.utilities']
STUBS = ['quantile forest: arbitrary value per (row, target, level), returned in the array layout of the quantile_forest library '
         '(samples[, targets][, levels], single levels squeezed)']
OUTSIDE = 'more than 3 rows, 3 targets, 3 levels'
P = 'pyforecaster.'
LEV = [0.1, 0.5, 0.9]


def _dims(ctx):
    return ctx.pick('n', 1, 3), ctx.pick('targets', 1, 3), ctx.pick('levels', 1, 3)


def _gen(ctx, which, q):
    if which == 'base':
        from pyforecaster.forecaster import ScenarioGenerator
        return ScenarioGenerator(q_vect=q)
    if which == 'qrf':
        from pyforecaster.forecasting_models.randomforests import QRF
        return QRF(q_vect=q, parallel=False)
    from pyforecaster.forecaster import LinearForecaster
    return LinearForecaster(q_vect=q)


def roundtrip(which):
    def h(ctx):
        n, nt, nq = _dims(ctx)
        q = LEV[:nq]
        m = _gen(ctx, which, q)
        m.target_cols = ['a', 'c', 'b'][:nt]
        t = ctx.reals('q', (n, nt, nq))
        idx = hours(n)
        d = m.quantiles_to_df(t, idx)
        ctx.true(list(d.columns) == [(c, l) for c in m.target_cols for l in q], 'columns are (target, level)')
        ctx.true(d.index.equals(idx), 'index kept')
        for j, c in enumerate(m.target_cols):
            for k, l in enumerate(q):
                ctx.eq(d[(c, l)].values, t[:, j, k], 'each column holds its own target and level')
        ctx.eq(m.quantiles_to_numpy(d), t, 'tensor -> frame -> tensor is the identity')
        # a part of the table: some rows, targets and levels
        j0, j1 = ctx.pick('first target kept', 0, nt - 1), ctx.pick('targets kept', 1, nt)
        k0, k1 = ctx.pick('first level kept', 0, nq - 1), ctx.pick('levels kept', 1, nq)
        part = d.iloc[n - 1:].loc[:, (m.target_cols[j0:j0 + j1], q[k0:k0 + k1])]
        ctx.eq(m.quantiles_to_numpy(part), t[n - 1:, j0:j0 + j1, k0:k0 + k1], 'part of the frame -> part of the tensor')
    return h


def either_way(which):
    """predict_quantiles returns the same numbers as frame and as tensor, whatever the model produces"""
    def h(ctx):
        n, nt, nq = ctx.pick('n', 1, 2), ctx.pick('targets', 1, 3), ctx.pick('levels', 1, 3)
        q = LEV[:nq]
        m = _gen(ctx, which, q)
        m.target_cols = ['a', 'c', 'b'][:nt]
        t = ctx.reals('q', (n, nt, nq))
        x = feats(hours(n))
        raw_df = ctx.flag('model_returns_frame')
        raw = pd.DataFrame(t.reshape(n, -1), index=x.index, columns=pd.MultiIndex.from_product([m.target_cols, q])) if raw_df else t
        m._predict_quantiles = lambda x, **k: raw
        ctx.eq(m.predict_quantiles(x, dataframe=False), t, 'tensor (row, target, level)')
        d = m.predict_quantiles(x, dataframe=True)
        ctx.true(isinstance(d, pd.DataFrame), 'a frame is returned on request')
        for j, c in enumerate(m.target_cols):
            for k, l in enumerate(q):
                ctx.eq(d[(c, l)].values, t[:, j, k], 'frame column = target and level')
    return h


class Forest:
    """layout of quantile_forest.RandomForestQuantileRegressor.predict"""
    ctx = None
    first = 0
    n_fit = 0

    def __init__(self, **k):
        pass

    def fit(self, x, y, sample_weight=None, **k):
        # the step this forest is trained for is encoded in the training target: y[0, j] = j
        v = np.asarray(y, dtype=float)
        v = v.reshape(len(v), -1)
        self.cols = [int(round(a)) for a in v[0]]
        return self

    def predict(self, x, quantiles='mean', **k):
        ids = Train.rids(x)
        c = Forest.ctx
        name = lambda r, j, q: c.real('F[%d,%d,%s]' % (r, j, q), -50, 50)
        if isinstance(quantiles, str):
            a = arr([[name(r, j, 'mean') for j in self.cols] for r in ids])
            return a[:, 0] if len(self.cols) == 1 else a
        a = arr([[[name(r, j, q) for q in quantiles] for j in self.cols] for r in ids])
        if len(self.cols) == 1:
            a = a[:, 0, :]
            if len(quantiles) == 1:
                a = a[:, 0]
        elif len(quantiles) == 1:
            a = a[:, :, 0]
        return a


def _qrf(ctx, nt, n_single, q):
    from pyforecaster.forecasting_models import randomforests as R
    import pyforecaster.forecaster as F
    Forest.ctx = ctx
    idx = hours(3)
    x = feats(idx)
    y = pd.DataFrame(np.arange(nt) * np.ones((3, 1)), index=idx, columns=['t%d' % j for j in range(nt)])
    with stub(R, RandomForestQuantileRegressor=Forest, tqdm=no_tqdm), stub(F.ScenarioGenerator, fit=lambda self, x, y: setattr(self, 'target_cols', y.columns)), quiet():
        m = R.QRF(q_vect=q, parallel=False, n_single=n_single)
        m.logger.setLevel(100)
        m.fit(x, y)
    return m, y.columns


def forest_mean(ctx):
    nt = ctx.pick('targets', 1, 3)
    n_single = ctx.pick('n_single', 0, nt)
    n = ctx.pick('n', 1, 3)
    m, cols = _qrf(ctx, nt, n_single, LEV)
    x = feats(hours(n), first=10)
    p = m.predict(x)
    ctx.true(list(p.columns) == list(cols) and p.index.equals(x.index), 'labels of the point forecast')
    ctx.eq(p.values, arr([[ctx.real('F[%d,%d,mean]' % (10 + i, j), -50, 50) for j in range(nt)] for i in range(n)]),
           'point forecast of row and target')


def forest_quantiles(ctx):
    nt = ctx.pick('targets', 1, 3)
    n_single = ctx.pick('n_single', 0, nt)
    n = ctx.pick('n', 1, 3)
    nq = ctx.pick('levels', 1, 3)
    own = ctx.flag('own_levels')
    q = LEV[:nq]
    m, cols = _qrf(ctx, nt, n_single, [0.2, 0.3] if own else q)
    x = feats(hours(n), first=10)
    k = {'quantiles': q} if own else {}
    d = m.predict_quantiles(x, **k)
    t = m.predict_quantiles(x, dataframe=False, **k)
    exp = arr([[[ctx.real('F[%d,%d,%s]' % (10 + i, j, l), -50, 50) for l in q] for j in range(nt)] for i in range(n)])
    ctx.true(d.index.equals(x.index) and [(a, float(b)) for a, b in d.columns] == [(c, l) for c in cols for l in q], 'labels (target, level)')
    for j, c in enumerate(cols):
        for a, l in enumerate(q):
            ctx.eq(d[(c, l)].values, exp[:, j, a], 'each column is the forest quantile of its target and level')
    ctx.eq(t, exp, 'the tensor is (row, target, level)')


def utilities(ctx):
    from pyforecaster import utilities as U
    n, a, b = ctx.pick('n', 1, 2), ctx.pick('a', 1, 3), ctx.pick('b', 1, 3)
    t = ctx.reals('t', (n, a, b))
    idx = hours(n)
    first, second = ['u', 'v', 'w'][:a], [0.1, 0.5, 0.9][:b]
    d = U.from_tensor_to_pdmultiindex(t, idx, first, second)
    ctx.true(d.index.equals(idx), 'index kept')
    for i, f in enumerate(first):
        for j, s in enumerate(second):
            ctx.eq(d[(s, f)].values, t[:, i, j], 'frame cell = tensor cell')
    ctx.eq(U.convert_multiindex_pandas_to_tensor(d, zero_first=False), t, 'round trip')
    ctx.eq(U.convert_multiindex_pandas_to_tensor(d, zero_first=True), np.swapaxes(t, 1, 2), 'outer level first')
    # a part of the table
    f1, s1 = ctx.pick('first kept', 0, a - 1), ctx.pick('second kept', 0, b - 1)
    ctx.eq(U.convert_multiindex_pandas_to_tensor(d.loc[:, second[:s1 + 1]], zero_first=False), t[:, :, :s1 + 1], 'some labels of the outer level')
    ctx.eq(U.convert_multiindex_pandas_to_tensor(d.loc[:, (slice(None), first[f1:])], zero_first=False), t[:, f1:, :], 'some labels of the inner level')


SG = P + 'forecaster.ScenarioGenerator.'
QR = P + 'forecasting_models.randomforests.QRF.'
B = '1-3 rows x 1-3 targets x 1-3 levels, all values in [-100,100]'
OBLIGATIONS = [
    Obligation('roundtrip_base', roundtrip('base'), [SG + 'quantiles_to_df', SG + 'quantiles_to_numpy'], B),
    Obligation('roundtrip_qrf', roundtrip('qrf'), [SG + 'quantiles_to_df', QR + 'quantiles_to_numpy'], B),
    Obligation('either_way_base', either_way('base'), [SG + 'predict_quantiles', SG + 'quantiles_to_df', SG + 'quantiles_to_numpy'], B),
    Obligation('either_way_linear', either_way('linear'), [SG + 'predict_quantiles', SG + 'quantiles_to_df', SG + 'quantiles_to_numpy'], B),
    Obligation('forest_mean', forest_mean, [QR + f for f in ('fit', '_fit', 'predict', '_predict', 'predict_multi_step')], B + ', any number of single-step forests'),
    Obligation('forest_quantiles', forest_quantiles, [QR + f for f in ('fit', '_fit', 'predict', '_predict', 'predict_multi_step', 'predict_quantiles', 'quantiles_to_numpy')] + [SG + 'quantiles_to_df'],
               B + ', any number of single-step forests, own or default levels'),
    Obligation('utilities', utilities, [P + 'utilities.from_tensor_to_pdmultiindex', P + 'utilities.convert_multiindex_pandas_to_tensor'], '1-2 x 1-3 x 1-3'),
]
