from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.forecasting_models.randomforests']
STUBS = ['point regressors (sklearn, quantile forest): arbitrary functions of their whole input row that record what they are trained on', 'scenario generator of the forecaster']
OUTSIDE = 'pandas string dtype; categorical features of models other than LinearForecaster and QRF'
P = 'pyforecaster.'
CATS = ['b', 'a', 'c10', 'c9', '7']


class Model:
    """an arbitrary function of the whole row: rows that differ in any cell may get any other value"""

    def __init__(self, ctx):
        self.ctx, self.fits, self.seen = ctx, [], []

    def sk(self):
        rec = self

        class Reg:
            def __init__(self, *a, **k):
                pass

            def fit(self, x, y, **k):
                self.m = len(rec.fits)
                self.flat = np.ndim(y) == 1
                rec.fits.append(x.copy())
                return self

            def predict(self, x, *a, **k):
                rec.seen.append(x.copy())
                nt = 1 if self.flat else 2
                r = arr([[rec.val(self.m, row, j) for j in range(nt)] for row in x.values])
                return r[:, 0] if self.flat else r
        return Reg

    def val(self, m, row, j):
        return self.ctx.real('f%d(%s)[%d]' % (m, ','.join('%g' % float(v) for v in row), j), -20, 20)


def table(ctx, tag, n, cats, kind, k, start='2021-03-01 22:00'):
    """n rows: one categorical column, the categories of which are any, between two numeric ones"""
    c = ctx.choose(tag + ' categories', cats) if isinstance(cats[0], list) else [ctx.choose('%s category of row %d' % (tag, i), cats) for i in range(n)]
    v = pd.Series(c, dtype='object')
    if kind == 'category':
        v = v.astype('category')
    elif kind == 'ordered':
        v = pd.Series(pd.Categorical(c, categories=sorted(CATS)[::-1], ordered=True))
    return pd.DataFrame({'n0': np.arange(n) * 1. + k, 'cat': v.values, 'n1': np.cos(np.arange(n) + k)}, index=hours(n, start=start)), c


def build(ctx, kind):
    from pyforecaster import forecaster as F
    from pyforecaster.forecasting_models import randomforests as R
    rec = Model(ctx)
    if kind == 'linear':
        st = stub(F, LinearRegression=rec.sk())
        m = F.LinearForecaster(q_vect=[.1, .9])
    else:
        st = stub(R, RandomForestQuantileRegressor=rec.sk(), tqdm=no_tqdm)
        m = R.QRF(q_vect=[.1, .9], n_single=2, parallel=False)
    m.scengen = FakeScenGen()
    return rec, st, m


def codes(ctx, got, cats, label, known=None):
    """one number for each category; the same number always for the same category"""
    known = {} if known is None else known
    for c, v in zip(cats, got):
        v = float(v)
        ctx.true(known.setdefault(c, v) == v, label + ': one code for each category')
    ctx.true(len(set(known.values())) == len(known), label + ': different categories have different codes')
    return known


def check(kind):
    def h(ctx):
        """categories are told apart, with the codes of the training set at prediction time; all the rest is as given"""
        rec, st, m = build(ctx, kind)
        dtype = ctx.choose('dtype', ['object', 'category', 'ordered'])
        x, c = table(ctx, 'train', 3, [['b', 'a', 'b'], ['c10', 'c9', 'b'], ['a', 'a', 'a'], ['7', 'c10', 'c9']], dtype, 0)
        y = pd.DataFrame(ctx.reals('y', (3, 2), -9, 9), columns=['t0', 't1'], index=x.index)
        x0 = x.copy()
        known = sorted(set(c))
        new, d = table(ctx, 'new', 2, known + ['d'], ctx.choose('dtype of the new rows', ['object', 'category']) if dtype == 'object' else dtype, 10, start='2021-04-01')
        new0 = new.copy()
        with st, quiet():
            m.fit(x, y)
            ctx.true(x.equals(x0) and list(x.dtypes) == list(x0.dtypes), 'the features of the caller are not modified by fitting')
            for f in rec.fits:
                book = codes(ctx, f['cat'], c, 'training')
                ctx.true(list(f.columns) == list(x0.columns) and f.index.equals(x0.index), 'columns and rows')
                ctx.eq(f[['n0', 'n1']].values, x0[['n0', 'n1']].values, 'numeric features')
            unseen = [v for v in d if v not in known]
            rec.seen.clear()
            try:
                p = m.predict(new)
            except ValueError as e:
                if 'nseen' not in str(e) and not unseen:
                    raise
                ctx.true(bool(unseen), 'known categories are accepted')
                return
            ctx.true(not unseen, 'a category that was not in the training set is refused')
            for f in rec.seen:
                codes(ctx, f['cat'], d, 'prediction', dict(book))
                ctx.eq(f[['n0', 'n1']].values, new0[['n0', 'n1']].values, 'numeric features at prediction time')
            ctx.true(new.equals(new0) and list(new.dtypes) == list(new0.dtypes), 'the features of the caller are not modified by predicting')
            one = m.predict(new.iloc[1:])
            ctx.eq(one.values, p.values[1:], 'the forecast of a row does not depend on the other rows')
            ctx.true(p.index.equals(new0.index) and list(p.columns) == ['t0', 't1'], 'labels')
            # another model of the same class, with its own categories
            from pyforecaster import forecaster as F
            from pyforecaster.forecasting_models import randomforests as R
            m2 = F.LinearForecaster(q_vect=[.1, .9]) if kind == 'linear' else R.QRF(q_vect=[.1, .9], n_single=2, parallel=False)
            m2.scengen = FakeScenGen()
            second, o = table(ctx, 'second model', 2, [['0', 'a']], dtype if dtype != 'ordered' else 'category', 30)
            m2.fit(second, y.iloc[:2])
            rec.seen.clear()
            again = m.predict(new)
            for f in rec.seen:
                codes(ctx, f['cat'], d, 'prediction after another model was fitted', dict(book))
            ctx.eq(again.values, p.values, 'forecasts do not depend on other models')
            # fitted again on other data, without carrying over the previous codes
            rec.fits.clear()
            other, o = table(ctx, 'refit', 2, [['e', 'a'], ['c10', 'e']], dtype if dtype != 'ordered' else 'category', 20)
            m.fit(other, y.iloc[:2])
            for f in rec.fits:
                book = codes(ctx, f['cat'], o, 'fitted again')
            rec.seen.clear()
            m.predict(other.iloc[::-1])
            for f in rec.seen:
                codes(ctx, f['cat'], o[::-1], 'prediction after fitting again', dict(book))
    return h


def residuals(kind):
    def h(ctx):
        """residuals of the training rows come from forecasts with the codes of the training"""
        rec, st, m = build(ctx, kind)
        m.val_ratio = ctx.choose('validation ratio', [None, .5])
        x, c = table(ctx, 'train', 4, CATS[:2], 'object', 0)
        y = pd.DataFrame(ctx.reals('y', (4, 2), -9, 9), columns=['t0', 't1'], index=x.index)
        with st, quiet():
            m.fit(x, y)
            lo = 2 if m.val_ratio else 0
            p = m.predict(x)
        errs, xs, _ = m.scengen.fits[-1]
        ctx.eq(errs.values, (y.values - p.values)[lo:], 'residuals')
        for f in rec.fits:
            ctx.true(len(f) == (2 if m.val_ratio else 4), 'training rows')
        book = codes(ctx, np.concatenate([f['cat'].values for f in rec.seen[:1]]), c[lo:], 'residuals')
        codes(ctx, rec.fits[0]['cat'], c[:len(rec.fits[0])], 'training', book)
    return h


W = P + 'forecaster.encode_categorical'
FS = {'linear': [W, P + 'forecaster.LinearForecaster.fit', P + 'forecaster.LinearForecaster.predict'],
      'forest': [W, P + 'forecasting_models.randomforests.QRF.fit', P + 'forecasting_models.randomforests.QRF.predict']}
OBLIGATIONS = []
for k in FS:
    OBLIGATIONS.append(Obligation('codes_' + k, check(k), FS[k], 'four training tables of 3 rows, any 2 new rows (known or unseen categories), a second fit; object and categorical columns'))
    OBLIGATIONS.append(Obligation('residuals_' + k, residuals(k), FS[k] + [P + 'forecaster.ScenarioGenerator.fit'], '4 rows, 2 categories'))
