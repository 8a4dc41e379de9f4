from checks.common import *

PRELOAD = ['pyforecaster.trainer', 'pyforecaster.metrics', 'pyforecaster.formatter']
STUBS = ['the estimator: arbitrary forecasts that depend on the fold it was fitted on', 'sklearn.model_selection.cross_validate: its documented contract (clone, fit and score on each fold)',
         'optuna study and trials: call the objective, any suggested value']
OUTSIDE = 'the samplers of optuna; parallel cross validation; hyperparameter spaces'
P = 'pyforecaster.trainer.'


def estimator(ctx, log, lenient=False):
    from sklearn.base import BaseEstimator

    class Est(BaseEstimator):
        def __init__(self, gain=1.):
            self.gain = gain

        def set_params(self, **k):
            if not lenient:
                return super().set_params(**k)
            for a, v in k.items():      # as LightGBM's estimators, which keep any option they are given
                setattr(self, a, v)
            return self

        def fit(self, x, y):
            self.key = tuple(int(v) for v in x['rid'].values)
            log.append(('fit', self, self.key, y))
            return self

        def predict(self, x, **k):
            log.append(('predict', self, tuple(int(v) for v in x['rid'].values), None))
            return pd.DataFrame(arr([[forecast(ctx, self.key, int(r), j) * self.gain for j in range(2)] for r in x['rid'].values]), index=x.index, columns=['t0', 't1'])
    return Est


def forecast(ctx, key, r, j):
    return ctx.real('f%s[%d,%d]' % (''.join(map(str, key)), r, j), -9, 9)


def sklearn_cv(log):
    def cv(estimator, X, y=None, *, scoring=None, cv=None, return_estimator=False, **k):
        from sklearn.base import clone
        res, ests = {}, []
        for tr, te in cv:
            m = clone(estimator)
            m.fit(X.iloc[list(tr)], y.iloc[list(tr)])
            xs, ys = X.iloc[list(te)], y.iloc[list(te)]
            if isinstance(scoring, dict):
                for n, s in scoring.items():
                    res.setdefault('test_' + n, []).append(s(m, xs, ys))
            else:
                res.setdefault('test_score', []).append(scoring(m, xs, ys))
            ests.append(m)
        out = {'fit_time': np.zeros(len(ests)), 'score_time': np.zeros(len(ests))}
        if return_estimator:
            out['estimator'] = ests
        out.update({k: arr(v) for k, v in res.items()})
        return out
    return cv


def data(ctx, n=5):
    index = ctx.choose('index', [hours(5), pd.Index([30, 10, 0, 20, 1])])
    y = pd.DataFrame(ctx.reals('y', (n, 2), -9, 9), columns=['t0', 't1'], index=index)
    x = pd.DataFrame({'rid': np.arange(n) * 1., 'f': np.cos(np.arange(n))}, index=index)
    return x, y


FOLDS = [([0, 1, 2], [3, 4]), ([4, 2, 3], [0, 1]), ([0, 4], [2])]


def scorers():
    def bias(m, x, y):
        d = (m.predict(x).values - y.values).ravel()
        return mean(d)

    def spread(m, x, y):
        d = (m.predict(x).values - y.values).ravel()
        return smax(d[0], d[-1]) - smin(d[0], d[-1])
    return bias, spread


def expected(ctx, y, fold, gain=1.):
    tr, te = fold
    d = arr([[forecast(ctx, tuple(tr), r, j) * gain - y.values[r, j] for j in range(2)] for r in te])
    f = d.ravel()
    return mean(f), smax(f[0], f[-1]) - smin(f[0], f[-1])


def folds(ctx, n=None):
    k = ctx.pick('folds', 1, 3)
    sel = FOLDS[:k]
    form = ctx.choose('folds given as', ['list', 'generator', 'arrays'])
    if form == 'generator':
        return sel, (f for f in sel)
    if form == 'arrays':
        return sel, [(np.array(a), np.array(b)) for a, b in sel]
    return sel, list(sel)


def scoring_of(ctx):
    bias, spread = scorers()
    which = ctx.choose('scoring', ['one', 'two', 'two, other order', 'two, key given'])
    if which == 'one':
        return bias, None, 0
    if which == 'two':
        return {'bias': bias, 'spread': spread}, None, 0
    if which == 'two, other order':
        return {'spread': spread, 'bias': bias}, None, 1
    return {'bias': bias, 'spread': spread}, 'spread', 1


class Trial:
    def __init__(self, gain=None):
        self.attrs, self.gain = {}, gain

    def set_user_attr(self, k, v):
        self.attrs[k] = v


def full(ctx):
    """the score is the mean over the folds of the score of the model fitted on the training part, on the test part; stored forecasts are those of the same models"""
    from pyforecaster import trainer as T
    log = []
    x, y = data(ctx)
    x0, y0 = x.copy(), y.copy()
    sel, given = folds(ctx)
    scoring, key, which = scoring_of(ctx)
    store = ctx.flag('stored results')
    trial = Trial() if ctx.flag('trial') else None
    if key is not None:
        key = 'test_' + key
    with stub(T, sklearn_cv=sklearn_cv(log)):
        res, score = T.cross_validate(x, y, estimator(ctx, log)(), given, scoring=scoring, score_key=key, trial=trial, storage_fun=(lambda *a: None) if store else None)
    per = [expected(ctx, y0, f)[which] for f in sel]
    ctx.eq(score, mean(per), 'mean score over the folds', tol=1e-5)
    if trial is not None:
        ctx.eq(arr(list(trial.attrs['cv_test_scores'])), arr(per), 'the scores of the folds', tol=1e-5)
    if store:
        ctx.true(sorted(res['y_te']) == sorted(res['y_hat']) == ['fold_%d' % i for i in range(len(sel))], 'a result for each fold')
        for i, (tr, te) in enumerate(sel):
            a, b = res['y_te']['fold_%d' % i], res['y_hat']['fold_%d' % i]
            ctx.true(a.index.equals(x0.index[te]) and b.index.equals(x0.index[te]), 'rows of the fold')
            ctx.eq(a.values, y0.values[te], 'stored targets')
            ctx.eq(b.values, arr([[forecast(ctx, tuple(tr), r, j) for j in range(2)] for r in te]), 'stored forecasts, out of sample')
    ctx.eq(y.values, y0.values, 'the targets of the caller are not modified')


def random_fold(ctx):
    """a random fold: fitted on its training part, scored on its test part"""
    from pyforecaster import trainer as T
    log = []
    x, y = data(ctx)
    y0 = y.copy()
    sel, given = folds(ctx)
    scoring, key, which = scoring_of(ctx)
    store = ctx.flag('stored results')
    np.random.seed(ctx.pick('seed', 0, 3))
    with stub(T, float=pass_float):
        res, score = T.cross_validate(x, y, estimator(ctx, log)(), given, scoring=scoring, cv_type='random_fold', score_key=key, storage_fun=(lambda *a: None) if store else None)
    fits = [k for k in log if k[0] == 'fit']
    used = [f for f in sel if tuple(f[0]) == fits[0][2]]
    ctx.true(len(fits) == 1 and len(used) == 1, 'fitted on the training part of one of the folds')
    tr, te = used[0]
    ctx.eq(fits[0][3].values, y0.values[tr], 'targets of the training part')
    ctx.true(all(k[2] == tuple(te) for k in log if k[0] == 'predict'), 'forecasts of the test part only')
    ctx.eq(score, expected(ctx, y0, used[0])[which], 'score on the test part', tol=1e-5)
    if store:
        ctx.eq(res['y_te'].values, y0.values[te], 'stored targets')
        ctx.eq(res['y_hat'].values, arr([[forecast(ctx, tuple(tr), r, j) for j in range(2)] for r in te]), 'stored forecasts')


def all_folds(ctx):
    """every fold can be drawn"""
    from pyforecaster import trainer as T
    log = []
    n = ctx.pick('folds', 1, 3)
    x = pd.DataFrame({'rid': np.arange(5.), 'f': np.arange(5.)})
    y = pd.DataFrame(ctx.reals('y', (5, 2), -9, 9), columns=['t0', 't1'])
    np.random.seed(1)
    for _ in range(30):
        with stub(T, float=pass_float):
            T.cross_validate(x, y, estimator(ctx, log)(), FOLDS[:n], scoring=scorers()[0], cv_type='random_fold')
    ctx.true({k[2] for k in log if k[0] == 'fit'} == {tuple(f[0]) for f in FOLDS[:n]}, 'all the folds are drawn')
    ctx.reach('drawn')


def optimizer(ctx):
    """each trial scores the model with the parameters it suggests; scores are minimised; one stored result for each trial"""
    from pyforecaster import trainer as T
    log, trials = [], []
    x, y = data(ctx)
    y0 = y.copy()
    kind = ctx.choose('cv', ['folds', 'number', 'number with formatter', 'generator'])
    store = ctx.flag('stored results')
    n = ctx.pick('trials', 1, 3)
    gains = ctx.reals('gain', (3,), .5, 2)

    class Study:
        values = []

        def optimize(self, f, n_trials=None, callbacks=None, **k):
            for i in range(n_trials):
                t = Trial(gains[i])
                trials.append(t)
                self.values.append(f(t))
    made = {}
    study = Study()
    study.values = []

    def create(direction=None, **k):
        made['direction'] = direction
        return study

    class Formatter:
        def time_kfcv(self, index, n_k_folds, *a, **k):
            ctx.true(index.equals(x.index) and n_k_folds == 2, 'folds of the time index')
            return (f for f in FOLDS[:2])
    mean_error = lambda f, t, agg_index=None, **k: (f - t).mean()
    mean_error.__name__ = 'mean_error'
    cv = {'folds': FOLDS[:2], 'number': 2, 'number with formatter': 2, 'generator': (f for f in FOLDS[:2])}[kind]

    class Optuna:
        create_study = staticmethod(create)

        class samplers:
            TPESampler = staticmethod(lambda *a, **k: None)
    with stub(T, sklearn_cv=sklearn_cv(log), optuna=Optuna):
        got, stored = T.hyperpar_optimizer(x, y, estimator(ctx, log)(), n_trials=n, metric=mean_error, cv=cv, param_space_fun=lambda t: {'gain': t.gain},
                                           storage_fun=T.base_storage_fun if store else None, formatter=Formatter() if kind == 'number with formatter' else None)
    ctx.true(got is study and made['direction'] == 'minimize' and len(trials) == n, 'scores are minimised over the trials')
    if kind == 'number':
        # two folds without shuffling
        used = [([3, 4], [0, 1, 2]), ([0, 1, 2], [3, 4])]
    else:
        used = FOLDS[:2]
    for i in range(n):
        per = [expected(ctx, y0, f, gains[i])[0] for f in used]
        ctx.eq(arr(list(trials[i].attrs['cv_test_scores'])), arr(per), 'scores of the folds with the parameters of the trial', tol=1e-4)
        ctx.eq(study.values[i], mean(per), 'score of the trial', tol=1e-4)
    if store:
        ctx.true(len(stored) == n, 'a stored result for each trial')
        for i in range(n):
            for j, (tr, te) in enumerate(used):
                ctx.eq(stored[i]['fold_%d' % j].values, arr([[forecast(ctx, tuple(tr), r, c) * gains[i] for c in range(2)] for r in te]), 'forecasts of the trial', tol=1e-4)


def refused(ctx):
    """a parameter the model does not have is refused, an unknown kind of cross validation too"""
    from pyforecaster import trainer as T
    log = []
    x, y = data(ctx)
    names = ctx.choose('parameters', [['gain'], ['model__gain'], ['gian'], ['gain', 'gian'], ['gian', 'gain']])
    ok = names == ['gain']
    with stub(T, sklearn_cv=sklearn_cv(log)):
        try:
            model = estimator(ctx, log, ctx.flag('keeps any option'))()
            s = T.optuna_objective(Trial(), x, y, model, FOLDS[:1], scoring=scorers()[0], param_space_fun=lambda t: {k: 2. for k in names})
            ctx.true(ok, 'unknown parameters are refused')
            ctx.eq(s, expected(ctx, y, FOLDS[0], 2.)[0], 'score', tol=1e-5)
        except ValueError:
            ctx.true(not ok, 'known parameters are accepted')
        try:
            T.cross_validate(x, y, estimator(ctx, log)(), FOLDS, scoring=scorers()[0], cv_type='other')
            ctx.true(False, 'unknown kinds of cross validation are refused')
        except ValueError:
            ctx.reach('refused')


def results(ctx):
    """summary of a study: spread of the scores of the folds and rank of each trial"""
    from pyforecaster import trainer as T
    s = ctx.reals('score', (3, 2), -5, 5)
    order = ctx.choose('values', [[3., 1., 2.], [1., 1., 2.], [2., 3., 1.]])
    df = pd.DataFrame({'number': range(3), 'value': order, 'user_attrs_cv_test_scores': [s[i] for i in range(3)]})

    class Study:
        def trials_dataframe(self):
            return df.copy()
    r = T.retrieve_cv_results(Study())
    sqrt_is(ctx, r['cv_test_score_std'].values, arr([((s[i, 0] - s[i, 1]) / 2) * ((s[i, 0] - s[i, 1]) / 2) for i in range(3)]), 'spread of the folds')
    ctx.true(list(r['rank']) == [sorted(set(order)).index(v) + 1 for v in order], 'the best trial is the first')


CV = [P + 'cross_validate', P + 'get_score_key']
OBLIGATIONS = [
    Obligation('full', full, CV, '5 rows, 2 targets, 1 to 3 folds, 1 or 2 metrics, every forecast and target'),
    Obligation('random_fold', random_fold, CV, '5 rows, 2 targets, 1 to 3 folds, four seeds'),
    Obligation('all_folds', all_folds, CV, '1 to 3 folds, 30 draws'),
    Obligation('optimizer', optimizer, [P + 'hyperpar_optimizer', P + 'optuna_objective', P + 'base_storage_fun', 'pyforecaster.metrics.make_scorer'] + CV, '1 to 3 trials, 2 folds, any suggested parameter'),
    Obligation('refused', refused, [P + 'optuna_objective', P + 'cross_validate'], '5 rows'),
    Obligation('results', results, [P + 'retrieve_cv_results'], '3 trials, 2 folds')]
