from checks.common import *
from symx.core import SymBool
from symx import jaxpr as J

PRELOAD = ['pyforecaster.forecasting_models.neural_models.base_nn', 'pyforecaster.forecasting_models.neural_models.LSTM_bidir']
STUBS = ['the jaxpr (IR) of the real functions, traced by JAX on every run, is interpreted over terms', 'sqrt, exp, log, tanh, logistic, erf: uninterpreted with their ordering axioms',
         'network output inside the wrapper: arbitrary', 'optimiser step inside the training loop: new weights; losses: arbitrary', 'scalers: any affine map per column', 'the Keras model: arbitrary outputs']
OUTSIDE = 'quality of training, weight initialisation, training plots'
P = 'pyforecaster.forecasting_models.neural_models.'
COLS = ['f0', 'f1', 'f2']
Y = ['t0', 't1']


def make(kind='FFNN', **kw):
    from pyforecaster.forecasting_models.neural_models import base_nn
    kw = dict(dict(n_layers=2, n_hidden_x=2, n_out=2, q_vect=[.1, .5, .9], n_epochs=2, batch_size=2, stats_step=100), **kw)
    with quiet():
        m = getattr(base_nn, kind)(**kw)
    m.scengen = FakeScenGen()
    return m


def table(ctx, rows, cols, tag, lo=-5, hi=5, start='2021-03-01 22:00'):
    return pd.DataFrame(ctx.reals(tag, (rows, len(cols)), lo, hi), columns=cols, index=hours(rows, start=start))


def predict(ctx):
    """forecasts are the outputs of the network on the scaled rows, in the units of the target"""
    kind = ctx.choose('class', ['FFNN', 'LSTMNN', 'NN'])
    prob, norm = ctx.flag('probabilistic'), ctx.flag('normalised target')
    unn = ctx.choose('unnormalized', [None, ['f1'], ['f2', 'f0'], COLS])
    m = make(kind, probabilistic=prob, normalize_target=norm, unnormalized_inputs=unn, n_out=4 if prob else 2)
    x, y = table(ctx, 2, COLS, 'x'), table(ctx, 2, Y, 'y')
    x0, y0 = x.copy(), y.copy()
    todo = [c for c in COLS if c not in (unn or [])]
    m.input_scaler = Affine(ctx, 'in', todo) if todo else None
    m.target_scaler = Affine(ctx, 'out', Y) if norm else None
    m.target_columns = pd.Index(Y)
    z = arr([[(x0.loc[i, c] - m.input_scaler.mean_[todo.index(c)]) / m.input_scaler.scale_[todo.index(c)] if c in todo else x0.loc[i, c] for c in COLS] for i in x0.index])
    seen, t = m.get_normalized_inputs(x, y)
    ctx.eq(arr(seen), z, 'inputs, only the requested columns scaled')
    ctx.eq(arr(t), (y0.values - m.target_scaler.mean_) / m.target_scaler.scale_ if norm else y0.values, 'targets')
    O, V = ctx.reals('out', (2, 2), -5, 5), ctx.reals('var', (2, 2), .01, 9)
    calls = []

    def net(pars, i):
        calls.append((pars, i))
        return np.concatenate([O, V], axis=1) if prob else O.copy()
    m.predict_batch, m.pars = net, 'trained'
    r = m.predict(x, return_sigma=True)
    f, s = r if prob else (r, None)
    ctx.true(len(calls) == 1 and calls[0][0] == 'trained', 'the trained weights are used')
    got = arr(calls[0][1])
    ctx.true(got.shape == ((2, 3, 1) if kind == 'LSTMNN' else (2, 3)), 'shape of the inputs of the network')
    ctx.eq(got.reshape(2, 3), z, 'the network sees the scaled inputs')
    ctx.true(f.index.equals(x0.index) and list(f.columns) == Y, 'labels')
    ctx.eq(f.values, O * m.target_scaler.scale_ + m.target_scaler.mean_ if norm else O, 'forecasts in the units of the target')
    if prob:
        ctx.true(s.index.equals(x0.index) and list(s.columns) == Y, 'labels of sigma')
        sqrt_is(ctx, s.values, V * m.target_scaler.scale_ * m.target_scaler.scale_ if norm else V, 'sigma: root of the variance in the units of the target')
        alone = m.predict(x)
        ctx.eq(alone.values, f.values, 'the forecast does not depend on asking for sigma')
    ctx.eq(x.values, x0.values, 'the inputs of the caller are not modified')
    ctx.eq(y.values, y0.values, 'the targets of the caller are not modified')


def quantiles(ctx):
    """quantiles: gaussian around the forecast, or forecast plus the error quantiles of the hour"""
    from scipy.special import erfinv
    kind = ctx.choose('class', ['FFNN', 'LSTMNN', 'NN'])
    prob = ctx.flag('probabilistic')
    cond = ctx.flag('conditional to hour') if not prob else True
    m = make(kind, probabilistic=prob, normalize_target=prob, n_out=4 if prob else 2, unnormalized_inputs=COLS, q_vect=[.05, .3, .5, .95], conditional_to_hour=cond)
    m.target_columns = pd.Index(Y)
    rows = 3
    x = pd.DataFrame(np.arange(9.).reshape(3, 3), columns=COLS, index=pd.DatetimeIndex(['2021-03-01 23:00', '2021-03-02 22:00', '2021-03-02 23:30']))
    O, V = ctx.reals('out', (rows, 2), -5, 5), ctx.reals('var', (rows, 2), .01, 9)
    m.predict_batch = lambda pars, i: np.concatenate([O, V], axis=1) if prob else O.copy()
    m.target_scaler = Affine(ctx, 'out', Y)
    if prob:
        f, s = m.predict(x, return_sigma=True)
    D = ctx.reals('err', (2, 2, 4), -3, 3)
    m.err_distr = {22: D[0], 23: D[1]} if cond else D[0]
    q = m.predict_quantiles(x)
    ctx.true(np.shape(q) == (rows, 2, 4), 'row, target, level')
    if prob:
        e = np.stack([f.values + s.values * float(np.sqrt(2) * erfinv(2 * l - 1)) for l in m.q_vect], axis=-1)
        ctx.eq(q, e, 'gaussian quantiles', tol=1e-5)
        ctx.eq(q[:, :, 2], f.values, 'the median is the forecast', tol=1e-6)
        ctx.le(q[:, :, :-1], q[:, :, 1:], 'quantiles do not cross', tol=1e-6)
    else:
        ctx.eq(q, np.stack([O[r][:, None] + (D[0] if r == 1 or not cond else D[1]) for r in range(rows)]), 'forecast plus the error quantiles of the hour of the row')


class Loss:
    def __init__(self, v):
        self.v = v

    def block_until_ready(self):
        return self.v


def fit(stop):
    def h(ctx):
        """the training loop: batches of distinct aligned training rows, early stopping, weights that are kept, residuals"""
        from pyforecaster.forecasting_models.neural_models import base_nn
        kind = ctx.choose('class', ['FFNN', 'LSTMNN']) if not stop else 'FFNN'
        val = ctx.choose('validation ratio', [None, .25]) if not stop else .25
        norm = ctx.flag('normalised target') if not stop else False
        n, n_tr = 8, 6 if val else 8        # three steps an epoch with batches of two
        kw = dict(rel_tol=.01, stopping_rounds=5)
        if stop == 'rounds':
            kw = dict(rel_tol=-50., stopping_rounds=1)
        asked = ctx.choose('batch size', [2, 3, None, 20]) if not stop else 2
        bs = {None: 1, 20: n_tr}.get(asked, asked)       # a tenth of the rows unless requested, at least one and at most all of them
        m = make(kind, batch_size=asked, n_epochs=2, val_ratio=val, normalize_target=norm, unnormalized_inputs=['f0'], stats_step=1 if stop else 100, **kw)
        x = pd.DataFrame({'f0': np.arange(n) * 1., 'f1': [3., 1., 4., 1., 5., 9., 2., 6.], 'f2': 1. + np.arange(n) % 3}, index=hours(n, start='2021-03-01 20:00'))
        y = table(ctx, n, Y, 'y', start='2021-03-01 20:00')
        x0, y0 = x.copy(), y.copy()
        scalers = []

        class Scaler(Affine):
            def __init__(self, *a, **k):
                pass

            def set_output(self, **k):
                return self

            def fit(self, df, *a):
                Affine.__init__(self, ctx, 'sc%d' % len(scalers), list(df.columns))
                if len(scalers) == 0:
                    self.mean_, self.scale_ = arr([0.] * 2), arr([2.] * 2)
                scalers.append((self, df))
                return self
        steps, evals = [], []

        def step(pars, opt, i, t, **k):
            steps.append((pars, arr(i), arr(t)))
            return {'k': len(steps)}, opt, 0.

        def loss(pars, i, t, **k):
            if any(e[0] is pars and e[1] == 'val' for e in evals):
                evals.append((pars, 'tr', None))
                return 1.
            v = ctx.real('loss[%d]' % pars['k'], 1., 10.)
            evals.append((pars, 'val', v, arr(i), arr(t)))
            return v
        m.train_step, m.loss_fn = step, loss
        m.predict_batch = lambda p, i: np.array([[10. * r.ravel()[0] + p['k'], -r.ravel()[0]] for r in np.asarray(i, dtype=float)])
        seed = ctx.pick('seed', 0, 1)
        np.random.seed(seed)
        kws = dict(float=pass_float, compute_mean_losses=lambda a, b: (Loss(a), Loss(b))) if ctx.symbolic else {}
        with stub(base_nn, StandardScaler=Scaler, tqdm=no_tqdm, **kws), quiet():
            out = m.fit(x, y)
        ctx.true(out is m, 'fit returns the model')
        ctx.eq(x.values, x0.values, 'the inputs of the caller are not modified')
        ctx.eq(y.values, y0.values, 'the targets of the caller are not modified')

        def row(r):
            r = r.ravel()
            return int(round(float(r[0])))
        yz = y0.values
        if norm:
            sc = [s for s, df in scalers if list(df.columns) == Y][0]
            yz = (yz - sc.mean_) / sc.scale_
        xz = np.array([[a, b / 2., c / 2.] for a, b, c in x0.values])
        per = n_tr // bs
        used = []
        for k, (pars, i, t) in enumerate(steps):
            ids = [row(r) for r in i]
            used.append(ids)
            ctx.true(len(ids) == bs and all(0 <= r < n_tr for r in ids), 'batches of training rows')
            ctx.eq(i.reshape(bs, 3), xz[ids], 'scaled inputs of those rows', tol=1e-5)
            ctx.eq(t, yz[ids], 'targets of those rows', tol=1e-5)
            if k:
                ctx.true(pars == {'k': k}, 'each step starts from the previous one')
        for e in range(0, len(used), per):
            rows = [r for b in used[e:e + per] for r in b]
            ctx.true(len(set(rows)) == len(rows), 'no row twice in an epoch')
        vals = [e for e in evals if e[1] == 'val']
        for e in vals:
            ids = [row(r) for r in e[3]]
            ctx.true(len(set(ids)) == len(ids) and all(r >= n_tr for r in ids) if val else len(set(ids)) == len(ids), 'validation rows')
            ctx.eq(e[4], yz[ids], 'targets of the validation rows', tol=1e-5)
        if not stop:
            ctx.true(len(steps) == 2 * per and not vals, 'all the epochs')
            kept = len(steps)
        else:
            v = [e[2] for e in vals]
            early = len(steps) < 2 * per
            ctx.true(len(v) >= 2 and (early or len(v) == 2 * per - 1), 'evaluations')
            for j in range(1, len(v)):
                if stop == 'tolerance':
                    done = v[j - 1] - v[j] < .01 * (v[j - 1] + 1e-6)
                else:
                    # neither of the last two losses is the best so far
                    done = disj([v[i] < v[j] for i in range(j)])
                    done = done & disj([v[i] < v[j - 1] for i in range(j - 1)]) if j > 1 else v[j] != v[j]
                if j < len(v) - 1:
                    ctx.true(~done if isinstance(done, SymBool) else not done, 'training goes on while the validation loss improves')
                elif early:
                    ctx.true(done, 'training stops early only when the validation loss does not improve')
            last_eval, prev_eval = vals[-1][0]['k'], vals[-2][0]['k']
            kept = ite(v[-1] > v[-2], prev_eval * 1., len(steps) * 1.)
        ctx.eq(m.pars['k'] * 1., kept, 'the weights of the previous evaluation are kept if the last one is worse')
        errs, xs, _ = m.scengen.fits[-1]
        lo = n_tr if val else 0
        if norm:
            e = arr([[y0.values[r, 0] - ((10. * r + m.pars['k']) * sc.scale_[0] + sc.mean_[0]), y0.values[r, 1] - (-r * sc.scale_[1] + sc.mean_[1])] for r in range(lo, n)])
        else:
            e = arr([[y0.values[r, 0] - (10. * r + m.pars['k']), y0.values[r, 1] + r] for r in range(lo, n)])
        ctx.eq(errs.values, e, 'residuals of the trained network on the validation rows', tol=1e-5)
        ctx.true(list(xs.index) == list(x0.index[lo:]), 'rows of the residuals')
    return h


def losses(ctx):
    """the losses that are minimised: mean squared error, negative log likelihood, continuous ranked probability score of a gaussian"""
    from pyforecaster.forecasting_models.neural_models import base_nn
    f, y = ctx.reals('f', (2, 2), .1, 5), ctx.reals('y', (2, 2), .1, 5)
    kind = ctx.choose('kind', ['mse', 'likelihood', 'log likelihood', 'crps'])
    if kind == 'mse':
        m = make()
        m_loss = J.call(ctx, lambda f, y: base_nn.loss_fn(None, f, y, model=lambda p, i: i), f, y)
        ctx.eq(m_loss, mean([(a - b) * (a - b) for a, b in zip(f.ravel(), y.ravel())]), 'mean squared error', tol=1e-6)
        return
    sd = ctx.reals('sd', (2, 2), .1, 5) if kind != 'crps' else arr([[.5, 1.], [2., .25]])
    out = np.concatenate([f, sd * sd], axis=1)
    k, d = {'likelihood': ('maximum_likelihood', 'normal'), 'log likelihood': ('maximum_likelihood', 'log-normal'), 'crps': ('crps', 'normal')}[kind]
    got = J.call(ctx, lambda o, y: base_nn.probabilistic_loss_fn(None, o, y, model=lambda p, i: i, kind=k, distribution=d), out, y)

    def one(f, y, s):
        if kind == 'likelihood':
            return (f - y) * (f - y) / (s * s) + log(ctx, s * s)
        if kind == 'log likelihood':
            u = (log(ctx, f) - log(ctx, y))
            return u * u / (s * s) + log(ctx, s * s)
        u = (y - f) / s
        return s * (u * (2 * Phi(ctx, u) - 1) + 2 * phi(ctx, u) - 1 / math.sqrt(math.pi))
    ctx.eq(got, mean([one(*r) for r in zip(f.ravel(), y.ravel(), sd.ravel())]), 'loss', tol=1e-5)


def _jf(ctx, fun, v):
    return J.call(ctx, fun, arr([v]))[0] if isinstance(v, Sym) else float(np.asarray(fun(np.array([float(v)])))[0])


def log(ctx, v):
    import jax.numpy as jnp
    return _jf(ctx, jnp.log, v)


def Phi(ctx, v):
    import jax
    return _jf(ctx, jax.scipy.stats.norm.cdf, v)


def phi(ctx, v):
    import jax
    return _jf(ctx, jax.scipy.stats.norm.pdf, v)


def gradient(ctx):
    """one training step moves the weights along the gradient of the mean squared error of its batch"""
    import optax
    from pyforecaster.forecasting_models.neural_models import base_nn
    m = make('FFNN', n_layers=1)
    w, b = ctx.reals('w', (2, 2), -3, 3), ctx.reals('b', (2,), -3, 3)
    x, y = ctx.reals('x', (2, 2), -3, 3), ctx.reals('y', (2, 2), -3, 3)
    opt = optax.sgd(.5)
    p = {'params': {'dense_0': {'kernel': w, 'bias': b}}}
    new, loss = J.call(ctx, lambda p, x, y: (lambda r: (r[0], r[2]))(base_nn.train_step(p, opt.init(p), x, y, model=opt, loss_fn=m.loss_fn)), p, x, y)
    e = arr([[x[r, 0] * w[0, j] + x[r, 1] * w[1, j] + b[j] - y[r, j] for j in range(2)] for r in range(2)])
    ctx.eq(loss, mean([v * v for v in e.ravel()]), 'loss before the step', tol=1e-5)
    g = arr([[(e[0, j] * x[0, i] + e[1, j] * x[1, i]) / 2 for j in range(2)] for i in range(2)])
    ctx.eq(arr(new['params']['dense_0']['kernel']), w - g * .5, 'weights after the step', tol=1e-5)
    ctx.eq(arr(new['params']['dense_0']['bias']), b - (e[0] + e[1]) / 2 * .5, 'biases after the step', tol=1e-5)


def fill(tree, ctx, free, tag='w'):
    """weights of the network: symbols where asked, arbitrary constants elsewhere"""
    r = np.random.RandomState(5)

    def go(t, path):
        return {k: go(v, path + (k,)) if isinstance(v, dict) else (ctx.reals('%s/%s' % (tag, '/'.join(path + (k,))), np.shape(v), -3, 3) if free(path + (k,)) else r.randint(-8, 9, np.shape(v)) / 4.)
                for k, v in t.items()}
    return go(tree, ())


def put(tree, path, v):
    t = {k: u for k, u in tree.items()}
    t[path[0]] = put(t[path[0]], path[1:], v) if len(path) > 1 else v
    return t


def modules(ctx):
    """options of the feed-forward network: skip connections add a linear (or selected) part, heads do not share their own weights,
    and the forecast of a row is the same whatever the other rows"""
    option = ctx.choose('option', ['plain', 'skip', 'selector', 'heads'])
    layers = ctx.pick('layers', 1, 2)
    x = ctx.reals('x', (2, 3), -3, 3) if layers == 1 else np.concatenate([arr([[1., -2., .5]]), ctx.reals('x', (1, 3), -3, 3)])
    kw = {'plain': {}, 'skip': dict(skip_connection=True), 'selector': dict(selector=np.array([2, 0])), 'heads': dict(split_heads=True)}[option]
    m, ref = make('FFNN', n_layers=layers, **kw), make('FFNN', n_layers=layers)
    tree = m.init_arch(m.model, 3)
    p = fill(tree, ctx, lambda q: 'dense_-1' in q or ('subnet_out_1' in q) or ('dense_%d' % (layers - 1) in q))
    got = J.call(ctx, m.predict_batch, p, x)
    ctx.true(got.shape == (2, 2), 'a row for each row')
    one = J.call(ctx, m.predict_batch, p, x[:1])
    ctx.eq(got[:1], one, 'the forecast of a row does not depend on the others', tol=1e-5)
    if option == 'heads':
        q = put(p, ('params', 'subnet_in_1', 'bias'), ctx.reals('other', np.shape(p['params']['subnet_in_1']['bias']), -3, 3))
        q = put(q, ('params', 'subnet_out_1', 'kernel'), ctx.reals('other out', np.shape(p['params']['subnet_out_1']['kernel']), -3, 3))
        ctx.eq(J.call(ctx, m.predict_batch, q, x)[:, 0], got[:, 0], 'a head does not depend on the weights of another one', tol=1e-5)
        return
    plain = {'params': {k: v for k, v in p['params'].items() if k != 'dense_-1'}}
    base = J.call(ctx, ref.predict_batch, plain, x)
    if option == 'skip':
        w, b = p['params']['dense_-1']['kernel'], p['params']['dense_-1']['bias']
        base = base + arr([[sum(x[r, i] * w[i, j] for i in range(3)) + b[j] for j in range(2)] for r in range(2)])
    if option == 'selector':
        base = base + x[:, [2, 0]]
    ctx.eq(got, base, 'the skipped part is added to the network', tol=1e-5)


def recurrent(ctx):
    """the recurrent network reads the sequence in order, from the first to the last step, and nothing else"""
    m = make('LSTMNN', n_layers=1, n_out=1)
    tree = m.init_arch(m.model, 3, 1)
    p = fill(tree, ctx, lambda q: False)
    x = ctx.reals('x', (2, 3, 1), -3, 3)
    mul = J._mul if ctx.symbolic else lambda a, b: a * b
    with J.linear():
        got = J.call(ctx, m.predict_batch, p, x, single=True)
        c = p['params'][[k for k in p['params'] if 'LSTM' in k][0]]
        d = p['params']['Dense_0']
        exp = []
        for r in range(2):
            h = cell = 0.
            for t in range(3):
                g = {k: x[r, t, 0] * float(c['i' + k]['kernel'][0, 0]) + h * float(c['h' + k]['kernel'][0, 0]) + float(c['h' + k]['bias'][0]) for k in 'ifgo'}
                cell = mul(sig(ctx, g['f']), cell) + mul(sig(ctx, g['i']), tanh(ctx, g['g']))
                h = mul(sig(ctx, g['o']), tanh(ctx, cell))
            exp.append(h * float(d['kernel'][0, 0]) + float(d['bias'][0]))
    ctx.eq(got[:, 0], arr(exp), 'recurrence over the steps of the row', tol=1e-4)


def sig(ctx, v):
    import jax
    return _jf(ctx, jax.nn.sigmoid, v)


def tanh(ctx, v):
    import jax.numpy as jnp
    return _jf(ctx, jnp.tanh, v)


def keras_windows(ctx):
    """LSTM_Forecaster: each sample is a window of past values, the exogenous row at its end and the values that follow; forecasts are labelled with the time of their first step"""
    from pyforecaster.forecasting_models.neural_models import LSTM_bidir
    h, H = ctx.pick('history', 1, 3), ctx.pick('horizon', 1, 3)
    n = 8
    ratio = ctx.choose('validation', [.2, .5])
    pos = ctx.choose('position of the target', [0, 1, 2])
    cols = ['e0', 'e1']
    cols.insert(pos, 'tgt')
    df = table(ctx, n, cols, 'd')
    df0 = df.copy()

    class Scaler(Affine):
        n = 0

        def fit(self, a, *k):
            Affine.__init__(self, ctx, 'sc%d' % a.shape[1], range(a.shape[1]))
            self.fitted = np.array(a)
            return self

        def transform(self, a):
            return (np.asarray(a) - self.mean_) / self.scale_

        def fit_transform(self, a, *k):
            return self.fit(a).transform(a)

        def __init__(self, *a, **k):
            pass

    class Net:
        calls = []

        def fit(self, x, y=None, **k):
            self.calls.append((x, y, k))

        def predict(self, x, *a, **k):
            self.seen = x
            return out[:len(x[0])]
    net = Net()
    net.calls = []
    with stub(LSTM_bidir, StandardScaler=Scaler):
        m = LSTM_bidir.LSTM_Forecaster('tgt', h, H, q_vect=[.5])
        m._build_model = lambda *a, **k: net
        with quiet():
            m.fit(df, epochs=1, val_split=ratio)
    x, y, k = net.calls[0]
    T, E = df0['tgt'].values, df0[['e0', 'e1']].values
    T = (T - m.target_scaler.mean_[0]) / m.target_scaler.scale_[0]
    E = (E - m.exog_scaler.mean_) / m.exog_scaler.scale_
    total = n - h - H + 1
    (vx, vy) = k['validation_data']
    ntr = len(x[0])
    ctx.true(ntr == int((1 - ratio) * total) and ntr + len(vx[0]) == total, 'training samples first, then those for validation')
    seq, ex, ty = (np.concatenate([np.asarray(a), np.asarray(b)]) for a, b in ((x[0], vx[0]), (x[1], vx[1]), (y, vy)))
    ctx.true(seq.shape == (total, h, 1) and ex.shape == (total, 2) and ty.shape == (total, H), 'shape of the samples')
    ctx.eq(seq[:, :, 0], arr([list(T[i:i + h]) for i in range(total)]), 'past values')
    ctx.eq(ex, arr([list(E[i + h - 1]) for i in range(total)]), 'exogenous inputs at the end of the window')
    ctx.eq(ty, arr([list(T[i + h:i + h + H]) for i in range(total)]), 'the values that follow')
    new = table(ctx, 5, cols, 'new', start='2021-04-01')
    new0 = new.copy()
    out = ctx.reals('out', (5, H), -5, 5)
    f = m.predict(new)
    T = (new0['tgt'].values - m.target_scaler.mean_[0]) / m.target_scaler.scale_[0]
    E = (new0[['e0', 'e1']].values - m.exog_scaler.mean_) / m.exog_scaler.scale_
    s = net.seen
    ctx.eq(arr(s[0])[:, :, 0], arr([list(T[i:i + h]) for i in range(5 - h)]), 'windows at prediction time')
    ctx.eq(arr(s[1]), arr([list(E[i + h - 1]) for i in range(5 - h)]), 'exogenous inputs at prediction time')
    ctx.true(f.index.equals(new0.index[h:]) and list(f.columns) == ['tgt_%d' % (i + 1) for i in range(H)], 'labels')
    ctx.eq(f.values, out[:5 - h] * m.target_scaler.scale_[0] + m.target_scaler.mean_[0], 'forecasts in the units of the target')
    ctx.eq(df.values, df0.values, 'the table of the caller is not modified')
    ctx.eq(new.values, new0.values, 'the table of the caller is not modified')


OBLIGATIONS = [
    Obligation('predict', predict, [P + 'base_nn.NN.predict', P + 'base_nn.NN.get_normalized_inputs', P + 'base_nn.LSTMNN.check_inputs'], '2 rows, 3 features, 2 targets, every scaling and output'),
    Obligation('quantiles', quantiles, [P + 'base_nn.NN.predict_quantiles', P + 'base_nn.NN.predict'], '3 rows, 2 targets, 4 levels'),
    Obligation('fit', fit(None), [P + 'base_nn.NN.fit', P + 'base_nn.NN.get_normalized_inputs'], '8 rows, batches of 2, 3, all or the default number of rows, 2 epochs, two seeds'),
    Obligation('losses', losses, [P + 'base_nn.loss_fn', P + 'base_nn.probabilistic_loss_fn', P + 'base_nn.probabilistic_loss'], '2 rows, 2 targets'),
    Obligation('gradient', gradient, [P + 'base_nn.train_step', P + 'base_nn.loss_fn', P + 'base_nn.predict_batch'], 'linear network, 2 rows, 2 features, 2 targets, plain gradient descent'),
    Obligation('modules', modules, [P + 'base_nn.FeedForwardModule.__call__', P + 'base_nn.FFNN.set_arch', P + 'base_nn.predict_batch'], '1 or 2 layers, 3 features, 2 outputs, 2 rows, weights of the last layer and of the skip symbolic'),
    Obligation('recurrent', recurrent, [P + 'base_nn.LSTMModule.__call__', P + 'base_nn.LSTMNN.set_arch'], '1 layer, 3 steps, 2 rows, every input'),
    Obligation('keras_windows', keras_windows, [P + 'LSTM_bidir.LSTM_Forecaster.fit', P + 'LSTM_bidir.LSTM_Forecaster.predict'], '8 rows, histories and horizons 1 to 3'),
    Obligation('fit_tolerance', fit('tolerance'), [P + 'base_nn.NN.fit'], 'up to 8 evaluations, every sequence of losses'),
    Obligation('fit_rounds', fit('rounds'), [P + 'base_nn.NN.fit'], 'up to 8 evaluations, every sequence of losses'),
]
