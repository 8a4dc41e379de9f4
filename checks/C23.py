from checks.common import *
from symx import jaxpr as J

PRELOAD = ['pyforecaster.forecasting_models.neural_models.layers', 'pyforecaster.forecasting_models.neural_models.INN']
STUBS = ['the jaxpr (IR) of the real function, traced by JAX on every run, is interpreted over terms', 'exp, log, tanh: uninterpreted, positive / increasing / mutually inverse / bounded',
         'linloglin inside multi-layer modules: an arbitrary invertible function (its own inverse is decided separately)', 'embedding, inversion and network output inside the wrapper: arbitrary functions of the row']
OUTSIDE = 'rounding of single precision; training; softplus activation; layer normalisation; |x| > e^12 for invcondiff (clipped by design)'
P = 'pyforecaster.forecasting_models.neural_models.'


def linloglin(ctx):
    """the activation has the stated inverse on the whole line, is strictly increasing, and never exponentiates large numbers"""
    from pyforecaster.forecasting_models.neural_models import layers as L
    x, y = ctx.real('x', -1000, 1000), ctx.real('y', -1000, 1000)
    both = arr([x, y])
    f = J.call(ctx, L.linloglin, both)
    ctx.eq(J.call(ctx, L.linloglin_inverse, f), both, 'the inverse gives the argument back', tol=1e-6)
    ctx.true((x >= y - 1e-6) | (f[0] < f[1]), 'strictly increasing')


def overflow(ctx):
    """single precision exponentials inside the inverse stay finite"""
    from pyforecaster.forecasting_models.neural_models import layers as L
    y = ctx.real('y', -1e6, 1e6)
    name = ctx.choose('inverse', ['linloglin_inverse', 'invcondiff_inverse'])
    seen = []
    orig = J.EL['exp']

    def spy(v):
        seen.append(v)
        return orig(v)
    if ctx.symbolic:
        J.EL['exp'] = spy
        try:
            J.call(ctx, getattr(L, name), arr([y]))
        finally:
            J.EL['exp'] = orig
        for v in seen:
            ctx.le(v, 80, 'exponent below the overflow of single precision')
        ctx.true(len(seen) > 0, 'exponentials seen')
    else:
        import jax.numpy as jnp
        ctx.true(bool(np.isfinite(np.asarray(getattr(L, name)(jnp.asarray([y], dtype=jnp.float32)))).all()), 'exponent below the overflow of single precision')


def invcondiff(ctx):
    from pyforecaster.forecasting_models.neural_models import layers as L
    a, c = ctx.choose('a', [1, 2]), ctx.choose('c', [1, 2])
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    both = arr([x, y])
    f = J.call(ctx, lambda v: L.invcondiff(v, a, c), both)
    if ctx.symbolic:
        J.uf('log', 160000.)
    ctx.eq(J.call(ctx, lambda v: L.invcondiff_inverse(v, a, c), f), both, 'the inverse gives the argument back', tol=1e-5)
    ctx.true((x >= y - 1e-6) | (f[0] < f[1]), 'strictly increasing')


def _pars(ctx, n, layers):
    return {'params': {'layers_%d' % i: {'kernel': ctx.reals('k%d' % i, (n * (n - 1) // 2, 1), -3, 3), 'bias': ctx.reals('b%d' % i, (n,), -3, 3)} for i in range(layers)}}


class abstract_activation:
    """the activation of the layers is any invertible function (symbolic runs only; its real inverse is decided by the obligation linloglin)"""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        if self.on:
            import functools, jax
            from pyforecaster.forecasting_models.neural_models import INN, layers as L
            self.i = J.Inverse('linloglin', 'linloglin_inverse')
            self.i.__enter__()
            self.old = INN.CausalInvertibleLayer
            INN.CausalInvertibleLayer = functools.partial(self.old, activation=jax.jit(L.linloglin))

    def __exit__(self, *a):
        if self.on:
            from pyforecaster.forecasting_models.neural_models import INN
            INN.CausalInvertibleLayer = self.old
            self.i.__exit__()


def module(layers, n):
    def h(ctx):
        from pyforecaster.forecasting_models.neural_models import INN
        p = _pars(ctx, n, layers)
        x = ctx.reals('x', (2, n), -50, 50)
        i = ctx.pick('position', 0, n - 2)
        later = x[:1].copy()
        later[0, i + 1:] = x[1, i + 1:]
        with abstract_activation(ctx):
            m = INN.CausalInvertibleModule(num_layers=layers, features=n)
            emb = lambda p, x: m.apply(p, x, method='predict')
            e = J.call(ctx, emb, p, x)
            ctx.true(e.shape == x.shape, 'one value per input')
            ctx.eq(J.call(ctx, lambda p, y: INN.invert(p, y, m), p, e), x, 'inverting the transformation gives the data back', tol=1e-5)
            for r in range(2):
                ctx.eq(J.call(ctx, m.apply, p, x[r]), e[r], 'training and prediction use the same transformation', tol=1e-6)
            el = J.call(ctx, emb, p, later)
            ctx.eq(el[0, :i + 1], e[0, :i + 1], 'a value does not depend on later inputs', tol=1e-6)
            back = J.call(ctx, lambda p, y: INN.invert(p, y, m), p, later)
            b0 = J.call(ctx, lambda p, y: INN.invert(p, y, m), p, x[:1])
            ctx.eq(back[0, :i + 1], b0[0, :i + 1], 'the inverse does not depend on later values', tol=1e-6)
            # and it does depend on its own input
            ctx.eq(J.call(ctx, emb, p, b0), x[:1], 'transforming the inverse gives the values back', tol=1e-5)
    return h


def layer(ctx):
    """each layer is undone by its own inverse, whatever its activation"""
    from pyforecaster.forecasting_models.neural_models import layers as L
    from pyforecaster.forecasting_models.neural_models.neural_utils import identity
    from flax import linen as nn
    n = 2
    act = ctx.choose('activation', ['linloglin', 'invcondiff', 'invcondiff_inverse', 'leaky_relu', 'identity', 'none'])
    kw = dict(activation={'linloglin': L.linloglin, 'invcondiff': L.invcondiff, 'invcondiff_inverse': L.invcondiff_inverse, 'leaky_relu': nn.leaky_relu, 'identity': identity, 'none': L.linloglin}[act])
    m = L.CausalInvertibleLayer(features=n, prediction_layer=act == 'none', scaling_factor=ctx.choose('scaling', [.1, 1.]), **kw)
    p = {'params': {'kernel': ctx.reals('k', (1, 1), -3, 3), 'bias': ctx.reals('b', (n,), -3, 3)}}
    x = ctx.reals('x', (1, n), -5, 5)
    if ctx.symbolic:
        J.uf('exp', 11.5)
        J.uf('log', 20.)
    y = J.call(ctx, lambda p, x: m.apply(p, x, method='predict'), p, x)
    ctx.eq(J.call(ctx, lambda p, y: m.apply(p, y, method='invert'), p, y), x, 'inverting a layer gives its input back', tol=1e-5)
    ctx.eq(J.call(ctx, m.apply, p, x[0]), y[0], 'training and prediction use the same layer', tol=1e-6)
    t = J.uf('tanh', p['params']['kernel'][0, 0]) if ctx.symbolic else np.tanh(p['params']['kernel'][0, 0])
    if act in ('none', 'identity'):
        ctx.eq(y, arr([[x[0, 0] + p['params']['bias'][0], x[0, 1] + x[0, 0] * t * m.scaling_factor / n + p['params']['bias'][1]]]), 'unit diagonal plus bounded lower triangular part', tol=1e-6)


def end_to_end_module(ctx):
    """the embedding of the history is invertible, exogenous inputs only feed the predictor"""
    from pyforecaster.forecasting_models.neural_models import INN
    ne, n, k = ctx.pick('exogenous', 0, 2), 2, 1
    x = ctx.reals('x', (1, ne + n), -50, 50)
    x2 = np.concatenate([ctx.reals('other exogenous', (1, ne), -50, 50), x[:, ne:]], axis=1)
    with abstract_activation(ctx):
        m = INN.EndToEndCausalInvertibleModule(num_embedding_layers=2, num_prediction_layers=1, features_embedding=n, features_prediction=3, n_exogenous_features=ne, n_out=k)
        p = {'params': {'embedder': _pars(ctx, n, 2)['params'],
                        'predictor': {d: {'kernel': ctx.reals(d, (ne + n, k), -2, 2), 'bias': ctx.reals(d + 'b', (k,), -2, 2)} for d in ('dense_-1', 'dense_0')}}}
        e = J.call(ctx, lambda p, x: INN.embed(p, x, m), p, x)
        ctx.eq(J.call(ctx, lambda p, y: INN.invert(p, y, m), p, e), x[:, ne:], 'inverting the embedding gives the history back', tol=1e-5)
        if ne:
            ctx.eq(J.call(ctx, lambda p, x: INN.embed(p, x, m), p, x2), e, 'the embedding does not depend on the exogenous inputs', tol=1e-6)
        out = J.call(ctx, m.apply, p, x[0])
        w = p['params']['predictor']
        z = list(e[0]) + list(x[0, :ne])
        ctx.eq(out, arr([sum((w['dense_-1']['kernel'][i, 0] + w['dense_0']['kernel'][i, 0]) * z[i] for i in range(n + ne)) + w['dense_-1']['bias'][0] + w['dense_0']['bias'][0]]),
               'the predictor sees the embedding and the exogenous inputs', tol=1e-6)


def _nn(INN, n_in, n_out, kind, exo):
    with quiet():
        m = INN.CausalInvertibleNN(n_in=n_in, n_hidden_x=n_in, n_out=n_out, n_layers=2, end_to_end=kind, names_exogenous=exo, q_vect=[.1, .5, .9], n_hidden_y=4, n_prediction_layers=2)
    return m


HIST = ['lag_9', 'lag_10', 'a_lag']     # in no alphabetical order


def wrapper(ctx):
    """forecasts are the inverse of [embedding shifted by the horizon, forecasted embedding], for each row, whatever the order of the columns"""
    from pyforecaster.forecasting_models.neural_models import INN
    kind = ctx.choose('training', ['full', 'quasi', 'none'])
    n_out, exo = ctx.pick('steps', 1, 2), ctx.choose('exogenous names', [None, ['u'], ['v', 'm']])
    n_h = ctx.pick('history', n_out, 3)
    ne = len(exo or [])
    rows = 2
    idx = hours(rows, start='2021-03-01 22:00')
    cols = {c: np.arange(rows) + 10. * (k + 1) for k, c in enumerate((exo or []) + HIST[:n_h])}
    order = list(cols)
    if ctx.flag('exogenous columns last'):
        order = order[ne:] + order[:ne]
    x = pd.DataFrame(cols, index=idx)[order]
    x0 = x.copy()
    with concretely(), quiet():
        m = INN.CausalInvertibleNN(n_in=n_h + ne, n_out=n_out, n_layers=2, end_to_end=kind, names_exogenous=exo, q_vect=[.1, .5, .9], n_prediction_layers=2)
    m.target_columns = ['t%d' % i for i in range(n_out)]
    m.pars = {}
    m.unnormalized_inputs, m.normalize_target = x.columns, False
    canon = {tuple(float(cols[c][r]) for c in cols): r for r in range(rows)}

    def row_of(a):
        return [canon.get(tuple(float(u) for u in r), -1) for r in np.asarray(a)]
    E, H = ctx.reals('e', (rows, n_h), -9, 9), ctx.reals('eh', (rows, n_out), -9, 9)
    M = ctx.reals('inverse', (n_h, n_h), -3, 3)
    seen = []

    def embed(pars, a, model):
        seen.append(row_of(a))
        return E[row_of(a)]

    def pred(pars, a):
        seen.append(row_of(a))
        return H[row_of(a)]
    m.predict_batch = pred

    class Plt:
        def __getattr__(self, k):
            if k == 'subplots':
                return lambda *a, **q: (Plt(), [Plt(), Plt()])
            return lambda *a, **q: Plt()
    with stub(INN, embed=embed, invert=lambda pars, y, model: np.dot(y, M), plt=Plt()):
        p = m.predict(x)
        ctx.true(x.equals(x0), 'the input is not modified')
        ctx.true(p.index.equals(idx) and list(p.columns) == m.target_columns, 'labels')
        ctx.true(len(seen) > 0 and all(s == list(range(rows)) for s in seen), 'exogenous inputs first, then the history in its order')
        if kind == 'none':
            ctx.eq(p.values, H, 'the output of the network')
        else:
            full = [[E[r, j] for j in range(n_out, n_h)] + [H[r, j] for j in range(n_out)] for r in range(rows)]
            ctx.eq(p.values, arr([[sum(full[r][i] * M[i, j] for i in range(n_h)) for j in range(n_h - n_out, n_h)] for r in range(rows)]), 'inverse of the shifted embedding')
        # inversion of embeddings keeps their labels
        y = pd.DataFrame(E, index=idx, columns=['c%d' % i for i in range(n_h)])
        inv = m.invert(y)
        ctx.true(inv.index.equals(idx) and list(inv.columns) == list(y.columns), 'inverted values keep their labels')
        ctx.eq(inv.values, np.dot(E, M), 'inverted values')
        # quantiles
        cond = ctx.flag('conditional')
        D = ctx.reals('err', (2, n_out, 3), -3, 3)
        m.conditional_to_hour = cond
        m.err_distr = {h: D[h - 22] for h in (22, 23)} if cond else D[0]
        q = m.predict_quantiles(x)
        ctx.eq(q, arr([[[p.values[r, j] + D[r if cond else 0, j, k] for k in range(3)] for j in range(n_out)] for r in range(rows)]), 'quantiles = forecast + error quantiles of the hour')


def training_losses(ctx):
    """what is minimised: the error of the forecast that predict returns (full), or its error in the embedded space, relative to a scale of that space (quasi)"""
    from pyforecaster.forecasting_models.neural_models import INN
    ne, n_h = ctx.pick('exogenous', 0, 1), 3
    n = ctx.pick('steps', 1, 2)
    rows = 2
    U = np.array([[1., .5, -.25], [0., 1., 2.], [0., 0., 1.]])     # value i depends on the values up to i
    inv = np.linalg.inv(U)
    embed, invert = (lambda p, a: a[:, ne:] @ U), (lambda p, y: y @ inv)
    H = ctx.reals('embedded forecast', (rows, n), -5, 5)
    full = ctx.flag('full')
    if full:
        x, t = ctx.reals('x', (rows, ne + n_h), -5, 5), ctx.reals('t', (rows, n), -5, 5)
        got = J.call(ctx, lambda h, x, t: INN.full_end_to_end_loss_fn(h, x, t, model=lambda p, i: p, embedder=embed, inverter=invert), H, x, t)
        e = np.dot(x[:, ne:], U)
        z = np.concatenate([e[:, n:], H], axis=1)
        f = np.dot(z, inv)[:, n_h - n:]
        ctx.eq(got, mean([(a - b) * (a - b) for a, b in zip(f.ravel(), t.ravel())]), 'mean squared error of the forecast', tol=1e-5)
        return
    x, t = np.array([[3., 1., 2., -1.], [-2., 4., 0., 1.]])[:, 1 - ne:], np.array([[2., -3.], [1., .5]])[:, :n]
    loss = lambda h, emb=embed: J.call(ctx, lambda h, x, t: INN.quasi_end_to_end_loss_fn(h, x, t, model=lambda p, i: p, embedder=emb), h, x, t)
    e = np.concatenate([x[:, ne:][:, n:], t], axis=1) @ U
    target = e[:, n_h - n:]
    other = target + np.array([[1., 2.], [-1., .5]])[:, :n]
    scale = loss(other)
    ctx.true(bool(np.isfinite(float(scale))) and float(scale) > 0, 'finite and positive when the forecast is wrong')
    mse = lambda h: mean([(a - b) * (a - b) for a, b in zip(h.ravel(), target.ravel())])
    got = loss(H)
    ctx.eq(got * float(mse(other)), mse(H) * float(scale), 'proportional to the mean squared error between the forecasted embedding and the embedding of the target', tol=1e-4)
    ctx.eq(loss(H * 2., lambda p, a: 2. * embed(p, a)), got, 'not lowered by shrinking the embedding', tol=1e-4)


F = [P + 'layers.CausalInvertibleLayer.' + f for f in ('setup', '__call__', 'predict', 'invert', 'invert_activation')] + [P + 'layers.vector_to_lower_triangular']
OBLIGATIONS = [
    Obligation('linloglin', linloglin, [P + 'layers.linloglin', P + 'layers.linloglin_inverse'], '|x| <= 1000'),
    Obligation('overflow', overflow, [P + 'layers.linloglin_inverse', P + 'layers.invcondiff_inverse', P + 'layers.safe_exp'], '|y| <= 1e6'),
    Obligation('invcondiff', invcondiff, [P + 'layers.invcondiff', P + 'layers.invcondiff_inverse', P + 'layers.safe_exp'], '|x| <= 1e5, slope and width 1-2'),
    Obligation('layer', layer, F + [P + 'layers.linloglin', P + 'layers.invcondiff', P + 'layers.invcondiff_inverse'], '2 features, every kernel, bias and |x| <= 5, 5 activations and the prediction layer'),
    Obligation('end_to_end_module', end_to_end_module, F + [P + 'INN.EndToEndCausalInvertibleModule.' + f for f in ('setup', '__call__', 'embed', 'invert')] + [P + 'INN.embed', P + 'INN.invert'],
               '2 embedding layers of 2 features, 1 linear prediction layer, 0-2 exogenous inputs'),
    Obligation('wrapper', wrapper, [P + 'INN.CausalInvertibleNN.' + f for f in ('predict', 'invert', 'reorder_inputs', 'predict_quantiles', 'set_arch')] + [P + 'base_nn.NN.get_normalized_inputs'],
               '2 rows, history 1-3, 1-2 steps, 0-2 exogenous'),
    Obligation('training_losses', training_losses, [P + 'INN.full_end_to_end_loss_fn', P + 'INN.quasi_end_to_end_loss_fn'], '2 rows, history 3, 1-2 steps, 0-1 exogenous, one linear causal embedding, every forecast (and every data for the full loss)'),
]
Q, T = ('quick', 'thorough'), ('thorough',)
for _l, _n, _t in ((1, 2, Q), (2, 3, Q), (3, 3, Q), (4, 2, Q), (3, 4, T)):
    OBLIGATIONS.append(Obligation('module_%d_%d' % (_l, _n), module(_l, _n), F + [P + 'INN.CausalInvertibleModule.' + f for f in ('__call__', 'predict', 'invert')] + [P + 'INN.invert'],
                                  '%d layers of %d features, every kernel, bias and input' % (_l, _n), tiers=_t))
