from checks.common import *
from symx import jaxpr as J

PRELOAD = ['pyforecaster.forecasting_models.neural_models.layers', 'pyforecaster.forecasting_models.neural_models.ICNN']
STUBS = ['the jaxpr (IR) of the real function, traced by JAX on every run, is interpreted over terms', 'exp, log, logistic: uninterpreted, positive / increasing / mutually inverse / bounded',
         'optimiser steps: arbitrary new weights', 'scalers: any affine map per column', 'network output inside the wrapper: arbitrary', 'rounds of the control optimisation: arbitrary iterates']
OUTSIDE = 'rounding of single precision; quality of training and of the control optimisation; quasi-convexity of PIQCNN; median of log-normal quantiles'
P = 'pyforecaster.forecasting_models.neural_models.'


def _layer(ctx, ny, nz, no, nx, prediction, aug, lo=-3, hi=3):
    c = 2 if aug else 1
    p = {'wzu': {'kernel': ctx.reals('wzu', (nx, nz), lo, hi), 'bias': ctx.reals('wzu_b', (nz,), lo, hi)},
         'wyu': {'kernel': ctx.reals('wyu', (nx, ny * c), lo, hi), 'bias': ctx.reals('wyu_b', (ny * c,), lo, hi)},
         'wz': {'kernel': ctx.reals('wz', (nz, no), 0, hi)},
         'wy': {'kernel': ctx.reals('wy', (ny * c, no), lo, hi)},
         'wuz': {'kernel': ctx.reals('wuz', (nx, no), lo, hi), 'bias': ctx.reals('wuz_b', (no,), lo, hi)}}
    if not prediction:
        p['u_dense'] = {'kernel': ctx.reals('u', (nx, nx), lo, hi), 'bias': ctx.reals('u_b', (nx,), lo, hi)}
    return {'params': p}


def convex_layer(ctx):
    """inductive step: a layer with non-negative wz keeps functions of the controls convex"""
    from pyforecaster.forecasting_models.neural_models.layers import PICNNLayer
    last, aug = ctx.flag('last layer'), ctx.flag('augmented')
    ny, nz, no, nx = 1, 2, 1, 1
    p = _layer(ctx, ny, nz, no, nx, last, aug)
    m = PICNNLayer(features_x=nx, features_y=ny * (2 if aug else 1), features_out=no, features_latent=nz, prediction_layer=last, augment_ctrl_inputs=aug)
    u = ctx.reals('u', (nx,), -3, 3)
    ya, yb = ctx.reals('ya', (ny,), -3, 3), ctx.reals('yb', (ny,), -3, 3)
    za, zb, zm = (ctx.reals(k, (nz,), -3, 3) for k in ('za', 'zb', 'zm'))
    for k in range(nz):
        ctx.assume(zm[k] * 2 <= za[k] + zb[k])
    out = [J.call(ctx, m.apply, p, y, u, z) for y, z in ((ya, za), (yb, zb), ((ya + yb) / 2, zm))]
    if not last:
        ctx.eq(out[0][0], out[1][0], 'the exogenous path does not depend on the controls')
    ctx.le(out[2][1] * 2, out[0][1] + out[1][1], 'convexity is kept by the layer', tol=1e-6)


def monotone_layer(ctx):
    from pyforecaster.forecasting_models.neural_models.layers import PICNNLayer
    from flax import linen as nn
    last = ctx.flag('last layer')
    ny, nz, no, nx = 1, 2, 1, 1
    p = _layer(ctx, ny, nz, no, nx, last, False)
    p['params']['wy']['kernel'] = ctx.reals('wy+', (ny, no), 0, 3)
    bounds = dict(z_min=-1., z_max=2.) if last and ctx.flag('bounded') else {}
    m = PICNNLayer(features_x=nx, features_y=ny, features_out=no, features_latent=nz, prediction_layer=last, activation=nn.sigmoid, rec_activation=nn.sigmoid, **bounds)
    u = ctx.reals('u', (nx,), -3, 3)
    ya, yb = ctx.reals('ya', (ny,), -3, 3), ctx.reals('yb', (ny,), -3, 3)
    za, zb = (ctx.reals(k, (nz,), -3, 3) for k in ('za', 'zb'))
    ctx.assume(ya[0] <= yb[0])
    for k in range(nz):
        ctx.assume(za[k] <= zb[k])
    a, b = [J.call(ctx, m.apply, p, y, u, z)[1] for y, z in ((ya, za), (yb, zb))]
    ctx.le(a, b, 'monotonicity is kept by the layer', tol=1e-6)
    if bounds:
        ctx.le(-1., a, 'lower bound of the output', tol=1e-6)
        ctx.le(a, 2., 'upper bound of the output', tol=1e-6)


CTRL = ['c1', 'c0']          # not in the order of the columns
COLS = ['c0', 'x0', 'c1', 'x1']


def make(kind, layers=2, **kw):
    from pyforecaster.forecasting_models.neural_models import ICNN
    kw = dict(dict(n_layers=layers, n_hidden_x=2, n_latent=2, n_out=2, optimization_vars=CTRL, q_vect=[.1, .5, .9], n_epochs=2, batch_size=2,
                   stats_step=100, normalize_target=False, unnormalized_inputs=['x1']), **kw)
    if kind == 'StructuredPICNN':
        kw['objective_fun'] = lambda a, c: a.sum() + c.sum()
    if kind == 'LatentStructuredPICNN':
        kw.update(n_encoder_layers=layers, n_decoder_layers=layers, n_embeddings=2)
    with quiet():
        m = getattr(ICNN, kind)(**kw)
    m.scengen = FakeScenGen()
    return m


def data(rows=4):
    r = np.random.RandomState(3)
    x = pd.DataFrame(r.randn(rows, 4).round(2), columns=COLS, index=hours(rows))
    y = pd.DataFrame(r.randn(rows, 2).round(2), columns=['t0', 't1'], index=x.index)
    return x, y


def leaves(tree, path=()):
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def symbolic_tree(ctx, tree, tag, free=lambda path: True, lo=-3, hi=3):
    r = np.random.RandomState(7)
    out = {}

    def put(path, v):
        d = out
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = v
    for path, v in leaves(tree):
        c = r.randint(-8, 9, np.shape(v)) / 4.
        put(path, ctx.reals(tag + '/'.join(path), np.shape(v), lo, hi) if free(path) else c)
    return out


KINDS = {'PICNN': 'convex', 'RecStablePICNN': 'convex', 'PIQCNN': 'convex', 'PIQCNNSigmoid': 'monotone', 'StructuredPICNN': 'monotone', 'LatentStructuredPICNN': 'latent'}


def signed(kind, path):
    """weights which must not be negative for the shape the class promises"""
    if path[-1] != 'kernel':
        return False
    if path[-2] == 'wz':
        return True
    if path[-2] == 'wy':
        return kind in ('RecStablePICNN', 'PIQCNNSigmoid', 'StructuredPICNN') or any('decoder_monotone' in k for k in path)
    return False


def fit(kind):
    def h(ctx):
        """after training the weights that give the shape are not negative, all the others are as trained"""
        from pyforecaster.forecasting_models.neural_models import base_nn
        m = make(kind, probabilistic=ctx.flag('probabilistic') if kind == 'PICNN' else False, augment_ctrl_inputs=ctx.flag('augmented') if kind == 'PICNN' else False)
        x, y = data()
        given, steps = [], []

        def step(pars, opt, *a):
            given.append(pars)
            shapes = dict(leaves(pars)) if not steps else None
            new = symbolic_tree(ctx, pars if not steps else steps[0], 'w%d/' % len(steps), free=lambda p: signed(kind, p) or p[-2] == 'wy')
            steps.append(new)
            return copy_tree(new), opt, 0.
        m.train_step = step
        m.predict_batch = lambda p, i: np.zeros((len(i[0]), 4 if m.probabilistic else 2)) + 1.
        if kind == 'StructuredPICNN':
            m.objective = lambda a, b: np.zeros((len(a), 1))
        orig = base_nn.reproject_weights
        with stub(base_nn, reproject_weights=lambda p, **k: J.call(ctx, lambda q: orig(q, **k), p), tqdm=no_tqdm), quiet():
            m.fit(x, y)
        ctx.true(len(steps) > 1, 'training steps')

        def agree(got, raw, label):
            got, raw = dict(leaves(got)), dict(leaves(raw))
            ctx.true(set(got) == set(raw), 'all the weights are there')
            for path in sorted(raw):
                e = raw[path]
                if signed(kind, path):
                    e = arr([[smax(v, 0) for v in r] for r in e])
                    ctx.le(0, arr(got[path]), 'weights of the shape are not negative', tol=1e-6)
                ctx.eq(arr(got[path]), e, label, tol=1e-5)
        for g, s in zip(given[1:], steps):
            agree(g, s, 'each step starts from the projection of the previous one')
        agree(m.pars, steps[-1], 'weights after training')
    return h


def copy_tree(t):
    return {k: copy_tree(v) if isinstance(v, dict) else np.array(v, dtype=object if any(isinstance(u, Sym) for u in np.ravel(v)) else float) for k, v in t.items()}


def shape(kind, layers):
    def h(ctx):
        """the trained model, end to end: convex (or increasing) in the controls, for any exogenous input"""
        import jax
        m = make(kind, layers=layers, augment_ctrl_inputs=ctx.flag('augmented') if KINDS[kind] == 'convex' else False)
        tree = m.init_arch(m.model, 2, 2)
        which = ctx.pick('symbolic layer', 0, layers - 1)
        p = symbolic_tree(ctx, tree, 'w/', free=lambda q: signed(kind, q) and q[-2] == 'wz' and str(which) in q[-3][-1:])
        from pyforecaster.forecasting_models.neural_models.neural_utils import reproject_weights
        p = J.call(ctx, lambda q: reproject_weights(q, rec_stable=m.rec_stable, monotone=m.monotone), p)
        u = ctx.choose('exogenous', [[.5, -1.], [-1.5, 2.]])
        ya, yb = ctx.reals('ya', (2,), -3, 3), ctx.reals('yb', (2,), -3, 3)
        if KINDS[kind] == 'monotone':
            for k in range(2):
                ctx.assume(ya[k] <= yb[k])
            a, b = [J.call(ctx, m.predict_batch, p, [arr([u]), arr([list(y)])])[0] for y in (ya, yb)]
            ctx.le(a, b, 'increasing in the controls', tol=1e-5)
            return
        mid = [(a + b) / 2 for a, b in zip(ya, yb)]
        a, b, c = [J.call(ctx, m.predict_batch, p, [arr([u]), arr([list(y)])])[0] for y in (ya, yb, mid)]
        ctx.le(c * 2, a + b, 'convex in the controls', tol=1e-5)
    return h


def sigma(ctx):
    """variances of probabilistic networks are positive, bounded outputs stay in their bounds"""
    m = make('PICNN', layers=1, probabilistic=True, **(dict(z_min=[-1., 0.], z_max=[2., 5.]) if ctx.flag('bounded') else {}))
    tree = m.init_arch(m.model, 1, 2)
    p = symbolic_tree(ctx, tree, 'w/')
    out = J.call(ctx, m.predict_batch, p, [ctx.reals('u', (1, 1), -3, 3), ctx.reals('y', (1, 2), -3, 3)])
    ctx.true(out.shape == (1, 4), 'means, then variances')
    ctx.le(1e-11, out[:, 2:], 'variances are positive')
    if m.z_min is not None:
        ctx.le(arr(m.z_min), out[0, :2], 'lower bound', tol=1e-6)
        ctx.le(out[0, :2], arr(m.z_max), 'upper bound', tol=1e-6)


def causal(ctx):
    """the causal penalty of a network is the mean sensitivity of the outputs to the controls that must not affect them"""
    from pyforecaster.forecasting_models.neural_models import ICNN
    prob = ctx.flag('probabilistic')
    allowed = [[ctx.pick('control %d may affect output %d' % (i, j), 0, 1) for j in range(2)] for i in range(2)]
    df = pd.DataFrame(allowed, index=CTRL, columns=['t0', 't1'])
    m = make('PICNN', layers=1, probabilistic=prob, causal_df=df)
    p = symbolic_tree(ctx, m.init_arch(m.model, 1, 2), 'w/', free=lambda q: q[-2] == 'wy' and q[-3] == 'PICNNLayer_0')
    u, c = arr([[.5], [-1.]]), arr([[1., 2.], [-.5, .25]])
    t = arr([[1., 0.], [2., -1.]])
    w = p['params']['PICNNLayer_0']
    if prob:
        # only the difference between this penalty and that of a network where everything is allowed
        free = make('PICNN', layers=1, probabilistic=True, causal_df=df * 0 + 1)
        for path, v in leaves(p['params']['PICNNLayer_1']):
            v[...] = 0.
    else:
        free = make('PICNN', layers=1, causal_df=df * 0 + 1)
    d = J.call(ctx, lambda p: m.loss_fn(p, [u, c], t) - free.loss_fn(p, [u, c], t), p)
    plain = make('PICNN', layers=1, probabilistic=prob)
    if not prob:
        ctx.eq(J.call(ctx, lambda p: free.loss_fn(p, [u, c], t), p), J.call(ctx, lambda p: plain.loss_fn(p, [u, c], t), p), 'nothing is penalised when everything is allowed', tol=1e-5)
    # d out_j / d y_i = wyu_i(u) * wy_ij for a network of one layer
    tot = 0
    for r in range(2):
        wyu = [float(u[r][0] * w['wyu']['kernel'][0, i] + w['wyu']['bias'][i]) for i in range(2)]
        tot = tot + sum(abs(wyu[i] * w['wy']['kernel'][i, j]) for i in range(2) for j in range(2) if not allowed[i][j])
    ctx.eq(d, arr(tot / 2. / (8 if prob else 4)), 'penalty', tol=1e-4)


def inputs(ctx):
    """the network sees its own rows: exogenous in the order of the table, controls in the order of the model, only the requested columns scaled"""
    m = make('PICNN')
    unn = ctx.choose('unnormalized', [None, ['x1'], ['c1', 'x0'], COLS])
    norm_y = ctx.flag('normalised target')
    x = pd.DataFrame(ctx.reals('x', (2, 4), -5, 5), columns=COLS, index=hours(2))
    y = pd.DataFrame(ctx.reals('y', (2, 2), -5, 5), columns=['t0', 't1'], index=x.index)
    x0, y0 = x.copy(), y.copy()
    m.unnormalized_inputs, m.normalize_target = unn, norm_y
    todo = [c for c in COLS if c not in (unn or [])]
    m.input_scaler = Affine(ctx, 'in', todo) if todo else None
    m.target_scaler = Affine(ctx, 'out', ['t0', 't1']) if norm_y else None
    (ex, ct), t = m.get_normalized_inputs(x, y)

    def z(c):
        v = x0[c].values
        return (v - m.input_scaler.mean_[todo.index(c)]) / m.input_scaler.scale_[todo.index(c)] if c in todo else v
    ctx.eq(arr(ex), arr([list(r) for r in zip(z('x0'), z('x1'))]), 'exogenous inputs')
    ctx.eq(arr(ct), arr([list(r) for r in zip(z('c1'), z('c0'))]), 'controls')
    ctx.eq(arr(t), (y0.values - m.target_scaler.mean_) / m.target_scaler.scale_ if norm_y else y0.values, 'targets')
    ctx.eq(x.values, x0.values, 'the inputs of the caller are not modified')
    ctx.eq(y.values, y0.values, 'the targets of the caller are not modified')
    p = pd.DataFrame(ctx.reals('out', (2, 2), -5, 5))
    m.predict_batch = lambda pars, i: p.values
    m.target_columns = ['t0', 't1']
    f = m.predict(x)
    ctx.true(f.index.equals(x.index) and list(f.columns) == ['t0', 't1'], 'labels')
    ctx.eq(f.values, p.values * m.target_scaler.scale_ + m.target_scaler.mean_ if norm_y else p.values, 'forecasts in the units of the target')


def optimize(ctx):
    """the optimised controls come back in their own units and columns, everything else as given, with the forecast of that table"""
    from pyforecaster.forecasting_models.neural_models import ICNN
    m = make('PICNN')
    unn = ctx.choose('unnormalized', [None, ['x1'], ['c1', 'x0'], COLS])
    x = pd.DataFrame(ctx.reals('x', (1, 4), -5, 5), columns=COLS, index=hours(1))
    x0 = x.copy()
    m.unnormalized_inputs = unn
    todo = [c for c in COLS if c not in (unn or [])]
    m.input_scaler = Affine(ctx, 'in', todo) if todo else None
    m.target_columns = ['t0', 't1']
    asked = ctx.choose('iterations', [5, 30])
    n_it = ctx.pick('improving iterations', 0, 3) if asked > 10 else 0
    kw = ctx.choose('tolerance', [{}, {'rel_tol': .3}, {'rel_tol': None}]) if asked > 10 else {}
    m.rel_tol = .3                                     # used when none is given
    rounds = n_it if not kw else 0                     # improvements are below 30%
    Y = ctx.reals('iterate', (6, 1, 2), -5, 5)
    st = {'k': 0}

    def iterate(xx, yy, opt, **k):
        if st['k']:
            ctx.eq(arr(yy), Y[st['k'] - 1], 'each round starts from the previous one')
        st['k'] += 1
        return Y[st['k'] - 1], (10. - st['k'] if st['k'] <= n_it + 1 else 10. - n_it - 1.)
    m.iterate = iterate
    m.predict_batch = lambda pars, i: np.concatenate([i[0], i[1]], axis=1)[:, :2]
    m.inverter_optimizer = type('O', (), {'init': staticmethod(lambda y: None)})()
    with quiet():
        y_opt, inp, target, val = m.optimize(x, lambda p, y: 0, n_iter=asked, recompile_obj=False, **kw)
    ctx.eq(x.values, x0.values, 'the inputs of the caller are not modified')
    ctx.true(st['k'] == (1 + min(rounds + 1, 3) if asked > 10 else 1), 'stops when the objective does not improve, or after the iterations asked for')
    last = Y[st['k'] - 1][0]

    def back(c, v):
        return v * m.input_scaler.scale_[todo.index(c)] + m.input_scaler.mean_[todo.index(c)] if c in todo else v
    opt = [back('c1', last[0]), back('c0', last[1])]
    ctx.eq(arr(y_opt), arr(opt), 'optimal controls in their units')
    ctx.true(list(inp.columns) == COLS and inp.index.equals(x.index), 'labels')
    ctx.eq(inp[CTRL].values[0], arr(opt), 'the table holds the optimal controls')
    ctx.eq(inp[['x0', 'x1']].values, x0[['x0', 'x1']].values, 'and the exogenous inputs as given')
    ctx.eq(target.values, m.predict(inp).values, 'forecast of that table')


def wired_loss(kind):
    def h(ctx):
        """training minimises the loss that was asked for, of the outputs of the network itself"""
        from pyforecaster.forecasting_models.neural_models import base_nn
        which = ctx.choose('loss', [None, ('maximum_likelihood', 'normal'), ('crps', 'normal'), ('maximum_likelihood', 'log-normal')][:1 if kind == 'PIQCNN' else 4])
        kw = dict(probabilistic=True, probabilistic_loss_kind=which[0], distribution=which[1]) if which else {}
        import optax
        with stub(optax, adamw=lambda *a, **k: optax.sgd(.1), adabelief=lambda *a, **k: optax.sgd(.1), adam=lambda *a, **k: optax.sgd(.1)):
            m = make(kind, layers=2, **kw)
        pars = m.init_arch(m.model, 2, 2)
        with concretely():
            pars = __import__('jax').tree.map(lambda v: abs(v) + .1, pars)
            for k in range(60):        # positive forecasts
                r = np.random.RandomState(k)
                i = [r.rand(1, 2), r.rand(1, 2)]
                out = np.asarray(m.predict_batch(pars, i), dtype=float)[0]
                if (out[:2] > .1).all():
                    break
        t = ctx.reals('target', (1, 2), .1 if which and which[1] == 'log-normal' else -3, 3)
        with stub(J, FOLD=True):
            got = J.call(ctx, lambda t: m.loss_fn(pars, i, t), t)
            # (the weights after the step are not needed)
            step = got if which and which != ('maximum_likelihood', 'normal') else J.call(ctx, lambda t: m.train_step(pars, m.optimizer.init(pars), i, t)[2], t)
        if which and which != ('maximum_likelihood', 'normal'):
            ctx.assume(all(v > .05 for v in out[:2]))
            with stub(J, FOLD=True):
                want = J.call(ctx, lambda t: base_nn.probabilistic_loss_fn(pars, i, t, model=m.predict_batch, kind=which[0], distribution=which[1]), t)
        elif which:
            s2 = out[2:]
            want = mean([(out[j] - t[0, j]) * (out[j] - t[0, j]) / float(s2[j]) + float(np.log(s2[j])) for j in range(2)])
        else:
            want = mean([(float(a) - b) * (float(a) - b) for a, b in zip(out, t[0])])
        ctx.eq(got, want, 'loss', tol=1e-2)
        ctx.eq(step, got, 'loss of the training steps', tol=1e-2)
    return h


def objectives(ctx):
    """every call minimises the objective, with the options, of that call; controls go down its gradient"""
    from pyforecaster.forecasting_models.neural_models import ICNN
    import jax.numpy as jnp
    m = make('PICNN')
    m.unnormalized_inputs, m.input_scaler, m.target_columns = COLS, None, ['t0', 't1']
    x = pd.DataFrame(ctx.reals('x', (1, 4), -5, 5), columns=COLS, index=hours(1))
    x['x0'], x['x1'] = .5, -1.
    W = np.array([[1., .5], [-.5, 1.], [.5, 0.], [1., -1.]])
    xp = np if ctx.symbolic else jnp
    m.predict_batch = lambda pars, i: xp.dot(xp.concatenate([i[0], i[1]], axis=1), W)
    m.inverter_optimizer = type('O', (), {'init': staticmethod(lambda y: None)})()
    squares = lambda p, y, gain=1.: ((p - 1.) ** 2).sum() * gain
    effort = lambda p, y, gain=1.: (y ** 2).sum() * gain + p[0, 0]

    def fixed(f, *a, **k):
        return lambda *b, **kk: f(*[v.copy() if isinstance(v, np.ndarray) else v for v in b], **kk)

    def slope(f):
        def g(y, x_):
            # exact: the objectives are quadratic, with numbers for the exogenous inputs
            x_ = np.array([[float(v) for v in x_[0]]])
            e, o = [np.array([[1., 0.]]), np.array([[0., 1.]])], np.zeros((1, 2))
            g0 = [(f(v, x_) - f(-v, x_)) / 2 for v in e]
            H = [[f(a + b, x_) - f(a, x_) - f(b, x_) + f(o, x_) for b in e] for a in e]
            return f(y, x_), arr([[g0[i] + sum(H[i][j] * y[0, j] for j in range(2)) for i in range(2)]])
        return g
    todo = ctx.choose('calls', [[(squares, {}, True), (effort, {}, True)], [(effort, {'gain': .5}, True), (squares, {}, True)], [(squares, {'gain': 1.}, True), (squares, {'gain': .5}, False)],
                                [(effort, {'gain': .25}, False), (effort, {'gain': .5}, True)]])
    ex, c0 = x[['x0', 'x1']].values, x[[c for c in COLS if c in CTRL]].values
    order = m.optimization_vars
    c0 = x[order].values
    names = [c for c in COLS if c not in order] + list(order)
    import contextlib
    with contextlib.ExitStack() as st, quiet():
        if ctx.symbolic:
            st.enter_context(stub(ICNN, jit=fixed, value_and_grad=slope))
        for f, kw, again in todo:
            y_opt, inp, target, val = m.optimize(x.copy(), f, n_iter=5, recompile_obj=again, vanilla_gd=True, **kw)
            y = c0
            for _ in range(10):
                val_, d = slope(lambda y_, x_: f(np.dot(np.concatenate([x_, y_], axis=1), W), y_, **kw))(y, ex)
                y = y - d * .1
            ctx.eq(arr(y_opt), arr(y[0]), 'controls after the steps down the gradient of the objective of the call', tol=1e-3)
            ctx.eq(arr(inp[order].values), y, 'table of the optimal controls', tol=1e-3)
            ctx.eq(arr(inp[names[:2]].values), ex, 'exogenous inputs as given', tol=1e-5)
            ctx.eq(arr(target.values), np.dot(np.concatenate([ex, y], axis=1), W), 'forecast of the optimal controls', tol=1e-2)
            ctx.eq(val, val_, 'value of the objective', tol=1e-2)


def structured_point(ctx):
    """without a variance, quantiles are those of the errors of the targets"""
    m = make('StructuredPICNN')
    m.unnormalized_inputs = COLS
    x = pd.DataFrame(arr([[1., 2., 3., 4.], [5., 6., 7., 8.]]), columns=COLS, index=hours(2, start='2021-03-01 22:00'))
    O, D = ctx.reals('out', (2, 2), -5, 5), ctx.reals('err', (2, 2, 3), -3, 3)
    m.predict_batch = lambda pars, i: O
    m.objective = lambda a, b: a[:, :1] + b[:, :1]
    m.target_columns = ['t0', 't1']
    m.conditional_to_hour = True
    m.err_distr = {h: D[h - 22] for h in (22, 23)}
    p, o = m.predict(x, return_obj=True)
    ctx.eq(o.values[:, 0], O[:, 0] + x['c1'].values, 'objective of each row')
    ctx.eq(m.predict_quantiles(x), np.expand_dims(O, -1) + D, 'quantiles')


def structured(ctx):
    """the objective is evaluated on each forecast and its own controls; its quantiles are gaussian around it"""
    from scipy.special import erfinv
    m = make('StructuredPICNN', probabilistic=True)
    m.unnormalized_inputs = COLS
    x = pd.DataFrame(arr([[1., 2., 3., 4.], [5., 6., 7., 8.]]), columns=COLS, index=hours(2))
    O, V = ctx.reals('out', (2, 2), -5, 5), ctx.reals('var', (2, 1), .01, 9)
    m.predict_batch = lambda pars, i: np.concatenate([O, V], axis=1)
    m.objective = lambda a, b: (a[:, :1] * 2 + a[:, 1:] * 3 + b[:, :1] * 5 + b[:, 1:] * 7)
    m.target_columns = ['t0', 't1']
    p, o, s = m.predict(x, return_sigma=True, return_obj=True)
    e = arr([O[r, 0] * 2 + O[r, 1] * 3 + x['c1'].values[r] * 5 + x['c0'].values[r] * 7 for r in range(2)])
    ctx.eq(p.values, O, 'forecasts')
    ctx.eq(o.values[:, 0], e, 'objective of each row')
    ctx.eq(s.values[:, 0] * s.values[:, 0], V[:, 0], 'sigma is the root of the variance')
    ctx.true(all(f.index.equals(x.index) for f in (p, o, s)), 'index')
    q = m.predict_quantiles(x)
    ctx.true(q.shape == (2, 1, 3), 'row, objective, level')
    for k, lev in enumerate(m.q_vect):
        ctx.eq(q[:, 0, k], e + s.values[:, 0] * float(np.sqrt(2) * erfinv(2 * lev - 1)), 'gaussian quantiles of the objective', tol=1e-5)
    ctx.le(q[:, :, :-1], q[:, :, 1:], 'quantiles do not cross')


def structured_lognormal(ctx):
    """log-normal quantiles of the objective have the mean and variance of the network and do not cross"""
    from scipy.special import erfinv
    from pyforecaster.forecasting_models.neural_models import ICNN
    m = make('StructuredPICNN', probabilistic=True, distribution='log-normal')
    m.unnormalized_inputs = COLS
    x = pd.DataFrame(arr([[1., 2., 3., 4.], [5., 6., 7., 8.]]), columns=COLS, index=hours(2))
    O, S = ctx.reals('out', (2, 2), .1, 5), ctx.reals('sd', (2, 1), .1, 3)
    V = S * S
    m.predict_batch = lambda pars, i: np.concatenate([O, V], axis=1)
    m.objective = lambda a, b: (a[:, :1] * 2 + a[:, 1:] * 3 + b[:, :1] * 5 + b[:, 1:] * 7)
    m.target_columns = ['t0', 't1']
    e = [O[r, 0] * 2 + O[r, 1] * 3 + x['c1'].values[r] * 5 + x['c0'].values[r] * 7 for r in range(2)]
    with stub(ICNN, jnp=np):
        q = m.predict_quantiles(x)
    ctx.true(q.shape == (2, 1, 3), 'row, objective, level')
    ctx.le(q[:, :, :-1], q[:, :, 1:], 'quantiles do not cross', tol=1e-6)
    ctx.le(0., q, 'quantiles are positive')


def structured_loss(ctx):
    """the loss of the structured network pulls forecasts to the targets and the objective of the forecasts to the objective of the targets, with the controls of each row"""
    import jax
    prob = ctx.flag('probabilistic')
    obj = lambda a, c: a[0] * 2 - a[1] * 3 + a[0] * a[1] + c[0] * 5 + c[1] * c[0]
    m = make('StructuredPICNN', probabilistic=prob, objective_fun=None)
    from pyforecaster.forecasting_models.neural_models import ICNN
    rows = 2
    f, t, c = ctx.reals('f', (rows, 2), -3, 3), ctx.reals('t', (rows, 2), -3, 3), ctx.reals('c', (rows, 2), -3, 3)
    v = np.array([[.5], [2.]])
    u = np.zeros((rows, 2))
    vm = jax.vmap(obj, in_axes=(0, 0))
    if prob:
        g = J.call(ctx, jax.grad(lambda f, v, u, c, t: ICNN.structured_probabilistic_loss_fn(f, [u, c], t, model=lambda p, i: jax.numpy.hstack([p, v]), objective=vm)), f, v, u, c, t)
    else:
        g = J.call(ctx, jax.grad(lambda f, u, c, t: ICNN.structured_loss_fn(f, [u, c], t, model=lambda p, i: p, objective=vm)), f, u, c, t)
    e = []
    for r in range(rows):
        d = (f[r, 0] * 2 - f[r, 1] * 3 + f[r, 0] * f[r, 1]) - (t[r, 0] * 2 - t[r, 1] * 3 + t[r, 0] * t[r, 1])
        k = 1. / float(v[r, 0]) if prob else 1.
        e.append([(f[r, 0] - t[r, 0]) * 2 / (2 * rows) + d * (2 + f[r, 1]) * 2 * k / rows, (f[r, 1] - t[r, 1]) * 2 / (2 * rows) + d * (f[r, 0] - 3) * 2 * k / rows])
    ctx.eq(arr(g), arr(e), 'gradient of the loss', tol=1e-4)


def latent_loss(ctx):
    """the loss of the latent network: error of the forecasts, of the reconstructed controls, and of the forecasts with the reconstructed controls"""
    from pyforecaster.forecasting_models.neural_models import ICNN
    rows = 2
    t, c, R, u = (ctx.reals(k, (rows, 2), -3, 3) for k in ('t', 'c', 'reconstruction', 'u'))
    e1, e2 = np.array([[1.], [2.]]), np.array([[-1.], [3.]])
    A = np.array([[2., -1.], [.5, 3.]])
    loss = lambda e, p, t, c, u: ICNN.embedded_loss_fn(p, [u, c], t, model=lambda p, i: (i[0] + i[1] @ A, e, p))
    zero = np.zeros((rows, 2))
    base = J.call(ctx, loss, e1, zero, zero, zero, zero)          # perfect in everything: the rest is what keeps the embedding centred
    got = J.call(ctx, loss, e1, R, t, c, u)
    p, q = u + np.dot(c, A), u + np.dot(R, A)
    sq = lambda a, b: mean([(x - y) * (x - y) for x, y in zip(a.ravel(), b.ravel())])
    terms = sq(p, t), sq(R, c), sq(p, q)
    ctx.true(bool(np.isfinite(float(base))), 'finite')
    # weights of the terms, seen on concrete errors
    n = lambda *a: float(J.call(ctx, loss, *[np.asarray(v, dtype=float) for v in a])) - float(base)
    z, one = zero, np.ones((rows, 2))
    w0 = n(e1, z, one, z, z)
    wq = [n(e1, z + np.array([k]), z, z, z) for k in ([1., 0.], [0., 1.])]
    mat = [[.5, float((A[k] ** 2).sum()) / 2] for k in range(2)]
    w1, w2 = np.linalg.solve(np.array(mat), np.array(wq))
    ctx.true(w0 > 0 and w1 > 0 and w2 > 0, 'each error is penalised')
    ctx.eq(got - float(base), terms[0] * float(w0) + terms[1] * float(w1) + terms[2] * float(w2), 'loss', tol=1e-3)
    ctx.eq(J.call(ctx, loss, e2, R, t, c, u) - got, float(J.call(ctx, loss, e2, z, z, z, z)) - float(base), 'the embedding is only penalised by its own term', tol=1e-3)
    # the real network: the loss that is minimised uses its own outputs
    m = make('LatentStructuredPICNN')
    x, y = data(2)
    with concretely(), quiet():
        m.fit(x, y)
        i, tt = m.get_normalized_inputs(x, y)
        f, emb, rec = [np.asarray(v, dtype=float) for v in m.predict_batch_training(m.pars, i)]
        f2 = np.asarray(m.predict_batch_training(m.pars, [i[0], rec])[0], dtype=float)
        # the whole loss is concrete in the network; the targets are any
        const = float(ICNN.embedded_loss_fn(None, i, f, model=lambda p, j: (f if j[1] is i[1] else f2, emb, rec)))
    got = J.call(ctx, lambda t: m.loss_fn(m.pars, i, t), t)
    ctx.eq(got - const, sq(f, t), 'the network is trained with this loss on its own outputs', tol=1e-3)


def optimize_latent(ctx):
    """controls decoded from the optimised embedding come back in their own units and columns, everything else as given, with the forecast of that table"""
    from pyforecaster.forecasting_models.neural_models import ICNN
    m = make('LatentStructuredPICNN')
    unn = ctx.choose('unnormalized', [None, ['x1'], ['c1', 'x0'], COLS])
    x = pd.DataFrame(ctx.reals('x', (1, 4), -5, 5), columns=COLS, index=hours(1))
    x0 = x.copy()
    m.unnormalized_inputs = unn
    todo = [c for c in COLS if c not in (unn or [])]
    m.input_scaler = Affine(ctx, 'in', todo) if todo else None
    m.target_columns = ['t0', 't1']
    asked = ctx.choose('iterations', [5, 30])
    n_it = ctx.pick('improving iterations', 0, 3) if asked > 10 else 0
    kw = ctx.choose('tolerance', [{}, {'rel_tol': .3}, {'rel_tol': None}]) if asked > 10 else {}
    m.rel_tol = .3                                     # used when none is given
    rounds = n_it if not kw else 0                     # improvements are below 30%
    Y = ctx.reals('iterate', (6, 1, 2), -5, 5)
    start = ctx.reals('embedding of the given controls', (1, 2), -5, 5)
    D = np.array([[2., 1.], [-1., 3.]])
    (ex, ct), _ = m.get_normalized_inputs(x)
    st = {'k': 0}

    def network(pars, i):
        if not st['k']:
            ctx.eq(arr(i[0]), arr(ex), 'exogenous inputs of the network')
            ctx.eq(arr(i[1]), arr(ct), 'controls of the network')
        return np.concatenate([i[0], i[1]], axis=1)[:, :2], start, i[1]
    m.predict_batch_training = network
    m.predict_batch = lambda pars, i: np.concatenate([i[0], i[1]], axis=1)[:, 1:3]

    def iterate(xx, yy, opt, **k):
        ctx.eq(arr(xx), arr(ex), 'exogenous inputs do not move')
        ctx.eq(arr(yy), Y[st['k'] - 1] if st['k'] else start, 'each round starts from the previous one, the first from the given controls')
        st['k'] += 1
        v = 10. - st['k'] if st['k'] <= n_it + 1 else 10. - n_it - 1.
        return Y[st['k'] - 1], v, [np.array(yy)], [v], 0
    m.iterate = iterate
    m.inverter_optimizer = type('O', (), {'init': staticmethod(lambda y: None)})()
    same = lambda f, *a, **k: f
    with stub(ICNN, decode=lambda pars, model, x, e: np.dot(e, D), encode=lambda pars, model, x, c: c, latent_pred=lambda params, model, x, ctrl_embedding: np.asarray(ctrl_embedding)[..., :2],
              vmap=same, jit=same), quiet():
        out = m.optimize(x, lambda p, y: 0, n_iter=asked, recompile_obj=False, **kw)
    y_opt, inp, target, emb = out[0], out[1], out[2], out[4]
    ctx.eq(x.values, x0.values, 'the inputs of the caller are not modified')
    ctx.true(st['k'] == (1 + min(rounds + 1, 3) if asked > 10 else 1), 'stops when the objective does not improve, or after the iterations asked for')
    last = np.dot(Y[st['k'] - 1], D)[0]
    ctx.eq(arr(emb), Y[st['k'] - 1], 'optimal embedding')

    def back(c, v):
        return v * m.input_scaler.scale_[todo.index(c)] + m.input_scaler.mean_[todo.index(c)] if c in todo else v
    opt = [back('c1', last[0]), back('c0', last[1])]
    ctx.eq(arr(y_opt), arr(opt), 'optimal controls in their units')
    ctx.true(list(inp.columns) == COLS and inp.index.equals(x.index), 'labels')
    ctx.eq(inp[CTRL].values[0], arr(opt), 'the table holds the optimal controls')
    ctx.eq(inp[['x0', 'x1']].values, x0[['x0', 'x1']].values, 'and the exogenous inputs as given')
    ctx.eq(target.values, m.predict(inp).values, 'forecast of that table')


PL, N = P + 'layers.PICNNLayer.__call__', P + 'ICNN.'
KERNELS = [N + 'PICNN_module.__call__', PL]
SET = [N + 'PICNN.set_arch', P + 'base_nn.NN.fit', P + 'neural_utils.reproject_weights', P + 'neural_utils._reproject']
OBLIGATIONS = [
    Obligation('convex_layer', convex_layer, [PL], '1 control (also augmented), 2 latent, every weight and input'),
    Obligation('monotone_layer', monotone_layer, [PL], '1 control, 2 latent, every weight and input'),
    Obligation('sigma', sigma, KERNELS, '1 layer, 2 controls, 2 outputs, every weight'),
    Obligation('causal', causal, [N + 'causal_loss_fn', N + 'probabilistic_causal_loss_fn', N + '_my_jmp', N + 'PICNN.set_arch'] + KERNELS, '1 layer, 2 controls, 2 outputs, 2 rows, every causal table'),
    Obligation('inputs', inputs, [N + 'PICNN.get_normalized_inputs', P + 'base_nn.NN.predict'], '2 rows, 2 controls, 2 exogenous, every scaling'),
    Obligation('optimize', optimize, [N + 'PICNN.optimize', N + 'PICNN.get_normalized_inputs'], '2 controls, up to 4 rounds, every iterate'),
] + [Obligation('wired_loss_' + k, wired_loss(k), [N + k + '.set_arch', P + 'base_nn.train_step', P + 'base_nn.probabilistic_loss_fn', P + 'base_nn.loss_fn'], '1 row, 2 targets, squared error or likelihood, any target') for k in ('PICNN', 'PIQCNN', 'PIQCNNSigmoid', 'RecStablePICNN')] + [
    Obligation('objectives', objectives, [N + 'PICNN.optimize'], '10 steps down the gradient, 2 controls, 2 quadratic objectives with options, 2 calls in a row'),
    Obligation('structured', structured, [N + 'StructuredPICNN.predict', N + 'StructuredPICNN.predict_quantiles'], '2 rows, 2 targets'),
    Obligation('structured_point', structured_point, [N + 'StructuredPICNN.predict', N + 'StructuredPICNN.predict_quantiles'], '2 rows, 2 targets'),
    Obligation('structured_lognormal', structured_lognormal, [N + 'StructuredPICNN.predict_quantiles'], '2 rows, 2 targets'),
    Obligation('structured_loss', structured_loss, [N + 'structured_loss_fn', N + 'structured_probabilistic_loss_fn'], '2 rows, 2 targets, 2 controls, one bilinear objective'),
    Obligation('latent_loss', latent_loss, [N + 'embedded_loss_fn', N + 'predict_batch_latent_picnn', N + 'LatentStructuredPICNN.set_arch'], '2 rows, 2 targets, 2 controls'),
    Obligation('optimize_latent', optimize_latent, [N + 'LatentStructuredPICNN.optimize', N + 'PICNN.get_normalized_inputs'], '2 controls, up to 4 rounds, every iterate')]
for k in KINDS:
    OBLIGATIONS.append(Obligation('fit_' + k, fit(k), SET + [N + k + '.set_arch'], '2 layers, 2 latent, 2 controls, 4 training steps, every trained wz and wy'))
for k in ('PICNN', 'RecStablePICNN', 'PIQCNNSigmoid', 'StructuredPICNN'):
    OBLIGATIONS.append(Obligation('shape_' + k, shape(k, 2), [N + k + '.set_arch'] + KERNELS, '2 layers, 2 latent, 2 controls; wz of one layer symbolic, controls symbolic'))
