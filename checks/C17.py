from checks.common import *

PRELOAD = ['pyforecaster.metrics']
STUBS = ['pandas groupby.mean on object columns: its documented definition']
OUTSIDE = 'more than 3 samples x 2 steps x 3 quantile levels; array inputs whose step and quantile counts coincide are read as (sample, step, quantile)'
M = 'pyforecaster.metrics.'


def _inputs(ctx, n, m, k):
    t = frame(ctx.reals('t', (n, m), -20, 20))
    q = ctx.reals('q', (n, m, k), -20, 20)
    return t, q


def _levels(ctx, k):
    """free, strictly increasing levels in (0,1)"""
    al = [ctx.real('alpha%d' % i, 0.01, 0.99) for i in range(k)]
    for a, b in zip(al, al[1:]):
        ctx.assume(a + 0.05 <= b)
    return al


def _I(ctx, q, t):
    return 1 if bool(q > t) else 0


def pinball(ctx):
    """quantile_scores: average pinball loss and exceedance frequency of each level, each group, each step"""
    from pyforecaster import metrics as pm
    n, m, k = (3, 1, 2) if ctx.flag('long') else (2, 2, 2) if ctx.tier == 'quick' else (2, 3, 2)
    if (n, m) == (2, 2):
        agg = ctx.choose('agg', [None, 'samples'])
    else:
        agg = ctx.choose('agg', [None, 'samples', 'steps'])
    t, q = _inputs(ctx, n, m, k)
    if agg == 'samples':
        lab = [0] + [ctx.pick('lab%d' % i, 0, 1) for i in range(1, n)]
    elif agg == 'steps':
        lab = [0] + [ctx.pick('lab%d' % i, 0, 1) for i in range(1, m)]
    else:
        lab = None
    al = [0.25, 0.7]
    with quiet():
        qs, rel = pm.quantile_scores(q, t, alphas=al, agg_index=None if lab is None else np.array(lab))
    L = lab if lab is not None else [0] * n
    groups = [[i for i in range(len(L)) if L[i] == g] for g in sorted(set(L))]
    I = {c: _I(ctx, q[c], t.values[c[0], c[1]]) for c in np.ndindex(n, m, k)}
    for a, al_a in enumerate(al):
        cells = [[[(i, c) if agg != 'steps' else (c, i) for i in g] for c in range(m if agg != 'steps' else n)] for g in groups]
        loss = [[mean((I[i, j, a] - al_a) * (q[i, j, a] - t.values[i, j]) for i, j in cell) for cell in row] for row in cells]
        freq = [[mean(I[i, j, a] for i, j in cell) for cell in row] for row in cells]
        ctx.eq(qs[al_a].values, arr(loss), 'average pinball loss of the level')
        ctx.eq(rel[al_a].values, arr(freq), 'frequency of targets below the quantile')
        ctx.true(list(qs[al_a].columns) == list(t.columns if agg != 'steps' else t.index), 'step labels')
    ctx.le(0, qs.values, 'pinball loss is non negative')
    if lab is not None:
        ctx.eq(arr([float(v) for v in qs.index]), arr([float(L[g[0]]) for g in groups]), 'group labels')


def symbolic_levels(ctx):
    """same for arbitrary (symbolic) level in (0,1)"""
    from pyforecaster import metrics as pm
    t, q = _inputs(ctx, 2, 1, 2)
    al = _levels(ctx, 2)
    if ctx.symbolic:
        # the levels are used as column labels: keep them apart
        class L(float):
            pass
    with quiet():
        qs, rel = pm.quantile_scores(q, t, alphas=al)
    for a in range(2):
        I = [_I(ctx, q[i, 0, a], t.values[i, 0]) for i in range(2)]
        ctx.eq(qs.values[0, a], mean((I[i] - al[a]) * (q[i, 0, a] - t.values[i, 0]) for i in range(2)), 'pinball loss at any level')
        ctx.eq(rel.values[0, a], mean(I), 'exceedance at any level')


def default_levels(ctx):
    from pyforecaster import metrics as pm
    n, m = 2, 1
    k = ctx.choose('k', [2, 3])
    t, q = _inputs(ctx, n, m, k)
    with quiet():
        qs, rel = pm.quantile_scores(q, t)
    al = [i / (k - 1) for i in range(k)]
    ctx.eq(arr([float(v) for v in qs.columns.get_level_values(0)]), arr(al), 'levels default to an even grid on [0,1]')
    for a in range(k):
        ctx.eq(qs.values[0, a], mean((_I(ctx, q[i, 0, a], t.values[i, 0]) - al[a]) * (q[i, 0, a] - t.values[i, 0]) for i in range(n)), 'pinball at the default levels')


def forms(ctx):
    """(sample, quantile, step) arrays and quantile frames are read like (sample, step, quantile) arrays"""
    from pyforecaster import metrics as pm
    n, m, k = 1, 2, 3
    t, q = _inputs(ctx, n, m, k)
    al = [0.1, 0.5, 0.9]
    form = ctx.choose('form', ['sqs', 'frame'])
    if form == 'sqs':
        qq = np.swapaxes(q, 1, 2)
    else:
        qq = pd.DataFrame(q.reshape(n, -1), index=t.index, columns=pd.MultiIndex.from_product([list(t.columns), al]))
    with quiet():
        qs, rel = pm.quantile_scores(qq, t, alphas=al)
    for a, al_a in enumerate(al):
        for j in range(m):
            I = _I(ctx, q[0, j, a], t.values[0, j])
            ctx.eq(qs[al_a].values[0, j], (I - al_a) * (q[0, j, a] - t.values[0, j]), 'same pinball loss from every layout')


def crps(ctx):
    from pyforecaster import metrics as pm
    n, m, k = 2, 2, 2
    t, q = _inputs(ctx, n, m, k)
    al = [0.2, 0.7]
    collapse = ctx.flag('collapse')
    with quiet():
        r = pm.crps(q, t, alphas=al, collapse_quantile_axis=collapse)
    for j in range(m):
        per = [mean((_I(ctx, q[i, j, a], t.values[i, j]) - al[a]) * (q[i, j, a] - t.values[i, j]) for i in range(n)) for a in range(k)]
        if collapse:
            ctx.eq(r[t.columns[j]].values, arr([mean(per)]), 'crps = mean pinball loss over the levels')
        else:
            ctx.eq(arr([r[(a, t.columns[j])].values[0] for a in al]), arr(per), 'uncollapsed crps keeps the levels')
    ctx.le(0, r.values, 'crps is non negative')


def crps_zero(ctx):
    """all quantiles on the target: zero loss; moving one quantile away strictly increases it"""
    from pyforecaster import metrics as pm
    t = frame(ctx.reals('t', (2, 1), -20, 20))
    q = np.stack([t.values, t.values], axis=2)
    with quiet():
        r0 = pm.crps(q, t, alphas=[0.3, 0.8])
        ctx.eq(r0.values, np.zeros((1, 1)), 'a sharp and correct forecast scores zero')
        d = ctx.real('d', -20, 20)
        ctx.assume(abs(d) > 0.1)
        q2 = q.copy()
        q2[1, 0, 1] = q2[1, 0, 1] + d
        r1 = pm.crps(q2, t, alphas=[0.3, 0.8])
    ctx.le(0.001, r1.values, 'a wrong quantile costs')


def reliability(ctx):
    from pyforecaster import metrics as pm
    n, m, k = 2, 2, 2
    t, q = _inputs(ctx, n, m, k)
    al = [0.2, 0.7]
    score = ctx.flag('get_score')
    with quiet():
        r = pm.reliability(q, t, alphas=al, get_score=score)
    for j in range(m):
        for a in range(k):
            f = mean(_I(ctx, q[i, j, a], t.values[i, j]) for i in range(n))
            ctx.eq(r[(al[a], t.columns[j])].values[0], f - (al[a] if score else 0), 'reliability = coverage (minus the level as a score)')


B = 'up to 3 samples x 2 steps x 2-3 levels, values in [-20,20]'
F = [M + 'quantile_scores', M + 'chose_axis']
OBLIGATIONS = [
    Obligation('pinball', pinball, F, B + ', all 0/1 aggregation labels'),
    Obligation('symbolic_levels', symbolic_levels, F, '2x1, two levels anywhere in [0.01,0.99]'),
    Obligation('default_levels', default_levels, F, '2x1, 2-3 levels'),
    Obligation('forms', forms, F + ['pyforecaster.forecaster.ScenarioGenerator.quantiles_to_numpy'], '1x2x3'),
    Obligation('crps', crps, F + [M + 'crps'], '2x2x2'),
    Obligation('crps_zero', crps_zero, F + [M + 'crps'], '2x1x2'),
    Obligation('reliability', reliability, F + [M + 'reliability'], '2x2x2'),
]
