import copy
from checks.common import *

PRELOAD = ['pyforecaster.forecaster', 'pyforecaster.scenarios_generator', 'pyforecaster.tree_builders', 'pyforecaster.copula', 'networkx', 'jax']
STUBS = ['numpy.quantile: its documented linear definition', 'the copula (arbitrary draws) and the tree reduction where only the hand-over is checked', 'numpy.random.randn/rand: zero noise']
OUTSIDE = 'more than 4 scenarios or 3 steps; stochastic/gradient tree learners (NeuralGas, DiffTree) beyond their common structure'
T = 'pyforecaster.tree_builders.'
G_ = 'pyforecaster.scenarios_generator.'
q_ = quantile


def tree_of(g):
    return ({n: g.nodes[n]['t'] for n in g.nodes}, {n: g.nodes[n]['p'] for n in g.nodes}, {n: np.ravel(np.asarray(g.nodes[n]['v'], dtype=object))[0] for n in g.nodes})


def structure(ctx, g, counts):
    t, p, v = tree_of(g)
    for s, c in enumerate(counts):
        lev = [n for n in g.nodes if t[n] == s]
        ctx.true(len(lev) == int(c), 'requested number of nodes')
        ctx.eq(float(sum(float(p[n]) for n in lev)), 1., 'probabilities of a step sum to one')
        for n in lev:
            pr, su = list(g.predecessors(n)), list(g.successors(n))
            ctx.true((len(pr) == 1 and t[pr[0]] == s - 1) if s else not pr, 'one parent, one step earlier')
            if s < len(counts) - 1:
                ctx.eq(float(sum(float(p[m]) for m in su)), float(p[n]), 'children share the probability of their parent')
    ctx.true(max(t.values()) == len(counts) - 1 and sorted(g.nodes) == list(range(len(g.nodes))), 'steps and numbering')


def counts_(ctx, steps, nmax):
    n = [1]
    for i in range(1, steps):
        n.append(n[-1] * ctx.pick('mult%d' % i, 1, max(1, nmax // n[-1])))
    return n


def init_tree(ctx):
    """balanced trees with the requested counts, whatever the number of scenarios"""
    from pyforecaster import tree_builders as B
    steps = ctx.pick('steps', 2, 3)
    n = counts_(ctx, steps, 4)
    n_scen = ctx.pick('n_scen', 2, 5)
    cls = ctx.choose('kind', ['QuantileTree', 'NeuralGas'])
    how = ctx.choose('counts given', ['to the constructor', 'to the call', 'one step short', 'first not one'])
    scens = np.cos(np.arange(steps * n_scen)).reshape(steps, n_scen)
    given = {'one step short': n[1:], 'first not one': [3] + n[1:]}.get(how, n)
    if how == 'one step short':
        if ctx.flag('as_array'):
            given = np.array(given)
        n = [1] + list(n[1:])
    keep = list(given)
    t = getattr(B, cls)(nodes_at_step=given if how == 'to the constructor' else None)
    t.logger.setLevel(100)
    g = t.gen_init_tree(scens, None if how == 'to the constructor' else given)
    structure(ctx, g, n)
    ctx.true([int(v) for v in given] == [int(v) for v in keep], 'the requested counts are not modified')
    idx = B.retrieve_scenarios_indexes(g)[0]
    ctx.true(idx.shape == (steps, n[-1]), 'one path per leaf')


def scenred_counts(ctx):
    """the reduction is asked for the counts of the forecaster"""
    from pyforecaster import tree_builders as B
    steps, n_scen = 3, ctx.pick('n_scen', 2, 4)
    got = []

    def scenred(s, nodes=None, **k):
        got.append((s, None if nodes is None else [int(v) for v in np.asarray(nodes).ravel()]))
        return None, None, None, None, 'tree'
    n = [1, ctx.pick('n1', 1, 3), ctx.pick('n2', 1, 3)]
    how = ctx.choose('counts given', ['to the constructor', 'to the call', 'one step short'])
    given = n[1:] if how == 'one step short' else n
    t = B.ScenredTree(nodes_at_step=given if how == 'to the constructor' else [9, 9, 9])
    t.logger.setLevel(100)
    scens = np.cos(np.arange(steps * n_scen)).reshape(steps, n_scen)
    with stub(B, scenred=scenred):
        g = t.gen_init_tree(scens, None if how == 'to the constructor' else given)
    ctx.true(g == 'tree' and len(got) == 1 and got[0][0] is scens, 'the scenarios are reduced')
    ctx.true(got[0][1] == n, 'to the requested counts')


def quantile_tree(ctx):
    """node values are quantiles of the scenarios of their own step that run through their parent"""
    from pyforecaster import tree_builders as B
    steps, n_scen = 2, 3
    n = [1, ctx.pick('children', 1, 3)]
    if ctx.flag('three_steps'):
        n, steps, n_scen = [1, 1, 2], 3, 2
    s = ctx.reals('s', (steps, n_scen), -20, 20)
    t = B.QuantileTree(nodes_at_step=n)
    t.logger.setLevel(100)
    s0 = s.copy()
    g, ts, idx, tv = t.gen_tree(s)
    ctx.eq(s, s0, 'the scenarios are not modified')
    structure(ctx, g, n)
    tt, p, v = tree_of(g)
    root = [k for k in g.nodes if tt[k] == 0][0]
    ctx.eq(v[root], q_(list(s[0]), 0.5), 'the root is the median of the first step')
    if steps == 2:
        ch = sorted(g.successors(root))
        got = sorted_syms(ctx, [v[c] for c in ch])
        ctx.eq(got, [q_(list(s[1]), (i + 1) / (len(ch) + 1)) for i in range(len(ch))], 'children are evenly spaced quantiles of the next step')
    else:
        mid = list(g.successors(root))[0]
        ctx.eq(v[mid], q_(list(s[1]), 0.5), 'an only child is the median of its step')
    for k in g.nodes:
        row = list(s[tt[k]])
        lo, hi = row[0], row[0]
        for x in row[1:]:
            lo, hi = smin(lo, x), smax(hi, x)
        ctx.le(lo, v[k], 'inside the range of the scenarios at the step', tol=1e-9)
        ctx.le(v[k], hi, 'inside the range of the scenarios at the step', tol=1e-9)
    ctx.eq(tv, [v[k] for k in sorted(g.nodes)], 'the returned values are those of the tree')
    ctx.eq(ts, arr([[v[idx[a, b]] for b in range(idx.shape[1])] for a in range(idx.shape[0])]), 'the returned paths are those of the tree')


def quantile_tree_deep(ctx):
    """late steps: only the scenarios that came through the parent count"""
    from pyforecaster import tree_builders as B
    n, groups = ctx.choose('counts', [([1, 2, 2, 2], [[0, 1], [2, 3]]), ([1, 1, 2, 2], [[0, 1], [2, 3]]), ([1, 2, 4, 4], [[0], [1], [2], [3]]),
                                      ([1, 1, 1, 2, 2], [[0, 1], [2, 3]]), ([1, 2, 2, 2, 2], [[0, 1], [2, 3]])])
    steps = len(n)
    base = np.array([[-9., -8., 8., 9.]] * (steps - 1))
    last = ctx.reals('s', 4, -20, 20)
    s = arr(list(base) + [list(last)])
    t = B.QuantileTree(nodes_at_step=n)
    t.logger.setLevel(100)
    g, ts, idx, tv = t.gen_tree(s)
    tt, p, v = tree_of(g)
    leaves = [k for k in g.nodes if tt[k] == steps - 1]
    parents = sorted([list(g.predecessors(k))[0] for k in leaves], key=lambda k: float(v[k]))
    ctx.true(len(set(parents)) == len(groups), 'one leaf per parent')
    for pa, members in zip(parents, groups):
        leaf = list(g.successors(pa))[0]
        ctx.eq(v[leaf], q_([last[i] for i in members], 0.5), 'an only child is the median of the scenarios through its parent')


def sorted_syms(ctx, v):
    return sym_sort(v) if ctx.symbolic else sorted(v)


class Tree:
    """stand-in tree builder: one node per step, holding the scenarios it was built from"""

    def __init__(self, log, steps, nodes=None):
        self.log, self.nodes_at_step, self.steps = log, nodes, steps

    def gen_tree(self, scens, k_max=None, start_tree=None, nodes_at_step=None, **k):
        import networkx as nx
        scens = np.asarray(scens)
        self.log.append(dict(scens=scens, start=start_tree, nodes=nodes_at_step, k_max=k_max))
        g = nx.DiGraph([(i, i + 1) for i in range(scens.shape[0] - 1)])
        nx.set_node_attributes(g, {i: {'t': i, 'p': 1., 'v': np.asarray([scens[i, 0]]), 'label': i} for i in range(scens.shape[0])})
        return g, None, None, None


def noise():
    return dict(randn=lambda *a: np.zeros(a), rand=lambda *a: np.zeros(a))


class Lin:
    """quantile curve with two levels"""

    def __init__(self, x, y, **k):
        self.x, self.y = x, y

    def __call__(self, u):
        return self.y[0] + (self.y[1] - self.y[0]) * (np.asarray(u) - self.x[0]) / (self.x[1] - self.x[0])


def online(ctx):
    """one tree per row, built from that row's scenarios"""
    import pyforecaster.scenarios_generator as G
    n, steps, ns = ctx.pick('rows', 1, 2), 2, 2
    extra = ctx.flag('additional_node')
    q = [0.2, 0.6]
    base = [1, 2] if not extra else [2, 2]
    m = G.ScenGen(q_vect=q, nodes_at_step=base, additional_node=extra, max_iterations=17)
    want = [1] * extra + base
    ctx.true([int(v) for v in m.tree.nodes_at_step] == want, 'node counts of the constructor, one more first node on request')
    log = []
    m.tree = Tree(log, steps)
    u = ctx.reals('u', (n, steps, ns), 0, 1)

    class Cop:
        def sample(self, x, n_scen, **k):
            return u
    m.copula = Cop()
    t = ctx.reals('q', (n, steps, 2), -20, 20)
    x = feats(pd.DatetimeIndex(['2021-03-01 05:00', '2021-03-04 22:00'])[:n])
    init = ctx.reals('o', n, -20, 20) if extra and ctx.flag('first_observation') else None
    own = ctx.flag('own counts')
    with stub(G, interp1d=Lin, tqdm=no_tqdm), stub(np.random, **noise()):
        trees = m.predict_trees(quantiles=t, n_scen=ns, x=x, init_obs=init, nodes_at_step=[2, 3] if own else None, random_state=1)
    ctx.true(len(trees) == n and len(log) == n, 'one tree per row')
    for i in range(n):
        exp = [[t[i, j, 0] + (t[i, j, 1] - t[i, j, 0]) * (u[i, j, k] - q[0]) / (q[1] - q[0]) for k in range(ns)] for j in range(steps)]
        if extra:
            exp = [[(init[i] if init is not None else 0) for _ in range(ns)]] + exp
        ctx.eq(log[i]['scens'], arr(exp), 'built from the scenarios of the row', tol=1e-7)
        nd = log[i]['nodes']
        ctx.true(([int(v) for v in nd] == [1] * extra + [2, 3]) if own else nd is None, 'requested node counts')
        ctx.true(log[i]['k_max'] == 17, 'iterations')


def prefit(ctx):
    """trees fitted on the residuals of each hour, forecasts added to the tree of their hour"""
    import pyforecaster.scenarios_generator as G
    steps, ns = 2, 2
    extra = ctx.flag('additional_node')
    q = [0.25, 0.75]
    m = G.ScenGen(q_vect=q, online_tree_reduction=False, additional_node=extra, nodes_at_step=[1, 2])
    log = []
    m.tree = Tree(log, steps, nodes=['the counts'])
    fitted = []

    class Cop:
        def fit(self, y, x=None):
            fitted.append((y, x))

        def sample(self, x, n_scen, **k):
            return np.array([[[0.3 + 0.1 * k + 0.05 * j for k in range(n_scen)] for j in range(steps)] for _ in range(len(x))])
    m.copula = Cop()
    # two residual rows per hour; free for two of the hours
    idx = hours(48, start='2021-03-01 03:00')
    e = np.array([[(3 * i + 5 * j) % 17 - 8. for j in range(steps)] for i in range(48)], dtype=object)
    free = (5, 22)
    for i in range(48):
        for j in range(steps):
            if idx[i].hour in free:
                e[i, j] = ctx.real('e[%d,%d]' % (i, j), -20, 20)
    y = frame(arr(e), index=idx)
    x = feats(idx)
    with stub(G, interp1d=Lin, tqdm=no_tqdm), stub(np.random, **noise()):
        m.fit(y, x, n_scen=ns)
        ctx.true(len(fitted) == 1 and fitted[0][0] is y, 'copula fitted on the residuals')
        ctx.true(sorted(m.trees) == list(range(24)), 'one tree per hour')
        nt = ctx.pick('rows', 1, 2)
        hrs = ctx.choose('hours of the forecast', [('05:20', '22:00'), ('22:59', '22:00'), ('05:00', '05:30')])[:nt]
        xi = pd.DatetimeIndex(['2022-01-0%d %s' % (i + 1, h) for i, h in enumerate(hrs)])
        p = frame(ctx.reals('p', (nt, steps), -20, 20), index=xi)
        init = ctx.reals('o', nt, -20, 20) if extra and ctx.flag('first_observation') else None
        p0 = p.copy()
        trees = m.predict_trees(predictions=p, x=feats(xi), init_obs=init)
        again = m.predict_trees(predictions=p, x=feats(xi), init_obs=init)
    ctx.eq(p.values, p0.values, 'the forecasts are not modified')
    ctx.true(len(trees) == nt and len(again) == nt, 'one tree per row')
    for r in (trees, again):
        for i in range(nt):
            h = xi[i].hour
            rows = [k for k in range(48) if idx[k].hour == h]
            exp = []
            if extra:
                exp.append(init[i] if init is not None else p0.values[i, 0])
            for j in range(steps):
                lo, hi = q_([e[k, j] for k in rows], q[0]), q_([e[k, j] for k in rows], q[1])
                exp.append(p0.values[i, j] + lo + (hi - lo) * (0.3 + 0.05 * j - q[0]) / (q[1] - q[0]))
            t, pr, v = tree_of(r[i])
            ctx.eq([v[k] for k in range(len(exp))], arr(exp), 'forecast + residual tree of the hour', tol=1e-7)
    ctx.true(all(l['nodes'] == ['the counts'] for l in log), 'requested node counts')


def network_order(ctx):
    """node values and paths survive replacing them"""
    from pyforecaster import scenred as R, tree_builders as B
    n = counts_(ctx, 3, 4)
    t = B.QuantileTree(nodes_at_step=n)
    t.logger.setLevel(100)
    g = t.gen_init_tree(np.zeros((3, 4)))
    k = len(g.nodes)
    v = ctx.reals('v', k, -20, 20)
    R.replace_var(g, v)
    tt, p, w = tree_of(g)
    ctx.eq([w[i] for i in range(k)], v, 'values by node')
    idx, leaves = R.retrieve_scenarios_indexes(g)
    ctx.true(sorted(int(l) for l in leaves) == sorted(i for i in g.nodes if g.out_degree(i) == 0), 'leaves')
    for c in range(idx.shape[1]):
        ctx.true([tt[i] for i in idx[:, c]] == [0, 1, 2] and all(g.has_edge(idx[i, c], idx[i + 1, c]) for i in range(2)), 'paths')
    vals = B.update_tree_from_scenarios(g, idx, arr([[v[idx[a, b]] for b in range(idx.shape[1])] for a in range(3)]))
    ctx.eq([x[0] for x in vals], v, 'values read back from the paths')


def default_counts(ctx):
    """without requested counts: one root, non-decreasing counts, never more nodes than scenarios"""
    from pyforecaster import tree_builders as B
    n_scen, steps = ctx.pick('n_scen', 8, 40), ctx.pick('steps', 2, 6)
    t = B.QuantileTree()
    t.logger.setLevel(100)
    g = t.gen_init_tree(np.zeros((steps, n_scen)))
    c = [int(v) for v in B.get_nodes_per_time_from_tree(g)]
    ctx.true(len(c) == steps and c[0] == 1, 'one root, one count per step')
    ctx.true(all(a <= b for a, b in zip(c, c[1:])) and c[-1] <= n_scen and c[-1] > 1, 'counts')
    structure(ctx, g, c)


OBLIGATIONS = [
    Obligation('default_counts', default_counts, [T + 'ScenarioTree.gen_init_tree'], '8-40 scenarios, 2-6 steps'),
    Obligation('init_tree', init_tree, [T + 'ScenarioTree.gen_init_tree'], '2-3 steps, up to 4 nodes per step, 2-5 scenarios, four ways of giving the counts'),
    Obligation('scenred_counts', scenred_counts, [T + 'ScenarioTree.gen_init_tree'], '3 steps, 2-4 scenarios'),
    Obligation('quantile_tree_deep', quantile_tree_deep, [T + 'ScenarioTree.init_vals'], '4-5 steps, 4 scenarios: separated branches, arbitrary values at the last step'),
    Obligation('quantile_tree', quantile_tree, [T + f for f in ('QuantileTree.gen_tree', 'ScenarioTree.gen_tree', 'ScenarioTree.init_vals', 'ScenarioTree.gen_init_tree')], '2 steps x 3 scenarios with 1-3 leaves, or 3 steps x 2 scenarios'),
    Obligation('online', online, [G_ + 'ScenGen.predict_trees', G_ + 'ScenGen.sample_scenarios', G_ + 'ScenGen.__init__'], '1-2 rows, 2 steps, 2 scenarios'),
    Obligation('prefit', prefit, [G_ + 'ScenGen.fit', G_ + 'ScenGen.predict_trees', G_ + 'ScenGen.sample_scenarios', G_ + 'tree_gen'], '2 residual rows per hour (free for two hours), 1-2 forecast rows, 2 steps'),
    Obligation('network_order', network_order, ['pyforecaster.scenred.replace_var', 'pyforecaster.scenred.retrieve_scenarios_indexes', T + 'update_tree_from_scenarios'], '3 steps, up to 4 leaves'),
]
