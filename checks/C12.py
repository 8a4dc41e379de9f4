import copy
from checks.common import *

PRELOAD = ['pyforecaster.scenred', 'pyforecaster.tree_builders', 'networkx', 'scipy.spatial.distance']
STUBS = ['the distance between full scenarios: any positive symmetric matrix (so the result holds for every metric and every sample value that is distinct per step)',
         'numba: compiled functions run as python']
OUTSIDE = 'samples that coincide at some step, more than 4 scenarios, 3 steps, 2 variables; single-step trees; optimality of the reduction beyond the greedy rule'
P = 'pyforecaster.scenred.'


def samples(ns, steps, nv):
    a = np.zeros((steps, ns, nv))
    for t in range(steps):
        for s in range(ns):
            for v in range(nv):
                a[t, s, v] = ((7 * s * s + 3 * t * s + 11 * t + 5 * v * s + 2 * s) % 41) + 0.125 * s + 0.0625 * v
    return a if nv > 1 else a[:, :, 0]


def clustered(ctx, ns):
    """distances of scenarios in pairs of pairs of pairs ...: each level between its own bounds"""
    D = np.zeros((ns, ns), dtype=object)
    far = {}
    for i in range(ns):
        for j in range(i):
            lv = (i ^ j).bit_length()
            key = (lv, i >> lv)
            if key not in far:
                far[key] = ctx.real('d%d_%d' % key, 10. ** lv, 3 * 10. ** lv)
            # all pairs of two groups at nearly the same distance
            D[i, j] = D[j, i] = far[key] + 1e-3 * ((i * 5 + j * 3) % 7)
    return D


def reduce(ctx, ns, steps, nv, nodes, unique=False, near=None):
    """run the real reduction with arbitrary distances between scenarios"""
    from pyforecaster import scenred as R
    D = np.zeros((ns, ns), dtype=object)
    for i in range(ns):
        for j in range(i):
            D[i, j] = D[j, i] = ctx.real('d%d%d' % (j, i), 0.01, 20) if near is None else near[i, j]
    D0 = D.copy()
    if not ctx.symbolic:
        D = D.astype(float)
    real = R.get_dist
    calls = []

    def get_dist(X, metric):
        calls.append(len(X))
        if len(calls) == 1:
            return D
        return real(X.astype(float) if X.dtype == object else X, metric)
    S0 = samples(ns, steps, nv)
    keep = S0.copy()
    k = {} if nodes is None else {'nodes': nodes}
    n0 = None if nodes is None else list(nodes)
    with stub(R, get_dist=get_dist):
        S, Pm, J, Me, g = R.scenred(S0, **k)
    ctx.true(bool(np.array_equal(S0, keep)), 'the samples are not modified')
    if nodes is not None:
        ctx.true([int(v) for v in nodes] == [int(v) for v in n0], 'the requested node counts are not modified')
    return S0 if nv > 1 else S0[:, :, None], D0, S, Pm, J, g


def check_tree(ctx, S0, g, steps, counts=None):
    """g is a tree of scenarios: structure, probabilities, values"""
    t, p, v = ({n: g.nodes[n][k] for n in g.nodes} for k in ('t', 'p', 'v'))
    roots = [n for n in g.nodes if t[n] == 0]
    ctx.true(len(roots) == 1 and float(p[roots[0]]) == 1., 'one root with probability one')
    for s in range(steps):
        lev = [n for n in g.nodes if t[n] == s]
        ctx.eq(float(sum(p[n] for n in lev)), 1., 'probabilities sum to one at every step')
        if counts is not None:
            ctx.true(len(lev) == int(counts[s]), 'requested number of nodes')
        for n in lev:
            pr, su = list(g.predecessors(n)), list(g.successors(n))
            ctx.true(float(p[n]) > 0, 'positive probability')
            ctx.true((len(pr) == 1 and t[pr[0]] == s - 1) if s else not pr, 'one parent, one step earlier')
            if s < steps - 1:
                ctx.true(len(su) >= 1, 'every branch reaches the last step')
                ctx.eq(float(sum(p[m] for m in su)), float(p[n]), 'children share the probability of their parent')
            ctx.true(any(np.array_equal(np.asarray(v[n], dtype=float), S0[s, k]) for k in range(S0.shape[1])), 'values are those of a sample at that step')
    ctx.true(sorted(g.nodes) == list(range(len(g.nodes))), 'nodes are numbered')


def structure(ns, steps, nv, fixed=None, near=None):
    def h(ctx):
        from pyforecaster import scenred as R
        form = ctx.choose('nodes', ['given', 'tolerance']) if fixed is None else 'given'
        nodes = None
        if form == 'given':
            n = [1] if fixed is None else list(fixed)
            for i in range(len(n), steps):
                n.append(ctx.pick('n%d' % i, n[-1], ns))
            nodes = np.array(n)
        S0, D, S, Pm, J, g = reduce(ctx, ns, steps, nv, nodes, near=None if near is None else near(ctx, ns))
        check_tree(ctx, S0, g, steps, nodes)
        # tables: one column per leaf, evolving probabilities, common trunk
        leaves = [n for n in g.nodes if g.nodes[n]['t'] == steps - 1]
        ctx.true(S.shape[1] == len(leaves) and Pm.shape == (steps, len(leaves)), 'one column per leaf')
        ctx.eq(np.asarray(Pm, dtype=float).sum(axis=1), np.ones(steps), 'probabilities of each step sum to one')
        idx, lv = R.retrieve_scenarios_indexes(g)
        ctx.true(idx.shape == (steps, len(leaves)) and sorted(lv) == sorted(leaves), 'one path per leaf')
        got = sorted(tuple(np.asarray(g.nodes[i]['v'], dtype=float).ravel() for i in idx[:, c])[-1][0] for c in range(idx.shape[1]))
        for c in range(idx.shape[1]):
            ctx.true([g.nodes[i]['t'] for i in idx[:, c]] == list(range(steps)), 'paths run through the steps')
            ctx.true(all(g.has_edge(idx[i, c], idx[i + 1, c]) for i in range(steps - 1)), 'paths follow edges')
        paths = sorted(tuple(float(x) for i in idx[:, c] for x in np.asarray(g.nodes[i]['v'], dtype=float).ravel()) for c in range(idx.shape[1]))
        cols = sorted(tuple(float(x) for s in range(steps) for x in np.asarray(S[s, c], dtype=float).ravel()) for c in range(S.shape[1]))
        ctx.true(paths == cols, 'the graph holds the paths of the table')
        ctx.reach('tree built')
    return h


def greedy(ns):
    def h(ctx):
        """the scenario that is cheapest to merge (probability x distance to its nearest) is merged into its nearest one"""
        steps = 2
        last = ctx.pick('leaves', 1, ns - 1)
        S0, D, S, Pm, J, g = reduce(ctx, ns, steps, 1, np.array([1, last]))
        alive = list(range(ns))
        p = [1.] * ns
        while len(alive) > last:
            near = {}
            for i in alive:
                o = [j for j in alive if j != i]
                b = o[0]
                for j in o[1:]:
                    ctx.assume(D[i, j] != D[i, b])
                    if bool(D[i, j] < D[i, b]):
                        b = j
                near[i] = b
            r = alive[0]
            for i in alive[1:]:
                a, b = p[i] * D[i, near[i]], p[r] * D[r, near[r]]
                if near[i] == r and near[r] == i and p[i] == p[r]:
                    # mutual nearest neighbours of equal probability cost the same: either may be merged into the other
                    continue
                ctx.assume(a != b)
                if bool(a < b):
                    r = i
            twin = near[r] if near[near[r]] == r and p[r] == p[near[r]] else None
            if twin is not None and not bool(np.asarray(J)[-1][twin]) and bool(np.asarray(J)[-1][r]):
                # ties are resolved either way; follow the code
                r = twin
            p[near[r]] += p[r]
            p[r] = 0.
            alive.remove(r)
        ctx.true([k for k in range(ns) if bool(np.asarray(J)[-1][k])] == alive, 'surviving scenarios')
        ctx.eq(np.asarray(Pm, dtype=float)[-1], [p[i] / ns for i in alive], 'their probabilities')
        ctx.eq(np.asarray(S, dtype=float)[-1, :, 0], [S0[-1, i, 0] for i in alive], 'their last values')
    return h


def superimpose(ctx):
    """a forecast is added to the tree step by step; the stored tree stays as it is"""
    from pyforecaster import scenred as R, scenarios_generator as G
    import networkx as nx
    steps = 3
    shape = ctx.choose('tree', ['chain', 'fan', 'binary'])
    edges = {'chain': [(0, 1), (1, 2)], 'fan': [(0, 1), (1, 2), (1, 3), (1, 4)], 'binary': [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6)]}[shape]
    times = {'chain': [0, 1, 2], 'fan': [0, 1, 2, 2, 2], 'binary': [0, 1, 1, 2, 2, 2, 2]}[shape]
    v = ctx.reals('v', len(times), -20, 20)
    mk = lambda w: np.atleast_1d(np.asarray(w, dtype=object if ctx.symbolic else float))

    def build(off):
        g = nx.DiGraph(edges)
        nx.set_node_attributes(g, {i: {'t': t, 'p': 1., 'v': mk(v[i] + off), 'label': i} for i, t in enumerate(times)})
        return g
    trees = {5: build(0), 22: build(100)}
    x = ctx.reals('x', steps, -20, 20)
    hour = ctx.choose('hour', [5, 22])
    s = pd.Series(x, index=['a', 'b', 'c'])
    g = G.tree_gen((pd.Timestamp('2021-03-04 %02d:15' % hour), s), trees)
    off = 0 if hour == 5 else 100
    ctx.eq([g.nodes[i]['v'][0] for i in range(len(times))], [v[i] + off + x[t] for i, t in enumerate(times)], 'node value + forecast of its step')
    ctx.true(list(g.edges) == list(trees[hour].edges) and [g.nodes[i]['t'] for i in range(len(times))] == times, 'same structure')
    for hh, o in ((5, 0), (22, 100)):
        ctx.eq([trees[hh].nodes[i]['v'][0] for i in range(len(times))], [v[i] + o for i in range(len(times))], 'the fitted trees are not modified')
    ctx.eq(s.values, x, 'nor is the forecast')
    g2 = G.tree_gen((pd.Timestamp('2021-03-04 %02d:15' % hour), s), trees)
    ctx.eq([g2.nodes[i]['v'][0] for i in range(len(times))], [v[i] + off + x[t] for i, t in enumerate(times)], 'again')
    n = R.get_nodes_per_time_from_tree(g)
    ctx.true([int(k) for k in n] == [times.count(t) for t in range(3)], 'nodes per step')


OBLIGATIONS = [
    Obligation('structure_3x3', structure(3, 3, 1), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '3 scenarios x 3 steps, any non-decreasing node counts or the tolerance rule, any distances'),
    Obligation('structure_8x2', structure(8, 2, 1, (1, 8), clustered), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '8 scenarios x 2 steps in nested clusters, all kept at the last step, merged into one root', timeout=400),
    Obligation('structure_8x3', structure(8, 3, 1, (1, 3, 8), clustered), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '8 scenarios x 3 steps in nested clusters', timeout=400),
    Obligation('structure_4x2_all', structure(4, 2, 1, (1, 4)), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '4 scenarios x 2 steps, all kept at the last step, merged into one root, any distances', timeout=400, tiers=('thorough',)),
    Obligation('structure_4x2', structure(4, 2, 1, (1, 3)), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '4 scenarios x 2 steps, 3 leaves, any distances', timeout=400),
    Obligation('structure_4x2_any', structure(4, 2, 1), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '4 scenarios x 2 steps, any node counts or the tolerance rule, any distances', tiers=('thorough',), thorough_timeout=3000),
    Obligation('structure_3x2x2', structure(3, 2, 2), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '3 scenarios x 2 steps x 2 variables'),
    Obligation('greedy_3', greedy(3), [P + 'scenred'], '3 scenarios, 1-2 leaves, any distances without ties'),
    Obligation('greedy_4', greedy(4), [P + 'scenred'], '4 scenarios, 1-3 leaves, any distances without ties', tiers=('thorough',), thorough_timeout=3000),
    Obligation('superimpose', superimpose, [P + f for f in ('superimpose_signal_to_tree', '_superimpose_signal_to_tree', 'replace_var', 'get_nodes_per_time_from_tree')] + ['pyforecaster.scenarios_generator.tree_gen'],
               'three trees of three steps, all values'),
    Obligation('structure_4x3', structure(4, 3, 1), [P + f for f in ('scenred', 'get_network', '_get_network', 'retrieve_scenarios_indexes')],
               '4 scenarios x 3 steps', tiers=('thorough',), thorough_timeout=3000),
]
