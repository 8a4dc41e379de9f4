from checks.common import *

PRELOAD = ['pyforecaster.formatter', 'pyforecaster.big_data_utils', 'pyforecaster.scenarios_generator']
STUBS = ['process pool and ray: the function is applied to every piece, on a copy of the callable, results in submission order',
         'numpy column of a given dtype: symbolic minimum, maximum and value, casts wrap / round / overflow as the machine types do',
         'iteration order of sets of strings (changes from process to process): any order', 'DataFrame.corrwith: any ranking of the columns']
OUTSIDE = 'more than 5 columns, 5 rows, 4 pieces; transport of data between processes; columns of unsigned or extension types are returned as they are'
B = 'pyforecaster.big_data_utils.'
F = 'pyforecaster.formatter.Formatter.'
F32MAX = float(np.finfo(np.float32).max)


class Col:
    """one element of a column known through its dtype, minimum and maximum"""

    def __init__(self, ctx, dtype, v, lo, hi):
        self.ctx, self.dtype, self.v, self.lo, self.hi = ctx, np.dtype(dtype), v, lo, hi
        self.name, self.shape, self.ndim = 'c', (3,), 1

    def min(self, *a, **k):
        return self.lo

    def max(self, *a, **k):
        return self.hi

    def copy(self, *a, **k):
        return self

    @property
    def values(self):
        return self

    def to_numpy(self, *a, **k):
        return self

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        return Col(self.ctx, t, cast(self.ctx, self.v, self.dtype, t), self.lo, self.hi)


def cast(ctx, v, a, b):
    if not ctx.symbolic:
        with np.errstate(all='ignore'):
            r = np.asarray([int(v) if a.kind == 'i' else float(v)], dtype=a).astype(b)[0]
            return int(r) if b.kind in 'iu' else float(r)
    if b.kind == 'i' and a.kind == 'i':
        n = 2 ** (8 * b.itemsize)
        return v if b.itemsize >= a.itemsize else wrap(v, n)
    if b.kind == 'u' and a.kind == 'i':
        return wrap(v, 2 ** (8 * b.itemsize), True)
    if b.kind == 'f':
        bits, big, tiny = {2: (11, 65504., 2. ** -25), 4: (24, F32MAX, 2. ** -150), 8: (53, 1.79e308, 0.)}[b.itemsize]
        if b.itemsize == 8 and a.kind == 'f':
            return v
        cast.n += 1
        r = ctx.real('rounded%d' % cast.n, -1e300, 1e300)
        m = abs(v)
        e = m * (2. ** -bits) + tiny
        ctx.assume((m > big) | ((r - v <= e) & (v - r <= e)))
        ctx.assume((m <= big) | (r >= 1e299))        # overflow
        return r
    raise NotImplementedError('cast %s -> %s' % (a, b))


cast.n = 0


def wrap(v, n, unsigned=False):
    return v % n if unsigned else (v + n // 2) % n - n // 2


def reduce_int(ctx):
    """integers keep their value, whatever the range of the column"""
    from pyforecaster import big_data_utils as M
    cast.n = 0
    t = ctx.choose('dtype', ['int64', 'int32', 'int16', 'int8'])
    lim = 2 ** (8 * np.dtype(t).itemsize - 1)
    v, lo, hi = (ctx.int(n, -lim, lim - 1) for n in ('value', 'min', 'max'))
    ctx.assume((lo <= v) & (v <= hi))
    r = M.reduce_mem_usage_series(Col(ctx, t, v, lo, hi))
    ctx.reach('reduced')
    ctx.true(r.v == v, 'integers are kept exactly')
    ctx.true(disj([lo <= -lim, hi >= lim - 1, np.dtype(r.dtype).itemsize <= np.dtype(t).itemsize]), 'never larger, unless it contains the extreme values of the type')


def reduce_float(ctx):
    """floats keep single precision, never overflow"""
    from pyforecaster import big_data_utils as M
    cast.n = 0
    t = ctx.choose('dtype', ['float64', 'float32'])
    big = 1e250 if t == 'float64' else F32MAX
    v, lo, hi = (ctx.real(n, -big, big) for n in ('value', 'min', 'max'))
    ctx.assume((lo <= v) & (v <= hi))
    r = M.reduce_mem_usage_series(Col(ctx, t, v, lo, hi))
    ctx.reach('reduced')
    m = abs(v) * 2. ** -23 + 2. ** -149
    ctx.true((r.v - v <= m) & (v - r.v <= m), 'floats are kept to single precision')
    ctx.true(disj([lo <= -F32MAX, hi >= F32MAX, np.dtype(r.dtype).itemsize <= np.dtype(t).itemsize]), 'never larger, unless it contains the extreme values of the type')


# ------------------------------------------------------------------ parallel execution
class FakePool:
    def __init__(self, *a, **k):
        pass

    def starmap_async(self, f, args, *a, **k):
        import copy
        return type('R', (), {'get': lambda s, timeout=None: [copy.copy(f)(*x) for x in args]})()

    def starmap(self, f, args, *a, **k):
        return [f(*x) for x in args]

    def map(self, f, args, *a, **k):
        return [f(x) for x in args]
    imap = map

    def close(self):
        pass
    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class FakeRay:
    """what is run remotely does not change the objects of the caller"""
    def __init__(self):
        self.on = False

    def is_initialized(self):
        return self.on

    def init(self, *a, **k):
        self.on = True

    def shutdown(self):
        self.on = False

    def remote(self, f):
        import copy
        import types

        def run(*a):
            # the function and what it is bound to are shipped as copies
            g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(types.CellType(remote_copy(c.cell_contents)) for c in f.__closure__ or ()))
            return g(*[copy.copy(x) for x in a])
        return type('Rem', (), {'remote': staticmethod(run)})()

    def get(self, x):
        return list(x) if isinstance(x, (list, tuple)) else x

    def put(self, x):
        return x


def remote_copy(o):
    import copy
    import functools
    if isinstance(o, functools.partial):
        f = o.func
        if hasattr(f, '__self__'):
            me = copy.copy(f.__self__)
            for k, v in list(vars(me).items()):
                if isinstance(v, list):
                    setattr(me, k, [copy.copy(q) for q in v])
            f = f.__func__.__get__(me)
        return functools.partial(f, *o.args, **o.keywords)
    return o


def parallel(M, cpu=2):
    return stub(M, ray=FakeRay(), Pool=FakePool, cpu_count=lambda: cpu)


def f_any(x):
    return 2 * x + 1


def f_row(x):
    """row-wise: needs all the columns of its rows"""
    v = x.values if hasattr(x, 'values') else x
    r = v - v[:, [0]]
    return pd.DataFrame(r, index=x.index, columns=x.columns) if hasattr(x, 'values') else r


def f_col(x):
    v = x.values if hasattr(x, 'values') else x
    r = v - v[[0], :]
    return pd.DataFrame(r, index=x.index, columns=x.columns) if hasattr(x, 'values') else r


def f_frame(x):
    """works on frames only"""
    return pd.DataFrame(x.values + 1, index=x.index, columns=x.columns)


def f_two(x):
    return f_frame(x), f_frame(x) * 2


def fdf(ctx):
    """applying a function piecewise gives what applying it to the whole frame gives, labels included"""
    from pyforecaster import big_data_utils as M
    axis = ctx.pick('axis', 0, 1)
    n, c = ctx.choose('rows', [1, 2, 4]), ctx.choose('columns', [1, 3, 5])
    k = ctx.pick('pieces', 1, 3)
    ray = ctx.flag('ray')
    f = ctx.choose('function', [f_any, f_row if axis == 0 else f_col, f_frame, f_two])
    cols, tz = ctx.choose('labels', [(['b', 'a', 'd', 'c', 'e'], 'Europe/Zurich'), ([3, 1, 0, 2, 9], None)])
    cols = cols[:c]
    v = ctx.reals('v', (n, c), -9, 9)
    df = pd.DataFrame(v, index=pd.date_range('2021-03-01', periods=n, freq='h', tz=tz), columns=cols)
    lst = ctx.flag('already in pieces')
    arg = df
    if lst:
        cut = max(1, (n if axis == 0 else c) // 2)
        arg = [df.iloc[:cut], df.iloc[cut:]] if axis == 0 else [df.iloc[:, :cut], df.iloc[:, cut:]]
        arg = [a for a in arg if min(a.shape)]
    with parallel(M):
        r = M.fdf_parallel(f, arg, k, axis=axis, use_ray=ray)
    exp = f(df)
    ctx.true(isinstance(r, tuple) == isinstance(exp, tuple), 'as many results')
    for a, b in zip(r, exp) if isinstance(exp, tuple) else [(r, exp)]:
        ctx.true(isinstance(a, pd.DataFrame) and list(a.columns) == list(b.columns) and a.index.equals(b.index), 'labels of the whole frame')
        ctx.eq(a.values, b.values, 'values of the whole frame')
    ctx.eq(df.values, v, 'the data is not modified')


def split(ctx):
    """the pieces are a partition in order"""
    from pyforecaster import big_data_utils as M
    n, k, axis = ctx.pick('length', 0, 7), ctx.pick('pieces', 1, 5), ctx.pick('axis', 0, 1)
    v = ctx.reals('v', (n, 2) if axis == 0 else (2, n), -9, 9)
    obj = pd.DataFrame(v, columns=['c%d' % i for i in range(v.shape[1])]) if ctx.flag('frame') else v
    p = M.array_split(obj, k, axis=axis)
    ctx.true(len(p) == k and sum(a.shape[axis] for a in p) == n and all(a.shape[1 - axis] == 2 for a in p), 'as many pieces as requested, nothing lost')
    if n:
        q = [np.asarray(a.values if hasattr(a, 'values') else a) for a in p]
        ctx.eq(np.concatenate(q, axis=axis), v, 'pieces are in order')
    if hasattr(obj, 'columns'):
        ctx.true([l for a in p for l in (a.index if axis == 0 else a.columns)] == list(obj.index if axis == 0 else obj.columns), 'labels of the pieces')


def reduce_frame(ctx):
    """all ways of reducing a frame keep layout and values"""
    from pyforecaster import big_data_utils as M
    mode = ctx.choose('mode', ['serial', 'ray', 'pool'])
    v = ctx.reals('v', (3, 2), -9, 9)
    df = pd.DataFrame({'z': v[:, 0], 'i': np.array([3, -70000, 127]), 'f': [0.5, np.nan, 2.], 'a': v[:, 1], 'b': np.array([-128, 127, 0])}, index=hours(3))
    if ctx.flag('numbers only'):
        df = df[['i', 'f', 'b']]
    ref = df.copy()
    with parallel(M), quiet(), stub(M, tqdm=no_tqdm):
        r = M.reduce_mem_usage(df, parallel=mode != 'serial', use_ray=mode == 'ray')
    ctx.true(list(r.columns) == list(ref.columns) and r.index.equals(ref.index), 'same layout')
    for c in ref:
        for i in range(3):
            if c == 'f' and i == 1:
                ctx.true(bool(pd.isna(r[c].iloc[i])), 'missing values stay missing')
            else:
                ctx.eq(r[c].iloc[i], ref[c].iloc[i], 'same values')


# ------------------------------------------------------------------ global form
def any_order(ctx):
    n = [0]

    class S(set):
        """a set whose iteration order is a choice"""
        def _perm(self):
            v = sorted(set.__iter__(self), key=str)
            out = []
            while v:
                n[0] += 1
                out.append(v.pop(ctx.pick('order %d' % n[0], 0, len(v) - 1)))
            return out

        def __iter__(self):
            return iter(self._perm())

        def __sub__(self, o):
            return S(set.__sub__(self, o))

        def __or__(self, o):
            return S(set.__or__(self, o))

        def __and__(self, o):
            return S(set.__and__(self, o))

        def difference(self, *o):
            return S(set.difference(self, *o))
    return S


def _gdata(ctx, n, kind):
    cols = ['s2', 's1', 'w', 'u']
    v = ctx.reals('x', (n, 4), -9, 9)
    x = pd.DataFrame(v, index=hours(n), columns=cols)
    if kind == 'multi':
        x.columns = pd.MultiIndex.from_tuples([('p2', 's2'), ('p1', 's1'), ('sh', 'w'), ('sh2', 'u')])
    return x


def _fmt(lag=1):
    import pyforecaster.formatter as pf
    f = pf.Formatter(n_parallel=1)
    f.add_transform(['w', 'u'], lags=[lag])
    f.add_transform(['target'], lags=[0, lag])
    f.add_target_transform(['target'], lags=[-1])
    return f


def global_parallel(ctx):
    """parallel or not, with any number of processors, the table is the same"""
    import pyforecaster.formatter as pf
    from pyforecaster import big_data_utils as M
    x = _gdata(ctx, 5, ctx.choose('input', ['plain', 'multi']))
    a = _fmt().transform(x.copy(), global_form=True, reduce_memory=False, time_features=False)
    cpu = ctx.pick('processors', 1, 3)
    f = _fmt()
    with parallel(M, cpu), stub(pf, cpu_count=lambda: cpu, tqdm=no_tqdm), quiet():
        b = f.transform(x.copy(), global_form=True, reduce_memory=False, time_features=False, parallel=True)
    for p, q in zip(a, b):
        ctx.true(list(p.columns) == list(q.columns) and p.index.equals(q.index), 'same layout')
        for c in p.columns:
            if c == 'name':
                ctx.true(list(p[c]) == list(q[c]), 'same signals')
            else:
                ctx.eq(p[c].values, q[c].values, 'same values')
    ctx.true(all(t.metadata is not None and len(t.metadata) for t in f.transformers), 'metadata is available after a parallel transform')


def global_order(ctx):
    """the order of the columns does not depend on the process"""
    import pyforecaster.formatter as pf
    x = _gdata(ctx, 4, ctx.choose('input', ['plain', 'multi']))
    a, _ = _fmt().transform(x.copy(), global_form=True, reduce_memory=False, time_features=False)
    with stub(pf, set=any_order(ctx)):
        b, _ = _fmt().transform(x.copy(), global_form=True, reduce_memory=False, time_features=False)
    ctx.true(list(a.columns) == list(b.columns), 'same order of the columns in every process')


def reorder(ctx):
    """features sorted by correlation: the order of each signal is the same at training and prediction, on any number of processors"""
    import pyforecaster.formatter as pf
    from pyforecaster import big_data_utils as M
    x = _gdata(ctx, 5, 'plain')
    n = [0]

    def corrwith(df, other, *a, **k):
        n[0] += 1
        r = ctx.choose('ranking %d' % n[0], [[1., 0.], [0., 1.]]) if df.shape[1] == 2 else [0.] * df.shape[1]
        return pd.Series(r, index=df.columns)
    cpu = ctx.pick('processors', 0, 2)
    f = _fmt()
    with stub(pd.DataFrame, corrwith=corrwith), parallel(M, cpu), stub(pf, cpu_count=lambda: cpu, tqdm=no_tqdm), quiet():
        a, ya = f.transform(x.copy(), global_form=True, reduce_memory=False, time_features=False, corr_reorder=True, parallel=cpu > 0)
        p, _ = f.transform(x.copy(), global_form=True, reduce_memory=False, time_features=False, corr_reorder=True, return_target=False)
    for s in ('s1', 's2'):
        t, q = a[a['name'] == s], p[p['name'] == s]
        q = q.loc[t.index]
        v = x[s]
        i = [x.index.get_loc(j) for j in t.index]
        l0, l1 = arr([v.iloc[j] for j in i]), arr([v.iloc[j - 1] for j in i])
        for c in ('target_lag_000', 'target_lag_001', 'w_lag_001', 'u_lag_001'):
            ctx.eq(q[c].values, t[c].values, 'a column holds the same feature at training and prediction')
        ctx.eq(t['w_lag_001'].values, arr([x['w'].iloc[j - 1] for j in i]), 'single features stay')
        f0, f1 = list(t['target_lag_000'].values), list(t['target_lag_001'].values)
        ctx.true(disj([conj([near(p, q) for p, q in zip(f0 + f1, list(u) + list(w))]) for u, w in ((l0, l1), (l1, l0))]), 'the same features, in one order for all rows')


def trees_parallel(ctx):
    """tree predictions split over processes come back in the order of the rows"""
    from pyforecaster import big_data_utils as M
    from pyforecaster import scenarios_generator as S
    import networkx as nx
    n, cpu = ctx.pick('rows', 1, 4), ctx.pick('processors', 2, 4)
    idx = hours(n, start='2021-03-01 22:00')
    base = {(h, t): ctx.real('tree %d %d' % (h, t), -9, 9) if h in (22, 23, 0, 1) else 1. * h for h in range(24) for t in range(3)}
    trees = {}
    for h in range(24):
        g = nx.DiGraph()
        for t in range(3):
            g.add_node(t, t=t, v=arr([base[h, t]]), p=1.)
            if t:
                g.add_edge(t - 1, t)
        trees[h] = g
    v = ctx.reals('p', (n, 3), -9, 9)
    s = S.ScenGen(online_tree_reduction=False)
    s.trees, s.additional_node = trees, False
    out = []
    for par in (False, True):
        s.parallel_preds = par
        with parallel(M, cpu), stub(S, cpu_count=lambda: cpu, tqdm=no_tqdm):
            out.append(s.predict_trees(predictions=pd.DataFrame(v, index=idx, columns=['a', 'b', 'c'])))
    ctx.true(len(out[0]) == len(out[1]) == n, 'one tree per row')
    for i, (a, b) in enumerate(zip(*out)):
        for k in a.nodes:
            ctx.eq(a.nodes[k]['v'], b.nodes[k]['v'], 'same trees in the same order')
            ctx.eq(b.nodes[k]['v'], arr([v[i, a.nodes[k]['t']] + base[idx[i].hour, k]]), 'tree of the row')


OBLIGATIONS = [
    Obligation('reduce_int', reduce_int, [B + 'reduce_mem_usage_series'], 'any value, minimum and maximum of 8 to 64 bit integers'),
    Obligation('reduce_float', reduce_float, [B + 'reduce_mem_usage_series'], 'any value up to 1e250'),
    Obligation('reduce_frame', reduce_frame, [B + f for f in ('reduce_mem_usage', 'reduce_mem_usage_df', 'reduce_mem_usage_np', 'reduce_mem_usage_series', 'fdf_parallel')], '5 columns of 3 types, 3 rows, three modes'),
    Obligation('fdf', fdf, [B + 'fdf_parallel', B + 'array_split', B + 'mapper'], '1-4 rows, 1-5 columns, 1-3 pieces, both axes, 4 functions', max_paths=20000),
    Obligation('split', split, [B + 'array_split'], '0-7 rows or columns, 1-5 pieces'),
    Obligation('global_parallel', global_parallel, [F + 'transform', F + 'global_form_preprocess', F + 'global_form_postprocess', B + 'fdf_parallel'], '2 signals, 2 shared variables, 5 rows, 1-3 processors'),
    Obligation('global_order', global_order, [F + 'global_form_preprocess'], 'any iteration order of sets'),
    Obligation('reorder', reorder, [F + 'global_form_postprocess', F + 'transform'], '2 signals, any ranking of 2 features, 0-2 processors'),
    Obligation('trees_parallel', trees_parallel, ['pyforecaster.scenarios_generator.ScenGen.predict_trees', 'pyforecaster.scenarios_generator.tree_gen_chunk', B + 'fdf_parallel'], '1-4 rows, 2-4 processors'),
]
