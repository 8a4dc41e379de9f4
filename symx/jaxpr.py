"""symbolic execution of JAX programs: the real function is traced to its jaxpr (JAX's intermediate representation),
which is then interpreted over arrays that hold solver terms. Data movement primitives are executed by JAX itself
on element numbers; arithmetic primitives build terms. exp, log, tanh, logistic are uninterpreted functions with axioms."""
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import SymBool, SymReal, Sym, to_real
from .patches import has_sym, smax, smin


def _jax():
    import jax
    import jax.numpy as jnp
    return jax, jnp


def x64():
    jax, _ = _jax()
    return jax.enable_x64(True) if hasattr(jax, 'enable_x64') else __import__('jax.experimental', fromlist=['enable_x64']).enable_x64(True)


def call(ctx, fun, *args, single=False):
    """fun(*args) where the leaves of args may hold symbols; concrete leaves run natively"""
    jax, jnp = _jax()
    tu = jax.tree_util
    leaves, tree = tu.tree_flatten(args)
    # nothing in the repository's jitted functions may come from (or go to) a run with other stand-ins
    import contextlib
    with contextlib.nullcontext() if single else x64():
        if not ctx.symbolic or not any(has_sym(np.asarray(v, dtype=object)) for v in leaves):
            conc = [jnp.asarray(np.asarray(np.asarray(v, dtype=object).tolist(), dtype=float)) if _floaty(v) else jnp.asarray(v) for v in leaves]
            out = fun(*tu.tree_unflatten(tree, conc))
            return tu.tree_map(lambda v: np.asarray(v), out)
        shapes = [jax.ShapeDtypeStruct(np.shape(np.asarray(v, dtype=object)), np.float32 if single else np.float64) if _floaty(v) else jax.ShapeDtypeStruct(np.shape(v), np.asarray(v).dtype) for v in leaves]
        jx, out_shape = jax.make_jaxpr(lambda *l: fun(*tu.tree_unflatten(tree, l)), return_shape=True)(*shapes)
        vals = [np.array(v, dtype=object) if has_sym(np.asarray(v, dtype=object)) else np.asarray(v) for v in leaves]
        outs = run(jx.jaxpr, [np.asarray(c) for c in jx.consts], vals)
        out_tree = tu.tree_structure(out_shape)
        return tu.tree_unflatten(out_tree, outs)


def _floaty(v):
    a = np.asarray(v)
    return a.dtype.kind in 'fO'


def run(jaxpr, consts, args):
    env = {}

    def read(v):
        return np.asarray(v.val) if hasattr(v, 'val') else env[v]
    for v, a in list(zip(jaxpr.constvars, consts)) + list(zip(jaxpr.invars, args)):
        env[v] = a
    # only what the results need (a gradient does not need the value of the loss)
    need, eqns = {v for v in jaxpr.outvars if not hasattr(v, 'val')}, []
    for eqn in reversed(jaxpr.eqns):
        if eqn.effects or any(v in need for v in eqn.outvars):
            eqns.append(eqn)
            need.update(v for v in eqn.invars if not hasattr(v, 'val'))
    for eqn in reversed(eqns):
        ins = [read(v) for v in eqn.invars]
        outs = apply(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _closed(j):
    return (j.jaxpr, [np.asarray(c) for c in j.consts]) if hasattr(j, 'consts') else (j, [])


MOVE = {'broadcast_in_dim', 'reshape', 'transpose', 'concatenate', 'scatter', 'gather', 'slice', 'dynamic_slice', 'squeeze', 'pad', 'copy', 'copy_p',
        'rev', 'expand_dims', 'dynamic_update_slice', 'split', 'unstack', 'tile'}


def _bind(eqn, ins):
    jax, jnp = _jax()
    r = eqn.primitive.bind(*[jnp.asarray(i) for i in ins], **eqn.params)
    keep = lambda x: x if _opaque(x) else np.asarray(x)
    return [keep(x) for x in r] if eqn.primitive.multiple_results else [keep(r)]


def _opaque(x):
    """keys of random number generators"""
    return 'key<' in str(getattr(x, 'dtype', ''))


def _move(eqn, ins):
    """run the primitive on element numbers"""
    table, enc = [None], []
    data = [i for i, v in enumerate(eqn.invars) if np.dtype(v.aval.dtype).kind in 'fb']
    for i, a in enumerate(ins):
        if i in data:
            a = np.asarray(a, dtype=object)
            enc.append((np.arange(a.size) + len(table)).reshape(a.shape).astype(float))
            table.extend(list(a.ravel()))
        else:
            enc.append(a)
    jax, jnp = _jax()
    params = dict(eqn.params)
    r = eqn.primitive.bind(*[jnp.asarray(e, dtype=float) if i in data else jnp.asarray(e) for i, e in enumerate(enc)], **params)
    r = r if eqn.primitive.multiple_results else [r]
    out = []
    for x in r:
        ids = np.asarray(x)
        o = np.empty(ids.shape, dtype=object)
        for k in np.ndindex(*ids.shape):
            o[k] = table[int(round(float(ids[k])))] if ids[k] != 0 else 0.0
        out.append(o)
    return out


def _el(f):
    def g(*arrs):
        arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
        o = np.empty(arrs[0].shape, dtype=object)
        for k in np.ndindex(*o.shape):
            o[k] = f(*[_py(a[k]) for a in arrs])
        return o
    return g


def _py(v):
    return v.item() if isinstance(v, (np.generic, np.ndarray)) else v


def _isb(v):
    return isinstance(v, (SymBool, bool, np.bool_))


def _num(v):
    if isinstance(v, SymBool):
        return v._r()
    if isinstance(v, float) and len(repr(v)) > 14 and math.isfinite(v):
        # a folded constant such as 10/11: the rational the source wrote
        f = Fraction(v).limit_denominator(10 ** 4)
        if abs(f - Fraction(v)) <= Fraction(1, 10 ** 15) * max(1, abs(f)):
            import z3
            return SymReal(z3.Q(f.numerator, f.denominator))
    return float(v) if isinstance(v, (bool, np.bool_)) else v


def _mul(a, b):
    for p, q in ((a, b), (b, a)):
        if isinstance(p, SymBool):
            if _isb(q):
                return p & q if isinstance(q, SymBool) else (p if q else False)
            return core.ite(p, q, 0.0)
        if isinstance(p, (int, float)) and not isinstance(p, bool):
            if p == 0:
                return 0.0
            if p == 1:
                return q
    a, b = _num(a), _num(b)
    if LINEAR and isinstance(a, Sym) and isinstance(b, Sym):
        import z3
        x, y = sorted((z3.simplify(a.t, som=True), z3.simplify(b.t, som=True)), key=str)
        return SymReal(z3.Function('product', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))
    return a * b


LINEAR = []


class linear:
    """products of two symbols become an uninterpreted function inside (an over-approximation: enough for equalities)"""

    def __enter__(self):
        LINEAR.append(1)

    def __exit__(self, *a):
        LINEAR.pop()


def _add(a, b):
    if _isb(a) and _isb(b):
        return a | b
    for p, q in ((a, b), (b, a)):
        if isinstance(p, (int, float)) and not isinstance(p, bool) and p == 0:
            return _num(q)
    return _num(a) + _num(b)


def _sub(a, b):
    if isinstance(b, SymBool) and not isinstance(a, Sym) and a == 1:
        return ~b
    return _num(a) - _num(b)


def _not(a):
    return ~a if isinstance(a, SymBool) else (not a)


def _and(a, b):
    return (a & b) if isinstance(a, SymBool) or isinstance(b, SymBool) else bool(a) and bool(b)


def _or(a, b):
    return (a | b) if isinstance(a, SymBool) or isinstance(b, SymBool) else bool(a) or bool(b)


def _eqb(a, b):
    for p, q in ((a, b), (b, a)):
        if isinstance(p, SymBool) and not isinstance(q, Sym):
            return p if bool(q) else ~p
    return _num(a) == _num(b)


def _sq(a):
    return a * a


FOLD = False       # evaluate exp and log of constants numerically


def uf(name, v):
    """uninterpreted also on constants, so that log(11) and log(1+x) are the same function; constants get a tight enclosure"""
    ex = core.cur()
    v = _num(v)
    if not isinstance(v, Sym):
        import z3
        if name == 'exp' and v == 0 or name == 'log' and v == 1:
            return {'exp': 1.0, 'log': 0.0}[name]
        fr = Fraction(v).limit_denominator(10 ** 12) if abs(Fraction(v).limit_denominator(10 ** 12) - Fraction(v)) < Fraction(1, 10 ** 14) else Fraction(v)
        s = SymReal(z3.Q(fr.numerator, fr.denominator))
        known = ('const', name, str(s.t)) in ex.uf_terms
        y = ex.uf(name, s)
        if not known and isinstance(y, Sym):
            w = {'exp': math.exp, 'log': math.log, 'tanh': math.tanh, 'erf': math.erf}.get(name)
            if w is not None:
                c = Fraction(w(v))
                ex.add(z3.And(y.t > to_real(c - Fraction(1, 10 ** 9)), y.t < to_real(c + Fraction(1, 10 ** 9))))
        return y
    return ex.uf(name, v)


def _exp(v): return uf('exp', v)


def _log(v):
    return uf('log', v)


def _logistic(v):
    return uf('logistic', v)


def _sqrt(v):
    return v.sqrt() if isinstance(v, Sym) else math.sqrt(v)


def _sign(v):
    if not isinstance(v, Sym):
        return float(np.sign(v))
    return core.ite(v > 0, 1.0, core.ite(v < 0, -1.0, 0.0))


def _ipow(y):
    def f(v):
        r = 1.0
        for _ in range(abs(y)):
            r = _mul(r, v)
        return r if y >= 0 else 1.0 / r
    return f


def _select(w, *cases):
    if len(cases) == 2 and _isb(w):
        if isinstance(w, SymBool):
            return core.ite(w, _num(cases[1]), _num(cases[0])) if not (_isb(cases[0]) and _isb(cases[1])) else core.ite(w, cases[1], cases[0])
        return cases[1] if w else cases[0]
    return cases[int(w)]


EL = {
    'add': _add, 'add_any': _add, 'sub': _sub, 'mul': _mul, 'div': lambda a, b: _num(a) / _num(b), 'neg': lambda a: -_num(a),
    'max': lambda a, b: smax(_num(a), _num(b)), 'min': lambda a, b: smin(_num(a), _num(b)), 'abs': lambda a: abs(_num(a)),
    'gt': lambda a, b: _num(a) > _num(b), 'ge': lambda a, b: _num(a) >= _num(b), 'lt': lambda a, b: _num(a) < _num(b), 'le': lambda a, b: _num(a) <= _num(b),
    'eq': _eqb, 'ne': lambda a, b: _not(_eqb(a, b)), 'and': _and, 'or': _or, 'not': _not,
    'exp': _exp, 'log': _log, 'log1p': lambda v: _log(1.0 + v), 'expm1': lambda v: _exp(v) - 1.0, 'tanh': lambda v: uf('tanh', v), 'logistic': _logistic,
    'sqrt': _sqrt, 'rsqrt': lambda v: 1.0 / _sqrt(v), 'square': _sq, 'sign': _sign, 'stop_gradient': lambda v: v, 'select_n': _select,
    'erf': lambda v: uf('erf', v), 'erfc': lambda v: 1.0 - uf('erf', v), 'is_finite': lambda v: True,
}
RED = {'reduce_sum': _add, 'reduce_max': lambda a, b: smax(a, b), 'reduce_min': lambda a, b: smin(a, b), 'reduce_and': _and, 'reduce_or': _or, 'reduce_prod': _mul}


def _reduce(f, a, axes):
    a = np.asarray(a, dtype=object)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    o = np.empty(b.shape[:-1], dtype=object)
    for k in np.ndindex(*o.shape):
        v = b[k]
        r = v[0]
        for w in v[1:]:
            r = f(_py(r), _py(w))
        o[k] = r
    return o


def _dot(a, b, dims):
    (ca, cb), (ba, bb) = dims
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca)).reshape([a.shape[i] for i in ba] + [int(np.prod([a.shape[i] for i in fa], dtype=int)), -1])
    B = np.transpose(b, list(bb) + fb + list(cb)).reshape([b.shape[i] for i in bb] + [int(np.prod([b.shape[i] for i in fb], dtype=int)), -1])
    bs = A.shape[:-2]
    o = np.empty(bs + (A.shape[-2], B.shape[-2]), dtype=object)
    for k in np.ndindex(*o.shape):
        p, q = A[k[:-2] + (k[-2],)], B[k[:-2] + (k[-1],)]
        r = 0.0
        for x, y in zip(p, q):
            r = _add(r, _mul(_py(x), _py(y)))
        o[k] = r
    return o.reshape([a.shape[i] for i in ba] + [a.shape[i] for i in fa] + [b.shape[i] for i in fb])


def _trisolve(a, b, left_side, lower, transpose_a, conjugate_a, unit_diagonal):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.ndim > 2:
        return np.stack([_trisolve(x, y, left_side, lower, transpose_a, conjugate_a, unit_diagonal) for x, y in zip(a, b)])
    if transpose_a:
        a, lower = a.T, not lower
    if not left_side:
        return _trisolve(a.T, b.T, True, not lower, False, False, unit_diagonal).T
    n = a.shape[0]
    x = np.empty(b.shape, dtype=object)
    for j in range(b.shape[1]):
        order = range(n) if lower else range(n - 1, -1, -1)
        for i in order:
            r = _py(b[i, j])
            for k in (range(i) if lower else range(i + 1, n)):
                r = _sub(r, _mul(_py(a[i, k]), _py(x[k, j])))
            d = _py(a[i, i])
            x[i, j] = r if unit_diagonal or (not isinstance(d, Sym) and d == 1) else r / d
    return x


HOOKS = {}      # name of a jitted function of the repository -> stand-in on arrays of terms


def apply(eqn, ins):
    p, name = eqn.params, eqn.primitive.name
    if any(_opaque(i) for i in ins):
        if 'jaxpr' in p:
            j, c = _closed(p['jaxpr'])
            return run(j, c, ins)
        r = eqn.primitive.bind(*ins, **p)
        return [x if _opaque(x) else np.asarray(x) for x in (r if eqn.primitive.multiple_results else [r])]
    if name in ('jit', 'pjit') and p.get('name') in HOOKS and any(has_sym(np.asarray(i, dtype=object)) for i in ins):
        return [HOOKS[p['name']](*ins)]
    if name in ('jit', 'pjit', 'closed_call', 'core_call', 'remat', 'checkpoint'):
        j, c = _closed(p.get('jaxpr') or p.get('call_jaxpr'))
        return run(j, c, ins)
    if name in ('custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr'):
        j, c = _closed(p.get('call_jaxpr') or p.get('fun_jaxpr'))
        return run(j, c, ins)
    sym = any(has_sym(np.asarray(i, dtype=object)) for i in ins)
    if not sym and (FOLD or name not in ('exp', 'log')):
        return _bind(eqn, [np.asarray(np.asarray(i).tolist()).astype(v.aval.dtype) if np.asarray(i).dtype == object else i for i, v in zip(ins, eqn.invars)])
    if not sym and np.asarray(ins[0]).size > 4:
        return _bind(eqn, ins)
    if name in MOVE:
        return _move(eqn, ins)
    if name == 'scatter-add':
        # one contribution per update element
        upd = np.asarray(ins[2], dtype=object)
        total = np.asarray(ins[0], dtype=object)
        jax, jnp = _jax()
        flat = upd.ravel()
        for k in range(upd.size):
            one = np.zeros(upd.size)
            one[k] = 1.
            hit = np.asarray(eqn.primitive.bind(jnp.zeros(total.shape), jnp.asarray(ins[1]), jnp.asarray(one.reshape(upd.shape)), **p))
            total = _el(lambda t, h: _add(t, _mul(flat[k], h)))(total, hit)
        return [total]
    if name == 'convert_element_type':
        k = np.dtype(p['new_dtype']).kind
        if k == 'b':
            return [_el(lambda v: v if _isb(v) else _not(_eqb(v, 0.0)))(ins[0])]
        return [np.asarray(ins[0], dtype=object)]          # booleans stay booleans until they meet a number
    if name in EL:
        return [_el(EL[name])(*ins)]
    if name == 'integer_pow':
        return [_el(_ipow(p['y']))(ins[0])]
    if name == 'pow':
        if not has_sym(np.asarray(ins[1], dtype=object)):
            return [_el(lambda a, b: _ipow(int(b))(a) if float(b).is_integer() else (_sqrt(a) if b == .5 else core.cur().uf('pow_%s' % b, a)))(ins[0], ins[1])]
    if name == 'clamp':
        return [_el(lambda lo, x, hi: smin(smax(x, lo), hi))(*ins)]
    if name in RED:
        return [_reduce(RED[name], ins[0], p['axes'])]
    if name == 'dot_general':
        return [_dot(ins[0], ins[1], p['dimension_numbers'])]
    if name == 'triangular_solve':
        return [_trisolve(ins[0], ins[1], **{k: p[k] for k in ('left_side', 'lower', 'transpose_a', 'conjugate_a', 'unit_diagonal')})]
    if name == 'cumsum':
        a = np.moveaxis(np.asarray(ins[0], dtype=object), p['axis'], 0)
        o = [a[0]]
        for r in a[1:]:
            o.append(_el(_add)(o[-1], r))
        return [np.moveaxis(np.array(o, dtype=object), 0, p['axis'])]
    if name == 'scan':
        n = p['length']
        nc, nk = (p['num_consts'], p['num_carry']) if 'num_consts' in p else [len(list(q)) for q in p['ft_in'].unpack()][:2]
        j, c = _closed(p['jaxpr'])
        consts, carry, xs = list(ins[:nc]), list(ins[nc:nc + nk]), ins[nc + nk:]
        steps = [None] * n
        for i in (range(n)[::-1] if p['reverse'] else range(n)):
            o = run(j, c, consts + carry + [np.asarray(x, dtype=object)[i] if has_sym(np.asarray(x, dtype=object)) else np.asarray(x)[i] for x in xs])
            carry, steps[i] = list(o[:nk]), o[nk:]
        return carry + [np.array([np.asarray(s[k], dtype=object) for s in steps], dtype=object) for k in range(len(steps[0]) if n else 0)]
    if name == 'while':
        raise core.Unsupported('jaxpr primitive ' + name)
    j = p.get('jaxpr') or p.get('call_jaxpr')
    if j is not None:
        j, c = _closed(j)
        return run(j, c, ins)
    raise core.Unsupported('jaxpr primitive %s %s' % (name, list(p)))


class Inverse:
    """a pair of jitted functions known to be inverse of each other (proved separately): f(t) is an arbitrary value, g(f(t)) = t"""

    def __init__(self, f, g):
        self.f, self.g = f, g

    def __enter__(self):
        import z3
        F, G = z3.Function('fn_' + self.f, z3.RealSort(), z3.RealSort()), z3.Function('fn_' + self.g, z3.RealSort(), z3.RealSort())

        def norm(v):
            return z3.simplify(_num(v).t if isinstance(_num(v), Sym) else to_real(_num(v)), som=True)

        def mk(fun, other):
            def one(v):
                t = norm(v)
                if z3.is_app(t) and t.decl().eq(other):
                    return SymReal(t.arg(0))
                r = fun(t)
                core.cur().add(other(r) == t)
                return SymReal(r)
            return one
        self.old = dict(HOOKS)
        HOOKS[self.f], HOOKS[self.g] = _el(mk(F, G)), _el(mk(G, F))

    def __exit__(self, *a):
        HOOKS.clear()
        HOOKS.update(self.old)
