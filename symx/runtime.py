"""Obligations: a harness is an ordinary function h(ctx) that builds inputs with
ctx.real/ctx.int/..., calls the real code of /repo and states the property with
ctx.eq/ctx.le/ctx.true.  The same harness runs in two modes:
  SymCtx       inputs are solver variables, checks are solver queries (one per path)
  ConcreteCtx  inputs are the numbers of a counterexample, nothing is patched,
               checks are evaluated on the numbers the real code returns (replay)
"""
import json
import math
import traceback
from fractions import Fraction

import sys

import numpy as np

sys.set_int_max_str_digits(0)

from . import core
from .core import SymReal, SymInt, SymBool, Sym


class AssumeFailed(Exception):
    pass


class Violated(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label + (': ' + detail if detail else ''))
        self.label = label
        self.detail = detail


def _flat(x):
    """(shape, flat list) of anything array-like"""
    if hasattr(x, 'values') and not isinstance(x, dict) and not callable(x.values):
        x = x.values
    elif hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if isinstance(x, (Sym, int, float, np.number, bool, np.bool_, str, Fraction)) or x is None:
        return (), [x]
    if isinstance(x, (list, tuple)):
        a = np.empty(len(x), dtype=object)
        if any(isinstance(v, (list, tuple, np.ndarray)) for v in x):
            a = np.array(x, dtype=object)
        else:
            for i, v in enumerate(x):
                a[i] = v
        x = a
    x = np.asarray(x) if isinstance(x, np.ndarray) else np.array(x)
    return x.shape, list(x.ravel())


def _isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


class Cex:
    def __init__(self, label, model, detail=''):
        self.label, self.values, self.detail = label, model, detail


class SymCtx:
    symbolic = True

    def __init__(self, explorer, tier='quick'):
        self.ex = explorer
        self.tier = tier
        self.vars = {}
        self.obs = []
        self.n_checks = 0
        self.cex = None
        self.unknown = []
        self.labels = {}
        self.reached = set()

    # called at the start of each path
    def _begin(self):
        self.vars = {}
        self.path_checks = 0

    # ---- inputs
    def real(self, name, lo=-100, hi=100):
        import z3
        t = z3.Real(name)
        self.vars[name] = t
        if lo is not None:
            self.ex.add(t >= core.to_real(lo))
        if hi is not None:
            self.ex.add(t <= core.to_real(hi))
        return SymReal(t)

    def int(self, name, lo, hi):
        import z3
        t = z3.Int(name)
        self.vars[name] = t
        self.ex.add(z3.And(t >= lo, t <= hi))
        return SymInt(t)

    def bool(self, name):
        import z3
        t = z3.Bool(name)
        self.vars[name] = t
        return SymBool(t)

    def choose(self, name, options):
        """a symbolic index into a list of concrete alternatives (forks over all of them)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, 0, len(options) - 1)]

    def pick(self, name, lo, hi):
        """symbolic int used structurally (forks over all feasible values)"""
        return self.int(name, lo, hi).__index__()

    def flag(self, name):
        return bool(self.bool(name))

    def reals(self, name, shape, lo=-100, hi=100):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real('%s[%s]' % (name, ','.join(map(str, i))), lo, hi)
        return a

    def assume(self, c):
        if isinstance(c, SymBool):
            self.ex.add(c.t)
            import z3
            if self.ex.check() == z3.unsat:
                raise core.Infeasible()
        elif isinstance(c, np.ndarray):
            for v in c.ravel():
                self.assume(v)
        elif not c:
            raise core.Infeasible()

    # ---- property
    def _fail_model(self, m):
        vals = {}
        for n, t in self.vars.items():
            v = m.eval(t, model_completion=True)
            import z3
            if z3.is_bool(v):
                vals[n] = bool(z3.is_true(v))
            elif z3.is_int_value(v):
                vals[n] = v.as_long()
            elif z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                if f.denominator > 10 ** 30:
                    f = f.limit_denominator(10 ** 15)
                vals[n] = '%s/%s' % (f.numerator, f.denominator)
            else:
                v = v.approx(20)
                vals[n] = '%s/%s' % (v.numerator_as_long(), v.denominator_as_long())
        return vals

    def _query(self, neg_list, label, margin=None):
        """neg_list: z3 formulas each of which violates the property"""
        import z3
        self.n_checks += 1
        self.ex.stats.checks += 1
        self.path_checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        neg_list = [g for g in neg_list if not z3.is_false(g)]
        if not neg_list:
            return          # decided without the solver
        neg = z3.Or(neg_list) if len(neg_list) != 1 else neg_list[0]
        r = self.ex.check(neg)
        if r == z3.unknown and len(neg_list) > 1:
            # one by one
            r = z3.unsat
            for g in neg_list:
                q = self.ex.check(g)
                if q == z3.unknown:
                    q = self.ex.retry(g)
                if q == z3.sat:
                    neg, r = g, q
                    break
                if q == z3.unknown:
                    r = q
        elif r == z3.unknown:
            r = self.ex.retry(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.unknown.append(label)
            return
        # prefer a counterexample with a visible margin
        models = []
        if margin is not None and self.ex.check(margin) == z3.sat:
            models.append(self._fail_model(self.ex.solver.model()))
        if self.ex.check(neg) == z3.sat:
            models.append(self._fail_model(self.ex.solver.model()))
        if not models:
            # only a fresh solver has an answer
            raise PathViolation(label, [self._fail_model(self.ex.retry_model)])
        # some diverse ones
        self.ex.solver.push()
        self.ex.add(margin if models and margin is not None and len(models) == 2 else neg)
        for k in range(3):
            lits = []
            m0 = models[-1]
            for n, t in self.vars.items():
                if t.sort() == z3.RealSort():
                    f = Fraction(m0[n])
                    lits.append(z3.Or(t > core.to_real(f) + z3.Q(1, 3), t < core.to_real(f) - z3.Q(1, 3)))
            if not lits:
                break
            # as many different coordinates as the solver can give us cheaply
            half = lits if k == 0 else lits[::2] if k == 1 else [z3.Or(lits)]
            if self.ex.check(*half) == z3.sat:
                models.append(self._fail_model(self.ex.solver.model()))
        self.ex.solver.pop()
        raise PathViolation(label, models)

    def eq(self, a, b, label, tol=None):
        import z3
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa != sb:
            self._query([z3.BoolVal(True)], label + ' [shape %s, expected %s]' % (sa, sb))
            return
        negs, big = [], []
        for x, y in zip(fa, fb):
            if _isnan(x) or _isnan(y) or x is None or y is None:
                if not (_isnan(x) or x is None) or not (_isnan(y) or y is None):
                    negs.append(z3.BoolVal(True))
                continue
            if isinstance(x, str) or isinstance(y, str):
                negs.append(z3.BoolVal(x != y))
                continue
            if core._is_special(x) or core._is_special(y):
                negs.append(z3.BoolVal(not (core._is_special(x) and core._is_special(y) and x == y)))
                continue
            tx, ty = core.to_real(x), core.to_real(y)
            if tx is None or ty is None:
                negs.append(z3.BoolVal(not (x == y)))
                continue
            if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)):
                # both concrete on this path
                negs.append(z3.BoolVal(not math.isclose(float(x), float(y), rel_tol=1e-9, abs_tol=max(1e-9, tol or 0))))
                continue
            d = tx - ty
            eps = z3.Q(1, 10**9)
            if tol:
                eps = core.to_real(tol)
            negs.append(z3.Or(d > eps, d < -eps) if self._needs_eps(x, y) or tol else d != 0)
            big.append(z3.Or(d > z3.Q(1, 2), d < -z3.Q(1, 2)))
        self._query(negs or [z3.BoolVal(False)], label, z3.Or(big) if big else None)

    eps_mode = False

    def _needs_eps(self, x, y):
        return self.eps_mode

    def le(self, a, b, label, tol=0):
        import z3
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa == () and sb != ():
            fa = fa * len(fb)
        elif sb == () and sa != ():
            fb = fb * len(fa)
        elif sa != sb:
            self._query([z3.BoolVal(True)], label + ' [shape %s vs %s]' % (sa, sb))
            return
        negs, big = [], []
        for x, y in zip(fa, fb):
            if core._is_special(x) or core._is_special(y):
                ok = bool((x if core._is_special(x) else 0) <= (y if core._is_special(y) else 0))
                negs.append(z3.BoolVal(not ok))
                continue
            d = core.to_real(x) - core.to_real(y)
            negs.append(d > core.to_real(tol))
            big.append(d > z3.Q(1, 2))
        self._query(negs or [z3.BoolVal(False)], label, z3.Or(big) if big else None)

    def true(self, c, label):
        import z3
        sh, f = _flat(c)
        negs = []
        for v in f:
            if isinstance(v, SymBool):
                negs.append(z3.Not(v.t))
            else:
                negs.append(z3.BoolVal(not bool(v)))
        self._query(negs or [z3.BoolVal(False)], label)

    def fail(self, label):
        self.true(False, label)

    def reach(self, label):
        """reachability witness: recorded when the solver finds the path condition satisfiable here"""
        import z3
        if label not in self.reached:
            if self.ex.check() == z3.sat:
                self.reached.add(label)


class PathViolation(core.Steer):
    def __init__(self, label, models):
        self.label, self.models = label, models


class ConcreteCtx:
    symbolic = False

    def __init__(self, values, tier='quick', rtol=1e-6, atol=1e-6):
        self.values = values
        self.tier = tier
        self.rtol, self.atol = rtol, atol
        self.n_checks = 0

    def _get(self, name, default):
        v = self.values.get(name, default)
        return v

    def real(self, name, lo=-100, hi=100):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        v = self._get(name, d)
        return float(Fraction(v))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def flag(self, name):
        return self.bool(name)

    def reals(self, name, shape, lo=-100, hi=100):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            a[i] = self.real('%s[%s]' % (name, ','.join(map(str, i))), lo, hi)
        return a

    def assume(self, c):
        if not np.all(c):
            raise AssumeFailed()

    def eq(self, a, b, label, tol=None):
        self.n_checks += 1
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa != sb:
            raise Violated(label, 'shape %s, expected %s' % (sa, sb))
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x is None:
                x = float('nan')
            if y is None:
                y = float('nan')
            if isinstance(x, str) or isinstance(y, str):
                ok = x == y
            elif isinstance(x, (int, float, np.number, bool, np.bool_)) and isinstance(y, (int, float, np.number, bool, np.bool_)):
                ok = bool(np.isclose(float(x), float(y), rtol=self.rtol, atol=max(self.atol, tol or 0), equal_nan=True))
            else:
                ok = bool(x == y)
            if not ok:
                raise Violated(label, 'element %d of %d: got %r, expected %r' % (i, len(fa), x, y))

    def le(self, a, b, label, tol=0):
        self.n_checks += 1
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa == () and sb != ():
            fa = fa * len(fb)
        elif sb == () and sa != ():
            fb = fb * len(fa)
        elif sa != sb:
            raise Violated(label, 'shape %s vs %s' % (sa, sb))
        for x, y in zip(fa, fb):
            x, y = float(x), float(y)
            if not (x <= y + tol + self.atol + self.rtol * max(abs(x), abs(y))):
                raise Violated(label, '%r > %r' % (x, y))

    def true(self, c, label):
        self.n_checks += 1
        sh, f = _flat(c)
        if not all(bool(v) for v in f):
            raise Violated(label)

    def fail(self, label):
        raise Violated(label)

    def reach(self, label):
        pass


def replay_concrete(harness, values, tier):
    """-> (status, detail): 'violated' / 'held' / 'assume' """
    ctx = ConcreteCtx(values, tier)
    try:
        harness(ctx)
    except AssumeFailed:
        return 'assume', 'precondition not met by the rounded input'
    except Violated as e:
        return 'violated', str(e)
    except Exception as e:
        tb = traceback.format_exc()
        return 'violated', 'exception %s: %s\n%s' % (type(e).__name__, e, tb[-3000:])
    return 'held', '%d checks held' % ctx.n_checks


class Obligation:
    """fn(ctx); functions: names of the /repo functions executed symbolically; bounds: text"""

    def __init__(self, name, fn, functions, bounds, stubs=(), max_paths=20000, timeout=200,
                 thorough_timeout=900, query_ms=20000, patch=True, known=None, eps=False, tiers=('quick', 'thorough'), mod=None):
        self.name, self.fn, self.functions, self.bounds = name, fn, list(functions), bounds
        self.stubs = list(stubs)
        self.max_paths, self.timeout, self.query_ms = max_paths, timeout, query_ms
        self.thorough_timeout = thorough_timeout
        self.patch = patch
        self.eps = eps
        self.tiers = tiers
