"""symx: a small symbolic executor for the numerical Python of /repo.

The real functions of /repo are run by the ordinary CPython interpreter on
proxy numbers (SymReal / SymInt / SymBool) that carry z3 terms and live inside
numpy object arrays and pandas object columns.  Whenever the code under test
asks for the truth value of a SymBool, or for a SymInt as an index, the
execution forks: the function is re-executed once for every decision that the
solver says is feasible (depth first, exhaustive).  At the end of each path the
property is a z3 formula over the inputs; its negation together with the path
condition goes to z3.  `unsat` on every path = holds for every input in the
stated bounds; `sat` = a concrete input, replayed on the unpatched code.

Reals model floats (rounding is outside the claim, stated in each evidence file).
"""
import math
import time
from fractions import Fraction
import numbers

import numpy as np
import z3

_NP_BOOL = (bool, np.bool_)


class Steer(BaseException):
    """base of the steering exceptions (never caught by code under test that catches Exception)"""


class Infeasible(Steer):
    pass


class Budget(Steer):
    pass


class Unsupported(Exception):
    """the engine cannot represent this operation"""


_CUR = None          # the current Explorer


def cur():
    if _CUR is None:
        raise Unsupported('symbolic value used outside an exploration')
    return _CUR


# --------------------------------------------------------------------------
def _is_special(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


def to_real(o):
    """z3 Real term of a python/numpy/symbolic number (None when it is not a number)"""
    if isinstance(o, SymReal):
        return o.t
    if isinstance(o, SymInt):
        return z3.ToReal(o.t)
    if isinstance(o, SymBool):
        return z3.If(o.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(o, _NP_BOOL):
        return z3.RealVal(1 if o else 0)
    if isinstance(o, (int, np.integer)):
        return z3.RealVal(int(o))
    if isinstance(o, Fraction):
        return z3.Q(o.numerator, o.denominator)
    if isinstance(o, (float, np.floating)):
        # the decimal literal the source wrote (0.1 is one tenth: reals, not floats)
        f = Fraction(repr(float(o)))
        return z3.Q(f.numerator, f.denominator)
    return None


def _const(t):
    """Fraction of a numeral term, or None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkreal(t):
    return SymReal(t)


PICKLED = {}


def _unpickle(k):
    if k not in PICKLED:
        raise Unsupported('a symbolic value pickled elsewhere')
    return PICKLED[k]


class Sym:
    __slots__ = ()
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        # pickles are read back in the same path of the same process
        PICKLED[id(self)] = self
        return _unpickle, (id(self),)

    def __format__(self, spec):
        return '<symbol>'


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, to_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, to_bool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, to_bool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def _r(self):
        return SymReal(to_real(self))

    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    def __rmul__(self, o): return o * self._r()
    def __truediv__(self, o): return self._r() / o
    def __eq__(self, o):
        try:
            return mkbool(self.t == to_bool(o))
        except Unsupported:
            return self._r() == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __hash__(self): return hash(self.t)
    def __repr__(self): return 'SymBool(%s)' % short(self.t)


def short(t, depth=2):
    if t.num_args() == 0:
        return str(t)
    if depth == 0:
        return '..'
    return '%s(%s)' % (t.decl().name(), ', '.join(short(t.arg(i), depth - 1) for i in range(min(3, t.num_args()))))


def to_bool(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, _NP_BOOL):
        return z3.BoolVal(bool(o))
    if isinstance(o, (int, np.integer)) and o in (0, 1):
        return z3.BoolVal(bool(o))
    raise Unsupported('not a boolean: %r' % type(o))


def _sign_known(t):
    """+1 / -1 / 0 for a constant term else None"""
    c = _const(z3.simplify(t))
    return None if c is None else (c > 0) - (c < 0)


class SymReal(Sym):
    __slots__ = ('t',)
    kind = 'real'

    def __init__(self, t):
        self.t = t

    # ---- helpers
    def _bin(self, o, f, special):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if _is_special(o):
            return special(float(o))
        t = to_real(o)
        if t is None:
            return NotImplemented
        return SymReal(f(self.t, t))

    def _sp_mul(self, v):
        if math.isnan(v):
            return v
        # x * inf
        if bool(self == 0):
            return float('nan')
        return v if bool(self > 0) else -v

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda v: v)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda v: v)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda v: -v)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda v: v)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, self._sp_mul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, self._sp_mul)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if _is_special(o):
            return float('nan') if math.isnan(o) else SymReal(z3.RealVal(0))
        t = to_real(o)
        if t is None:
            return NotImplemented
        return _div(self.t, t)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if _is_special(o):
            return self._sp_mul(float(o))
        t = to_real(o)
        if t is None:
            return NotImplemented
        return _div(t, self.t)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r = self / o
        return r.floor() if isinstance(r, SymReal) else r

    def __rfloordiv__(self, o):
        r = o / self
        return r.floor() if isinstance(r, SymReal) else r

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        q = (self / o).floor()
        return self - q * o

    def __neg__(self): return SymReal(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.t >= 0, self.t, -self.t))
    def fabs(self): return abs(self)
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def __pow__(self, n):
        if isinstance(n, SymReal):
            c = _const(z3.simplify(n.t))
            if c is None:
                raise Unsupported('symbolic exponent')
            n = c
        if isinstance(n, SymInt):
            n = n.__index__()
        if isinstance(n, np.ndarray):
            return NotImplemented
        if float(n) == int(n):
            n = int(n)
            if n < 0:
                return 1 / (self ** (-n))
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * self.t
            return SymReal(r) if n else SymReal(z3.RealVal(1))
        if float(n) == 0.5:
            return self.sqrt()
        if float(n) == -0.5:
            return 1 / self.sqrt()
        raise Unsupported('power %r' % n)

    def __rpow__(self, b):
        c = _const(z3.simplify(self.t))
        if c is None:
            # b ** x  = exp(x log b)
            return cur().uf('pow_%s' % b, self)
        return SymReal(to_real(float(b) ** float(c)))

    def square(self): return self * self
    def sqrt(self): return cur().sqrt(self)
    def exp(self): return cur().uf('exp', self)
    def log(self): return cur().uf('log', self)
    def tanh(self): return cur().uf('tanh', self)
    def sin(self): return cur().uf('sin', self)
    def cos(self): return cur().uf('cos', self)
    def log1p(self): return (1 + self).log()
    def floor(self): return SymReal(z3.ToReal(z3.ToInt(self.t)))
    def ceil(self): return SymReal(-z3.ToReal(z3.ToInt(-self.t)))
    def __floor__(self): return SymInt(z3.ToInt(self.t))
    def __ceil__(self): return SymInt(-z3.ToInt(-self.t))
    def trunc(self):
        return SymReal(z3.If(self.t >= 0, z3.ToReal(z3.ToInt(self.t)), -z3.ToReal(z3.ToInt(-self.t))))
    def rint(self):
        # round half to even
        f = z3.ToInt(self.t)
        fr = self.t - z3.ToReal(f)
        half = z3.Q(1, 2)
        up = z3.Or(fr > half, z3.And(fr == half, f % 2 == 1))
        return SymReal(z3.ToReal(z3.If(up, f + 1, f)))
    def __round__(self, nd=None):
        if nd in (None, 0):
            r = self.rint()
            return SymInt(z3.ToInt(r.t)) if nd is None else r
        k = 10 ** nd
        return (self * k).rint() / k
    def isnan(self): return False
    def isfinite(self): return True

    def __int__(self):
        c = _const(z3.simplify(self.t))
        if c is not None:
            return int(c)
        return SymInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))).__index__()

    def _cmp(self, o, f, special):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if _is_special(o):
            return special(float(o))
        t = to_real(o)
        if t is None:
            return NotImplemented
        return mkbool(f(self.t, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, lambda v: False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, lambda v: True)
    def __hash__(self): return hash(self.t)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __repr__(self): return 'S<%s>' % short(self.t)      # (the pretty printer is slow: code under test may print arrays of terms)

    # numpy scalar look-alikes used by pandas/numpy code
    def item(self): return self
    def astype(self, *_a, **_k): return self
    def copy(self): return self


def _div(a, b):
    c = _const(z3.simplify(b))
    if c is not None and c == 0:
        s = _const(z3.simplify(a))
        raise_nan = s is not None and s == 0
        return float('nan') if raise_nan else SymReal(a)._sp_mul(float('inf'))
    if c is None:
        e = cur()
        if e.branch(b == 0):
            return SymReal(a)._sp_mul(float('inf')) if True else None
    return SymReal(a / b)


class SymInt(Sym):
    """Python int: unbounded mathematical integer"""
    __slots__ = ('t',)
    kind = 'int'

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, name):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if isinstance(o, SymInt):
            return SymInt(f(self.t, o.t))
        if isinstance(o, _NP_BOOL) or (isinstance(o, (int, np.integer))):
            return SymInt(f(self.t, z3.IntVal(int(o))))
        if isinstance(o, SymBool):
            return SymInt(f(self.t, z3.If(o.t, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(o, (SymReal, float, np.floating, Fraction)):
            return getattr(SymReal(z3.ToReal(self.t)), name)(o)
        if type(o).__name__ in ('Timedelta', 'Timestamp', 'timedelta64', 'timedelta'):
            return getattr(self.__index__(), name)(o)
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, '__add__')
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, '__radd__')
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, '__sub__')
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, '__rsub__')
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return self.__index__() * o
        return self._bin(o, lambda a, b: a * b, '__mul__')
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a, '__rmul__')
    def __truediv__(self, o): return SymReal(z3.ToReal(self.t)).__truediv__(o)
    def __rtruediv__(self, o): return SymReal(z3.ToReal(self.t)).__rtruediv__(o)
    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return SymInt(self.t / z3.IntVal(int(o)))
        if isinstance(o, (SymInt, int, np.integer)):
            return self.__index__() // (o.__index__())
        return SymReal(z3.ToReal(self.t)).__floordiv__(o)
    def __rfloordiv__(self, o): return o // self.__index__()
    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return SymInt(self.t % z3.IntVal(int(o)))
        if isinstance(o, (SymInt, int, np.integer)):
            return self.__index__() % (o.__index__())
        return SymReal(z3.ToReal(self.t)).__mod__(o)
    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return o % self.__index__()
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return SymReal(z3.ToReal(self.t)) ** o
    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t >= 0, self.t, -self.t))
    def __round__(self, nd=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def floor(self): return self
    def ceil(self): return self
    def rint(self): return self
    def sqrt(self): return SymReal(z3.ToReal(self.t)).sqrt()
    def exp(self): return SymReal(z3.ToReal(self.t)).exp()
    def log(self): return SymReal(z3.ToReal(self.t)).log()
    def conjugate(self): return self
    def isnan(self): return False
    def isfinite(self): return True

    def __index__(self):
        c = _const(z3.simplify(self.t))
        if c is not None:
            return int(c)
        return cur().choose(self.t)

    def __int__(self): return self.__index__()
    def __float__(self): return float(self.__index__())

    def _cmp(self, o, f, name):
        if isinstance(o, np.ndarray) or hasattr(o, 'iloc'):
            return NotImplemented
        if isinstance(o, SymInt):
            return mkbool(f(self.t, o.t))
        if isinstance(o, _NP_BOOL) or isinstance(o, (int, np.integer)):
            return mkbool(f(self.t, z3.IntVal(int(o))))
        return getattr(SymReal(z3.ToReal(self.t)), name)(o)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b, '__eq__')
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b, '__ne__')
    def __hash__(self):
        # used as a dict key / set member: must be concrete
        return hash(self.__index__())
    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)
    def __repr__(self): return 'I<%s>' % short(self.t)
    def __str__(self): return str(self.__index__())
    def __format__(self, spec): return format(self.__index__(), spec)
    def item(self): return self
    def astype(self, *_a, **_k): return self
    def copy(self): return self


numbers.Real.register(SymReal)
numbers.Number.register(SymReal)
numbers.Integral.register(SymInt)


def ite(c, a, b):
    """merge without forking"""
    if isinstance(c, _NP_BOOL):
        return a if c else b
    ta, tb = to_real(a), to_real(b)
    return SymReal(z3.If(to_bool(c), ta, tb))


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.paths = 0
        self.forks = 0
        self.checks = 0

    def as_dict(self):
        return dict(self.__dict__, solver_s=round(self.solver_s, 3))


class Explorer:
    def __init__(self, max_paths=20000, timeout_s=600, query_ms=20000, max_choices=64, seed=0):
        self.max_paths = max_paths
        self.deadline = time.time() + timeout_s
        self.query_ms = query_ms
        self.max_choices = max_choices
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.solver.set('random_seed', seed)
        self.prefix = []
        self.trace = []
        self.todo = []
        self.uf_terms = {}
        self.decided = {}
        self.fresh_n = 0

    # ---- solver
    def check(self, *extra):
        t0 = time.time()
        if t0 > self.deadline:
            raise Budget('time budget exhausted')
        self.solver.set('timeout', int(max(100, min(self.query_ms, (self.deadline - t0) * 1000))))
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
        return r

    def retry(self, *extra):
        """the same question to fresh solvers (without the incremental state), when the first one gave no answer"""
        r = z3.unknown
        for seed in (1, 2):
            t0 = time.time()
            left = self.deadline - t0
            if left < 5:
                break
            s = z3.Solver()
            s.set('timeout', int(min(self.query_ms, left * 500)))
            s.set('random_seed', seed)
            s.add(self.solver.assertions())
            r = s.check(*extra)
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
            if r != z3.unknown:
                self.retry_model = s.model() if r == z3.sat else None
                break
        return r

    def add(self, t):
        self.solver.add(t)

    # ---- decisions
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        m = self.decided.get(t.get_id())
        if m is not None:
            return m[1]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            a = self.check(t)
            if a == z3.unsat:
                v = False
            else:
                b = self.check(z3.Not(t))
                if b == z3.unsat:
                    v = True
                else:
                    v = True
                    self.stats.forks += 1
                    self.todo.append(self.trace + [False])
        self.trace.append(v)
        n = z3.simplify(z3.Not(t))
        self.decided[t.get_id()] = (t, v)       # the terms are kept so that their ids stay theirs
        self.decided[n.get_id()] = (n, not v)
        self.add(t if v else n)
        return v

    def choose(self, t):
        t = z3.simplify(t)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown or len(vals) > self.max_choices:
                    self.solver.pop()
                    raise Budget('too many values for an index (> %d)' % self.max_choices)
                v = self.solver.model().eval(t, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(t != v)
            self.solver.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            v = vals[0]
            self.stats.forks += len(vals) - 1
            for w in reversed(vals[1:]):
                self.todo.append(self.trace + [w])
        self.trace.append(v)
        self.add(t == v)
        return v

    # ---- uninterpreted functions
    def fresh(self, name='f', sort='real'):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return z3.Real(n) if sort == 'real' else z3.Int(n)

    def sqrt(self, x):
        xt = z3.simplify(x.t)
        c = _const(xt)
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return SymReal(z3.Q(n, d))
        if self.branch(xt < 0):
            return float('nan')
        key = ('sqrt', xt.get_id())
        if key not in self.uf_terms:
            r = self.fresh('sqrt')
            self.add(z3.And(r >= 0, r * r == xt))
            self.uf_terms[key] = (xt, r)
        return SymReal(self.uf_terms[key][1])

    def uf(self, name, x):
        """uninterpreted function with axioms instantiated on the terms that occur:
        exp > 0, strictly increasing, exp(0)=1; log inverse of exp; tanh odd-bounded increasing"""
        xt = z3.simplify(x.t)
        c = _const(xt)
        if name == 'exp' and c == 0:
            return SymReal(z3.RealVal(1))
        if name in ('tanh', 'sin') and c == 0:
            return SymReal(z3.RealVal(0))
        if name == 'cos' and c == 0:
            return SymReal(z3.RealVal(1))
        if name == 'log' and c == 1:
            return SymReal(z3.RealVal(0))
        if name == 'log':
            if self.branch(xt < 0):
                return float('nan')
            if self.branch(xt == 0):
                return float('-inf')
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
        key = (name, xt.get_id())
        y = f(xt)
        if key not in self.uf_terms:
            if name == 'exp' or name.startswith('pow_'):
                self.add(y > 0)
            if name == 'exp':
                self.add(z3.And(z3.Implies(xt > 0, y > 1), z3.Implies(xt < 0, y < 1)))
            if name == 'log':
                self.add(z3.And(z3.Implies(xt > 1, y > 0), z3.Implies(xt < 1, y < 0)))
            if name == 'tanh':
                self.add(z3.And(y > -1, y < 1, z3.Implies(xt > 0, y > 0), z3.Implies(xt < 0, y < 0)))
            if name in ('sin', 'cos'):
                self.add(z3.And(y >= -1, y <= 1))
            if name == 'logistic':
                self.add(z3.And(y > 0, y < 1, (xt > 0) == (2 * y > 1), (xt < 0) == (2 * y < 1)))
            if name == 'erf':
                self.add(z3.And(y > -1, y < 1, (xt > 0) == (y > 0), (xt < 0) == (y < 0)))
            if name in ('exp', 'log', 'tanh', 'logistic', 'erf'):
                for (n2, _), (x2, y2) in list(self.uf_terms.items()):
                    if n2 == name:
                        self.add(z3.And(z3.Implies(xt < x2, y < y2), z3.Implies(xt > x2, y > y2),
                                        z3.Implies(xt == x2, y == y2)))
            if name == 'exp':
                for (n2, _), (x2, y2) in list(self.uf_terms.items()):
                    if n2 == 'log':
                        self.add(z3.Implies(xt == y2, y == x2))
            if name == 'log':
                for (n2, _), (x2, y2) in list(self.uf_terms.items()):
                    if n2 == 'exp':
                        self.add(z3.Implies(xt == y2, y == x2))
            self.uf_terms[key] = (xt, y)
        return SymReal(y)

    # ---- main loop
    def explore(self, fn):
        """run fn() once per feasible path. fn must be deterministic."""
        global _CUR
        self.todo = [[]]
        while self.todo:
            if self.stats.paths >= self.max_paths:
                raise Budget('path budget exhausted (%d)' % self.max_paths)
            self.prefix = self.todo.pop()
            self.trace = []
            self.uf_terms = {}
            self.decided = {}
            self.fresh_n = 0
            PICKLED.clear()
            self.solver.push()
            prev, _CUR = _CUR, self
            try:
                fn()
                self.stats.paths += 1
            except Infeasible:
                pass
            finally:
                _CUR = prev
                self.solver.pop()
