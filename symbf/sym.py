"""Symbolic real/bool values and the path explorer.

A value of the program under test is a node of a hash-consed expression DAG (class Sym).
Real arithmetic semantics: every float literal is the decimal fraction it is written as
(1/3-like floats are snapped to the small rational they came from).
"""
import math
import sys
import itertools
from fractions import Fraction
import numpy as np

sys.setrecursionlimit(20000)

_table = {}
_ids = itertools.count()


class Unsupported(Exception):
    """The encoding does not reach this construct: the run is inconclusive."""


class PathAbort(BaseException):
    """The current path is infeasible / outside the assumptions."""


def snap(x):
    """float -> Fraction. Small rationals and decimals are recognised."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    f = Fraction(x)
    if f.denominator == 1:
        return f
    r = Fraction(repr(x))
    if len(str(r.numerator)) <= 12 and len(str(r.denominator)) <= 26:
        return r
    g = f.limit_denominator(20000)
    if float(g) == x:
        return g
    return r


def _mk(op, args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        n.id = next(_ids)
        n.const = (all(a.const for a in args if type(a) is Sym) and not (op == 'f' and type(args[0]) is tuple)) if op != 'c' and op != 'v' else (op == 'c' or args[0] == '@pi')
        _table[key] = n
    return n


_ccache = {}


def const(v):
    n = _ccache.get(v)
    if n is None:
        n = _mk('c', (v,))
        _ccache[v] = n
    return n


def var(name):
    return _mk('v', (name,))


def isspecial(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def tosym(x):
    """number -> Sym (None if it cannot be)."""
    if type(x) is Sym:
        return x
    if isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_)):
        if isspecial(x):
            return None
        return const(snap(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, SymBool):
        return const(Fraction(int(bool(x))))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tosym(x.item())
    return None


HUGE = 10 ** 300


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
        if abs(a.args[0]) >= HUGE:      # absorbs, as floats do
            return a
    elif b.op == 'c':
        if b.args[0] == 0:
            return a
        if abs(b.args[0]) >= HUGE:
            return b
        a, b = b, a      # constants first
    elif b.id < a.id:
        a, b = b, a
    return _mk('+', (a, b))


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return a
        if a.args[0] == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
    elif b.op == 'c':
        return mul(b, a)
    elif b.id < a.id:
        a, b = b, a
    return _mk('*', (a, b))


def neg(a):
    return mul(const(Fraction(-1)), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def powc(a, q):
    """a ** q, q a Fraction"""
    if q == 0:
        return ONE
    if q == 1:
        return a
    if a.op == 'c':
        v = a.args[0]
        if q.denominator == 1:
            if v == 0 and q < 0:
                raise ZeroDivisionError
            return const(v ** int(q))
        if v in (0, 1):
            return a
        if v > 0:
            r = _root(v.numerator, q.denominator)
            s = _root(v.denominator, q.denominator)
            if r is not None and s is not None:
                return const(Fraction(r, s) ** q.numerator)
    if a.op == 'pow':
        p = a.args[1]
        if q.denominator == 1:
            # (x^p)^q = x^(pq) whenever the left side is defined
            return powc(a.args[0], p * q)
    return _mk('pow', (a, q))


def _root(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def pimult(a):
    """q when a is q * pi, else None"""
    if a.op == 'v':
        return Fraction(1) if a.args[0] == '@pi' else None
    if a.op == '*':
        x, y = a.args
        if x.op == 'c':
            q = pimult(y)
            return None if q is None else q * x.args[0]
        if y.op == 'c':
            q = pimult(x)
            return None if q is None else q * y.args[0]
    return None


def trigpi(name, q):
    """exact sin or cos of q * pi for the usual q"""
    if name == 'cos':
        q = q + Fraction(1, 2)
    q = q % 2
    sg = 1
    if q >= 1:
        q, sg = q - 1, -1
    if q > Fraction(1, 2):
        q = 1 - q
    half = Fraction(1, 2)
    v = {Fraction(0): ZERO, Fraction(1, 6): const(half), Fraction(1, 2): ONE}.get(q)
    if v is None and q == Fraction(1, 4):
        v = powc(const(half), half)
    if v is None and q == Fraction(1, 3):
        v = powc(const(Fraction(3, 4)), half)
    if v is None:
        return None
    return v if sg == 1 else neg(v)


def fun(name, *args):
    a = args[0] if args else None
    if name in ('sin', 'cos') and a.op in ('v', '*'):
        q = pimult(a)
        if q is not None:
            r = trigpi(name, q)
            if r is not None:
                return r
    if name == 'exp':
        if a is ZERO:
            return ONE
        if a.op == 'c' and a.args[0] < -1000000:      # underflows
            return ZERO
        if a.op == 'f' and a.args[0] == 'log':
            return a.args[1]
    elif name == 'log':
        if a is ONE:
            return ZERO
        if a.op == 'f' and a.args[0] == 'exp':
            return a.args[1]
    elif name in ('sin', 'tan', 'arctan', 'arcsin', 'erf', 'erfinv', 'tanh', 'sinh'):
        if a is ZERO:
            return ZERO
    elif name in ('cos', 'cosh'):
        if a is ZERO:
            return ONE
    return _mk('f', (name,) + args)


def div(a, b):
    return mul(a, powc(b, Fraction(-1)))


def _lst(o):
    """a list meeting a (numpy) number"""
    return np.array(o, dtype=object)


class Sym(object):
    __slots__ = ('op', 'args', 'id', 'const', '__weakref__')

    def __hash__(self):
        return self.id

    def __reduce__(self):
        raise TypeError('Sym not picklable')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    # numpy-scalar like surface
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def conjugate(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        if t is int:
            return int(self)
        return self

    def sum(self, *a, **k):
        return self

    def flatten(self):
        return np.array([self], dtype=object)

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return _lst(o) + self
        s = tosym(o)
        if s is None:
            return o if isspecial(o) else NotImplemented
        return add(self, s)

    __radd__ = __add__

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return self - _lst(o)
        s = tosym(o)
        if s is None:
            return -o if isspecial(o) else NotImplemented
        return sub(self, s)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return _lst(o) - self
        s = tosym(o)
        if s is None:
            return o if isspecial(o) else NotImplemented
        return sub(s, self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return _lst(o) * self
        s = tosym(o)
        if s is None:
            if isspecial(o):
                if math.isnan(o):
                    return o
                if self > 0:
                    return o
                if self < 0:
                    return -o
                return math.nan
            return NotImplemented
        return mul(self, s)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return self / _lst(o)
        s = tosym(o)
        if s is None:
            if isspecial(o):
                return math.nan if math.isnan(o) else ZERO
            return NotImplemented
        return symdiv(self, s)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if type(o) is list:
            return _lst(o) / self
        s = tosym(o)
        if s is None:
            if isspecial(o):
                return math.nan if math.isnan(o) else o if self > 0 else -o
            return NotImplemented
        return symdiv(s, self)

    def __floordiv__(self, o):
        q = self / o
        return fun_floor(q) if type(q) is Sym else q

    def __rfloordiv__(self, o):
        return fun_floor(o / self)

    def __mod__(self, o):
        s = tosym(o)
        if s is None:
            return NotImplemented
        q = symdiv(self, s)
        return sub(self, mul(s, fun_floor(q)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return tosym(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        s = tosym(o)
        if s is None:
            if isspecial(o):
                raise Unsupported('Sym ** inf')
            return NotImplemented
        return sympow(self, s)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        s = tosym(o)
        if s is None:
            return NotImplemented
        return sympow(s, self)

    def __abs__(self):
        if self.op == 'c':
            return const(abs(self.args[0]))
        if self.const:
            return self if evalf(self, {}) >= 0 else neg(self)
        if self >= 0:
            return self
        return neg(self)

    # ---- comparisons
    def _cmp(self, o, op, nano):
        if o is None or isinstance(o, str):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError('Sym compared with %r' % (o,))
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        s = tosym(o)
        if s is None:
            if isspecial(o):
                if math.isnan(o):
                    return op == '!='
                return nano(0.0, o)
            return NotImplemented
        return mkcmp(self, op, s)

    def __lt__(self, o):
        return self._cmp(o, '<', lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, '<=', lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, '>', lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, '>=', lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, '==', lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, '!=', lambda a, b: a != b)

    def __bool__(self):
        if self.op == 'c':
            return self.args[0] != 0
        return bool(self != 0)

    # ---- conversions
    def _cval(self):
        if self.op == 'c':
            return self.args[0]
        return None

    def __int__(self):
        v = self._cval()
        if v is not None:
            return int(v)
        if self.const:
            return int(evalf(self, {}))
        if self >= 0:
            return concretize(fun_floor(self))
        return -concretize(fun_floor(neg(self)))

    __trunc__ = __int__

    def __index__(self):
        v = self._cval()
        if v is not None and v.denominator == 1:
            return int(v)
        if self.op == 'v' and EX.current is not None and self.args[0] in EX.current.intvars:
            return concretize(self)
        raise TypeError('non-integral symbolic value used as index')

    def __float__(self):
        v = self._cval()
        if v is not None:
            return float(v)
        if self.const:
            return evalf(self, {})
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        v = self._cval()
        if v is not None:
            return round(v) if n is None else const(snap(round(float(v), n)))
        if n:
            raise Unsupported('round')
        return concretize(fun_floor(self + Fraction(1, 2)))

    def __floor__(self):
        return int(concretize(fun_floor(self)))

    def __ceil__(self):
        return -int(concretize(fun_floor(-self)))

    def __format__(self, spec):
        try:
            return format(float(self), spec)
        except Unsupported:
            return '<sym>'

    def is_integer(self):
        v = self._cval()
        if v is not None:
            return v.denominator == 1
        raise Unsupported('is_integer')

    def __repr__(self):
        return show(self, 200)

    # numpy object-ufunc hooks
    def exp(self):
        return fun('exp', self)

    def log(self):
        return symlog(self)

    def sqrt(self):
        return powc(self, Fraction(1, 2))

    def sin(self):
        return fun('sin', self)

    def cos(self):
        return fun('cos', self)

    def tan(self):
        return fun('tan', self)

    def arctan(self):
        return fun('arctan', self)

    def square(self):
        return mul(self, self)

    def floor(self):
        return fun_floor(self)

    def isfinite(self):
        return True

    def isnan(self):
        return False


ZERO = const(Fraction(0))
ONE = const(Fraction(1))
HALF = const(Fraction(1, 2))
PI = var('@pi')


def show(n, limit=400):
    def rec(n, d):
        if d > 12:
            return '..'
        if n.op == 'c':
            return str(n.args[0])
        if n.op == 'v':
            return n.args[0]
        if n.op == '+':
            return '(' + rec(n.args[0], d + 1) + ' + ' + rec(n.args[1], d + 1) + ')'
        if n.op == '*':
            return rec(n.args[0], d + 1) + '*' + rec(n.args[1], d + 1)
        if n.op == 'pow':
            return '(' + rec(n.args[0], d + 1) + ')^' + str(n.args[1])
        return str(n.args[0]) + '(' + ', '.join(rec(a, d + 1) for a in n.args[1:]) + ')'
    s = rec(n, 0)
    return s if len(s) <= limit else s[:limit] + '...'


def symdiv(a, b):
    if b.op == 'c' and b.args[0] == 0:
        # numpy semantics
        if a.op == 'c':
            v = a.args[0]
            return math.nan if v == 0 else math.inf if v > 0 else -math.inf
        if a > 0:
            return math.inf
        if a < 0:
            return -math.inf
        return math.nan
    if a is b and a.op != 'c':
        pass
    return div(a, b)


def symlog(a):
    if a.op == 'c' and a.args[0] <= 0:
        return -math.inf if a.args[0] == 0 else math.nan
    return fun('log', a)


def sympow(a, b):
    if b.op == 'c':
        q = b.args[0]
        if a is ZERO and q < 0:
            return math.inf
        if q.denominator > 64:
            return fun('exp', mul(b, fun('log', a)))
        return powc(a, q)
    if a.op == 'c' and a.args[0] == 1:
        return ONE
    return fun('exp', mul(b, fun('log', a)))


def fun_floor(a):
    if type(a) is not Sym:
        return a
    if a.op == 'c':
        return const(Fraction(math.floor(a.args[0])))
    if a.const:
        return const(Fraction(math.floor(evalf(a, {}))))
    if EX.current is not None:
        k = EX.current.floorcase(a)
        if k is not None:
            return const(Fraction(k))
    return fun('floor', a)


class SymBool(object):
    """diff OP 0 with OP in < <= == !=, or a boolean combination."""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b=None):
        self.op = op
        self.a = a
        self.b = b

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return bool(self) & bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) | bool(o)
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __invert__(self):
        return not bool(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def all(self, *a, **k):
        return bool(self)
    any = all

    def __repr__(self):
        return '[%r %s %r]' % (self.a, self.op, self.b if self.b is not None else 0)


NEG = {'<': '>=', '>=': '<', '==': '!=', '!=': '==', '>': '<=', '<=': '>'}


def mkcmp(a, op, b):
    d = sub(a, b)
    if d.op == 'c':
        return _cmpc(d.args[0], op)
    if d.const:
        v = evalf(d, {})
        sc = max(abs(evalf(a, {})), abs(evalf(b, {})), 1e-300)
        if abs(v) > 1e-9 * sc:
            return _cmpc(v, op)
        # exact test needed
        from . import norm
        if norm.default().iszero_sym(d):
            return _cmpc(0, op)
        raise Unsupported('near-equal constants %r %r' % (a, b))
    if op == '>':
        return SymBool('<', neg(d))
    if op == '>=':
        return SymBool('<=', neg(d))
    return SymBool(op, d)


def _cmpc(v, op):
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]


def negate(c):
    if c.op == '<':
        return SymBool('<=', neg(c.a))
    if c.op == '<=':
        return SymBool('<', neg(c.a))
    return SymBool(NEG[c.op], c.a)


class _EX:
    current = None


EX = _EX()


def decide(c):
    if EX.current is None:
        raise Unsupported('symbolic branch outside of an exploration')
    return EX.current.decide(c)


def concretize(s):
    if s.op == 'c':
        return int(s.args[0])
    if EX.current is None:
        raise Unsupported('symbolic index outside of an exploration')
    return EX.current.concretize(s)


# ------------------------------------------------------------- evaluation
def _psi(x):
    from scipy import special
    return float(special.psi(x))


def _sp(name):
    def f(*x):
        from scipy import special
        return float(getattr(special, name)(*x))
    return f


EVF = {
    'tan': math.tan, 'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'arctan': math.atan,
    'arcsin': math.asin, 'arccos': math.acos, 'arctan2': math.atan2, 'erf': math.erf, 'erfinv': _sp('erfinv'),
    'gammaln': math.lgamma, 'psi': _sp('psi'), 'psi1': lambda x: float(__import__('scipy.special').special.polygamma(1, x)),
    'floor': math.floor, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
}


def evalf(n, env, cache=None, apps=None):
    """float value of a node."""
    if cache is None:
        cache = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        todo = [a for a in x.args if type(a) is Sym and a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        cache[x.id] = _ev1(x, env, cache, apps)
    return cache[n.id]


def _ev1(x, env, cache, apps):
    try:
        if x.op == 'c':
            return float(x.args[0])
        if x.op == 'v':
            if x.args[0] == '@pi':
                return math.pi
            return float(env[x.args[0]])
        if x.op == '+':
            return cache[x.args[0].id] + cache[x.args[1].id]
        if x.op == '*':
            return cache[x.args[0].id] * cache[x.args[1].id]
        if x.op == 'pow':
            b = cache[x.args[0].id]
            q = x.args[1]
            if q.denominator == 1:
                return b ** int(q)
            if b < 0:
                return math.nan
            return b ** float(q)
        name = x.args[0]
        av = [cache[a.id] for a in x.args[1:]]
        if isinstance(name, tuple):
            if apps is None:
                return math.nan
            return apps(name, av)
        return float(EVF[name](*av))
    except ZeroDivisionError:
        return math.nan
    except (ValueError, OverflowError):
        return math.nan


# -------------------------------------------------------- differentiation
def diff(n, v, cache=None):
    """d n / d v (v a variable Sym)"""
    if cache is None:
        cache = {}
    return _diff(n, v, cache)


def _diff(n, v, cache):
    r = cache.get(n.id)
    if r is not None:
        return r
    if n.const:
        r = ZERO
    elif n.op == 'v':
        r = ONE if n is v else ZERO
    elif n.op == '+':
        r = add(_diff(n.args[0], v, cache), _diff(n.args[1], v, cache))
    elif n.op == '*':
        a, b = n.args
        r = add(mul(_diff(a, v, cache), b), mul(a, _diff(b, v, cache)))
    elif n.op == 'pow':
        a, q = n.args
        d = _diff(a, v, cache)
        r = ZERO if d is ZERO else mul(mul(const(q), powc(a, q - 1)), d)
    else:
        name = n.args[0]
        args = n.args[1:]
        if isinstance(name, tuple):     # ('app', fname, (multi-index))
            r = ZERO
            for k, a in enumerate(args):
                d = _diff(a, v, cache)
                if d is not ZERO:
                    mi = tuple(m + (1 if i == k else 0) for i, m in enumerate(name[2]))
                    r = add(r, mul(_mk('f', (('app', name[1], mi),) + args), d))
        else:
            a = args[0]
            d = _diff(a, v, cache)
            if d is ZERO and len(args) == 1:
                r = ZERO
            elif name == 'exp':
                r = mul(n, d)
            elif name == 'log':
                r = div(d, a)
            elif name == 'sin':
                r = mul(fun('cos', a), d)
            elif name == 'cos':
                r = mul(neg(fun('sin', a)), d)
            elif name == 'arctan':
                r = div(d, add(ONE, mul(a, a)))
            elif name == 'tan':
                r = mul(d, add(ONE, mul(n, n)))
            elif name == 'arcsin':
                r = mul(d, powc(sub(ONE, mul(a, a)), Fraction(-1, 2)))
            elif name == 'arccos':
                r = neg(mul(d, powc(sub(ONE, mul(a, a)), Fraction(-1, 2))))
            elif name == 'arctan2':
                x = args[1]
                e = _diff(x, v, cache)
                r = div(sub(mul(x, d), mul(a, e)), add(mul(a, a), mul(x, x)))
            elif name == 'erf':
                r = mul(mul(div(const(Fraction(2)), powc(PI, Fraction(1, 2))), fun('exp', neg(mul(a, a)))), d)
            elif name == 'erfinv':
                r = mul(mul(div(powc(PI, Fraction(1, 2)), const(Fraction(2))), fun('exp', mul(n, n))), d)
            elif name == 'gammaln':
                r = mul(fun('psi', a), d)
            elif name == 'psi':
                r = mul(fun('psi1', a), d)
            elif name == 'sinh':
                r = mul(fun('cosh', a), d)
            elif name == 'cosh':
                r = mul(fun('sinh', a), d)
            elif name == 'tanh':
                r = mul(sub(ONE, mul(n, n)), d)
            elif name == 'floor':
                r = ZERO
            else:
                raise Unsupported('derivative of ' + str(name))
    cache[n.id] = r
    return r


def app(fname, args, mi=None):
    args = tuple(args)
    return _mk('f', (('app', fname, mi or (0,) * len(args)),) + args)


def free_vars(nodes):
    seen = set()
    out = set()
    st = [n for n in nodes if type(n) is Sym]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'v':
            out.add(n.args[0])
        for a in n.args:
            if type(a) is Sym and a.id not in seen:
                st.append(a)
    return out


def size(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(a for a in x.args if type(a) is Sym)
    return len(seen)
