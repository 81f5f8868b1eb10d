"""Stand-ins for numpy / math / scipy / random / builtins seen by the package under symbolic execution."""
import builtins
import math
import numbers
import types
from fractions import Fraction
import numpy as np
import scipy
import scipy.special
from .sym import (Sym, SymBool, tosym, const, ZERO, ONE, HALF, PI, fun, mul, add, neg, sub, powc, symlog, sympow,
                  symdiv, fun_floor, isspecial, Unsupported, var, EX, snap, PathAbort)


# --------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Sym or c is SFloat

    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.item()
            return SFloat(x)
        if isinstance(x, SymBool):
            return ONE if bool(x) else ZERO
        if isinstance(x, str):
            return float(x)
        v = float(x)
        s = tosym(v)
        return v if s is None else s

    def __eq__(cls, o):
        return o is cls or o is float or o is np.float64

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    fromhex = float.fromhex


def _hasfloat(cls):
    if isinstance(cls, tuple):
        return any(_hasfloat(c) for c in cls)
    return cls in (float, SFloat, numbers.Number, numbers.Real, numbers.Complex, np.floating, np.float64, np.number,
                   np.inexact, np.generic)


def s_isinstance(o, cls):
    if isinstance(o, Sym):
        if _hasfloat(cls):
            return True
        return isinstance(o, cls)
    if isinstance(o, SymBool):
        return cls is bool or (isinstance(cls, tuple) and bool in cls) or isinstance(o, cls)
    return isinstance(o, cls)


def s_type(*a):
    if len(a) == 1:
        if type(a[0]) is Sym or type(a[0]) is float:
            return SFloat
        if type(a[0]) is SymBool:
            return bool
        return type(a[0])
    return type(*a)


def s_print(*a, **k):
    return None


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_round(x, n=None):
    return x.__round__(n) if type(x) is Sym else round(x, n) if n is not None else round(x)


def symprint(f):
    try:
        f()
    except Unsupported:
        pass


def make_builtins(imp):
    b = dict(builtins.__dict__)
    b.update(isinstance=s_isinstance, float=SFloat, type=s_type, print=s_print, sum=b_sum, round=s_round,
             __import__=imp, __symset__=symset, __symprint__=symprint)
    return b


def symset(v, a, i):
    if type(v) in (list, tuple) and isinstance(a, np.ndarray):
        v = s_array(v)
    a[i] = v


# ------------------------------------------------------------ objectify
def isfdt(dt):
    if dt is None or dt is float or dt is SFloat:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def isfloatdt(dt):
    return dt is not None and isfdt(dt)


def _o1(x):
    s = tosym(x)
    return x if s is None else s


_obj = np.frompyfunc(_o1, 1, 1)


def objectify(r):
    """float results of real numpy -> exact symbolic constants"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            if r.ndim == 0:
                o = np.empty((), dtype=object)
                o[()] = _o1(r.item())
                return o
            return _obj(r)
        return r
    if isinstance(r, np.floating):
        return _o1(r.item())
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(objectify(x) for x in r)
    if isinstance(r, list):
        return [objectify(x) for x in r]
    return r


def toobj(x):
    """anything -> object ndarray of Sym (specials stay float), or Sym for scalars"""
    if type(x) is Sym:
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in 'fiub':
            return _obj(x) if x.ndim else _o1(x.item())
        return x
    if isinstance(x, (list, tuple)):
        a = np.array(x, dtype=object)
        return _obj(a)
    return _o1(x)


def elementwise(f, nin=1):
    uf = np.frompyfunc(f, nin, 1)

    def g(*args, out=None, where=True, dtype=None, **kw):
        a = [toobj(x) for x in args[:nin]]
        if len(args) > nin and out is None:
            out = args[nin]
        if all(not isinstance(x, np.ndarray) for x in a):
            if where is True:
                r = f(*a)
                return r
            w = np.asarray(where)
            if w.ndim == 0:
                return f(*a) if w else out
        if where is not True:
            r0 = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a], np.asarray(where))
            w = r0[-1].astype(bool)
            res = out if out is not None else np.full(w.shape, ZERO, dtype=object)
            for ix in np.ndindex(w.shape):
                if w[ix]:
                    res[ix] = f(*[x[ix] for x in r0[:-1]])
            return res
        r = uf(*a)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r
    return g


def isnumspecial(x):
    return not isinstance(x, Sym) and isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _sp1(pyf):
    """scalar function with float special values delegated to python"""
    def deco(f):
        def g(x):
            x = _o1(x)
            if type(x) is Sym:
                return f(x)
            if isinstance(x, SymBool):
                return f(tosym(x))
            if isinstance(x, (complex, np.complexfloating)):
                raise Unsupported('complex')
            if isinstance(x, np.ndarray):
                return elementwise(g)(x)
            if x is None:
                raise TypeError('None in a numeric function')
            try:
                with np.errstate(all='ignore'):
                    return _o1(float(pyf(x)))
            except (ValueError, OverflowError):
                return math.nan
        return g
    return deco


@_sp1(np.exp)
def f_exp(x):
    return fun('exp', x)


@_sp1(np.log)
def f_log(x):
    return symlog(x)


@_sp1(np.sqrt)
def f_sqrt(x):
    if x.op == 'c' and x.args[0] < 0:
        return math.nan
    return powc(x, Fraction(1, 2))


@_sp1(np.sin)
def f_sin(x):
    return fun('sin', x)


@_sp1(np.cos)
def f_cos(x):
    return fun('cos', x)


@_sp1(np.tan)
def f_tan(x):
    return fun('tan', x)


@_sp1(np.arctan)
def f_arctan(x):
    return fun('arctan', x)


_arctan_finite = f_arctan


def f_arctan(x):                    # noqa: F811  (infinite arguments: exactly half pi, not a rounded number)
    if isinstance(x, (float, int, np.floating)) and math.isinf(x):
        return PI / 2 if x > 0 else -PI / 2
    return _arctan_finite(x)


@_sp1(np.arcsin)
def f_arcsin(x):
    return fun('arcsin', x)


@_sp1(np.arccos)
def f_arccos(x):
    return fun('arccos', x)


@_sp1(np.abs)
def f_abs(x):
    return abs(x)


@_sp1(np.sign)
def f_sign(x):
    return ONE if x > 0 else const(Fraction(-1)) if x < 0 else ZERO


@_sp1(np.square)
def f_square(x):
    return mul(x, x)


@_sp1(np.negative)
def f_negative(x):
    return neg(x)


@_sp1(lambda x: 1 / x)
def f_reciprocal(x):
    return symdiv(ONE, x)


@_sp1(np.floor)
def f_floor(x):
    return fun_floor(x)


@_sp1(np.ceil)
def f_ceil(x):
    return neg(fun_floor(neg(x)))


@_sp1(np.fix)
def f_fix(x):
    return fun_floor(x) if x >= 0 else neg(fun_floor(neg(x)))


@_sp1(np.rint)
def f_rint(x):
    return fun_floor(x + HALF)


@_sp1(np.log10)
def f_log10(x):
    return symdiv(symlog(x), fun('log', const(Fraction(10))))


@_sp1(np.log2)
def f_log2(x):
    return symdiv(symlog(x), fun('log', const(Fraction(2))))


@_sp1(np.log1p)
def f_log1p(x):
    return symlog(x + 1)


@_sp1(np.expm1)
def f_expm1(x):
    return fun('exp', x) - 1


@_sp1(np.sinh)
def f_sinh(x):
    return (fun('exp', x) - fun('exp', neg(x))) / 2


@_sp1(np.cosh)
def f_cosh(x):
    return (fun('exp', x) + fun('exp', neg(x))) / 2


@_sp1(np.tanh)
def f_tanh(x):
    e = fun('exp', mul(const(Fraction(2)), x))
    return symdiv(e - 1, e + 1)


@_sp1(np.deg2rad)
def f_deg2rad(x):
    return x * PI / 180


@_sp1(np.rad2deg)
def f_rad2deg(x):
    return x * 180 / PI


@_sp1(np.sinc)
def f_sinc(x):
    if x == 0:
        return ONE
    return symdiv(fun('sin', mul(PI, x)), mul(PI, x))


@_sp1(scipy.special.erf)
def f_erf(x):
    return fun('erf', x)


@_sp1(scipy.special.erfc)
def f_erfc(x):
    return ONE - fun('erf', x)


@_sp1(scipy.special.erfinv)
def f_erfinv(x):
    if x.op == 'c' and abs(x.args[0]) >= 1:
        return _o1(float(scipy.special.erfinv(float(x.args[0]))))
    return fun('erfinv', x)


@_sp1(scipy.special.gammaln)
def f_gammaln(x):
    if x.op == 'c' and x.args[0].denominator == 1 and 1 <= x.args[0] <= 40:
        return symlog(const(Fraction(math.factorial(int(x.args[0]) - 1))))
    return fun('gammaln', x)


@_sp1(scipy.special.psi)
def f_psi(x):
    return fun('psi', x)


def _gamma(x):
    return fun('exp', f_gammaln(x))


def f_isfinite(x):
    return True if type(x) is Sym else bool(np.isfinite(x))


def f_isnan(x):
    return False if isinstance(x, (Sym, SymBool)) else bool(np.isnan(x))


def f_isinf(x):
    return False if isinstance(x, (Sym, SymBool)) else bool(np.isinf(x))


def _bools(f):
    def g(x, *a, **k):
        if isinstance(x, (np.ndarray, list, tuple)):
            arr = np.asarray(x) if not isinstance(x, (list, tuple)) else np.array(x, dtype=object)
            r = np.empty(arr.shape, dtype=bool)
            for ix in np.ndindex(arr.shape):
                r[ix] = f(arr[ix])
            return r
        return f(x)
    return g


def f_arctan2(y, x):
    y, x = tosym(y), tosym(x)
    if x is None or y is None:
        raise Unsupported('arctan2 of specials')
    # exact case split
    if x > 0:
        return fun('arctan', symdiv(y, x))
    if x < 0:
        if y >= 0:
            return fun('arctan', symdiv(y, x)) + PI
        return fun('arctan', symdiv(y, x)) - PI
    if y > 0:
        return PI / 2
    if y < 0:
        return -PI / 2
    return ZERO


def f_hypot(a, b):
    return powc(tosym(a) * tosym(a) + tosym(b) * tosym(b), Fraction(1, 2))


def f_copysign(a, b):
    a = abs(a)
    return a if b >= 0 else -a


def f_logaddexp(a, b):
    if isspecial(a) and a < 0:
        return b
    if isspecial(b) and b < 0:
        return a
    return symlog(f_exp(a) + f_exp(b))


def f_max(a, b):
    return a if a >= b else b


def f_min(a, b):
    return a if a <= b else b


def f_pow(a, b):
    a, b = _o1(a), _o1(b)
    if type(a) is Sym or type(b) is Sym:
        return a ** b
    return a ** b


def f_div(a, b):
    a, b = _o1(a), _o1(b)
    if type(a) is not Sym and type(b) is not Sym:
        with np.errstate(all='ignore'):
            return float(np.divide(a, b))
    return a / b


def f_clip(x, lo, hi):
    if lo is not None and x < lo:
        return lo
    if hi is not None and x > hi:
        return hi
    return x


_fresh = [0]


def fresh_uninit(n):
    out = []
    for _ in range(n):
        ex = EX.current
        if ex is not None:
            k = ex.__dict__.setdefault('uninit', 0)
            ex.uninit = k + 1
            out.append(var('@uninit%d' % k))
        else:
            out.append(ZERO)
    return out


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __call__(cls, shape, dtype=float, *a, **k):
        return s_empty(shape, dtype)

    def __getattr__(cls, name):
        return getattr(np.ndarray, name)

    def __eq__(cls, o):
        return o is cls or o is np.ndarray

    def __hash__(cls):
        return hash(np.ndarray)


class SNdarray(metaclass=_NdMeta):
    pass


def _shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return int(shape)


def s_empty(shape, dtype=float, **k):
    if not isfdt(dtype):
        return np.zeros(_shape(shape), dtype=dtype)
    a = np.empty(_shape(shape), dtype=object)
    f = fresh_uninit(a.size)
    for i, ix in enumerate(np.ndindex(a.shape)):
        a[ix] = f[i]
    return a


def s_zeros(shape, dtype=float, order='C', **k):
    if not isfdt(dtype):
        return np.zeros(_shape(shape), dtype=dtype)
    return np.full(_shape(shape), ZERO, dtype=object)


def s_ones(shape, dtype=float, order='C', **k):
    if not isfdt(dtype):
        return np.ones(_shape(shape), dtype=dtype)
    return np.full(_shape(shape), ONE, dtype=object)


def s_full(shape, fill, dtype=None, **k):
    if dtype is None and isinstance(fill, (int, np.integer, bool)) and not isinstance(fill, Sym):
        return np.full(_shape(shape), fill)
    if dtype is not None and not isfdt(dtype):
        return np.full(_shape(shape), fill, dtype=dtype)
    if isinstance(fill, (list, tuple)):
        fill = s_array(fill)
    if isinstance(fill, np.ndarray):
        r = np.empty(_shape(shape), dtype=object)
        r[...] = toobj(fill)
        return r
    return np.full(_shape(shape), _o1(fill), dtype=object)


def _kindof(a):
    if isinstance(a, np.ndarray):
        return a.dtype.kind
    if isinstance(a, Sym):
        return 'f'
    if isinstance(a, (list, tuple)):
        return s_asarray(a).dtype.kind
    return np.asarray(a).dtype.kind


def _like(full):
    def g(a, *args, dtype=None, **k):
        shape = np.shape(a)
        if dtype is None:
            kd = _kindof(a)
            dtype = {'i': int, 'u': int, 'b': bool, 'c': complex}.get(kd, float)
            if kd == 'O' and isinstance(a, np.ndarray) and a.size and not isinstance(a.flat[0], (Sym, float, int)):
                dtype = float
        return full(shape, *args, dtype=dtype)
    return g


def s_full_like(a, fill, dtype=None, **k):
    if dtype is None:
        kd = _kindof(a)
        dtype = {'i': int, 'u': int, 'b': bool, 'c': complex}.get(kd, float)
    return s_full(np.shape(a), fill, dtype=dtype)


def s_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isfloatdt(dtype):
        if isinstance(x, np.ndarray) and x.dtype == object and not copy and ndmin <= x.ndim:
            for ix in np.ndindex(x.shape):
                if type(x[ix]) is not Sym:
                    break
            else:
                return x
        a = np.array(x, dtype=object, ndmin=ndmin)
        r = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            v = a[ix]
            if v is None:
                v = math.nan
            elif isinstance(v, (np.ndarray, list)):
                if np.size(v) != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = np.asarray(v, dtype=object).flat[0]
            elif isinstance(v, str):
                v = float(v)
            elif isinstance(v, (complex, np.complexfloating)):
                raise Unsupported('complex')
            s = _o1(v)
            if not isinstance(s, (Sym, float, np.floating)):
                raise TypeError("float() argument must be a string or a real number, not '%s'" % type(v).__name__)
            r[ix] = s
        return r
    if dtype is not None and dtype is not object and np.dtype(dtype).kind in 'iub':
        a = np.array(x, dtype=None if not _hassym(x) else object, ndmin=ndmin)
        if a.dtype == object:
            r = np.empty(a.shape, dtype=dtype)
            for ix in np.ndindex(a.shape):
                r[ix] = int(a[ix]) if np.dtype(dtype).kind != 'b' else bool(a[ix])
            return r
        return a.astype(dtype) if a.dtype != np.dtype(dtype) else a
    if dtype is object:
        return np.array(x, dtype=object, ndmin=ndmin)
    a = np.array(x, dtype=dtype, copy=copy, ndmin=ndmin) if isinstance(x, np.ndarray) else np.array(x, dtype=dtype, ndmin=ndmin)
    return objectify(a)


def _hassym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_hassym(y) for y in x)
    return False


def s_asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray):
        if dtype is None:
            return objectify(x) if x.dtype.kind == 'f' else x
        if isfloatdt(dtype) and x.dtype == object and all(type(v) is Sym for v in x.flat):
            return x
        if not isfloatdt(dtype) and x.dtype == np.dtype(dtype):
            return x
    return s_array(x, dtype=dtype)


def s_fromiter(it, dtype=float, count=-1, **k):
    l = []
    for v in it:
        l.append(v)
        if count >= 0 and len(l) == count:
            break
    return s_array(l, dtype=dtype) if l else s_zeros(0, dtype=dtype)


def s_arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) for x in a):
        if all(x.op == 'c' if isinstance(x, Sym) else True for x in a) :
            fa = [x.args[0] if isinstance(x, Sym) else Fraction(x) if isinstance(x, (int, np.integer)) else snap(x) for x in a]
            st, en, dx = (Fraction(0), fa[0], Fraction(1)) if len(fa) == 1 else (fa[0], fa[1], fa[2] if len(fa) > 2 else Fraction(1))
            n = max(0, math.ceil((en - st) / dx))
            vals = [st + i * dx for i in range(n)]
            if dtype is not None and not isfdt(dtype):
                return np.array([int(v) for v in vals], dtype=dtype)
            return s_array([const(v) for v in vals], dtype=float) if vals else s_zeros(0)
        st, en, dx = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        n = math.ceil(symdiv(tosym(sub(tosym(en), tosym(st))), tosym(dx)))
        return s_array([st + i * dx for i in range(n)], dtype=float)
    r = np.arange(*a, dtype=float if isfloatdt(dtype) else dtype)
    return objectify(r)


def s_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = a.item() if isinstance(a, np.ndarray) else a
        b = b.item() if isinstance(b, np.ndarray) else b
    a, b = tosym(a), tosym(b)
    num = int(num)
    d = num - 1 if endpoint else num
    step = (b - a) / d if d else ZERO
    r = s_array([a + step * i for i in range(num)], dtype=float)
    if endpoint and num > 1:
        r[-1] = b
    if dtype is not None and not isfdt(dtype):
        r = s_array(r, dtype=dtype)
    return (r, step) if retstep else r


def s_std(x, axis=None, ddof=0, **k):
    return elementwise(f_sqrt)(s_var(x, axis=axis, ddof=ddof))


def s_var(x, axis=None, ddof=0, **k):
    x = toobj(s_asarray(x))
    m = np.mean(x, axis=axis, keepdims=True)
    n = x.size if axis is None else x.shape[axis]
    return np.sum((x - m) ** 2, axis=axis) / const(Fraction(n - ddof))


def s_mean(x, axis=None, **k):
    x = toobj(s_asarray(x))
    n = x.size if axis is None else x.shape[axis]
    return np.sum(x, axis=axis) / const(Fraction(n))


def s_average(x, axis=None, weights=None, returned=False, **k):
    x = toobj(s_asarray(x))
    if weights is None:
        return s_mean(x, axis=axis)
    w = toobj(s_asarray(weights))
    if axis is not None and w.ndim != x.ndim:
        sh = [1] * x.ndim
        sh[axis] = len(w)
        w = w.reshape(sh)
    sw = np.sum(w * np.full(x.shape, ONE, dtype=object), axis=axis)
    r = np.sum(x * w, axis=axis) / sw
    return (r, sw) if returned else r


def s_median(x, *a, **k):
    v = sorted(s_asarray(x).flat)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _minmax(name, nan=False):
    def g(x, axis=None, out=None, **k):
        if isinstance(x, Sym):
            return x
        x = s_asarray(x)
        if x.dtype != object:
            return objectify(getattr(np, 'nan' + name if nan else name)(x, axis=axis))
        if axis is None:
            l = list(x.flat)
            if nan:
                l = [v for v in l if v == v] or l[:1] if not any(isinstance(v, Sym) for v in l) else [v for v in l if isinstance(v, Sym) or v == v]
            elif any(isinstance(v, float) and v != v for v in l):
                return math.nan
            r = l[0]
            for v in l[1:]:
                if (v > r) if name == 'max' else (v < r):
                    r = v
            return r
        return np.apply_along_axis(lambda v: g(v), axis, x)
    return g


def _argminmax(mx):
    def g(x, axis=None, **k):
        x = s_asarray(x)
        if x.dtype != object:
            return (np.argmax if mx else np.argmin)(x, axis=axis)
        if axis is not None:
            return np.apply_along_axis(lambda v: g(v), axis, x).astype(int)
        l = list(x.flat)
        j = 0
        for i in range(1, len(l)):
            if (l[i] > l[j]) if mx else (l[i] < l[j]):
                j = i
        return j
    return g


def s_argsort(x, axis=-1, **k):
    x = s_asarray(x)
    if x.dtype != object:
        return np.argsort(x, axis=axis, **k)
    import functools
    l = list(x)
    return np.array(sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: -1 if l[i] < l[j] else (1 if l[j] < l[i] else 0))), dtype=int)


def s_sort(x, axis=-1, **k):
    x = s_asarray(x)
    if x.dtype != object or x.ndim != 1:
        return np.sort(x, axis=axis)
    return x[s_argsort(x)]


def s_where(c, *a):
    c = np.asarray(c) if not isinstance(c, (Sym, SymBool)) else np.asarray(bool(c))
    if c.dtype == object:
        c = np.frompyfunc(bool, 1, 1)(c).astype(bool) if c.ndim else np.asarray(bool(c.item()))
    if not a:
        return np.where(c)
    x = [toobj(v) if _kindof(v) in 'fO' else v for v in a]
    if any(_kindof(v) in 'fO' for v in a):
        x = [np.asarray(toobj(v), dtype=object) for v in a]
    r = np.where(c, *x)
    if r.ndim == 0 and r.dtype == object:
        return r
    return objectify(r)


def s_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), 2)(a, b)


def s_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(s_isclose(a, b, rtol, atol)))


def s_array_equal(a, b, **k):
    a, b = s_asarray(a), s_asarray(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.flat, b.flat))


# ----------------------------------------------------------------- linalg
def mat_det(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = ZERO
    for j in range(n):
        if A[0, j] is ZERO:
            continue
        M = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + (A[0, j] if j % 2 == 0 else -A[0, j]) * mat_det(M)
    return s


class LinAlgError(np.linalg.LinAlgError):
    pass


def nonsingular(d):
    """path assumption: the matrix of the linear solve is regular (singular matrices raise LinAlgError)."""
    d = tosym(d)
    if d.op == 'c':
        if d.args[0] == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        return
    from . import norm
    try:
        z = EX.current.nm.iszero_sym(d) if EX.current is not None else norm.default().iszero_sym(d)
    except norm.Blowup:
        z = False
    if z:
        raise np.linalg.LinAlgError('Singular matrix')
    if EX.current is not None and EX.current.__dict__.get('assume_regular', True):
        EX.current.require(d != 0)
    elif d == 0:
        raise np.linalg.LinAlgError('Singular matrix')


def constmat(A):
    """matrix of exact rationals if all elements are constants"""
    F = []
    for row in A:
        F.append([])
        for x in row:
            x = tosym(x)
            if x.op != 'c' or not isinstance(x.args[0], (int, Fraction)):
                return None
            F[-1].append(Fraction(x.args[0]))
    return F


def fraction_inv(F):
    """Gauss-Jordan in exact rationals"""
    n = len(F)
    M = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(F)]
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c] != 0), None)
        if piv is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[piv] = M[piv], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = tosym(M[i][n + j])
    return R


def mat_eigh(A):
    """eigen decomposition of a symmetric matrix, in closed form (at most 2x2)"""
    A = toobj(s_asarray(A))
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    val = np.empty(n, dtype=object)
    vec = np.empty((n, n), dtype=object)
    if n == 1:
        val[0], vec[0, 0] = A[0, 0], ONE
        return val, vec
    if n > 2:
        raise Unsupported('eigen decomposition of %dx%d' % (n, n))
    a, b, d = A[0, 0], A[1, 0], A[1, 1]
    if b == 0:
        i, j = (0, 1) if a <= d else (1, 0)
        val[0], val[1] = A[i, i], A[j, j]
        vec[:, :] = ZERO
        vec[i, 0] = vec[j, 1] = ONE
        return val, vec
    q = f_sqrt((a - d) * (a - d) / 4 + b * b)
    for k, l in enumerate(((a + d) / 2 - q, (a + d) / 2 + q)):
        val[k] = l
        nv = f_sqrt(b * b + (l - a) * (l - a))
        vec[0, k], vec[1, k] = b / nv, (l - a) / nv
    return val, vec


def mat_inv(A):
    A = toobj(s_asarray(A))
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    F = constmat(A)
    if F is not None:
        return fraction_inv(F)
    if n > 4:
        raise Unsupported('inverse of %dx%d' % (n, n))
    d = mat_det(A)
    nonsingular(d)
    R = np.empty((n, n), dtype=object)
    if n == 1:
        R[0, 0] = symdiv(ONE, tosym(d))
        return R
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, j, 0), i, 1)
            c = tosym(mat_det(M))
            R[i, j] = symdiv(c if (i + j) % 2 == 0 else -c, tosym(d))
    return R


def mat_solve(A, b, **k):
    b = toobj(s_asarray(b))
    return np.dot(mat_inv(A), b)


def mat_qr(A, mode='reduced'):
    """Gram-Schmidt; any orthonormal Q and upper R with A = QR fulfils the contract (signs free)."""
    A = toobj(s_asarray(A))
    m, n = A.shape
    Q = np.full((m, n), ZERO, dtype=object)
    R = np.full((n, n), ZERO, dtype=object)
    for j in range(n):
        v = A[:, j].copy()
        for i in range(j):
            R[i, j] = np.dot(Q[:, i], A[:, j])
            v = v - R[i, j] * Q[:, i]
        nn = np.dot(v, v)
        nonsingular(nn)
        R[j, j] = f_sqrt(nn)
        Q[:, j] = v / R[j, j]
    if mode == 'r':
        return R
    return Q, R


def mat_norm(x, ord=None, axis=None, **k):
    x = toobj(s_asarray(x))
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm')
    return elementwise(f_sqrt)(np.sum(x * x, axis=axis))


def mat_lstsq(A, b, rcond=None):
    A = toobj(s_asarray(A))
    x = mat_solve(np.dot(A.T, A), np.dot(A.T, toobj(s_asarray(b))))
    return x, None, None, None


def mat_slogdet(A):
    d = mat_det(toobj(s_asarray(A)))
    return f_sign(d), f_log(f_abs(d))


class Mod(types.ModuleType):
    """attribute fallback to the real module, float results made exact"""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType) or isinstance(v, type):
            return v
        if callable(v):
            w = wrapcall(v)
            self.__dict__[name] = w
            return w
        if isinstance(v, float) and math.isfinite(v):
            s = tosym(v)
            return s
        return v


def wrapcall(v):
    def g(*a, **k):
        if 'dtype' in k and isfloatdt(k['dtype']):
            k['dtype'] = object
        a = [object if x is SFloat else x for x in a]
        return objectify(v(*a, **k))
    g.__name__ = getattr(v, '__name__', 'f')
    return g


class ReduceU(object):
    """callable with the ufunc reduce/accumulate surface"""

    def __init__(self, f, uf):
        self.f = f
        self.uf = uf

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __getattr__(self, n):
        return wrapcall(getattr(self.uf, n))


def _ew2(opname):
    uf = getattr(np, opname)

    def g(a, b, out=None, where=True, **k):
        a = toobj(a) if _kindof(a) in 'fO' else a
        b = toobj(b) if _kindof(b) in 'fO' else b
        if out is not None and where is True:
            out[...] = uf(np.asarray(a), np.asarray(b))
            return out
        if where is not True:
            f = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y}[opname]
            return elementwise(f, 2)(a, b, out=out, where=where)
        return objectify(uf(a, b))
    return ReduceU(g, uf)


def s_errstate(*a, **k):
    return np.errstate(*a, **k)


def s_power(a, b, **k):
    if _kindof(a) in 'iu' and _kindof(b) in 'iu':
        return np.power(a, b)
    return elementwise(f_pow, 2)(a, b, **k)


def s_round_(x, decimals=0, **k):
    if decimals:
        raise Unsupported('round')
    return elementwise(f_rint)(x)


def s_copy(x, **k):
    return s_array(x)


def s_cumsum(x, axis=None, **k):
    return np.cumsum(toobj(s_asarray(x)), axis=axis)


def s_prod(x, axis=None, **k):
    return np.prod(toobj(s_asarray(x)), axis=axis)


def s_sum(x, axis=None, **k):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    k.pop('dtype', None)
    x = s_asarray(x)
    if x.dtype == object and x.ndim == 0:
        return x.item()
    return objectify(np.sum(x, axis=axis, **k))


def s_any_all(name):
    rf = getattr(np, name)

    def g(x, axis=None, **k):
        if isinstance(x, (Sym, SymBool)):
            return bool(x)
        x = np.asarray(x)
        if x.dtype == object:
            x = np.frompyfunc(bool, 1, 1)(x).astype(bool) if x.ndim else np.asarray(bool(x.item()))
        return rf(x, axis=axis, **k)
    return g


def s_logical(name):
    rf = getattr(np, name)

    def cv(x):
        if isinstance(x, (Sym, SymBool)):
            return bool(x)
        x = np.asarray(x)
        if x.dtype == object:
            return np.frompyfunc(bool, 1, 1)(x).astype(bool)
        return x

    def g(*a, **k):
        return rf(*[cv(x) for x in a], **k)
    return ReduceU(g, rf)


def s_atleast(n):
    def g(*xs):
        r = [getattr(np, 'atleast_%dd' % n)(s_asarray(x)) for x in xs]
        return r[0] if len(r) == 1 else r
    return g


def s_append(a, b, axis=None):
    a, b = s_asarray(a), s_asarray(b)
    if a.dtype.kind != b.dtype.kind:
        if a.size == 0 and a.dtype == object and b.dtype.kind in 'iub':
            b = toobj(b) if b.ndim else np.asarray(toobj(b), dtype=object)
        elif b.dtype == object and a.dtype.kind in 'iub':
            a = toobj(a) if a.ndim else np.asarray(toobj(a), dtype=object)
        elif a.dtype == object and b.dtype.kind in 'iub':
            b = toobj(b) if b.ndim else np.asarray(toobj(b), dtype=object)
    return np.append(a, b, axis=axis)


def s_concatenate(seq, axis=0, **k):
    seq = [s_asarray(s) for s in seq]
    if any(s.dtype == object for s in seq):
        seq = [toobj(s) for s in seq]
    return np.concatenate(seq, axis=axis)


def s_searchsorted(a, v, side='left', sorter=None):
    a = s_asarray(a)

    def one(x):
        n = 0
        for y in a:
            if (y < x) if side == 'left' else (y <= x):
                n += 1
            else:
                break
        return n
    if isinstance(v, (np.ndarray, list, tuple)):
        return np.array([one(x) for x in s_asarray(v).flat], dtype=int).reshape(np.shape(v))
    return one(v)


def s_array2string(x, *a, **k):
    return '<array>'


def s_einsum(spec, *ops, **k):
    return np.einsum(spec, *[toobj(s_asarray(o)) for o in ops], optimize=False)


def s_cross(a, b, **k):
    return np.cross(toobj(s_asarray(a)), toobj(s_asarray(b)))


def s_diff(a, n=1, axis=-1, **k):
    return np.diff(toobj(s_asarray(a)) if _kindof(a) in 'fO' else a, n=n, axis=axis)


def s_polyval(p, x):
    y = ZERO
    for c in p:
        y = y * x + c
    return y


def s_digitize(x, bins, right=False):
    return s_searchsorted(bins, x, side='left' if right else 'right')


def s_interp(x, xp, fp, *a, **k):
    xp, fp = list(xp), list(fp)

    def one(t):
        if t <= xp[0]:
            return fp[0]
        for i in range(1, len(xp)):
            if t <= xp[i]:
                return fp[i-1] + (t - xp[i-1]) * (fp[i] - fp[i-1]) / (xp[i] - xp[i-1])
        return fp[-1]
    return elementwise(one)(x)


def s_nansum(x, axis=None):
    x = s_asarray(x)
    return s_sum(np.where(_bools(f_isnan)(x), ZERO, x), axis=axis)


def s_isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def s_iscomplexobj(x):
    return False


def s_real(x):
    return x if isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object) else objectify(np.real(x))


def s_in1d(a, b, **k):
    b = list(np.asarray(b).flat)
    return np.array([any(bool(x == y) for y in b) for x in np.asarray(a).flat], dtype=bool)


# ------------------------------------------------------------------ random
class RngBase(object):
    """RandomState surface; every number comes from the environment (solver or replay)."""

    def rand(self, *shape):
        if not shape:
            return self._u()
        return self._fill(shape, self._u)

    def random(self, size=None):
        return self._u() if size is None else self._fill(_tup(size), self._u)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and not isinstance(low, np.ndarray) and not isinstance(high, np.ndarray):
            return low + (high - low) * self._u()
        sh = _tup(size) if size is not None else np.broadcast(np.asarray(low, dtype=object), np.asarray(high, dtype=object)).shape
        u = self._fill(sh, self._u)
        return low + (high - low) * u

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if size is None:
            return self._i(low, high)
        r = np.zeros(_tup(size), dtype=int)
        for ix in np.ndindex(r.shape):
            r[ix] = self._i(low, high)
        return r

    integers = randint

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            src = np.arange(x)
        else:
            src = np.array(x)
        idx = list(range(len(src)))
        out = []
        while idx:
            k = self._i(0, len(idx)) if len(idx) > 1 else 0
            out.append(idx.pop(k))
        return src[np.array(out, dtype=int)] if len(out) else src

    def shuffle(self, x):
        p = self.permutation(len(x))
        c = [x[i] for i in p]
        for i in range(len(c)):
            x[i] = c[i]

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if size is None:
            return arr[self._i(0, len(arr))]
        if replace:
            n = int(np.prod(_tup(size)))
            return arr[np.array([self._i(0, len(arr)) for _ in range(n)])].reshape(_tup(size))
        return self.permutation(arr)[:size]

    def geometric(self, p, size=None):
        mx = self.maxgeom
        return self._i(1, mx + 1)

    def randn(self, *shape):
        if not shape:
            return self._n()
        return self._fill(shape, self._n)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self._n()
        return loc + scale * self._fill(_tup(size), self._n)

    def standard_normal(self, size=None):
        return self._n() if size is None else self._fill(_tup(size), self._n)

    def exponential(self, scale=1.0, size=None):
        raise Unsupported('rng.exponential')

    def seed(self, *a):
        pass

    maxgeom = 3


def _tup(s):
    return (int(s),) if isinstance(s, (int, np.integer)) else tuple(s)


class SymRng(RngBase):
    def __init__(self, ctx, prefix='rng'):
        self.ctx = ctx
        self.prefix = prefix
        self.n = 0

    def _name(self, k):
        self.n += 1
        return '%s.%s%d' % (self.prefix, k, self.n)

    def _u(self):
        return self.ctx.real(self._name('u'), 0, 1, hi_open=True, lo_open=True)

    def _n(self):
        return self.ctx.real(self._name('n'))

    def _i(self, lo, hi):
        if hi - lo <= 0:
            raise ValueError('low >= high')
        if hi - lo == 1:
            return lo
        if hi - lo > 1 << 20:
            return lo + 1               # a seed for another generator
        return self.ctx.integer(self._name('i'), lo, hi - 1)

    def _fill(self, shape, f):
        r = np.empty(tuple(int(s) for s in shape), dtype=object)
        for ix in np.ndindex(r.shape):
            r[ix] = f()
        return r


class ConcRng(SymRng):
    def _fill(self, shape, f):
        r = np.empty(tuple(int(s) for s in shape), dtype=float)
        for ix in np.ndindex(r.shape):
            r[ix] = f()
        return r


class _NoRandom(types.ModuleType):
    """module-level randomness; harnesses install `hook` (an RngBase) when it is needed"""
    hook = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        h = type(self).hook
        if name == 'RandomState' or name == 'default_rng':
            return lambda seed=None: h if h is not None else _LazyRng()
        if h is not None:
            return getattr(h, name)
        if name == 'seed':
            return lambda *a: None
        raise Unsupported('module level random.' + name)


class _LazyRng(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        h = _NoRandom.hook
        if h is None:
            if name == 'seed':
                return lambda *a: None
            raise Unsupported('rng without an environment: ' + name)
        return getattr(h, name)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class _PyRandom(types.ModuleType):
    def __getattr__(self, name):
        import random as R
        return getattr(R, name)


def build():
    E = elementwise
    linalg = Mod('numpy.linalg', np.linalg, dict(
        solve=mat_solve, inv=mat_inv, det=lambda A: mat_det(toobj(s_asarray(A))), qr=mat_qr, norm=mat_norm,
        eigh=mat_eigh, lstsq=mat_lstsq, slogdet=mat_slogdet, LinAlgError=np.linalg.LinAlgError,
        pinv=mat_inv, matrix_rank=lambda A: np.asarray(A).shape[1]))
    random_ = _NoRandom('numpy.random')
    N = Mod('numpy', np, dict(
        linalg=linalg, random=random_, ndarray=SNdarray, pi=PI, e=fun('exp', ONE), inf=math.inf, nan=math.nan,
        newaxis=None, float64=SFloat, float_=SFloat, double=SFloat, float32=SFloat,
        exp=E(f_exp), log=E(f_log), sqrt=E(f_sqrt), sin=E(f_sin), cos=E(f_cos), tan=E(f_tan), arctan=E(f_arctan),
        arcsin=E(f_arcsin), arccos=E(f_arccos), abs=E(f_abs), absolute=E(f_abs), fabs=E(f_abs), sign=E(f_sign),
        square=E(f_square), negative=E(f_negative), reciprocal=E(f_reciprocal), floor=E(f_floor), ceil=E(f_ceil),
        fix=E(f_fix), trunc=E(f_fix), rint=E(f_rint), round=s_round_, around=s_round_, log10=E(f_log10),
        log2=E(f_log2), log1p=E(f_log1p), expm1=E(f_expm1), sinh=E(f_sinh), cosh=E(f_cosh), tanh=E(f_tanh),
        deg2rad=E(f_deg2rad), rad2deg=E(f_rad2deg), radians=E(f_deg2rad), degrees=E(f_rad2deg), sinc=E(f_sinc),
        arctan2=E(f_arctan2, 2), hypot=E(f_hypot, 2), copysign=E(f_copysign, 2), logaddexp=ReduceU(E(f_logaddexp, 2), np.logaddexp),
        maximum=ReduceU(E(f_max, 2), np.maximum), minimum=ReduceU(E(f_min, 2), np.minimum), fmax=E(f_max, 2), fmin=E(f_min, 2),
        power=s_power, float_power=E(f_pow, 2), divide=E(f_div, 2), true_divide=E(f_div, 2), clip=E(f_clip, 3),
        isfinite=_bools(f_isfinite), isnan=_bools(f_isnan), isinf=_bools(f_isinf),
        add=_ew2('add'), subtract=_ew2('subtract'), multiply=_ew2('multiply'),
        zeros=s_zeros, ones=s_ones, empty=s_empty, full=s_full, zeros_like=_like(s_zeros), ones_like=_like(s_ones),
        empty_like=_like(s_empty), full_like=s_full_like, array=s_array, asarray=s_asarray, asanyarray=s_asarray,
        ascontiguousarray=s_asarray, asfarray=lambda x: s_asarray(x, dtype=float), copy=s_copy,
        fromiter=s_fromiter, arange=s_arange, linspace=s_linspace, std=s_std, var=s_var, mean=s_mean, average=s_average,
        median=s_median, max=_minmax('max'), min=_minmax('min'), amax=_minmax('max'), amin=_minmax('min'),
        nanmax=_minmax('max', True), nanmin=_minmax('min', True), argmax=_argminmax(True), argmin=_argminmax(False),
        argsort=s_argsort, sort=s_sort, where=s_where, isclose=s_isclose, allclose=s_allclose,
        array_equal=s_array_equal, errstate=s_errstate, cumsum=s_cumsum, prod=s_prod, sum=s_sum, any=s_any_all('any'),
        all=s_any_all('all'), logical_and=s_logical('logical_and'), logical_or=s_logical('logical_or'),
        logical_not=s_logical('logical_not'), logical_xor=s_logical('logical_xor'), atleast_1d=s_atleast(1),
        atleast_2d=s_atleast(2), append=s_append, concatenate=s_concatenate, searchsorted=s_searchsorted,
        array2string=s_array2string, einsum=s_einsum, cross=s_cross, diff=s_diff, polyval=s_polyval,
        digitize=s_digitize, interp=s_interp, nansum=s_nansum, isscalar=s_isscalar, iscomplexobj=s_iscomplexobj,
        real=s_real, in1d=s_in1d, isin=s_in1d, set_printoptions=lambda *a, **k: None, seterr=lambda *a, **k: None,
        identity=lambda n, dtype=float: objectify(np.identity(n)), eye=lambda *a, **k: objectify(np.eye(*a)),
        nan_to_num=lambda x, **k: x,
    ))

    def m1(f):
        def g(x):
            if isinstance(x, np.ndarray):
                x = x.item()
            if type(x) is not Sym and not isnumspecial(x):
                x = _o1(x)
            return f(x)
        return g

    def mlog(x, base=None):
        if isinstance(x, np.ndarray):
            x = x.item()
        x = _o1(x)
        if type(x) is Sym and x.op == 'c' and x.args[0] <= 0:
            raise ValueError('math domain error')
        if type(x) is Sym and x.op != 'c' and EX.current is not None and EX.current.__dict__.get('strictlog') and x <= 0:
            raise ValueError('math domain error')
        r = f_log(x)
        return r if base is None else r / f_log(_o1(base))

    def msqrt(x):
        if isinstance(x, np.ndarray):
            x = x.item()
        x = _o1(x)
        if type(x) is Sym and x.op == 'c' and x.args[0] < 0:
            raise ValueError('math domain error')
        return f_sqrt(x)

    def mfloor(x):
        return math.floor(x)

    M = Mod('math', math, dict(
        pi=PI, e=fun('exp', ONE), inf=math.inf, nan=math.nan, tau=PI * 2,
        exp=m1(f_exp), log=mlog, sqrt=msqrt, sin=m1(f_sin), cos=m1(f_cos), tan=m1(f_tan), atan=m1(f_arctan),
        asin=m1(f_arcsin), acos=m1(f_arccos), fabs=m1(f_abs), atan2=lambda y, x: f_arctan2(_o1(y), _o1(x)),
        hypot=f_hypot, copysign=f_copysign, pow=lambda a, b: f_pow(a, b), log10=m1(f_log10), log2=m1(f_log2),
        log1p=m1(f_log1p), expm1=m1(f_expm1), sinh=m1(f_sinh), cosh=m1(f_cosh), tanh=m1(f_tanh), erf=m1(f_erf),
        erfc=m1(f_erfc), lgamma=m1(f_gammaln), gamma=m1(_gamma), isnan=m1(f_isnan), isinf=m1(f_isinf), isfinite=m1(f_isfinite),
        floor=mfloor, ceil=lambda x: math.ceil(x), radians=m1(f_deg2rad), degrees=m1(f_rad2deg),
        trunc=lambda x: int(x), fmod=lambda a, b: a - b * f_fix(_o1(a) / b),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= f_max(rel_tol * f_max(abs(a), abs(b)), abs_tol)),
        factorial=math.factorial, gcd=math.gcd, comb=math.comb,
        prod=lambda it, start=1: _prod(it, start), fsum=lambda it: s_sum(list(it)),
    ))

    def unsup(name):
        def g(*a, **k):
            raise Unsupported('scipy ' + name)
        return g
    SPEC = Mod('scipy.special', scipy.special, dict(
        erf=E(f_erf), erfc=E(f_erfc), erfinv=E(f_erfinv), gammaln=E(f_gammaln), loggamma=E(f_gammaln), psi=E(f_psi), digamma=E(f_psi),
        gamma=E(_gamma), wofz=unsup('wofz'), factorial=E(lambda x: _gamma(tosym(x) + 1)),
    ))
    import scipy.optimize as scipy_optimize

    def bisect(f, a, b, *args, **k):
        raise Unsupported('scipy.optimize.bisect')
    OPT = Mod("scipy.optimize", scipy_optimize, dict(bisect=bisect))
    SLIN = Mod('scipy.linalg', scipy.linalg if hasattr(scipy, 'linalg') else np.linalg, dict(linalg.__dict__))
    SCIPY = Mod('scipy', scipy, dict(special=SPEC, optimize=OPT, linalg=SLIN))

    class W(types.ModuleType):
        log = []

        def warn(self, msg=None, *a, **k):
            W.log.append(str(msg))

        def __getattr__(self, n):
            import warnings
            return getattr(warnings, n)
    WARN = W('warnings')
    return {'numpy': N, 'math': M, 'scipy': SCIPY, 'scipy.special': SPEC, 'scipy.optimize': OPT, 'scipy.linalg': SLIN,
            'numpy.linalg': linalg, 'numpy.random': random_, 'warnings': WARN, 'random': _PyRandom('random')}


def _prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r
