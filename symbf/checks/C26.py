"""C26  numeric tools meet their definitions."""
from ..harness import H

BOUNDS = ('averages of 1-4 numbers, circular averages of 1-2 numbers; orthonormal bases of 1-3 vectors in 1-3 dimensions; nice numbers of |x| in [0.02, 500]; log factorials of all integers up '
          'to 99 (table, against each other) and of all integers in [100, 10^6] (asymptotic formula, against the series); lists of up to 4 items')
ASSUMPTIONS = ['weights are positive']


def average(ctx, n, wgt, form):
    T = ctx.pkg.Tools
    x = ctx.reals('x', n)
    w = ctx.reals('w', n, 0.05, 5) if wgt else None
    xx = [v for v in x] if form == 'list' else x
    a, s = T.average(xx, weights=w) if wgt else T.average(xx)
    one = [1] * n if w is None else w
    sw = sum(v for v in one)
    ctx.eq(a * sw, sum(v * q for v, q in zip(x, one)), 'average')
    ctx.eq(s * s * sw, sum(q * (v - a) * (v - a) for v, q in zip(x, one)), 'standard deviation')
    ctx.le(0, s, 'sign of the standard deviation')
    for i in range(n):
        ctx.eq(xx[i], x[i], 'input is left alone')


def circular(ctx, n, wgt, own):
    T = ctx.pkg.Tools
    M = ctx.math
    lo = 0.0 if own == 0 else ctx.real('lo', -5, 5)
    if own == 0:
        rng = 2 * M.pi
        c = [0.0, rng]
    else:
        rng = ctx.real('rng', 0.5, 9)
        c = [lo, lo + rng]
    x = ctx.arr([lo + rng * v for v in ctx.reals('u', n, 0.0, 0.999)])
    w = ctx.reals('w', n, 0.05, 5) if wgt else None
    a, s = T.average(x, weights=w, circular=c)
    one = [1] * n if w is None else w
    ctx.le(c[0], a, 'not below the domain')
    ctx.le(a, c[1], 'not above the domain')
    k = 2 * M.pi / rng
    S = sum(q * M.sin(k * (v - c[0])) for v, q in zip(x, one))
    C = sum(q * M.cos(k * (v - c[0])) for v, q in zip(x, one))
    ctx.assume(S * S + C * C > 0.01)               # there is a mean direction
    t = k * (a - c[0]) - M.atan2(S, C)
    ctx.eq(t * (t - 2 * M.pi), 0, 'average direction')
    ctx.le(0, s, 'sign of the standard deviation')
    d2 = 0
    for v, q in zip(x, one):
        d = v - a
        if d > rng / 2:
            d = d - rng
        elif d < -rng / 2:
            d = d + rng
        d2 = d2 + q * d * d
    ctx.eq(s * s * sum(q for q in one), d2, 'standard deviation over the shortest way round')


def nice(ctx, sign):
    T = ctx.pkg.Tools
    x = ctx.real('x', 0.02, 500)
    r = T.nicenumber(x if sign > 0 else -x)
    a = r if sign > 0 else -r
    ctx.le(0, a, 'sign')
    dec = 1.0
    y = x
    while y > 10:
        y = y / 10
        dec = dec * 10
    while y < 1:
        y = y * 10
        dec = dec / 10
    ctx.le(a, x + 1e-9 * dec, 'below the number')
    ctx.lt(x - a, dec, 'close to the number')
    d = a / dec
    ctx.check(any(-1e-9 <= d - k and d - k <= 1e-9 for k in range(1, 11)), 'one digit')


def zero(ctx):
    ctx.eq(ctx.pkg.Tools.nicenumber(0), 0, 'zero')


def fix2int(ctx, n):
    T = ctx.pkg.Tools
    k = [ctx.integer('k%d' % i, 0, 6) for i in range(n)]
    e = [ctx.real('e%d' % i, -9e-7, 9e-7) for i in range(n)]
    r = T.fix2int(ctx.arr([a + b for a, b in zip(k, e)]))
    for i in range(n):
        ctx.eq(r[i], k[i], 'integer value')


def between(ctx):
    T = ctx.pkg.Tools
    a, x, b = ctx.real('a'), ctx.real('x'), ctx.real('b')
    r = T.isBetween(a, x, b)
    lo, hi = (a, b) if a <= b else (b, a)
    if r:
        ctx.le(lo, x, 'between')
        ctx.le(x, hi, 'between')
    else:
        ctx.lt(0, (lo - x) if x < lo else (x - hi), 'not between')


def first(ctx, n):
    T = ctx.pkg.Tools
    x = ctx.reals('x', n)
    t = ctx.real('t')
    try:
        k = T.firstIndex(x, lambda v: v > t)
    except StopIteration:
        k = None
    for i in range(n if k is None else k):
        ctx.le(x[i], t, 'none before')
    if k is not None:
        ctx.lt(t, x[k], 'first one')
    ctx.check(T.firstIndex(x) == 0, 'first without condition')
    ctx.raises(StopIteration, lambda: T.firstIndex([]), 'none in an empty list')


def items(ctx, n, m):
    """getItem and makeNext repeat the last item"""
    T = ctx.pkg.Tools
    x = [v for v in ctx.reals('x', n)]
    for k in range(m):
        ctx.eq(T.getItem(x, k), x[min(k, n - 1)], 'item')
    ctx.eq(T.getItem(x[0], m), x[0], 'scalar item')
    g = T.makeNext(x, 0)
    for k in range(m):
        ctx.eq(next(g), x[min(k, n - 1)], 'next item')
    g = T.makeNext(ctx.arr(x), 1)
    for k in range(1, m):
        ctx.eq(next(g), x[min(k, n - 1)], 'next item from the second one on')
    g = T.makeNext(x[0], 0)
    for k in range(m):
        ctx.eq(next(g), x[0], 'next of a scalar')


def arrays(ctx):
    T = ctx.pkg.Tools
    a, b = ctx.real('a'), ctx.real('b')
    ctx.check(T.length(None) == 0 and T.length(a) == 1 and T.length([a, b]) == 2 and T.length(ctx.arr([a])) == 1, 'length')
    t = T.toArray(a)
    ctx.shape(t, (1,), 'array of a scalar')
    ctx.eq(t[0], a, 'array of a scalar')
    t = T.toArray(a, ndim=2)
    ctx.shape(t, (1, 1), '2-d array of a scalar')
    t = T.toArray([a, b], ndim=2)
    ctx.shape(t, (1, 2), '2-d array of a list')
    ctx.eq(t[0, 1], b, '2-d array of a list')
    src = ctx.arr([a, b])
    t = T.toArray(src)
    t[0] = a + 1
    ctx.eq(src[0], a, 'the array is a copy')
    m = ctx.mat('m', 2, 3)
    for k in range(3):
        c = T.getColumnData(m, k)
        ctx.shape(c, (2,), 'column')
        for i in range(2):
            ctx.eq(c[i], m[i, k], 'column')
    c = T.getColumnData(src, 0)
    ctx.eq(c, src, 'column of a vector')


def basis(ctx, dim, n, twice=False, reset=None):
    """Gram-Schmidt"""
    ob = ctx.pkg.OrthonormalBasis()
    rounds = 2 if twice else 1
    V = []
    U = []
    for k in range(n):
        v = ctx.reals('v%d' % k, dim)
        ctx.assume(sum(t * t for t in v) > 0.01)
        if k == reset:
            U, V = [], []
        if len(U) == dim:                      # complete: starts all over
            U, V = [], []
        u = ob.normalise(v, reset=True) if k == reset else ob.normalise(v)
        for i in range(dim):
            ctx.eq(v[i], ctx.reals('v%d' % k, dim)[i], 'input is left alone')
        U.append([t for t in u])
        V.append([t for t in v])
        for j, w in enumerate(U):
            ctx.eq(sum(a * b for a, b in zip(w, U[-1])), 1 if j == len(U) - 1 else 0, 'orthonormal')
        c = sum(a * b for a, b in zip(V[-1], U[-1]))
        if dim < 3:
            ctx.lt(0, c, 'same side')
        for i in range(dim):
            ctx.eq(V[-1][i], sum(sum(a * b for a, b in zip(V[-1], w)) * w[i] for w in U), 'spans the vector')
        ctx.shape(ob.basis, (len(U), dim), 'size of the basis')
        for j in range(len(U)):
            ctx.eq(ob.basis[j], ctx.arr(U[j]), 'basis')


def factorial(ctx, lo, hi):
    """arrays, lists and numbers alike"""
    LF = ctx.pkg.module('LogFactorial').logFactorial
    k = ctx.integer('k', lo, hi)
    j = ctx.integer('j', 95, 104)
    r, q = LF(int(k)), LF(int(j))
    a = LF(ctx.np.array([int(k), int(j)]))
    b = LF([[int(k)], [int(j)]])
    ctx.shape(a, (2,), 'shape')
    ctx.shape(b, (2, 1), 'shape')
    for t, u, v in ((a[0], b[0, 0], r), (a[1], b[1, 0], q)):
        ctx.eq(t, v, 'log factorial in an array')
        ctx.eq(u, v, 'log factorial in a matrix')
    if int(k) > 0:
        p = LF(int(k) - 1)
        ctx.le(r - p, ctx.math.log(float(int(k))) + 1e-6, 'log(k!) - log((k-1)!) = log(k)')
        ctx.le(ctx.math.log(float(int(k))) - 1e-6, r - p, 'log(k!) - log((k-1)!) = log(k)')
    else:
        ctx.eq(r, 0, 'log(0!)')


def harnesses(tier):
    hs = []
    for n in (1, 2, 3, 4):
        for w in (False, True):
            for f in ('array', 'list'):
                hs.append(H('average/%d/%s/%s' % (n, w, f), average, (n, w, f)))
    for n in (1, 2):
        for w in (False, True):
            for own in (0, 1):
                hs.append(H('circular/%d/%s/%d' % (n, w, own), circular, (n, w, own)))
    for dim in (1, 2, 3):
        for n in range(1, dim + 2):
            hs.append(H('basis/%d/%d' % (dim, n), basis, (dim, n), thorough=dim == 3 and n > 2))
        hs.append(H('basis/%d/reset' % dim, basis, (dim, 2), dict(reset=1)))
    for lo in range(0, 120, 20):
        hs.append(H('factorial/%d' % lo, factorial, (lo, lo + 19), thorough=lo not in (0, 80)))
    for g in (1, -1):
        hs.append(H('nice/%d' % g, nice, (g,)))
    hs.append(H('between', between))
    for n in (1, 2, 3):
        hs.append(H('first/%d' % n, first, (n,)))
        hs.append(H('items/%d' % n, items, (n, n + 2)))
        hs.append(H('fix2int/%d' % n, fix2int, (n,)) if n < 3 else H('zero', zero))
    hs.append(H('arrays', arrays))
    return hs
