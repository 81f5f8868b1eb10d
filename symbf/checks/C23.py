"""C23  splines: polynomial pieces, continuity at the knots, partition of unity and local support of the b-splines."""
from fractions import Fraction
from ..harness import H
from ..models import knots as symknots

BOUNDS = ('splines and b-splines of order 0-3 on 2-5 arbitrary increasing knots (basic splines: 2-6 knots at several fixed uneven positions, border 0 and 1), '
          'all parameters, any place between the knots; one inner knot at a time')
ASSUMPTIONS = ['knots are increasing, at most 4 apart', 'positions at the last knot only for b-splines']


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def dweights(n, k, offs):
    """exact weights of the k-th derivative at 0 of a polynomial of degree n from its values at n+1 offsets"""
    out = []
    for j in range(n + 1):
        # Lagrange polynomial of offset j as list of coefficients
        p = [Fraction(1)]
        for m in range(n + 1):
            if m == j:
                continue
            d = Fraction(offs[j] - offs[m])
            p = [(p[i - 1] if i > 0 else 0) / d - (p[i] * offs[m] / d if i < len(p) else 0) for i in range(len(p) + 1)]
        f = Fraction(1)
        for i in range(2, k + 1):
            f *= i
        out.append(p[k] * f if k < len(p) else Fraction(0))
    den = 1
    for w in out:
        den = den * w.denominator // __import__('math').gcd(den, w.denominator)
    return [float(w * den) for w in out], float(den)


def build(ctx, cls, nk, order, kn=None, **kw):
    k = [float(x) for x in kn] if kn is not None else symknots(ctx, nk)
    m = getattr(ctx.pkg, cls)(knots=ctx.arr(k), order=order, **kw)
    return m, k


def basis(m, xs):
    """columns of the design matrix [N,P]"""
    return m.partial(xs, m.parameters)


def place(ctx, k, iv, n, kn, hmin):
    """a position x0 in interval iv, with n+1 steps h that stay inside (the ranges only help the concrete trace validation)"""
    if kn is None:
        x0 = ctx.real('x0')
    else:
        x0 = ctx.real('x0', lo=k[iv], hi=k[iv + 1], lo_open=False)
    ctx.assume(x0 >= k[iv])
    if hmin is None:
        ctx.assume(x0 < k[iv + 1])
        return x0
    if kn is None:
        h = ctx.real('h', lo=hmin, **({'hi': 1} if hmin else {}))
    else:
        h = ctx.real('h', lo=hmin, hi=(k[iv + 1] - k[iv]) / (n + 1))
    ctx.assume(x0 + (n + 1) * h < k[iv + 1])
    return x0, h


def pieces(ctx, cls, nk, order, iv, kn, kw):
    """within an interval the differences of order n+1 vanish"""
    m, k = build(ctx, cls, nk, order, kn, **kw)
    n = order
    x0, h = place(ctx, k, iv, n, kn, 0)
    xs = ctx.arr([x0 + j * h for j in range(n + 2)])
    p = ctx.reals('p', m.npars)
    r = m.result(xs, p)
    ctx.shape(r, (n + 2,))
    s = 0.0
    for j in range(n + 2):
        s = s + (-1) ** j * binom(n + 1, j) * r[j]
    ctx.eq(s, 0.0, 'polynomial of the order of the spline between knots')


def contin(ctx, cls, nk, order, i, kn, kw):
    """at inner knot i the derivatives up to order n-1 are the same from both sides (i = -1: last and first, periodic)"""
    m, k = build(ctx, cls, nk, order, kn, **kw)
    n = order
    h = ctx.real('h', lo=0.01, hi=0.5 if kn is not None else 1)
    if i < 0:
        t, u = k[-1], k[0]
        ctx.assume((n + 2) * h < k[-1] - k[-2])
        ctx.assume((n + 1) * h < k[1] - k[0])
    else:
        t = u = k[i]
        ctx.assume((n + 2) * h < k[i] - k[i - 1])
        ctx.assume((n + 1) * h < k[i + 1] - k[i])
    lo, ro = [-j - 1 for j in range(n + 1)], list(range(n + 1))
    p = ctx.reals('p', m.npars)
    left = m.result(ctx.arr([t + j * h for j in lo]), p)
    rite = m.result(ctx.arr([u + j * h for j in ro]), p)
    for d in range(n):
        wl, dl = dweights(n, d, lo)
        wr, dr = dweights(n, d, ro)
        sl = sr = 0.0
        for j in range(n + 1):
            sl = sl + wl[j] * left[j]
            sr = sr + wr[j] * rite[j]
        ctx.eq(sl * dr, sr * dl, 'derivative %d is continuous at the knot' % d)


def unity(ctx, cls, nk, order, iv, kn, kw, end=False, sign=True):
    """sum one, none negative, at most order+1 of them differ from zero: the ones of this interval"""
    m, k = build(ctx, cls, nk, order, kn, **kw)
    per = kw.get('border') == 1
    ctx.check(m.npars == (len(k) - 1 if per else len(k) + order - 1), 'number of parameters')
    if end:
        x = k[-1]
    else:
        x = place(ctx, k, iv, 0, kn, None)
    B = basis(m, ctx.arr([x, k[iv]]))
    ctx.shape(B, (2, m.npars))
    s = 0.0
    for j in range(m.npars):
        s = s + B[0, j]
        if sign:
            ctx.le(0.0, B[0, j], 'not negative', tol=1e-7)
    ctx.eq(s, 1.0, 'partition of unity')
    if not per:
        for j in range(m.npars):
            if not iv <= j <= iv + order:
                ctx.eq(B[0, j], 0.0, 'local support')
    if end:
        ctx.eq(B[0, m.npars - 1], 1.0, 'the last one at the last knot')
    elif iv == 0 and not per and order > 0:
        ctx.eq(B[1, 0], 1.0, 'the first one at the first knot')


def linear(ctx, cls, nk, order, iv, kn, kw):
    """result is the sum of the basis functions times the parameters; derivative is that of the polynomial"""
    m, k = build(ctx, cls, nk, order, kn, **kw)
    n = order
    x0, h = place(ctx, k, iv, n, kn, 0.01)
    p = ctx.reals('p', m.npars)
    xs = ctx.arr([x0 + j * h for j in range(n + 1)] + [x0])
    B = m.partial(xs, p)
    r = m.result(xs, p)
    ctx.shape(B, (n + 2, m.npars))
    for j in range(n + 2):
        s = 0.0
        for q in range(m.npars):
            s = s + B[j, q] * p[q]
        ctx.eq(r[j], s, 'sum of the basis functions')
    w, den = dweights(n, 1, list(range(n + 1)))
    d = m.derivative(xs, p)
    ctx.shape(d, (n + 2,))
    s = 0.0
    for j in range(n + 1):
        s = s + w[j] * r[j]
    ctx.eq(d[0] * h * den, s, 'derivative')
    ctx.eq(d[n + 1], d[0], 'derivative at the same place')
    if m.npars > 2:
        S = m.basePartial(xs, p, parlist=[m.npars - 1, 0])
        if S.shape[1] == 2:
            ctx.eq(S[:, 0], B[:, m.npars - 1], 'selected')
            ctx.eq(S[:, 1], B[:, 0], 'selected')


def outside(ctx, nk, order, where):
    """b-splines outside the range of the knots"""
    m, k = build(ctx, 'BSplinesModel', nk, order)
    d = ctx.real('d', lo=0)
    x = k[0] - d if where == 'low' else k[-1] + d
    ctx.raises(ValueError, lambda: m.result(ctx.arr([k[0], x]), ctx.reals('p', m.npars)), 'outside the range of the knots')


def layout(ctx, cls, order, how):
    """automatic lay-out of the knots: equidistant over the range, both ends included"""
    a = ctx.real('a')
    w = ctx.real('w', lo=0)
    if how == 'range':
        m = getattr(ctx.pkg, cls)(nrknots=4, order=order, min=a, max=a + w)
    else:
        m = getattr(ctx.pkg, cls)(nrknots=4, order=order, xrange=ctx.arr([a + w, a, a + 0.3 * w]))
    for j in range(4):
        ctx.eq(m.knots[j], a + w * j / 3, 'knot %d' % j)


def onepiece(ctx, nk, order):
    """splines: pieces join with a jump in derivative n only, one new parameter for each inner knot (independent functions)"""
    m, k = build(ctx, 'SplinesModel', nk, order)
    n = order
    p = ctx.reals('p', m.npars)
    ctx.check(m.npars == nk + order - 1, 'number of parameters')
    # when all values vanish at n+1 places in each interval, all parameters vanish: here by one parameter at a time
    for i in range(nk - 1):
        x0 = k[i]
        w = (k[i + 1] - k[i]) / (n + 2)
        xs = ctx.arr([x0 + j * w for j in range(n + 1)])
        q = ctx.arr([p[j] if j > n + i else 0.0 for j in range(m.npars)])
        ctx.eq(m.result(xs, q), ctx.arr([0.0] * (n + 1)), 'parameters of knots to the right do not matter')


FIXED = {3: [[0, 1, 2.5]], 4: [[0, 1, 2.5, 3], [-1, 0.5, 1, 3]], 5: [[0, 2, 2.5, 3.5, 5]], 6: [[0, 1, 1.5, 3, 4, 4.5]], 2: [[0, 2]]}


def harnesses(tier):
    hs = []
    for n in range(4):
        for nk in (2, 3, 4, 5):
            th = nk == 5 or (nk == 4 and n == 3)
            for cls in ('SplinesModel', 'BSplinesModel'):
                if cls == 'SplinesModel' and n == 0:
                    pass
                for iv in range(nk - 1):
                    hs.append(H('%s/pieces/%d-%d-%d' % (cls, n, nk, iv), pieces, (cls, nk, n, iv, None, {}), thorough=th, weight=n + nk))
                    hs.append(H('%s/linear/%d-%d-%d' % (cls, n, nk, iv), linear, (cls, nk, n, iv, None, {}), thorough=th, weight=n + nk))
                    if cls == 'BSplinesModel':
                        hs.append(H('%s/unity/%d-%d-%d' % (cls, n, nk, iv), unity, (cls, nk, n, iv, None, {}), thorough=th, weight=n + nk))
                for i in range(1, nk - 1):
                    if n > 0:
                        hs.append(H('%s/continuous/%d-%d-%d' % (cls, n, nk, i), contin, (cls, nk, n, i, None, {}), thorough=th, weight=n + nk))
            hs.append(H('BSplinesModel/end/%d-%d' % (n, nk), unity, ('BSplinesModel', nk, n, nk - 2, None, {}, True), thorough=th))
            hs.append(H('SplinesModel/right/%d-%d' % (n, nk), onepiece, (nk, n), thorough=th))
        for wh in ('low', 'high'):
            hs.append(H('BSplinesModel/outside/%d-%s' % (n, wh), outside, (3, n, wh)))
    for cls in ('SplinesModel', 'BSplinesModel', 'BasicSplinesModel'):
        for how in ('range', 'data'):
            hs.append(H('%s/layout/%s' % (cls, how), layout, (cls, 1, how)))
    for n in range(4):
        for nk in (2, 3, 4, 5, 6):
            for f, kn in enumerate(FIXED[nk]):
                for b in (0, 1):
                    if b and nk < n + 3:
                        continue
                    kw = dict(border=b) if b else {}
                    for iv in range(nk - 1):
                        a = ('BasicSplinesModel', nk, n, iv, kn, kw)
                        s = '%d-%d.%d-b%d-%d' % (n, nk, f, b, iv)
                        hs.append(H('BasicSplinesModel/pieces/' + s, pieces, a))
                        hs.append(H('BasicSplinesModel/linear/' + s, linear, a))
                        if b == 0:
                            hs.append(H('BasicSplinesModel/unity/' + s, unity, a))
                    if n > 0:
                        for i in range(1, nk - 1):
                            hs.append(H('BasicSplinesModel/continuous/%d-%d.%d-b%d-%d' % (n, nk, f, b, i), contin, ('BasicSplinesModel', nk, n, i, kn, kw)))
                        if b == 1:
                            hs.append(H('BasicSplinesModel/periodic/%d-%d.%d' % (n, nk, f), contin, ('BasicSplinesModel', nk, n, -1, kn, kw)))
    return hs
