"""C24  convolution kernels: symmetry, centre value, range, squared route, area, half width, derivative."""
from fractions import Fraction
from ..harness import H

BOUNDS = 'every kernel class (Tophat with 0 to 6 convolutions); all real x'
ASSUMPTIONS = ['areas of Gauss, Lorentz, Cosine, CosSquare are decided through an antiderivative whose derivative is checked; the improper area '
               'of Sinc and Huber and the half width of Sinc are outside the claim', 'half widths are stated with 7 or 8 digits: accepted within 1e-6']

NAMES = [('Biweight', {}), ('CosSquare', {}), ('Cosine', {}), ('Gauss', {}), ('Huber', {}), ('Lorentz', {}), ('Parabola', {}), ('Sinc', {}),
         ('Triangle', {}), ('Tricube', {}), ('Triweight', {}), ('Uniform', {})] + [('Tophat', dict(nconv=k)) for k in range(7)]
POLY = {'Biweight': [0, 1], 'Parabola': [0, 1], 'Triangle': [0, 1], 'Tricube': [0, 1], 'Triweight': [0, 1], 'Uniform': [0, 1],
        'Tophat0': [0, .5], 'Tophat1': [0, 1], 'Tophat2': [0, .5, 1.5], 'Tophat3': [0, 1, 2], 'Tophat4': [0, .5, 1.5, 2.5],
        'Tophat5': [0, 1, 2, 3], 'Tophat6': [0, .5, 1.5, 2.5, 3.5]}


def ker(ctx, name, kw):
    return getattr(ctx.pkg, name)(**kw)


def shape(ctx, name, kw):
    k = ker(ctx, name, kw)
    x = ctx.reals('x', 1)
    r = k.result(x)
    ctx.eq(k.result(-x), r, 'even')
    ctx.eq(k.result(ctx.arr([0.0])), ctx.arr([1.0]), 'one at the centre')
    if name not in ('Sinc',):
        ctx.le(0, r, 'not negative')
    ctx.le(r, 1, 'largest at the centre')
    ctx.eq(k.partial(-x), -k.partial(x), 'derivative is odd')


def zero(ctx, name, kw):
    """outside the range (of bounded kernels)"""
    k = ker(ctx, name, kw)
    if not k.isBound():
        ctx.check(float(k.range) == ctx.inf, 'an unbound kernel has an infinite range')
        return
    x = ctx.reals('x', 1)
    ctx.assume(abs(x[0]) > k.range)
    ctx.eq(k.result(x), ctx.arr([0.0]), 'zero outside the range')
    ctx.eq(k.partial(x), ctx.arr([0.0]), 'derivative zero outside the range')


def inside(ctx, name, kw):
    k = ker(ctx, name, kw)
    if not k.isBound():
        ctx.check(True, 'unbound')
        return
    x = ctx.reals('x', 1)
    ctx.assume(abs(x[0]) < k.range)
    ctx.lt(0, k.result(x), 'positive inside the range')


def square(ctx, name, kw):
    k = ker(ctx, name, kw)
    x = ctx.arr([ctx.real('x', lo=0)])
    r2 = k.resultsq(x * x)
    ctx.eq(r2, k.result(x), 'from the squared distance')
    ctx.eq(r2, k.result(-x), 'from the squared distance, left side')
    ctx.eq(k.resultsq(ctx.arr([0.0])), ctx.arr([1.0]), 'one at the centre')


def deriv(ctx, name, kw):
    k = ker(ctx, name, kw)
    x = ctx.reals('x', 2)
    r, J = ctx.jac(lambda q: k.result(q), x)
    p = k.partial(x)
    ctx.shape(p, (2,))
    ctx.eq(p, ctx.arr([J[0, 0], J[1, 1]]), 'partial')


def half(ctx, name, kw):
    k = ker(ctx, name, kw)
    h = k.result(ctx.arr([k.fwhm / 2]))
    ctx.le(abs(h[0] - 0.5), 1e-6, 'half height')


def area(ctx, name, kw):
    k = ker(ctx, name, kw)
    key = name + (str(kw['nconv']) if kw else '')
    m, sp = ctx.math, ctx.special
    x = ctx.real('x', lo=0)
    if key in POLY:
        tot = 0
        b = POLY[key]
        for lo, hi in zip(b[:-1], b[1:]):
            tot = tot + ctx.integrate(lambda t: k.result(ctx.arr([t]))[0], lo, hi, 'x%g' % lo)
        ctx.eq(2 * tot, k.integral, 'area')
        return
    if name == 'Cosine':
        F, hi = (lambda t: 2 / m.pi * m.sin(m.pi / 2 * t)), 1.0
    elif name == 'CosSquare':
        F, hi = (lambda t: t / 2 + m.sin(m.pi / 2 * t) * m.cos(m.pi / 2 * t) / m.pi), 1.0
    elif name == 'Lorentz':
        F, hi = m.atan, None
    elif name == 'Gauss':
        F, hi = (lambda t: m.sqrt(m.pi / 2) * sp.erf(t / m.sqrt(2))), None
    else:
        ctx.check(True, 'no claim')
        return
    if hi:
        ctx.assume(x < hi)
    v, J = ctx.jac(lambda q: ctx.arr([F(q[0])]), ctx.arr([x]))
    ctx.eq(J[0, 0], k.result(ctx.arr([x]))[0], 'antiderivative')
    top = F(ctx.const(hi)) if hi else {'Lorentz': m.pi / 2, 'Gauss': m.sqrt(m.pi / 2)}[name]
    ctx.eq(2 * top - 2 * F(ctx.const(0)), k.integral, 'area')


def harnesses(tier):
    hs = []
    for n, kw in NAMES:
        key = n + (str(kw['nconv']) if kw else '')
        for f in (shape, zero, inside, square, half, area):
            if n == 'Sinc' and f in (half, area):
                continue
            hs.append(H('%s/%s' % (f.__name__, key), f, (n, kw), trig=n in ('Cosine', 'CosSquare', 'Sinc')))
        hs.append(H('deriv/' + key, deriv, (n, kw), generic=True))
    return hs
