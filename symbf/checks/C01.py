"""C01  partial() is the gradient of result() to the parameters, for the built-in models."""
from ..harness import H
from ..models import SPECS
from .. import numeric

BOUNDS = ('2 symbolic data points (1 for 2-d kernels), every parameter a symbolic real in the model domain; degrees <= 4, spline orders 1-3 '
          'with 2-4 symbolic knots, 2 and 3 factor products, 3-fold combinations; numeric partials, user and astropy models: functions of 1-2 inputs and outputs that are '
          'quadratic in each of 2-3 parameters (between -3 and 3), alone, with a parameter fixed, copied and in compounds')
ASSUMPTIONS = ['derivatives are compared on the interior of each smooth piece of piecewise models',
               'kernel and spline boundaries (measure zero) are excluded']


def xdata(ctx, s):
    return ctx.reals('x', s.n, **s.xdom) if s.ndim == 1 else ctx.mat('x', s.n, s.ndim, **s.xdom)


def params(ctx, s):
    return ctx.arr([ctx.real('p%d' % i, **s.pdom.get(i, {})) for i in range(s.npar)])


def full(ctx, s):
    m = s.make(ctx)
    x = xdata(ctx, s)
    p = params(ctx, s)
    res, J = ctx.jac(lambda q: m.result(x, q), p)
    part = m.partial(x, p.copy())
    ctx.shape(part, (s.n, s.npar), 'partial shape')
    ctx.check(m.npars == s.npar, 'number of parameters')
    ctx.eq(part, J, 'partial')


def routes(ctx, kind, npar, ndim, ndout, how):
    """numeric partials are exact for functions quadratic in each parameter; user and astropy models pass their own"""
    c = numeric.Case(ctx, kind, npar, ndim, ndout, how)
    m, p, x = c.m, c.p, c.x
    ctx.check(m.npchain == c.np, 'number of parameters')
    want = c.wantpartial(ctx)
    for tag, f in (('partial', m.partial), ('numPartial', m.numPartial), ('strictNumericPartial', m.strictNumericPartial))[:2 if how == 'pipe' else 3]:
        g = f(x, p.copy())
        if ndout == 1:
            g = [g]
        ctx.check(len(g) == ndout, tag + ' for each output')
        for o in range(ndout):
            ctx.shape(g[o], (c.n, c.np), tag + ' shape')
            ctx.eq(g[o], want[o], tag)
    r = m.result(x, p)
    ctx.eq(r, ctx.arr([c.ref(row, p, 0) for row in numeric.rows(x, ndim)] if ndout == 1 else
                      [[c.ref(row, p, o) for o in range(ndout)] for row in numeric.rows(x, ndim)]), 'result')


def harnesses(tier):
    hs = [H('numeric/' + numeric.name(c), routes, c) for c in numeric.CASES]
    for s in SPECS:
        hs.append(H('partial/' + s.name, full, (s,), paths=s.paths, tmax=s.tmax, weight=s.weight, generic=True))
    return hs
