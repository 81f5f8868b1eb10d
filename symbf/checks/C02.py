"""C02  derivative() is the derivative of result() to the independent variable."""
from ..harness import H
from ..models import SPECS
from .. import numeric
from .C01 import xdata, params

BOUNDS = ('2 symbolic data points (1 for 2-d kernels), every parameter a symbolic real in the model domain; degrees <= 4, spline orders 1-3 '
          'with 2-4 symbolic knots, 3-fold combinations; numeric derivatives, user and astropy models: functions of 1-2 inputs and outputs that are '
          'quadratic in each input, alone, with a parameter fixed, copied and in compounds')
ASSUMPTIONS = ['derivatives are compared on the interior of each smooth piece of piecewise models']


def deriv(ctx, s):
    m = s.make(ctx)
    x = xdata(ctx, s)
    p = params(ctx, s)
    n, d = s.n, s.ndim
    flat = x.reshape(-1)
    res, J = ctx.jac(lambda q: m.result(q.reshape(n, d) if d > 1 else q, p), flat)
    df = m.derivative(x, p)
    ctx.shape(df, (n,) if d == 1 else (n, d), 'derivative shape')
    if d == 1:
        ctx.eq(df, ctx.arr([J[i, i] for i in range(n)]), 'derivative')
    else:
        ctx.eq(df, ctx.arr([[J[i, i * d + j] for j in range(d)] for i in range(n)]), 'derivative')


def routes(ctx, kind, npar, ndim, ndout, how):
    """numeric derivatives are exact for functions quadratic in each input"""
    c = numeric.Case(ctx, kind, npar, ndim, ndout, how)
    m, p, x = c.m, c.p, c.x
    want = c.wantderivative(ctx)
    fs = [('derivative', m.derivative), ('numDerivative', m.numDerivative)]
    if how not in ('product', 'pipe'):
        fs.append(('strictNumericDerivative', m.strictNumericDerivative))
    x0 = x.copy()
    for tag, f in fs:
        g = f(x, p)
        if ndim == 1:
            ctx.shape(g, (c.n,) if ndout == 1 else (c.n, ndout), tag + ' shape')
            for o in range(ndout):
                ctx.eq(g if ndout == 1 else g[:, o], want[o][:, 0], tag)
            continue
        g = [g] if ndout == 1 else g
        ctx.check(len(g) == ndout, tag + ' for each output')
        for o in range(ndout):
            ctx.shape(g[o], (c.n, ndim), tag + ' shape')
            ctx.eq(g[o], want[o], tag)
    ctx.eq(x, x0, 'input untouched')


def harnesses(tier):
    return [H('numeric/' + numeric.name(c), routes, c) for c in numeric.CASES] + [H('derivative/' + s.name, deriv, (s,), paths=s.paths, tmax=s.tmax, weight=s.weight, generic=True) for s in SPECS if s.deriv]
