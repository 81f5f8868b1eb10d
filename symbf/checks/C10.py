"""C10  the gradient of the log likelihood."""
from ..harness import H
from ..abstract import leafclass
from .C09 import Case, XY, NH, SCALED, PAIRS, ACCXY, cell, hyperpars, distribution

BOUNDS = ('every error distribution on arbitrary (uninterpreted) models of 2 parameters and 1-2 data points with symbolic values, weights, accuracies and hyperparameters; '
          'every ordered selection of parameters and hyperparameters; classic, cyclic, multiple-output and errors-in-xy problems; all gradient routes')
ASSUMPTIONS = ['scales, powers, accuracies and weights are positive, the mixing fraction lies between 0 and 1',
               'points where the likelihood has a kink or jump (zero residuals of Laplace and Exponential, |residual| = scale of Uniform) are excluded',
               'selections list parameters first, in increasing order, then hyperparameters',
               'except for Gauss, accuracies replace the scale, which is then not selected',
               'residuals of a mixture are limited so that its likelihood does not underflow (by design the gradient is zero there)']


def subsets(np, nh):
    """selections: all, one parameter, none but hyperparameters, ..."""
    par = [list(range(np)), [0], [1], [np - 1]]
    hyp = [list(range(-nh, 0))] + [[k] for k in range(-nh, 0)] + [[]]
    out = []
    for p in par + [[]]:
        for h in hyp:
            s = p + h
            if s and s not in out:
                out.append(s)
    return out


def grads(ctx, ed, prb, allpars, npar, alt=True, every=True, noscale=False):
    """all gradient routes against the derivative of the log likelihood.  npar: number of (free) plain parameters"""
    nh = ed.nphypar
    n = len(allpars)
    _, J = ctx.jac(lambda z: [ed.logLhood(prb, z)], allpars)
    J = J[0]
    sels = [s for s in subsets(npar, nh) if not noscale or -nh not in s]
    if not every:
        sels = sels[:1] + sels[-2:]
    for s in sels:
        fi = ctx.np.array(s)
        want = ctx.arr([J[k] for k in s])
        tag = ' of %s' % ','.join(str(k) for k in s)
        ctx.eq(ed.partialLogL(prb, allpars, fi), want, 'partialLogL' + tag)
        if alt:
            ctx.eq(ed.partialLogL_alt(prb, allpars, fi), want, 'alternative route' + tag)
        got = [p for p in ed.nextPartialData(prb, allpars, fi)]
        ctx.check(len(got) == len(s), 'number of partials' + tag)
        for g, w in zip(got, want):
            ctx.eq(sum(g), w, 'nextPartialData' + tag)
        mock = prb.result(allpars[:prb.npars])
        got = [sum(p) for p in ed.nextPartialData(prb, allpars, fi, mockdata=mock)]
        ctx.eq(ctx.arr(got), want, 'nextPartialData from mock data' + tag)


def apart(ctx, c, dist, s=None):
    """away from kinks and jumps"""
    for i, r in enumerate(c.res):
        if dist in ('Laplace', 'Exponential'):
            ctx.assume(ctx.np.abs(r) > 0.05)
        if dist == 'Uniform':
            ctx.assume(ctx.np.abs(r) < (s if c.al is None else c.al[i]) - 0.05)


def scaled(ctx, dist, kind, wgt, acc, n):
    c = Case(ctx, kind, wgt, acc, n, dist)
    hyp = hyperpars(ctx, dist)
    apart(ctx, c, dist, hyp[0])
    ed = distribution(ctx, dist)
    allpars = ctx.np.append(c.p, ctx.arr(hyp))
    grads(ctx, ed, c.problem, allpars, 2, noscale=acc is not None and dist != 'Gauss')
    ctx.eq(allpars[:2], c.p, 'parameters untouched')


def counts(ctx, n):
    c = Case(ctx, 'classic', False, None, n, 'Poisson')
    for i in range(n):
        ctx.assume(c.f[i] > 0.05)
    grads(ctx, distribution(ctx, 'Poisson'), c.problem, c.p, 2)


def classes(ctx, n, ndout):
    P = ctx.pkg
    p, x = ctx.reals('p', 2), ctx.reals('x', n)
    y = ctx.np.array([ctx.integer('n%d' % i, 0, max(1, ndout - 1)) for i in range(n)])
    m = leafclass(ctx)('f', 2, ndout=ndout)
    for i in range(n):
        for o in range(ndout):
            f = ctx.fn('f' + ('' if ndout == 1 else '.%d' % o), 3)(x[i], p[0], p[1])
            ctx.assume(f > 0.05)
            if ndout == 1:
                ctx.assume(f < 0.95)
    prb = P.ClassicProblem(model=m, xdata=x, ydata=y)
    ed = distribution(ctx, 'Bernoulli')
    _, J = ctx.jac(lambda z: [ed.logLhood(prb, z)], p)
    for s in ([0, 1], [0], [1]):
        want = ctx.arr([J[0][k] for k in s])
        fi = ctx.np.array(s)
        tag = ' of %s' % ','.join(str(k) for k in s)
        ctx.eq(ed.partialLogL(prb, p, fi), want, 'partialLogL' + tag)
        ctx.eq(ed.partialLogL_alt(prb, p, fi), want, 'alternative route' + tag)


def mixed(ctx, d1, d2, n, wgt):
    c = Case(ctx, 'classic', wgt, None, n)
    h1, h2 = hyperpars(ctx, d1, '1'), hyperpars(ctx, d2, '2')
    f = ctx.real('fraction', 0.1, 0.9)
    for d, h in ((d1, h1), (d2, h2)):
        apart(ctx, c, d, h[0])
    for r in c.res:
        ctx.assume(ctx.np.abs(r) < 3)
    ed = ctx.pkg.MixedErrorDistribution(distribution(ctx, d1), distribution(ctx, d2))
    allpars = ctx.np.append(c.p, ctx.arr(h1 + h2 + [f]))
    one, two = distribution(ctx, d1), distribution(ctx, d2)
    e1 = ctx.np.exp(one.logLdata(c.problem, ctx.np.append(c.p, ctx.arr(h1))))
    e2 = ctx.np.exp(two.logLdata(c.problem, ctx.np.append(c.p, ctx.arr(h2))))
    for i in range(n):
        ctx.assume(f * e1[i] + (1 - f) * e2[i] > 1e-6)
    grads(ctx, ed, c.problem, allpars, 2, alt=False, every=n == 1)


def countmix(ctx, d1, d2):
    """mixtures with the Poisson distribution, which has no hyperparameters"""
    P = ctx.pkg
    p, x = ctx.reals('p', 2), ctx.reals('x', 1)
    prb = P.ClassicProblem(model=leafclass(ctx)('f', 2), xdata=x, ydata=ctx.np.array([2.0]))
    h1, h2 = hyperpars(ctx, d1, '1'), hyperpars(ctx, d2, '2')
    f = prb.result(p)[0]
    ctx.assume(f > 0.05)
    ctx.assume(f < 1.9)
    ed = P.MixedErrorDistribution(distribution(ctx, d1), distribution(ctx, d2))
    fr = ctx.real('fraction', 0.1, 0.9)
    e1 = ctx.np.exp(distribution(ctx, d1).logLdata(prb, ctx.np.append(p, ctx.arr(h1))))
    e2 = ctx.np.exp(distribution(ctx, d2).logLdata(prb, ctx.np.append(p, ctx.arr(h2))))
    ctx.assume(fr * e1[0] + (1 - fr) * e2[0] > 1e-6)
    grads(ctx, ed, prb, ctx.np.append(p, ctx.arr(h1 + h2 + [fr])), 2, alt=False, every=True)


def plane(ctx, wgt, acc, n):
    c = XY(ctx, wgt, acc, n)
    s = ctx.real('s', 0.3, 3)
    ed = distribution(ctx, 'Gauss2d')
    allpars = ctx.np.append(c.p, ctx.arr([s]))
    _, J = ctx.jac(lambda z: [ed.logLhood(c.problem, z)], allpars)
    J = J[0]
    npar = len(c.p)
    for sel in ([0, 1] + list(range(2, npar)) + [-1], [0], [npar - 1, -1], [-1], [1, 2]):
        fi = ctx.np.array(sel)
        want = ctx.arr([J[k] for k in sel])
        tag = ' of %s' % ','.join(str(k) for k in sel)
        ctx.eq(ed.partialLogL(c.problem, allpars, fi), want, 'partialLogL' + tag)
        ctx.eq(ed.partialLogL_alt(c.problem, allpars, fi), want, 'alternative route' + tag)


def numeric(ctx, dist):
    """the numerical gradient restores the parameters and is the symmetric difference"""
    c = Case(ctx, 'classic', False, None, 2)
    s = ctx.real('s', 0.5, 3)
    ed = distribution(ctx, dist)
    ed.deltaP = 0.001
    allpars = ctx.np.append(c.p, ctx.arr([s]))
    for r in c.res:
        ctx.assume(ctx.np.abs(r) > 0.05)
    keep = allpars.copy()
    for sel in ([0, 1, -1], [1], [0, -1]):
        got = ed.numPartialLogL(c.problem, allpars, ctx.np.array(sel))
        ctx.check(len(got) == len(sel), 'number of elements')
        ctx.eq(allpars, keep, 'parameters restored')
        for i, k in enumerate(sel):
            hi, lo = keep.copy(), keep.copy()
            hi[k] = keep[k] + 0.001
            lo[k] = keep[k] - 0.001
            ctx.eq(got[i] * 0.002, ed.logLhood(c.problem, hi) - ed.logLhood(c.problem, lo), 'symmetric difference')


CASES = [('classic', w, a) for w in (0, 1) for a in (None, 'one', 'each')] + [('cyclic', 0, None), ('multi', 0, None), ('multi', 1, None), ('multi', 2, 'each'), ('multi', 0, 'one')]


def harnesses(tier):
    hs = []
    for d in SCALED:
        for k, w, a in CASES:
            if k == 'cyclic' and d == 'Uniform':
                continue
            n = 1 if k == 'multi' else 2
            hs.append(H('gradient/%s/%s/w%s-%s' % (d, k, w, a), scaled, (d, k, w, a, n)))
    for n in (1, 2):
        hs.append(H('gradient/Poisson/%d' % n, counts, (n,)))
        for o in (1, 3):
            hs.append(H('gradient/Bernoulli/%d/%d' % (o, n), classes, (n, o)))
    for a, b in PAIRS:
        for w in (False, True):
            hs.append(H('gradient/mixed/%s-%s/%s' % (a, b, w), mixed, (a, b, 1, w)))
        hs.append(H('gradient/mixed2/%s-%s' % (a, b), mixed, (a, b, 2, False), thorough=True))
    for a, b in (('Gauss', 'Poisson'), ('Poisson', 'Gauss'), ('Laplace', 'Poisson'), ('Poisson', 'Laplace'), ('Poisson', 'Poisson')):
        hs.append(H('gradient/mixed/%s-%s' % (a, b), countmix, (a, b)))
    for w in (False, True):
        for a in ACCXY:
            for n in (1, 2):
                hs.append(H('gradient/errors-in-xy/%s/%s/%d' % (a, 'w' if w else '-', n), plane, (w, a, n), thorough=n == 2 and a not in (None, 'each3')))
    for d in ('Gauss', 'Cauchy', 'Laplace'):
        hs.append(H('numeric/%s' % d, numeric, (d,)))
    return hs
