"""C08  priors: densities.   The configurations are those of C07."""
import math
from ..harness import H
from .C07 import BOUNDS, ASSUMPTIONS, CONFIGS, build, circular  # noqa: F401


def density(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    al = U.alpha('y', lo, hi)
    y = U.at(al)
    _, J = ctx.jac(lambda z: [pr.domain2Unit(U.at(z[0]))], [al])
    d = J[0][0] * 3 if circular(how) else J[0][0]
    f = pr.result(y)
    ctx.eq(f * U.unit(), d, 'density is the derivative of the map')
    ctx.le(0, f, 'density not negative')
    ctx.eq(pr.partialDomain2Unit(y), f, 'partialDomain2Unit')
    _, K = ctx.jac(lambda z: [pr.logResult(U.at(z[0]))], [al])
    ctx.eq(pr.partialLog(y) * U.unit(), K[0][0], 'partial of the log')


def logdensity(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    y = U.inside('y', lo, hi)
    f = pr.result(y)
    ctx.eq(ctx.np.exp(pr.logResult(y)), f, 'log of the density')


def arrays(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    y, z = U.at(ctx.real('y', -4, 5)), U.at(ctx.real('z', -4, 5))
    if kind == 'Jeffreys':
        ctx.assume(y > 0)
        ctx.assume(z > 0)
    a = ctx.arr([y, z])
    ctx.eq(pr.result(a), ctx.arr([pr.result(y), pr.result(z)]), 'density of an array')


def outside(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    if lo is not None:
        y = U.at(ctx.real('y', -8, 3))
        ctx.assume(y < lo)
        ctx.eq(pr.result(y), 0, 'density below the low limit')
        ctx.check(logzero(pr.logResult(y)), 'log density below the low limit')
        ctx.check(bool(pr.isOutOfLimits(y)), 'out of limits, low')
    if hi is not None:
        z = U.at(ctx.real('z', -1, 8))
        ctx.assume(z > hi)
        ctx.eq(pr.result(z), 0, 'density above the high limit')
        ctx.check(logzero(pr.logResult(z)), 'log density above the high limit')
        ctx.check(bool(pr.isOutOfLimits(z)), 'out of limits, high')
    t = U.inside('t1', lo, hi)
    ctx.check(not bool(pr.isOutOfLimits(t)), 'within limits')
    ctx.eq(pr.stayInLimits(t), t, 'stays where it is')


def logzero(v):
    try:
        v = float(v)
    except Exception:
        return False
    return math.isinf(v) and v < 0


def improper(ctx, kind):
    pr = getattr(ctx.pkg, kind + 'Prior')()
    y = ctx.real('y', 1, 3)
    ctx.raises(AttributeError, lambda: pr.result(y), 'no density without limits')
    ctx.check(not pr.isBound(), 'improper')
    a = ctx.real('a', 1, 2)
    pr = getattr(ctx.pkg, kind + 'Prior')(limits=[a, None])
    ctx.raises(AttributeError, lambda: pr.result(y), 'no density with one limit only')


def harnesses(tier):
    hs = []
    for k, h in CONFIGS:
        n = '%s/%s' % (k, h)
        kw = dict(paths=3000, tmax=240, generic=True, whole=k in ('Laplace', 'Exponential', 'Jeffreys'))
        hs.append(H('density/' + n, density, (k, h), **kw))
        hs.append(H('log/' + n, logdensity, (k, h), **kw))
        hs.append(H('array/' + n, arrays, (k, h), **kw))
        hs.append(H('outside/' + n, outside, (k, h), **kw))
    for k in ('Uniform', 'Jeffreys'):
        hs.append(H('improper/' + k, improper, (k,)))
    return hs
