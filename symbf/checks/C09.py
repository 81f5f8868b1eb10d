"""C09  log likelihoods follow their stated distribution.   C10 shares the configurations."""
import math
from ..harness import H
from ..abstract import leafclass

BOUNDS = ('every error distribution on arbitrary (uninterpreted) models of 2 parameters and 2-3 data points with symbolic values, weights, accuracies (none, one, per point) and '
          'hyperparameters; classic, cyclic, multiple-output and errors-in-xy problems; through logLikelihood, logLdata (with and without mock data), logLikelihood_alt, '
          'updateLogL and a constrained likelihood')
ASSUMPTIONS = ['scales, powers, accuracies and weights are positive, the mixing fraction lies between 0 and 1',
               'weights are not claimed for distributions that silently ignore them, nor for mixtures; expected counts and probabilities are positive',
               'log gamma and the logarithm of the factorial are taken from the library']

SCALED = ('Gauss', 'Laplace', 'Cauchy', 'Uniform', 'Exponential')
NH = dict(Gauss=1, Laplace=1, Cauchy=1, Uniform=1, Exponential=2, Poisson=0, Bernoulli=0, Gauss2d=1)



def cell(ctx, name, x, p):
    return ctx.fn(name, 3)(x, p[0], p[1])


class Case(object):
    """a problem with everything that goes in"""

    def __init__(self, ctx, kind='classic', wgt=False, acc=None, n=2, dist='Gauss'):
        P = ctx.pkg
        self.ctx, self.kind, self.n = ctx, kind, n
        L = leafclass(ctx)
        self.p = ctx.reals('p', 2)
        self.x = ctx.reals('x', n)
        kw = {}
        self.np = 2
        if kind == 'multi':
            m = L('f', 2, ndout=2)
            self.y = ctx.mat('y', n, 2)
            self.w = ctx.reals('w', n, 0.1, 3) if wgt == 1 else ctx.mat('w', n, 2, 0.1, 3) if wgt == 2 else None
            self.a = ctx.reals('a', n, 0.3, 3) if acc == 'each' else ctx.real('a', 0.3, 3) if acc == 'one' else None
            prb = P.MultipleOutputProblem(model=m, xdata=self.x, ydata=self.y, weights=self.w, accuracy=self.a)
            self.f = [[ctx.fn('f.%d' % o, 3)(self.x[i], self.p[0], self.p[1]) for o in range(2)] for i in range(n)]
            self.res = [self.y[i, o] - self.f[i][o] for i in range(n) for o in range(2)]
            self.wl = None if self.w is None else [self.w[i] if wgt == 1 else self.w[i, o] for i in range(n) for o in range(2)]
            self.al = None if self.a is None else [self.a[i] if acc == 'each' else self.a for i in range(n) for o in range(2)]
        else:
            m = L('f', 2)
            if kind == 'cyclic':
                self.period = ctx.real('period', 1, 5)
                ctx.pkg.module('Tools').setAttribute(m, 'cyclic', self.period)
            self.y = self.ydata(ctx, dist, n)
            self.w = ctx.reals('w', n, 0.1, 3) if wgt else None
            self.a = ctx.reals('a', n, 0.3, 3) if acc == 'each' else ctx.real('a', 0.3, 3) if acc == 'one' else None
            self.al = None if acc is None else [self.a[i] if acc == 'each' else self.a for i in range(n)]
            self.wl = None if self.w is None else list(self.w)
            prb = P.ClassicProblem(model=m, xdata=self.x, ydata=self.y, weights=self.w, accuracy=self.a)
            self.f = [cell(ctx, 'f', self.x[i], self.p) for i in range(n)]
            self.res = [self.y[i] - self.f[i] for i in range(n)]
            if kind == 'cyclic':
                h = self.period / 2
                for i in range(n):
                    ctx.assume(self.res[i] < 3 * h)
                    ctx.assume(self.res[i] > -3 * h)
                    if self.res[i] > h:
                        self.res[i] = self.res[i] - self.period
                    elif self.res[i] < -h:
                        self.res[i] = self.res[i] + self.period
        self.model, self.problem = m, prb
        self.nd = len(self.res)

    def ydata(self, ctx, dist, n):
        if dist == 'Poisson':
            return ctx.np.array([ctx.integer('n%d' % i, 0, 3) for i in range(n)])
        if dist == 'Bernoulli':
            return ctx.np.array([ctx.integer('n%d' % i, 0, 1) for i in range(n)])
        return ctx.reals('y', n)


def hyperpars(ctx, dist, tag=''):
    if dist == 'Exponential':
        return [ctx.real('s' + tag, 0.3, 3), ctx.real('q' + tag, 0.6, 3)]
    return [ctx.real('s' + tag, 0.3, 3)] * (NH[dist] > 0)


def logdens(ctx, dist, r, hyp, a):
    """the documented log density of one residual"""
    log, ab = ctx.np.log, ctx.np.abs
    if dist in ('Gauss', 'Mixed'):
        s2 = hyp[0] * hyp[0] + (0 if a is None else a * a)
        return -0.5 * (ctx.math.log(2 * ctx.math.pi) + log(s2)) - r * r / (2 * s2)
    s = hyp[0] if a is None else a
    if dist == 'Laplace':
        return -log(2 * s) - ab(r) / s
    if dist == 'Cauchy':
        return log(s / (ctx.math.pi * (s * s + r * r)))
    if dist == 'Uniform':
        return -log(2 * s) if ab(r) < s else -ctx.inf
    if dist == 'Exponential':
        p = hyp[1]
        return log(p / (2 * s)) - ctx.special.gammaln(1 / p) - ctx.np.exp(p * log(ab(r) / s))
    raise AssertionError(dist)


def distribution(ctx, dist):
    return getattr(ctx.pkg, dist + 'ErrorDistribution')()


def isinf(v):
    try:
        return float(v) == -math.inf
    except Exception:
        return False


def total(ctx, terms):
    t = 0
    for x in terms:
        if isinf(x):
            return -ctx.inf
        t = t + x
    return t


def eqinf(ctx, a, b, label):
    if isinf(b):
        ctx.check(isinf(a), label + ' is zero likelihood')
    else:
        ctx.eq(a, b, label)


def routes(ctx, ed, c, allpars, want, alt=True):
    """the log likelihood by every route"""
    prb = c.problem
    lld = ed.logLdata(prb, allpars)
    ctx.check(len(lld) == len(want), 'number of contributions')
    for i in range(len(want)):
        eqinf(ctx, lld[i], want[i], 'contribution')
    t = total(ctx, want)
    eqinf(ctx, ed.logLikelihood(prb, allpars), t, 'logLikelihood')
    eqinf(ctx, ed.updateLogL(prb, allpars, parval={0: allpars[0]}), t, 'updateLogL')
    eqinf(ctx, ed.logLhood(prb, allpars), t, 'logLhood')
    if alt:
        eqinf(ctx, ed.logLikelihood_alt(prb, allpars), t, 'alternative route')
    mock = prb.result(allpars[:prb.npars])
    lld = ed.logLdata(prb, allpars, mockdata=mock)
    for i in range(len(want)):
        eqinf(ctx, lld[i], want[i], 'contribution from mock data')
    for i in range(prb.npars):
        ctx.eq(allpars[i], c.p[i], 'parameters untouched')


def scaled(ctx, dist, kind, wgt, acc, n):
    c = Case(ctx, kind, wgt, acc, n, dist)
    hyp = hyperpars(ctx, dist)
    ed = distribution(ctx, dist)
    allpars = ctx.np.append(c.p, ctx.arr(hyp))
    if dist == 'Exponential':
        for r in c.res:
            ctx.assume(ctx.np.abs(r) > 0)
    want = []
    for i in range(c.nd):
        v = logdens(ctx, dist, c.res[i], hyp, None if c.al is None else c.al[i])
        if c.wl is not None and not (dist == 'Cauchy') and not isinf(v):
            v = v * c.wl[i]
        want.append(v)
    routes(ctx, ed, c, allpars, want)


def counts(ctx, n, positive):
    c = Case(ctx, 'classic', False, None, n, 'Poisson')
    ed = distribution(ctx, 'Poisson')
    want = []
    fact = ctx.pkg.module('LogFactorial').logFactorial
    for i in range(n):
        if positive:
            ctx.assume(c.f[i] > 0)
            want.append(c.y[i] * ctx.np.log(c.f[i]) - c.f[i] - math.log(math.factorial(int(c.y[i]))))
    if not positive:
        ctx.assume(c.f[0] < 0)
        for i in range(n):
            ctx.assume(c.y[i] > 0)
        ctx.check(isinf(ed.logLikelihood_alt(c.problem, c.p)), 'negative rate, alternative route')
        return
    routes(ctx, ed, c, c.p, want)


def classes(ctx, n, ndout):
    """Bernoulli: category data"""
    P = ctx.pkg
    L = leafclass(ctx)
    p, x = ctx.reals('p', 2), ctx.reals('x', n)
    if ndout == 1:
        y = ctx.np.array([ctx.integer('n%d' % i, 0, 1) for i in range(n)])
        m = L('f', 2)
        f = [cell(ctx, 'f', x[i], p) for i in range(n)]
        for i in range(n):
            ctx.assume(f[i] > 0)
            ctx.assume(f[i] < 1)
        want = [ctx.np.log(f[i] if y[i] == 0 else 1 - f[i]) for i in range(n)]
    else:
        y = ctx.np.array([ctx.integer('n%d' % i, 0, ndout - 1) for i in range(n)])
        m = L('f', 2, ndout=ndout)
        f = [[ctx.fn('f.%d' % o, 3)(x[i], p[0], p[1]) for o in range(ndout)] for i in range(n)]
        for i in range(n):
            for o in range(ndout):
                ctx.assume(f[i][o] > 0)
        want = [ctx.np.log(f[i][int(y[i])]) for i in range(n)]
    prb = P.ClassicProblem(model=m, xdata=x, ydata=y)

    class C(object):
        pass
    c = C()
    c.problem, c.p = prb, p
    routes(ctx, distribution(ctx, 'Bernoulli'), c, p, want)


def mixed(ctx, d1, d2, n):
    c = Case(ctx, 'classic', False, None, n)
    h1, h2 = hyperpars(ctx, d1, '1'), hyperpars(ctx, d2, '2')
    f = ctx.real('fraction', 0.1, 0.9)
    ed = ctx.pkg.MixedErrorDistribution(distribution(ctx, d1), distribution(ctx, d2))
    ctx.check(ed.nphypar == len(h1) + len(h2) + 1, 'number of hyperparameters')
    allpars = ctx.np.append(c.p, ctx.arr(h1 + h2 + [f]))
    want = []
    for r in c.res:
        if 'Exponential' in (d1, d2):
            ctx.assume(ctx.np.abs(r) > 0)
        a, b = logdens(ctx, d1, r, h1, None), logdens(ctx, d2, r, h2, None)
        la = 0 if isinf(a) else f * ctx.np.exp(a)
        lb = 0 if isinf(b) else (1 - f) * ctx.np.exp(b)
        want.append(la + lb)
    lld = ed.logLdata(c.problem, allpars)
    mld = ed.logLdata(c.problem, allpars, mockdata=c.problem.result(c.p))
    tot = 1
    for i in range(n):
        if isinstance(want[i], int) and want[i] == 0:
            ctx.check(isinf(lld[i]), 'zero likelihood')
            return
        ctx.eq(ctx.np.exp(lld[i]), want[i], 'mixture')
        ctx.eq(ctx.np.exp(mld[i]), want[i], 'mixture from mock data')
        tot = tot * want[i]
    ctx.eq(ctx.np.exp(ed.logLikelihood(c.problem, allpars)), tot, 'logLikelihood')
    for v, one in ((1.0, 1), (0.0, 0)):
        ap = ctx.np.append(c.p, ctx.arr(h1 + h2 + [v]))
        l = ed.logLdata(c.problem, ap)
        for i in range(n):
            eqinf(ctx, l[i], logdens(ctx, d1 if one else d2, c.res[i], h1 if one else h2, None), 'pure fraction %g' % v)


def countmix(ctx, d1, d2, y):
    """mixtures with the Poisson distribution, which has no hyperparameters"""
    P = ctx.pkg
    p, x, n = ctx.reals('p', 2), ctx.reals('x', len(y)), len(y)
    prb = P.ClassicProblem(model=leafclass(ctx)('f', 2), xdata=x, ydata=ctx.np.array([float(v) for v in y]))
    h1, h2 = hyperpars(ctx, d1, '1'), hyperpars(ctx, d2, '2')
    fr = ctx.real('fraction', 0.1, 0.9)
    ed = P.MixedErrorDistribution(distribution(ctx, d1), distribution(ctx, d2))
    ctx.check(ed.nphypar == len(h1) + len(h2) + 1, 'number of hyperparameters')
    allpars = ctx.np.append(p, ctx.arr(h1 + h2 + [fr]))
    keep = allpars.copy()
    dens = []
    for i in range(n):
        f = cell(ctx, 'f', x[i], p)
        ctx.assume(f > 0.05)
        ctx.assume(f < 5)
        dens.append([y[i] * ctx.np.log(f) - f - math.log(math.factorial(y[i])) if d == 'Poisson' else logdens(ctx, d, y[i] - f, h, None) for d, h in ((d1, h1), (d2, h2))])
    for mock in (None, prb.result(p)):
        lld = ed.logLdata(prb, allpars, mockdata=mock)
        ctx.check(len(lld) == n, 'number of contributions')
        for i in range(n):
            ctx.eq(ctx.np.exp(lld[i]), fr * ctx.np.exp(dens[i][0]) + (1 - fr) * ctx.np.exp(dens[i][1]), 'mixture')
    for v, one in ((1.0, 0), (0.0, 1)):
        l = ed.logLdata(prb, ctx.np.append(p, ctx.arr(h1 + h2 + [v])))
        for i in range(n):
            ctx.eq(l[i], dens[i][one], 'pure fraction %g' % v)
    ctx.eq(allpars, keep, 'parameters untouched')


def density(ctx, dist):
    """one data point: the density is the derivative of a distribution function running from 0 to 1"""
    P = ctx.pkg
    m = leafclass(ctx)('f', 2)
    x, y, p = ctx.reals('x', 1), ctx.real('y'), ctx.reals('p', 2)
    s = ctx.real('s', 0.3, 3)
    f = cell(ctx, 'f', x[0], p)
    prb = P.ClassicProblem(model=m, xdata=x, ydata=ctx.arr([y]))
    ed = distribution(ctx, dist)
    d = ctx.np.exp(ed.logLikelihood(prb, ctx.np.append(p, ctx.arr([s]))))
    sp = ctx.special

    def cdf(z):
        t = (z[0] - f) / s
        if dist == 'Gauss':
            return [0.5 * (1 + sp.erf(t / ctx.math.sqrt(2)))]
        if dist == 'Cauchy':
            return [ctx.np.arctan(t) / ctx.math.pi]
        e = 0.5 * ctx.np.exp(-ctx.np.abs(t))
        return [1 - e if t > 0 else e]
    if dist == 'Laplace':
        ctx.assume(ctx.np.abs(y - f) > 0.01)
    _, J = ctx.jac(cdf, [y])
    ctx.eq(d, J[0][0], 'density')


def plane(ctx, wgt, acc, n):
    """errors in x and y: a bivariate Gauss in (dy, dx) per point"""
    c = XY(ctx, wgt, acc, n)
    s = ctx.real('s', 0.3, 3)
    ed = distribution(ctx, 'Gauss2d')
    allpars = ctx.np.append(c.p, ctx.arr([s]))
    want = []
    for i in range(n):
        v = c.logdens(i, s)
        want.append(v if wgt is False else v * c.w[i])
    routes(ctx, ed, c, allpars, want)


class XY(object):
    def __init__(self, ctx, wgt, acc, n):
        P = ctx.pkg
        self.ctx = ctx
        m = leafclass(ctx)('f', 2)
        self.model = m
        q = ctx.reals('p', 2)
        self.q = q
        self.xd, self.y = ctx.reals('x', n), ctx.reals('y', n)
        self.t = ctx.reals('t', n)                        # the target positions
        self.p = ctx.np.append(q, self.t)
        self.w = ctx.reals('w', n, 0.1, 3) if wgt else None
        kw = {}
        zero = [0] * n
        self.vy, self.vx, self.vxy = zero, zero, zero
        if acc == 'one':
            a = ctx.real('a', 0.3, 2)
            kw['accuracy'] = a
            self.vy = self.vx = [a * a] * n
        elif acc in ('two', 'three'):
            a = ctx.reals('a', 2, 0.3, 2)
            self.vy, self.vx = [a[0] * a[0]] * n, [a[1] * a[1]] * n
            kw['accuracy'] = a
            if acc == 'three':
                r = ctx.real('rho', -0.8, 0.8)
                kw['accuracy'] = ctx.np.append(a, ctx.arr([r]))
                self.vxy = [r * a[0] * a[1]] * n
        elif acc in ('each2', 'each3'):
            a = ctx.mat('a', n, 2, 0.3, 2)
            self.vy, self.vx = [a[i, 0] * a[i, 0] for i in range(n)], [a[i, 1] * a[i, 1] for i in range(n)]
            kw['accuracy'] = a
            if acc == 'each3':
                r = ctx.reals('rho', n, -0.8, 0.8)
                kw['accuracy'] = ctx.arr([[a[i, 0], a[i, 1], r[i]] for i in range(n)])
                self.vxy = [r[i] * a[i, 0] * a[i, 1] for i in range(n)]
        elif acc in ('covar', 'covars'):
            k = 1 if acc == 'covar' else n
            a = ctx.mat('a', k, 2, 0.3, 2)
            r = ctx.reals('rho', k, -0.8, 0.8)
            vyy, vxx, vxy = [a[i, 0] * a[i, 0] for i in range(k)], [a[i, 1] * a[i, 1] for i in range(k)], [r[i] * a[i, 0] * a[i, 1] for i in range(k)]
            cv = [[[vyy[i], vxy[i]], [vxy[i], vxx[i]]] for i in range(k)]
            kw['covar'] = ctx.arr(cv[0] if acc == 'covar' else cv)
            self.vy, self.vx, self.vxy = [(v * n)[:n] for v in (vyy, vxx, vxy)]
        self.problem = P.ErrorsInXandYProblem(model=m, xdata=self.xd, ydata=self.y, weights=self.w, prior=P.UniformPrior(limits=[-9, 9]), **kw)
        self.ry = [self.y[i] - ctx.fn('f', 3)(self.t[i], q[0], q[1]) for i in range(n)]
        self.rx = [self.xd[i] - self.t[i] for i in range(n)]

    def logdens(self, i, s):
        a, b, c = self.vy[i] + s * s, self.vx[i] + s * s, self.vxy[i]
        det = a * b - c * c
        chi = (b * self.ry[i] ** 2 - 2 * c * self.ry[i] * self.rx[i] + a * self.rx[i] ** 2) / det
        return -self.ctx.math.log(2 * self.ctx.math.pi) - 0.5 * self.ctx.np.log(det) - 0.5 * chi


def constrained(ctx, dist):
    """a constraint gets the likelihood and decides"""
    c = Case(ctx, 'classic', False, None, 2)
    hyp = hyperpars(ctx, dist)
    ed = distribution(ctx, dist)
    allpars = ctx.np.append(c.p, ctx.arr(hyp))
    want = total(ctx, [logdens(ctx, dist, r, hyp, None) for r in c.res])
    seen = []
    low = ctx.real('low')
    ed.lowLhood = low
    shift = ctx.real('shift')

    def constrain(logL, problem, ap, lowLhood):
        seen.append((logL, problem, ap, lowLhood))
        return logL - shift
    ed.constrain = constrain
    v = ed.logLikelihood(c.problem, allpars)
    ctx.check(len(seen) == 1, 'constraint is called once')
    ctx.eq(seen[0][0], want, 'constraint gets the likelihood')
    ctx.check(seen[0][1] is c.problem, 'constraint gets the problem')
    ctx.eq(seen[0][2], allpars, 'constraint gets all parameters')
    ctx.eq(seen[0][3], low, 'constraint gets the limit')
    ctx.eq(v, want - shift, 'constrained likelihood')
    ed.constrain = None
    ctx.eq(ed.logLikelihood(c.problem, allpars), want, 'without constraint')


def chi(ctx, wgt, acc):
    """chi squared, scale and sigma of the error distributions"""
    c = Case(ctx, 'classic', wgt, acc, 2)
    w = c.wl or [1, 1]
    ed = distribution(ctx, 'Gauss')
    s = ctx.real('s', 0.3, 3)
    allpars = ctx.np.append(c.p, ctx.arr([s]))
    want = sum(w[i] * c.res[i] * c.res[i] for i in range(2))
    ctx.eq(ed.getChisq(c.problem, allpars), want, 'chisq')
    sc = ed.getScale(c.problem, allpars)
    ctx.eq(sc * sc * sum(w), want, 'scale')
    ctx.eq(ed.getResiduals(c.problem, allpars), ctx.arr(c.res), 'residuals')
    pe = distribution(ctx, 'Poisson')
    ctx.eq(pe.getChisq(c.problem, c.p), want, 'chisq without hyperparameters')
    ctx.eq(pe.getResiduals(c.problem, c.p), ctx.arr(c.res), 'residuals without hyperparameters')
    le = distribution(ctx, 'Laplace')
    ctx.eq(le.getScale(c.problem, allpars) * sum(w), sum(w[i] * ctx.np.abs(c.res[i]) for i in range(2)), 'Laplace scale')
    ctx.eq(ed.toSigma(s), s, 'sigma of Gauss')
    ctx.eq(le.toSigma(s) ** 2, 2 * s * s, 'sigma of Laplace')
    ctx.eq(distribution(ctx, 'Uniform').toSigma(s) ** 2, s * s / 3, 'sigma of Uniform')
    c.model.parameters = c.p
    ctx.eq(ed.getChisq(c.problem), want, 'chisq at the parameters of the model')


CASES = [(k, w, a) for k in ('classic', 'cyclic', 'multi') for w in (0, 1, 2) for a in (None, 'one', 'each')
         if not (k != 'multi' and w == 2) and not (k == 'cyclic' and (w or a == 'one'))]
PAIRS = [('Gauss', 'Gauss'), ('Gauss', 'Laplace'), ('Laplace', 'Cauchy'), ('Exponential', 'Gauss'), ('Gauss', 'Exponential'), ('Gauss', 'Uniform'), ('Uniform', 'Cauchy')]
ACCXY = (None, 'one', 'two', 'three', 'each2', 'each3', 'covar', 'covars')


def harnesses(tier):
    hs = []
    for d in SCALED:
        for k, w, a in CASES:
            if k == 'multi' and d == 'Uniform':
                pass
            n = 3 if tier == 'thorough' and k != 'multi' else 2
            hs.append(H('loglikelihood/%s/%s/w%s-%s' % (d, k, w, a), scaled, (d, k, w, a, n)))
    for n in (1, 2):
        hs.append(H('poisson/%d' % n, counts, (n, True)))
    hs.append(H('poisson/negative', counts, (2, False)))
    for n in (1, 2, 3):
        for o in (1, 3):
            hs.append(H('bernoulli/%d/%d' % (o, n), classes, (n, o), thorough=n == 3 and o == 3))
    for a, b in PAIRS:
        hs.append(H('mixed/%s-%s' % (a, b), mixed, (a, b, 1)))
        hs.append(H('mixed2/%s-%s' % (a, b), mixed, (a, b, 2), thorough=True))
    for d in ('Gauss', 'Laplace', 'Poisson'):
        for k, (a, b) in enumerate(((d, 'Poisson'), ('Poisson', d))[:1 if d == 'Poisson' else 2]):
            hs.append(H('mixed/%s-%s' % (a, b), countmix, (a, b, (2,))))
            hs.append(H('mixed2/%s-%s' % (a, b), countmix, (a, b, (0, 3)), thorough=True))
    for d in ('Gauss', 'Laplace', 'Cauchy'):
        hs.append(H('density/%s' % d, density, (d,), whole=d == 'Cauchy'))
        hs.append(H('constrained/%s' % d, constrained, (d,)))
    for w in (False, True):
        for a in ACCXY:
            hs.append(H('errors-in-xy/%s/%s' % (a, 'w' if w else '-'), plane, (w, a, 2)))
        for a in (None, 'one', 'each'):
            hs.append(H('chisq/%s/%s' % (a, 'w' if w else '-'), chi, (w, a)))
    return hs
