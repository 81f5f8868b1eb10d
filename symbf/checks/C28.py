"""C28  robust and Monte-Carlo shells apply the statistics they state."""
from ..harness import H

BOUNDS = ('2-3 data points, up to 3 robust iterations around an arbitrary fitter and 1 around the linear Fitter, every kernel, one- and two-sided, any domain, weights and accuracies; '
          'covariance matrices of 1-2 parameters and 2-3 Monte-Carlo cycles')
ASSUMPTIONS = ['the embedded fitter returns arbitrary parameters, chi-squared and a positive scale', 'the covariance is positive definite', 'weights are positive']

KERNELS = ['Biweight', 'CosSquare', 'Cosine', 'Gauss', 'Huber', 'Lorentz', 'Parabola', 'Triangle', 'Tricube', 'Triweight', 'Uniform']


def kernel(ctx, name, d):
    """weight of a deviant d"""
    M = ctx.math
    a = -d if d < 0 else d
    if name == 'Gauss':
        return M.exp(-d * d / 2)
    if name == 'Lorentz':
        return 1 / (1 + d * d)
    if name == 'Huber':
        return 1 / a if a > 1 else ctx.const(1.0)
    if a > 1:
        return ctx.const(0.0)
    if name == 'Uniform':
        return ctx.const(1.0 if a < 1 else 0.5)     # half at the edge, as it is defined
    return {'Biweight': lambda: (1 - d * d) ** 2, 'Triweight': lambda: (1 - d * d) ** 3, 'Parabola': lambda: 1 - d * d, 'Triangle': lambda: 1 - a,
            'Tricube': lambda: (1 - a ** 3) ** 3, 'Cosine': lambda: M.cos(ctx.np.pi * d / 2), 'CosSquare': lambda: M.cos(ctx.np.pi * d / 2) ** 2}[name]()


def fitter(ctx, x, model, n, acc=None):
    """a fitter that returns anything, and remembers what was asked"""
    P, np = ctx.pkg, ctx.np

    class Any(P.BaseFitter):
        def fit(self, ydata, weights=None, keep=None, accuracy=None, **kw):
            k = len(self.asked)
            self.asked.append((ydata, None if weights is None else [w for w in np.array(weights).flat], keep, accuracy, kw))
            fi, y, w = self.fitprolog(ydata, weights=weights, accuracy=accuracy, keep=keep)
            p = [ctx.real('p%d_%d' % (k, j), -2, 2) for j in range(n)]
            self.out.append(p)
            self.model.parameters = np.array(p)
            self.chisq = ctx.real('chi%d' % k, 0.01, 9)
            self.sc = ctx.real('scale%d' % k, 0.1, 3)
            return np.array(p)

        def getScale(self):
            return self.sc

        def getHessian(self, params=None, weights=None, index=None):
            ctx.check(params is None and weights is None, 'the hessian of the last fit')
            self.index = index
            return ('hessian', len(self.asked))
    f = Any(x, model)
    f.asked, f.out = [], []
    return f


def weighed(ctx, kern, n=2, steps=1, wgt=False, side=None, domain=True, acc=None, late=False, keep=False, callable_=False):
    """the weights that the embedded fitter gets"""
    P, np = ctx.pkg, ctx.np
    x = np.array([0.0, 1.0, 3.0][:n])
    m = P.PolynomialModel(1)
    f = fitter(ctx, x, m, 2)
    y = [ctx.real('d%d' % k, -5, 5) for k in range(n)]
    w = [ctx.real('w%d' % k, 0.1, 3) for k in range(n)] if wgt else None
    D = ctx.real('D', 0.5, 9) if domain else None
    K = getattr(P, kern)
    kk = K if late or not callable_ else (lambda d: K().result(d))
    kw = {}
    if not late:
        kw['kernel'] = kk
        if domain:
            kw['domain'] = D
        if side:
            kw['onesided'] = side
    tol = ctx.real('tol', 0.001, 2)
    r = P.RobustShell(f, maxIter=steps, tolerance=tol, verbose=0, **kw)
    fk = {}
    if late:
        fk = dict(kernel=K(), onesided=side)
        if domain:
            fk['domain'] = D
    ak = {}
    if acc == 'one':
        a = [ctx.real('a', 0.2, 2)] * n
        ak['accuracy'] = a[0]
    elif acc:
        a = [ctx.real('a%d' % k, 0.2, 2) for k in range(n)]
        ak['accuracy'] = np.array(a)
    else:
        a = [1] * n
    if keep:
        ak['keep'] = {1: ctx.real('kept', -1, 1)}
    ya = np.array(list(y))
    wa = np.array(list(w)) if wgt else None
    p = r.fit(ya, wa, **fk, **ak)
    ctx.eq([v for v in ya], y, 'the data are left alone')
    if wgt:
        ctx.eq([v for v in wa], w, 'the weights are left alone')
    width = D if domain else 6.0 / K().fwhm
    nf = len(f.asked)
    ctx.check(nf <= steps + 1, 'number of fits')
    for k, (yy, ww, kp, ac, extra) in enumerate(f.asked):
        ctx.eq([v for v in yy], y, 'all fits are to the data')
        ctx.check(kp == ak.get('keep') and ac is ak.get('accuracy') and not extra, 'arguments are passed on')
        if k == 0:
            if wgt:
                ctx.eq(ww, w, 'the first fit has the weights')
            else:
                ctx.check(ww is None, 'the first fit is not weighted')
            continue
        ctx.shape(np.array(ww), (n,), 'weights')
        q = f.out[k - 1]
        exp = []
        for i in range(n):
            res = y[i] - (q[0] + q[1] * x[i])
            d = res / a[i] / (ctx.real('scale%d' % (k - 1), 0.1, 3) * width)
            rw = kernel(ctx, kern, d)
            if side and side[0] == 'p':
                rw = ctx.const(1.0) if res < 0 else rw
            elif side and side[0] == 'n':
                rw = ctx.const(1.0) if res > 0 else rw
            exp.append(rw * w[i] if wgt else rw)
        ctx.eq(ww, exp, 'the kernel of the normalised residual times the original weight')
    ctx.eq([v for v in p], f.out[-1], 'the last fit is returned')
    ctx.eq([v for v in r.weights], f.asked[-1][1], 'the weights of the last fit')
    ctx.eq(r.chisq, ctx.real('chi%d' % (nf - 1), 0.01, 9), 'chi-squared of the last fit')
    ctx.check(r.hessian == ('hessian', nf), 'hessian of the last fit')
    if keep:
        ctx.check(f.index is not None and list(f.index) == [0], 'hessian of the fitted parameters')
    for k in range(nf):                             # it stops when chi-squared settles, and not before
        if k == 0:
            continue
        c0, c1 = ctx.real('chi%d' % (k - 1), 0.01, 9), ctx.real('chi%d' % k, 0.01, 9)
        t = tol if c1 < 1 else tol * c1
        if k < nf - 1:
            ctx.le(t, abs(c0 - c1), 'it goes on while chi-squared changes')
        elif nf < steps + 1:
            ctx.lt(abs(c0 - c1), t, 'it stops when chi-squared settles')


def whole(ctx, wgt=False, n=3, side=None, keep=False, acc=False):
    """around the linear fitter: one step of a robust mean, by a kernel that returns anything"""
    P, np = ctx.pkg, ctx.np
    x = np.array([0.0, 1.0, 3.0][:n])
    m = P.PolynomialModel(0) if not keep else P.PolynomialModel(1)
    y = [ctx.const(0.0), ctx.real('d', 0.5, 2.5), ctx.const(3.0)]
    w = [2.0, 1.0, 1.5] if wgt else [1] * n
    a = [0.5, 1.0, 2.0] if acc else [1] * n
    f = P.Fitter(x, m)
    asked = []
    g = [ctx.real('g%d' % k, 0.7, 1) for k in range(n)]

    def kern(d):
        asked.append([v for v in d])
        return np.array(list(g))
    width = ctx.real('D', 1, 9)
    r = P.RobustShell(f, kernel=kern, domain=width, maxIter=1, tolerance=0.0, verbose=0)
    kw = {}
    if keep:
        kw['keep'] = {1: 0.5}
    if acc:
        kw['accuracy'] = np.array(a)
    p = r.fit(np.array(y), np.array(w) if wgt else None, **kw)
    z = [y[i] - (0.5 * x[i] if keep else 0) for i in range(n)]
    W = [w[i] / (a[i] * a[i]) for i in range(n)]
    mu = sum(z[i] * W[i] for i in range(n)) / sum(W)
    chi = sum(W[i] * (z[i] - mu) ** 2 for i in range(n))
    sc = ctx.math.sqrt(chi / (sum(w) - 1))
    d = [(z[i] - mu) / a[i] / (sc * width) for i in range(n)]
    ctx.check(len(asked) == 1, 'one step')
    ctx.eq(asked[0], d, 'normalised residuals')
    rw = [g[i] * w[i] for i in range(n)]
    ctx.eq([v for v in r.weights], rw, 'robust weights')
    V = [rw[i] / (a[i] * a[i]) for i in range(n)]
    ctx.eq(p[0] * sum(V), sum(z[i] * V[i] for i in range(n)), 'the robust mean')
    if keep:
        ctx.eq(p[1], 0.5, 'the parameter that is kept')
    h = r.hessian
    ctx.shape(h, (1, 1), 'hessian of the fitted parameters')
    ctx.eq(h[0, 0], sum(V), 'hessian of the weighted fit')
    ctx.eq(f.covariance[0, 0] * sum(V), f.scale ** 2, 'covariance of the weighted fit')


def arguments(ctx):
    P, np = ctx.pkg, ctx.np
    x = np.array([0.0, 1.0])
    f = P.Fitter(x, P.PolynomialModel(0))
    ctx.raises(ValueError, lambda: P.RobustShell(f, onesided='x'), 'side')
    ctx.raises(ValueError, lambda: P.RobustShell(f, onesided=3), 'side')
    ctx.raises(ValueError, lambda: P.RobustShell(f, kernel=3), 'kernel')
    for name in KERNELS:
        K = getattr(P, name)
        ctx.eq(P.RobustShell(f, kernel=K).domain * K().fwhm, 6, 'three times the scale is at half weight')
        ctx.check(isinstance(str(P.RobustShell(f, kernel=K, onesided='neg')), str), 'name')
    r = P.RobustShell(f, maxIter=0, verbose=0)
    y = np.array([ctx.real('a', -1, 1), ctx.real('b', 2, 3)])
    p = r.fit(y)
    ctx.eq(p[0] * 2, y[0] + y[1], 'without iterations: the plain fit')
    ctx.eq(r.chisq, f.chisq, 'without iterations: the plain fit')


class Norm:
    """stand-in for the random numbers: rows of symbols, or the unit vectors"""

    def __init__(self, ctx, rows):
        self.ctx, self.rows, self.k = ctx, rows, 0

    def standard_normal(self, n):
        r = self.rows[self.k]
        self.k += 1
        self.ctx.check(n == len(r), 'one random number per fitted parameter')
        return self.ctx.np.array(r)


def cov(ctx, n, diag):
    if n == 1:
        return [[ctx.real('c', 0.1, 4)]]
    a, d = ctx.real('c0', 0.1, 4), ctx.real('c1', 0.1, 4)
    b = ctx.const(0.0)
    if not diag:
        b = ctx.real('c01', -2, 2, nonzero=True)
        ctx.assume(b * b < a * d * 0.9)
    return [[a, b], [b, d]]


def variant(ctx, n, diag=False, index=None):
    """the perturbations have the covariance that was given"""
    P, np = ctx.pkg, ctx.np
    C = cov(ctx, n, diag)
    npar = n if index is None else 3
    got = []

    class Model:
        npchain = npar
        parameters = np.array([ctx.real('p%d' % k, -2, 2) for k in range(npar)])

        def result(self, x, p):
            got.append([v for v in p])
            return np.array([p[0], p[0]])
    m = Model()
    p0 = [v for v in m.parameters]
    mc = P.MonteCarlo(np.array([0.0, 1.0]), m, np.array(C), index=index, mcycles=2)
    mc._random = Norm(ctx, [[1.0 if i == k else 0.0 for i in range(n)] for k in range(n)])
    for k in range(n):
        mc.randomVariant(np.array([0.0, 1.0]))
    ctx.eq([v for v in m.parameters], p0, 'the model keeps its parameters')
    idx = list(range(n)) if index is None else index
    for k in range(n):
        for j in range(npar):
            if j not in idx:
                ctx.eq(got[k][j], p0[j], 'parameters that are not fitted')
    L = [[got[k][j] - p0[j] for k in range(n)] for j in idx]
    for i in range(n):
        for j in range(n):
            ctx.eq(sum(L[i][k] * L[j][k] for k in range(n)), C[i][j], 'covariance of the perturbations')


def error(ctx, n, cycles, index=None, given=False, via=False):
    """the spread of the perturbed models"""
    P, np = ctx.pkg, ctx.np
    m = P.PolynomialModel(1)
    p = [ctx.real('p%d' % k, -2, 2) for k in range(2)]
    m.parameters = np.array(p)
    C = [[ctx.real('c%d' % i, 0.1, 4) if i == j else ctx.const(0.0) for j in range(n)] for i in range(n)]
    if n == 2:
        ctx.assume(C[0][0] < C[1][1])
    x = np.array([0.0, 1.0])
    xx = np.array([0.5, 2.0, 3.0])[:2]
    u = [[ctx.real('u%d_%d' % (k, j), -3, 3) for j in range(n)] for k in range(cycles)]
    mc = P.MonteCarlo(x, m, np.array(C), index=index, mcycles=cycles)
    mc._random = Norm(ctx, u)
    if via:
        f = P.Fitter(x, m)
        e = f.monteCarloError(xx if given else None, monteCarlo=mc)
    else:
        e = mc.getError(xx if given else None)
    at = xx if given else x
    ctx.shape(e, (len(at),), 'error')
    ctx.check(mc._random.k == cycles, 'number of cycles')
    idx = list(range(n)) if index is None else index
    for i in range(len(at)):
        f = []
        for k in range(cycles):
            q = list(p)
            for j in range(n):
                q[idx[j]] = q[idx[j]] + ctx.math.sqrt(C[j][j]) * u[k][j]
            f.append(q[0] + q[1] * at[i])
        mu = sum(f) / cycles
        ctx.eq(e[i] ** 2, sum((v - mu) ** 2 for v in f) / cycles, 'the spread of the models')
        ctx.le(0, e[i], 'not negative')


def confidence(ctx, keep=False):
    """the error of a fit comes from its covariance matrix and its fitted parameters"""
    P, np = ctx.pkg, ctx.np
    x = np.array([0.0, 1.0, 3.0])
    m = P.PolynomialModel(1)
    f = P.Fitter(x, m)
    y = [ctx.real('d%d' % k, -5, 5) for k in range(3)]
    kept = ctx.real('kept', -1, 1)
    ctx.assume(y[1] - y[0] - kept > 0.1 if keep else y[1] - y[0] - (y[2] - y[0]) / 3 > 0.1)
    f.fit(np.array(y), keep={1: kept} if keep else None)
    made = []

    class MC:
        def __init__(self, xdata, model, covariance, index=None, **kw):
            made.append((xdata, model, covariance, index))

        def getError(self, xdata=None):
            return xdata
    mod = P.module('BaseFitter')
    old = mod.MonteCarlo
    mod.MonteCarlo = MC
    try:
        r = f.monteCarloError()
    finally:
        mod.MonteCarlo = old
    ctx.check(r is f.xdata or r is x, 'at the inputs')
    xd, mm, c, i = made[0]
    nf = 1 if keep else 2
    ctx.check(mm is m, 'the model')
    ctx.shape(c, (nf, nf), 'covariance')
    ctx.check((i is None and not keep) or list(i) == list(range(nf)), 'fitted parameters')
    ctx.eq([[v for v in row] for row in c], [[v for v in row] for row in f.covariance], 'covariance')


def harnesses(tier):
    out = []
    S = dict(paths=2000, tmax=60, samples=2, qtimeout=1500)

    def h(name, f, *a, thorough=False, **k):
        kw = dict(S)
        for o in list(S) + ['weight', 'trig', 'whole_', 'generic']:
            if o in k:
                kw[o] = k.pop(o)
        out.append(H(name, f, args=a, kw=k, thorough=thorough, **kw))
    h('arguments', arguments)
    for k in KERNELS:
        h('weights/%s' % k, weighed, k)
        h('weights/%s/weighted' % k, weighed, k, wgt=True)
        h('weights/%s/domain' % k, weighed, k, domain=False)
        h('weights/%s/late' % k, weighed, k, late=True, wgt=True)
        h('weights/%s/late/domain' % k, weighed, k, late=True, domain=False)
    for k in ('Biweight', 'Huber', 'Uniform', 'Lorentz'):
        for s in ('positive', 'n'):
            h('weights/%s/%s' % (k, s), weighed, k, side=s, wgt=s == 'n')
        h('weights/%s/2' % k, weighed, k, steps=2, n=1)
        h('weights/%s/accuracy' % k, weighed, k, acc='one')
        h('weights/%s/accuracies' % k, weighed, k, acc='all', wgt=True)
        h('weights/%s/keep' % k, weighed, k, keep=True)
        h('weights/%s/callable' % k, weighed, k, callable_=True)
        h('weights/%s/3' % k, weighed, k, steps=3, thorough=True, tmax=300, paths=20000)
    h('fitter', whole)
    h('fitter/weights', whole, wgt=True)
    h('fitter/keep', whole, keep=True)
    h('fitter/accuracy', whole, acc=True)
    h('fitter/all', whole, wgt=True, keep=True, acc=True)
    h('variant/1', variant, 1)
    h('variant/2', variant, 2)
    h('variant/2/diagonal', variant, 2, True)
    h('variant/1/index', variant, 1, index=[1])
    h('variant/2/index', variant, 2, index=[0, 2])
    for c in (2, 3):
        h('error/%d' % c, error, 2, c)
        h('error/%d/index' % c, error, 1, c, index=[1])
    h('error/given', error, 2, 2, given=True)
    h('error/via', error, 1, 2, index=[0], via=True)
    h('error/via/given', error, 1, 2, index=[0], via=True, given=True)
    h('confidence', confidence)
    h('confidence/keep', confidence, True)
    return out
