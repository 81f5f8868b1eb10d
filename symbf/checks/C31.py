"""C31  fitters hand the wrapped optimiser the cost they state, its exact gradient, the initial values and the limits, of the free parameters only."""
from ..harness import H
from ..abstract import leafclass

BOUNDS = ('ScipyFitter with each of its 11 methods, AmoebaFitter and CurveFitter on arbitrary (uninterpreted) and linear models of 2-3 parameters with 2 data points; with weights, '
          'accuracies, kept parameters (at construction or per fit), initial parameters, limits (scalar or per parameter), constraint functions; cost chi-squared or the log likelihood of each of 5 '
          'distributions; the cost, gradient and hessian at every parameter value; the optimiser itself is replaced by one that returns an arbitrary answer')
ASSUMPTIONS = ['residuals do not vanish; kinks of the Laplace and Exponential likelihood are excluded', 'no weights with Cauchy and Poisson (they do not accept them)', 'the optimisers of scipy themselves are outside the claim (the annealing simplex is C27)',
               'the hessian is that of a linear model (for others the fitters use the usual linear approximation)']

METHODS = ('NELDER-MEAD', 'POWELL', 'CG', 'BFGS', 'NEWTON-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'DOGLEG', 'TRUST-NCG')
JAC = ('CG', 'BFGS', 'NEWTON-CG', 'L-BFGS-B', 'TNC', 'SLSQP', 'DOGLEG', 'TRUST-NCG')
HESS = ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
BOUNDED = ('L-BFGS-B', 'TNC', 'SLSQP')
ITERED = ('NELDER-MEAD', 'POWELL', 'CG', 'BFGS', 'NEWTON-CG')
DIST = ('gauss', 'laplace', 'cauchy', 'poisson', 'exponential')


class Setup(object):
    """data, model, fitter and the cost as it is stated"""
    above = False                                     # only data above the model

    def __init__(self, ctx, fitter, model='leaf', npar=2, wgt=False, acc=None, keep=None, errdis=None, **kw):
        P, self.ctx = ctx.pkg, ctx
        n = self.n = 2
        self.npar, self.errdis = npar, errdis
        if model == 'leaf':
            self.m = leafclass(ctx)('f', npar)
            self.f = lambda i, p: ctx.fn('f', 1 + npar)(self.x[i], *[p[k] for k in range(npar)])
        else:
            self.m = P.PolynomialModel(npar - 1)
            self.f = lambda i, p: sum(p[k] * (1 if k == 0 else self.x[i] ** k) for k in range(npar))
        self.x, self.y = ctx.reals('x', n), ctx.reals('y', n)
        if errdis == 'poisson':
            self.y = ctx.np.array([ctx.integer('n%d' % i, 0, 1) for i in range(n)])
        self.fk, nk = {}, dict(kw)
        self.w = [1] * n
        if wgt:
            self.fk['weights'] = ctx.reals('w', n, 0.1, 3)
            self.w = [v for v in self.fk['weights']]
        if acc == 'each':
            a = self.fk['accuracy'] = ctx.reals('a', n, 0.3, 3)
            self.w = [p / (q * q) for p, q in zip(self.w, a)]
        elif acc == 'one':
            a = self.fk['accuracy'] = ctx.real('a', 0.3, 3)
            self.w = [p / (a * a) for p in self.w]
        self.kd = {}
        if keep:
            self.kd = {k: ctx.real('keep%d' % k, -1, 1) for k in keep[1]}
            (nk if keep[0] == 'new' else self.fk)['keep'] = self.kd
        self.free = [k for k in range(npar) if k not in self.kd]
        self.s = 1.0
        if errdis:
            nk['errdis'] = errdis
            self.s = nk['scale'] = ctx.real('s', 0.3, 3)
            if errdis == 'exponential':
                nk['power'] = 2.0
        self.start = ctx.reals('start', npar)
        self.m.parameters = self.start.copy()
        self.ft = getattr(P, fitter)(self.x, self.m, **nk)

    def full(self, q):
        p = [self.kd.get(k) for k in range(self.npar)]
        for k, v in zip(self.free, q):
            p[k] = v
        return p

    def cost(self, q):
        """chi-squared or minus the log likelihood, as documented"""
        ctx, p, s = self.ctx, self.full(q), self.s
        if self.errdis:
            log, pi = ctx.np.log, ctx.np.pi
        c = 0.0
        for i in range(self.n):
            f = self.f(i, p)
            r = self.y[i] - f
            if not self.errdis:
                c = c + self.w[i] * r * r
            elif self.errdis == 'gauss' or self.errdis == 'exponential':
                if self.errdis == 'gauss':
                    l = -0.5 * log(2 * pi * s * s) - 0.5 * r * r / (s * s)
                else:
                    l = log(2.0 / (2 * s)) - ctx.special.gammaln(1 / 2.0) - r * r / (s * s)
                c = c - self.w[i] * l
            elif self.errdis == 'laplace':
                c = c - self.w[i] * (-log(2 * s) - ctx.np.abs(r) / s)
            elif self.errdis == 'cauchy':
                c = c - self.w[i] * (-log(pi * s) - log(1 + r * r / (s * s)))
            elif self.errdis == 'poisson':
                c = c - self.w[i] * (self.y[i] * log(f) - f)                    # factorial of 0 and 1 is 1
        return c

    def regular(self, q):
        ctx, p = self.ctx, self.full(q)
        for i in range(self.n):
            f = self.f(i, p)
            if self.errdis == 'poisson':
                ctx.assume(f > 0.05)
            if self.errdis != 'poisson' or i == 0:
                r = self.y[i] - f
                ctx.assume((r if self.above else ctx.np.abs(r)) > 0.05)


class Stub(object):
    """optimiser that records what it gets and returns whatever it is told"""
    def __init__(self, answer):
        self.answer, self.calls = answer, 0

    def minimize(self, fun, x0, **kw):
        self.calls += 1
        self.fun, self.x0, self.kw = fun, x0, kw
        return {'x': self.answer, 'fun': fun(self.answer), 'nfev': 1, 'nit': 1, 'njev': 1, 'status': 0}

    def curve_fit(self, fun, x, y, **kw):
        self.calls += 1
        self.fun, self.x, self.y, self.kw = fun, x, y, kw
        return self.answer, None

    def amoeba(self, fun, x0, **kw):
        self.calls += 1
        self.fun, self.x0, self.kw = fun, x0, kw
        self.iter, self.ncalls, self.simplex, self.values = 3, 4, None, None
        self.fopt = fun(self.answer)
        return self

    def swap(self, ctx, module, name, func, run):
        mod = ctx.pkg.module(module)
        old = getattr(mod, name)
        setattr(mod, name, func)
        try:
            return run()
        except ValueError as e:
            if 'chisq <= 0' in str(e):
                ctx.assume(False)
            raise
        finally:
            setattr(mod, name, old)


def evaluate(ctx, st, q):
    try:
        return st.fun(q)
    except ValueError as e:
        if 'chisq <= 0' in str(e):
            ctx.assume(False)
        raise


def limited(ctx, su, how):
    """limits as given and per free parameter"""
    if how is None:
        return {}, None
    if how == 'one':
        lo, hi = ctx.real('lo', -3, -1), ctx.real('hi', 1, 3)
        return {'limits': [lo, hi]}, [(lo, hi)] * len(su.free)
    lo, hi = ctx.reals('lo', su.npar, -3, -1), ctx.reals('hi', su.npar, 1, 3)
    return {'limits': [lo, hi]}, [(lo[k], hi[k]) for k in su.free]


def initial(ctx, su, how):
    if how is None:
        return {}, [su.start[k] for k in su.free]
    p0 = ctx.reals('p0', su.npar)
    return {'par0': p0 if how == 'array' else [v for v in p0]}, [p0[k] for k in su.free]


def after(ctx, su, st, a, p):
    """what is returned and reported"""
    ctx.check(st.calls == 1, 'optimiser is called once')
    ctx.eq(p, ctx.arr(su.full(a)), 'parameters returned')
    ctx.eq(su.m.parameters, ctx.arr(su.full(a)), 'parameters in the model')
    if su.errdis is None:
        ctx.eq(su.ft.chisq, su.cost(a), 'chi-squared reported')
    else:
        ctx.eq(su.ft.logLikelihood, -su.cost(a), 'log likelihood reported')


def scipyfit(ctx, method, mkw, par0, limits, extra):
    su = Setup(ctx, 'ScipyFitter', method=method, **mkw)
    a, q = ctx.reals('opt', len(su.free)), ctx.reals('q', len(su.free))
    su.regular(a)
    su.regular(q)
    st = Stub(a)
    pk, x0 = initial(ctx, su, par0)
    lk, bounds = limited(ctx, su, limits)
    ek = {}
    if extra:
        ek = {'maxiter': 17, 'tolerance': ctx.real('tol', 0.001, 0.1)}
    p = st.swap(ctx, 'ScipyFitter', 'minimize', st.minimize, lambda: su.ft.fit(su.y, **su.fk, **pk, **lk, **ek))
    after(ctx, su, st, a, p)
    if method is None:
        method = 'BFGS' if limits is None else 'L-BFGS-B'
    ctx.check(st.kw['method'].upper() == method, 'method')
    ctx.eq(st.x0, ctx.arr(x0), 'initial values of the free parameters')
    ctx.eq(evaluate(ctx, st, q), su.cost(q), 'cost')
    if method in JAC:
        _, J = ctx.jac(lambda z: [su.cost(z)], q)
        ctx.eq(st.kw['jac'](q), J[0], 'gradient of the cost')
    else:
        ctx.check(st.kw.get('jac') is None, 'no gradient')
    if method in HESS and 'model' in mkw:
        _, J = ctx.jac(lambda z: st.kw['jac'](z), q)
        ctx.eq(st.kw['hess'](q), J, 'hessian of the cost')
        D = [[1 if k == 0 else su.x[i] ** k for k in su.free] for i in range(su.n)]
        Hs = [[sum(su.w[i] * D[i][k] * D[i][l] for i in range(su.n)) for l in range(len(su.free))] for k in range(len(su.free))]
        ctx.eq(su.ft.hessian, ctx.arr(Hs), 'hessian afterwards')
    if method in BOUNDED:
        b = st.kw.get('bounds')
        if bounds is None:
            ctx.check(b is None, 'no limits')
        else:
            ctx.check(len(b) == len(bounds), 'number of limits')
            for g, w in zip(b, bounds):
                ctx.check(len(g) == 2, 'a pair for each parameter')
                ctx.eq(g[0], w[0], 'low limit')
                ctx.eq(g[1], w[1], 'high limit')
    if extra and method in ITERED:
        o = st.kw['options']
        ctx.check(o['maxiter'] == 17, 'maximum number of iterations')
        tols = [o[k] for k in ('xatol', 'fatol', 'ftol', 'xtol', 'gtol') if k in o]
        ctx.check(len(tols) > 0, 'a tolerance')
        for t in tols:
            ctx.eq(t, ek['tolerance'], 'tolerance')
    ctx.eq(su.x, su.ft.xdata, 'xdata')


def constrained(ctx, method, mkw, limits):
    """constraint functions are handed over, as functions of all parameters"""
    su = Setup(ctx, 'ScipyFitter', method=method, **mkw)
    a, q = ctx.reals('opt', len(su.free)), ctx.reals('q', len(su.free))
    su.regular(a)
    su.regular(q)
    st = Stub(a)
    c = ctx.reals('c', 2)
    cfs = [lambda p: c[0] - p[su.npar - 1], lambda p: p[0] * p[su.npar - 1] + c[1]]
    lk, bounds = limited(ctx, su, limits)
    p = st.swap(ctx, 'ScipyFitter', 'minimize', st.minimize, lambda: su.ft.fit(su.y, constraints=cfs, **su.fk, **lk))
    after(ctx, su, st, a, p)
    ctx.check(st.kw['method'].upper() == (method or 'SLSQP'), 'method')
    cs = st.kw['constraints']
    ctx.check(len(cs) == 2, 'number of constraints')
    f = su.full(q)
    want = [c[0] - f[su.npar - 1], f[0] * f[su.npar - 1] + c[1]]
    for j in range(2):
        ctx.check(cs[j]['type'] == 'ineq', 'type of constraint')
        ctx.eq(cs[j]['fun'](q), want[j], 'constraint on the parameters')
    ctx.check(len(cfs) == 2 and all(callable(k) for k in cfs), 'the list stays as it was')


def amoebafit(ctx, mkw, par0, limits):
    su = Setup(ctx, 'AmoebaFitter', **mkw)
    a, q = ctx.reals('opt', len(su.free)), ctx.reals('q', len(su.free))
    su.regular(a)
    su.regular(q)
    st = Stub(a)
    st.minimize = lambda: a
    pk, x0 = initial(ctx, su, par0)
    lk, bounds = limited(ctx, su, limits)
    tol = ctx.real('tol', 0.001, 0.1)
    p = st.swap(ctx, 'AmoebaFitter', 'AnnealingAmoeba', st.amoeba, lambda: su.ft.fit(su.y, tolerance=tol, maxiter=17, size=2, temp=3, seed=5, cooling=0.5, steps=4, **su.fk, **pk, **lk))
    after(ctx, su, st, a, p)
    ctx.eq(st.x0, ctx.arr(x0), 'initial values of the free parameters')
    ctx.eq(evaluate(ctx, st, q), su.cost(q), 'cost')
    for k, v in (('maxiter', 17), ('reltol', tol), ('abstol', tol), ('size', 2), ('temp', 3), ('seed', 5), ('cooling', 0.5), ('steps', 4)):
        ctx.eq(st.kw[k], v, k)
    if bounds is not None:
        for j in (0, 1):
            b = st.kw['limits'][j]
            if getattr(b, 'shape', ()) == ():
                b = [b] * len(su.free)
            ctx.check(len(b) == len(su.free), 'number of limits')
            for g, w in zip(b, bounds):
                ctx.eq(g, w[j], 'limit')
    ctx.check(su.ft.iter == 3 and su.ft.ntrans == 4, 'iterations and transformations')


def curvefit(ctx, mkw, par0, limits, norm, prior):
    su = Setup(ctx, 'CurveFitter', **mkw)
    nf = len(su.free)
    a, q = ctx.reals('opt', nf), ctx.reals('q', nf)
    su.regular(a)
    st = Stub(a)
    pk, x0 = initial(ctx, su, par0)
    if pk:
        pk = {'inipar': pk['par0']}
    lk, bounds = limited(ctx, su, limits)
    if prior:
        lo, hi = ctx.reals('plo', su.npar, -3, -1), ctx.reals('phi', su.npar, 1, 3)
        su.m.setLimits(lo, hi)
        if bounds is None:
            bounds = [(lo[k], hi[k]) for k in su.free]
    wt = [w for w in su.w]
    if norm:
        d, v, w = ctx.reals('nd', su.npar), ctx.real('nv'), ctx.real('nw', 0.3, 3)
        su.ft.normalize(d, v, weight=w)
        wt.append(w)
    p = st.swap(ctx, 'CurveFitter', 'curve_fit', st.curve_fit, lambda: su.ft.fit(su.y, **su.fk, **pk, **lk))
    after(ctx, su, st, a, p)
    ctx.eq(st.kw['p0'], ctx.arr(x0), 'initial values of the free parameters')
    r = st.fun(st.x, *[v for v in q])
    ctx.shape(r, (len(wt),))
    full = su.full(q)
    for i in range(su.n):
        ctx.eq(r[i], su.f(i, full), 'model')
        ctx.eq(st.y[i], su.y[i], 'data')
    if norm:
        ctx.eq(r[su.n], sum(d[k] * full[k] for k in range(su.npar)), 'normalising measurement')
        ctx.eq(st.y[su.n], v, 'value of the normalising measurement')
    sg = st.kw['sigma']
    if sg is None:
        ctx.check(all(type(w) is int for w in wt), 'no sigmas')
    else:
        for i in range(1, len(wt)):
            ctx.eq(wt[i] * sg[i] * sg[i], wt[0] * sg[0] * sg[0], 'sigmas in line with the weights')
    _, J = ctx.jac(lambda z: st.fun(st.x, *[v for v in z]), q)
    ctx.eq(st.kw['jac'](st.x, *[v for v in q]), J, 'jacobian')
    b = st.kw['bounds']
    for j in (0, 1):
        if bounds is None:
            ctx.check(b[j] == (-ctx.np.inf, ctx.np.inf)[j], 'no limits')
            continue
        g = b[j]
        if not hasattr(g, '__len__'):
            g = [g] * nf
        ctx.check(len(g) == nf, 'number of limits')
        for u, w in zip(g, bounds):
            ctx.eq(u, w[j], 'limit')


KEEPS = {'none': None, 'new': ('new', (0,)), 'fit': ('fit', (1,))}


def harnesses(tier):
    hs = []
    for me in METHODS:
        for kn, kp in KEEPS.items():
            for model in ('leaf', 'poly'):
                n = 3 if kp else 2
                mkw = dict(npar=n, keep=kp, wgt=kn != 'new', acc=None if kn == 'none' else 'each' if kn == 'new' else 'one')
                if model == 'poly':
                    mkw['model'] = 'poly'
                hs.append(H('scipy/%s/%s/%s' % (me, kn, model), scipyfit, (me, mkw, None, None, False), thorough=model == 'poly' and me not in HESS))
                for p0 in ('array', 'list')[kn == 'none':]:
                    hs.append(H('scipy/%s/%s/%s/start-%s' % (me, kn, model, p0), scipyfit, (me, mkw, p0, None, True), thorough=model == 'poly' or p0 == 'array'))
                if me in BOUNDED:
                    for li in ('one', 'each'):
                        hs.append(H('scipy/%s/%s/%s/limits-%s' % (me, kn, model, li), scipyfit, (me, mkw, 'array', li, False), thorough=model == 'poly'))
    for li in (None, 'one', 'each'):
        hs.append(H('scipy/automatic/%s' % li, scipyfit, (None, dict(), None, li, False)))
    for me in (None, 'COBYLA', 'SLSQP'):
        for kn, kp in KEEPS.items():
            hs.append(H('constraints/%s/%s' % (me, kn), constrained, (me, dict(npar=3 if kp else 2, keep=kp), 'each' if me == 'SLSQP' else None)))
    for d in DIST:
        for kn, kp in KEEPS.items():
            for w in (False, True)[:1 if d in ('cauchy', 'poisson') else 2]:
                mkw = dict(npar=3 if kp else 2, keep=kp, wgt=w, errdis=d)
                hs.append(H('likelihood/%s/%s%s' % (d, kn, '/w' if w else ''), scipyfit, ('BFGS', mkw, None, None, False)))
                hs.append(H('amoeba/%s/%s%s' % (d, kn, '/w' if w else ''), amoebafit, (mkw, None, None)))
    for kn, kp in KEEPS.items():
        for w in (False, True):
            hs.append(H('likelihood/hessian/%s%s' % (kn, '/w' if w else ''), scipyfit,
                        ('NEWTON-CG', dict(model='poly', npar=3 if kp else 2, keep=kp, wgt=w, errdis='gauss'), None, None, False)))
        for p0 in (None, 'array', 'list'):
            for li in (None, 'one', 'each'):
                for acc in (None, 'one', 'each'):
                    mkw = dict(npar=3 if kp else 2, keep=kp, wgt=acc != 'one', acc=acc)
                    s = '%s/%s-%s-%s' % (kn, p0, li, acc)
                    th = (acc, li, p0) not in ((None, None, None), ('one', 'one', 'array'), ('each', 'each', 'list'), ('each', None, 'list'), (None, 'each', 'array'))
                    hs.append(H('amoeba/' + s, amoebafit, (mkw, p0, li), thorough=th))
                    for norm in (False, True):
                        hs.append(H('curve/%s%s' % (s, '/norm' if norm else ''), curvefit, (mkw, p0, li, norm, False), thorough=th))
        for li in (None, 'one'):
            hs.append(H('curve/prior/%s-%s' % (kn, li), curvefit, (dict(npar=3 if kp else 2, keep=kp), None, li, False, True)))
        hs.append(H('curve/plain/%s' % kn, curvefit, (dict(npar=3 if kp else 2, keep=kp), None, None, True, False)))
    return hs
