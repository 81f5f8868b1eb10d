"""C12  linear fits satisfy the weighted normal equations.  C13 and C15 share the set-up."""
from ..harness import H
from ..abstract import leafclass

BOUNDS = ('arbitrary linear models (uninterpreted basis functions) of 1-3 parameters, polynomial, fixed and compound linear models; 2-4 data points with symbolic abscissae, data, '
          'weights and accuracies; kept parameters at construction or per fit; 0-2 normalising measurements; images of 2x2 pixels; both linear fitters')
ASSUMPTIONS = ['the Hessian is regular and the residuals do not vanish altogether',
               'weights and accuracies are positive']


def linclass(ctx):
    """a linear model with arbitrary basis functions"""
    c = ctx.__dict__.setdefault('_linclass', None)
    if c is not None:
        return c
    LM = ctx.pkg.LinearModel
    setatt = ctx.pkg.module('Tools').setAttribute

    class Lin(LM):
        def __init__(self, fname='phi', npar=1, ndim=1, copy=None, **kw):
            if copy is not None:
                fname, npar = copy.leaf
            setatt(self, 'leaf', (fname, npar))
            super(Lin, self).__init__(npar, ndim=ndim, copy=copy, **kw)

        def copy(self):
            return Lin(copy=self)

        def baseName(self):
            return self.leaf[0]

        def basePartial(self, xdata, params, parlist=None):
            fname, npar = self.leaf
            pl = list(range(npar)) if parlist is None else [int(k) for k in parlist]
            return ctx.arr([[basis(ctx, fname, k, x) for k in pl] for x in xdata])
    ctx._linclass = Lin
    return Lin


def basis(ctx, fname, k, x):
    if getattr(x, 'shape', ()) == ():
        return ctx.fn('%s%d' % (fname, k), 1)(x)
    return ctx.fn('%s%d' % (fname, k), len(x))(*[t for t in x])


def linear(ctx, kind, npar):
    """(model, rows(x) -> list of basis values, offset(x))"""
    P = ctx.pkg
    if kind == 'basis':
        m = linclass(ctx)('phi', npar)
        return m, lambda x: [basis(ctx, 'phi', k, x) for k in range(npar)], lambda x: 0
    if kind == 'poly':
        return P.PolynomialModel(npar - 1), lambda x: [x ** k if k else 1 for k in range(npar)], lambda x: 0
    if kind == 'fixed':
        c = ctx.real('fixedvalue')
        m = linclass(ctx)('phi', npar + 1, fixed={0: c})
        return m, lambda x: [basis(ctx, 'phi', k, x) for k in range(1, npar + 1)], lambda x: c * basis(ctx, 'phi', 0, x)
    if kind == 'sum':
        m = linclass(ctx)('phi', npar - 1) + linclass(ctx)('psi', 1)
        return m, lambda x: [basis(ctx, 'phi', k, x) for k in range(npar - 1)] + [basis(ctx, 'psi', 0, x)], lambda x: 0
    raise AssertionError(kind)


class Fit(object):
    """set-up of a fit with everything symbolic"""

    def __init__(self, ctx, cls, kind, npar, n, wgt=None, acc=None, keep=None, norms=0, form='array', tag='', x=None, **kw):
        P = ctx.pkg
        self.ctx, self.n, self.npar, self.norms = ctx, n, npar, norms
        self.model, self.rows, self.offset = linear(ctx, kind, npar)
        self.x = ctx.reals('x', n) if x is None else ctx.np.array(x)
        self.values = {}
        kp = {}
        if keep:
            for k in keep[1]:
                self.values[k] = ctx.real('keep%d' % k)
            kp = dict(self.values)
        ck = dict(keep=kp) if keep and keep[0] == 'new' else {}
        self.fk = dict(keep=kp) if keep and keep[0] == 'fit' else {}
        self.fitter = getattr(P, cls)(self.x, self.model, **ck, **kw)
        self.free = [k for k in range(npar) if k not in self.values]
        self.data(tag, wgt, acc, form)
        self.extra = []
        for j in range(norms):
            d, v, w = ctx.reals('nd%d_' % j, npar), ctx.real('nv%d' % j), ctx.real('nw%d' % j, 0.3, 3)
            self.extra.append((d, v, w))
            if j == 0 or norms == 1:
                self.fitter.normalize(d, v, weight=w)
            else:
                self.fitter.normalize(d, v, w)

    def data(self, tag, wgt, acc, form='array'):
        ctx, n = self.ctx, self.n
        self.y = ctx.reals(tag + 'y', n)
        self.w = ctx.reals(tag + 'w', n, 0.1, 3) if wgt else None
        self.a = ctx.reals(tag + 'a', n, 0.3, 3) if acc == 'each' else ctx.real(tag + 'a', 0.3, 3) if acc == 'one' else None
        lst = (lambda v: v if v is None or getattr(v, 'shape', ()) == () else [t for t in v]) if form == 'list' else (lambda v: v)
        self.args = [lst(self.y)]
        self.kw = {}
        if wgt:
            self.kw['weights'] = lst(self.w)
        if acc:
            self.kw['accuracy'] = lst(self.a)
        one = [1] * n if self.w is None else [v for v in self.w]
        self.sumw = n if self.w is None else sum(one)
        if acc == 'each':
            one = [v / (a * a) for v, a in zip(one, self.a)]
        elif acc == 'one':
            one = [v / (self.a * self.a) for v in one]
        self.fw = one

    def fit(self):
        return self.run(self.fitter.fit)

    def run(self, f):
        try:
            return f(*self.args, **self.kw, **self.fk)
        except ValueError as e:
            if 'chisq' in str(e):
                self.ctx.assume(False)          # perfect fits are refused (documented)
            raise

    def residuals(self, p):
        out = []
        for i in range(self.n):
            f = self.offset(self.x[i])
            for v, q in zip(self.rows(self.x[i]), p):
                f = f + v * q
            out.append(self.y[i] - f)
        return out

    def hessian(self):
        R = [self.rows(self.x[i]) for i in range(self.n)]
        H = [[sum(self.fw[i] * R[i][j] * R[i][k] for i in range(self.n)) + sum(w * d[j] * d[k] for d, v, w in self.extra) for k in self.free] for j in self.free]
        return H

    def check(self, p, tag=''):
        ctx = self.ctx
        ctx.shape(p, (self.npar,), tag + 'parameters')
        r = self.residuals(p)
        R = [self.rows(self.x[i]) for i in range(self.n)]
        for k in self.free:
            g = sum(self.fw[i] * r[i] * R[i][k] for i in range(self.n))
            for d, v, w in self.extra:
                g = g + w * d[k] * (v - sum(d[j] * p[j] for j in range(self.npar)))
            ctx.eq(g, 0, tag + 'normal equation %d' % k)
        for k in self.values:
            ctx.eq(p[k], self.values[k], tag + 'kept parameter')
        ctx.eq(self.fitter.chisq, sum(self.fw[i] * r[i] * r[i] for i in range(self.n)), tag + 'chisq')
        ctx.eq(self.model.parameters, p, tag + 'parameters of the model')
        ctx.eq(self.fitter.parameters, p, tag + 'parameters of the fitter')
        ctx.eq(self.fitter.yfit, ctx.arr([self.y[i] - r[i] for i in range(self.n)]), tag + 'fitted values')
        ctx.eq(self.fitter.sumwgt, self.sumw, tag + 'sum of weights')


def fit(ctx, *a, **k):
    f = Fit(ctx, *a, **k)
    f.check(f.fit())


def modelfit(ctx, cls, wgt, keep):
    f = Fit(ctx, cls, 'basis', 2, 3, wgt, None, keep)
    y = f.run(f.fitter.modelFit)
    f.check(f.model.parameters)
    ctx.eq(y, f.fitter.yfit, 'model fit')


def null(ctx, cls, wgt, acc):
    """a model without parameters"""
    P = ctx.pkg
    n = 2
    f = Fit(ctx, cls, 'poly', 1, n, wgt, acc)
    m = P.ConstantModel(values=2.0)
    ft = getattr(P, cls)(f.x, m)
    f.run(ft.fit)
    ctx.eq(ft.chisq, sum(f.fw[i] * (f.y[i] - 2) * (f.y[i] - 2) for i in range(n)), 'chisq')


def image(ctx, cls, wgt, acc, full):
    """map=True: the pixels are the abscissae"""
    P = ctx.pkg
    m = linclass(ctx)('phi', 2, ndim=2)
    y = ctx.mat('y', 2, 2)
    w = ctx.mat('w', 2, 2, 0.1, 3) if wgt else None
    a = ctx.mat('a', 2, 2, 0.3, 3) if acc == 'each' else ctx.real('a', 0.3, 3) if acc else None
    kw = {}
    if wgt:
        kw['weights'] = w
    if acc:
        kw['accuracy'] = a
    ft = getattr(P, cls)(ctx.np.zeros((2, 2)), m, map=True)
    try:
        p = ft.fit(y, **kw)
    except ValueError as e:
        if 'chisq' in str(e):
            ctx.assume(False)
        raise
    yf = ft.yfit
    ctx.shape(yf, (2, 2), 'shape of the fitted map')
    g, chi = [0, 0], 0
    for i in range(2):
        for j in range(2):
            wt = 1 if w is None else w[i, j]
            if acc:
                b = a[i, j] if acc == 'each' else a
                wt = wt / (b * b)
            r = y[i, j] - yf[i, j]
            chi = chi + wt * r * r
            for k in range(2):
                g[k] = g[k] + wt * r * basis(ctx, 'phi', k, ctx.arr([i * 1.0, j * 1.0]))
            ctx.eq(yf[i, j], sum(p[k] * basis(ctx, 'phi', k, ctx.arr([i * 1.0, j * 1.0])) for k in range(2)), 'fitted map')
    for k in range(2):
        ctx.eq(g[k], 0, 'normal equation %d' % k)
    ctx.eq(ft.chisq, chi, 'chisq')


def limited(ctx, which):
    """limitsFit: inside the limits, or at the limit with the other parameters refitted"""
    f = Fit(ctx, 'Fitter', 'poly', 2, 3, False, x=(-1.0, 0.0, 2.0))
    lo, hi = ctx.real('lo', -1, -0.2), ctx.real('hi', 0.2, 1)
    big = 1e6
    for i in range(3):
        ctx.assume(ctx.np.abs(f.y[i]) < 100)
    if which == 0:
        f.model.setLimits([lo, -big], [hi, big])
    else:
        f.model.setLimits([-big, lo], [big, hi])
    p = f.run(f.fitter.limitsFit)
    v = f.model.parameters[which]
    for k in range(2):
        ctx.eq(f.model.parameters[k], p[k], 'returned parameters')
    ctx.le(lo, v, 'above the low limit')
    ctx.le(v, hi, 'below the high limit')
    r = f.residuals(f.model.parameters)
    R = [f.rows(f.x[i]) for i in range(f.n)]
    g = [sum(f.fw[i] * r[i] * R[i][k] for i in range(f.n)) for k in range(2)]
    ctx.eq(g[1 - which], 0, 'the other parameter is optimal')
    if bool(v > lo) and bool(v < hi):
        ctx.eq(g[which], 0, 'optimal inside the limits')


def harnesses(tier):
    hs = []
    for cls in ('Fitter', 'QRFitter'):
        qr = cls == 'QRFitter'

        def add(name, *a, **k):
            th = k.pop('thorough', False)
            hs.append(H('%s/%s' % (cls, name), fit, (cls,) + a, k, thorough=th, tmax=200))
        for npar, n in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4)):
            for w in (False, True):
                for a in (None, 'one', 'each'):
                    add('basis/%d-%d/%s-%s' % (npar, n, 'w' if w else '-', a), 'basis', npar, n, w, a, thorough=npar * n > 6)
        for w, a in ((True, None), (True, 'each'), (False, 'each'), (False, 'one')):
            add('lists/%s-%s' % (w, a), 'basis', 1, 3, w, a, form='list')
        for kind in ('poly', 'fixed', 'sum'):
            for npar, n in ((1, 3), (2, 3), (3, 4)):
                if kind == 'sum' and npar == 1:
                    continue
                add('%s/%d-%d' % (kind, npar, n), kind, npar, n, True, thorough=npar == 3)
                add('%s/%d-%d/plain' % (kind, npar, n), kind, npar, n, thorough=npar == 3)
        for when in ('new', 'fit'):
            for npar, ks in ((2, [0]), (2, [1]), (3, [1]), (3, [0, 2])):
                for w in (False, True):
                    add('keep/%s/%d-%s/%s' % (when, npar, ks, w), 'basis', npar, 3, w, None, (when, ks))
            add('keep/%s/fixed' % when, 'fixed', 2, 3, True, None, (when, [1]))
        for norms in (1, 2):
            for npar in (1, 2):
                for w, a in ((False, None), (True, None), (False, 'each'), (False, 'one')):
                    add('normalize/%d/%d/%s-%s' % (norms, npar, w, a), 'basis', npar, 2, w, a, norms=norms)
            for when in ('new', 'fit'):
                add('normalize/%d/keep/%s' % (norms, when), 'basis', 2, 2, True, None, (when, [1]), norms=norms)
        for w in (False, True):
            for keep in (None, ('new', [0]), ('fit', [1])):
                hs.append(H('%s/modelfit/%s/%s' % (cls, w, keep), modelfit, (cls, w, keep)))
            for a in (None, 'one', 'each'):
                hs.append(H('%s/null/%s/%s' % (cls, w, a), null, (cls, w, a)))
        for w, a in ((False, None), (True, None), (True, 'one'), (True, 'each')):
            hs.append(H('%s/image/%s-%s' % (cls, w, a), image, (cls, w, a, True), thorough=a == 'each'))
    for k in (0, 1):
        hs.append(H('limits/%d' % k, limited, (k,)))
    return hs
