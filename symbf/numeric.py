"""Numeric derivatives are exact for functions that are quadratic in each of their arguments: models of that kind, by every route."""


def value(o, row, p):
    x = row[0]
    f = p[0] * p[0] + (o + 1) * p[0] * p[1] * x + p[1] * x * x
    if len(row) > 1:
        f = f + p[1] * p[1] * row[1] + (o + 2) * x * row[1] * row[1]
    if len(p) > 2:
        f = f + p[2] * x * p[1]
    return f


def rows(x, ndim):
    return [[x[i]] if ndim == 1 else [x[i, j] for j in range(ndim)] for i in range(len(x))]


def table(ctx, x, p, ndim, ndout):
    r = [[value(o, row, p) for o in range(ndout)] for row in rows(x, ndim)]
    return ctx.arr([t[0] for t in r] if ndout == 1 else r)


def quadclass(ctx):
    setatt = ctx.pkg.module('Tools').setAttribute

    class Quad(ctx.pkg.NonLinearModel):
        """has no partials nor derivatives of its own"""
        def __init__(self, npar=2, ndim=1, ndout=1, copy=None, **kw):
            if copy is not None:
                npar, ndim, ndout = copy.quad
            setatt(self, 'quad', (npar, ndim, ndout))
            if ndout > 1:
                setatt(self, 'ndout', ndout)
            super(Quad, self).__init__(npar, ndim=ndim, copy=copy, **kw)

        def copy(self):
            return Quad(copy=self)

        def baseName(self):
            return 'Quad'

        def baseResult(self, xdata, params):
            npar, ndim, ndout = self.quad
            return table(ctx, xdata, params, ndim, ndout)
    return Quad


def astro(ctx, npar, ndim):
    """an astropy model of the same function, with its own derivatives"""
    am = __import__('astropy.modeling', fromlist=['x'])

    def evaluate(*a):
        xs, p = a[:ndim], a[ndim:]
        return ctx.arr([value(0, [v[i] for v in xs], p) for i in range(len(xs[0]))])

    def fit_deriv(*a):
        xs, p = a[:ndim], a[ndim:]
        n = len(xs[0])
        out = []
        for k in range(npar):
            _, J = ctx.jac(lambda q: [value(0, [v[i] for v in xs], q) for i in range(n)], ctx.arr(list(p)))
            out.append(J[:, k])
        return out
    d = dict(n_inputs=ndim, n_outputs=1, evaluate=staticmethod(evaluate), fit_deriv=staticmethod(fit_deriv))
    for k in range(npar):
        d['a%d' % k] = am.Parameter(default=1.0)
    return type('Astro', (am.FittableModel,), d)()


def user(ctx, npar, ndim, own, **kw):
    def res(x, p):
        return table(ctx, x, p, ndim, 1)

    def par(x, p):
        _, J = ctx.jac(lambda q: table(ctx, x, q, ndim, 1), ctx.arr([v for v in p]))
        return J
    return ctx.pkg.UserModel(npar, res, ndim=ndim, userName='mine', **dict(kw, **(dict(userPartial=par) if own else {})))


class Case(object):
    """kind: quad, user, userown, astro;  shape: alone, a fixed parameter (k), sum, product, pipe, copy"""
    def __init__(self, ctx, kind, npar, ndim, ndout, how, n=2):
        P = ctx.pkg
        kw = {}
        self.fx = None
        if isinstance(how, int):
            self.fx = (how, ctx.real('fixed', -2, 2))
            kw['fixed'] = {how: self.fx[1]}
        if kind == 'quad':
            m = quadclass(ctx)(npar, ndim, ndout, **kw)
        elif kind == 'astro':
            m = P.AstropyModel(astro(ctx, npar, ndim), **kw)
        else:
            m = user(ctx, npar, ndim, kind == 'userown', **kw)
        if how == 'copy':
            m = m.copy()
        one = npar - (self.fx is not None)

        def full(p):
            if self.fx is None:
                return p
            p = [v for v in p]
            return p[:self.fx[0]] + [self.fx[1]] + p[self.fx[0]:]
        self.ref = lambda row, p, o: value(o, row, full(p))
        npt = one
        if how in ('sum', 'product', 'pipe', 'second'):
            c = (P.PolynomialModel(1) if ndim == 1 else P.ConstantModel(ndim=ndim)) if how == 'second' else quadclass(ctx)(2, 1 if how == 'pipe' else ndim, ndout)
            f = self.ref
            if how == 'second':
                m = c + m
                if ndim == 1:
                    self.ref = lambda row, p, o: p[0] + p[1] * row[0] + f(row, p[2:], o)
                    npt = one + 2
                else:
                    self.ref = f
            else:
                m = m + c if how == 'sum' else m * c if how == 'product' else m | c
                npt = one + 2
                if how == 'pipe':
                    self.ref = lambda row, p, o: value(o, [f(row, p[:one], 0)], p[one:])
                elif how == 'sum':
                    self.ref = lambda row, p, o: f(row, p[:one], o) + value(o, row, p[one:])
                else:
                    self.ref = lambda row, p, o: f(row, p[:one], o) * value(o, row, p[one:])
        self.m, self.np = m, npt
        self.p = ctx.reals('p', npt, -3, 3)
        self.x = ctx.reals('x', n, -3, 3) if ndim == 1 else ctx.mat('x', n, ndim, -3, 3)
        self.n, self.ndim, self.ndout = n, ndim, ndout

    def wantpartial(self, ctx):
        out = []
        for o in range(self.ndout):
            _, J = ctx.jac(lambda q: [self.ref(row, q, o) for row in rows(self.x, self.ndim)], self.p)
            out.append(J)
        return out

    def wantderivative(self, ctx):
        """[n,ndout] or list of [n,ndim]"""
        n, d = self.n, self.ndim
        flat = self.x.reshape(-1)
        out = []
        for o in range(self.ndout):
            _, J = ctx.jac(lambda q: [self.ref([q[i * d + j] for j in range(d)], self.p, o) for i in range(n)], flat)
            out.append(ctx.arr([[J[i, i * d + j] for j in range(d)] for i in range(n)]))
        return out


CASES = [(kind, npar, ndim, ndout, how)
         for kind in ('quad', 'user', 'userown', 'astro') for npar in (2, 3) for ndim in (1, 2) for ndout in (1, 2)
         for how in ('alone', 0, 1, npar - 1, 'copy', 'sum', 'product', 'second', 'pipe')
         if not (ndout == 2 and kind != 'quad') and not (how == 1 and npar == 2) and not (how == 'pipe' and ndout == 2) and not (how == 'second' and (ndim, ndout) != (1, 1))
         and not (npar == 3 and how in ('sum', 'product', 'pipe', 'copy') and kind == 'quad')]


def name(c):
    return '%s/%d-%d-%d/%s' % c
