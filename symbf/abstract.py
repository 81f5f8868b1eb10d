"""Models whose function is an uninterpreted (arbitrary smooth) function of x and the parameters."""


def leafclass(ctx):
    """class of models  f_name( x, p ) with exact (uninterpreted) gradient and derivative, any ndim and ndout"""
    c = ctx.__dict__.setdefault('_leafclass', None)
    if c is not None:
        return c
    NLM = ctx.pkg.NonLinearModel
    setatt = ctx.pkg.module('Tools').setAttribute
    np = ctx.np

    class Leaf(NLM):
        def __init__(self, fname='f', npar=1, ndim=1, ndout=1, copy=None, **kw):
            if copy is None and 'names' not in kw:
                kw['names'] = ['%s_%d' % (fname, k) for k in range(npar)]
            if copy is not None:
                fname, npar, ndim, ndout = copy.leaf
            setatt(self, 'leaf', (fname, npar, ndim, ndout))
            if ndout > 1:
                setatt(self, 'ndout', ndout)
            super(Leaf, self).__init__(npar, ndim=ndim, copy=copy, **kw)

        def copy(self):
            return Leaf(copy=self)

        def baseName(self):
            return self.leaf[0]

        def cells(self, x, p, order):
            """value of output o at row i, differentiated per multi index"""
            fname, npar, ndim, ndout = self.leaf

            def cell(i, o, k=None):
                row = [x[i]] if ndim == 1 else [x[i, j] for j in range(ndim)]
                nm = fname + ('' if ndout == 1 else '.%d' % o)
                args = row + [p[j] if getattr(p[j], 'shape', ()) == () else p[j][i] for j in range(npar)]
                if k is None:
                    return ctx.fn(nm, ndim + npar)(*args)
                mi = [0] * (ndim + npar)
                mi[k] = 1
                return ctx.dfn(nm, ndim + npar, mi)(*args)
            return cell

        def baseResult(self, xdata, params):
            fname, npar, ndim, ndout = self.leaf
            c = self.cells(xdata, params, 0)
            n = len(xdata)
            if ndout == 1:
                return ctx.arr([c(i, 0) for i in range(n)])
            return ctx.arr([[c(i, o) for o in range(ndout)] for i in range(n)])

        def basePartial(self, xdata, params, parlist=None):
            fname, npar, ndim, ndout = self.leaf
            c = self.cells(xdata, params, 1)
            n = len(xdata)
            pl = list(range(npar)) if parlist is None else [int(k) for k in parlist]
            out = []
            for o in range(ndout):
                a = np.zeros((n, len(pl)), dtype=float)
                for i in range(n):
                    for q, k in enumerate(pl):
                        a[i, q] = c(i, o, ndim + k)
                out.append(a)
            return out[0] if ndout == 1 else out

        def baseDerivative(self, xdata, params):
            fname, npar, ndim, ndout = self.leaf
            c = self.cells(xdata, params, 1)
            n = len(xdata)
            if ndim == 1 and ndout == 1:
                return ctx.arr([c(i, 0, 0) for i in range(n)])
            if ndout == 1:
                return ctx.arr([[c(i, 0, j) for j in range(ndim)] for i in range(n)])
            if ndim == 1:
                return ctx.arr([[c(i, o, 0) for o in range(ndout)] for i in range(n)])
            return [ctx.arr([[c(i, o, j) for j in range(ndim)] for i in range(n)]) for o in range(ndout)]

    ctx._leafclass = Leaf
    return Leaf


class Ref(object):
    """reference semantics: a function of one data row (list of ndim values) giving a list of ndout values"""

    def __init__(self, npar, f):
        self.npar, self.f = npar, f

    @staticmethod
    def leaf(ctx, name, npar, ndim=1, ndout=1):
        def f(row, p):
            return [ctx.fn(name + ('' if ndout == 1 else '.%d' % o), ndim + npar)(*(list(row) + list(p))) for o in range(ndout)]
        return Ref(npar, f)

    def op(self, o, other):
        a, b, n = self.f, other.f, self.npar
        if o == '|':
            def f(row, p):
                return b(a(row, p[:n]), p[n:])
        else:
            def f(row, p):
                u, v = a(row, p[:n]), b(row, p[n:])
                assert len(u) == len(v)
                return [x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x / y for x, y in zip(u, v)]
        return Ref(n + other.npar, f)


def combine(m, o, k):
    return m + k if o == '+' else m - k if o == '-' else m * k if o == '*' else m / k if o == '/' else m | k
