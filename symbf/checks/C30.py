"""C30  soft-max outputs form a distribution; gradients through the layers are exact."""
from ..harness import H

BOUNDS = '1-2 data points, 1-3 inputs, 1-3 outputs, with and without offsets, normalised or not, every layer function; all inputs and parameters in [-3,3]'
ASSUMPTIONS = ['exponentials are those of real numbers: overflow of floats is outside', 'the step function is not differentiated at its step']


def data(ctx, n, ndim, flat=False):
    if ndim == 1 and flat:
        return ctx.reals('x', n, lo=-3, hi=3)
    return ctx.mat('x', n, ndim, lo=-3, hi=3)


def pars(ctx, k, name='p'):
    return ctx.arr([ctx.real('%s%d' % (name, i), -3, 3) for i in range(k)])


def element(f, x, i):
    return lambda q: f(i, q)


def softmax(ctx, n, ndim, ndout, offset, normed):
    P, np, M = ctx.pkg, ctx.np, ctx.math
    m = P.SoftMaxModel(ndim=ndim, ndout=ndout, offset=offset, normed=normed)
    npar = ndim * ndout + (ndout if offset else 0)
    ctx.check(m.npars == npar, 'number of parameters')
    ctx.eq([v for v in m.parameters], [1.0] * (ndim * ndout) + [0.0] * (npar - ndim * ndout), 'initial parameters')
    x = data(ctx, n, ndim, True)
    p = pars(ctx, npar)
    x0 = [v for v in x.flat]
    p0 = [v for v in p]
    res = m.result(x, p)
    ctx.shape(res, (n,) if ndout == 1 else (n, ndout), 'result')
    X = [[x0[i * ndim + k] for k in range(ndim)] for i in range(n)]

    def ref(X, q):
        out = []
        for i in range(n):
            z = [sum(X[i][k] * q[o * ndim + k] for k in range(ndim)) + (q[ndim * ndout + o] if offset else 0) for o in range(ndout)]
            if not normed:
                out += z
            elif ndout == 1:
                out += [1 / (1 + M.exp(-z[0]))]
            else:
                e = [M.exp(v) for v in z]
                out += [v / sum(e) for v in e]
        return out
    r = [v for v in np.array(res).flat]
    ctx.eq(r, ref(X, p0), 'result')
    if normed:
        for i in range(n):
            row = r[i * ndout:(i + 1) * ndout]
            for v in row:
                ctx.lt(0, v, 'not negative')
                ctx.lt(v, 1, 'at most one')
            if ndout > 1:
                ctx.eq(sum(row), 1, 'a distribution')
    y, J = ctx.jac(lambda q: ctx.arr(ref(X, q)), p)
    part = m.partial(x, p)
    for o in range(ndout):
        pp = part if ndout == 1 else part[o]
        ctx.shape(pp, (n, npar), 'partial')
        ctx.eq([[v for v in row] for row in pp], [[J[i * ndout + o, k] for k in range(npar)] for i in range(n)], 'gradient of output %d' % o)
    ctx.check(ndout == 1 or len(part) == ndout, 'outputs of partial')
    xs = ctx.arr(x0)
    y, D = ctx.jac(lambda q: ctx.arr(ref([[q[i * ndim + k] for k in range(ndim)] for i in range(n)], p0)), xs)
    der = m.derivative(x, p)
    for i in range(n):
        for o in range(ndout):
            for k in range(ndim):
                if ndim == 1:
                    d = der[i] if ndout == 1 else der[i, o]
                else:
                    d = der[i, k] if ndout == 1 else der[o][i, k]
                ctx.eq(d, D[i * ndout + o, i * ndim + k], 'derivative to the inputs')
    ctx.eq([v for v in x.flat], x0, 'inputs are left alone')
    ctx.eq([v for v in p], p0, 'parameters are left alone')
    if ndim == 1 and n == 1:                        # a new model has its own layers
        c = m.copy()
        ctx.check(c.npars == npar and c.ndout == ndout, 'copy')
        ctx.eq([v for v in np.array(c.result(x, p)).flat], r, 'copy')


def connect(ctx, n, ndim, ndout, bias):
    """the linear layer"""
    P, np = ctx.pkg, ctx.np
    U = P.module('NeuralNetUtilities')
    L = (U.ConnectWithBias if bias else U.Connect)(ndim=ndim, ndout=ndout)
    npar = ndim * ndout + (ndout if bias else 0)
    x, p = data(ctx, n, ndim), pars(ctx, npar)
    r = L.result(x, p)
    ctx.shape(r, (n, ndout), 'result')
    part, der = L.partial(x, p), L.derivative(x, p)
    ctx.shape(part, (ndout, n, npar), 'partial')
    ctx.shape(der, (ndout, n, ndim), 'derivative')
    for i in range(n):
        for o in range(ndout):
            ctx.eq(r[i, o], sum(x[i, k] * p[o * ndim + k] for k in range(ndim)) + (p[ndim * ndout + o] if bias else 0), 'result')
            for k in range(npar):
                e = 0
                if k < ndim * ndout:
                    e = x[i, k - o * ndim] if k // ndim == o else 0
                elif k - ndim * ndout == o:
                    e = 1
                ctx.eq(part[o, i, k], e, 'partial')
            for k in range(ndim):
                ctx.eq(der[o, i, k], p[o * ndim + k], 'derivative')


def transfer(ctx, name, n, npar):
    """layer functions of one output, and what follows them"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    U = P.module('NeuralNetUtilities')
    L = getattr(U, name)()
    x = ctx.mat('x', n, 1, lo=-3, hi=3)
    for i in range(n):
        ctx.assume(abs(x[i, 0]) > 0.01)
    f = {'Identity': lambda v: v, 'Arctan': lambda v: M.atan(v), 'Logistic': lambda v: 1 / (1 + M.exp(-v)),
         'Heaviside': lambda v: ctx.const(1.0 if v >= 0 else 0.0)}[name]
    r = L.result(x, None)
    d = L.derivative(x, None)
    ctx.shape(r, (n, 1), 'result')
    ctx.eq([v for v in r[:, 0]], [f(x[i, 0]) for i in range(n)], 'result')
    xs = ctx.arr([x[i, 0] for i in range(n)])
    y, J = ctx.jac(lambda q: ctx.arr([f(q[i]) for i in range(n)]), xs)
    ctx.eq([v for v in d[:, 0]], [J[i, i] for i in range(n)], 'derivative')
    g = ctx.arr([[[ctx.real('g%d_%d' % (i, k), -3, 3) for k in range(npar)] for i in range(n)]])
    out = L.pipe(d, g)
    ctx.shape(out, (1, n, npar), 'pipe')
    for i in range(n):
        for k in range(npar):
            ctx.eq(out[0, i, k], J[i, i] * g[0, i, k], 'chain rule')


def soft(ctx, n, ndout, npar):
    P, np, M = ctx.pkg, ctx.np, ctx.math
    U = P.module('NeuralNetUtilities')
    L = U.Softmax(ndout=ndout)
    x = ctx.mat('x', n, ndout, lo=-3, hi=3)
    r = L.result(x, None)
    d = L.derivative(x, None)
    ctx.shape(r, (n, ndout), 'result')
    ctx.shape(d, (ndout, n, ndout), 'derivative')

    def ref(q):
        out = []
        for i in range(n):
            e = [M.exp(q[i * ndout + k]) for k in range(ndout)]
            out += [v / sum(e) for v in e]
        return out
    xs = ctx.arr([v for v in x.flat])
    ctx.eq([v for v in r.flat], ref(xs), 'result')
    y, J = ctx.jac(lambda q: ctx.arr(ref(q)), xs)
    g = ctx.arr([[[ctx.real('g%d_%d_%d' % (o, i, k), -3, 3) for k in range(npar)] for i in range(n)] for o in range(ndout)])
    out = L.pipe(d, g)
    ctx.shape(out, (ndout, n, npar), 'pipe')
    for i in range(n):
        for o in range(ndout):
            for k in range(ndout):
                ctx.eq(d[o, i, k], J[i * ndout + o, i * ndout + k], 'derivative')
            for j in range(npar):
                ctx.eq(out[o, i, j], sum(J[i * ndout + o, i * ndout + k] * g[k, i, j] for k in range(ndout)), 'chain rule')


def harnesses(tier):
    out = []

    def h(name, f, *a, thorough=False, **k):
        kw = dict(paths=500, tmax=100, samples=2, qtimeout=2500)
        kw.update(k)
        out.append(H(name, f, args=a, kw={}, thorough=thorough, **kw))
    for ndim in (1, 2, 3):
        for ndout in (1, 2, 3):
            for off in (False, True):
                for normed in (True, False):
                    big = ndim * ndout > 4
                    h('softmax/%dx%d%s%s' % (ndim, ndout, '/offset' if off else '', '' if normed else '/linear'), softmax, 1 if big else 2, ndim, ndout, off, normed)
            for b in (False, True):
                h('connect/%dx%d%s' % (ndim, ndout, '/bias' if b else ''), connect, 2, ndim, ndout, b)
    h('softmax/1x2/one', softmax, 1, 1, 2, True, True)
    h('softmax/1x1/one', softmax, 1, 1, 1, True, True)
    for nm in ('Identity', 'Arctan', 'Logistic', 'Heaviside'):
        h('transfer/%s' % nm, transfer, nm, 2, 3)
        h('transfer/%s/1' % nm, transfer, nm, 1, 2)
    for k in (2, 3):
        h('softmax/layer/%d' % k, soft, 2 if k == 2 else 1, k, 2)
    return out
