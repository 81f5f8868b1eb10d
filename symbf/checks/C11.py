"""C11  problems: how model and data are presented to the likelihood."""
import itertools
import math
from ..harness import H
from ..abstract import leafclass
from .C09 import cell

BOUNDS = ('arbitrary (uninterpreted) models of 2 parameters, 1-2 outputs, 1-3 data points with symbolic data, weights, accuracies and covariances; classic, cyclic (period for the whole '
          'result or for some outputs), multiple-output, errors-in-xy and evidence problems; order problems with 3-4 nodes in 1-2 dimensions, every permutation, every distance')
ASSUMPTIONS = ['data and model results of cyclic problems both lie within one period',
               'weights, accuracies, scales are positive; correlations lie between -0.9 and 0.9',
               'nodes are at least 0.01 apart in the first coordinate (4 nodes: in order on a line)']


def forms(ctx, v, form):
    return v if form == 'array' else [t for t in v]


def shortest(ctx, r, d, period, label):
    """r is d modulo the period, the short way round"""
    k = ctx.np.abs
    ctx.le(k(r), period / 2, label + ': at most half a period')
    ctx.eq((r - d) * (r - d - period) * (r - d + period), 0, label + ': whole periods')


def classic(ctx, cls, n, wgt, acc, form):
    P = ctx.pkg
    m = leafclass(ctx)('f', 2)
    x, y, p = ctx.reals('x', n), ctx.reals('y', n), ctx.reals('p', 2)
    w = forms(ctx, ctx.reals('w', n, 0.1, 3), form) if wgt else None
    a = None if acc is None else ctx.reals('a', n, 0.3, 3) if acc == 'each' else ctx.real('a', 0.3, 3)
    prb = getattr(P, cls)(model=m, xdata=forms(ctx, x, form), ydata=forms(ctx, y, form), weights=w, accuracy=a)

    def look(prb, tag):
        f = [cell(ctx, 'f', x[i], p) for i in range(n)]
        r = [y[i] - f[i] for i in range(n)]
        ctx.eq(prb.result(p), ctx.arr(f), tag + 'result')
        ctx.eq(prb.residuals(p), ctx.arr(r), tag + 'residuals')
        mock = ctx.reals('mock', n)
        ctx.eq(prb.residuals(p, mockdata=mock), y - mock, tag + 'residuals from mock data')
        ctx.eq(prb.partial(p), m.partial(x, p), tag + 'partial')
        ctx.eq(prb.derivative(p), m.derivative(x, p), tag + 'derivative')
        ww = [1] * n if w is None else w
        ctx.eq(prb.weightedResSq(p), ctx.arr([ww[i] * r[i] * r[i] for i in range(n)]), tag + 'weighted squares')
        more = prb.weightedResSq(ctx.np.append(p, ctx.arr([7.0])), extra=True)
        ctx.eq(more[0], ctx.arr([ww[i] * r[i] * r[i] for i in range(n)]), tag + 'weighted squares, with extra')
        ctx.eq(more[1], ctx.arr([ww[i] * r[i] for i in range(n)]), tag + 'weighted residuals')
        ctx.eq(prb.sumweight, sum(ww), tag + 'sum of weights')
        ctx.check(prb.ndata == n, tag + 'number of data')
        ctx.check(prb.npars == 2, tag + 'number of parameters')
        ctx.check(bool(prb.hasWeights()) == wgt, tag + 'has weights')
        ctx.check(bool(prb.hasAccuracy) == (acc is not None), tag + 'has accuracy')
        ctx.eq(prb.varyy, 0 if a is None else a * a, tag + 'variance')
        ctx.eq(prb.accuracy, 0 if a is None else a, tag + 'accuracy')
    look(prb, '')
    two = prb.copy()
    look(two, 'copy: ')
    ctx.check(type(two) is type(prb), 'copy: class')
    nw = ctx.reals('nw', n, 0.1, 3)
    two.weights = nw
    ctx.eq(two.sumweight, sum(nw), 'sum of new weights')
    look(prb, 'original of a changed copy: ')
    w = two.weights
    wgt = True
    look(two, 'changed copy: ')


def cyclic(ctx, n, copied, wgt):
    P = ctx.pkg
    m = leafclass(ctx)('f', 2)
    T = ctx.real('period', 0.5, 8)
    P.module('Tools').setAttribute(m, 'cyclic', T)
    x, y, p = ctx.reals('x', n), ctx.reals('y', n), ctx.reals('p', 2)
    w = ctx.reals('w', n, 0.1, 3) if wgt else None
    prb = P.ClassicProblem(model=m, xdata=x, ydata=y, weights=w)
    if copied:
        prb = prb.copy()
    d = []
    for i in range(n):
        f = cell(ctx, 'f', x[i], p)
        for v in (f, y[i]):
            ctx.assume(v >= 0)
            ctx.assume(v <= T)
        d.append(y[i] - f)
    r = prb.residuals(p)
    mr = prb.residuals(p, mockdata=prb.result(p))
    sq = prb.weightedResSq(p)
    for i in range(n):
        shortest(ctx, r[i], d[i], T, 'residual')
        ctx.eq(mr[i], r[i], 'residual from mock data')
        ctx.eq(sq[i], r[i] * r[i] * (1 if w is None else w[i]), 'weighted square')
    ctx.eq(prb.ydata, y, 'data untouched')


def cyclicparts(ctx, n, keys, mock):
    """only some outputs are cyclic"""
    P = ctx.pkg
    m = leafclass(ctx)('f', 2, ndout=2)
    T = {k: ctx.real('period%d' % k, 0.5, 8) for k in keys}
    P.module('Tools').setAttribute(m, 'cyclic', T)
    x, y, p = ctx.reals('x', n), ctx.mat('y', n, 2), ctx.reals('p', 2)
    prb = P.MultipleOutputProblem(model=m, xdata=x, ydata=y)
    keep = ctx.np.array(y)
    r = prb.residuals(p, mockdata=m.result(x, p)) if mock else prb.residuals(p)
    ctx.shape(r, (2 * n,), 'flat')
    for i in range(n):
        for o in range(2):
            f = ctx.fn('f.%d' % o, 3)(x[i], p[0], p[1])
            v = r[2 * i + o]
            if o in T:
                for q in (f, y[i, o]):
                    ctx.assume(q >= 0)
                    ctx.assume(q <= T[o])
                shortest(ctx, v, y[i, o] - f, T[o], 'output %d' % o)
            else:
                ctx.eq(v, y[i, o] - f, 'output %d' % o)
    ctx.eq(prb.ydata, keep, 'data untouched')


def multi(ctx, n, ndout, wgt, acc, form):
    P = ctx.pkg
    m = leafclass(ctx)('f', 2, ndout=ndout)
    x, y, p = ctx.reals('x', n), ctx.mat('y', n, ndout), ctx.reals('p', 2)

    def vals(kind, name):
        if kind is None:
            return None, [None] * (n * ndout)
        if kind == 'one':
            v = ctx.real(name, 0.3, 3)
            return v, [v] * (n * ndout)
        if kind == 'row':
            v = ctx.reals(name, n, 0.3, 3)
            return forms(ctx, v, form), [v[i] for i in range(n) for o in range(ndout)]
        v = ctx.mat(name, n, ndout, 0.3, 3)
        return ([[t for t in r] for r in v] if form == 'list' else v), [v[i, o] for i in range(n) for o in range(ndout)]
    w, wl = vals(wgt, 'w')
    a, al = vals(acc, 'a')
    prb = P.MultipleOutputProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=a)
    for prb, tag in ((prb, ''), (prb.copy(), 'copy: ')):
        f = [ctx.fn('f.%d' % o, 3)(x[i], p[0], p[1]) for i in range(n) for o in range(ndout)]
        res = [y[i, o] - f[i * ndout + o] for i in range(n) for o in range(ndout)]
        ctx.eq(prb.residuals(p), ctx.arr(res), tag + 'residuals')
        ctx.eq(prb.weightedResSq(p), ctx.arr([r * r * (1 if v is None else v) for r, v in zip(res, wl)]), tag + 'weighted squares')
        ctx.eq(prb.sumweight, len(res) if wgt is None else sum(wl), tag + 'sum of weights')
        ctx.check(prb.ndata == n * ndout, tag + 'number of data')
        if acc == 'one':
            ctx.eq(prb.varyy, al[0] * al[0], tag + 'variance')
        elif acc is not None:
            ctx.eq(prb.varyy, ctx.arr([v * v for v in al]), tag + 'variance')
        else:
            ctx.eq(prb.varyy, 0, tag + 'variance')
        part = prb.partial(p)
        ctx.shape(part, (n * ndout, 2), tag + 'shape of the partials')
        for i in range(n):
            for o in range(ndout):
                for k in range(2):
                    mi = [0, 0, 0]
                    mi[1 + k] = 1
                    ctx.eq(part[i * ndout + o, k], ctx.dfn('f.%d' % o, 3, mi)(x[i], p[0], p[1]), tag + 'partial')


def covariance(ctx, n, how):
    """covariance (yy, xx, xy) per point, in every form"""
    kw, c = {}, None
    if how is None:
        c = [(0, 0, 0)] * n
    elif how == 'scalar':
        a = ctx.real('a', 0.3, 3)
        kw['accuracy'] = a
        return kw, None
    elif how in ('two', 'three', 'each2', 'each3'):
        rows = []
        for i in range(n if how.startswith('each') else 1):
            a = [ctx.real('ay%d' % i, 0.3, 3), ctx.real('ax%d' % i, 0.3, 3)]
            if how.endswith('3') or how == 'three':
                a.append(ctx.real('r%d' % i, -0.9, 0.9))
            rows.append(a)
        kw['accuracy'] = ctx.arr(rows) if how.startswith('each') else ctx.arr(rows[0])
        c = [(a[0] * a[0], a[1] * a[1], a[0] * a[1] * a[2] if len(a) > 2 else 0) for a in rows]
    else:
        c = []
        for i in range(n if how == 'covars' else 1):
            sy, sx, r = ctx.real('sy%d' % i, 0.3, 3), ctx.real('sx%d' % i, 0.3, 3), ctx.real('r%d' % i, -0.9, 0.9)
            c.append((sy * sy, sx * sx, r * sy * sx))
        mats = [[[v[0], v[2]], [v[2], v[1]]] for v in c]
        kw['covar'] = ctx.arr(mats) if how == 'covars' else ctx.arr(mats[0])
    if len(c) < n:
        c = c * n
    return kw, c


def inxy(ctx, n, how, wgt, later):
    P = ctx.pkg
    m = leafclass(ctx)('f', 2)
    x, y, p, xt = ctx.reals('x', n), ctx.reals('y', n), ctx.reals('p', 2), ctx.reals('xt', n)
    w = ctx.reals('w', n, 0.1, 3) if wgt else None
    kw, c = covariance(ctx, n, how)
    prior = P.GaussPrior(scale=2.0)
    if later:
        prb = P.ErrorsInXandYProblem(model=m, xdata=x, ydata=y, weights=w, prior=prior)
        for k in kw:
            setattr(prb, k, kw[k])
    else:
        prb = P.ErrorsInXandYProblem(model=m, xdata=x, ydata=y, weights=w, prior=prior, **kw)
    keep = {k: ctx.np.array(kw[k]) for k in kw}
    s = ctx.real('s', 0.3, 3)
    allp = ctx.np.append(p, xt)
    allps = ctx.np.append(allp, ctx.arr([s]))
    orig = prb
    for prb, tag in ((prb, ''), (prb.copy(), 'copy: ')):
        ctx.check(prb.npars == 2 + n, tag + 'number of parameters')
        ctx.check(prb.ndata == n, tag + 'number of data')
        f = [cell(ctx, 'f', xt[i], p) for i in range(n)]
        ctx.eq(prb.result(allp), ctx.arr(f), tag + 'result at the targets')
        yres, xres = prb.getXYresiduals(allp)
        ctx.eq(yres, ctx.arr([y[i] - f[i] for i in range(n)]), tag + 'y residuals')
        ctx.eq(xres, x - xt, tag + 'x residuals')
        ctx.check(bool(prb.hasAccuracy) == (how is not None), tag + 'has accuracy')
        res2 = prb.weightedResSq(allps)
        r2, yx, xyr2 = prb.weightedResSq(allps, extra=True)
        for i in range(n):
            wi = 1 if w is None else w[i]
            vyy, vxx, vxy = c[i][0] + s * s, c[i][1] + s * s, c[i][2]
            det = vyy * vxx - vxy * vxy
            ry, rx = y[i] - f[i], x[i] - xt[i]
            ctx.eq(res2[i] * det, wi * (ry * ry * vxx + rx * rx * vyy - 2 * rx * ry * vxy), tag + 'squared distance in the metric of the errors')
            ctx.eq(r2[i] * det, wi * (ry * ry * vxx + rx * rx * vyy - 2 * rx * ry * vxy), tag + 'squared distance, with extra')
            ctx.eq(yx[i] * det, wi * (ry * vxx - rx * vxy), tag + 'scaled y residual')
            ctx.eq(yx[n + i] * det, wi * (rx * vyy - ry * vxy), tag + 'scaled x residual')
            ctx.eq(xyr2[i], wi * (ry * ry + rx * rx), tag + 'plain squares')
        part = prb.partial(allp)
        ctx.shape(part, (2 * n, 2 + n), tag + 'shape of the partials')
        mp, md = m.partial(xt, p), m.derivative(xt, p)
        for i in range(n):
            for k in range(2):
                ctx.eq(part[i, k], mp[i, k], tag + 'partial to the parameters')
                ctx.eq(part[n + i, k], 0, tag + 'x does not depend on the parameters')
            for j in range(n):
                ctx.eq(part[i, 2 + j], md[i] if i == j else 0, tag + 'partial to the targets')
                ctx.eq(part[n + i, 2 + j], 1 if i == j else 0, tag + 'targets')
        ctx.eq(prb.derivative(allp), md, tag + 'derivative')
        for i in range(n):
            u = ctx.real('%su%d' % (tag[:1], i), 0.05, 0.95)
            ctx.eq(prb.unit2Domain(u, 2 + i), prior.unit2Domain(u) + x[i], tag + 'target from unit')
            ctx.eq(prb.domain2Unit(xt[i], 2 + i), prior.domain2Unit(xt[i] - x[i]), tag + 'target to unit')
        ctx.eq(prb.weightedResSq(allps), res2, tag + 'same again')
    for k in kw:
        ctx.eq(kw[k], keep[k], 'handed over values untouched')
    if how in ('two', 'covar'):
        nv = ctx.arr([ctx.real('b0', 0.3, 3), ctx.real('b1', 0.3, 3)])
        prb.accuracy = nv
        ctx.eq(prb.varyy, nv[0] * nv[0], 'new accuracy in y')
        ctx.eq(prb.varxx, nv[1] * nv[1], 'new accuracy in x')
        ctx.eq(prb.varxy, 0, 'no correlation')
        ctx.eq(orig.weightedResSq(allps), res2, 'original of a changed copy')


def reduces(ctx, n, wgt):
    """errors in x vanish: as the classic problem"""
    P = ctx.pkg
    m = leafclass(ctx)('f', 2)
    x, y, p = ctx.reals('x', n), ctx.reals('y', n), ctx.reals('p', 2)
    w = ctx.reals('w', n, 0.1, 3) if wgt else None
    s = ctx.real('s', 0.3, 3)
    one = P.ClassicProblem(model=m, xdata=x, ydata=y, weights=w)
    two = P.ErrorsInXandYProblem(model=m, xdata=x, ydata=y, weights=w, prior=P.GaussPrior(scale=1.0))
    r1 = one.weightedResSq(ctx.np.append(p, ctx.arr([s])))
    r2 = two.weightedResSq(ctx.np.append(ctx.np.append(p, x), ctx.arr([s])))
    for i in range(n):
        ctx.eq(r2[i] * s * s, r1[i], 'classic squares')


def evidence(ctx, wgt, kind):
    P = ctx.pkg
    n = 3
    x, y = ctx.reals('x', n), ctx.reals('y', n)
    w = ctx.reals('w', n, 0.1, 3) if wgt else None
    m = P.PolynomialDynamicModel(1) if kind == 'dynamic' else P.PolynomialModel(1)
    if kind != 'dynamic':
        ctx.raises(ValueError, lambda: P.EvidenceProblem(model=m, xdata=x, ydata=y), 'static models are refused')
        return
    prb = P.EvidenceProblem(model=m, xdata=x, ydata=y, weights=w)
    cls = P.ClassicProblem(model=m, xdata=x, ydata=y, weights=w)
    p = ctx.reals('p', m.npars)
    for q, tag in ((prb, ''), (prb.copy(), 'copy: ')):
        for name in ('result', 'residuals', 'weightedResSq', 'partial'):
            ctx.eq(getattr(q, name)(p), getattr(cls, name)(p), tag + name)
        ctx.eq(q.sumweight, cls.sumweight, tag + 'sum of weights')
        ctx.check(q.npars == cls.npars and q.ndata == n, tag + 'numbers')
    ctx.check(prb.copy().model is not prb.model, 'dynamic models are copied')
    two = cls.copy()
    ctx.check(two.model is not cls.model, 'dynamic models are copied (classic)')


def dist(ctx, kind, a, b):
    if kind == 'manhattan':
        return sum(ctx.np.abs(u - v) for u, v in zip(a, b))
    if kind == 'euclid':
        return ctx.np.sqrt(sum((u - v) * (u - v) for u, v in zip(a, b)))
    raise AssertionError(kind)


def salesman(ctx, kind, n, ndim, wgt, oneway, scale, copied):
    P = ctx.pkg
    if kind == 'table':
        t = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                t[i][j] = t[j][i] = ctx.real('t%d%d' % (i, j), 0.1, 4)
        x = ctx.np.arange(n).reshape(-1, 1)
        tab = ctx.arr(t) if wgt else t
        kw = dict(distance='table', table=tab)

        def D(i, j):
            return t[i][j]
    else:
        x = ctx.mat('x', n, ndim, -5, 5)
        if n == 3:
            for i in range(n):
                for j in range(i):
                    ctx.assume(ctx.np.abs(x[i, 0] - x[j, 0]) > 0.01)
        else:
            for i in range(1, n):
                for k in range(ndim):
                    ctx.assume(x[i, k] > x[i - 1, k] + 0.01)
        kw = dict(distance=kind)
        if kind == 'callable':
            def user(xdata, pars):
                nx = len(pars)
                return ctx.arr([ctx.np.abs(xdata[pars[k], 0] - xdata[pars[(k + 1) % nx], 0]) for k in range(nx)])
            kw = dict(distance=user)

        def D(i, j):
            if kind == 'callable':
                return ctx.np.abs(x[i, 0] - x[j, 0])
            if kind == 'unknown':
                return dist(ctx, 'euclid', x[i], x[j])
            return dist(ctx, kind, x[i], x[j])
    w = ctx.reals('w', n, 0.1, 3) if wgt else None
    sc = ctx.real('scale', 0.1, 4) if scale else None
    prb = P.SalesmanProblem(x, weights=w, scale=sc, oneway=oneway, **kw)
    if sc is None:
        sc = prb.scale
        prod = 1
        for i in range(n):
            for j in range(i):
                ctx.le(sc * sc, D(i, j) * D(i, j), 'scale is the smallest distance')
                prod = prod * (sc - D(i, j))
        ctx.eq(prod, 0, 'scale is one of the distances')
        ctx.le(0, sc, 'scale is positive')
    else:
        ctx.eq(prb.scale, sc, 'scale as given')
    if copied:
        prb = prb.copy()
    ctx.check(prb.npars == n and prb.ndata == n, 'numbers')
    ctx.check(list(prb.parameters) == list(range(n)), 'initial order')
    perms = list(itertools.permutations(range(n)))
    if scale:
        perms = perms if n < 4 else [q for k, q in enumerate(perms) if k % 3 == 0]
    else:
        perms = perms[1:2]
    ed = P.DistanceCostFunction()
    for q in perms:
        r = prb.result(ctx.np.array(q))
        ctx.check(len(r) == n, 'one distance per leg')
        tot = 0
        for k in range(n):
            want = D(q[k], q[(k + 1) % n])
            if oneway and k == n - 1:
                want = 0
            want = want * (1 if w is None else w[q[k]])
            ctx.eq(r[k] * sc, want, 'leg')
            tot = tot + want
        ctx.eq(ed.logLikelihood(prb, ctx.np.array(q)) * sc, -tot, 'cost')
        ctx.eq(ed.logLikelihood_alt(prb, ctx.np.array(q)) * sc, -tot, 'cost, alternative route')


def sphere(ctx, n):
    """spherical distance: cos of the distance is the inner product of the positions"""
    P = ctx.pkg
    x = ctx.mat('x', n, 2, -60, 60)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.abs(x[i, 1] - x[j, 1]) > 5)
    prb = P.SalesmanProblem(x, distance='spherical', scale=1.0)
    rad = ctx.math.pi / 180
    co, si = ctx.np.cos, ctx.np.sin
    for q in ([0, 1], [1, 0]) if n == 2 else ([0, 2, 1], [1, 0, 2]):
        r = prb.result(ctx.np.array(q))
        for k in range(n):
            a, b = x[q[k]], x[q[(k + 1) % n]]
            u, v = [t * rad / 2 for t in a], [t * rad / 2 for t in b]
            dlat = si(v[1]) * co(u[1]) - si(u[1]) * co(v[1])
            dlon = si(v[0]) * co(u[0]) - si(u[0]) * co(v[0])
            s2 = dlat * dlat + co(a[1] * rad) * co(b[1] * rad) * dlon * dlon
            ctx.assume(s2 < 0.99)
            t = ctx.np.tan(r[k] / 2)
            ctx.eq(t * t * (1 - s2), s2, 'haversine')
            ctx.le(0, r[k], 'positive')


def harnesses(tier):
    hs = []
    for n in (1, 2, 3):
        for w in (False, True):
            for a in (None, 'one', 'each'):
                for form in ('array', 'list'):
                    hs.append(H('classic/%d/%s/%s/%s' % (n, w, a, form), classic, ('ClassicProblem', n, w, a, form)))
    for n in (1, 2):
        for c in (False, True):
            for w in (False, True):
                hs.append(H('cyclic/%d/%s/%s' % (n, c, w), cyclic, (n, c, w)))
        for keys in ((0,), (1,), (0, 1)):
            for mock in (False, True):
                hs.append(H('cyclic-outputs/%d/%s/%s' % (n, keys, mock), cyclicparts, (n, keys, mock), thorough=n == 2 and len(keys) == 2))
    for n in (1, 2):
        for o in (2, 3):
            for w, a in ((None, None), ('row', 'row'), ('all', None), (None, 'one'), ('all', 'all'), ('row', 'one')):
                for form in ('array', 'list'):
                    hs.append(H('outputs/%d/%d/%s-%s/%s' % (n, o, w, a, form), multi, (n, o, w, a, form)))
    for n in (1, 2):
        for how in (None, 'two', 'three', 'each2', 'each3', 'covar', 'covars'):
            for w in (False, True):
                for later in (False, True):
                    hs.append(H('errors-in-xy/%d/%s/%s/%s' % (n, how, w, later), inxy, (n, how, w, later)))
        for w in (False, True):
            hs.append(H('errors-in-xy/reduces/%d/%s' % (n, w), reduces, (n, w)))
    for w in (False, True):
        for k in ('dynamic', 'static'):
            hs.append(H('evidence/%s/%s' % (k, w), evidence, (w, k)))
    for kind in ('manhattan', 'euclid', 'callable', 'unknown', 'table'):
        for n in (3, 4):
            for w, o, s, c in ((False, False, True, False), (True, False, True, True), (False, True, True, False), (True, True, True, True), (False, False, False, False)):
                nd = 1 if kind in ('callable', 'table') or n == 4 or not s and kind != 'manhattan' else 2
                hs.append(H('salesman/%s/%d/%s%s%s%s' % (kind, n, 'w' if w else '-', 'o' if o else '-', 's' if s else '-', 'c' if c else '-'), salesman,
                            (kind, n, nd, w, o, s, c), thorough=n == 4 and kind in ('unknown', 'callable') or s and w != o and kind in ('euclid', 'unknown') and n == 3))
    hs.append(H('salesman/sphere/2', sphere, (2,)))
    hs.append(H('salesman/sphere/3', sphere, (3,), thorough=True))
    return hs
