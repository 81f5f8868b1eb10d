"""C14  iterative fits: accepted steps, reported values, kept parameters, limits."""
from ..harness import H
from ..abstract import leafclass

BOUNDS = ('LevenbergMarquardtFitter on arbitrary (uninterpreted, differentiable) models of 1-2 parameters with 1-2 data points, at most 3 iterations, with weights, accuracies, kept parameters (at '
          'construction or per fit), limits, normalising measurements and initial parameters inside or outside the limits; every way to end (converged, too many iterations)')
ASSUMPTIONS = ['the (damped) Hessian is regular, the residuals do not vanish altogether']


def setup(ctx, npar, n, wgt, acc, keep, limits, norm):
    P = ctx.pkg
    m = leafclass(ctx)('f', npar)
    x, y = ctx.reals('x', n), ctx.reals('y', n)
    kw, fk, nk = {}, {}, {}
    w = ctx.reals('w', n, 0.1, 3) if wgt else [1] * n
    if wgt:
        kw['weights'] = w
    if acc == 'each':
        a = ctx.reals('a', n, 0.3, 3)
        w = [p / (q * q) for p, q in zip(w, a)]
        kw['accuracy'] = a
    elif acc == 'one':
        a = ctx.real('a', 0.3, 3)
        w = [p / (a * a) for p in w]
        kw['accuracy'] = a
    kd = {}
    if keep:
        kd = {k: ctx.real('keep%d' % k, -1, 1) for k in keep[1]}
        (nk if keep[0] == 'new' else fk)['keep'] = kd
    lim = None
    if limits:
        lim = [(-1.5, 1.5)] * npar if limits == 'given' else [(ctx.real('lo%d' % k, -2, -1), ctx.real('hi%d' % k, 1, 2)) for k in range(npar)]
        m.setLimits(ctx.arr([t[0] for t in lim]), ctx.arr([t[1] for t in lim]))
    m.parameters = ctx.reals('start', npar)
    ft = P.LevenbergMarquardtFitter(x, m, **nk)
    extra = None
    if norm:
        extra = (ctx.reals('nd', npar), ctx.real('nv'), ctx.real('nw', 0.3, 3))
        ft.normalize(extra[0], extra[1], weight=extra[2])

    def f(i, p):
        return ctx.fn('f', 1 + npar)(x[i], *[p[k] for k in range(npar)])

    def chi(p, both=True):
        c = sum(w[i] * (y[i] - f(i, p)) * (y[i] - f(i, p)) for i in range(n))
        if extra is not None and both:
            r = sum(a * b for a, b in zip(extra[0], p)) - extra[1]
            c = c + r * (r * extra[2])
        return c
    return ft, m, y, kw, fk, kd, lim, f, chi, n


def levmar(ctx, npar, n, wgt, acc, keep, limits, norm, par0, steps):
    ft, m, y, kw, fk, kd, lim, f, chi, n = setup(ctx, npar, n, wgt, acc, keep, limits, norm)
    ini = [v for v in m.parameters]
    if par0:
        p0 = ctx.reals('p0', npar)
        kw['par0'] = p0
        ini = [v for v in p0]
    for k in kd:
        ini[k] = kd[k]
    if lim:
        for k in range(npar):
            if k not in kd:
                ini[k] = lim[k][0] if ini[k] < lim[k][0] else lim[k][1] if ini[k] > lim[k][1] else ini[k]
    ended = True
    try:
        p = ft.fit(y, maxiter=steps, tolerance=0.3, verbose=0, **kw, **fk)
    except ValueError as e:
        if 'chisq' in str(e):
            ctx.assume(False)
        raise
    except ctx.pkg.ConvergenceError:
        ended = False
        p = m.parameters
    p = [v for v in p]
    ctx.check(len(p) == npar, 'number of parameters')
    for k in kd:
        ctx.eq(p[k], kd[k], 'kept parameter')
    if ended or ft.iter > 1:
        pass
    if ended:
        ctx.le(chi(p), chi(ini), 'no worse than at the start')
        ctx.eq(m.parameters, ctx.arr(p), 'parameters of the model')
        ctx.eq(ft.parameters, ctx.arr(p), 'parameters of the fitter')
        ctx.eq(ft.chisq, chi(p, False), 'chisq of the parameters returned')
        ctx.eq(ft.yfit, ctx.arr([f(i, p) for i in range(n)]), 'fitted values')
        ctx.check(bool(ft.converged), 'converged')
        ctx.check(ft.iter <= steps, 'number of iterations')
        if lim:
            for k in range(npar):
                if k not in kd:
                    ctx.le(lim[k][0], p[k], 'above the low limit')
                    ctx.le(p[k], lim[k][1], 'below the high limit')
        D = [[ctx.dfn('f', 1 + npar, [0] + [1 if q == k else 0 for q in range(npar)])(ft.xdata[i], *p) for k in range(npar)] for i in range(n)]
        free = [k for k in range(npar) if k not in kd]
        if not norm:
            w = ft.fitWgts
            one = [w] * n if getattr(w, 'shape', ()) == () else w
            Hs = ctx.arr([[sum(one[i] * D[i][j] * D[i][k] for i in range(n)) for k in free] for j in free])
            ctx.eq(ft.hessian, Hs, 'hessian at the parameters returned')
    else:
        # the model holds the last accepted set, or what it started with when no step was accepted
        if not (par0 or lim or kd):
            ctx.le(chi(p), chi(ini), 'no worse than at the start, when it gave up')


def again(ctx, npar, steps):
    """a second fit starts where the first one ended"""
    ft, m, y, kw, fk, kd, lim, f, chi, n = setup(ctx, npar, 1, False, None, None, None, False)
    try:
        p = [v for v in ft.fit(y, maxiter=steps, tolerance=0.3, verbose=0)]
        q = [v for v in ft.fit(y, maxiter=steps, tolerance=0.3, verbose=0)]
    except (ValueError, ctx.pkg.ConvergenceError):
        ctx.assume(False)
    ctx.le(chi(q), chi(p), 'no worse than at the end of the first fit')


def harnesses(tier):
    hs = []
    for steps in (1, 2, 3):
        for npar, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for w, a in ((False, None), (True, None), (True, 'each'), (False, 'one')):
                for par0 in (False, True):
                    hs.append(H('levmar/%d/%d-%d/%s-%s/%s' % (steps, npar, n, w, a, par0), levmar, (npar, n, w, a, None, None, False, par0, steps), tmax=120, qtimeout=600,
                                thorough=steps == 3 or npar == 2 or par0 and w))
            for lim in ('given', 'own'):
                for par0 in (False, True):
                    hs.append(H('limits/%d/%d-%d/%s/%s' % (steps, npar, n, lim, par0), levmar, (npar, n, False, None, None, lim, False, par0, steps), tmax=120, qtimeout=600,
                                thorough=steps == 3 or npar == 2 or n == 2))
            hs.append(H('normalize/%d/%d-%d' % (steps, npar, n), levmar, (npar, n, False, None, None, None, True, False, steps), tmax=120, qtimeout=600, thorough=steps > 1 or npar == 2))
        for when in ('new', 'fit'):
            for ks in ([0], [1]):
                for par0 in (False, True):
                    for lim in (None, 'given'):
                        hs.append(H('keep/%d/%s-%s/%s/%s' % (steps, when, ks, par0, lim), levmar, (2, 2 if lim is None else 1, False, None, (when, ks), lim, False, par0, steps), tmax=120, qtimeout=600,
                                    thorough=steps == 3 or lim and steps > 1))
    hs.append(H('again/1', again, (1, 2), thorough=True))
    return hs
