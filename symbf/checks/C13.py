"""C13  uncertainties and evidence reported after a linear fit."""
from ..harness import H
from .C12 import Fit, linclass

BOUNDS = ('linear fits as in C12: arbitrary basis functions, 1-3 parameters of which 1-2 are fitted, 2-4 data points; weights, accuracies (one, each), kept parameters at construction '
          'or per fit, normalising measurements, minimum scale, fixed scale, noise limits; limits as keyword (one or per parameter) or as priors of simple and compound models')
ASSUMPTIONS = ['the Hessian is regular, the residuals do not vanish altogether and the (weighted) number of data points exceeds the number of fitted parameters',
               'priors are uniform; limits handed over as keyword concern the fitted parameters',
               'Gaussian approximation of the evidence; the noise scale has a Jeffreys prior']


def dofs(ctx, f):
    dof = f.sumw - len(f.free)
    ctx.assume(dof > 0.1)
    return dof


def uncertainty(ctx, cls, kind, npar, n, wgt, acc, keep=None, norms=0, minscale=False, order=0):
    f = Fit(ctx, cls, kind, npar, n, wgt, acc, keep, norms)
    ft = f.fitter
    if minscale:
        ms = ctx.real('minscale', 0.1, 2)
        ft.setMinimumScale(ms)
    p = f.fit()
    nf = len(f.free)
    dof = dofs(ctx, f)
    chisq = ft.chisq
    H_ = f.hessian()
    if order:
        ft.stdevs
        if norms == 0 and kind == 'basis':
            ft.getLogZ(limits=[-1.0, 1.0])
    ctx.eq(ft.hessian, ctx.arr(H_), 'hessian')
    var = chisq / dof
    ctx.eq(ft.scale * ft.scale, var, 'scale')
    ctx.le(0, ft.scale, 'scale is positive')
    ctx.eq(ft.stdevScale * ft.stdevScale * 2 * f.sumw, ft.scale * ft.scale, 'standard deviation of the scale')
    if minscale:
        var = var + ms * ms
    cov = ft.covariance
    ctx.shape(cov, (nf, nf), 'shape of the covariance')
    for i in range(nf):
        for j in range(nf):
            ctx.eq(sum(cov[i, k] * H_[k][j] for k in range(nf)), var if i == j else 0, 'covariance')
    sd = ft.stdevs
    ctx.shape(sd, (npar,), 'shape of the standard deviations')
    for k in range(npar):
        if k in f.free:
            i = f.free.index(k)
            ctx.eq(sd[k] * sd[k], cov[i, i], 'standard deviation')
            ctx.le(0, sd[k], 'positive standard deviation')
        else:
            ctx.eq(sd[k], 0, 'kept parameters have no deviation')
    ctx.eq(f.model.stdevs, sd, 'deviations in the model')
    ctx.eq(ft.standardDeviations, sd, 'same deviations again')
    ctx.eq(ft.parameters, p, 'parameters')
    ctx.eq(ft.chisq, chisq, 'chisq')


def toofew(ctx, cls, npar):
    """no degrees of freedom left: weights summing to less than the number of parameters"""
    f = Fit(ctx, cls, 'basis', npar, npar + 1, True)
    ctx.assume(f.sumw < npar - 0.1)
    f.fit()
    ctx.raises(RuntimeError, lambda: f.fitter.scale, 'no scale without degrees of freedom')
    ctx.raises(RuntimeError, lambda: f.fitter.getLogZ(limits=[-1.0, 1.0]), 'no evidence without degrees of freedom')


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(n))


def evidence(ctx, cls, kind, npar, n, wgt, acc, keep, how, noise, first, again=False):
    f = Fit(ctx, cls, kind, npar, n, wgt, acc, keep)
    ft = f.fitter
    log, pi = ctx.math.log, ctx.math.pi
    lo = [ctx.real('lo%d' % k, -9, -1) for k in range(npar)]
    hi = [ctx.real('hi%d' % k, 1, 9) for k in range(npar)]
    nf = len(f.free)
    kw = {}
    if how == 'priors':
        f.model.setLimits(ctx.arr(lo), ctx.arr(hi))
        rng = [hi[k] - lo[k] for k in f.free]
    elif how == 'short':
        f.model.setLimits(ctx.arr(lo[:1]), ctx.arr(hi[:1]))
        rng = [hi[0] - lo[0]] * nf
    elif how == 'one':
        kw['limits'] = [lo[0], hi[0]]
        rng = [hi[0] - lo[0]] * nf
    else:
        kw['limits'] = [ctx.arr(lo[:nf]), ctx.arr(hi[:nf])]
        rng = [hi[k] - lo[k] for k in range(nf)]
    p = f.fit()
    dof = dofs(ctx, f)
    fix = None
    if noise == 'limits':
        s0, s1 = ctx.real('s0', 0.01, 0.5), ctx.real('s1', 2, 50)
        kw['noiseLimits'] = [s0, s1]
    elif noise == 'fixed':
        fix = ctx.real('fixed', 0.3, 3)
        ft.fixedScale = fix
    if first == 'covariance':
        ft.covariance
    elif first == 'stdevs':
        ft.stdevs
    s2 = ft.chisq / dof if noise == 'limits' else 1 if fix is None else fix * fix
    logL = -0.5 * f.sumw * log(2 * pi * s2) - 0.5 * ft.chisq / s2
    if acc == 'one':
        logL = logL - f.sumw * log(f.a)
    elif acc == 'each':
        logL = logL - sum((1 if f.w is None else f.w[i]) * log(f.a[i]) for i in range(n))
    logZ = logL + 0.5 * nf * log(2 * pi * s2) - 0.5 * log(det(f.hessian())) - sum(log(r) for r in rng)
    if noise == 'limits':
        logZ = logZ + 0.5 * log(pi / dof) - log(log(s1) - log(s0))
    got = ft.getLogZ(**kw)
    ctx.eq(got, logZ, 'evidence')
    ctx.eq(ft.logLikelihood, logL, 'log likelihood')
    ctx.eq(ft.logOccam, logZ - logL, 'Occam factor')
    ctx.eq(ft.getEvidence(**kw) * log(10.0), logZ, '10-log of the evidence')
    if not kw:
        ctx.eq(ft.logZ, logZ, 'evidence as attribute')
        ctx.eq(ft.evidence * log(10.0), logZ, '10-log as attribute')


def compound(ctx, cls, wgt, noise):
    """priors of every component count"""
    P = ctx.pkg
    L = linclass(ctx)
    log, pi = ctx.math.log, ctx.math.pi
    n = 3
    a, b = L('phi', 1), L('psi', 1)
    lo = [ctx.real('lo%d' % k, -9, -1) for k in range(2)]
    hi = [ctx.real('hi%d' % k, 1, 9) for k in range(2)]
    a.setLimits(lo[0], hi[0])
    b.setLimits(lo[1], hi[1])
    f = Fit(ctx, cls, 'sum', 2, n, wgt)
    m = a + b
    ft = getattr(P, cls)(f.x, m)
    f.fitter, f.model = ft, m
    f.fit()
    dofs(ctx, f)
    logL = -0.5 * f.sumw * log(2 * pi) - 0.5 * ft.chisq
    logZ = logL + log(2 * pi) - 0.5 * log(det(f.hessian())) - log(hi[0] - lo[0]) - log(hi[1] - lo[1])
    ctx.eq(ft.logZ, logZ, 'evidence')


def arbiter(ctx, arb, kind, npar, n, wgt, noise):
    """evidence as the likelihood of a model: that of the fit by the arbiter, which also provides the parameters"""
    P = ctx.pkg
    log, pi = ctx.math.log, ctx.math.pi
    cls = 'QRFitter' if arb == 'QRFitter' else 'Fitter'
    f = Fit(ctx, cls, kind, npar, n, wgt)
    lo = [ctx.real('lo%d' % k, -9, -1) for k in range(npar)]
    hi = [ctx.real('hi%d' % k, 1, 9) for k in range(npar)]
    f.model.setLimits(ctx.arr(lo), ctx.arr(hi))
    sol = [v for v in f.fit()]
    dof = dofs(ctx, f)
    chisq = f.fitter.chisq
    if noise == 'limits':
        s0, s1 = ctx.real('s0', 0.01, 0.5), ctx.real('s1', 2, 50)
        scale, s2, kw = None, chisq / dof, dict(limits=[s0, s1])
    else:
        scale = ctx.real('s', 0.3, 3)
        s2, kw = scale * scale, dict(scale=scale)
    if arb == 'QRFitter':
        arb = P.QRFitter(f.x, f.model)
        if noise != 'limits':
            s2 = 1
    ed = P.ModelDistribution(arbiter=arb, **kw)
    prb = P.ClassicProblem(model=f.model, xdata=f.x, ydata=f.y, weights=f.w)
    logL = -0.5 * f.sumw * log(2 * pi * s2) - 0.5 * chisq / s2
    logZ = logL + 0.5 * npar * log(2 * pi * s2) - 0.5 * log(det(f.hessian())) - sum(log(hi[k] - lo[k]) for k in range(npar))
    if noise == 'limits':
        logZ = logZ + 0.5 * log(pi / dof) - log(log(s1) - log(s0))
    y = [v for v in f.y]
    for route in ('logLikelihood', 'logLdata', 'logLikelihood_alt'):
        allpars = ctx.np.append(ctx.reals('guess', npar), ctx.arr([ctx.real('sguess', 0.3, 3)]))
        ctx.eq(getattr(ed, route)(prb, allpars), logZ, 'evidence by ' + route)
        for k in range(npar):
            ctx.eq(allpars[k], sol[k], 'parameters of the fit')
        if scale is None:
            ctx.eq(allpars[npar] * allpars[npar], s2, 'scale of the fit')
        else:
            ctx.eq(allpars[npar], scale, 'scale as given')
        ctx.eq(f.y, ctx.arr(y), 'data as they were')
        if f.w is not None:
            ctx.eq(prb.weights, ctx.arr([v for v in f.w]), 'weights as they were')


def nolimits(ctx, cls):
    f = Fit(ctx, cls, 'basis', 1, 3)
    f.fit()
    ctx.raises(ValueError, lambda: f.fitter.logZ, 'no evidence without limits')
    for name in ('logOccam', 'logLikelihood'):
        ft = Fit(ctx, cls, 'basis', 1, 3).fitter
        ctx.raises(AttributeError, lambda: getattr(ft, name), name + ' is not there yet')


def harnesses(tier):
    hs = []
    for cls in ('Fitter', 'QRFitter'):
        qr = cls == 'QRFitter'
        for npar, n in ((1, 2), (1, 3), (2, 3)):
            for w in (False, True):
                for a in (None, 'one', 'each'):
                    th = qr and npar == 2 or npar == 2 and w and a is not None
                    for o in (0, 1):
                        hs.append(H('uncertainty/%s/%d-%d/%s-%s/%d' % (cls, npar, n, w, a, o), uncertainty, (cls, 'basis', npar, n, w, a), dict(order=o), thorough=th))
        hs.append(H('uncertainty/%s/minimum' % cls, uncertainty, (cls, 'basis', 1, 2, True, None), dict(minscale=True)))
        hs.append(H('uncertainty/%s/fixed' % cls, uncertainty, (cls, 'fixed', 1, 2, True, None)))
        hs.append(H('uncertainty/%s/normalize' % cls, uncertainty, (cls, 'basis', 2, 3, False, None), dict(norms=1), thorough=qr))
        hs.append(H('uncertainty/%s/normalize-keep' % cls, uncertainty, (cls, 'basis', 2, 3, True, None, ('fit', [0])), dict(norms=1), thorough=qr))
        for when in ('new', 'fit'):
            for npar, ks in ((2, [0]), (2, [1]), (3, [1]), (3, [0, 2])):
                for w in (False, True):
                    for o in (0, 1):
                        hs.append(H('uncertainty/%s/keep/%s/%d-%s/%s/%d' % (cls, when, npar, ks, w, o), uncertainty, (cls, 'basis', npar, 3, w, None, (when, ks)), dict(order=o),
                                    thorough=len(ks) == 1 and npar == 3 and (qr or w)))
        for npar in (1, 2):
            hs.append(H('toofew/%s/%d' % (cls, npar), toofew, (cls, npar), thorough=qr and npar == 2))
        for w, a in ((False, None), (True, None), (False, 'one'), (True, 'one'), (False, 'each'), (True, 'each')):
            for noise in (None, 'fixed', 'limits'):
                for npar, how in ((1, 'priors'), (1, 'one'), (2, 'priors'), (2, 'short'), (2, 'one'), (2, 'each')):
                    hs.append(H('evidence/%s/%s-%s/%s/%d-%s' % (cls, w, a, noise, npar, how), evidence, (cls, 'basis', npar, npar + 1, w, a, None, how, noise, None),
                                thorough=npar == 2 and (qr or a is not None)))
        for when in ('new', 'fit'):
            for ks in ([0], [1]):
                for how in ('priors', 'one', 'each'):
                    for first in (None, 'covariance', 'stdevs'):
                        hs.append(H('evidence/%s/keep/%s-%s/%s/%s' % (cls, when, ks, how, first), evidence, (cls, 'basis', 2, 3, True, None, (when, ks), how, None, first)))
        for w in (False, True):
            hs.append(H('evidence/%s/compound/%s' % (cls, w), compound, (cls, w, None), thorough=qr))
        hs.append(H('evidence/%s/nolimits' % cls, nolimits, (cls,)))
    for arb in ('fitter', 'QRFitter', None):
        for kind, npar in (('basis', 1), ('poly', 1), ('poly', 2)):
            for w in (False, True)[:3 - npar]:
                for noise in (None, 'limits'):
                    hs.append(H('arbiter/%s/%s-%d/%s/%s' % (arb, kind, npar, w, noise), arbiter, (arb, kind, npar, npar + 1, w, noise)))
    return hs
