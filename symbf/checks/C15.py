"""C15  fits leave the caller's data alone and do not depend on earlier fits."""
from ..harness import H
from ..abstract import leafclass
from .C12 import Fit
from .C31 import Setup, Stub, evaluate

BOUNDS = ('linear fitters: arbitrary basis functions, 1-2 parameters, 2-3 data points, sequences of two fits on one fitter with every combination of weights, accuracies (one, each), kept '
          'parameters (at construction, per fit, only in the first or only in the second fit), with derived results (uncertainties, evidence) asked for in between or not; iterative fitters: at most 3 steps; '
          'fitters that wrap an optimiser (scipy, simplex, curve fit): two fits with all keywords different, the optimiser returns arbitrary answers')
ASSUMPTIONS = ['the Hessian is regular and the residuals do not vanish altogether', 'wrapped optimisers: data above the model']


def history(ctx, cls, npar, n, first, second, between=None, new=None):
    f = Fit(ctx, cls, 'basis', npar, n, first[0], first[1], ('new', new) if new else None)
    keepnew, freenew = dict(f.values), list(f.free)

    def setkeep(ks, tag):
        f.values = dict(keepnew)
        f.fk = {}
        if ks:
            f.values = {k: ctx.real('%skeep%d' % (tag, k)) for k in ks}
            f.fk = dict(keep=dict(f.values))
        f.free = [k for k in range(npar) if k not in f.values]
    setkeep(first[2], 'a')
    f.fit()
    if between == 'stdevs':
        f.fitter.stdevs
        f.fitter.scale
    elif between == 'hessian':
        f.fitter.hessian
    elif between == 'evidence':
        f.fitter.getLogZ(limits=[-1.0, 1.0])
    elif between == 'parameters':
        f.model.parameters = ctx.arr(ctx.reals('other', npar))
    other = f.fw[0] if first[:2] != (False, None) or second[:2] != (False, None) else None
    f.data('b', second[0], second[1])
    setkeep(second[2], 'b')
    if other is not None and (other is not f.fw[0]):
        ctx.assume(f.fw[0] - other > 0.01)      # equal weights: see same()
    p = f.fit()
    f.check(p)
    ctx.shape(f.fitter.hessian, (len(f.free),) * 2, 'shape of the hessian')
    ctx.eq(f.fitter.hessian, ctx.arr(f.hessian()), 'hessian')
    dof = f.sumw - len(f.free)
    if first[0] is False and second[0] is False:
        ctx.eq(f.fitter.scale * f.fitter.scale * dof, f.fitter.chisq, 'scale')
    ctx.check(f.fitter.npfit == len(f.free), 'number of fitted parameters')


def refit(ctx, cls, npar, n, wgt, acc, keep):
    """the same fit twice gives the same values"""
    f = Fit(ctx, cls, 'basis', npar, n, wgt, acc, keep)
    p = [v for v in f.fit()]
    f.data('b', False, None)
    g = Fit(ctx, cls, 'basis', npar, n, wgt, acc, keep)      # same names: same values
    q = [v for v in g.fit()]
    r = [v for v in g.fit()]
    ctx.eq(ctx.arr(q), ctx.arr(p), 'fresh fitter')
    ctx.eq(ctx.arr(r), ctx.arr(p), 'second time')


def same(ctx, cls, npar, n, wgt, acc, ka, kb):
    """other data with the same weights"""
    f = Fit(ctx, cls, 'basis', npar, n, wgt, acc, ('fit', ka) if ka else None)
    f.fit()
    y = ctx.reals('by', n)
    f.y, f.args = y, [y]
    f.values = {k: ctx.real('bkeep%d' % k) for k in kb or ()}
    f.fk = dict(keep=dict(f.values)) if kb else {}
    f.free = [k for k in range(npar) if k not in f.values]
    f.check(f.fit())
    ctx.eq(f.fitter.hessian, ctx.arr(f.hessian()), 'hessian')


def untouched(ctx, cls, npar, n, wgt, acc, keep, norms=0, form='array', how='fit'):
    f = Fit(ctx, cls, 'basis', npar, n, wgt, acc, keep, norms, form)
    obj = dict(x=f.x, y=f.args[0])
    obj.update(f.kw)
    snap = {k: ([v for v in o] if hasattr(o, '__len__') else o) for k, o in obj.items()}
    kept = dict(f.values)
    kd = f.fk.get('keep')
    nrm = [([v for v in d], v, w) for d, v, w in f.extra]
    if how == 'fit':
        f.fit()
    else:
        f.run(f.fitter.modelFit)
    f.fitter.stdevs if norms == 0 and not wgt else None
    for k, o in obj.items():
        if hasattr(o, '__len__'):
            ctx.check(len(o) == len(snap[k]), 'length of ' + k)
            for i in range(len(snap[k])):
                ctx.eq(o[i], snap[k][i], k + ' is as it was')
        else:
            ctx.eq(o, snap[k], k + ' is as it was')
    if kd is not None:
        ctx.check(sorted(kd) == sorted(kept), 'keys of keep')
        for k in kept:
            ctx.eq(kd[k], kept[k], 'keep is as it was')
    for (d, v, w), (dd, vv, ww) in zip(f.extra, nrm):
        for a, b in zip(d, dd):
            ctx.eq(a, b, 'normalising measurement is as it was')


def iterative(ctx, npar, wgt, acc, keep, par0, steps, limits=False):
    """LevenbergMarquardtFitter of an arbitrary model, however it ends"""
    n = 2
    m = leafclass(ctx)('f', npar)
    y = ctx.reals('y', n)
    obj = dict(x=ctx.reals('x', n), y=y)
    kw = {}
    if wgt:
        obj['weights'] = kw['weights'] = ctx.reals('w', n, 0.1, 3)
    if acc:
        obj['accuracy'] = kw['accuracy'] = ctx.reals('a', n, 0.3, 3) if acc == 'each' else ctx.real('a', 0.3, 3)
    if par0:
        obj['par0'] = kw['par0'] = ctx.reals('p0', npar)
    mp = ctx.arr(ctx.reals('start', npar))
    m.parameters = mp
    obj['the earlier parameters'] = mp
    kd = {k: ctx.real('keep%d' % k) for k in keep} if keep else None
    if keep:
        kw['keep'] = kd
    if limits:
        m.setLimits(ctx.arr([-1.0] * npar), ctx.arr([1.0] * npar))
    fitter = ctx.pkg.LevenbergMarquardtFitter(obj['x'], m)
    snap = {k: ([v for v in o] if hasattr(o, '__len__') else o) for k, o in obj.items()}
    snk = dict(kd) if keep else None
    try:
        fitter.fit(y, maxiter=steps, tolerance=0.5, verbose=0, **kw)
    except ValueError as e:
        if 'chisq' in str(e):
            ctx.assume(False)
        raise
    except ctx.pkg.ConvergenceError:
        pass
    for k, o in obj.items():
        if hasattr(o, '__len__'):
            for i in range(len(snap[k])):
                if k == 'the earlier parameters' and keep and i in keep:
                    continue
                ctx.eq(o[i], snap[k][i], k + ' is as it was')
        else:
            ctx.eq(o, snap[k], k + ' is as it was')
    if keep:
        ctx.check(sorted(kd) == sorted(snk), 'keys of keep')
        for k in kd:
            ctx.eq(kd[k], snk[k], 'keep is as it was')


def copied(ctx, cls, wgt):
    """the fitted values in the model are no view on something else"""
    f = Fit(ctx, cls, 'basis', 2, 3, wgt)
    p = f.fit()
    q = [v for v in p]
    f.data('b', wgt, None)
    f.fit()
    ctx.eq(p, ctx.arr(q), 'the outcome of the earlier fit stays as it was')


def wrapped(ctx, fitter, method, first, second, new, errdis):
    """wrapped optimisers: in a second fit with other data the optimiser gets the same as in a first one; nothing of the caller is changed"""
    npar, n = 3, 2
    mkw = dict(npar=npar, keep=('new', new) if new else None, errdis=errdis)
    if method:
        mkw['method'] = method
    su = Setup(ctx, fitter, **mkw)
    su.above, keepnew = True, dict(su.kd)
    mod, nm = {'ScipyFitter': ('ScipyFitter', 'minimize'), 'AmoebaFitter': ('AmoebaFitter', 'AnnealingAmoeba'), 'CurveFitter': ('CurveFitter', 'curve_fit')}[fitter]
    for tag, (wgt, acc, keep, par0, lim) in (('a', first), ('b', second)):
        su.y = ctx.reals(tag + 'y', n, 5, 9)
        kw, obj = {}, dict(x=su.x, y=su.y)
        su.w = [1] * n
        if wgt:
            obj['weights'] = kw['weights'] = ctx.reals(tag + 'w', n, 0.1, 3)
            su.w = [v for v in kw['weights']]
        if acc:
            obj['accuracy'] = kw['accuracy'] = ctx.reals(tag + 'acc', n, 0.3, 3)
            su.w = [p / (q * q) for p, q in zip(su.w, kw['accuracy'])]
        kd = None
        su.kd = dict(keepnew)
        if keep:
            su.kd = {k: ctx.real('%skeep%d' % (tag, k), -1, 1) for k in keep}
            kw['keep'] = kd = dict(su.kd)
        su.free = [k for k in range(npar) if k not in su.kd]
        start = [v for v in su.m.parameters]
        if par0:
            obj['par0'] = start = ctx.reals(tag + 'p', npar)
            kw['inipar' if fitter == 'CurveFitter' else 'par0'] = start
        bounds = None
        if lim:
            obj['low limits'], obj['high limits'] = ctx.reals(tag + 'lo', npar, -3, -1), ctx.reals(tag + 'hi', npar, 1, 3)
            kw['limits'] = [obj['low limits'], obj['high limits']]
            bounds = [(obj['low limits'][k], obj['high limits'][k]) for k in su.free]
        nf = len(su.free)
        a, q = ctx.reals(tag + 'opt', nf), ctx.reals(tag + 'q', nf)
        su.regular(a)
        su.regular(q)
        st = Stub(a)
        if fitter == 'AmoebaFitter':
            st.minimize = lambda: a
        func = {'ScipyFitter': st.minimize, 'AmoebaFitter': st.amoeba, 'CurveFitter': st.curve_fit}[fitter]
        snap = {k: [v for v in o] for k, o in obj.items()}
        p = st.swap(ctx, mod, nm, func, lambda: su.ft.fit(su.y, **kw))
        full = ctx.arr(su.full(a))
        ctx.eq(p, full, 'parameters of fit ' + tag)
        ctx.eq(su.m.parameters, full, 'parameters in the model, fit ' + tag)
        if errdis:
            ctx.eq(su.ft.logLikelihood, -su.cost(a), 'log likelihood of fit ' + tag)
        else:
            ctx.eq(su.ft.chisq, su.cost(a), 'chi-squared of fit ' + tag)
        ctx.eq(st.kw['p0'] if fitter == 'CurveFitter' else st.x0, ctx.arr([start[k] for k in su.free]), 'initial values of fit ' + tag)
        if fitter == 'CurveFitter':
            r = st.fun(st.x, *[v for v in q])
            for i in range(n):
                ctx.eq(r[i], su.f(i, su.full(q)), 'model of fit ' + tag)
            sg = st.kw['sigma']
            ctx.eq(su.w[0] * sg[0] * sg[0], su.w[1] * sg[1] * sg[1], 'sigmas of fit ' + tag)
            _, J = ctx.jac(lambda z: st.fun(st.x, *[v for v in z]), q)
            ctx.eq(st.kw['jac'](st.x, *[v for v in q]), J, 'jacobian of fit ' + tag)
        else:
            ctx.eq(evaluate(ctx, st, q), su.cost(q), 'cost of fit ' + tag)
        if fitter == 'ScipyFitter':
            ctx.check(st.kw['method'].upper() == (method or ('L-BFGS-B' if lim else 'BFGS')), 'method of fit ' + tag)
            _, J = ctx.jac(lambda z: [su.cost(z)], q)
            ctx.eq(st.kw['jac'](q), J[0], 'gradient of fit ' + tag)
            b = st.kw.get('bounds')
            ctx.check((b is None) == (bounds is None), 'limits of fit %s or none' % tag)
            for g, w in zip(b or (), bounds or ()):
                ctx.eq(ctx.arr([g[0], g[1]]), ctx.arr([w[0], w[1]]), 'limits of fit ' + tag)
        for k, o in obj.items():
            ctx.eq(o, ctx.arr(snap[k]), k + ' is as it was')
        if kd is not None:
            ctx.check(sorted(kd) == sorted(su.kd), 'keys of keep')
            for k in kd:
                ctx.eq(kd[k], su.kd[k], 'keep is as it was')


def harnesses(tier):
    hs = []
    plain, rich = (False, False, None, False, False), (True, True, [1], True, True)
    for fitter, method, errdis in (('ScipyFitter', 'L-BFGS-B', None), ('ScipyFitter', None, None), ('ScipyFitter', 'SLSQP', None), ('ScipyFitter', 'TNC', 'gauss'), ('AmoebaFitter', None, None), ('AmoebaFitter', None, 'laplace'),
                                   ('CurveFitter', None, None)):
        if fitter == 'CurveFitter':
            combis = [(plain, rich), (rich, plain), (rich, (True, False, [0, 2], False, False)), ((False, False, [0], False, True), plain)]
        else:
            combis = [(plain, rich), (rich, plain), (rich, (True, False, [0, 2], False, False)), ((False, False, [0], False, True), (False, True, None, True, True))]
        for c, (a, b) in enumerate(combis):
            if errdis:
                a, b = [t[:1] + (False,) + t[2:] for t in (a, b)]
            for new in (None, [2]):
                hs.append(H('wrapped/%s/%s/%s/%d-%s' % (fitter, method, errdis, c, new), wrapped, (fitter, method, a, b, new, errdis)))
    W = [(False, None), (True, None), (False, 'one'), (False, 'each')]
    for cls in ('Fitter', 'QRFitter'):
        qr = cls == 'QRFitter'
        for a in W:
            for b in W:
                hs.append(H('history/%s/1/%s-%s/%s-%s' % ((cls,) + a + b), history, (cls, 1, 2, a + (None,), b + (None,)), qtimeout=1500, thorough=qr and a[1] is not None and b != W[0]))
                hs.append(H('history/%s/2/%s-%s/%s-%s' % ((cls,) + a + b), history, (cls, 2, 3, a + (None,), b + (None,)), thorough=qr and a + b != (False, None, True, None) or a != b and not (a == W[0] or b == W[0]) or 'each' in a + b))
        for new in (None, [0], [1]):
            for ka in (None, [0], [1]):
                for kb in (None, [0], [1]):
                    if new or ka or kb:
                        for w in (False, True):
                            hs.append(H('history/%s/keep/%s-%s-%s/%s' % (cls, new, ka, kb, w), history, (cls, 2, 3, (w, None, ka), (w, None, kb), None, new), qtimeout=1500,
                                        thorough=w and (qr or not kb and not new)))
        for bt in ('stdevs', 'hessian', 'evidence', 'parameters'):
            hs.append(H('history/%s/between/%s' % (cls, bt), history, (cls, 1, 3, (False, None, None), (True, None, None), bt)))
            hs.append(H('history/%s/between-keep/%s' % (cls, bt), history, (cls, 2, 3, (False, None, [0]), (True, None, [1]), bt)))
            hs.append(H('history/%s/between-new/%s' % (cls, bt), history, (cls, 2, 3, (False, None, None), (True, None, None), bt, [1])))
            hs.append(H('history/%s/between-2/%s' % (cls, bt), history, (cls, 2, 3, (False, None, None), (False, None, [1]), bt), thorough=qr))
        for w, a in W:
            for ka, kb in ((None, None), ([0], None), (None, [1]), ([0], [0]), ([0], [1])):
                hs.append(H('same/%s/%s-%s/%s-%s' % (cls, w, a, ka, kb), same, (cls, 2, 3, w, a, ka, kb), qtimeout=1500, thorough=qr and (not kb or a is not None or w)))
            hs.append(H('same/%s/%s-%s/1' % (cls, w, a), same, (cls, 1, 2, w, a, None, None)))
            hs.append(H('refit/%s/1/%s-%s' % (cls, w, a), refit, (cls, 1, 2, w, a, None)))
            hs.append(H('refit/%s/2/%s-%s' % (cls, w, a), refit, (cls, 2, 3, w, a, None), thorough=qr))
            hs.append(H('refit/%s/keep/%s-%s' % (cls, w, a), refit, (cls, 2, 3, w, a, ('fit', [0]))))
        for form in ('array', 'list'):
            for w in (False, True):
                for a in (None, 'one', 'each'):
                    hs.append(H('untouched/%s/%s/%s-%s' % (cls, form, w, a), untouched, (cls, 1, 2, w, a, None, 0, form)))
                    hs.append(H('untouched/%s/keep-%s/%s-%s' % (cls, form, w, a), untouched, (cls, 2, 3, w, a, ('fit', [1]), 0, form)))
                    if form == 'array':
                        hs.append(H('untouched/%s/norm/%s-%s' % (cls, w, a), untouched, (cls, 2, 3, w, a, ('new', [1]), 1, form)))
        for w in (False, True):
            hs.append(H('untouched/%s/modelfit/%s' % (cls, w), untouched, (cls, 1, 2, w, None, None, 0, 'array', 'model')))
            hs.append(H('copied/%s/%s' % (cls, w), copied, (cls, w), thorough=qr))
    for steps in (1, 2, 3):
        for w, a in ((False, None), (True, None), (True, 'each'), (False, 'one')):
            for par0 in (False, True):
                for npar, keep in ((1, None), (2, None), (2, [0])):
                    for lim in (False, True):
                        hs.append(H('iterative/%d/%s-%s/%s/%d-%s/%s' % (steps, w, a, par0, npar, keep, lim), iterative, (npar, w, a, keep, par0, steps, lim), qtimeout=500, tmax=100,
                                    thorough=steps == 3 or steps == 2 and (npar == 2 or lim or w != (a is not None)) or lim and (npar == 2 or w)))
    return hs
