"""C19  walker and sample lists keep independent, faithful entries."""

from ..harness import H

BOUNDS = ('walkers with 2-4 parameters of a classic problem, of a dynamic problem and of a problem with nuisance parameters; lists of 2-4 entries; all parameter values, likelihoods and weights; '
          'weighted statistics over 1-4 samples of 1-2 parameters, straight and circular')
ASSUMPTIONS = ['the statistics of a sample list are those of normalised weights (as documented)', 'medianIndex and modusIndex are (as documented) calculated once and kept']


def problem(ctx, kind):
    """-> problem, number of model parameters, of nuisance parameters"""
    P, np = ctx.pkg, ctx.np
    x, y = np.array([0.0, 1.0, 2.0]), np.array([0.5, 1.0, 0.7])
    if kind == 'dynamic':
        return P.ClassicProblem(P.PolynomialDynamicModel(1), xdata=x, ydata=y), 2, 0
    if kind == 'compound':
        m = P.PolynomialDynamicModel(1)
        m += P.GaussModel(fixed={1: 0.5, 2: 1.0})
        return P.ClassicProblem(m, xdata=x, ydata=y), 3, 0
    if kind == 'nuisance':
        return P.ErrorsInXandYProblem(P.PolynomialModel(1), xdata=x[:2], ydata=y[:2]), 2, 2
    return P.ClassicProblem(P.PolynomialModel(1), xdata=x, ydata=y), 2, 0


def walker(ctx, kind, k, nhyp=1):
    pr, nm, nn = problem(ctx, kind)
    p = ctx.reals('p%d' % k, nm + nn + nhyp)
    fi = ctx.np.arange(nm + nn + nhyp)
    w = ctx.pkg.Walker(k, pr, p, fi, logL=ctx.real('L%d' % k), parent=3, start=4)
    w.logPrior = ctx.real('P%d' % k)
    return w, [v for v in p], ctx.real('L%d' % k), ctx.real('P%d' % k), (nm, nn)


def faithful(ctx, w, p, L, P, fi, tag):
    ctx.eq(w.allpars, ctx.arr(p), tag + ' parameters')
    ctx.eq(w.logL, L, tag + ' likelihood')
    ctx.eq(w.logPrior, P, tag + ' prior')
    ctx.check([int(i) for i in w.fitIndex] == list(range(fi)), tag + ' fit index')


def disturb(ctx, w, dynamic):
    """what the engines do to a walker"""
    w.allpars[0] = 111.0
    w.allpars[-1] = 112.0
    w.allpars = ctx.np.append(w.allpars, 7.0)
    w.logL = -999.0
    w.logPrior = -998.0
    if dynamic:
        w.fitIndex[0] = 77
        w.problem.model.grow()


def copies(ctx, kind, how):
    P = ctx.pkg
    w, p, L, Pr, (nm, nn) = walker(ctx, kind, 0)
    n = len(p)
    dyn = kind in ('dynamic', 'compound')
    if how == 'list':
        wl = P.WalkerList(walker=w, ensemble=3)
    elif how == 'problem':
        wl = P.WalkerList(problem=w.problem, ensemble=3, allpars=w.allpars, fitIndex=w.fitIndex)
        L = Pr = 0
    elif how == 'add':
        wl = P.WalkerList(walker=w, ensemble=1)
        wl.addWalkers(w, 2)
    else:
        wl = [w.copy(), w.copy(), w.copy()]
        if dyn:
            for v in wl:
                v.fitIndex = v.fitIndex.copy()
    for k, v in enumerate(wl):
        faithful(ctx, v, p, L, Pr, n, 'copied')
        if how != 'copy':
            ctx.check(v.id == k, 'id')
        v.check(nhyp=0, nuisance=n - nm)
    ctx.check(len(wl) == 3, 'length')
    disturb(ctx, wl[1], dyn)
    for v in (w, wl[0], wl[2]):
        if v is not w or how != 'problem':
            faithful(ctx, v, p, L, Pr, n, 'other')
        ctx.check(v.problem.model.npars == nm, 'model of another walker')
        ctx.eq(v.allpars[:nm], ctx.arr(p[:nm]), 'parameters of another walker')
    if dyn:
        ctx.check(wl[1].problem.model.npars == nm + 1, 'own model')


def onto(ctx, kind, other):
    """copy of one entry onto another one, of the same list or from another list"""
    P = ctx.pkg
    ws = [walker(ctx, kind, k) for k in range(3)]
    n = len(ws[0][1])
    dyn = kind in ('dynamic', 'compound')
    wl = P.WalkerList()
    for w in ws:
        wl.setWalker(w[0], len(wl))
    src = wl
    if other:
        src = P.WalkerList()
        xs = [walker(ctx, kind, k) for k in (3, 4)]
        for x in xs:
            src.setWalker(x[0], len(src))
        s = xs[1]
    else:
        s = ws[1]
    for k, w in enumerate(wl):
        ctx.check(w.id == k, 'id')
    if other:
        wl.copy(1, 2, wlist=src, start=9)
    else:
        wl.copy(1, 2, start=9)
    faithful(ctx, wl[2], s[1], s[2], s[3], n, 'copied')
    ctx.check(wl[2].id == 2 and wl[2].parent == 1 and wl[2].start == 9, 'id, parent and start')
    for k in (0, 1):
        faithful(ctx, wl[k], ws[k][1], ws[k][2], ws[k][3], n, 'untouched')
        ctx.check(wl[k].id == k and wl[k].parent == 3 and wl[k].start == 4, 'id, parent and start of the others')
    disturb(ctx, wl[2], False)
    if dyn:
        wl[2].problem.model.grow()
    faithful(ctx, src[1], s[1], s[2], s[3], n, 'source')
    ctx.check(src[1].id == 1 and src[1].problem.model.npars == s[4][0], 'source')
    new = walker(ctx, kind, 5)
    wl.setWalker(new[0], 0)
    ctx.check(wl[0] is new[0] and len(wl) == 3, 'replaced')
    faithful(ctx, wl[1], ws[1][1], ws[1][2], ws[1][3], n, 'untouched')
    low, kl = wl.getLowLogL()
    ctx.eq(low, wl[kl].logL, 'lowest')
    for v in wl:
        ctx.le(low, v.logL, 'lowest')


def views(ctx, kind):
    """what a walker list tells about its walkers"""
    ws = [walker(ctx, kind, k) for k in range(2)]
    nm, nn = ws[0][4]
    wl = ctx.pkg.WalkerList()
    for w in ws:
        wl.setWalker(w[0], len(wl))
    pe, se, le, ap = wl.getParameterEvolution(), wl.getScaleEvolution(), wl.getLogLikelihoodEvolution(), wl.allPars()
    ctx.shape(pe, (2, nm), 'evolution')
    for k, w in enumerate(ws):
        ctx.eq(pe[k], ctx.arr(w[1][:nm]), 'parameters')
        ctx.eq(ctx.arr(se[k]), ctx.arr(w[1][nm + nn:]), 'hyperparameters')
        ctx.eq(le[k], w[2], 'likelihood')
        ctx.eq(ap[k], ctx.arr(w[1]), 'all parameters')
        ctx.eq(wl.getLogL(w[0]), w[2], 'likelihood')
        ctx.eq(wl.getParameterEvolution(kpar=1)[k], w[1][1], 'one parameter')


def ragged(ctx, samples):
    """dynamic models: zero padded, as documented"""
    P = ctx.pkg
    a, b = P.PolynomialDynamicModel(0), P.PolynomialDynamicModel(1)
    x = ctx.np.array([0.0, 1.0])
    p, q = ctx.reals('p', 1), ctx.reals('q', 2)
    wl = P.WalkerList()
    for m, v in ((a, p), (b, q)):
        wl.setWalker(P.Walker(0, P.ClassicProblem(m, xdata=x, ydata=x), v, ctx.np.arange(len(v))), len(wl))
    if samples:
        sl = P.SampleList(a, 0)
        for w in wl:
            sl.add(w.toSample(0.0))
        ctx.check([int(k) for k in sl.getNumberOfParametersEvolution()] == [1, 2], 'number of parameters')
        ctx.check(int(sl.getMaximumNumberOfParameters()) == 2, 'maximum number of parameters')
        e = sl.getParameterEvolution()
        f, _ = sl.getParAndWgtEvolution()
        ctx.eq(f, e, 'with weights')
    else:
        e = wl.getParameterEvolution()
    ctx.shape(e, (2, 2), 'evolution')
    ctx.eq(e[0, 0], p[0], 'parameters')
    ctx.eq(e[0, 1], 0, 'padding')
    ctx.eq(e[1], q, 'parameters')


def tosample(ctx, kind, nhyp, change):
    w, p, L, Pr, (nm, nn) = walker(ctx, kind, 0, nhyp)
    W = ctx.real('W')
    s = w.toSample(W)
    dyn = kind in ('dynamic', 'compound')
    sl = ctx.pkg.SampleList(w.problem.model, 0)
    sl.add(s)
    c = s.copy()
    if change:
        if change == 'replaced':
            wl = ctx.pkg.WalkerList()
            wl.setWalker(w, 0)
            wl.setWalker(walker(ctx, kind, 1, nhyp)[0], 1)
            wl.copy(1, 0)
            disturb(ctx, wl[0], False)
            if dyn:
                wl[0].problem.model.grow()
        elif change == 'sample':
            c.parameters[0] = 55.0
            c.logW = 3.0
            c.logL = 4.0
            if nhyp:
                c.hyper[0] = 66.0
            if nn:
                c.nuisance[0] = 77.0
            c.fitIndex[0] = 88
        elif change == 'walker':
            w.allpars[0] = 111.0
            w.allpars[-1] = 112.0
            w.logL = 5.0
    for v in (s,) if change == 'sample' else (s, c):
        ctx.eq(v.parameters, ctx.arr(p[:nm]), 'parameters')
        ctx.eq(v.allpars, ctx.arr(p), 'all parameters')
        if nn:
            ctx.eq(v.nuisance, ctx.arr(p[nm:nm + nn]), 'nuisance parameters')
        if nhyp:
            ctx.eq(v.hypars, ctx.arr(p[nm + nn:]), 'hyperparameters')
        ctx.eq(v.logL, L + Pr, 'likelihood')
        ctx.eq(v.logW, W, 'weight')
        ctx.check([int(i) for i in v.fitIndex] == list(range(len(p))), 'fit index')
        ctx.check(v.model.npars == nm and v.start == 4, 'model, start')
    ctx.check(sl[0] is s and s.id == 0 and s.parent == 0, 'added')


def slist(ctx, n, npar=2, nhyp=0, norm=True, nuis=0):
    P = ctx.pkg
    m = P.PolynomialModel(npar - 1)
    sl = P.SampleList(m, 0)
    p = ctx.mat('p', n, npar)
    h = ctx.mat('h', n, nhyp) if nhyp else None
    if norm:                       # normalised weights
        v = ctx.reals('v', n, 0.05, 4)
        tot = sum(v)
        ws = [t / tot for t in v]
    else:
        W = ctx.reals('W', n, -3, 3)
        ws = []
    for k in range(n):
        s = P.Sample(k + 5, -1, 0, m, parameters=ctx.arr([v for v in p[k]]), fitIndex=None)
        s.logW = W[k] if not norm else ctx.math.log(ws[k])
        s.logL = ctx.real('L%d' % k)
        if nhyp:
            s.hyper = [v for v in h[k]]
        if nuis:
            s.nuisance = [v for v in ctx.reals('n%d' % k, nuis)]
        sl.add(s)
    return sl, p, h, ws


def normalize(ctx, n):
    sl, p, h, ws = slist(ctx, n, 1, norm=False)
    W = ctx.reals('W', n, -3, 3)
    sl.normalize()
    ws = [ctx.math.exp(v) for v in W]
    tot = sum(ws)
    for k in range(n):
        ctx.eq(sl[k].weight, ws[k] / tot, 'normalised weight')
    ctx.check(sl.normalized is True, 'normalised')


def mean(ws, v):
    return sum(a * b for a, b in zip(ws, v))


def spread(ctx, s, ws, v):
    mu = mean(ws, v)
    ctx.eq(s * s, mean(ws, [(t - mu) * (t - mu) for t in v]), 'standard deviation')


def stats(ctx, n, npar, nhyp):
    sl, p, h, ws = slist(ctx, n, npar, nhyp, nuis=2)
    for k in range(n):
        ctx.eq(sl[k].weight, ws[k], 'normalised weight')
        ctx.eq(sl.getWeightEvolution()[k], ws[k], 'weight evolution')
        ctx.eq(ctx.math.exp(sl.getLogWeightEvolution()[k]), ws[k], 'log weight evolution')
        ctx.eq(sl.getLogLikelihoodEvolution()[k], ctx.real('L%d' % k), 'likelihood evolution')
        ctx.check(sl[k].id == k and sl[k].parent == k + 5, 'id and parent')
        ctx.check(int(sl.getParentEvolution()[k]) == k + 5 and int(sl.getGeneration()[k]) == k and int(sl.getStartEvolution()[k]) == 0, 'evolutions')
    nu = ctx.arr([[v for v in ctx.reals('n%d' % k, 2)] for k in range(n)])
    for src, av, sd, m in ((p, sl.parameters, sl.stdevs, npar), (p, sl.getParameters(), sl.standardDeviations, npar), (nu, sl.nuisance, sl.stdevNuis, 2)) + \
            (((h, sl.hypars, sl.stdevHypars, nhyp), (h, sl.getHypars(), sl.stdevHypar, nhyp)) if nhyp else ()):
        for i in range(m):
            col = [src[k, i] for k in range(n)]
            mu = mean(ws, col)
            ctx.eq(av[i], mu, 'average')
            if n < 3:
                spread(ctx, sd[i], ws, col)
            ctx.le(0, sd[i], 'standard deviation')
    e = sl.getParameterEvolution()
    f, w = sl.getParAndWgtEvolution()
    for k in range(n):
        ctx.eq(e[k], p[k], 'evolution')
        ctx.eq(f[k], p[k], 'evolution')
        ctx.eq(w[k], ws[k], 'evolution of weights')
        ctx.eq(sl.getParameterEvolution(kpar=0)[k], p[k, 0], 'evolution')
    ctx.eq(sl.maxLikelihoodParameters, p[n - 1], 'maximum likelihood parameters')
    low, kl = sl.getLowLogL()
    ctx.eq(low, sl[kl].logL, 'lowest')
    for s in sl:
        ctx.le(low, s.logL, 'lowest')


def hyper(ctx, first):
    """every statistic of the hyperparameters, whichever is asked for first"""
    sl, p, h, ws = slist(ctx, 2, 1, 1)
    col = [h[0, 0], h[1, 0]]
    mu = mean(ws, col)
    var = mean(ws, [(v - mu) * (v - mu) for v in col])
    v = getattr(sl, first)
    if first in ('scale', 'hypars'):
        ctx.eq(v if first == 'scale' else v[0], mu, first)
    else:
        t = v if first == 'stdevScale' else v[0]
        ctx.eq(t * t, var, first)


def later(ctx, what):
    """statistics after the list changed"""
    n = 2 if what == 'normalised' else 1
    sl, p, h, ws = slist(ctx, n, 1, 1, norm=False)
    v = [ctx.real("v%d" % k, 0.2, 0.3) for k in range(2)]
    for k in range(n):
        sl[k].logW = ctx.math.log(v[k])
    for name in ('parameters', 'stdevs', 'hypars', 'scale'):
        getattr(sl, name)
    if what == 'added':
        s = ctx.pkg.Sample(9, -1, 0, sl[0].model, parameters=ctx.reals('new', 1))
        s.hyper = [ctx.real('newh')]
        s.logW = ctx.math.log(v[1])
        sl.add(s)
        ctx.check(sl.normalized is False, 'no longer normalised')
    for name in ('parameters', 'hyper'):
        ctx.assume(getattr(sl[0], name)[0] - getattr(sl[1], name)[0] > 0.01)
    sl.normalize()
    ws = [t / (v[0] + v[1]) for t in v]
    for src, av, sd in (([s.parameters[0] for s in sl], sl.parameters, sl.stdevs), ([s.hyper[0] for s in sl], sl.hypars, sl.stdevHypars)):
        ctx.eq(av[0], mean(ws, src), 'average')
        ctx.assume(sd[0] > 0)
        spread(ctx, sd[0], ws, src)
    ctx.eq(sl.scale, mean(ws, [s.hyper[0] for s in sl]), 'scale')


def circular(ctx, n):
    P = ctx.pkg
    sl, p, h, ws = slist(ctx, n, 2, norm=False)
    m = sl[0].model
    m.setPrior(0, P.CircularUniformPrior(limits=[0, 2 * ctx.math.pi]) if hasattr(P, 'CircularUniformPrior') else P.UniformPrior(limits=[0, 2 * ctx.math.pi], circular=True))
    m.setPrior(1, P.UniformPrior(limits=[-9, 9]))
    sl.normalize()
    ws = [s.weight for s in sl]
    av, sd = sl.getParameters(), sl.stdevs
    a, d = P.Tools.average(ctx.arr([p[k, 0] for k in range(n)]), weights=ctx.arr(ws), circular=[0, 2 * ctx.math.pi])
    ctx.eq(av[0], a, 'circular average')
    ctx.eq(sd[0], d, 'circular standard deviation')
    mu = mean(ws, [p[k, 1] for k in range(n)])
    ctx.eq(av[1], mu, 'average')
    ctx.eq(sd[1] * sd[1], mean(ws, [(p[k, 1] - mu) * (p[k, 1] - mu) for k in range(n)]), 'standard deviation')


def result(ctx, n, order):
    """average result and Monte-Carlo error"""
    sl, p, h, ws = slist(ctx, n, 2)
    x = ctx.reals('x', 2)
    z = ctx.reals('z', 2)

    def check(t, av, er):
        for i in range(2):
            f = [p[k, 0] + p[k, 1] * t[i] for k in range(n)]
            mu = mean(ws, f)
            if av is not None:
                ctx.eq(av[i], mu, 'average result')
            if er is not None:
                ctx.eq(er[i] * er[i], mean(ws, [(v - mu) * (v - mu) for v in f]), 'Monte-Carlo error')
                ctx.le(0, er[i], 'Monte-Carlo error')
    for o in order:
        if o == 'a':
            check(x, sl.average(x), None)
        elif o == 'e':
            check(x, None, sl.monteCarloError(x))
        else:
            check(z, None, sl.monteCarloError(z))


def indices(ctx, n):
    sl, p, h, ws = slist(ctx, n, 1)
    k = sl.medianIndex
    if k > 0:
        ctx.le(sum(ws[:k]), 0.5, 'below the median')
    ctx.le(0.5, sum(ws[:k + 1]) + 1e-9, 'at the median')
    ctx.eq(sl.medianParameters, p[k], 'median parameters')
    m = sl.modusIndex
    for w in ws:
        ctx.le(w, ws[m] + 1e-9, 'modus')
    ctx.eq(sl.modusParameters, p[m], 'modus parameters')
    sl.logZ = ctx.real('Z')
    ctx.eq(sl.evidence * ctx.math.log(10.0), ctx.real('Z'), 'evidence')


def weed(ctx, n, size):
    """drops the lightest of both ends"""
    sl, p, h, ws = slist(ctx, n, 1, norm=False)
    ref = list(sl)
    W = [v for v in ctx.reals('W', n, -3, 3)]
    i, j = 0, n
    while size is not None and j - i > size:
        if W[i] < W[j - 1]:
            i += 1
        else:
            j -= 1
    sl.weed(size)
    ctx.check(len(sl) == j - i, 'size')
    ctx.check(all(a is b for a, b in zip(sl, ref[i:j])), 'what is left')


def handle(ctx):
    """sample, copy and the constructor"""
    sl, p, h, ws = slist(ctx, 3, 2, 1, norm=False)
    sl.copy(0, 2)
    ctx.eq(sl[2].parameters, p[0], 'copied')
    ctx.eq(sl[2].hyper, h[0], 'copied')
    ctx.eq(sl[2].logW, sl[0].logW, 'copied')
    ctx.check(sl[2].id == 2 and sl[0].id == 0, 'id')
    sl[2].parameters[1] = 5.0
    sl[2].hyper[0] = 6.0
    ctx.eq(sl[0].parameters, p[0], 'source')
    ctx.eq(sl[0].hyper, h[0], 'source')
    s = sl[1]
    ctx.check(sl.sample(1) is s and sl.sample(0, s) is s and sl[0] is s and len(sl) == 3, 'sample')
    q = ctx.reals('q', 2)
    new = ctx.pkg.SampleList(s.model, 3, parameters=q)
    ctx.check([t.id for t in new] == [0, 1, 2], 'ids')
    new[1].parameters[0] = 9.0
    for k in (0, 2):
        ctx.eq(new[k].parameters, ctx.reals('q', 2), 'other samples')
    ctx.eq(q, ctx.reals('q', 2), 'the caller\'s parameters')
    new = ctx.pkg.SampleList(s.model, 2)
    s.model.parameters = ctx.reals('r', 2)
    new = ctx.pkg.SampleList(s.model, 2)
    new[1].parameters[0] = 9.0
    ctx.eq(new[0].parameters, ctx.reals('r', 2), 'other samples')
    ctx.eq(s.model.parameters, ctx.reals('r', 2), 'model')


def harnesses(tier):
    hs = []
    kinds = ('classic', 'dynamic', 'compound', 'nuisance')
    for k in kinds:
        for how in ('list', 'problem', 'add', 'copy'):
            hs.append(H('copies/%s/%s' % (k, how), copies, (k, how)))
        for o in (False, True):
            hs.append(H('onto/%s/%s' % (k, o), onto, (k, o)))
        hs.append(H('views/%s' % k, views, (k,)))
        for nh in (0, 1, 2):
            for ch in (None, 'replaced', 'sample', 'walker'):
                hs.append(H('tosample/%s/%d/%s' % (k, nh, ch), tosample, (k, nh, ch)))
    for s in (False, True):
        hs.append(H('ragged/%s' % s, ragged, (s,)))
    for n, np, nh in ((1, 1, 0), (2, 1, 1), (2, 2, 2), (3, 1, 0), (1, 1, 1)):
        hs.append(H('stats/%d/%d/%d' % (n, np, nh), stats, (n, np, nh), thorough=n > 2))
    for f in ('scale', 'hypars', 'stdevScale', 'stdevHypar', 'stdevHypars'):
        hs.append(H('hyper/%s' % f, hyper, (f,)))
    for w in ('normalised', 'added'):
        hs.append(H('later/%s' % w, later, (w,)))
    for n in (1, 2, 3, 4):
        hs.append(H('normalize/%d' % n, normalize, (n,)))
    for n in (1, 2):
        hs.append(H('circular/%d' % n, circular, (n,)))
    for n in (1, 2, 3):
        for o in ('a', 'e', 'ae', 'af', 'fe', 'aea'):
            hs.append(H('result/%d/%s' % (n, o), result, (n, o), thorough=n > 2))
    for n in (1, 2, 3, 4):
        hs.append(H('indices/%d' % n, indices, (n,), thorough=n > 3))
        for size in (None, 1, 2, 5):
            hs.append(H('weed/%d/%s' % (n, size), weed, (n, size)))
    hs.append(H('handle', handle))
    return hs
