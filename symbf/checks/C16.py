"""C16  nested sampling accumulates evidence, information and posterior weights consistently."""
from ..harness import H

BOUNDS = ('whole runs of the sampler with ensembles of 2-3 walkers (4 in the thorough tier), 1-2 walkers discarded per iteration, 1-3 iterations, likelihoods of all walkers arbitrary (new ones above '
          'the threshold, as the engines deliver them: C17), all random choices')
ASSUMPTIONS = ['the engine and the start engine are stand-ins that deliver an arbitrary walker within the likelihood constraint', 'one walker is replaced at a time, as without threads']


class Run:
    def __init__(self, ctx, N, d, K, linear=True, maxsize=None, sampler=None, base=False, limits=None, keep=None, prior=False, **kw):
        self.ctx, self.N, self.d, self.K, self.maxsize, self.base = ctx, N, d, K, maxsize, base
        P, np = ctx.pkg, ctx.np
        ctx.globalrandom(ctx.rng('r'))
        self.n = 0
        self.made = []
        self.low = []
        run = self

        def fresh(low):
            k = run.n
            run.n += 1
            p = k + ctx.real('p%d' % k, -0.4, 0.4)
            L = ctx.real('L%d' % k, -3, 3) if not base else k + ctx.real('L%d' % k, 0.1, 0.9)
            if low is not None:
                ctx.assume(L >= low)
            run.made.append((p, L))
            return p, L

        class Start(P.Engine):
            def execute(self, kw, lowLhood):
                w = self.walkers[kw]
                p, L = fresh(None)
                a = w.allpars.copy()
                a[0] = p
                self.setWalker(kw, w.problem, a, L, fitIndex=w.fitIndex)

        class Move(P.Engine):
            def __str__(self):
                return 'Move'

            def execute(self, kw, lowLhood, append=False, iteration=0):
                w = self.walkers[kw].copy()
                run.low.append((lowLhood, iteration, w.allpars[0]))
                p, L = fresh(lowLhood if iteration > 0 else None)
                a = w.allpars.copy()
                a[0] = p
                self.setWalker(len(self.walkers) if append else kw, w.problem, a, L, fitIndex=w.fitIndex)
                return len(a)

        m = P.PolynomialModel(0) if linear else P.ExpModel(fixed={1: -0.5})
        m.setPrior(0, prior=P.UniformPrior(limits=[-9, 9]))
        self.model = m
        self.problem = P.ClassicProblem(m, xdata=np.array([0.0, 1.0]), ydata=np.array([0.5, 1.5]))
        if sampler is None:
            self.ns = P.NestedSampler(problem=self.problem, ensemble=N, discard=d, engines=[Move(None, None)], maxsize=maxsize, verbose=0, limits=limits)
        else:
            self.ns = P.PhantomSampler(problem=self.problem, ensemble=N, step=10, engines=[Move(None, None)], maxsize=maxsize, verbose=0)
        self.ns.initialEngine = Start(None, None)
        self.ns.minimumIterations = K
        self.ns.tolerance = 1e9                  # stop right after the minimum

    def sample(self):
        self.made, self.low = [], []
        return self.ns.sample()


def widths(ctx, N, d, K):
    """log widths of what is discarded, iteration by iteration, and of the final ensemble"""
    out = []
    s = 0.0
    e = ctx.math.exp
    unit = 1 - e(ctx.const(-1) / N)
    for t in range(K):
        for k in range(d):
            out.append(unit * e(-ctx.const(s)) if s else unit)
            s = s + ctx.const(1) / (N - k)
    for k in range(N):
        out.append(unit * e(-ctx.const(s)) if s else unit)
        s = s + ctx.const(1) / (N - k)
    return out


def judge(ctx, run, ev):
    ns, N, d, K = run.ns, run.N, run.d, run.K
    M = ctx.math
    cur = list(run.made[:N]) if run.linear else list(run.made[N:2 * N])
    new = run.made[N:] if run.linear else run.made[2 * N:]
    gone = []
    for t in range(K):
        cur.sort(key=lambda w: w[1])
        gone += cur[:d]
        for w in cur[:d]:
            for v in cur[d:]:
                ctx.le(w[1], v[1], 'lowest')
        for j in range(d):
            low, it, src = run.low[(0 if run.linear else N) + t * d + j]
            ctx.eq(low, cur[d - 1][1], 'threshold')
            ctx.check(it == t + 1, 'iteration')
            ctx.check(any(same(ctx, src, w[0]) for w in cur[d:]), 'starts from one that stays')
        cur = new[t * d:(t + 1) * d] + cur[d:]
    cur.sort(key=lambda w: w[1])
    W = widths(ctx, N, d, K)
    smp = list(ns.samples)
    if run.maxsize is None:
        ctx.check(len(smp) == K * d + N, 'number of samples')
    ctx.eq(ev * M.log(10.0), ns.logZ, 'evidence')
    ctx.eq(ns.evidence, ev, 'evidence')
    ctx.eq(ns.samples.logZ, ns.logZ, 'evidence of the samples')
    ctx.eq(ns.samples.evidence, ev, 'evidence of the samples')
    ctx.eq(ns.samples.info, ns.info, 'information of the samples')
    seq = gone + cur
    for s in smp:
        ctx.le(s.logL, smp[-1].logL, 'the last sample is the best')
    if run.maxsize is None:
        wl = []
        for k, s in enumerate(smp):
            i = [j for j, (p, L) in enumerate(seq) if same(ctx, p, s.parameters[0])]
            ctx.check(len(i) == 1, 'each walker is sampled once')
            if len(i) != 1:
                return
            i = i[0]
            ctx.eq(s.logL, seq[i][1], 'likelihood of a sample')
            ctx.check((i < K * d) == (k < K * d), 'discarded ones first')
            if k < K * d:
                ctx.check(i == k, 'in order of likelihood')
            wl.append((W[k] * M.exp(s.logL), s.logL))
        Z = sum(w for w, L in wl)
        ctx.eq(M.exp(ns.logZ), Z, 'evidence is the sum of the weights')
        for k, s in enumerate(smp):
            ctx.eq(s.weight * Z, wl[k][0], 'posterior weight')
        ctx.eq(ns.info, sum(w * L for w, L in wl) / Z - ns.logZ, 'information')
        ctx.eq(ns.information, ns.info, 'information')
    else:
        ctx.check(len(smp) <= run.maxsize + N, 'number of samples')
    ctx.eq(sum(s.weight for s in smp), 1, 'weights are normalised')
    ctx.check(ns.samples.normalized, 'weights are normalised')
    mu = sum(s.weight * s.parameters[0] for s in smp)
    ctx.eq(ns.parameters[0], mu, 'parameters')
    ctx.eq(run.model.parameters[0], mu, 'parameters of the model')
    if run.std:
        ctx.eq(run.model.stdevs[0], ns.samples.stdevs[0], 'standard deviations of the model')
        ctx.eq(ns.stdevs[0], ns.samples.stdevs[0], 'standard deviations')
    x = ns.xdata
    ctx.eq(ns.modelfit, ns.samples.average(x), 'model fit')
    ctx.check(len(ns.walkers) == N and ns.ensemble == N, 'size of the ensemble')
    ctx.check(ns.iteration == K, 'iterations')


def same(ctx, a, b):
    return a is b if ctx.symbolic else float(a) == float(b)


def single(ctx, N, d, K, linear=True, maxsize=None, base=False):
    run = Run(ctx, N, d, K, linear, maxsize, base=base)
    run.std = False
    run.linear = linear
    ev = run.sample()
    judge(ctx, run, ev)


def twice(ctx, N, linear):
    """another run of the same sampler starts all over"""
    run = Run(ctx, N, 1, 1, linear, base=True)
    run.linear = linear
    run.std = False
    run.sample()
    n = run.n
    run.n = 0
    run.K = run.ns.minimumIterations = 1
    ev = run.sample()
    judge(ctx, run, ev)
    ctx.check(run.ns.phantoms.length() <= run.n, 'phantoms of this run only')


def precision(ctx, n):
    run = Run(ctx, n, 1, 1)
    ns = run.ns
    ns.info = ctx.real('info', -1, 9)
    ctx.eq(ns.logZprecision * ns.logZprecision * n, ns.info if ns.info > 0 else 0, 'precision')
    ctx.le(0, ns.logZprecision, 'precision')
    ctx.eq(ns.precision * ctx.math.log(10.0), ns.logZprecision, 'precision')
    ctx.eq(ns.information, ns.info, 'information')
    ns.logZ = ctx.real('logZ', -40, 40)
    ctx.eq(ns.evidence * ctx.math.log(10.0), ns.logZ, 'evidence')


def worst(ctx, n, step):
    """the number of walkers that the phantom sampler replaces"""
    run = Run(ctx, n, 1, 1, sampler='phantom')
    ns = run.ns
    ns.walkers = ctx.pkg.WalkerList(walker=ctx.pkg.Walker(0, run.problem, ctx.np.zeros(2), [0]), ensemble=n)
    ns.step = step
    ctx.check(ns.worst == max(1, n * step // 100), 'number of walkers to be replaced')


def stop(ctx):
    """the rule to stop"""
    run = Run(ctx, 2, 1, 1)
    ns = run.ns
    P = ctx.pkg
    it = ctx.symint('it', 0, 50)
    ns.iteration = it
    ns.minimumIterations = ctx.symint('min', 0, 20)
    ns.maxIterations = None if ctx.integer('hasmax', 0, 1) == 0 else ctx.symint('max', 0, 40)
    ns.tolerance = ctx.real('tol', -20, 5)
    ns.logdZ = ctx.real('dZ', -40, 5)
    ns.info = ctx.real('info', 0, 9)
    ns.end = ctx.real('end', 0.5, 4)
    go = ns.nextIteration()
    if it < ns.minimumIterations:
        ctx.check(go, 'minimum number of iterations')
    elif ns.logdZ < ns.tolerance:
        ctx.check(not go, 'tolerance')
    elif ns.maxIterations is not None and it > ns.maxIterations:
        ctx.check(not go, 'maximum number of iterations')
    else:
        ctx.check(bool(go) == bool(it <= ns.end * 2 * ns.info), 'information')


def phantom(ctx, N):
    """the phantom sampler appends what the engines find until the ensemble is full again"""
    run = Run(ctx, N, 1, 1, sampler='phantom', base=True)
    ev = run.sample()
    ns = run.ns
    M = ctx.math
    n = len(ns.walkers)
    ctx.check(n == N, 'size of the ensemble')
    smp = list(ns.samples)
    ctx.check(len(smp) == n + 1, 'number of samples')
    for s in smp:
        ctx.le(s.logL, smp[-1].logL, 'the last sample is the best')
    for w in ns.walkers:
        ctx.le(run.low[0][0], w.logL, 'above the threshold')
    unit = 1 - M.exp(ctx.const(-1) / N)
    W, s = [unit], ctx.const(1) / N
    for k in range(n):
        W.append(unit * M.exp(-s))
        s = s + ctx.const(1) / (n - k)
    Z = sum(w * M.exp(s.logL) for w, s in zip(W, smp))
    ctx.eq(M.exp(ns.logZ), Z, 'evidence is the sum of the weights')
    ctx.eq(ns.samples.logZ, ns.logZ, 'evidence of the samples')
    for w, s in zip(W, smp):
        ctx.eq(s.weight * Z, w * M.exp(s.logL), 'posterior weight')


def keeping(ctx, which, free):
    """parameters that are kept keep their value; the fit list has the others"""
    P, np = ctx.pkg, ctx.np
    ctx.globalrandom(ctx.rng('r'))
    m = P.PolynomialModel(1)
    for k in range(2):
        m.setPrior(k, prior=P.UniformPrior(limits=[-9, 9]))
    pr = P.ClassicProblem(m, xdata=np.array([0.0, 1.0]), ydata=np.array([0.5, 1.5]))
    ns = P.NestedSampler(problem=pr, ensemble=2, verbose=0, limits=[0.1, 10.0] if free else None, engines=[P.Engine(None, None)])
    v = {k: ctx.real('v%d' % i, 0.5, 5) for i, k in enumerate(which)}
    fi, allp = ns.makeFitlist(keep=dict(v) if which else None)
    norm = {k % 3: t for k, t in v.items()}
    exp = [k for k in range(2) if k not in norm] + ([-1] if free and 2 not in norm else [])
    ctx.check([int(k) for k in fi] == exp, 'fit list')
    ctx.shape(allp, (3,), 'all parameters')
    for k, t in norm.items():
        ctx.eq(allp[k], t, 'kept value')
    if not free and 2 not in norm:
        ctx.eq(allp[2], 1, 'fixed scale')


def harnesses(tier):
    hs = []
    for N, d, K, base, th in ((2, 1, 1, False, False), (2, 1, 2, True, False), (3, 1, 1, True, False), (3, 2, 1, True, False), (2, 1, 3, True, True), (3, 1, 2, True, True), (3, 2, 2, True, True),
                              (4, 2, 1, True, True), (2, 1, 2, False, True), (3, 1, 1, False, True)):
        hs.append(H('run/%d/%d/%d%s' % (N, d, K, '' if base else '/any'), single, (N, d, K, True, None, base), thorough=th, paths=3000, qtimeout=400))
    hs.append(H('run/nonlinear', single, (2, 1, 1, False, None, True), paths=2000, qtimeout=400))
    hs.append(H('run/weed', single, (2, 1, 2, True, 1, True), paths=2000, qtimeout=400))
    for lin in (True, False):
        hs.append(H('twice/%s' % lin, twice, (2, lin), paths=2000, qtimeout=400))
    hs.append(H('stop', stop))
    hs.append(H('precision', precision, (3,)))
    for n, step in ((5, 4), (10, 10), (10, 4), (60, 4)):
        hs.append(H('worst/%d/%d' % (n, step), worst, (n, step)))
    hs.append(H('phantom', phantom, (3,), paths=3000, qtimeout=400))
    for free in (False, True):
        for which in ((), (0,), (1,), (0, 1), (2,), (-1,), (0, -1), (1, 2)):
            hs.append(H('keep/%s/%s' % (free, which), keeping, (which, free)))
    return hs
