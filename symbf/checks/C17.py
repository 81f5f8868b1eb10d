"""C17  exploration keeps walkers inside the constraint and self-consistent."""
from ..harness import H

BOUNDS = ('one call of each engine on ensembles of 2 walkers with 1-2 model parameters and a scale, 1-2 steps and 1-3 trials per step, at most 14 random numbers; the likelihood is an arbitrary '
          'function of the parameters, the threshold and the phantoms are arbitrary; the chord engine in 2 dimensions along 4 directions (any direction in the thorough tier)')
ASSUMPTIONS = ['random numbers are in the open interval (0,1)', 'the likelihood is finite', 'no threads']


class Counted:
    """random numbers up to a number of draws"""

    def __init__(self, ctx, rng, most):
        self.ctx, self._r, self._most, self._n = ctx, rng, most, 0

    def __getattr__(self, name):
        f = getattr(self._r, name)

        def g(*a, **k):
            n0 = self._r.n
            r = f(*a, **k)
            self._n += self._r.n - n0
            if self._n > self._most:
                self.ctx.assume(False)
            return r
        return g


class Setup:
    def __init__(self, ctx, npar, fi, hyper=True, phantoms=0, nw=2, sym=True, most=8):
        P, np = ctx.pkg, ctx.np
        self.ctx, self.fi = ctx, list(fi)
        L = ctx.fn('L', npar + 1)
        G = [ctx.fn('g%d' % k, npar + 1) for k in range(npar + 1)]
        self.L = L

        class Lik(P.GaussErrorDistribution):
            def logLhood(self, problem, allpars):
                self.ncalls += 1
                return L(*[a for a in allpars])

            def partialLogL(self, problem, allpars, fitIndex):
                return np.array([G[k](*[a for a in allpars]) for k in fitIndex])

        m = P.PolynomialModel(npar - 1)
        self.lim = []
        for k in range(npar):
            lo = ctx.real('lo%d' % k, -5, 5) if sym else ctx.const(-1.0 - k)
            w = ctx.real('w%d' % k, 0.5, 8) if sym else ctx.const(2.0 + k)
            self.lim.append((lo, w))
            m.setPrior(k, prior=P.UniformPrior(limits=[lo, lo + w]))
        self.problem = P.ClassicProblem(m, xdata=np.array([0.0, 1.0]), ydata=np.array([0.5, 1.5]))
        self.err = Lik()
        free = -1 in self.fi
        if free:
            self.err.setPriors([P.UniformPrior(limits=[0.5, 2.5])])
            self.err.hyperpar[0].isFixed = False
        self.lim.append((ctx.const(0.5), ctx.const(2.0)))
        self.low = ctx.real('low', -9, 9)
        self.walkers = P.WalkerList()
        self.ph = P.PhantomCollection()
        self.phs = []
        for k in range(nw + phantoms):
            p = np.zeros(npar + 1)
            for j in range(npar + 1):
                lo, w = self.lim[j]
                if j < npar or free:
                    p[j] = lo + w * ctx.real('u%d_%d' % (k, j), 0.02, 0.98)
                else:
                    p[j] = 1.0
            v = P.Walker(k, self.problem, p, list(self.fi))
            v.logL = L(*[a for a in p])
            ctx.assume(v.logL >= self.low)
            if k < nw:
                self.walkers.append(v)
            else:
                self.phs.append(v)
                self.ph.storeItems(v)
        self.walkers._count = nw
        self.old = [(w, w.allpars.copy(), w.logL, w.id) for w in self.walkers]
        self.rng = Counted(ctx, ctx.rng('r'), most)

    def judge(self, kw, n, append, unit):
        ctx = self.ctx
        ctx.check(len(self.walkers) >= len(self.old), 'no walker is lost')
        if not append:
            ctx.check(len(self.walkers) == len(self.old), 'size of the ensemble')
        for k, (w, p, l, i) in enumerate(self.old):
            v = self.walkers[k]
            ctx.eq(w.allpars, p, 'walkers are not changed in place')
            ctx.eq(w.logL, l, 'walkers are not changed in place')
            ctx.check(v.id == i, 'identity')
            if k != kw or append or n == 0:
                ctx.check(v is w, 'other walkers are untouched')
        new = list(self.walkers[len(self.old):]) if append else ([self.walkers[kw]] if n > 0 else [])
        if append:
            ctx.check((len(new) > 0) == (n > 0), 'number of moves')
        src = self.old[kw][1]
        for v in new:
            ctx.shape(v.allpars, src.shape, 'number of parameters')
            ctx.eq(v.logL, self.L(*[a for a in v.allpars]), 'likelihood of its own parameters')
            ctx.le(self.low, v.logL, 'above the threshold')
            ctx.check(list(v.fitIndex) == self.fi, 'fit index')
            for j, (lo, w) in enumerate(self.lim):
                if j in self.fi or j - len(self.lim) in self.fi:
                    ctx.le(lo, v.allpars[j], 'inside the prior domain')
                    ctx.le(v.allpars[j], lo + w, 'inside the prior domain')
                else:
                    ctx.eq(v.allpars[j], src[j], 'parameters that are not fitted')
            for u in self.walkers:
                ctx.check(u is v or u.allpars is not v.allpars, 'parameters of its own')
        ctx.check(n % unit == 0, 'number of moves')


def make(ctx, s, name, nstep, trials):
    P = ctx.pkg
    eng = getattr(P, name)(s.walkers, s.err, phantoms=s.ph)
    eng.rng = s.rng
    eng.nstep = nstep
    eng.maxtrials = trials
    return eng


def step(ctx, name, npar, fi, append=False, phantoms=0, nstep=1, trials=1, most=8, copied=False, sym=False, anydir=False):
    if anydir:
        # a number of directions; any direction in the thorough tier
        mod = ctx.pkg.module(name)
        orig = mod.OrthonormalBasis

        class Direction:
            def normalise(self, vec, reset=False):
                return ctx.np.array([(1.0, 0.5), (-0.5, 1.0), (1.0, -1.0), (-1.0, -2.0)][ctx.integer('dir', 0, 3)])
        mod.OrthonormalBasis = Direction
        try:
            return step(ctx, name, npar, fi, append, phantoms, nstep, trials, most, copied, sym)
        finally:
            mod.OrthonormalBasis = orig
    s = Setup(ctx, npar, fi, phantoms=phantoms, sym=sym, most=most)
    eng = make(ctx, s, name, nstep, trials)
    if copied:
        eng = eng.copy()
        ctx.check(eng.nstep == nstep and eng.maxtrials == trials and eng.phantoms is s.ph and eng.walkers is s.walkers and eng.errdis is s.err, 'a copy of the engine')
    n = eng.execute(0, s.low, append=append, iteration=1)
    s.judge(0, n, append, 1 if name == 'GibbsEngine' else len(s.fi))
    rep = eng.report
    ctx.check((rep[eng.SUCCESS] > 0) == (n > 0), 'report')


def start(ctx, npar, fi, trials):
    """the start engine places the walker anywhere in the prior domain"""
    s = Setup(ctx, npar, fi)
    eng = make(ctx, s, 'StartEngine', 1, trials)
    s.low = -10 ** 6
    s.L = ctx.fn('L', npar + 1)
    n = eng.execute(1, -ctx.inf)
    w = s.walkers[1]
    ctx.check(n == len(fi), 'number of moves')
    ctx.eq(w.logL, s.L(*[a for a in w.allpars]), 'likelihood of its own parameters')
    for i, j in enumerate(fi):
        lo, wd = s.lim[j]
        ctx.le(lo, w.allpars[j], 'inside the prior domain')
        ctx.le(w.allpars[j], lo + wd, 'inside the prior domain')
        ctx.eq(w.allpars[j], lo + wd * ctx.real('r.u%d' % (i + 1), 0, 1), 'drawn from the prior')
    ctx.check(s.walkers[0] is s.old[0][0], 'other walkers are untouched')


def ownbox(ctx, name, fi):
    """each fitted parameter is drawn from the box that the phantoms span for that parameter"""
    P, np = ctx.pkg, ctx.np
    s = Setup(ctx, 3, fi, sym=False)
    eng = make(ctx, s, name, 1, 1)
    umin = [ctx.real('b%d' % k, 0.0, 0.5) for k in range(4)]
    umax = [umin[k] + ctx.real('r%d' % k, 0.01, 0.5) for k in range(4)]
    eng.getUnitMinmax = lambda problem, low: (np.array([u for u in umin]), np.array([u for u in umax]))
    ctx.assume(s.low < -8)
    eng.execute(0, s.low, iteration=1)
    new = s.walkers[0]
    n = len(s.walkers)
    for j in fi:
        lo, w = s.lim[j]
        dr = 10 * (umax[j] - umin[j]) / n
        u = (new.allpars[j] - lo) / w
        if new is not s.old[0][0]:
            ctx.le(umin[j] - dr, u, 'in the box of the parameter')
            ctx.le(u, umax[j] + dr, 'in the box of the parameter')


def minmax(ctx, fi):
    """the box that the phantoms span, in unit space"""
    s = Setup(ctx, 2, fi, phantoms=2, sym=False)
    eng = make(ctx, s, 'Engine', 1, 1)
    umin, umax = eng.getUnitMinmax(s.problem, s.low)
    uran, um = eng.getUnitRange(s.problem, s.low)
    ph = [w for w in s.phs if w.logL > s.low]
    for j, (lo, w) in enumerate(s.lim):
        if j == 2 and -1 not in fi:
            continue
        u = [(v.allpars[j] - lo) / w for v in ph]
        if len(u) == 0:
            ctx.eq(umin[j], 0, 'without phantoms')
            ctx.eq(umax[j], 1, 'without phantoms')
            continue
        for v in u:
            ctx.le(umin[j], v, 'box of the phantoms')
            ctx.le(v, umax[j], 'box of the phantoms')
        ctx.eq(uran[j], umax[j] - umin[j], 'range')
        ctx.eq(um[j], umin[j], 'start of the range')


def boost(ctx, fi, better):
    """a boosted walker has the likelihood of its own parameters, inside the domain, with kept parameters in place"""
    P, np = ctx.pkg, ctx.np
    s = Setup(ctx, 2, fi, phantoms=1, sym=False)
    eng = make(ctx, s, 'Engine', 1, 1)
    out = [ctx.real('f%d' % k, -9, 9) for k in range(2)]
    seen = []

    class Fit:
        def __init__(self, xdata, model):
            self.model = model

        def fit(self, data, par0=None, keep=None, **kw):
            seen.append(([a for a in par0], keep))
            p = np.array([o for o in out])
            for k, v in (keep or {}).items():
                p[k] = v
            return p

        def getScale(self):
            return ctx.real('scale', 0.1, 9)
    eng.bestBoost(s.problem, myFitter=Fit)
    w = s.walkers[0].copy()
    p = w.allpars.copy()
    old = w.logL
    if better:
        ctx.assume(old > s.phs[-1].logL)
    else:
        ctx.assume(old <= s.phs[-1].logL)
    eng.setWalker(0, s.problem, p.copy(), old, fitIndex=w.fitIndex)
    v = s.walkers[0]
    ctx.check((len(seen) > 0) == better, 'only the best is boosted')
    if seen:
        ctx.eq(seen[0][0], [a for a in p[:2]], 'starts at the walker')
    ctx.eq(v.logL, s.L(*[a for a in v.allpars]), 'likelihood of its own parameters')
    ctx.le(old, v.logL, 'not worse')
    ctx.shape(v.allpars, (3,), 'number of parameters')
    for j, (lo, wd) in enumerate(s.lim):
        if j in fi or j - 3 in fi:
            ctx.le(lo, v.allpars[j], 'inside the prior domain')
            ctx.le(v.allpars[j], lo + wd, 'inside the prior domain')
        else:
            ctx.eq(v.allpars[j], p[j], 'parameters that are not fitted')


def explorer(ctx, append, rate):
    """the explorer goes on until there are enough moves or trials; all engines take part in each trial"""
    P, np = ctx.pkg, ctx.np
    s = Setup(ctx, 2, (0, 1), sym=False, most=30)
    calls = []

    class Eng(P.Engine):
        def __init__(self, name):
            super().__init__(s.walkers, s.err, phantoms=s.ph)
            self.tag = name

        def execute(self, kw, lowLhood, append=False, iteration=0):
            calls.append((self.tag, kw, lowLhood, append, iteration))
            if ctx.integer('ok%d' % len(calls), 0, 1) == 0:
                return 0
            v = self.walkers[kw]
            p = v.allpars.copy()
            p[0] = ctx.real('q%d' % len(calls), -1, 1)
            L = s.L(*[a for a in p])
            ctx.assume(L >= lowLhood)
            self.setWalker(len(self.walkers) if append else kw, v.problem, p, L, fitIndex=v.fitIndex)
            return 2
    ns = P.NestedSampler(problem=s.problem, distribution=s.err, ensemble=2, verbose=0, engines=[Eng('a'), Eng('b')], rate=rate)
    ns.walkers = s.walkers
    ns.rng = s.rng
    ns.maxtrials = 2
    if append:
        ns.usePhantoms = True
    for e in ns.engines:
        e.walkers = s.walkers
        e.phantoms = s.ph
    ex = P.Explorer(ns)
    ex.explore([0], s.low, 7)
    ctx.check(len(calls) % 2 == 0 and all({calls[k][0], calls[k + 1][0]} == {'a', 'b'} for k in range(0, len(calls), 2)), 'all engines in each trial')
    for c in calls:
        ctx.check(c[1] == 0 and bool(c[3]) == append and c[4] == 7, 'walker, mode and iteration')
        ctx.eq(c[2], s.low, 'threshold')
    moves = 0
    trials = len(calls) // 2
    for t in range(trials):
        ctx.check(moves < 3 / rate and t < 2 / rate, 'stops in time')
        moves += sum(2 for k in (2 * t, 2 * t + 1) if ctx.integer('ok%d' % (k + 1), 0, 1) == 1)
    ctx.check(moves >= 3 / rate or trials >= 2 / rate, 'enough moves or trials')
    v = s.walkers[0] if not append else s.walkers[-1]
    ctx.eq(v.logL, s.L(*[a for a in v.allpars]), 'likelihood of its own parameters')
    ctx.check(s.walkers[1] is s.old[1][0], 'other walkers are untouched')


def nomoves(ctx, kind):
    """a walker that cannot be moved is left as it is, whatever the problem"""
    P, np = ctx.pkg, ctx.np
    ctx.globalrandom(ctx.rng('r'))
    x = np.array([0.0, 1.0, 3.0])
    y = np.array([0.5, 1.5, 1.0])
    if kind == 'order':
        pr = P.SalesmanProblem(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 2.0]]))
        err = P.DistanceCostFunction()
        par = np.arange(3)
    else:
        m = P.PolynomialModel(1)
        m.setLimits(lowLimits=[-5, -5], highLimits=[5, 5])
        err = P.GaussErrorDistribution(scale=0.5)
        if kind == 'classic':
            pr = P.ClassicProblem(m, xdata=x, ydata=y)
        else:
            pr = P.ErrorsInXandYProblem(m, xdata=x, ydata=y)
            pr.prior = P.GaussPrior(scale=0.1)
        n = pr.npars
        par = np.zeros(n + 1)
        for k in range(n):
            par[k] = ctx.real('p%d' % k, -2, 2)
        par[n] = 0.5

    class Stuck(P.Engine):
        def execute(self, kw, lowLhood, append=False, iteration=0):
            return 0
    ns = P.NestedSampler(problem=pr, distribution=err, ensemble=2, verbose=0, engines=[Stuck(None, None)])
    w = P.Walker(0, pr, par, list(range(len(par) - (kind != 'order'))))
    ns.walkers = P.WalkerList(walker=w, ensemble=2)
    for v in ns.walkers:
        v.logL = err.logLikelihood(v.problem, v.allpars)
    for e in ns.engines:
        e.walkers = ns.walkers
    old = [v for v in ns.walkers]
    ex = P.Explorer(ns)
    ex.explore([1], -10.0 ** 8, 1)
    ctx.check(all(a is b for a, b in zip(old, ns.walkers)), 'walkers are left alone')
    ctx.eq(ns.walkers[1].allpars, par, 'walkers are left alone')


def slow(ctx):
    """slow engines take part once per so many iterations"""
    P = ctx.pkg
    s = Setup(ctx, 1, (0,), sym=False)
    a = P.GibbsEngine(s.walkers, s.err, phantoms=s.ph)
    b = P.ChordEngine(s.walkers, s.err, slow=3, phantoms=s.ph)
    ns = P.NestedSampler(problem=s.problem, distribution=s.err, ensemble=2, verbose=0, engines=[a, b])
    ex = P.Explorer(ns)
    it = ctx.symint('it', 0, 40)
    e = ex.selectEngines(it)
    ctx.check(bool(it % 3 == 0) == (len(e) == 2), 'slow engines')
    ctx.check(e[0] is a, 'other engines')
    ns = P.NestedSampler(problem=s.problem, distribution=s.err, ensemble=2, verbose=0, engines=[a])
    ctx.check(len(P.Explorer(ns).selectEngines(it)) == 1, 'no slow engines')


def fromphantoms(ctx, copymode):
    """the walkers that are discarded are replaced by copies of others above the threshold"""
    P = ctx.pkg
    s = Setup(ctx, 2, (0, 1), phantoms=2 if copymode else 0, nw=3, sym=False, most=3)
    ns = P.NestedSampler(problem=s.problem, distribution=s.err, ensemble=3, discard=2, verbose=0, engines=[P.Engine(None, None)])
    ns.walkers = s.walkers
    ns.rng = s.rng
    ns.phantoms = s.ph
    ns.lowLhood = s.low
    ns.iteration = 5
    if copymode:
        ns.copymode = 1
    ns.copyWalker(2)
    src = s.old[2:] if not copymode else [(w, w.allpars, w.logL, w.id) for w in s.phs]
    for k in range(2):
        v = s.walkers[k]
        ctx.check(v.id == s.old[k][3] and v.start == 5, 'identity')
        ctx.le(s.low, v.logL, 'above the threshold')
        ctx.eq(v.logL, s.L(*[a for a in v.allpars]), 'likelihood of its own parameters')
        ctx.check(any(same(ctx, v.allpars, o[1]) for o in src), 'a copy of another walker')
        ctx.check(all(v.allpars is not o[1] and v.allpars is not o[0].allpars for o in src), 'parameters of its own')
    ctx.check(s.walkers[2] is s.old[2][0], 'other walkers are untouched')


def same(ctx, a, b):
    return all((x is y) if ctx.symbolic else float(x) == float(y) for x, y in zip(a, b))


def basis(ctx, n, reset):
    """directions are orthogonal unit vectors until the space is full"""
    P, np = ctx.pkg, ctx.np
    onb = P.OrthonormalBasis()
    done = []
    for k in range(n):
        u = onb.normalise(np.array([ctx.real('v%d_%d' % (k, j), -1, 1) for j in range(n)]), reset=k == 0)
        ctx.eq(sum(a * a for a in u), 1, 'unit length')
        for d in done:
            ctx.eq(sum(a * b for a, b in zip(u, d)), 0, 'orthogonal')
        done.append(u)


# least number of draws that one call needs with one step, no trials
NEED = {'GibbsEngine': lambda n: n + (n - 1), 'StepEngine': lambda n: 2 * n, 'RandomEngine': lambda n: n + 1, 'ChordEngine': lambda n: 1 + 2 * n + 1, 'GalileanEngine': lambda n: 3 * n + 1}


def harnesses(tier):
    hs = []

    def add(tag, name, npar, fi, extra=2, th=False, **kw):
        hs.append(H('%s/%s' % (name, tag), step, (name, npar, fi), dict(kw, most=NEED[name](len(fi)) + extra), paths=3000, qtimeout=500, tmax=100, thorough=th))
    for name in ('GibbsEngine', 'StepEngine', 'RandomEngine', 'ChordEngine', 'GalileanEngine'):
        add('1', name, 1, (0,))
        add('1/append', name, 1, (0,), append=True)
        add('1/copy', name, 1, (0,), copied=True)
        add('1/limits', name, 1, (0,), sym=True, th=name in ('ChordEngine', 'GalileanEngine'))
        add('1/phantoms', name, 1, (0,), phantoms=2, th=name in ('ChordEngine', 'GalileanEngine'))
        for fi in ((0, 1), (1,), (0, -1), (-1,)):
            big = len(fi) > 1 and name in ('ChordEngine', 'GalileanEngine')
            add('2/%s' % ','.join(str(k) for k in fi), name, 2, fi, extra=1, th=big)
            if big:
                add('2/%s/few' % ','.join(str(k) for k in fi), name, 2, fi, extra=0 if name == 'ChordEngine' else -1, anydir=name == 'ChordEngine')
    for fi in ((0,), (0, 1), (1,), (0, -1)):
        hs.append(H('start/%s' % (fi,), start, (2, fi, 2)))
    for name in ('RandomEngine',):
        for fi in ((0, 1), (1,), (2, 0), (1, 2)):
            hs.append(H('box/%s/%s' % (name, fi), ownbox, (name, fi), qtimeout=500))
    for fi in ((0, 1), (0, -1), (1,)):
        hs.append(H('minmax/%s' % (fi,), minmax, (fi,), qtimeout=500))
        for better in (True, False):
            hs.append(H('boost/%s/%s' % (better, fi), boost, (fi, better), qtimeout=500))
    for append in (False, True):
        for rate in (1.0, 0.5):
            hs.append(H('explorer/%s/%s' % (append, rate), explorer, (append, rate), paths=3000, qtimeout=500, tmax=60, thorough=rate == 0.5))
    for kind in ('classic', 'errors', 'order'):
        hs.append(H('nomoves/%s' % kind, nomoves, (kind,), qtimeout=500))
    hs.append(H('slow', slow))
    for c in (False, True):
        hs.append(H('copy/%s' % c, fromphantoms, (c,)))
    for n in (1, 2, 3):
        hs.append(H('basis/%d' % n, basis, (n, False), qtimeout=1000, tmax=60, thorough=n == 3))
    return hs
