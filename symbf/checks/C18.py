"""C18  order engines permute and never lose a stop."""
from ..harness import H

BOUNDS = ('one call of each order engine on 4-5 stops (6 in the thorough tier) with arbitrary stop labels (so any initial order), 1-2 trials, all random choices (snippets of at most 2+3 stops), '
          'arbitrary likelihood and threshold; route lengths for 4 stops at arbitrary positions in all built-in distances; a solver run on 3 stops with an arbitrary distance table')
ASSUMPTIONS = ['distances are at least 1e-6', 'no threads']


class Counted:
    def __init__(self, ctx, rng, most):
        self.ctx, self._r, self._most, self._n = ctx, rng, most, 0
        self.got = []

    def __getattr__(self, name):
        f = getattr(self._r, name)

        def g(*a, **k):
            n0 = self._r.n
            r = f(*a, **k)
            self._n += self._r.n - n0
            self.got.append(r)
            if self._n > self._most:
                self.ctx.assume(False)
            return r
        return g


SITES = [(0.0, 0.0), (2.0, 1.0), (1.0, 3.0), (-1.0, 2.0), (-2.0, -1.0), (0.5, -2.0)]


class Setup:
    def __init__(self, ctx, n, ids=(2, 0, 1), most=8, problem=None, labels=True):
        P, np = ctx.pkg, ctx.np
        self.ctx, self.n = ctx, n
        L = self.L = ctx.fn('L', n)
        self.seen = seen = []

        class Lik(P.DistanceCostFunction):
            def logLhood(self, problem, allpars):
                self.ncalls += 1
                seen.append([a for a in allpars])
                return L(*[a for a in allpars])

        self.problem = problem or P.SalesmanProblem(xdata=np.array([list(s) for s in SITES[:n]]))
        self.err = Lik()
        self.low = ctx.real('low', -9, 9)
        if labels:
            lab = [ctx.real('s%d' % k, k - 0.2, k + 0.2) for k in range(n)]
        else:
            lab = list(range(n))
        self.lab = lab
        self.walkers = P.WalkerList()
        for j, i in enumerate(ids):
            p = np.zeros(n) if labels else np.arange(n)
            for k in range(n):
                p[k] = lab[(k + j - 1) % n]
            w = P.Walker(i, self.problem, p, list(range(n)))
            w.logL = L(*[a for a in p])
            ctx.assume(w.logL >= self.low)
            self.walkers.append(w)
        self.walkers._count = len(ids)
        self.old = [(w, w.allpars.copy(), w.logL, w.id) for w in self.walkers]
        self.rng = Counted(ctx, ctx.rng('r'), most)

    def perm(self, pars):
        pars = [p for p in pars]
        if self.ctx.symbolic:
            return len(pars) == self.n and all(sum(1 for p in pars if p is l or (isinstance(l, int) and int(p) == l)) == 1 for l in self.lab)
        return sorted(float(p) for p in pars) == sorted(float(l) for l in self.lab)

    def judge(self, kw, n, append=False, start=False):
        ctx = self.ctx
        ctx.check(len(self.walkers) == len(self.old) + (1 if append and n > 0 else 0), 'size of the ensemble')
        for k, (w, p, l, i) in enumerate(self.old):
            v = self.walkers[k]
            ctx.eq([a for a in w.allpars], [a for a in p], 'walkers are not changed in place')
            ctx.eq(w.logL, l, 'walkers are not changed in place')
            ctx.check(v.id == i, 'identity')
            if k != kw or append or n == 0:
                ctx.check(v is w, 'other walkers are untouched')
        new = []
        if n > 0:
            new = [self.walkers[-1]] if append else [self.walkers[kw]]
            ctx.check(new[0] is not self.old[kw][0], 'a move replaces the walker')
        for v in new:
            ctx.check(self.perm(v.allpars), 'the same stops')
            if self.perm(v.allpars):
                ctx.eq(v.logL, self.L(*[a for a in v.allpars]), 'likelihood of its own order')
            if not start:
                ctx.le(self.low, v.logL, 'above the threshold')
            ctx.check(list(v.fitIndex) == list(range(self.n)), 'fit index')
        for p in self.seen:
            ctx.check(self.perm(p), 'only permutations are tried')
        if not start:
            for p in self.seen:
                if n == 0 and self.perm(p):
                    ctx.check(self.L(*p) < self.low, 'what is above the threshold is accepted')
        ctx.check(isinstance(n, int) or float(n) == int(n), 'number of moves')


def make(ctx, s, name, trials):
    eng = getattr(ctx.pkg, name)(s.walkers, s.err, phantoms=ctx.pkg.PhantomCollection())
    eng.rng = s.rng
    eng.maxtrials = trials
    return eng


def step(ctx, name, n, kw=1, append=False, trials=1, most=5, copied=False):
    s = Setup(ctx, n, most=most)
    eng = make(ctx, s, name, trials)
    if copied:
        eng = eng.copy()
        ctx.check(type(eng) is getattr(ctx.pkg, name) and eng.maxtrials == trials and eng.walkers is s.walkers and eng.errdis is s.err, 'a copy of the engine')
    r = eng.execute(kw, s.low, append=append)
    s.judge(kw, r, append)


def start(ctx, n):
    s = Setup(ctx, n)
    eng = make(ctx, s, 'StartOrderEngine', 1)
    r = eng.execute(1, -ctx.inf)
    ctx.check(r == n, 'number of moves')
    s.judge(1, r, start=True)


def cross(a, b, c, d):
    """twice the signed areas that tell on which side the ends of a segment are"""
    def area(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return area(a, b, c) * area(a, b, d), area(c, d, a) * area(c, d, b)


def loop(ctx, n, vertical, kw=1, rolled=0):
    """a proposal uncrosses two paths that cross; when there are none nothing is tried"""
    P, np = ctx.pkg, ctx.np
    pts = [list(p) for p in SITES[:n]]
    # the path that is tested runs from stop -1-ks to stop 0-ks
    i1, i2 = (n - 1 - rolled) % n, (n - rolled) % n
    i3 = (n - rolled + 1) % n
    pts[i1] = [0.0, -1.0]
    pts[i2] = [0.0, 1.5] if vertical else [2.0, 0.5]
    sx = [ctx.real('x%d' % k, -2, 2) for k in range(2)]
    sy = [ctx.real('y%d' % k, -2, 2) for k in range(2)]
    pts[i3] = [sx[0], sy[0]]
    pts[(i3 + 1) % n] = [sx[1], sy[1]]
    xd = np.array([[a for a in p] for p in pts])

    class Prob(P.SalesmanProblem):
        def minimumDistance(self):
            return 1.0
    pr = Prob(xdata=xd)
    s = Setup(ctx, n, ids=(1, 0), most=1, problem=pr, labels=False)
    # walker 1 has the stops in order
    kw = 1
    eng = make(ctx, s, 'LoopEngine', 1)
    ctx.assume(sx[0] != sx[1])
    r = eng.execute(kw, s.low)
    s.judge(kw, r)
    ks = int(s.rng.got[0])
    if ks != rolled:
        return
    p = [int(k) for k in np.roll(s.old[kw][1], ks)]
    pos = [[c for c in xd[k]] for k in p]
    tried = [int(k) for k in np.roll(np.array(s.seen[0], dtype=int), ks)] if s.seen else None
    t = None
    for j in range(2, n - 1):
        if tried == p[:j][::-1] + p[j:]:
            t = j
    ctx.check(tried is None or t is not None, 'reverses what is between the paths')
    for j in range(2, n - 1):
        a, b = cross(pos[-1], pos[0], pos[j - 1], pos[j])
        if t == j:
            ctx.le(a, 0, 'the paths cross')
            ctx.le(b, 0, 'the paths cross')
        elif t is None:
            ctx.check((a >= 0) or (b >= 0), 'no crossing is missed')


def near(ctx, n, kind, kw=1, twice=False):
    """a proposal brings the nearest stop next to the one selected"""
    P, np = ctx.pkg, ctx.np
    tab = None
    if kind == 'table':
        tab = np.array([[ctx.real('d%d%d' % (i, j), 1, 9) if i != j else ctx.const(0.0) for j in range(n)] for i in range(n)])
    xd = np.array([[ctx.real('x%d' % k, -9, 9), SITES[k][1]] if kind != 'table' else [SITES[k][0], SITES[k][1]] for k in range(n)])

    class Prob(P.SalesmanProblem):
        def minimumDistance(self):
            return 1.0
    pr = Prob(xdata=xd, distance=kind, table=tab)
    s = Setup(ctx, n, ids=(1, 0), most=2, problem=pr, labels=False)
    eng = make(ctx, s, 'NearEngine', 1)

    def dist(i, j):
        if tab is not None:
            return tab[i, j]
        return abs(xd[i, 0] - xd[j, 0]) + abs(xd[i, 1] - xd[j, 1])
    for again in range(2 if twice else 1):
        s.seen.clear()
        old = [int(k) for k in s.walkers[kw].allpars]
        s.old = [(w, w.allpars.copy(), w.logL, w.id) for w in s.walkers]
        r = eng.execute(kw, s.low)
        s.judge(kw, r)
        ks = int(s.rng.got[again])
        n0 = old[-ks % n]
        for p in s.seen:
            p = [int(k) for k in p]
            i = p.index(n0)
            for j in range(n):
                if j != n0:
                    c = [ctx.np.all(dist(n0, p[k % n]) <= dist(n0, j)) for k in (i - 1, i + 1)]
                    ctx.check(c[0] or c[1], 'the nearest is next')


def route(ctx, n, kind, oneway, weights, scale, copied=False):
    """the cost of a route is the sum of the distances between consecutive stops, weighted and scaled"""
    P, np = ctx.pkg, ctx.np
    tab = None
    if kind == 'table':
        tab = np.array([[ctx.real('d%d%d' % (i, j), 1, 9) if i != j else ctx.const(0.0) for j in range(n)] for i in range(n)])
    xd = np.array([[ctx.real('x%d%d' % (k, j), -9, 9) for j in range(2)] for k in range(n)])
    w = np.array([ctx.real('w%d' % k, 0.1, 5) for k in range(n)]) if weights else None
    sc = ctx.real('scale', 0.1, 9) if scale else None
    f = None
    if kind == 'user':
        f = ctx.fn('D', 2)

        def user(xdata, pars, roll=1):
            q = np.roll(pars, -roll)
            return np.array([f(xdata[pars[k], 0], xdata[q[k], 0]) for k in range(len(pars))])

    def dist(i, j):
        if tab is not None:
            return tab[i, j]
        if f is not None:
            return f(xd[i, 0], xd[j, 0])

    class Given(P.SalesmanProblem):
        def minimumDistance(self):
            return ctx.const(1.0)
    cls = P.SalesmanProblem if not scale else Given
    pr = cls(xdata=xd, distance=user if f is not None else kind, table=tab, oneway=oneway, weights=w, scale=sc)
    if copied:
        pr = pr.copy()
    p = np.array([ctx.integer('p0', 0, n - 1)] + [0] * (n - 1), dtype=int)
    rest = [k for k in range(n) if k != p[0]]
    for j in range(1, n):
        p[j] = rest.pop(ctx.integer('p%d' % j, 0, len(rest) - 1))
    res = pr.result(p)
    ctx.shape(res, (n,), 'distances')
    if not scale:
        if n > 2 and kind in ('table', 'user'):
            ms = [dist(i, j) for i in range(n) for j in range(n) if i != j]
            for m in ms:
                ctx.check((pr.scale <= m) or (pr.scale == 1), 'scale')
            ctx.check(any(bool(pr.scale == m) for m in ms) or pr.scale == 1, 'scale')
    for k in range(n):
        d = dist(p[k], p[(k + 1) % n])
        r = res[k] * pr.scale
        if oneway and k == n - 1:
            d = 0
        if w is not None:
            r = r / w[p[k]]
        ctx.eq(r, d, 'distance')
    e = P.DistanceCostFunction()
    ctx.eq(e.logLikelihood(pr, p), -sum(r for r in res), 'likelihood is minus the length')
    ctx.eq(sum(r for r in e.logLdata(pr, p)), -sum(r for r in res), 'likelihood of the data')


def solver(ctx, n, N, K, given=False):
    """the solver returns the best route that it sampled, with its length"""
    P, np = ctx.pkg, ctx.np
    base = ctx.rng('r')
    nn = [0]

    def orders(x):
        # any order, up to a rotation
        if len(x) != n:
            return np.array(x)
        nn[0] += 1
        k = ctx.integer('o%d' % nn[0], 0, 1 if n == 3 else 5)
        rest = list(range(1, n))
        out = [0]
        for f in range(n - 1, 0, -1):
            out.append(rest.pop(k % f))
            k //= f
        return np.array(out)
    base.permutation = orders
    ctx.globalrandom(base)

    class Any(P.OrderEngine):
        def executeOnce(self, kw, lowLhood, append=False):
            w = self.walkers[kw]
            p = orders(w.allpars)
            L = self.errdis.logLikelihood(w.problem, p)
            ctx.assume(L >= lowLhood)
            self.setWalker(len(self.walkers) if append else kw, w.problem, p, L, fitIndex=w.fitIndex)
            return 2
    tab = np.array([[ctx.real('d%d%d' % (i, j), 1, 9) if i != j else ctx.const(0.0) for j in range(n)] for i in range(n)])

    class Prob(P.SalesmanProblem):
        def minimumDistance(self):
            return 1.0
    pr = Prob(xdata=np.array([list(s) for s in SITES[:n]]), distance='table', table=tab)
    ns = P.NestedSolver(pr, distribution=P.DistanceCostFunction() if given else None, ensemble=N, engines=None, verbose=0, rate=5.0)
    names = [str(e) for e in ns.engines]
    ctx.check(names == ['MoveEngine', 'ReverseEngine', 'SwitchEngine', 'LoopEngine'], 'default engines')
    for e in ns.engines:
        ctx.check(e.walkers is ns.walkers and e.errdis is ns.distribution, 'engines of the solver')
    ns.setEngines([Any(None, None)])
    ns.minimumIterations = K
    ns.tolerance = 1e9
    out = ns.solve()
    smp = list(ns.samples)
    ctx.check(len(smp) == N + K, 'number of samples')
    for s in smp:
        p = [int(k) for k in s.allpars]
        ctx.check(sorted(p) == list(range(n)), 'a permutation')
        ctx.eq(s.logL, -sum(tab[p[k], p[(k + 1) % n]] for k in range(n)), 'length of the route')
        ctx.le(s.logL, out.logL, 'the best route')
    ctx.check(any(out is s for s in smp), 'one of the samples')


def bad(ctx, what):
    """unknown distances fall back on the euclidic one; unknown distributions are refused"""
    P, np = ctx.pkg, ctx.np
    xd = np.array([[ctx.real('x%d' % k, -9, 9), SITES[k][1]] for k in range(3)])
    if what == 'distribution':
        pr = P.SalesmanProblem(xdata=np.array([list(s) for s in SITES[:3]]))
        ctx.raises(ValueError, lambda: P.NestedSolver(pr, distribution='gauss', verbose=0), 'unknown distribution')
        return

    class Prob(P.SalesmanProblem):
        def minimumDistance(self):
            return 1.0
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pr = Prob(xdata=xd, distance=what)
    r = pr.result(np.array([0, 2, 1]))
    ctx.eq(r[0] * r[0], (xd[0, 0] - xd[2, 0]) ** 2 + (xd[0, 1] - xd[2, 1]) ** 2, 'euclidic')


def harnesses(tier):
    hs = []
    for name in ('ReverseEngine', 'MoveEngine', 'SwitchEngine', 'ShuffleEngine'):
        hs.append(H('step/%s/5' % name, step, (name, 5), paths=6000, qtimeout=400, tmax=90))
        hs.append(H('step/%s/4/trials' % name, step, (name, 4, 0, False, 2, 6), paths=6000, qtimeout=400, tmax=90))
        hs.append(H('step/%s/4/append' % name, step, (name, 4, 2, True), paths=6000, qtimeout=400, tmax=90))
        hs.append(H('step/%s/3/copy' % name, step, (name, 3, 1, False, 1, 5, True), paths=6000, qtimeout=400, tmax=90))
        hs.append(H('step/%s/6' % name, step, (name, 6, 1, False, 1, 7), paths=20000, qtimeout=400, tmax=600, thorough=True))
        hs.append(H('step/%s/2' % name, step, (name, 2), paths=6000, qtimeout=400, tmax=90))
    for n in (3, 4):
        hs.append(H('start/%d' % n, start, (n,), paths=2000))
    for v in (False, True):
        for rolled in (0, 2):
            hs.append(H('loop/4/%s/%d' % ('vertical' if v else 'slope', rolled), loop, (4, v, 1, rolled), paths=2000, qtimeout=700, tmax=90))
        hs.append(H('loop/5/%s' % ('vertical' if v else 'slope'), loop, (5, v), paths=2000, qtimeout=700, tmax=90))
    for kind in ('manhattan', 'table'):
        hs.append(H('near/4/%s' % kind, near, (4, kind), paths=4000, qtimeout=400, tmax=90))
        hs.append(H('near/4/%s/twice' % kind, near, (4, kind, 1, True), paths=8000, qtimeout=400, tmax=600, thorough=True))
    hs.append(H('near/3/table/twice', near, (3, 'table', 1, True), paths=4000, qtimeout=400, tmax=90))
    # the other distances are in C11
    for kind in ('table', 'user'):
        for oneway, w, sc, cp in ((False, False, True, False), (True, True, True, False), (False, True, True, True)):
            hs.append(H('route/%s/%s%s%s' % (kind, 'oneway' if oneway else 'round', '/weights' if w else '', '/copy' if cp else ''), route, (4, kind, oneway, w, sc, cp), paths=400, qtimeout=2000, tmax=90))
    hs.append(H('route/table/scale', route, (3, 'table', False, False, False), paths=3000, qtimeout=700, tmax=90))
    for n, N, K, g, th in ((3, 2, 1, True, False), (3, 2, 2, False, True), (3, 3, 1, False, True), (4, 2, 1, False, True)):
        hs.append(H('solver/%d/%d/%d' % (n, N, K), solver, (n, N, K, g), paths=6000, qtimeout=400, tmax=100 if not th else 600, thorough=th))
    for w in ('zorro', 5, 'distribution'):
        hs.append(H('bad/%s' % w, bad, (w,)))
    return hs
