"""C21  growing and shrinking a dynamic model keeps it the model it claims to be."""
from ..harness import H

BOUNDS = ('sequences of up to 3 grow and shrink operations (4 in the thorough tier) on polynomial, harmonic, repeating and spline models of 1-4 components, alone and in chains with a static model before '
          'or after; arbitrary parameters, random numbers and prior limits; one call of the birth, death, structure and start engines with 2 walkers, an arbitrary likelihood and threshold')
ASSUMPTIONS = ['random numbers are in the open interval (0,1)', 'the likelihood is finite', 'new knots are accepted within 2 trials', 'knots at fixed positions, except the new ones']


class Counted:
    def __init__(self, ctx, rng, most):
        self.ctx, self._r, self._most, self._n = ctx, rng, most, 0
        self.got = []

    def __getattr__(self, name):
        f = getattr(self._r, name)

        def g(*a, **k):
            n0 = self._r.n
            r = f(*a, **k)
            self._n += self._r.n - n0
            self.got.append(r)
            if self._n > self._most:
                self.ctx.assume(False)
            return r
        return g


KINDS = ('poly', 'harmonic', 'repeat', 'repeat/same', 'repeat/none', 'repeat/compound', 'repeat/samenone')


class Maker:
    """a dynamic model, the static model that it should be, and its priors"""

    def __init__(self, ctx, kind, n=None, mx=None, before=0, after=0, sym=True):
        P, np = ctx.pkg, ctx.np
        self.ctx, self.kind, self.before, self.after = ctx, kind, before, after
        self.lim = []

        def prior(k):
            lo = ctx.real('lo%d' % len(self.lim), -5, 5) if sym else ctx.const(-1.0 - len(self.lim))
            w = ctx.real('w%d' % len(self.lim), 0.5, 8) if sym else ctx.const(2.0 + len(self.lim))
            self.lim.append((lo, w))
            return P.UniformPrior(limits=[lo, lo + w])
        self.same = None
        if kind == 'repeat/samenone':
            kind = self.kind = 'repeat/none'
            self.same = [1]
        if kind == 'poly':
            m = P.PolynomialDynamicModel(1 if n is None else n, minDegree=0, maxDegree=2 if mx is None else mx)
            m.setPrior(0, prior=prior(0))
            m.setPrior(1, prior=prior(1))
            self.per, self.base, self.first = 1, 1, 0
            self.mincomp, self.maxcomp = 1, 3
            self.prioridx = lambda k: min(k, 1)
        elif kind == 'harmonic':
            m = P.HarmonicDynamicModel(1 if n is None else n, minOrder=1, maxOrder=3 if mx is None else mx, period=2.0)
            m.setPrior(0, prior=prior(0))
            m.setPrior(1, prior=prior(1))
            self.per, self.base = 2, 2
            self.mincomp, self.maxcomp = 1, 3
            self.prioridx = lambda k: k % 2
        else:
            self.sub = lambda: P.ExpModel() if kind != 'repeat/compound' else P.ExpModel() + P.PolynomialModel(0)
            s = self.sub()
            np_ = s.npars
            for k in range(np_):
                s.setPrior(k, prior=prior(k))
            self.same = [1] if kind == 'repeat/same' else self.same
            mn = 0 if kind == 'repeat/none' else 1
            m = P.RepeatingModel((1 if mn else 0) if n is None else n, s, minComp=mn, maxComp=3 if mx is None else mx, same=self.same)
            self.base = np_
            self.per = np_ - (1 if self.same else 0)
            self.mincomp, self.maxcomp = mn, 3
            idx = [k for k in range(np_) if k not in (self.same or [])]
            self.prioridx = lambda k: k if k < np_ else idx[(k - np_) % len(idx)]
        if mx is not None:
            self.maxcomp = mx + 1 if kind == 'poly' else mx
        self.dyn = m
        self.off = 0
        if before:
            h = P.PolynomialModel(before - 1)
            for k in range(before):
                h.setPrior(k, prior=P.UniformPrior(limits=[-3.0, 4.0]))
            h.addModel(m)
            self.off = before
            self.head = h
        else:
            self.head = m
        if after:
            t = P.SineModel() if after == 3 else P.PolynomialModel(after - 1)
            for k in range(after):
                t.setPrior(k, prior=P.UniformPrior(limits=[-2.0, 5.0]))
            self.head.addModel(t)
        self.tail = after

    def npdyn(self):
        n = self.dyn.ncomp
        return 0 if n == 0 else self.base + (n - 1) * self.per

    def limits(self, k):
        """limits of parameter k of the chain"""
        if k < self.off:
            return -3.0, 4.0
        k -= self.off
        if k < self.npdyn():
            lo, w = self.lim[self.prioridx(k)]
            return lo, lo + w
        return -2.0, 5.0

    def components(self, p):
        """parameters of the dynamic part, per component"""
        p = [a for a in p]
        out = []
        if self.dyn.ncomp == 0:
            return out
        cur = p[:self.base]
        out.append(cur)
        idx = [k for k in range(self.base) if k not in (self.same or [])]
        for c in range(1, self.dyn.ncomp):
            cur = list(cur)
            for j, i in enumerate(idx):
                cur[i] = p[self.base + (c - 1) * self.per + j]
            out.append(cur)
        return out

    def static(self, x, p):
        ctx = self.ctx
        P, np = ctx.pkg, ctx.np
        p = [a for a in p]
        k, n = self.off, self.npdyn()
        tot = [ctx.const(0.0)] * len(x)
        if self.off:
            r = P.PolynomialModel(self.off - 1).result(x, np.array(p[:self.off]))
            tot = [a + b for a, b in zip(tot, r)]
        d = p[k:k + n]
        if self.kind == 'poly':
            r = [sum(d[j] * xx ** j for j in range(n)) for xx in x]
        elif self.kind == 'harmonic':
            r = P.HarmonicModel(n // 2, period=2.0).result(x, np.array(d))
        else:
            r = [ctx.const(0.0)] * len(x)
            for c in self.components(d):
                s = self.sub()
                r = [a + b for a, b in zip(r, s.result(x, np.array(c)))]
        tot = [a + b for a, b in zip(tot, r)]
        if self.tail:
            t = P.SineModel() if self.tail == 3 else P.PolynomialModel(self.tail - 1)
            tot = [a + b for a, b in zip(tot, t.result(x, np.array(p[k + n:])))]
        return tot

    def judge(self, tag=''):
        ctx = self.ctx
        P, np = ctx.pkg, ctx.np
        h, m = self.head, self.dyn
        n = self.off + self.npdyn() + self.tail
        ctx.check(h.npars == n and h.npchain == n, tag + 'number of parameters')
        ctx.check(m.npbase == self.npdyn() and m.npmax == self.npdyn(), tag + 'number of parameters of the dynamic part')
        ctx.shape(h.parameters, (n,), tag + 'parameters')
        ctx.check(self.mincomp <= m.ncomp and m.ncomp <= self.maxcomp, tag + 'number of components in its bounds')
        ctx.check(m._head is h and h.isDynamic(), tag + 'chain')
        x = np.array([0.25, 1.5])
        r = h.result(x, h.parameters)
        ctx.shape(r, (2,), tag + 'result')
        ctx.eq([a for a in r], self.static(x, h.parameters), tag + 'result')
        pa = h.partial(x, h.parameters)
        ctx.shape(pa, (2, n), tag + 'partials')
        for k in range(n):
            lo, hi = self.limits(k)
            pr = h.getPrior(k)
            ctx.eq([pr.lowLimit, pr.highLimit], [lo, hi], tag + 'prior')
        ctx.check(len([h.getParameterName(k) for k in range(n)]) == n, tag + 'names')


def history(ctx, kind, nops, before=0, after=0, n=None, mx=None, copied=False):
    """any sequence of grow and shrink"""
    P, np = ctx.pkg, ctx.np
    mk = Maker(ctx, kind, n, mx, before, after)
    if copied:
        orig = mk.head
        mk.head = mk.head.copy()
        mk.dyn = mk.head
        while not isinstance(mk.dyn, P.module('Dynamic').Dynamic):
            mk.dyn = mk.dyn._next
        on, oc = orig.npars, (orig if not before else orig._next).ncomp
    mk.judge('initially: ')
    h, m = mk.head, mk.dyn
    h.parameters = np.array([ctx.real('p%d' % k, -2, 2) for k in range(h.npars)]) if h.npars else np.zeros(0)
    mk.judge('filled: ')
    rng = ctx.rng('r')
    for t in range(nops):
        old = [a for a in h.parameters]
        nc, npd = m.ncomp, mk.npdyn()
        u0 = rng.n
        what = ctx.choose('op%d' % t, ['grow', 'shrink', 'plain'])
        if what == 'shrink':
            r = m.shrink(offset=mk.off, rng=rng)
            ctx.check(bool(r) == (nc > mk.mincomp), 'shrinks when it can')
        else:
            r = m.grow(offset=mk.off, rng=rng if what == 'grow' else None)
            ctx.check(bool(r) == (nc < mk.maxcomp), 'grows when it can')
        dn = 0 if not r else (-1 if what == 'shrink' else 1)
        ctx.check(m.ncomp == nc + dn, 'number of components')
        mk.judge('%s: ' % what)
        new = [a for a in h.parameters]
        npn = mk.npdyn()
        ks = mk.off + min(npd, npn)
        ctx.eq(new[:ks], old[:ks], 'parameters before')
        if mk.tail:
            ctx.eq(new[-mk.tail:], old[-mk.tail:], 'parameters after')
        for k in range(mk.off + npd, mk.off + npn):
            if what == 'grow':
                lo, hi = mk.limits(k)
                ctx.eq(new[k], lo + (hi - lo) * ctx.real('r.u%d' % (u0 + 1 + k - mk.off - npd), 0, 1), 'new parameters are drawn from the prior')
            else:
                ctx.eq(new[k], 0, 'new parameters')
    if copied:
        ctx.check(orig.npars == on and (orig if not before else orig._next).ncomp == oc, 'the original is unchanged')
        ctx.shape(orig.parameters, (on,), 'the original is unchanged')


def fitindex(ctx, kind, grow, before, after, free, skip=()):
    """indices keep pointing to the same parameters"""
    np = ctx.np
    mk = Maker(ctx, kind, before=before, after=after, n=2 if not grow else None, sym=False)
    h, m = mk.head, mk.dyn
    np0 = h.npars
    old = np.array([float(k) for k in range(np0)])
    h.parameters = old.copy()
    fi = [k for k in range(np0) if k not in skip] + ([-1] if free else [])
    nb = m.npbase
    ctx.check(m.grow(offset=mk.off) if grow else m.shrink(offset=mk.off), 'done')
    dn = m.npbase - nb
    new = [int(k) for k in m.alterFitindex(np.array(fi), nb, dn, mk.off)]
    exp = []
    for k in fi:
        if k < 0 or k < mk.off + min(nb, m.npbase):
            exp.append(k)
        elif k >= mk.off + nb:
            exp.append(k + dn)
    if grow:
        exp += list(range(mk.off + nb, mk.off + m.npbase))
    ctx.check(sorted(new) == sorted(exp), 'fit index')
    pos = [k for k in new if k >= 0]
    ctx.check(pos == sorted(pos) and (not free or new[-1] == -1), 'order of the fit index')


def shuffle(ctx, kind, n, off):
    """shuffling the components leaves the model as it is"""
    P, np = ctx.pkg, ctx.np
    mk = Maker(ctx, kind, n=n, before=off, after=1)
    h, m = mk.head, mk.dyn
    p = np.array([ctx.real('p%d' % k, -2, 2) for k in range(h.npars)])
    x = np.array([0.25, 1.5])
    q = p.copy()
    r = m.shuffle(q, mk.off, m.npbase, ctx.rng('r'))
    ctx.shape(r, p.shape, 'number of parameters')
    ctx.eq(h.result(x, r), h.result(x, p), 'the same model')
    ctx.eq([a for a in r[:off]] + [r[-1]], [a for a in p[:off]] + [p[-1]], 'other parameters')


def bounds(ctx, kind):
    """constructor arguments outside the bounds are refused; a model that is not dynamic stays as it is"""
    P, np = ctx.pkg, ctx.np
    if kind == 'poly':
        ctx.raises(ValueError, lambda: P.PolynomialDynamicModel(3, maxDegree=2), 'too many')
        ctx.raises(ValueError, lambda: P.PolynomialDynamicModel(1, minDegree=2), 'too few')
        ctx.raises(AttributeError, lambda: P.PolynomialDynamicModel(1, fixed={0: 1.0}), 'fixed')
    elif kind == 'harmonic':
        ctx.raises(ValueError, lambda: P.HarmonicDynamicModel(3, maxOrder=2), 'too many')
        ctx.raises(ValueError, lambda: P.HarmonicDynamicModel(1, minOrder=2), 'too few')
        ctx.raises(AttributeError, lambda: P.HarmonicDynamicModel(1, fixed={0: 1.0}), 'fixed')
    else:
        g = P.ExpModel()
        ctx.raises(ValueError, lambda: P.RepeatingModel(3, g, maxComp=2), 'too many')
        ctx.raises(ValueError, lambda: P.RepeatingModel(1, g, minComp=2), 'too few')
        ctx.raises(AttributeError, lambda: P.RepeatingModel(1, g, fixed={0: 1.0}), 'fixed')
        for m in (P.RepeatingModel(2, g, dynamic=False), P.RepeatingModel(2, g, minComp=2, maxComp=2)):
            for c in (m, m.copy()):
                ctx.check(not c.isDynamic() and not c.grow(rng=ctx.rng('r')) and not c.shrink(rng=ctx.rng('r')) and c.ncomp == 2 and c.npars == 4, 'a static model')


def growprior(ctx, kind, has):
    """the number of components follows the grow prior"""
    P, np = ctx.pkg, ctx.np
    mx = 3 if has else None
    if kind == 'poly':
        m = P.PolynomialDynamicModel(1, minDegree=1, maxDegree=mx)
    elif kind == 'harmonic':
        m = P.HarmonicDynamicModel(1, minOrder=1, maxOrder=mx)
    elif kind == 'splines':
        m = P.SplinesDynamicModel(knots=[0.0, 1.0], minKnots=1, maxKnots=mx)
    else:
        m = P.RepeatingModel(1, P.ExpModel(), minComp=1, maxComp=mx)
    u = ctx.real('u', 0.01, 0.99)
    for g in (m.growPrior, m.copy().growPrior):
        if has:
            ctx.eq(g.unit2Domain(u), 1 + 3 * u, 'uniform between the bounds')
        else:
            ctx.eq(ctx.math.exp(g.unit2Domain(u) / -2), 1 - u, 'exponential')


def splines(ctx, op, nk=3, order=2, before=0, after=0, most=3):
    """knots stay in order, the number of parameters follows the knots"""
    P, np = ctx.pkg, ctx.np
    kn = [0.0, 1.0, 2.5, 4.0][:nk]
    m = P.SplinesDynamicModel(knots=kn, order=order, minKnots=2, maxKnots=nk + 1, minDistance=0.03)
    lo, w = ctx.real('lo', -5, 0), ctx.real('w', 5, 9)
    m.setPrior(0, prior=P.UniformPrior(limits=[lo, lo + w]))
    h = m
    if before:
        h = P.PolynomialModel(before - 1)
        for k in range(before):
            h.setPrior(k, prior=P.UniformPrior(limits=[20.0, 30.0]))
        h.addModel(m)
    if after:
        t = P.PolynomialModel(after - 1)
        for k in range(after):
            t.setPrior(k, prior=P.UniformPrior(limits=[40.0, 50.0]))
        h.addModel(t)
    nb = m.npbase
    ctx.check(nb == nk + order - 1, 'number of parameters')
    old = np.array([ctx.real('p%d' % k, 0, 1) * w + lo if before <= k < before + nb else ctx.real('p%d' % k, 20, 30) for k in range(h.npars)])
    h.parameters = old.copy()
    md = m.minDistance
    rng = Counted(ctx, ctx.rng('r'), most)
    if op == 'grow':
        ctx.check(m.grow(offset=before, rng=rng), 'grows')
        dn = 1
    elif op == 'shrink':
        ctx.check(m.shrink(offset=before, rng=rng), 'shrinks')
        dn = -1
    else:
        ctx.check(m.vary(rng=rng, location=1) if op == 'vary1' else m.vary(rng=rng), 'varies')
        dn = 0
    ctx.check(len(m.knots) == nk + dn and m.ncomp == nk + dn, 'number of knots')
    k = [a for a in m.knots]
    ctx.eq([k[0], k[-1]], [kn[0], kn[-1]], 'the ends stay')
    for a, b in zip(k, k[1:]):
        ctx.lt(a, b, 'knots in order')
        if dn >= 0:
            ctx.le(md, b - a, 'minimum distance')
    ctx.check(h.npars == before + after + nb + dn and m.npbase == nb + dn, 'number of parameters')
    ctx.shape(h.parameters, (before + after + nb + dn,), 'number of parameters')
    new = [a for a in h.parameters]
    ctx.eq(new[:before], [a for a in old[:before]], 'parameters before')
    if after:
        ctx.eq(new[-after:], [a for a in old[-after:]], 'parameters after')
    for a in new[before:before + nb + dn]:
        if op != 'grow':
            ctx.le(lo, a, 'inside the prior')
            ctx.le(a, lo + w, 'inside the prior')
    if dn == 0:
        ctx.eq(new, [a for a in old], 'parameters')
    x = np.array([0.5, 3.0 if nk > 3 else 2.0])
    ref = P.BasicSplinesModel(knots=np.array([a for a in m.knots]), order=order)
    r = m.baseResult(x, np.array(new[before:before + nb + dn]))
    ctx.eq([a for a in r], [a for a in ref.baseResult(x, np.array(new[before:before + nb + dn]))], 'the splines on these knots')


class Walk:
    def __init__(self, ctx, kind, free, before=0, after=0, n=None, most=12, nw=2, ids=(1, 0), skip=()):
        P, np = ctx.pkg, ctx.np
        self.ctx, self.free, self.skip = ctx, free, skip
        self.mk = mk = Maker(ctx, kind, before=before, after=after, sym=False, n=n)
        self.seen = []
        walk = self
        self.fail = 0

        def like(problem, p):
            p = [a for a in p]
            return ctx.fn('L%d' % len(p), len(p))(*p)
        self.like = like

        class Lik(P.GaussErrorDistribution):
            def logLhood(self, problem, allpars):
                self.ncalls += 1
                if walk.fail:
                    walk.fail -= 1
                    return -ctx.inf
                ctx.check(problem.model.npars + 1 == len(allpars), 'as many parameters as the model has')
                return like(problem, allpars)

        self.problem = P.ClassicProblem(mk.head, xdata=np.array([0.0, 1.0]), ydata=np.array([0.5, 1.5]))
        self.err = Lik()
        if free:
            self.err.setPriors([P.UniformPrior(limits=[0.5, 2.5])])
            self.err.hyperpar[0].isFixed = False
        self.low = ctx.real('low', -9, 9)
        self.walkers = P.WalkerList()
        n = mk.head.npars
        for j in range(nw):
            p = np.zeros(n + 1)
            for k in range(n):
                lo, hi = mk.limits(k)
                p[k] = lo + (hi - lo) * ctx.real('u%d_%d' % (j, k), 0.02, 0.98)
            p[n] = 0.5 + 2 * ctx.real('u%d_h' % j, 0.02, 0.98) if free else 1.0
            w = P.Walker(ids[j], self.problem.copy(), p, np.array([k for k in range(n) if k not in skip] + ([-1] if free else [])))
            w.problem.model.parameters = p[:n].copy()
            w.logL = like(self.problem, p)
            ctx.assume(w.logL >= self.low)
            self.walkers.append(w)
        self.walkers._count = nw
        self.snap()
        self.rng = Counted(ctx, ctx.rng('r'), most)

    def dyn(self, w):
        m = w.problem.model
        D = self.ctx.pkg.module('Dynamic').Dynamic
        while not isinstance(m, D):
            m = m._next
        return m

    def snap(self):
        self.old = [(w, w.allpars.copy(), w.logL, w.id, w.problem.model.parameters.copy(), self.dyn(w).ncomp, list(w.fitIndex)) for w in self.walkers]

    def judge(self, kw, n, append, engine):
        ctx, mk = self.ctx, self.mk
        ctx.check(len(self.walkers) == len(self.old) + (1 if append and n > 0 else 0), 'size of the ensemble')
        for k, (w, p, l, i, mp, nc, fi) in enumerate(self.old):
            v = self.walkers[k]
            ctx.eq([a for a in w.allpars], [a for a in p], 'walkers are not changed in place')
            ctx.eq(w.logL, l, 'walkers are not changed in place')
            ctx.check(self.dyn(w).ncomp == nc and w.problem.model.npars == len(mp), 'models are not changed in place')
            ctx.eq([a for a in w.problem.model.parameters], [a for a in mp], 'models are not changed in place')
            ctx.check(list(w.fitIndex) == fi, 'fit index is not changed in place')
            ctx.check(v.id == i, 'identity')
            if k != kw or append or n == 0:
                ctx.check(v is w, 'other walkers are untouched')
        if n == 0:
            return
        v = self.walkers[-1] if append else self.walkers[kw]
        ctx.check(v is not self.old[kw][0], 'a move replaces the walker')
        self.good(v, engine)
        src, nc = self.old[kw][1], self.old[kw][5]
        m = self.dyn(v)
        if engine == 'BirthEngine':
            ctx.check(m.ncomp == nc + 1, 'one more')
        elif engine == 'DeathEngine':
            ctx.check(m.ncomp == nc - 1, 'one less')
        new = [a for a in v.allpars]
        o, t = mk.off, mk.tail + 1
        ctx.eq(new[:o], [a for a in src[:o]], 'parameters before')
        ctx.eq(new[-t:], [a for a in src[-t:]], 'parameters after')
        if engine == 'BirthEngine':
            ctx.eq(new[:len(src) - t], [a for a in src[:len(src) - t]], 'parameters that survive')
        elif engine == 'DeathEngine':
            mk.dyn = m
            left = mk.components(new[o:len(new) - t])
            mk.dyn = self.dyn(self.old[kw][0])
            had = mk.components([a for a in src[o:len(src) - t]])
            if not any(same(ctx, left, had, skip) for skip in range(len(had))):
                ctx.check(False, 'the components that survive')
        ctx.check(n == abs(len(new) - len(src)), 'number of moves')

    def good(self, v, engine):
        ctx, mk = self.ctx, self.mk
        m = self.dyn(v)
        mk.dyn, mk.head = m, v.problem.model
        mk.judge(engine + ': ')
        N = v.problem.model.npars
        ctx.shape(v.allpars, (N + 1,), 'number of parameters')
        ctx.shape(v.problem.model.parameters, (N,), 'parameters of the model')
        ctx.check(list(v.fitIndex) == [k for k in range(N) if k not in self.skip] + ([-1] if self.free else []), 'fit index')
        ctx.eq(v.logL, self.like(v.problem, v.allpars), 'likelihood of its own parameters')
        if engine != 'StartEngine':
            ctx.le(self.low, v.logL, 'above the threshold')
        for k in self.skip:
            ctx.eq(v.allpars[k], self.old[1][1][k] if engine == 'StartEngine' else self.old[0][1][k], 'parameters that are kept')
        for k in range(N):
            lo, hi = mk.limits(k)
            ctx.le(lo, v.allpars[k], 'inside the prior domain')
            ctx.le(v.allpars[k], hi, 'inside the prior domain')
        if self.free:
            ctx.le(0.5, v.allpars[-1], 'inside the prior domain')
            ctx.le(v.allpars[-1], 2.5, 'inside the prior domain')
        else:
            ctx.eq(v.allpars[-1], 1, 'the fixed scale')


def same(ctx, left, had, skip):
    """the components that are left, in any order, are the old ones less one"""
    want = [c for k, c in enumerate(had) if k != skip]
    if len(want) != len(left):
        return False
    for c in left:
        for w in want:
            if all(a is b if ctx.symbolic else float(a) == float(b) for a, b in zip(c, w)):
                want.remove(w)
                break
        else:
            return False
    return True


def engine(ctx, name, kind, free, append, before=0, after=0, n=None, trials=1, skip=()):
    s = Walk(ctx, kind, free, before, after, n, skip=skip)
    eng = getattr(ctx.pkg, name)(s.walkers, s.err, phantoms=ctx.pkg.PhantomCollection(dynamic=True))
    eng.rng = s.rng
    eng.maxtrials = trials
    r = eng.execute(0, s.low, append=append, iteration=1)
    s.judge(0, r, append, name)


def start(ctx, kind, free, before=0, after=0, retry=False, skip=()):
    P, np = ctx.pkg, ctx.np
    s = Walk(ctx, kind, free, before, after, ids=(0, 1), most=24, skip=skip)
    eng = P.StartEngine(s.walkers, s.err, phantoms=P.PhantomCollection(dynamic=True))
    eng.rng = s.rng
    eng.maxtrials = 3
    s.fail = 1 if retry else 0
    r = eng.execute(1, -ctx.inf)
    w = s.walkers[1]
    ctx.check(s.walkers[0] is s.old[0][0], 'other walkers are untouched')
    ctx.check(r == len(w.fitIndex), 'number of moves')
    s.good(w, 'StartEngine')


def structure(ctx, free, append, before=0, after=0, nk=3, most=10):
    """the structure engine moves knots, not parameters"""
    P, np = ctx.pkg, ctx.np
    kn = [0.0, 1.0, 2.5, 4.0][:nk]
    m = P.SplinesDynamicModel(knots=kn, order=1, minKnots=2, maxKnots=nk + 1, minDistance=0.03, dynamic=False)
    m.setPrior(0, prior=P.UniformPrior(limits=[-4.0, 4.0]))
    h = m
    if before:
        h = P.PolynomialModel(before - 1)
        for k in range(before):
            h.setPrior(k, prior=P.UniformPrior(limits=[-4.0, 4.0]))
        h.addModel(m)
    if after:
        t = P.PolynomialModel(after - 1)
        for k in range(after):
            t.setPrior(k, prior=P.UniformPrior(limits=[-4.0, 4.0]))
        h.addModel(t)
    n = h.npars

    def find(w):
        mdl = w.problem.model
        for k in range(1 if before else 0):
            mdl = mdl._next
        return mdl

    def like(problem, p):
        mdl = problem.model._next if before else problem.model
        return ctx.fn('L', n + 1 + nk)(*([a for a in p] + [a for a in mdl.knots]))

    class Lik(P.GaussErrorDistribution):
        def logLhood(self, problem, allpars):
            self.ncalls += 1
            return like(problem, allpars)
    pr = P.ClassicProblem(h, xdata=np.array([0.0, 1.0, 4.0]), ydata=np.array([0.5, 1.5, 1.0]))
    err = Lik()
    if free:
        err.setPriors([P.UniformPrior(limits=[0.5, 2.5])])
        err.hyperpar[0].isFixed = False
    low = ctx.real('low', -9, 9)
    ws = P.WalkerList()
    for j in range(2):
        p = np.array([ctx.real('p%d_%d' % (j, k), -4, 4) for k in range(n)] + [ctx.real('s%d' % j, 0.5, 2.5)])
        w = P.Walker(1 - j, pr.copy(), p, np.array(list(range(n)) + ([-1] if free else [])))
        w.logL = like(w.problem, p)
        ctx.assume(w.logL >= low)
        ws.append(w)
    ws._count = 2
    old = [(w, w.allpars.copy(), w.logL, w.id, [a for a in find(w).knots]) for w in ws]
    eng = P.StructureEngine(ws, err, phantoms=P.PhantomCollection(dynamic=True))
    eng.rng = Counted(ctx, ctx.rng('r'), most)
    r = eng.execute(0, low, append=append, iteration=1)
    ctx.check(len(ws) >= 2 and (append or len(ws) == 2), 'size of the ensemble')
    for k, (w, p, l, i, kk) in enumerate(old):
        ctx.eq([a for a in w.allpars], [a for a in p], 'walkers are not changed in place')
        ctx.eq([a for a in find(w).knots], kk, 'models are not changed in place')
        ctx.eq(w.logL, l, 'walkers are not changed in place')
        if k != 0 or append or r == 0:
            ctx.check(ws[k] is w, 'other walkers are untouched')
    if r == 0:
        ctx.check(len(ws) == 2, 'size of the ensemble')
        return
    new = list(ws[2:]) if append else [ws[0]]
    ctx.check(len(new) >= 1 and new[0] is not old[0][0], 'a move replaces the walker')
    for v in new:
        k = [a for a in find(v).knots]
        ctx.eq([k[0], k[-1]], [kn[0], kn[-1]], 'the ends stay')
        for a, b in zip(k, k[1:]):
            ctx.le(m.minDistance, b - a, 'knots in order')
        ctx.check(v.problem.model.npars == n, 'number of parameters')
        ctx.eq([a for a in v.allpars], [a for a in old[0][1]], 'parameters')
        ctx.eq(v.logL, like(v.problem, v.allpars), 'likelihood of its own knots')
        ctx.le(low, v.logL, 'above the threshold')


def repeatprior(ctx, before, after):
    """priors of a repeated model are set by way of the repeating model"""
    P, np = ctx.pkg, ctx.np
    m = P.RepeatingModel(2, P.ExpModel(), minComp=1, maxComp=3)
    h = m
    if before:
        h = P.PolynomialModel(0)
        h.setPrior(0, prior=P.UniformPrior(limits=[-3.0, 4.0]))
        h.addModel(m)
    if after:
        h.addModel(P.PolynomialModel(0))
    lim = []
    for k in range(2):
        lim.append((ctx.real('lo%d' % k, -5, 0), ctx.real('hi%d' % k, 1, 5)))
        h.setPrior(before + k, prior=P.UniformPrior(limits=list(lim[-1])))
    if after:
        h.setPrior(before + 4, prior=P.UniformPrior(limits=[-2.0, 5.0]))
    lims = ([(-3.0, 4.0)] if before else []) + lim + lim + ([(-2.0, 5.0)] if after else [])
    for q in (h, h.copy()):
        for k, (lo, hi) in enumerate(lims):
            p = q.getPrior(k)
            ctx.eq([p.lowLimit, p.highLimit], [lo, hi], 'prior')


def harnesses(tier):
    hs = []
    for kind in KINDS:
        for b, a in ((0, 0), (1, 0), (0, 1), (2, 1)):
            deep = (b, a) == (0, 0)
            hs.append(H('history/%s/%d/%d' % (kind, b, a), history, (kind, 3 if deep else 2, b, a), paths=400, qtimeout=700, tmax=60))
            hs.append(H('history/%s/%d/%d/deep' % (kind, b, a), history, (kind, 4, b, a), paths=900, qtimeout=700, tmax=600, thorough=True))
        hs.append(H('history/%s/copy' % kind, history, (kind, 2, 0, 0, None, None, True), paths=200, qtimeout=700, tmax=60))
        hs.append(H('history/%s/chain/copy' % kind, history, (kind, 1, 1, 1, None, None, True), paths=200, qtimeout=700, tmax=60))
        hs.append(H('history/%s/sine' % kind, history, (kind, 1, 0, 3), paths=200, qtimeout=700, tmax=60))
        for grow in (True, False):
            for b, a, free, skip in ((0, 0, False, ()), (0, 0, True, ()), (2, 1, True, ()), (1, 2, False, ()), (2, 1, True, (1,)), (0, 2, False, (0,))):
                if kind in ('repeat/none', 'repeat/samenone') and not grow:
                    continue
                hs.append(H('fitindex/%s/%s/%d%d%s%s' % (kind, grow, b, a, free, skip), fitindex, (kind, grow, b, a, free, skip)))
        hs.append(H('bounds/%s' % kind, bounds, (kind,)))
        for n in (2, 3):
            hs.append(H('shuffle/%s/%d' % (kind, n), shuffle, (kind, n if kind != 'poly' else n - 1, 2 if n == 2 else 0), paths=50))
        for free in (False, True):
            for append in (False, True):
                b, a = ((0, 0), (1, 0), (0, 1), (1, 1))[2 * free + append]
                hs.append(H('birth/%s/%s/%s' % (kind, free, append), engine, ('BirthEngine', kind, free, append, b, a), paths=2000, qtimeout=700, tmax=60))
                hs.append(H('death/%s/%s/%s' % (kind, free, append), engine, ('DeathEngine', kind, free, append, b, a, 2), paths=2000, qtimeout=700, tmax=60))
        hs.append(H('birth/%s/trials' % kind, engine, ('BirthEngine', kind, True, False, 0, 0, None, 2), paths=2000, qtimeout=700, tmax=60))
        for free, b, a in ((False, 0, 0), (True, 1, 0), (True, 0, 1)):
            hs.append(H('start/%s/%s/%d%d' % (kind, free, b, a), start, (kind, free, b, a), paths=2000, qtimeout=700, tmax=60))
            hs.append(H('start/%s/%s/%d%d/retry' % (kind, free, b, a), start, (kind, free, b, a, True), paths=2000, qtimeout=700, tmax=60))
    for kind in KINDS:
        hs.append(H('start/%s/kept' % kind, start, (kind, True, 2, 0, False, (0,)), paths=2000, qtimeout=700, tmax=60))
        hs.append(H('start/%s/kept/retry' % kind, start, (kind, False, 1, 1, True, (0,)), paths=2000, qtimeout=700, tmax=60))
        hs.append(H('birth/%s/kept' % kind, engine, ('BirthEngine', kind, True, False, 2, 0, None, 1, (1,)), paths=2000, qtimeout=700, tmax=60))
        hs.append(H('death/%s/kept' % kind, engine, ('DeathEngine', kind, True, True, 2, 1, 2, 1, (0,)), paths=2000, qtimeout=700, tmax=60))
    for free, append, b, a in ((False, False, 0, 0), (True, True, 0, 0), (True, False, 1, 0), (False, True, 0, 1)):
        hs.append(H('structure/%s/%s/%d%d' % (free, append, b, a), structure, (free, append, b, a, 3, 3 if not free else 5), paths=600, qtimeout=700, tmax=60))
    hs.append(H('structure/4', structure, (False, False, 0, 0, 4, 5), paths=600, qtimeout=700, tmax=600, thorough=True))
    for b in (0, 1):
        for a in (0, 1):
            hs.append(H('repeatprior/%d%d' % (b, a), repeatprior, (b, a)))
    for kind in ('poly', 'harmonic', 'repeat', 'splines'):
        for has in (False, True):
            hs.append(H('growprior/%s/%s' % (kind, has), growprior, (kind, has)))
    for op in ('grow', 'shrink', 'vary', 'vary1'):
        for b, a in ((0, 0), (1, 1)):
            for order in ((1, 2) if op == 'shrink' else (1,)):
                hs.append(H('splines/%s/%d%d/%d' % (op, b, a, order), splines, (op, 3, order, b, a), paths=600, qtimeout=700, tmax=60, thorough=order == 2 and b == 1))
    return hs
