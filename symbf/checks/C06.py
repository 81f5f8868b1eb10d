"""C06  priors and limits reach the parameter they were set for."""
from ..harness import H
from ..abstract import leafclass, combine

BOUNDS = ('simple models, chains of two and three, brackets in head, middle and tail, fixed parameters (constants and models), repeating, harmonic, football and combined models; '
          'up to 8 parameters; priors of every kind with symbolic centre, scale and limits, set one after the other, through the constituents before composing, '
          'by setLimits or all but the last; then one of them replaced, relimited or rescaled; every parameter mapped both ways, one by one and all together; '
          'hyperparameters of every error distribution and the extra parameters of a problem with errors in x and y')
ASSUMPTIONS = ['a repeating model has one prior per parameter of the repeated model, set by its index in that model',
               'what a single prior does with its own limits is the subject of C07 and C08']

KINDS = ('Uniform', 'Gauss', 'Laplace', 'Exponential', 'Cauchy', 'Jeffreys')


class Mark(object):
    """a prior, and what it should do"""

    def __init__(self, ctx, kind, name, limited=True):
        self.ctx, self.kind = ctx, kind
        P = ctx.pkg
        s = {}
        if kind in ('Gauss', 'Laplace', 'Cauchy'):
            s['center'] = ctx.real('c' + name, -1, 1)
        if kind in ('Gauss', 'Laplace', 'Cauchy', 'Exponential'):
            s['scale'] = ctx.real('s' + name, 1, 3)
        self.lo = self.hi = None
        if kind in ('Uniform', 'Jeffreys'):
            self.lo = ctx.real('l' + name, 0.1, 2)
            self.hi = self.lo + ctx.real('w' + name, 0.5, 2)
            s['limits'] = [self.lo, self.hi]
        elif kind == 'Exponential':
            self.lo = 0
        self.args = s
        cls = getattr(P, kind + 'Prior')
        self.cls = cls
        self.prior = cls(**s)
        self.ref = cls(**s)

    def relimit(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.ref = self.cls(**self.args)
        self.ref.setLimits([lo, hi])

    def rescale(self, s):
        self.ref = self.cls(**self.args)
        self.ref.setAttributes(scale=s)


def leaf(ctx, name, n, **kw):
    return leafclass(ctx)(name, n, **kw)


def marks(ctx, n, shift=0, tag=''):
    return [Mark(ctx, KINDS[(k + shift) % len(KINDS)], '%s%d' % (tag, k)) for k in range(n)]


# --- structures: name -> list of parts builder.  a part is (name, npar) or a nested list with operator
STRUCT = {
    'single': ['f3'],
    'zero': ['f0', 'g2'],
    'midzero': ['f2', 'g0', 'h2'],
    'pair': ['f2', 'g3'],
    'triple': ['f1', 'g2', 'h2'],
    'brackhead': [['f1', 'g2'], 'h2'],
    'bracktail': ['f2', ['g1', 'h2']],
    'brackmid': ['f1', ['g1', 'h2'], 'k2'],
    'bracktwo': [['f1', 'g1'], ['h1', 'k2']],
    'deep': ['f1', ['g1', ['h1', 'k2']], 'l1'],
    'fixone': ['f3x', 'g2'],
    'fixhead': ['g2', 'f3x', 'h1'],
    'fixmodel': ['f3m', 'g2'],
    'fixall': ['f0x', 'g2'],
}


def make(ctx, s, setparts):
    """model, marks per parameter"""
    if isinstance(s, str):
        name, n = s[0], int(s[1])
        kind = s[2:]
        if kind == 'x' and n:
            m = leaf(ctx, name, n, fixed={1: ctx.real('fix')})
            n -= 1
        elif kind == 'x':
            m = leaf(ctx, name, 2, fixed={0: ctx.real('fix'), 1: ctx.real('fiy')})
        elif kind == 'm':
            m = leaf(ctx, name, n, fixed={1: leaf(ctx, 'q', 2)})
            n += 1
        else:
            m = leaf(ctx, name, n)
        mk = marks(ctx, n, shift=ord(name), tag=name)
        if setparts:
            for k in range(n):
                m.setPrior(k, prior=mk[k].prior)
        return m, mk
    m, mk = make(ctx, s[0], setparts)
    for i, t in enumerate(s[1:]):
        m2, k2 = make(ctx, t, setparts)
        m = combine(m, '+*-'[i % 3], m2)
        mk = mk + k2
    return m, mk


def compare(ctx, m, mk, tag=''):
    n = len(mk)
    ctx.check(m.npchain == n, tag + 'number of parameters')
    u = ctx.reals('u', n, 0.1, 0.9)
    want = [mk[k].ref.unit2Domain(u[k]) for k in range(n)]
    for k in range(n):
        ctx.eq(m.unit2Domain(u[k], k), want[k], tag + 'unit2Domain of %d' % k)
        ctx.eq(m.getPrior(k).unit2Domain(u[k]), want[k], tag + 'prior of %d' % k)
    ctx.eq(m.unit2Domain(u), ctx.arr(want), tag + 'unit2Domain of all')
    x = []
    for k in range(n):
        pr = mk[k].ref
        lo = pr.lowLimit if pr.hasLowLimit() else None
        hi = pr.highLimit if pr.hasHighLimit() else None
        if lo is not None and hi is not None:
            x.append(lo + (hi - lo) * ctx.real('t%d' % k, 0.1, 0.9))
        elif lo is not None:
            x.append(lo + ctx.real('t%d' % k, 0.1, 2))
        elif hi is not None:
            x.append(hi - ctx.real('t%d' % k, 0.1, 2))
        else:
            x.append(ctx.real('t%d' % k, -2, 2))
    x = ctx.arr(x)
    back = [mk[k].ref.domain2Unit(x[k]) for k in range(n)]
    part = [mk[k].ref.partialDomain2Unit(x[k]) for k in range(n)]
    for k in range(n):
        ctx.eq(m.domain2Unit(x[k], k), back[k], tag + 'domain2Unit of %d' % k)
    if n:
        ctx.eq(m.domain2Unit(x), ctx.arr(back), tag + 'domain2Unit of all')
        ctx.eq(m.partialDomain2Unit(x), ctx.arr(part), tag + 'partialDomain2Unit')
    low, high = m.getLimits()
    ctx.check(len(low) == n and len(high) == n, tag + 'length of the limits')
    for k in range(n):
        ctx.eq(low[k], mk[k].ref.lowLimit, tag + 'low limit of %d' % k)
        ctx.eq(high[k], mk[k].ref.highLimit, tag + 'high limit of %d' % k)
    has = [mk[k].ref.hasLimits() for k in range(n)]
    ctx.check(bool(m.hasLimits()) == all(has), tag + 'hasLimits')
    for k in range(n):
        ctx.check(bool(m.hasLimits(fitindex=[k])) == has[k], tag + 'hasLimits of %d' % k)
    if n > 2:
        ctx.check(bool(m.hasLimits(fitindex=[0, n - 1])) == (has[0] and has[-1]), tag + 'hasLimits of first and last')
    ctx.check(bool(m.hasPriors(isBound=False)), tag + 'hasPriors')
    ctx.check(bool(m.hasPriors()) == all(mk[k].ref.isBound() for k in range(n)), tag + 'hasPriors bound')


def structure(ctx, s, how):
    m, mk = make(ctx, STRUCT[s], how == 'parts')
    n = len(mk)
    if how in ('seq', 'copy'):
        for k in range(n):
            m.setPrior(k, prior=mk[k].prior)
    if how == 'copy':
        m = m.copy()
    if how in ('limits', 'limitstwice', 'low', 'high'):
        lo = ctx.reals('lo', n, 0.1, 1)
        hi = ctx.arr([lo[k] + ctx.real('hi%d' % k, 0.5, 2) for k in range(n)])
        if how == 'limitstwice':
            m.setLimits(lowLimits=ctx.reals('ol', n, 0.1, 1), highLimits=ctx.reals('oh', n, 2, 3))
        if how in ('low', 'high'):
            for k in range(n):
                mk[k] = Mark(ctx, ('Gauss', 'Laplace', 'Cauchy')[k % 3], 'n%d' % k)
                m.setPrior(k, prior=mk[k].prior)
                if how == 'low':
                    mk[k].relimit(lo[k], None)
                else:
                    mk[k].relimit(None, hi[k])
            if how == 'low':
                m.setLimits(lowLimits=lo)
            else:
                m.setLimits(highLimits=hi)
        else:
            m.setLimits(lowLimits=lo, highLimits=hi)
            U = ctx.pkg.UniformPrior
            for k in range(n):
                mk[k].ref = U(limits=[lo[k], hi[k]])
    compare(ctx, m, mk)


def override(ctx, s, what):
    """one prior is changed: that parameter, and only that one"""
    m, mk = make(ctx, STRUCT[s], True)
    n = len(mk)
    k = ctx.integer('k', 0, n - 1)
    if what == 'prior':
        mk[k] = Mark(ctx, 'Uniform', 'new')
        m.setPrior(k, prior=mk[k].prior)
    elif what == 'limits':
        lo = ctx.real('lnew', 0.1, 1)
        hi = lo + ctx.real('wnew', 0.5, 2)
        mk[k].relimit(lo, hi)
        m.setPrior(k, limits=[lo, hi])
    else:
        k = next(j for j in range(n) if mk[j].kind not in ('Uniform', 'Jeffreys'))
        sc = ctx.real('snew', 1, 3)
        mk[k].rescale(sc)
        m.setPrior(k, scale=sc)
    compare(ctx, m, mk)


def fewer(ctx, n, q):
    """a model with fewer priors than parameters uses the last one for the remaining ones"""
    m = leaf(ctx, 'f', n)
    mk = marks(ctx, q)
    for k in range(q):
        m.setPrior(k, prior=mk[k].prior)
    mk = mk + [mk[-1]] * (n - q)
    compare(ctx, m, mk)
    m2 = leaf(ctx, 'g', 2)
    g = marks(ctx, 2, 1, 'g')
    for k in range(2):
        m2.setPrior(k, prior=g[k].prior)
    m2 = m2 + m
    compare(ctx, m2, g + mk, 'in a compound: ')


def priors_none(ctx, s):
    """a model without (all) priors does not claim to have them, nor limits"""
    m, mk = make(ctx, STRUCT[s], False)
    n = len(mk)
    ctx.check(not m.hasPriors(), 'no priors')
    ctx.check(not m.hasLimits(), 'no limits')
    h = STRUCT[s][0]
    if isinstance(h, str) and h[1] != '0' and h[1] != str(n):
        m.setPrior(0, prior=mk[0].prior)
        ctx.check(not m.hasPriors(isBound=False), 'not all priors')
        ctx.check(not m.hasLimits(), 'not all limits')


# --- models that share or select priors

def cyclic(ctx, what):
    P = ctx.pkg
    if what == 'harmonic':
        m = P.HarmonicDynamicModel(2, minOrder=1, maxOrder=3)
        mk = marks(ctx, m.deltaNpar)
        for k in range(m.deltaNpar):
            m.setPrior(k, prior=mk[k].prior)
        mk = (mk * 4)[:m.npars]
    elif what == 'football':
        m = P.FootballModel(2, complexity=3)
        mk = marks(ctx, 3)
        for k in range(3):
            m.setPrior(k, prior=mk[k].prior)
        mk = mk * 2
    elif what in ('repeat', 'repeatsame', 'repeatset'):
        g = leaf(ctx, 'g', 3)
        mk = marks(ctx, 3)
        if what != 'repeatset':
            for k in range(3):
                g.setPrior(k, prior=mk[k].prior)
        m = P.RepeatingModel(2, g, minComp=1, same=[1] if what == 'repeatsame' else None)
        if what == 'repeatset':
            for k in range(3):
                m.setPrior(k, prior=mk[k].prior)
        mk = mk + ([mk[0], mk[2]] if what == 'repeatsame' else mk)
    elif what == 'bracket':
        g = leaf(ctx, 'g', 1) + leaf(ctx, 'h', 2)
        mk = marks(ctx, 3)
        for k in range(3):
            g.setPrior(k, prior=mk[k].prior)
        m = P.BracketModel(g)
    elif what == 'bracketset':
        m = P.BracketModel(leaf(ctx, 'g', 1) + leaf(ctx, 'h', 2))
        mk = marks(ctx, 3)
        for k in range(3):
            m.setPrior(k, prior=mk[k].prior)
    elif what == 'combi':
        g = leaf(ctx, 'g', 2)
        mk = marks(ctx, 2)
        for k in range(2):
            g.setPrior(k, prior=mk[k].prior)
        m = P.CombiModel(g, nrepeat=3, addCombi={1: [0, 1, 2]})
        mk = [mk[0], mk[1], mk[0], mk[0]]
    else:
        m = P.CombiModel(leaf(ctx, 'g', 2), nrepeat=3, addCombi={1: [0, 1, 2]})
        mk = marks(ctx, 4)
        for k in range(4):
            m.setPrior(k, prior=mk[k].prior)
    return m, mk


def shared(ctx, what, where):
    m, mk = cyclic(ctx, what)
    if where == 'tail':
        h = leaf(ctx, 'q', 2, ndim=m.ndim)
        hk = marks(ctx, 2, 3, 'q')
        for k in range(2):
            h.setPrior(k, prior=hk[k].prior)
        m, mk = h + m, hk + mk
    elif where == 'head':
        h = leaf(ctx, 'q', 2, ndim=m.ndim)
        hk = marks(ctx, 2, 3, 'q')
        for k in range(2):
            h.setPrior(k, prior=hk[k].prior)
        m, mk = m + h, mk + hk
    elif where == 'bracket':
        h = leaf(ctx, 'q', 2, ndim=m.ndim)
        hk = marks(ctx, 2, 3, 'q')
        for k in range(2):
            h.setPrior(k, prior=hk[k].prior)
        i = leaf(ctx, 'r', 1, ndim=m.ndim)
        ik = marks(ctx, 1, 2, 'r')
        i.setPrior(0, prior=ik[0].prior)
        m, mk = i + (m * h), ik + mk + hk
    compare(ctx, m, mk)


SHARED = ('harmonic', 'football', 'repeat', 'repeatsame', 'repeatset', 'bracket', 'bracketset', 'combi', 'combiset')


# --- hyperparameters and engines

def errdis(ctx, cls, how):
    """priors of the hyperparameters"""
    P = ctx.pkg
    C = getattr(P, cls)
    if cls == 'MixedErrorDistribution':
        e1, e2 = P.GaussErrorDistribution(scale=1.0), P.ExponentialErrorDistribution(scale=2.0, power=1.5)
        e = C(e1, e2)
        nh = 4
    else:
        e = C()
        nh = 2 if cls == 'ExponentialErrorDistribution' else 1
    if how == 'limits':
        lo = ctx.reals('lo', nh, 0.1, 1)
        hi = ctx.arr([lo[k] + ctx.real('hi%d' % k, 0.5, 2) for k in range(nh)])
        J, U = P.JeffreysPrior, P.UniformPrior
        if cls == 'MixedErrorDistribution':
            lo, hi = lo[:nh], hi[:nh]
            e1.setLimits([lo[0], hi[0]])
            e2 = P.ExponentialErrorDistribution(limits=[lo[1:3], hi[1:3]])
            e = C(e1, e2, limits=[lo[3], hi[3]])
        elif nh == 1:
            e.setLimits([lo[0], hi[0]])
        else:
            e = C(limits=[ctx.reals('ol', nh, 0.1, 1), ctx.reals('oh', nh, 2, 3)])
            e.setLimits([lo, hi])
        ref = [J(limits=[lo[k], hi[k]]) if k < 3 else U(limits=[lo[k], hi[k]]) for k in range(nh)]
    elif how == 'construct':
        lo = ctx.reals('lo', nh, 0.1, 1)
        hi = ctx.arr([lo[k] + ctx.real('hi%d' % k, 0.5, 2) for k in range(nh)])
        e = C(limits=[lo[0], hi[0]] if nh == 1 else [lo, hi])
        ref = [P.JeffreysPrior(limits=[lo[k], hi[k]]) for k in range(nh)]
    else:
        mk = marks(ctx, nh)
        e.setPriors([k.prior for k in mk])
        ref = [k.ref for k in mk]
    ctx.check(e.nphypar == nh, 'number of hyperparameters')
    u = ctx.reals('u', nh, 0.1, 0.9)
    for k in range(nh):
        x = ref[k].unit2Domain(u[k])
        ctx.eq(e.unit2Domain(u[k], k), x, 'unit2Domain of %d' % k)
        ctx.eq(e.unit2Domain(u[k], k - nh), x, 'unit2Domain of %d' % (k - nh))
        y = ctx.real('y%d' % k, 0.2, 3)
        if ref[k].hasLimits():
            y = ref[k].lowLimit + (ref[k].highLimit - ref[k].lowLimit) * ctx.real('z%d' % k, 0.1, 0.9)
        ctx.eq(e.domain2Unit(y, k), ref[k].domain2Unit(y), 'domain2Unit of %d' % k)
        ctx.eq(e.domain2Unit(y, k - nh), ref[k].domain2Unit(y), 'domain2Unit of %d' % (k - nh))
        ctx.check(not e.hyperpar[k].isFixed, 'not fixed')
    ctx.check(bool(e.isBound()) == all(r.isBound() for r in ref), 'isBound')


ERRDIS = ('GaussErrorDistribution', 'LaplaceErrorDistribution', 'CauchyErrorDistribution', 'UniformErrorDistribution', 'ExponentialErrorDistribution', 'MixedErrorDistribution')


def hyperpar(ctx, cls, how):
    P = ctx.pkg
    H_ = getattr(P, cls)
    nm = 'scale' if cls == 'NoiseScale' else 'hypar'
    v = ctx.real('v', 0.1, 3)
    mk = Mark(ctx, 'Jeffreys' if how == 'limits' else 'Gauss' if how == 'prior' else 'Uniform', 'a')
    if how == 'limits':
        h = H_(**{nm: v, 'limits': [mk.lo, mk.hi]})
    elif how == 'priorlimits':
        h = H_(**{nm: v, 'prior': P.UniformPrior(), 'limits': [mk.lo, mk.hi]})
    else:
        h = H_(**{nm: v, 'prior': mk.prior})
    for i, g in enumerate((h, h.copy())):
        t = ('', 'copy: ')[i]
        ctx.eq(g.hypar, v, t + 'value')
        u = ctx.real('u', 0.1, 0.9)
        ctx.eq(g.unit2Domain(u), mk.ref.unit2Domain(u), t + 'unit2Domain')
        ctx.check(bool(g.isBound()) == bool(mk.ref.isBound()), t + 'isBound')

        ctx.check(not g.isFixed, t + 'not fixed')


def engine(ctx, nh, errxy):
    P = ctx.pkg
    m = leaf(ctx, 'f', 2)
    mk = marks(ctx, 2)
    for k in range(2):
        m.setPrior(k, prior=mk[k].prior)
    xd, yd = ctx.reals('x', 2), ctx.reals('yd', 2)
    ref = [k.ref for k in mk]
    if errxy:
        pr = Mark(ctx, 'Gauss', 'xy')
        prb = P.ErrorsInXandYProblem(model=m, xdata=xd, ydata=yd)
        prb.prior = pr.prior
    else:
        prb = P.ClassicProblem(model=m, xdata=xd, ydata=yd)
    if nh == 0:
        ed = P.PoissonErrorDistribution()
    else:
        ed = P.GaussErrorDistribution() if nh == 1 else P.ExponentialErrorDistribution()
        hk = marks(ctx, nh, 4, 'h')
        ed.setPriors([k.prior for k in hk])
    eng = P.Engine(P.WalkerList(), ed)
    u2d = [lambda u, r=r: r.unit2Domain(u) for r in ref]
    d2u = [lambda u, r=r: r.domain2Unit(u) for r in ref]
    idx = [0, 1]
    if errxy:
        for i in range(2):
            u2d.append(lambda u, i=i: pr.ref.unit2Domain(u) + xd[i])
            d2u.append(lambda u, i=i: pr.ref.domain2Unit(u - xd[i]))
        idx += [2, 3]
    for k in range(nh):
        u2d.append(lambda u, r=hk[k].ref: r.unit2Domain(u))
        d2u.append(lambda u, r=hk[k].ref: r.domain2Unit(u))
    idx += list(range(-nh, 0))
    n = len(idx)
    u = ctx.reals('u', n, 0.1, 0.9)
    x = ctx.arr([u2d[k](u[k]) for k in range(n)])
    for k in range(n):
        ctx.eq(eng.unit2Domain(prb, u[k], kpar=idx[k]), x[k], 'unit2Domain of %d' % idx[k])
        ctx.eq(eng.domain2Unit(prb, x[k], kpar=idx[k]), d2u[k](x[k]), 'domain2Unit of %d' % idx[k])
    ctx.eq(eng.unit2Domain(prb, u), x, 'unit2Domain of all')
    ctx.eq(eng.domain2Unit(prb, x), ctx.arr([d2u[k](x[k]) for k in range(n)]), 'domain2Unit of all')
    sub = [idx[0], idx[-1]]
    ctx.eq(eng.unit2Domain(prb, u[[0, n - 1]], kpar=ctx.np.array(sub)), x[[0, n - 1]], 'unit2Domain of some')
    sub = [idx[-1], idx[1]]
    ctx.eq(eng.unit2Domain(prb, u[[n - 1, 1]], kpar=sub), x[[n - 1, 1]], 'unit2Domain of some reversed')
    ctx.eq(eng.domain2Unit(prb, x[[n - 1, 1]], kpar=sub), ctx.arr([d2u[n - 1](x[n - 1]), d2u[1](x[1])]), 'domain2Unit of some reversed')


def harnesses(tier):
    out = []
    for s in STRUCT:
        for how in ('seq', 'parts', 'copy', 'limits', 'limitstwice', 'low', 'high'):
            out.append(H('structure/%s/%s' % (s, how), structure, (s, how)))
        for what in ('prior', 'limits', 'scale'):
            out.append(H('override/%s/%s' % (s, what), override, (s, what)))
        out.append(H('none/%s' % s, priors_none, (s,)))
    for n, q in ((3, 1), (3, 2), (4, 2)):
        out.append(H('fewer/%d.%d' % (n, q), fewer, (n, q)))
    for what in SHARED:
        for where in ('alone', 'tail', 'head', 'bracket'):
            out.append(H('shared/%s/%s' % (what, where), shared, (what, where)))
    for cls in ERRDIS:
        for how in ('limits', 'priors', 'construct'):
            if cls == 'MixedErrorDistribution' and how == 'construct':
                continue
            out.append(H('errdis/%s/%s' % (cls, how), errdis, (cls, how)))
    for cls in ('HyperParameter', 'NoiseScale'):
        for how in ('limits', 'prior', 'priorlimits', 'ownlimits'):
            out.append(H('hyperpar/%s/%s' % (cls, how), hyperpar, (cls, how)))
    for nh in (0, 1, 2):
        for xy in (False, True):
            out.append(H('engine/%d/%s' % (nh, 'xy' if xy else 'classic'), engine, (nh, xy)))
    return out
