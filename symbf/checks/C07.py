"""C07  priors: unit interval <-> domain.   C08 shares the configurations."""
from ..harness import H

BOUNDS = ('every prior class with symbolic centre, scale and limits (none, low only, high only, both), circular by limits or by period; '
          'configured by the constructor, by setLimits / setAttributes afterwards, twice in a row, by copying, by unsetting; '
          'one or two symbolic values, scalars and arrays')
ASSUMPTIONS = ['scale, center and limits are set through the constructor, setLimits, setAttributes, unsetLimits or copy (not by assigning to attributes of a limited prior)',
               'improper configurations (Uniform or Jeffreys without both limits) have no unit map and are outside the claim',
               'the map to the domain is considered for 0 < u < 1 (the end points of unlimited priors are cut at MAXVAL by design)']


class Unit(object):
    """limits, periods and values in units of the scale, as seen from the centre: without loss of generality, every
    a is c + m s alpha.  Kept within a few scales, so that a replay in floating point is well conditioned"""

    def __init__(self, ctx, kind, name, c=0, s=1):
        self.ctx, self.kind, self.name, self.c, self.s = ctx, kind, name, c, s
        self.pos = kind in ('Exponential', 'Jeffreys')

    def at(self, alpha):
        return self.c + self.unit() * alpha

    def unit(self):
        return self.s * (self.ctx.pkg.GaussPrior.SQRT2 if self.kind == 'Gauss' else 1)

    def low(self, name='a'):
        return self.at(self.ctx.real(name + self.name, 0.1 if self.pos else -2, 1))

    def high(self, name='b'):
        return self.at(self.ctx.real(name + self.name, 0.6 if self.pos else -1, 3))

    def pair(self, name=''):
        ctx = self.ctx
        a, b = ctx.real('a' + name + self.name, 0.1 if self.pos else -2, 1), ctx.real('b' + name + self.name, 0.6 if self.pos else -1, 3)
        ctx.assume(a + 0.5 < b)
        return [self.at(a), self.at(b)]

    def period(self):
        return self.at(self.ctx.real('t' + self.name, 1, 4)) - self.c

    def inside(self, name, lo, hi):
        return self.at(self.alpha(name, lo, hi))

    def alpha(self, name, lo, hi):
        al = self.ctx.real(name, 0 if self.pos else -2.5, 3.5)
        y = self.at(al)
        if lo is not None:
            self.ctx.assume(y > lo)
        if hi is not None:
            self.ctx.assume(y < hi)
        return al


SCALED = ('Gauss', 'Cauchy', 'Laplace')


def build(ctx, kind, how, name=''):
    """returns prior, lo, hi (None: unlimited), units"""
    P = ctx.pkg
    cls = getattr(P, kind + 'Prior')
    kw = {}
    U = Unit(ctx, kind, name)
    if kind in SCALED:
        kw['center'] = U.c = ctx.real('c' + name, -1, 1)
    if kind in SCALED or kind == 'Exponential':
        kw['scale'] = U.s = ctx.real('s' + name, 1, 3)
    first = 0 if kind == 'Exponential' else None
    if how == 'plain':
        return cls(**kw), first, None, U
    if how == 'high':
        h = U.high()
        pr = cls(hilimit=h, **kw) if kind == 'Exponential' else cls(limits=[None, h], **kw)
        return pr, first, h, U
    if how == 'low':
        a = U.low()
        return cls(limits=[a, None], **kw), a, None, U
    if how == 'both':
        a, b = U.pair()
        return cls(limits=[a, b], **kw), a, b, U
    if how in ('circlimits', 'copycirclim'):
        a, b = U.pair()
        pr = cls(limits=[a, b], **kw) if kind == 'CircularUniform' else cls(limits=[a, b], circular=True, **kw)
        return pr if how == 'circlimits' else pr.copy(), a, b, U
    if how in ('circperiod', 'copycirc'):
        t = U.period()
        pr = cls(circular=t, **kw)
        c = U.c if kind in SCALED else t / 2
        return pr if how == 'circperiod' else pr.copy(), c - t / 2, c + t / 2, U
    if how == 'circset':
        pr = cls(circular=True, limits=U.pair('1'), **kw)
        a, b = U.pair()
        pr.setLimits([a, b])
        return pr, a, b, U
    # changed after construction
    pr = cls(**kw)
    if how in ('attrscale', 'attrboth'):
        s2 = ctx.real('s2' + name, 1, 3)
        if kind != 'Uniform':
            U.s = s2
    a, b = U.pair()
    if how == 'set':
        pr.setLimits([a, b])
    elif how == 'setlow':
        pr.setLimits([a, None])
        b = None
    elif how == 'attrlimits':
        pr.setAttributes(limits=[a, b])
    elif how == 'attrscale':
        pr.setLimits([a, b])
        pr.setAttributes(scale=s2)
    elif how == 'attrboth':
        pr.setAttributes(limits=[a, b], scale=s2)
    elif how == 'twice':
        pr.setLimits(U.pair('1'))
        pr.setLimits([a, b])
    elif how == 'copyset':
        pr.setLimits([a, b])
        pr = pr.copy()
    elif how == 'unset':
        pr.setLimits([a, b])
        pr.unsetLimits()
        return pr, first, None, U
    else:
        raise AssertionError(how)
    return pr, a, b, U


HOWS = {'Gauss': ['plain', 'low', 'high', 'both', 'circlimits', 'circperiod', 'set', 'setlow', 'attrlimits', 'attrscale', 'attrboth', 'twice', 'copyset', 'copycirc', 'copycirclim',
                  'circset', 'unset'],
        'Exponential': ['plain', 'high', 'set', 'setlow', 'attrlimits', 'attrscale', 'attrboth', 'twice', 'copyset', 'unset'],
        'Uniform': ['both', 'circlimits', 'circperiod', 'set', 'attrlimits', 'twice', 'copyset', 'copycirc', 'copycirclim', 'circset'],
        'CircularUniform': ['circlimits', 'circperiod'],
        'Jeffreys': ['both', 'set', 'attrlimits', 'twice', 'copyset']}
HOWS['Cauchy'] = HOWS['Laplace'] = HOWS['Gauss']
CONFIGS = [(k, h) for k in ('Gauss', 'Cauchy', 'Laplace', 'Exponential', 'Uniform', 'CircularUniform', 'Jeffreys') for h in HOWS[k]]


def circular(how):
    return 'circ' in how


def limits(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    if lo is None:
        ctx.check(not pr.hasLowLimit(), 'no low limit')
    else:
        ctx.eq(pr.lowLimit, lo, 'low limit')
    if hi is None:
        ctx.check(not pr.hasHighLimit(), 'no high limit')
    else:
        ctx.eq(pr.highLimit, hi, 'high limit')
    ctx.check(bool(pr.isCircular()) == circular(how), 'circular or not')
    ctx.check(bool(pr.isBound()), 'proper prior')


def roundtrip(ctx, kind, how, form):
    pr, lo, hi, U = build(ctx, kind, how)
    u = ctx.real('u', 0, 1)
    if form == 'array':
        v = ctx.real('v', 0, 1)
        uu = ctx.arr([u, v])
        x = pr.unit2Domain(uu)
        x0, x1 = pr.unit2Domain(u), pr.unit2Domain(v)
        ctx.eq(x, ctx.arr([x0, x1]), 'array of values to the domain')
        y = ctx.arr([U.inside('y', lo, hi), U.inside('z', lo, hi)])
        w = pr.domain2Unit(y)
        ctx.eq(w, ctx.arr([pr.domain2Unit(y[0]), pr.domain2Unit(y[1])]), 'array of values to the unit interval')
        return
    x = pr.unit2Domain(u)
    if lo is not None:
        ctx.le(lo, x, 'not below the low limit')
    if hi is not None:
        ctx.le(x, hi, 'not above the high limit')
    if circular(how):
        ctx.assume(3 * u != 1)
        ctx.assume(3 * u != 2)
        f = 3 * u - (0 if bool(3 * u < 1) else 1 if bool(3 * u < 2) else 2)
        ctx.eq(pr.domain2Unit(x), (f + 1) / 3, 'there and back')
    else:
        ctx.eq(pr.domain2Unit(x), u, 'there and back')
    if kind != 'Jeffreys':
        return
    ctx.lt(0, x, 'positive')


def back(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    y = U.inside('y', lo, hi)
    u = pr.domain2Unit(y)
    ctx.le(0, u, 'in the unit interval')
    ctx.le(u, 1, 'in the unit interval, high')
    ctx.eq(pr.unit2Domain(u), y, 'back to the domain')


def monotone(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    y, z = U.inside('y', lo, hi), U.inside('z', lo, hi)
    ctx.assume(y < z)
    ctx.lt(pr.domain2Unit(y), pr.domain2Unit(z), 'increasing')


def monotone2(ctx, kind, how):
    pr, lo, hi, U = build(ctx, kind, how)
    u, v = ctx.real('u', 0, 1), ctx.real('v', 0, 1)
    if circular(how):
        ctx.assume(3 * v < 1)
    ctx.assume(u < v)
    ctx.lt(pr.unit2Domain(u), pr.unit2Domain(v), 'increasing')


def harnesses(tier):
    hs = []
    for k, h in CONFIGS:
        n = '%s/%s' % (k, h)
        kw = dict(paths=3000, tmax=240, qtimeout=8000 if circular(h) else 3000, whole=k in ('Laplace', 'Exponential', 'Jeffreys'))
        late = k == 'Laplace' and h in ('circset', 'copycirclim')        # minutes of solver time
        hs.append(H('limits/' + n, limits, (k, h), **kw))
        hs.append(H('unit-domain-unit/' + n, roundtrip, (k, h, 'scalar'), thorough=late, **kw))
        hs.append(H('array/' + n, roundtrip, (k, h, 'array'), thorough=late, **kw))
        hs.append(H('domain-unit-domain/' + n, back, (k, h), **kw))
        hs.append(H('increasing/' + n, monotone, (k, h), **kw))
        hs.append(H('increasing-inverse/' + n, monotone2, (k, h), thorough=late, **kw))
    return hs
