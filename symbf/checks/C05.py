"""C05  copies and compounds are independent and keep their bookkeeping."""
from itertools import product as iproduct
from ..harness import H
from ..models import SPECS, Spec, M, POS, knots
from ..abstract import leafclass, Ref, combine
from .C01 import xdata, params

BOUNDS = ('every built-in model and compounds of 2-3 arbitrary constituents (brackets and fixed parameters included) with symbolic parameters, standard deviations '
          'and limits; one mutation (parameters in place or replaced, limits, prior, prior attributes, names, appended model, grow, shrink, vary, '
          'constants) of the original or of the copy; 1 data point; every error distribution, mixtures included')
ASSUMPTIONS = ['models are changed through their own attributes and methods, not by editing a shared Prior or Kernel object in place']


def tophat(ctx, **e):
    return ctx.pkg.FreeShapeModel(3, nconvolve=1, xlo=0.0, xhi=3.0)


def usermodel(ctx, **e):
    f = ctx.fn('u', 3)
    return ctx.pkg.UserModel(2, lambda x, p: ctx.arr([f(x[i], p[0], p[1]) for i in range(len(x))]), userName='mine',
                             userPartial=lambda x, p: ctx.arr([[ctx.dfn('u', 3, (0, 1, 0))(x[i], p[0], p[1]), ctx.dfn('u', 3, (0, 0, 1))(x[i], p[0], p[1])]
                                                               for i in range(len(x))]),
                             userDeriv=lambda x, p: ctx.arr([ctx.dfn('u', 3, (1, 0, 0))(x[i], p[0], p[1]) for i in range(len(x))]))


def repeating(ncomp, **kw):
    def make(ctx, **e):
        g = ctx.pkg.GaussModel()
        return ctx.pkg.RepeatingModel(ncomp, g, **kw)
    return make


def splinesdyn(**kw):
    def make(ctx, **e):
        return ctx.pkg.SplinesDynamicModel(knots=[0.0, 1.0, 2.5, 4.0], **kw)
    return make


def dtree(depth):
    def make(ctx, **e):
        return ctx.pkg.DecisionTreeModel(ndim=2, kdim=[0, 1, 1], depth=depth)
    return make


EXTRA = [
    Spec('basicsplines2', M('BasicSplinesModel', knots=[0.0, 1.0, 2.5, 4.0], order=2), 5, x=dict(lo=0, hi=4)),
    Spec('basicsplines3', M('BasicSplinesModel', knots=[0.0, 1.0, 2.5, 4.0]), 6, x=dict(lo=0, hi=4)),
    Spec('basicsplinesp', M('BasicSplinesModel', knots=[0.0, 1.0, 2.5, 4.0, 5.0], order=1, border=1), 4, x=dict(lo=0, hi=5)),
    Spec('bsplines', M('BSplinesModel', knots=[0.0, 1.0, 2.5, 4.0], order=2), 5, x=dict(lo=0, hi=4), deriv=False),
    Spec('splinesdyn', splinesdyn(minKnots=2, maxKnots=6), 6, x=dict(lo=0, hi=4)),
    Spec('splinesdyn1', splinesdyn(order=1, minKnots=2), 4, x=dict(lo=0, hi=4)),
    Spec('splinesdynp', splinesdyn(order=1, border=1), 3, x=dict(lo=0, hi=4)),
    Spec('splinesmod', splinesdyn(dynamic=False), 6, x=dict(lo=0, hi=4)),
    Spec('polydyn', M('PolynomialDynamicModel', 2, minDegree=1, maxDegree=4), 3),
    Spec('harmdyn', M('HarmonicDynamicModel', 2, minOrder=1, maxOrder=3, period=0.75), 4),
    Spec('repeating2', repeating(2, minComp=1, maxComp=4), 6, {2: POS, 5: POS}),
    Spec('repeating2s', repeating(2, minComp=1, same=[2]), 5, {2: POS}),
    Spec('repeatingfix', repeating(2, dynamic=False), 6, {2: POS, 5: POS}),
    Spec('freeshape', tophat, 3, x=dict(lo=0, hi=3), deriv=False),
    Spec('user', usermodel, 2),
    Spec('softmax', lambda ctx, **e: ctx.pkg.SoftMaxModel(ndim=2, ndout=2), 4, ndim=2, ndout=2),
    Spec('softmaxo', lambda ctx, **e: ctx.pkg.SoftMaxModel(ndim=2, ndout=1, offset=True, normed=False), 3, ndim=2),
    Spec('tree', dtree(2), 4, ndim=2, deriv=False),
    Spec('bracket', lambda ctx, **e: ctx.pkg.BracketModel(ctx.pkg.GaussModel() + ctx.pkg.PolynomialModel(1)), 5, {2: POS}),
    Spec('combidouble', lambda ctx, **e: ctx.pkg.CombiModel(ctx.pkg.GaussModel() + ctx.pkg.PolynomialModel(0), nrepeat=2, addCombi={1: [0, 0.5]}), 7, {2: POS, 5: POS}),
    Spec('combimul', lambda ctx, **e: ctx.pkg.CombiModel(ctx.pkg.ExpModel(), nrepeat=2, oper='mul', mulCombi={1: [1, 2]}), 3),
    Spec('constanttable', lambda ctx, **e: ctx.pkg.ConstantModel(table=[1.5]), 0),
    Spec('constantmodel', lambda ctx, **e: ctx.pkg.ConstantModel(fixedModel=ctx.pkg.ExpModel()), 0),
    Spec('sinefixed', lambda ctx, **e: ctx.pkg.SineModel(phase=True, fixed={0: 1.5}), 2),
    Spec('gaussfixed', lambda ctx, **e: ctx.pkg.GaussModel(fixed={2: ctx.pkg.PolynomialModel(1)}), 4, deriv=False),
]


def listed(a):
    return list(a) if isinstance(a, (list, tuple)) else a


NOTEXT = ('SineAmpModel', 'PolySineAmpModel', 'SineSplineModel')       # print their (symbolic) constant


def printable(m):
    while m is not None:
        if type(m).__name__ in NOTEXT or any(k not in m.mlist for k in (m.fixed or {})) or ('model' in m.__dict__ and not printable(m.model)):
            return False
        m = m._next
    return True


def text(m):
    """the description of the model, unless it contains a symbolic number"""
    return str(m) if printable(m) else None


def snap(ctx, m, x, p):
    """everything a user sees of a model"""
    n = m.npars
    s = dict(npars=n, parameters=m.parameters, stdevs=m.stdevs, length=m.chainLength(), ndim=m.ndim, dynamic=m.isDynamic(), text=text(m),
             kind=type(m).__name__)
    if m.stdevs is not None:
        s['stdevs'] = m.stdevs.copy()
    s['short'] = m.shortName() if printable(m) else None
    s['parameters'] = m.parameters.copy()
    s['names'] = [m.getParameterName(k) for k in range(n)]
    s['result'] = m.result(x, p.copy())
    s['partial'] = listed(m.partial(x, p.copy()))
    s['haspriors'] = bool(m.hasPriors(isBound=False))
    if s['haspriors']:
        s['priors'] = [type(m.getPrior(k)).__name__ for k in range(n)]
        s['limits'] = [[m.getPrior(k).lowLimit, m.getPrior(k).highLimit] for k in range(n)]
    return s


def differ(ctx, a, b, tag):
    for k in sorted(set(a) | set(b)):
        u, v = a.get(k), b.get(k)
        if k in ('result', 'partial', 'parameters', 'stdevs') and u is not None and v is not None:
            ctx.eq(u, v, tag + k)
        elif k == 'limits' and u is not None and v is not None:
            ctx.check(len(u) == len(v), tag + 'number of limits')
            for i, (c, d) in enumerate(zip(u, v)):
                for e, f, w in zip(c, d, ('low', 'high')):
                    if e is None or f is None:
                        ctx.check(e is None and f is None, tag + '%s limit %d' % (w, i))
                    else:
                        ctx.eq(e, f, tag + '%s limit %d' % (w, i))
        elif k in ('stdevs',):
            ctx.check(u is None and v is None, tag + k)
        else:
            ctx.check(u == v, tag + k)


def setup(ctx, m, n, priors):
    if n:
        m.parameters = ctx.reals('a', n)
        m.stdevs = ctx.arr([ctx.real('s%d' % i, lo=0) for i in range(n)])
        if priors:
            lo = [ctx.real('lo%d' % i, hi=0) for i in range(n)]
            hi = [ctx.real('hi%d' % i, lo=0) for i in range(n)]
            k = min(n, m.model.npars) if type(m).__name__ == 'RepeatingModel' else n
            m.setLimits(lo[:k], hi[:k])


MUT = ['inplace', 'params', 'stdevs', 'limits', 'prior', 'attr', 'append', 'names']


class FixedRng(object):
    """a few fixed random numbers (the knots of a spline model stay constants)"""
    def __init__(self):
        self.k = 0

    def rand(self):
        self.k += 1
        return (0.31, 0.87, 0.52)[self.k % 3]

    def randint(self, n):
        self.k += 1
        return self.k % n


def rng(ctx, m):
    return FixedRng() if 'Splines' in type(m).__name__ else ctx.rng()


def mutate(ctx, m, how, n):
    pkg = ctx.pkg
    if how == 'inplace':
        for i in range(n):
            m.parameters[i] = ctx.real('m%d' % i, lo=-1, hi=1)
    elif how == 'params':
        m.parameters = ctx.reals('m', n)
    elif how == 'stdevs':
        if m.stdevs is not None:
            m.stdevs[0] = ctx.real('m0')
    elif how == 'limits':
        k = min(n, m.model.npars) if type(m).__name__ == 'RepeatingModel' else n
        m.setLimits([ctx.real('ml%d' % i, hi=-1) for i in range(k)], [ctx.real('mh%d' % i, lo=1) for i in range(k)])
    elif how == 'prior':
        m.setPrior(0, prior=pkg.LaplacePrior(scale=2))
    elif how == 'attr':
        m.setPrior(0, limits=[ctx.real('ml0', hi=-1), ctx.real('mh0', lo=1)])
    elif how == 'append':
        if m.ndim == 1:
            m += pkg.PolynomialModel(1)
        elif m.ndim == 2 and m.lastndout == 1:
            m *= pkg.PolySurfaceModel(0)
    elif how == 'names':
        try:
            m.parNames[0] = 'renamed'
        except (AttributeError, IndexError):
            pass
    elif how == 'grow':
        m.grow(rng=rng(ctx, m))
    elif how == 'shrink':
        m.shrink(rng=rng(ctx, m))
    elif how == 'vary':
        m.vary(rng=rng(ctx, m))
    elif how == 'values':
        m.values = [ctx.real('m0') for i in range(len(m.fixedModel.parameters))]
    elif how == 'split':
        m.splitTheOrder = None


def data(ctx, s, n=1):
    if s.name.startswith('kernel2d'):
        return ctx.arr([[0.25, -0.375]])
    return ctx.reals('x', n, **s.xdom) if s.ndim == 1 else ctx.mat('x', n, s.ndim, **s.xdom)


MUTS = ['inplace', 'stdevs', 'limits', 'prior', 'names', 'values']
GROW = ['grow', 'shrink', 'vary', 'params', 'attr']


def changes(ctx, s, m, n, priors):
    """everything but appending"""
    for how in MUTS:
        if how == 'values' and s.name not in ('constant', 'constantmodel'):
            continue
        if how in ('limits', 'prior') and not (priors and n):
            continue
        if how in ('inplace', 'stdevs') and not n:
            continue
        mutate(ctx, m, how, n)
    if priors and 'dyn' in s.name or s.name in ('repeating2', 'repeating2s') and priors:
        mutate(ctx, m, 'grow', n)
        mutate(ctx, m, 'shrink', n)
    if s.name.startswith('splinesdyn') or s.name == 'splinesmod':
        mutate(ctx, m, 'vary', n)


def copied(ctx, s, priors, side):
    m = s.make(ctx)
    n = len(m.parameters)
    ctx.check(n == s.npar == m.npars, 'number of parameters')
    x = data(ctx, s)
    p = params(ctx, s)
    setup(ctx, m, n, priors)
    a0 = snap(ctx, m, x, p)
    c = m.copy()
    ctx.check(c is not m, 'another object')
    c0 = snap(ctx, c, x, p)
    differ(ctx, a0, c0, 'copy ')
    differ(ctx, a0, snap(ctx, m, x, p), 'copying changed the original: ')
    one, two, t = (m, c, 'copy after changing the original: ') if side == 'original' else (c, m, 'original after changing the copy: ')
    changes(ctx, s, one, n, priors)
    differ(ctx, a0, snap(ctx, two, x, p), t)
    mutate(ctx, one, 'append', n)
    differ(ctx, a0, snap(ctx, two, x, p), t + 'appended, ')


def compoundmodel(ctx, form, ops):
    """form: string of constituents  f: leaf(1) F: leaf(2)  x: leaf with a fixed constant  m: leaf with parameter fixed to a model
    [..]: brackets"""
    L = leafclass(ctx)
    pos = [0]
    names = iter('fghijklm')

    def parse(depth):
        m = None
        i = 0
        while pos[0] < len(form) and form[pos[0]] != ']':
            ch = form[pos[0]]
            pos[0] += 1
            if ch == '[':
                sub, npar, nm, val = parse(depth + 1)
                pos[0] += 1
                sub = ctx.pkg.BracketModel(sub)
            else:
                name = next(names)
                if ch == 'f':
                    sub, nm = L(name, 1), [name + '_0']
                elif ch == 'F':
                    sub, nm = L(name, 2), [name + '_0', name + '_1']
                elif ch == 'x':
                    sub, nm = L(name, 2, fixed={0: ctx.real('c' + name)}), [name + '_1']
                else:
                    sub, nm = L(name, 2, fixed={1: L('z' + name, 1)}), [name + '_0', 'z' + name + '_0']
                val = None
                if ctx.symbolic or True:
                    sub.parameters = ctx.reals('v' + name, len(nm))
                val = [ctx.real('v%s%d' % (name, k)) for k in range(len(nm))]
            if m is None:
                m, tot, allnm, allval = sub, len(nm), nm, val
            else:
                m = combine(m, ops[i], sub)
                i += 1
                tot, allnm, allval = tot + len(nm), allnm + nm, allval + val
        return m, tot, allnm, allval
    return parse(0)


FORMS = ['fF', 'Fx', 'xm', 'mf', 'fFx', 'Fmf', 'f[Fx]', '[fF]x', '[fx][Fm]', 'F[fm]x', 'f[F[fx]]', '[[fF]x]F']


def bookkeeping(ctx, form, ops):
    m, n, names, val = compoundmodel(ctx, form, ops)
    ctx.check(m.npars == n and len(m.parameters) == n and m.getNumberOfParameters() == n, 'number of parameters')
    ctx.eq(m.parameters, ctx.arr(val), 'default parameters')
    ctx.check([m.getParameterName(k) for k in range(n)] == names, 'names')
    ctx.raises(IndexError, lambda: m.getParameterName(n), 'no name beyond the last parameter')
    x = ctx.reals('x', 1)
    p = ctx.reals('p', n)
    s0 = snap(ctx, m, x, p)
    # parts
    p2 = ctx.reals('w', n)
    m.parameters = p2
    m.stdevs = p2 * 2
    at = 0
    last = m
    k = 0
    while last is not None:
        nb = last.npbase
        iso = m.isolateModel(k)
        ctx.check(iso.chainLength() == 1 and iso.npars == nb, 'part %d has its own parameters only' % k)
        ctx.eq(iso.parameters, p2[at:at + nb], 'parameters of part %d' % k)
        ctx.eq(iso.stdevs, 2 * p2[at:at + nb], 'standard deviations of part %d' % k)
        ctx.check([iso.getParameterName(i) for i in range(nb)] == names[at:at + nb], 'names of part %d' % k)
        r = last.__class__.__mro__
        base = ctx.pkg.FixedModel.result(last, x, p[at:at + nb].copy())
        ctx.eq(iso.result(x, p[at:at + nb].copy()), base, 'result of part %d' % k)
        iso.parameters[0] = ctx.real('q')
        at += nb
        last = last._next
        k += 1
    ctx.check(at == n and k == m.chainLength(), 'parts add up')
    ctx.eq(m.parameters, p2, 'isolating does not change the compound')
    m.parameters = ctx.arr(val)
    m.stdevs = None
    differ(ctx, s0, snap(ctx, m, x, p), 'isolating changed ')
    ctx.raises(IndexError, lambda: m.isolateModel(k), 'no part beyond the last')
    ctx.raises(ValueError, lambda: setattr(m, 'parameters', ctx.reals('w', n + 1)), 'wrong number of parameters is refused')


def compcopy(ctx, form, ops, priors, side):
    m, n, names, val = compoundmodel(ctx, form, ops)
    x = ctx.reals('x', 1)
    p = ctx.reals('p', n)
    setup(ctx, m, n, priors)
    a0 = snap(ctx, m, x, p)
    c = m.copy()
    c0 = snap(ctx, c, x, p)
    differ(ctx, a0, c0, 'copy ')
    differ(ctx, a0, snap(ctx, m, x, p), 'copying changed the original: ')
    one, two, t = (m, c, 'copy after changing the original: ') if side == 'original' else (c, m, 'original after changing the copy: ')
    for how in ('inplace', 'stdevs', 'names') + (('limits', 'prior') if priors else ()):
        mutate(ctx, one, how, n)
    differ(ctx, a0, snap(ctx, two, x, p), t)
    mutate(ctx, one, 'append', n)
    mutate(ctx, one, 'params', n + 2)
    differ(ctx, a0, snap(ctx, two, x, p), t + 'appended, ')


def operands(ctx, op, how):
    """the operands of an operator expression are not changed by it, nor by later changes of the compound"""
    L = leafclass(ctx)
    a, b = L('f', 1) + L('g', 1), L('h', 2)
    a.parameters = ctx.reals('u', 2)
    b.parameters = ctx.reals('v', 2)
    a.setLimits([ctx.real('lo0', hi=0), -2], [1, ctx.real('hi1', lo=0)])
    b.setLimits([ctx.real('lo2', hi=0), -3], [2, ctx.real('hi3', lo=0)])
    x = ctx.reals('x', 1)
    p = ctx.reals('p', 2)
    sa, sb = snap(ctx, a, x, p), snap(ctx, b, x, p)
    m, m2 = combine(a, op, b), combine(b, op, a)
    differ(ctx, sa, snap(ctx, a, x, p), 'left operand ')
    differ(ctx, sb, snap(ctx, b, x, p), 'right operand ')
    mutate(ctx, m, how, 4)
    mutate(ctx, m2, how, 4)
    differ(ctx, sa, snap(ctx, a, x, p), 'left operand after a change of the compound: ')
    differ(ctx, sb, snap(ctx, b, x, p), 'right operand after a change of the compound: ')


def errdis(ctx, kind, lim, edit, side):
    """copies of error distributions"""
    P = ctx.pkg
    lo, hi, v, power = ctx.real('lo', 0.1, 0.4), ctx.real('hi', 4, 9), ctx.real('v', 0.5, 3), ctx.real('power', 1, 3)
    low, high = (lo, hi)

    def make(name, scale):
        kw = {}
        if lim and name not in ('Poisson', 'Bernoulli'):
            kw['limits'] = [[low, low], [high, high]] if name == 'Exponential' else [low, high]
        if name == 'Exponential':
            kw['power'] = power
        if name not in ('Poisson', 'Bernoulli'):
            kw['scale'] = scale
        return getattr(P, name + 'ErrorDistribution')(**kw)
    if kind == 'Model':
        a = P.ModelDistribution(arbiter='fitter', scale=ctx.real('s', 0.5, 3), **(dict(limits=[low, high]) if lim else {}))
    elif '-' in kind:
        k1, k2 = kind.split('-')
        a = P.MixedErrorDistribution(make(k1, ctx.real('s1', 0.5, 3)), make(k2, ctx.real('s2', 0.5, 3)), fraction=ctx.real('fr', 0.1, 0.9))
    else:
        a = make(kind, ctx.real('s', 0.5, 3))
    nh = a.nphypar
    if edit == 'before' and nh:
        a.hyperpar[0].hypar = v
        a.hyperpar[0].stdev = v / 2

    def state(e):
        return (list(e.hypar), [h.isFixed for h in e.hyperpar], [h.stdev for h in e.hyperpar],
                [None if h.prior is None else (h.prior.__class__.__name__, h.prior.lowLimit, h.prior.highLimit) for h in e.hyperpar], None if e.fixed is None else dict(e.fixed))

    def same(got, want, label):
        ctx.check(len(got[0]) == len(want[0]), 'number of hyperparameters ' + label)
        for g, w in zip(got[0], want[0]):
            ctx.eq(g, w, 'hyperparameter ' + label)
        ctx.check(got[1] == want[1], 'which are fixed ' + label)
        for g, w in zip(got[2], want[2]):
            ctx.check((g is None) == (w is None), 'standard deviation or none ' + label)
            if w is not None:
                ctx.eq(g, w, 'standard deviation ' + label)
        for g, w in zip(got[3], want[3]):
            ctx.check((g is None) == (w is None), 'prior or none ' + label)
            if w is not None:
                ctx.check(g[0] == w[0], 'kind of prior ' + label)
                for i in (1, 2):
                    ctx.check((g[i] is None) == (w[i] is None), 'limit or none ' + label)
                    if w[i] is not None:
                        ctx.eq(g[i], w[i], 'limit ' + label)
        ctx.check((got[4] is None) == (want[4] is None) and (want[4] is None or list(got[4]) == list(want[4])), 'hyperparameters kept ' + label)
        if want[4]:
            for k in want[4]:
                ctx.eq(got[4][k], want[4][k], 'value kept ' + label)
    want = state(a)
    b = a.copy()
    ctx.check(b.__class__ is a.__class__, 'class of the copy')
    same(state(b), want, 'in the copy')
    same(state(a), want, 'after copying')
    one, two = (a, b) if side == 'original' else (b, a)
    if edit == 'hypar' and nh:
        for h in one.hyperpar:
            h.hypar = v
        for h in one.hyperpar:
            ctx.eq(h.hypar, v, 'the new value')
    elif edit == 'scale' and hasattr(one, 'scale'):
        one.scale = v
        ctx.eq(one.hypar[0], v, 'the new scale')
    elif edit == 'limits' and nh == 1:
        one.setLimits([lo * 2, hi * 2])
        ctx.eq(one.hyperpar[0].prior.lowLimit, lo * 2, 'the new limit')
    elif edit == 'fixed' and nh:
        one.fixed = one.keepFixed({nh - 1: v})
        ctx.eq(one.hypar[nh - 1], v, 'the value it is kept at')
    elif edit == 'prior' and nh and one.hyperpar[0].prior is not None:
        one.hyperpar[0].prior.setLimits([lo * 3, hi * 3])
    same(state(two), want, 'in the other one')
    if kind == 'Model':
        ctx.check(b.arbiter == 'fitter' and b.kwarbs == a.kwarbs, 'arbiter')


def harnesses(tier):
    hs = []
    for s in SPECS + EXTRA:
        for side in ('original', 'copy'):
            for priors in (False, True):
                if priors and not s.npar:
                    continue
                hs.append(H('copy/%s/%s%s' % (s.name, side, '/priors' if priors else ''), copied, (s, priors, side), paths=s.paths, tmax=s.tmax, generic=True,
                            thorough=s.name.startswith('kernel') and (s.name[-1] in '23' or priors) and not s.name.endswith(('/Gauss', '/Biweight', '/Gauss1', '/Gauss2', '/Gauss3'))))
    nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '|': 'pip'}
    for i, f in enumerate(FORMS):
        for ops in ('+++', '*-/', '|+*', '/||'):
            w = '-'.join(nm[o] for o in ops)
            hs.append(H('parts/%s/%s' % (f, w), bookkeeping, (f, ops)))
            for side in ('original', 'copy'):
                for priors in (False, True):
                    hs.append(H('compound/%s/%s/%s%s' % (f, w, side, '/priors' if priors else ''), compcopy, (f, ops, priors, side),
                                thorough=ops in ('*-/', '/||') and priors))
    for op in '+*|':
        for mu in MUT:
            hs.append(H('operands/%s/%s' % (nm[op], mu), operands, (op, mu)))
    for k in ('Gauss', 'Laplace', 'Cauchy', 'Uniform', 'Exponential', 'Gauss2d', 'Poisson', 'Bernoulli', 'Model', 'Gauss-Laplace', 'Gauss-Poisson', 'Poisson-Cauchy', 'Exponential-Gauss'):
        for li in (False, True):
            for ed, side in (('none', 'copy'), ('before', 'copy'), ('hypar', 'original'), ('hypar', 'copy'), ('scale', 'original'), ('scale', 'copy'), ('limits', 'original'), ('limits', 'copy'),
                             ('fixed', 'original'), ('fixed', 'copy'), ('prior', 'copy'), ('prior', 'original')):
                if k in ('Poisson', 'Bernoulli') and (li or ed != 'none'):
                    continue
                if ed == 'limits' and ('-' in k or k == 'Exponential') or ed == 'scale' and '-' in k or ed == 'prior' and not li:
                    continue
                hs.append(H('errdis/%s/%s/%s/%s' % (k, li, ed, side), errdis, (k, li, ed, side)))
    return hs
