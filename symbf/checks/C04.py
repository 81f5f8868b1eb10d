"""C04  fixing a parameter is substituting it."""
from itertools import combinations
from ..harness import H
from ..models import SPECS
from ..abstract import leafclass
from .C01 import xdata, params

BOUNDS = ('built-in models: every single fixed parameter, every complement of one and every pair (all proper subsets when there are at most 4 parameters), '
          'fixed to symbolic constants; arbitrary smooth models with 3 parameters: every assignment of a constant, a model (1 or 2 parameters, or a compound) or nothing; '
          'also inside compound models; 2 data points')
ASSUMPTIONS = ['the derivative of a model with a parameter fixed to a model is numeric in the package: it has to be the central difference with its own step']


def subsets(n):
    if n <= 4:
        return [c for k in range(1, n) for c in combinations(range(n), k)]
    out = [(k,) for k in range(n)] + [(0, n - 1), (1, n - 2), (n - 2, n - 1)] + [tuple(j for j in range(n) if j != k) for k in (0, n // 2, n - 1)]
    return [c for c in dict.fromkeys(out)]


def builtin(ctx, s):
    full = s.make(ctx)
    x = xdata(ctx, s)
    p = params(ctx, s)
    r0, p0 = full.result(x, p.copy()), full.partial(x, p.copy())
    d0 = full.derivative(x, p.copy()) if s.deriv else None
    for sub in subsets(s.npar):
        neg = len(sub) == 1 and sub[0] == s.npar - 1
        m = s.make(ctx, fixed={(-1 if neg else k): p[k] for k in sub})
        free = [k for k in range(s.npar) if k not in sub]
        q = ctx.arr([p[k] for k in free])
        tag = 'fix %s ' % (sub,)
        ctx.check(m.npars == len(free) and len(m.parameters) == len(free), tag + 'number of parameters')
        ctx.eq(m.parameters, ctx.arr([full.parameters[k] for k in free]), tag + 'default parameters')
        ctx.eq(m.result(x, q.copy()), r0, tag + 'result')
        part = m.partial(x, q.copy())
        ctx.shape(part, (s.n, len(free)), tag + 'partial shape')
        ctx.eq(part, ctx.arr([[p0[i, k] for k in free] for i in range(s.n)]), tag + 'partial')
        if s.deriv:
            ctx.eq(m.derivative(x, q.copy()), d0, tag + 'derivative')


class Fx(object):
    """a fixed value: None, 'c' constant, or a model"""

    def __init__(self, ctx, kind, k, L):
        self.kind = kind
        self.npar = 0
        if kind == 'c':
            self.val = ctx.real('c%d' % k)
        elif kind in ('g', 'G'):
            self.npar = 1 if kind == 'g' else 2
            self.val = L('g%d' % k, self.npar)
            self.ref = lambda row, q: ctx.fn('g%d' % k, 1 + self.npar)(row, *q)
        elif kind == 'S':
            self.npar = 2
            self.val = L('g%d' % k, 1) * L('h%d' % k, 1)
            self.ref = lambda row, q: ctx.fn('g%d' % k, 2)(row, q[0]) * ctx.fn('h%d' % k, 2)(row, q[1])


def build(ctx, kinds, L, order):
    """model f with 3 parameters of which some are fixed; returns the model, number of free parameters and reference function"""
    fx = {}
    for k in order:
        if kinds[k] != '.':
            fx[k] = Fx(ctx, kinds[k], k, L)
    fixed = {k: v.val for k, v in fx.items()}
    m = L('f', 3, fixed=fixed) if fixed else L('f', 3)
    free = [k for k in range(3) if kinds[k] == '.']
    nf = len(free)
    tot = nf + sum(v.npar for v in fx.values())

    def ref(row, q):
        par = [None] * 3
        for i, k in enumerate(free):
            par[k] = q[i]
        at = nf
        for k, v in fx.items():
            if v.kind == 'c':
                par[k] = v.val
            else:
                par[k] = v.ref(row, [q[at + i] for i in range(v.npar)])
                at += v.npar
        return ctx.fn('f', 4)(row, *par)
    names = ['f_%d' % k for k in free]
    for k, v in fx.items():
        if v.kind in ('g', 'G'):
            names += ['g%d_%d' % (k, i) for i in range(v.npar)]
        elif v.kind == 'S':
            names += ['g%d_0' % k, 'h%d_0' % k]
    return m, tot, ref, names, any(v.kind not in '.c' for v in fx.values())


def verify(ctx, m, tot, ref, names, num, tag, x):
    p = ctx.reals(tag + 'p', tot)
    n = len(x)
    ctx.check(m.npars == tot and len(m.parameters) == tot, tag + 'number of parameters')
    ctx.check([m.getParameterName(i) for i in range(tot)] == names, tag + 'names')
    val, J = ctx.jac(lambda q: ctx.arr([ref(x[i], [q[k] for k in range(tot)]) for i in range(n)]), p)
    ctx.eq(m.result(x, p.copy()), val, tag + 'result')
    part = m.partial(x, p.copy())
    ctx.shape(part, (n, tot), tag + 'partial shape')
    ctx.eq(part, J, tag + 'partial', tol=1e-5)
    pl = [p[k] for k in range(tot)]
    if num:
        h = float(m.deltaP[0])
        d = ctx.arr([(ref(x[i] + h, pl) - ref(x[i] - h, pl)) / (2 * h) for i in range(n)])
        ctx.eq(m.derivative(x, p.copy()), d, tag + 'derivative', tol=1e-5)
    else:
        val, J = ctx.jac(lambda q: ctx.arr([ref(q[i], pl) for i in range(n)]), x)
        ctx.eq(m.derivative(x, p.copy()), ctx.arr([J[i, i] for i in range(n)]), tag + 'derivative')
    c = m.copy()
    ctx.eq(c.result(x, p.copy()), m.result(x, p.copy()), tag + 'result of a copy')
    ctx.eq(c.partial(x, p.copy()), part, tag + 'partial of a copy')


def abstract(ctx, kinds, rev):
    L = leafclass(ctx)
    order = [2, 1, 0] if rev else [0, 1, 2]
    m, tot, ref, names, num = build(ctx, kinds, L, order)
    x = ctx.reals('x', 2)
    verify(ctx, m, tot, ref, names, num, '', x)


def compound(ctx, kinds, op):
    """fixed model as second constituent"""
    L = leafclass(ctx)
    m, tot, ref, names, num = build(ctx, kinds, L, [0, 1, 2])
    x = ctx.reals('x', 2)
    a = L('a', 1)
    if op == '+':
        mm = a + m
        rr = lambda row, q: ctx.fn('a', 2)(row, q[0]) + ref(row, q[1:])
    elif op == '*':
        mm = a * m
        rr = lambda row, q: ctx.fn('a', 2)(row, q[0]) * ref(row, q[1:])
    elif op == '/':
        mm = m / a
        rr = lambda row, q: ref(row, q[:tot]) / ctx.fn('a', 2)(row, q[tot])
        names = names + ['a_0']
    else:
        mm = a | m
        rr = lambda row, q: ref(ctx.fn('a', 2)(row, q[0]), q[1:])
    if op != '/':
        names = ['a_0'] + names
    verify(ctx, mm, tot + 1, rr, names, False, '', x)


def numeric(ctx, kinds):
    """model without its own gradient: the gradient is the central difference with its own step, in the free parameters"""
    L = leafclass(ctx)
    NL = ctx.pkg.NonLinearModel

    class NoPart(L):
        def copy(self):
            return NoPart(copy=self)

        def basePartial(self, xdata, par, parlist=None):
            return NL.basePartial(self, xdata, par, parlist=parlist)
    m, tot, ref, names, num = build(ctx, kinds, NoPart, [0, 1, 2])
    x = ctx.reals('x', 2)
    p = ctx.reals('p', tot)
    h = float(m.deltaP[0])
    part = m.partial(x, p.copy())
    ctx.shape(part, (2, tot), 'partial shape')
    cols = []
    for k in range(tot):
        up = [p[j] + (h / 2 if j == k else 0) for j in range(tot)]
        dn = [p[j] - (h / 2 if j == k else 0) for j in range(tot)]
        cols.append([(ref(x[i], up) - ref(x[i], dn)) / h for i in range(2)])
    ctx.eq(part, ctx.arr([[cols[k][i] for k in range(tot)] for i in range(2)]), 'partial', tol=1e-5)


NOFIX = {'sinesplinedrift', 'sinesplinedrift0', 'polysineamp1', 'polysineamp2', 'sinespline2', 'sinespline3', 'surfacesplines', 'product', 'product3',
         'combi', 'combi0', 'combi1'}     # their constructors refuse fixed parameters
PADE = {'pade01', 'pade12', 'pade22'}


def pade(ctx, num, den):
    """the constructor always fixes something: by default the first denominator coefficient at 1"""
    PM = ctx.pkg.PadeModel
    n = num + den + 2
    x = ctx.reals('x', 2)
    p = ctx.reals('p', n)

    def ref(par, x):
        t = sum((par[k] * x ** k for k in range(1, num + 1)), par[0])
        return t / sum((par[num + 1 + k] * x ** k for k in range(1, den + 1)), par[num + 1])
    val, J = ctx.jac(lambda q: ctx.arr([ref(q, x[i]) for i in range(2)]), p)
    v, D = ctx.jac(lambda q: ctx.arr([ref(p, q[i]) for i in range(2)]), x)
    one = ctx.arr([p[k] if k != num + 1 else 1.0 for k in range(n)])
    q = ctx.arr([p[k] for k in range(n) if k != num + 1])
    ctx.eq(PM(num, den).result(x, q.copy()), ctx.arr([ref(one, x[i]) for i in range(2)]), 'default')
    for sub in subsets(n):
        m = PM(num, den, fixed={k: p[k] for k in sub})
        free = [k for k in range(n) if k not in sub]
        q = ctx.arr([p[k] for k in free])
        tag = 'fix %s ' % (sub,)
        ctx.check(m.npars == len(free), tag + 'number of parameters')
        ctx.eq(m.result(x, q.copy()), val, tag + 'result')
        ctx.eq(m.partial(x, q.copy()), ctx.arr([[J[i, k] for k in free] for i in range(2)]), tag + 'partial')
        ctx.eq(m.derivative(x, q.copy()), ctx.arr([D[0, 0], D[1, 1]]), tag + 'derivative')


def modelfixed(ctx, s, k):
    """built-in model with parameter k fixed to an arbitrary function of x and one parameter"""
    L = leafclass(ctx)
    full = s.make(ctx)
    m = s.make(ctx, fixed={k: L('g', 1, ndim=s.ndim)})
    x = xdata(ctx, s)
    pos = s.pdom.get(k, {})
    g = []
    row = lambda i: [x[i]] if s.ndim == 1 else [x[i, j] for j in range(s.ndim)]
    free = [j for j in range(s.npar) if j != k]
    p = ctx.arr([ctx.real('p%d' % j, **s.pdom.get(j, {})) for j in free] + [ctx.real('q')])
    for i in range(s.n):
        v = ctx.fn('g', s.ndim + 1)(*(row(i) + [p[s.npar - 1]]))
        if pos.get('lo') is not None:
            ctx.assume(v > pos['lo'])
        if pos.get('hi') is not None:
            ctx.assume(v < pos['hi'])

    def ref(q):
        out = []
        for i in range(s.n):
            par = [None] * s.npar
            for a, j in enumerate(free):
                par[j] = q[a]
            par[k] = ctx.fn('g', s.ndim + 1)(*(row(i) + [q[s.npar - 1]]))
            out.append(full.result(x[i:i + 1], ctx.arr(par))[0])
        return ctx.arr(out)
    val, J = ctx.jac(ref, p)
    ctx.eq(m.result(x, p.copy()), val, 'result')
    ctx.eq(m.partial(x, p.copy()), J, 'partial')


def harnesses(tier):
    hs = []
    for n, d in ((0, 1), (1, 0), (1, 1), (1, 2)):
        hs.append(H('builtin/pade%d%d' % (n, d), pade, (n, d)))
    for s in SPECS:
        if s.npar > 0 and s.name not in NOFIX and s.name not in PADE and s.ndim * s.npar < 12:
            for k in range(s.npar):
                if s.name == 'powerlaw' and k == 1:
                    continue
                hs.append(H('model/%s/%d' % (s.name, k), modelfixed, (s, k), paths=s.paths, tmax=s.tmax, weight=s.weight, generic=True))
    for s in SPECS:
        if s.npar > 1 and s.name not in NOFIX and s.name not in PADE:
            hs.append(H('builtin/' + s.name, builtin, (s,), paths=s.paths, tmax=s.tmax, weight=s.weight, generic=True))
    for a in '.cgGS':
        for b in '.cgS':
            for c in '.cg':
                k = a + b + c
                hs.append(H('abstract/' + k, abstract, (k, False)))
                if sum(ch != '.' for ch in k) > 1:
                    hs.append(H('reversed/' + k, abstract, (k, True)))
    for k in ('c..', '.c.', '..c', 'c.c', 'cc.', 'ccc'):
        for op, nm in zip('+*/|', ('add', 'mul', 'div', 'pip')):
            hs.append(H('compound/%s/%s' % (k, nm), compound, (k, op)))
    for k in ('...', 'c..', '.c.', '..c', 'c.c'):
        hs.append(H('numeric/' + k, numeric, (k,)))
    return hs


