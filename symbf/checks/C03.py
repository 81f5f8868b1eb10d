"""C03  compound models are the arithmetic expression they were built from."""
from ..harness import H
from ..abstract import leafclass, Ref, combine

BOUNDS = ('constituents are arbitrary smooth functions (uninterpreted) of x and 1-2 parameters; all chains of 2 and 3 constituents and all 4-chains '
          '(thorough: 2 data points, quick: 1 for 4-chains) over + - * / |; brackets around 2-3 constituents on the right, nested once; '
          'pipes over all input/intermediate/output dimensions in {1,2}')
ASSUMPTIONS = ['denominators are not zero', 'models are built with the operators or the in-place operators']
OPS = '+-*/|'


def leaves(ctx, names, sizes):
    L = leafclass(ctx)
    return [L(n, k) for n, k in zip(names, sizes)], [Ref.leaf(ctx, n, k) for n, k in zip(names, sizes)]


def agree(ctx, m, ref, x, tag, ndim=1, ndout=1):
    """result, gradient and derivative of m are those of the reference expression"""
    n = len(x)
    p = ctx.reals(tag + 'p', ref.npar)
    ctx.check(m.npars == ref.npar and len(m.parameters) == ref.npar, tag + ' number of parameters')
    rows = [[x[i]] if ndim == 1 else [x[i, j] for j in range(ndim)] for i in range(n)]

    def f(q):
        return ctx.arr([ref.f(r, [q[k] for k in range(ref.npar)]) for r in rows])
    val, J = ctx.jac(f, p)
    res = m.result(x, p.copy())
    ctx.shape(res, (n,) if ndout == 1 else (n, ndout), tag + ' result shape')
    ctx.eq(res, val, tag + ' result')
    part = m.partial(x, p.copy())
    if ndout == 1:
        ctx.shape(part, (n, ref.npar), tag + ' partial shape')
        ctx.eq(part, J, tag + ' partial')
    else:
        ctx.check(len(part) == ndout, tag + ' outputs of partial')
        for o in range(ndout):
            ctx.shape(part[o], (n, ref.npar), tag + ' partial shape')
            ctx.eq(part[o], ctx.arr([[J[i * ndout + o, k] for k in range(ref.npar)] for i in range(n)]), tag + ' partial of output %d' % o)
    flat = x.reshape(-1)

    def g(q):
        return ctx.arr([ref.f([q[i * ndim + j] for j in range(ndim)], [p[k] for k in range(ref.npar)]) for i in range(n)])
    val, J = ctx.jac(g, flat)
    df = m.derivative(x, p.copy())
    if ndim == 1 and ndout == 1:
        ctx.eq(df, ctx.arr([J[i, i] for i in range(n)]), tag + ' derivative')
    elif ndout == 1:
        ctx.shape(df, (n, ndim), tag + ' derivative shape')
        ctx.eq(df, ctx.arr([[J[i, i * ndim + j] for j in range(ndim)] for i in range(n)]), tag + ' derivative')
    elif ndim == 1:
        ctx.shape(df, (n, ndout), tag + ' derivative shape')
        ctx.eq(df, ctx.arr([[J[i * ndout + o, i] for o in range(ndout)] for i in range(n)]), tag + ' derivative')
    else:
        ctx.check(len(df) == ndout, tag + ' outputs of derivative')
        for o in range(ndout):
            ctx.eq(df[o], ctx.arr([[J[i * ndout + o, i * ndim + j] for j in range(ndim)] for i in range(n)]), tag + ' derivative of output %d' % o)


def chain(ctx, ops, n):
    sizes = [2, 1, 1, 2][:len(ops) + 1]
    ms, rs = leaves(ctx, 'fghk', sizes)
    x = ctx.reals('x', n)
    m, r = ms[0], rs[0]
    for o, a, b in zip(ops, ms[1:], rs[1:]):
        m, r = combine(m, o, a), r.op(o, b)
    agree(ctx, m, r, x, 'c')


def inplace(ctx, op):
    ms, rs = leaves(ctx, 'fgh', [1, 2, 1])
    x = ctx.reals('x', 2)
    m = ms[0]
    r = rs[0].op(op, rs[1])
    if op == '+':
        m += ms[1]
    elif op == '-':
        m -= ms[1]
    elif op == '*':
        m *= ms[1]
    elif op == '/':
        m /= ms[1]
    else:
        m |= ms[1]
    agree(ctx, m, r, x, 'c')
    ctx.check(m is ms[0], 'in place')
    p = ctx.reals('q', 3)
    m.parameters = p
    ctx.eq(m(x), m.result(x, p), 'call with its own parameters')
    ctx.eq(m.result(x), m.result(x, p), 'result with its own parameters')


def bracket(ctx, shape, ops, n=1):
    """shapes: 'a(bc)', 'a(bc)d', 'ab(cd)', 'a(bcd)', 'a(b(cd))', '(ab)(cd)'"""
    ms, rs = leaves(ctx, 'fghk', [1, 1, 2, 1])
    x = ctx.reals('x', n)
    o = ops
    if shape == 'a(bc)':
        m = combine(ms[0], o[0], combine(ms[1], o[1], ms[2]))
        r = rs[0].op(o[0], rs[1].op(o[1], rs[2]))
    elif shape == 'a(bc)d':
        m = combine(combine(ms[0], o[0], combine(ms[1], o[1], ms[2])), o[2], ms[3])
        r = rs[0].op(o[0], rs[1].op(o[1], rs[2])).op(o[2], rs[3])
    elif shape in ('ab(cd)', '(ab)(cd)'):
        m = combine(combine(ms[0], o[0], ms[1]), o[1], combine(ms[2], o[2], ms[3]))
        r = rs[0].op(o[0], rs[1]).op(o[1], rs[2].op(o[2], rs[3]))
    elif shape == 'a(bcd)':
        m = combine(ms[0], o[0], combine(combine(ms[1], o[1], ms[2]), o[2], ms[3]))
        r = rs[0].op(o[0], rs[1].op(o[1], rs[2]).op(o[2], rs[3]))
    else:
        m = combine(ms[0], o[0], combine(ms[1], o[1], combine(ms[2], o[2], ms[3])))
        r = rs[0].op(o[0], rs[1].op(o[1], rs[2].op(o[2], rs[3])))
    agree(ctx, m, r, x, 'c')


def brackets(ctx, shape, o0, o1):
    for o2 in OPS:
        bracket(ctx, shape, (o0, o1, o2))


def first(ctx, ops):
    """brackets made explicitly, in front"""
    ms, rs = leaves(ctx, 'fgh', [1, 2, 1])
    x = ctx.reals('x', 2)
    m = combine(ctx.pkg.BracketModel(combine(ms[0], ops[0], ms[1])), ops[1], ms[2])
    r = rs[0].op(ops[0], rs[1]).op(ops[1], rs[2])
    agree(ctx, m, r, x, 'c')


def pipedim(ctx, d, k, o, tail):
    L = leafclass(ctx)
    x = ctx.reals('x', 2) if d == 1 else ctx.mat('x', 2, d)
    m = combine(L('f', 1, ndim=d, ndout=k), '|', L('g', 2, ndim=k, ndout=o))
    r = Ref.leaf(ctx, 'f', 1, d, k).op('|', Ref.leaf(ctx, 'g', 2, k, o))
    if tail == '|':
        m, r = combine(m, '|', L('h', 1, ndim=o, ndout=1)), r.op('|', Ref.leaf(ctx, 'h', 1, o, 1))
        o = 1
    elif tail:
        m, r = combine(m, tail, L('h', 1, ndim=d, ndout=o)), r.op(tail, Ref.leaf(ctx, 'h', 1, d, o))
    agree(ctx, m, r, x, 'c', d, o)


def multi(ctx, d, o, op):
    """arithmetic on models with several inputs and/or outputs"""
    L = leafclass(ctx)
    x = ctx.reals('x', 2) if d == 1 else ctx.mat('x', 2, d)
    m, r = L('f', 2, ndim=d, ndout=o), Ref.leaf(ctx, 'f', 2, d, o)
    m, r = combine(m, op, L('g', 1, ndim=d, ndout=o)), r.op(op, Ref.leaf(ctx, 'g', 1, d, o))
    agree(ctx, m, r, x, 'c', d, o)


def harnesses(tier):
    nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '|': 'pip'}
    n = lambda ops: '-'.join(nm[o] for o in ops)
    hs = []
    for a in OPS:
        hs.append(H('chain/' + n(a), chain, (a, 2)))
        hs.append(H('inplace/' + n(a), inplace, (a,)))
        for b in OPS:
            hs.append(H('chain/' + n(a + b), chain, (a + b, 2)))
            hs.append(H('bracket/a(bc)/' + n(a + b), bracket, ('a(bc)', a + b, 2)))
            hs.append(H('bracket/(ab)c/' + n(a + b), first, (a + b,)))
            for c in OPS:
                hs.append(H('chain/' + n(a + b + c), chain, (a + b + c, 1 if tier == 'quick' else 2)))
                for s in ('a(bc)d', 'ab(cd)', 'a(bcd)', 'a(b(cd))'):
                    hs.append(H('bracket/%s/%s' % (s, n(a + b + c)), bracket, (s, a + b + c)))
    for d in (1, 2):
        for o in (1, 2):
            if d * o > 1:
                for op in '+-*/':
                    hs.append(H('multi/%d-%d/%s' % (d, o, n(op)), multi, (d, o, op)))
            for k in (1, 2):
                hs.append(H('pipe/%d-%d-%d' % (d, k, o), pipedim, (d, k, o, '')))
                for t in '+*|':
                    hs.append(H('pipe/%d-%d-%d/%s' % (d, k, o, n(t)), pipedim, (d, k, o, t)))
    return hs
