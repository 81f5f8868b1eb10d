"""C20  the collection of phantoms stays sorted and reports a true bounding box."""
from itertools import product
from ..harness import H

BOUNDS = ('all sequences of up to 5 operations (store a walker of symbolic likelihood and parameters, ask for the bounding box at a symbolic threshold), 2 parameters per walker (static) or walkers of '
          '1 and 2 parameters mixed (dynamic, where boxes need more than the minimum number of items: minimum set to 0, 1 and the default)')
ASSUMPTIONS = ['the box is (as documented) that of the moment at which the threshold was raised; a static collection is asked with thresholds that have no upper or lower bound']


def walker(ctx, np, k, tag='', base=None):
    pm = ctx.pkg.PolynomialModel(np - 1)
    pr = ctx.pkg.ClassicProblem(pm, xdata=ctx.np.array([0.0, 1.0]), ydata=ctx.np.array([0.0, 1.0]))
    p = ctx.reals('p%s%d' % (tag, k), np) if base is None else ctx.arr([base + v for v in ctx.reals('p%d' % k, np, 0.1, 0.9)])
    w = ctx.pkg.Walker(7, pr, p, ctx.np.arange(np))
    w.logL = ctx.real('L%s%d' % (tag, k), -50, 50) if base is None else base + ctx.real('L%d' % k, 0.1, 0.9)
    return w, w.logL, [v for v in p]


def ordered(ctx, lst, ref, low):
    """lst holds the entries of ref above low: once each, values intact, in order"""
    for a, b in zip(lst, lst[1:]):
        ctx.le(a.logL, b.logL, 'order')
    for w, L, p in ref:
        n = sum(1 for v in lst if v is w)
        if low is not None and L <= low:
            ctx.check(n == 0, 'entry below the threshold is dropped')
        else:
            ctx.check(n == 1, 'entry above the threshold is kept, once')
    ctx.check(all(any(v is w for w, L, p in ref) for v in lst), 'nothing else is kept')
    for w, L, p in ref:
        ctx.eq(w.logL, L, 'likelihood of an entry')
        ctx.eq(w.allpars, ctx.arr(p), 'parameters of an entry')


def box(ctx, got, ref, np):
    lo, hi = got
    ctx.shape(lo, (np,), 'size of the box')
    ctx.shape(hi, (np,), 'size of the box')
    for i in range(np):
        for p in ref:
            ctx.le(lo[i], p[i], 'contained')
            ctx.le(p[i], hi[i], 'contained')
        a, b = 1, 1
        for p in ref:
            a, b = a * (p[i] - lo[i]), b * (p[i] - hi[i])
        ctx.eq(a, 0, 'tight')
        ctx.eq(b, 0, 'tight')


def static(ctx, ops):
    c = ctx.pkg.PhantomCollection()
    ref, low, last = [], None, None
    for k, op in enumerate(ops):
        if op == 's':
            w = walker(ctx, 2, k)
            c.storeItems(w[0])
            ref.append(w)
            ordered(ctx, c.getList(w[0]), ref, None)
        else:
            t = -ctx.inf if op == 'i' else ctx.real('t%d' % k, -60, 60)
            got = c.getParamMinmax(t, np=2)
            if op == 'i' and low is None:          # no threshold at all: no box, or that of all entries
                if got[0] is not None:
                    box(ctx, got, [r[2] for r in ref], 2)
                continue
            if op == 'q' and (low is None or t > low):
                low = t
                ref = [r for r in ref if low is None or r[1] > low]
                last = [r[2] for r in ref]
            if last:
                box(ctx, got, last, 2)
            else:
                ctx.check(got[0] is None and got[1] is None, 'no box without entries')
            ordered(ctx, c.getList(None), ref, None)
    ctx.check(c.length() == len(ref), 'length')
    ctx.check(c.ncalls == sum(op == 's' for op in ops), 'number of calls')


def dynamic(ctx, ops, minpars, simple=False):
    c = ctx.pkg.PhantomCollection(dynamic=True)
    if minpars is None:
        minpars = c.MINPARS
    else:
        c.minpars = minpars
    ref = {1: [], 2: []}
    low, last = {}, {}
    for k, (op, np) in enumerate(ops):
        if op == 's':
            w = walker(ctx, np, k, base=k if simple else None)     # simple: increasing likelihoods and parameters
            c.storeItems(w[0])
            ref[np].append(w)
        else:
            t = ctx.real('t%d' % k, -60, 60)
            got = c.getParamMinmax(t, np=np)
            if np not in low or t > low[np] or last[np] is None:
                low[np] = t
                ref[np] = [r for r in ref[np] if r[1] > t]
                last[np] = [r[2] for r in ref[np]] if len(ref[np]) > minpars else None
            if last[np] is None:
                ctx.check(got[0] is None and got[1] is None, 'no box for too few entries')
            else:
                box(ctx, got, last[np], np)
        for n in (1, 2):
            lst = c.phantoms.get(n, [])
            ordered(ctx, lst, ref[n], None)
            ctx.check(c.length(np=n) == len(ref[n]), 'length')
            wn = walker(ctx, n, 99, 'x%d' % n)[0]
            ctx.check(c.getList(wn) is c.phantoms.get(n), 'list for a walker')
    ctx.check(c.length() == len(ref[1]) + len(ref[2]), 'total length')


def crop(ctx, n):
    """the list underneath: crop, first index, lowest entry"""
    ws = [walker(ctx, 2, k) for k in range(n)]
    wl = ctx.pkg.WalkerList()
    for w in ws:
        wl = wl.insertWalker(w[0])
    ordered(ctx, wl, ws, None)
    t = ctx.real('t', -60, 60)
    k = wl.firstIndex(t)
    if n == 0:
        ctx.check(k is None, 'no first index')
    else:
        for w in wl[:k]:
            ctx.le(w.logL, t, 'below')
        for w in wl[k:]:
            ctx.lt(t, w.logL, 'above')
        low, kl = wl.getLowLogL()
        ctx.eq(low, wl[kl].logL, 'lowest')
        for w in wl:
            ctx.le(low, w.logL, 'lowest')
        ap = wl.allPars()
        for i, w in enumerate(wl):
            ctx.eq(ap[i], w.allpars, 'all parameters')
    cr = wl.cropOnLow(t)
    ordered(ctx, cr, ws, t)


def harnesses(tier):
    hs = []
    for n in (0, 1, 2, 3, 4):
        hs.append(H('list/%d' % n, crop, (n,), thorough=n == 4))
    for n in range(1, 6):
        for ops in product('sq', repeat=n):
            if ops.count('s') > 3 + (ops[-1] == 's') or ops[-1] == 's' and n > 1 or n > 2 and ops[0] == 'q':
                continue
            hs.append(H('static/%s' % ''.join(ops), static, (ops,), thorough=n > 4 or ops.count('s') > 3, paths=9000))
    for ops in ('i', 'si', 'sqi', 'siq', 'isq', 'ssiq', 'ssqi'):
        hs.append(H('static/%s' % ops, static, (ops,)))
    seqs = [['s1', 'q1'], ['q1', 's1', 'q1'], ['s1', 's2', 'q1', 'q2'], ['s1', 's2', 's1', 'q1', 'q2'], ['s2', 'q2', 's2', 'q2'], ['s1', 's1', 'q1', 's1', 'q1'], ['s2', 's1', 'q2', 's2', 's1', 'q1', 'q2']]
    for ops in seqs:
        for mp in (0, 1):
            hs.append(H('dynamic/%s/%d' % ('-'.join(ops), mp), dynamic, ([(o[0], int(o[1])) for o in ops], mp), thorough=len(ops) > 5))
    hs.append(H('dynamic/default/few', dynamic, ([('s', 1), ('s', 1), ('q', 1)], None)))
    hs.append(H('dynamic/default/six', dynamic, ([('s', 1)] * 6 + [('q', 1)], None, True)))
    return hs
