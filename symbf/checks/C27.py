"""C27  the annealing simplex remembers the best point and respects limits."""
from ..harness import H

BOUNDS = ('simplices in 1-3 dimensions with an arbitrary (abstract) cost function, arbitrary starts, sizes, limits, temperature and random numbers; 1-2 moves (3 in the thorough tier), '
          'at zero and at positive temperature, with at most one inflation of a converged start, and one contraction or inflation of a simplex of any points')
ASSUMPTIONS = ['the cost is finite (between 1 and 9), except where it is infinite or undefined at one named evaluation', 'the callback leaves the points as they are', 'the low limit is below the high limit']


class Cost:
    """an unknown cost: any value at every evaluation, and everything that was asked of it"""

    def __init__(self, ctx, n, bad=None, kind='inf', lo=1.0, hi=9.0):
        self.ctx, self.n, self.bad, self.kind = ctx, n, bad, kind
        self.lo, self.hi = lo, hi
        self.seen = []

    def __call__(self, p):
        p = [a for a in p]
        self.ctx.check(len(p) == self.n, 'number of parameters')
        k = len(self.seen)
        if self.bad == k:
            y = self.ctx.inf if self.kind == 'inf' else float('nan')
        else:
            y = self.ctx.real('y%d' % k, self.lo, self.hi)
        self.seen.append((p, y))
        return y

    def at(self, v, p, what):
        """v is the value that was found at p"""
        ctx = self.ctx
        where = [q for q, y in self.seen if (y is v if ctx.symbolic else y == v)]
        ctx.check(len(where) > 0, what + ': a value that was evaluated')
        if where:
            ctx.eq([a for a in p], where[0], what)


class Half:
    def __init__(self, ctx):
        self.ctx = ctx

    def rand(self, *a):
        return self.ctx.const(0.5)


def ok(y):
    return not (isinstance(y, float) and (y != y or y in (float('inf'), float('-inf'))))


def judge(ctx, a, cost, lo=None, hi=None, box=True, tag=''):
    n = cost.n
    ctx.shape(a.simplex, (n + 1, n), tag + 'simplex')
    ctx.shape(a.values, (n + 1,), tag + 'values')
    for i in range(n + 1):
        v = a.values[i]
        if not ok(v):
            continue
        cost.at(v, a.simplex[i], tag + 'values and points in step')
    cost.at(a.fopt, a.xopt, tag + 'the best point with its own cost')
    for p, y in cost.seen:
        if ok(y):
            ctx.le(a.fopt, y, tag + 'the best of all points')
    if box and lo is not None:
        for p, y in cost.seen:
            for k in range(n):
                if lo[k] is not None:
                    ctx.le(lo[k], p[k], tag + 'above the low limit')
                if hi[k] is not None:
                    ctx.le(p[k], hi[k], tag + 'below the high limit')


def limits(ctx, kind, n):
    """lists of limits (None where there is none), and the limits to pass on"""
    inf = ctx.inf
    if kind is None:
        return None, None, None
    lo = [ctx.real('lo%d' % k, -3, 0) for k in range(n)]
    hi = [lo[k] + ctx.real('w%d' % k, 0.5, 4) for k in range(n)]
    if kind == 'scalar':
        lo, hi = [lo[0]] * n, [hi[0]] * n
        return lo, hi, [lo[0], hi[0]]
    if kind == 'low':
        return lo, [None] * n, [list(lo), [inf] * n]
    if kind == 'high':
        return [None] * n, hi, [[-inf] * n, list(hi)]
    if kind == 'mixed':
        return [lo[0]] + [None] * (n - 1), [None] * (n - 1) + [hi[-1]], [[lo[0]] + [-inf] * (n - 1), [inf] * (n - 1) + [hi[-1]]]
    return lo, hi, [list(lo), list(hi)]


def make(ctx, n, lim=None, inside=True, size='list', bad=None, kind='inf', x0=None, place=None, **kw):
    P, np = ctx.pkg, ctx.np
    cost = Cost(ctx, n, bad, kind)
    lo, hi, given = limits(ctx, lim, n)
    x = x0 if x0 is not None else [ctx.real('x%d' % k, -5, 5) for k in range(n)]
    if inside and lo is not None:
        for k in range(n):
            if lo[k] is not None:
                ctx.assume(x[k] > lo[k])
            if hi[k] is not None:
                ctx.assume(x[k] < hi[k])
    s = [ctx.real('s%d' % k, 0.1, 2) for k in range(n)] if size == 'list' else 1
    if place:                                   # costs are unknown, positions are not
        x = PLACES[place][:n]
        s = [0.3, 0.4, 0.5][:n]
        if lo is not None:
            lo, hi = [0.0 if v is not None else None for v in lo], [1.0 if v is not None else None for v in hi]
            given = [[0.0 if v is not None else -ctx.inf for v in lo], [1.0 if v is not None else ctx.inf for v in hi]]
    xa = np.array(list(x))
    sg = s if size != 'list' else list(s) if n > 1 else s[0]
    a = P.AnnealingAmoeba(cost, xa, size=sg, limits=given, **kw)
    ctx.eq([v for v in xa], x, 'the start is left as it was')
    if size == 'list' and n > 1:
        ctx.eq(sg, s, 'the sizes are left as they were')
    return a, cost, lo, hi, x, s


def start(ctx, n, lim=None, inside=True, size='list', bad=None, kind='inf', x0=None):
    """the initial simplex"""
    a, cost, lo, hi, x, s = make(ctx, n, lim, inside, size, bad, kind, x0)
    judge(ctx, a, cost, lo, hi)
    if lim is None and bad is None:
        ss = s if size == 'list' else [1] * n
        for i in range(n + 1):
            ctx.eq([v for v in a.simplex[i]], [x[k] + (ss[k] if i == k else 0) for k in range(n)], 'the simplex around the start')
    ctx.eq([v for v in a.sum], [sum(a.simplex[i, k] for i in range(n + 1)) for k in range(n)], 'sum')


PLACES = {'low': [0.1, 0.2, 0.1], 'high': [0.9, 0.8, 0.95], 'mid': [0.5, 0.4, 0.6], 'out': [1.5, 0.3, -2.0]}


def run(ctx, n, moves, lim=None, inside=True, temp=False, tol='abs', bad=None, kind='inf', steps=1, callback=False, place=None):
    """moves of the simplex"""
    P = ctx.pkg
    class Enough(Exception):
        pass
    kw = dict(maxiter=moves)
    if tol == 'abs':
        kw.update(abstol=0.01, reltol=None)
    elif tol == 'rel':
        kw.update(abstol=None, reltol=0.01)
    calls = []
    if callback:
        kw['callback'] = lambda p: (calls.append(1), p)[1]
    if temp:
        T = ctx.real('T', 0.1, 5)
        kw.update(temp=T, cooling=ctx.real('cool', 0.5, 0.99), steps=steps)
    a, cost, lo, hi, x, s = make(ctx, n, lim, inside, bad=bad, kind=kind, place=place, **kw)
    a.rng = ctx.rng('r') if bad is not None else Half(ctx)
    if temp:                                    # fluctuations of any size
        nt = []

        def fluct():
            nt.append(1)
            if len(nt) > 2 * n + 6:
                raise Enough()
            return ctx.real('fl%d' % len(nt), 0.01, 6)
        a.logRanTemp = fluct
    most = n + 1 + moves * (n + 2) + 2 * n
    def limited(p):
        if len(cost.seen) > most:
            raise Enough()
        return cost(p)
    a.func = limited
    inflate, blown = a.inflateSimplex, []

    def inflated(ilo, factor):
        if factor > 5:
            blown.append(1)
            if len(blown) > 1:
                raise Enough()
        return inflate(ilo, factor)
    a.inflateSimplex = inflated
    try:
        r = a.minimize()
        ctx.eq([v for v in r], [v for v in a.xopt], 'the best point is returned')
        ctx.check(a.ncalls >= n + 1, 'evaluations are counted')
        ctx.eq(a.values[0], min_(a.values), 'the lowest comes first') if not temp else None
    except P.module('ConvergenceError').ConvergenceError:
        ctx.check(a.iter >= moves, 'too many iterations')
    except Enough:
        ctx.assume(False)
    judge(ctx, a, cost, lo, hi)
    if callback:
        ctx.check(len(calls) == a.iter, 'called every iteration')


def min_(v):
    r = v[0]
    for a in v:
        r = a if a < r else r
    return r


def anyplex(ctx, n, what, lim=None, temp=False, bad=None):
    """one elementary operation on a simplex of any points"""
    P, np = ctx.pkg, ctx.np
    lo, hi, given = limits(ctx, lim, n)
    c0 = ctx.const(0.0)
    a = P.AnnealingAmoeba(lambda p: c0, np.array([(lo[k] + hi[k]) / 2 if lo is not None and lo[k] is not None and hi[k] is not None else lo[k] + 1 if lo is not None and lo[k] is not None
                                                  else hi[k] - 2 if hi is not None and hi[k] is not None else ctx.const(1.0) for k in range(n)]), size=0.1, limits=given)
    cost = Cost(ctx, n, bad)
    a.func = cost
    a.rng = ctx.rng('r')
    if temp:
        a.temp = ctx.real('T', 0.1, 5)

    def point(name):
        p = []
        for k in range(n):
            l, h = (lo[k], hi[k]) if lo is not None else (None, None)
            u = ctx.real('%s_%d' % (name, k), 0, 1)
            p.append(l + (h - l) * u if l is not None and h is not None else l + 5 * u if l is not None else h - 5 * u if h is not None else 10 * u - 5)
        return p
    pts = [point('q%d' % i) for i in range(n + 1)]
    best = point('best')
    a.xopt, a.fopt = np.array(best), cost(best)
    for i in range(n + 1):
        a.simplex[i, :] = np.array(pts[i])
        a.values[i] = cost(pts[i])
        ctx.assume(a.fopt <= a.values[i])
    a.sum = np.sum(a.simplex, axis=0)
    n0 = len(cost.seen)
    factor = ctx.real('factor', 0.4, 0.6) if what == 'contract' else -1.0 if what == 'reflect' else 2.0 if what in ('extend', 'reflect+') else 10.0 if what == 'inflate' else 0.5
    if what in ('inflate', 'shrink'):
        lo_ = ctx.choose('ilo', list(range(n + 1)))
        y = a.inflateSimplex(lo_, factor)
        ctx.check(len(cost.seen) == n0 + n, 'all points but one are new')
        ctx.eq([v for v in a.simplex[lo_]], pts[lo_], 'the fixed point')
        for v in a.values:
            ctx.le(y, v, 'the lowest value')
        ctx.check(any(y is v if ctx.symbolic else y == v for v in a.values), 'the lowest value')
        if lim is None:
            for i in range(n + 1):
                ctx.eq([v for v in a.simplex[i]], [factor * pts[i][k] + (1 - factor) * pts[lo_][k] if i != lo_ else pts[i][k] for k in range(n)], 'scaled towards the fixed point')
    else:
        ih = ctx.choose('ihi', list(range(n + 1)))
        yh = a.values[ih]
        r0 = a.rng.n if hasattr(a.rng, 'n') else 0
        y = a.trialStep(ih, yh, factor)
        ctx.check(len(cost.seen) == n0 + 1, 'one evaluation')
        p, yt = cost.seen[-1]
        if lim is None:
            c = [sum(pts[i][k] for i in range(n + 1) if i != ih) / n for k in range(n)]
            ctx.eq(p, [c[k] + factor * (pts[ih][k] - c[k]) for k in range(n)], 'through the opposite face')
        if not temp:
            ctx.eq(y, yt, 'the new value')
            if yt < yh:
                ctx.eq([v for v in a.simplex[ih]], p, 'better points are taken')
            else:
                ctx.eq([v for v in a.simplex[ih]], pts[ih], 'worse points are not taken')
        else:
            T = a.temp
            u = ctx.real('r.u%d' % (r0 + 1), 0, 1)
            ctx.eq(y, yt + T * ctx.math.log(u + 1e-30), 'thermal fluctuation')
        for i in range(n + 1):
            if i != ih:
                ctx.eq([v for v in a.simplex[i]], pts[i], 'other points stay')
    judge(ctx, a, cost, lo, hi, box=True)
    ctx.eq([v for v in a.sum], [sum(a.simplex[i, k] for i in range(n + 1)) for k in range(n)], 'sum')


def arguments(ctx):
    P, np = ctx.pkg, ctx.np
    x = np.array([0.0, 1.0])
    ctx.raises(ValueError, lambda: P.AnnealingAmoeba(1.0, x), 'function')
    ctx.raises(ValueError, lambda: P.AnnealingAmoeba(lambda p: p[0], x, abstol=None, reltol=None), 'tolerances')
    ctx.raises(ValueError, lambda: P.AnnealingAmoeba(lambda p: p[0], x, callback=1), 'callback')


def harnesses(tier):
    out = []
    S = dict(paths=4000, tmax=60, samples=2, qtimeout=500)

    def h(name, f, *a, thorough=False, **k):
        kw = dict(S)
        for o in list(S) + ['weight']:
            if o in k:
                kw[o] = k.pop(o)
        out.append(H(name, f, args=a, kw=k, thorough=thorough, **kw))
    h('arguments', arguments)
    for n in (1, 2, 3):
        h('start/%d' % n, start, n)
        for lim in ('both', 'scalar', 'low', 'high', 'mixed'):
            if n < 3:
                h('start/%d/%s' % (n, lim), start, n, lim=lim)
                h('start/%d/%s/anywhere' % (n, lim), start, n, lim=lim, inside=False)
    h('start/size', start, 2, size='one')
    h('start/01', start, 2, size='one', x0=[0.0, 1.0])
    h('start/inf0', start, 2, bad=0)
    h('start/inf1', start, 2, bad=1)
    h('start/inf1/limits', start, 2, lim='both', bad=1)
    h('start/nan0', start, 2, bad=0, kind='nan')
    h('start/nan2/limits', start, 2, lim='both', bad=2, kind='nan')
    for n in (1, 2):
        for lim in (None, 'both', 'mixed'):
            for what in ('reflect', 'extend', 'contract', 'inflate', 'shrink'):
                h('step/%d/%s/%s' % (n, lim, what), anyplex, n, what, lim)
    for what in ('reflect', 'extend', 'contract'):
        h('step/2/hot/%s' % what, anyplex, 2, what, None, True)
        h('step/3/%s' % what, anyplex, 3, what, 'both')
    h('step/3/shrink', anyplex, 3, 'shrink', 'both')
    for n in (1, 2):
        for tol in ('abs', 'rel', 'default'):
            h('run/%d/1/%s' % (n, tol), run, n, 1, tol=tol)
        for lim in ('both', 'low', 'high', 'scalar'):
            if n == 1:
                h('run/%d/1/%s' % (n, lim), run, n, 1, lim=lim)
            else:
                for pl in PLACES if lim == 'both' else ('out',):
                    h('run/%d/1/%s/%s' % (n, lim, pl), run, n, 1, lim=lim, place=pl)
        h('run/%d/1/hot' % n, run, n, 1, temp=True, place='mid', thorough=n > 1, tmax=400 if n > 1 else 60, paths=40000)
        h('run/%d/2' % n, run, n, 2, place='mid', thorough=n > 1, tmax=400 if n > 1 else 60, paths=40000)
        h('run/%d/1/callback' % n, run, n, 1, callback=True)
    h('run/1/2/both', run, 1, 2, lim='both', place='low')
    for k in (3, 4, 5):
        h('run/2/1/nan%d' % k, run, 2, 1, bad=k, kind='nan')
    h('run/2/1/inf4', run, 2, 1, bad=4)
    h('run/1/3', run, 1, 3, thorough=True, tmax=400, paths=40000)
    h('run/2/2/both', run, 2, 2, lim='both', place='high', thorough=True, tmax=400, paths=40000)
    h('run/2/1/both', run, 2, 1, lim='both', thorough=True, tmax=400, paths=40000)
    h('run/2/1/anywhere', run, 2, 1, lim='both', inside=False, thorough=True, tmax=400, paths=40000)
    h('run/1/2/hot', run, 1, 2, temp=True, place='mid', thorough=True, tmax=400, paths=40000)
    h('run/3/1', run, 3, 1, place='mid', thorough=True, tmax=400, paths=40000)
    return out
