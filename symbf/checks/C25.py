"""C25  maps to lists of positions and values, and back."""
import itertools
from ..harness import H
from .C12 import linclass

BOUNDS = 'all maps of 1, 2 and 3 dimensions up to 4 pixels along each axis (3 in three dimensions), all values; both axis orderings, at construction and per call; fits of maps up to 2x3'
ASSUMPTIONS = ['numpy.reshape of an array is modelled by symbf/shim.py']


def mk(ctx, shape):
    n = 1
    for s in shape:
        n *= s
    v = ctx.reals('m', n)
    return v, ctx.np.reshape(v, shape)


def flat(shape, idx):
    k = 0
    for s, i in zip(shape, idx):
        k = k * s + i
    return k


def trip(ctx, shape, order, call):
    v, m = mk(ctx, shape)
    ia = ctx.pkg.ImageAssistant(**(dict(order=order) if order else {}))
    kw = dict(order=call) if call else {}
    o = call or order or 'C'
    n = len(v)
    idx = ia.getIndices(m, **kw)
    y = ia.getydata(m)
    rank = len(shape)
    ctx.shape(y, (n,), 'list of values')
    if rank == 1:
        ctx.check([int(i) for i in idx] == list(range(n)), 'indices of a vector')
        seen = [(int(i),) for i in idx]
    else:
        ctx.shape(idx, (n, rank), 'list of indices')
        seen = [tuple(int(idx[i, k]) for k in (range(rank) if o == 'C' else reversed(range(rank)))) for i in range(n)]
    ctx.check(sorted(seen) == sorted(itertools.product(*[range(s) for s in shape])), 'every pixel once')
    for i in range(n):
        ctx.eq(y[i], v[flat(shape, seen[i])], 'value at its own position')
    back = ia.resizeData(y)
    ctx.shape(back, shape, 'shape of the map')
    ctx.eq(back, m, 'there and back again')
    ctx.eq(ia.resizeData(y, shape=shape), m, 'there and back again, shape given')
    y[0] = y[0] + 1
    ctx.eq(m[(0,) * rank], v[0], 'the list is a copy')
    pos = ia.getPositions(m, center=False, **kw)
    cen = ia.getPositions(m, **kw)
    sky = ia.getPositions(m, deproject=lambda p: p * ctx.real('cdelt') + ctx.real('crval'), **kw)
    for i in range(n):
        w = seen[i] if o == 'C' else tuple(reversed(seen[i]))
        for k in range(rank):
            ps = [(t[i] if rank == 1 else t[i, k]) for t in (pos, cen, sky)]
            ctx.eq(ps[0], w[k], 'corner of the pixel')
            ctx.eq(ps[1], w[k] + 0.5, 'centre of the pixel')
            ctx.eq(ps[2], (w[k] + 0.5) * ctx.real('cdelt') + ctx.real('crval'), 'deprojected position')


def fitmap(ctx, cls, shape, wgt):
    """the fit of a map is the fit of its pixels"""
    P = ctx.pkg
    v, m = mk(ctx, shape)
    n = len(v)
    rank = len(shape)
    w = ctx.np.reshape(ctx.reals('w', n, 0.1, 3), shape) if wgt else None
    kw = dict(weights=w) if wgt else {}
    ft = getattr(P, cls)(ctx.np.zeros(shape), linclass(ctx)('phi', 1, ndim=rank), map=True)
    pix = ctx.arr([list(map(float, t)) for t in itertools.product(*[range(s) for s in shape])])
    gt = getattr(P, cls)(pix, linclass(ctx)('phi', 1, ndim=rank))
    try:
        p = ft.fit(m, **kw)
        q = gt.fit(v, **({'weights': ctx.arr(ctx.reals('w', n, 0.1, 3))} if wgt else {}))
    except ValueError as e:
        if 'chisq' in str(e):
            ctx.assume(False)
        raise
    ctx.eq(p, q, 'parameters')
    ctx.eq(ft.chisq, gt.chisq, 'chisq')
    yf = ft.yfit
    ctx.shape(yf, shape, 'map of the fit')
    ctx.eq(ctx.np.reshape(yf, n), gt.yfit, 'fitted values')


def harnesses(tier):
    hs = []
    shapes = [(n,) for n in (1, 2, 4)] + list(itertools.product((1, 2, 3, 4), repeat=2)) + [(1, 2, 3), (2, 3, 2), (3, 2, 1), (2, 2, 2), (3, 1, 2), (2, 3, 3)]
    for s in shapes:
        for o in (None, 'C', 'F'):
            for c in (None, 'C', 'F'):
                hs.append(H('trip/%s/%s-%s' % ('x'.join(map(str, s)), o, c), trip, (s, o, c)))
    for cls in ('Fitter', 'QRFitter'):
        for s in ((2, 2), (1, 3), (2, 3)):
            for w in (False, True):
                hs.append(H('fit/%s/%s/%s' % (cls, 'x'.join(map(str, s)), w), fitmap, (cls, s, w), thorough=s == (2, 3) and w))
    return hs
