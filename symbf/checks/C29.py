"""C29  orbits obey Kepler's laws; derivatives to the orbit parameters follow from Kepler's equation."""
from ..harness import H

BOUNDS = ('1-2 points in the orbit at any anomaly, eccentricities in [0,0.9] ([0,0.95] for the equation), any period, phase, size and orientation; '
          'one step of the iteration from anywhere')
ASSUMPTIONS = ['the orbit models are checked for an arbitrary eccentric anomaly, whose relation to the time is that of Kepler\'s equation; that the iteration stops at a solution of the equation is checked by itself, '
               'that it stops at all is not', 'points closer than about 0.03 rad to the apocentre are excluded, except the apocentre itself',
               'the orbit models around any distance and true anomaly with any derivatives, which are those of the orbit by the checks of Kepplers2ndLaw']


def orbit(ctx):
    return {'e': ctx.real('e', 0, 0.9, lo_open=False), 'a': ctx.real('a', 0.1, 5), 'P': ctx.real('P', 0.2, 9), 'f': ctx.real('f', 0, 6)}


def elements(ctx, q):
    return ctx.arr([q['e'], q['a'], q['P'], q['f']])


def anomaly(ctx, n, margin=0.001):
    E = [ctx.real('E%d' % i, -3.1, 3.1) for i in range(n)]
    for v in E:
        ctx.assume(1 + ctx.math.cos(v) > margin)
    return E


def given(ctx, K, E):
    """the eccentric anomaly is what we say"""
    np = ctx.np
    ea = ctx.arr(list(E))

    def anomaly(xdata, params, Estart=None):
        K.sinE, K.cosE, K.iter = np.sin(ea), np.cos(ea), 1
        return ea
    K.eccentricAnomaly = K.eccentricAnomaly0 = K.eccentricAnomaly1 = K.eccentricAnomaly2 = anomaly
    return K


def anywhere(ctx, K, q, x):
    """distance, true anomaly and their derivatives are what we say"""
    ks = 'eaPfx'
    r, v = ctx.real('r', 0.1, 5), ctx.real('v', -3, 3)
    dr, dv = {k: ctx.real('dr' + k, -3, 3) for k in ks}, {k: ctx.real('dv' + k, -3, 3) for k in ks if k != 'a'}
    dv['a'] = 0
    A = lambda t: ctx.arr([t])
    right = lambda xd, p: ctx.eq([t for t in p[:4]] + [t for t in xd], [q[k] for k in 'eaPf'] + [x[0]], 'the elements of the orbit')

    def place(xd, p):
        right(xd, p)
        K.eccAnomaly, K.sinE, K.cosE, K.iter = A(ctx.real('E')), A(ctx.real('sE', -1, 1)), A(ctx.real('cE', -0.9, 1)), 1
        return A(r), A(v)

    def known(p, *a):
        for t, k in zip(a, ('cE', 'sE', 'E')):
            ctx.eq(t[0], ctx.real(k, *{'cE': (-0.9, 1), 'sE': (-1, 1), 'E': ()}[k]), 'the anomaly')

    def dpar(xd, p, E, c, s):
        right(xd, p)
        known(p, c, s, E)
        return tuple(A(dr[k]) for k in 'eaPf') + tuple(A(dv[k]) for k in 'ePf')

    def dx(xd, p, c, s):
        right(xd, p)
        known(p, c, s)
        return A(dr['x']), A(dv['x'])
    K.radiusAndTrueAnomaly, K.drvdpar, K.drvdx = place, dpar, dx
    return r, v, dr, dv


class Ref:
    """what Kepler says of one point: position in the orbital plane as function of (e, a, E), and the derivatives of E to (x, e, P, f)"""

    def __init__(self, ctx, q, x, E):
        M = ctx.math
        self.s, self.c = M.sin(E), M.cos(E)
        e, P = q['e'], q['P']
        self.root = M.sqrt(1 - e * e)
        self.X, self.Y = q['a'] * (self.c - e), q['a'] * self.root * self.s       # r cos v, r sin v
        self.r = q['a'] * (1 - e * self.c)
        dM = 1 / (1 - e * self.c)
        tp = 2 * M.pi
        self.dE = {'x': dM * tp / P, 'e': dM * self.s, 'P': -dM * tp * x / (P * P), 'f': -dM, 'a': 0}
        # explicit derivatives of X, Y
        self.dX = {k: -q['a'] * self.s * d for k, d in self.dE.items()}
        self.dY = {k: q['a'] * self.root * self.c * d for k, d in self.dE.items()}
        self.dX['e'] = self.dX['e'] - q['a']
        self.dY['e'] = self.dY['e'] - q['a'] * e / self.root * self.s
        self.dX['a'], self.dY['a'] = self.c - e, self.root * self.s
        # of r and v
        self.dr = {k: (self.X * self.dX[k] + self.Y * self.dY[k]) / self.r for k in self.dX}
        self.dv = {k: (self.X * self.dY[k] - self.Y * self.dX[k]) / self.r ** 2 for k in self.dX}


def mean(ctx):
    P, np, M = ctx.pkg, ctx.np, ctx.math
    K = P.Kepplers2ndLaw()
    q = orbit(ctx)
    x = ctx.reals('x', 2, lo=-9, hi=9)
    p = elements(ctx, q)
    ctx.eq([v for v in K.meanAnomaly(x, p)], [2 * M.pi * v / q['P'] - q['f'] for v in x], 'mean anomaly')
    d = K.dMdx(x, p)
    ctx.eq([v for v in np.zeros_like(x) + d], [2 * M.pi / q['P']] * 2, 'derivative of the mean anomaly')
    dP, dp = K.dMdpar(x, p)
    ctx.eq([v for v in dP], [-2 * M.pi * v / q['P'] ** 2 for v in x], 'derivative to the period')
    ctx.eq([v for v in np.zeros_like(x) + dp], [-1, -1], 'derivative to the phase')


def position(ctx, n=1):
    """distance and true anomaly"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    q = orbit(ctx)
    E = anomaly(ctx, n)
    K = given(ctx, P.Kepplers2ndLaw(), E)
    x = ctx.reals('x', n, lo=-9, hi=9)
    r, v = K.radiusAndTrueAnomaly(x, elements(ctx, q))
    for i in range(n):
        R = Ref(ctx, q, x[i], E[i])
        ctx.eq(r[i], R.r, 'distance')
        ctx.eq(r[i] * M.cos(v[i]), R.X, 'the ellipse along its axis')
        ctx.eq(r[i] * M.sin(v[i]), R.Y, 'the ellipse across its axis')
        ctx.eq(r[i] * (1 + q['e'] * M.cos(v[i])), q['a'] * (1 - q['e'] ** 2), 'conic section')


def rates(ctx, n=1):
    """derivatives of distance and true anomaly"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    q = orbit(ctx)
    E = anomaly(ctx, n)
    K = given(ctx, P.Kepplers2ndLaw(), E)
    x = ctx.reals('x', n, lo=-9, hi=9)
    p = elements(ctx, q)
    r, v = K.radiusAndTrueAnomaly(x, p)
    ea, s, c = ctx.arr(E), np.sin(ctx.arr(E)), np.cos(ctx.arr(E))
    R = [Ref(ctx, q, x[i], E[i]) for i in range(n)]
    w = lambda k: [[t.dr[k] for t in R], [t.dv[k] for t in R]]
    L = lambda y: [u for u in np.zeros(n) + y]
    ctx.eq(L(K.dEdM(x, p, c)), [1 / (1 - q['e'] * t.c) for t in R], 'Kepler\'s equation')
    ctx.eq(L(K.dEdx(x, p, c)), [t.dE['x'] for t in R], 'rate of the eccentric anomaly')
    d = K.dEdpar(x, p, c, s)
    for y, k in zip(d, 'ePf'):
        ctx.eq(L(y), [t.dE[k] for t in R], 'eccentric anomaly to ' + k)
    dr, dv = K.drvdx(x, p, c, s)
    ctx.eq(L(dr), w('x')[0], 'rate of the distance')
    ctx.eq(L(dv), w('x')[1], 'rate of the true anomaly')
    de, da, dP, df, ve, vP, vf = K.drvdpar(x, p, ea, c, s)
    for y, k in zip((de, da, dP, df), 'eaPf'):
        ctx.eq(L(y), w(k)[0], 'distance to ' + k)
    for y, k in zip((ve, vP, vf), 'ePf'):
        ctx.eq(L(y), w(k)[1], 'true anomaly to ' + k)


def apocentre(ctx):
    """at the far end of the orbit"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    K = P.Kepplers2ndLaw()
    q = orbit(ctx)
    x = ctx.arr([ctx.real('x', -9, 9)])
    p = elements(ctx, q)
    c, s = np.array([-1.0]), np.array([0.0])
    ea = np.array([3.141592653589793])
    e = q['e']
    dr, dv = K.drvdE(x, p, c, s)
    ctx.eq([u for u in dr], [0], 'distance')
    k = M.sqrt((1 - e) / (1 + e))
    ctx.le(abs(dv[0] - k), 1e-7, 'true anomaly')
    o = K.drvdpar(x, p, ea, c, s)
    t = 2 * M.pi / (1 + e) / q['P']
    ctx.le(abs(o[5][0] + k * t * x[0] / q['P']), 1e-4 * (1 + abs(t * x[0] / q['P'])), 'to the period')
    ctx.le(abs(o[6][0] + k / (1 + e)), 1e-7, 'to the phase')
    ctx.le(abs(o[4][0]), 1e-7, 'to the eccentricity')
    ctx.eq(o[0][0], q['a'], 'distance to the eccentricity')
    ctx.eq(o[1][0], 1 + e, 'distance to the size')


def equation(ctx, which, n=1, start=True):
    """when the iteration stops it has a solution"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    K = P.Kepplers2ndLaw()
    e = ctx.real('e', 0, 0.95, lo_open=False)
    E0 = [ctx.real('E%d' % i, -3.1, 6.5) for i in range(n)]
    f = ctx.real('f', 0, 6)
    x = ctx.reals('x', n, lo=-3, hi=3)
    per = ctx.real('P', 0.5, 3)
    p = ctx.arr([e, 1.0, per, f])
    mm = [2 * M.pi * v / per - f for v in x]
    K.MAXITER = 1
    E = getattr(K, 'eccentricAnomaly' + which)(x, p, Estart=ctx.arr(list(E0)))
    ctx.check(K.iter == 1, 'steps')
    ctx.eq([v for v in K.sinE], [M.sin(v) for v in E0], 'sine')
    ctx.eq([v for v in K.cosE], [M.cos(v) for v in E0], 'cosine')
    done = True
    for i in range(n):
        done = done and bool(abs(E[i] - E0[i]) < 1e-8)
    for i in range(n):                              # a stop means that the equation is met
        g = E0[i] - e * M.sin(E0[i]) - mm[i]
        ctx.le(abs(g) if done else 0, 2.1e-8, 'Kepler\'s equation')
    if n == 1:                                      # Halley's step, so that a solution is where it stops
        g = E0[0] - e * M.sin(E0[0]) - mm[0]
        g1, g2 = 1 - e * M.cos(E0[0]), e * M.sin(E0[0])
        ctx.eq((E[0] - E0[0]) * (2 * g1 * g1 - g * g2), -2 * g * g1, 'step')


def goes_on(ctx, n):
    """it stops when all points are settled, and then only"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    K = P.Kepplers2ndLaw()
    e = ctx.const(0.0)                              # circular: the first step is the last but one
    x = ctx.reals('x', n, lo=-3, hi=3)
    f = ctx.real('f', 0, 6)
    E0 = [ctx.real('E%d' % i, -3, 3) for i in range(n)]
    p = ctx.arr([e, 1.0, 1.0, f])
    E = K.eccentricAnomaly(x, p, Estart=ctx.arr(list(E0)))
    mm = [2 * M.pi * v - f for v in x]
    ctx.eq([v for v in E], mm, 'a circular orbit')
    far = [abs(E0[i] - mm[i]) >= 1e-8 for i in range(n)]
    ctx.check(K.iter == (2 if any(bool(t) for t in far) else 1), 'stops when all are settled')
    E = K.eccentricAnomaly(x, p)
    ctx.eq([v for v in E], mm, 'a circular orbit')
    ctx.check(K.iter == 1, 'starts at the mean anomaly')
    r, v = K.radiusAndTrueAnomaly(x, p)
    ctx.eq([t for t in r], [1] * n, 'a circular orbit')


def velocity(ctx):
    P, np, M = ctx.pkg, ctx.np, ctx.math
    q = orbit(ctx)
    w = ctx.real('w', -3, 6)
    m = P.RadialVelocityModel()
    x = ctx.reals('x', 1, lo=-9, hi=9)
    r, v, dr, dv = anywhere(ctx, m.keppler, q, x)
    p = ctx.arr([q['e'], q['a'], q['P'], q['f'], w])
    y = m.result(x, p)
    K, e = q['a'], q['e']
    cw, sw = M.cos(w), M.sin(w)
    ctx.eq(y[0], K * (M.cos(v + w) + e * cw), 'radial velocity')
    t = -K * M.sin(v + w)
    d = [t * dv['e'] + K * cw, M.cos(v + w) + e * cw, t * dv['P'], t * dv['f'], t - K * e * sw]
    part = m.partial(x, p)
    ctx.shape(part, (1, 5), 'partial')
    ctx.eq([u for u in part[0]], d, 'gradient')
    for pl in ([4, 0], [2], [3, 1, 0]):
        ctx.eq([u for u in m.basePartial(x, p, parlist=pl)[0]], [d[k] for k in pl], 'gradient to a list')
    ctx.eq([u for u in m.derivative(x, p)], [t * dv['x']], 'derivative')


def physics(ctx):
    """size of the orbit and mass of the planet"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    m = P.RadialVelocityModel()
    p = [ctx.real('e', 0, 0.9), ctx.real('K', 0.1, 5), ctx.real('P', 0.2, 9), ctx.real('f', 0, 6), ctx.real('w', 0, 6)]
    m.parameters = ctx.arr(p)
    ctx.eq(m.semimajoraxis * 2 * M.pi, p[1] * p[2] * M.sqrt(1 - p[0] ** 2), 'size of the orbit of the star')
    s = ctx.real('mass', 0.1, 10)
    ctx.eq(m.getMsini(s) ** 3, ctx.const(4.91e-3) ** 3 * s * s * p[1] ** 3 * p[2] * M.sqrt(1 - p[0] ** 2) ** 3, 'mass of the planet')


def stellar(ctx, spherical, incl=None, fixed=False):
    P, np, M = ctx.pkg, ctx.np, ctx.math
    q = orbit(ctx)
    inc, O, w = ctx.real('i', 0.1, 3), ctx.real('O', -3, 3), ctx.real('w', -3, 6)
    ci, si = M.cos(inc), M.sin(inc)
    m = P.StellarOrbitModel(spherical=spherical)
    x = ctx.reals('x', 1, lo=-9, hi=9)
    r, v, dr, dv = anywhere(ctx, m.keppler, q, x)
    p = ctx.arr([q['e'], q['a'], q['P'], q['f'], inc, O, w])
    cu, su = M.cos(v + w), M.sin(v + w)
    cO, sO = M.cos(O), M.sin(O)
    # in the sky: along the line of nodes, and across
    A, B = r * cu, r * su * ci
    ctx.assume(A * A > 0.0001)
    dA = {k: dr[k] * cu - r * su * dv[k] for k in dr}
    dB = {k: (dr[k] * su + r * cu * dv[k]) * ci for k in dr}
    dA.update(i=0, O=0, w=-r * su)
    dB.update(i=-r * su * si, O=0, w=r * cu * ci)
    north, east = A * cO - B * sO, A * sO + B * cO
    dn = {k: dA[k] * cO - dB[k] * sO for k in dA}
    de = {k: dA[k] * sO + dB[k] * cO for k in dA}
    dn['O'], de['O'] = -east, north
    y = m.result(x, p)
    ctx.shape(y, (1, 2), 'result')
    part = m.partial(x, p)
    ctx.check(len(part) == 2, 'outputs of partial')
    der = m.derivative(x, p)
    ctx.shape(der, (1, 2), 'derivative')
    ks = ['e', 'a', 'P', 'f', 'i', 'O', 'w']
    if spherical:
        rho, th = y[0, 0], y[0, 1]
        ctx.eq(rho * rho, A * A + B * B, 'distance')
        ctx.le(0, rho, 'distance')
        ctx.eq(rho * M.cos(th), north, 'to the north')
        ctx.eq(rho * M.sin(th), east, 'to the east')
        for j, k in enumerate(ks):
            ctx.eq(part[0][0, j] * rho, A * dA[k] + B * dB[k], 'distance to ' + k)
            ctx.eq(part[1][0, j] * (A * A + B * B), A * dB[k] - B * dA[k] if k != 'O' else A * A + B * B, 'angle to ' + k)
        ctx.eq(der[0, 0] * rho, A * dA['x'] + B * dB['x'], 'derivative of the distance')
        ctx.eq(der[0, 1] * (A * A + B * B), A * dB['x'] - B * dA['x'], 'derivative of the angle')
    else:
        ctx.eq(y[0, 0], east, 'to the east')
        ctx.eq(-y[0, 1], north, 'to the north')
        for j, k in enumerate(ks):
            ctx.eq(part[0][0, j], de[k], 'east to ' + k)
            ctx.eq(part[1][0, j], -dn[k], 'north to ' + k)
        ctx.eq(der[0, 0], de['x'], 'derivative to the east')
        ctx.eq(der[0, 1], -dn['x'], 'derivative to the north')


def polar(ctx):
    """from one system of coordinates to the other"""
    P, np, M = ctx.pkg, ctx.np, ctx.math
    m = P.StellarOrbitModel()
    rho, th = ctx.real('rho', 0.1, 5), ctx.real('th', -1.5, 1.5)
    xy = m.toRect(ctx.arr([[rho, th]]))
    ctx.eq(xy[0, 0], rho * M.sin(th), 'east')
    ctx.eq(-xy[0, 1], rho * M.cos(th), 'north')
    u, v = ctx.real('u', -5, 5), ctx.real('v', -5, 5)
    ctx.assume(v * v > 0.001)
    rp = m.toSpher(ctx.arr([[u, v]]))
    ctx.eq(rp[0, 0] ** 2, u * u + v * v, 'distance')
    ctx.le(0, rp[0, 0], 'distance')
    b = m.toRect(rp)
    ctx.eq([b[0, 0], b[0, 1]], [u, v], 'there and back')


def harnesses(tier):
    out = []

    def h(name, f, *a, thorough=False, **k):
        kw = dict(paths=500, tmax=100, samples=2, qtimeout=3000, expand=True)
        kw.update(k)
        out.append(H(name, f, args=a, kw={}, thorough=thorough, **kw))
    h('mean', mean)
    h('position', position)
    h('position/2', position, 2)
    h('rates', rates)
    h('rates/2', rates, 2)
    h('apocentre', apocentre)
    h('equation', equation, '')
    h('equation/2', equation, '2')
    h('equation/two', equation, '', 2, thorough=True)
    h('circular/1', goes_on, 1)
    h('circular/2', goes_on, 2, thorough=True)
    h('velocity', velocity)
    h('physics', physics)
    h('stellar/spherical', stellar, True, generic=True)
    h('stellar/rectangular', stellar, False, generic=True)
    h('polar', polar)
    return out
