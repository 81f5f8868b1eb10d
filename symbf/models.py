"""The built-in models with their options, shared by several checks."""
POS = dict(lo=0)
NZ = dict(nonzero=True)


class Spec(object):
    def __init__(self, name, make, npar, pdom=None, ndim=1, x=None, ndout=1, deriv=True, subset=True, weight=1, paths=3000, tmax=200,
                 n=2, thorough=False, order_knots=None, pre=None):
        self.name, self.make, self.npar, self.pdom, self.ndim = name, make, npar, pdom or {}, ndim
        self.xdom, self.ndout, self.deriv, self.subset, self.weight = x or {}, ndout, deriv, subset, weight
        self.paths, self.tmax, self.n, self.thorough, self.pre = paths, tmax, n, thorough, pre


def M(name, *a, **k):
    def make(ctx, **extra):
        return getattr(ctx.pkg, name)(*a, **dict(k, **extra))
    return make


def knots(ctx, n, lo=None, hi=None):
    """n strictly increasing symbolic knots"""
    k0 = ctx.real('k0')
    out = [k0]
    for i in range(1, n):
        out.append(out[-1] + ctx.real('dk%d' % i, lo=0, hi=4))
    return out


def spline(cls, nk, order, fixedk=None):
    def make(ctx, **extra):
        k = [float(x) for x in fixedk] if fixedk else knots(ctx, nk)
        return getattr(ctx.pkg, cls)(knots=k, order=order, **extra)
    return make


def sympar(cls, *names, **kw):
    """model whose constructor takes symbolic constants"""
    pos = kw.pop('pos', ())

    def make(ctx, **extra):
        vals = [v if not isinstance(v, str) else (ctx.real(v, lo=0) if v in pos else ctx.real(v)) for v in names]
        return getattr(ctx.pkg, cls)(*vals, **dict(kw, **extra))
    return make


def kernelmodel(kname, **kk):
    def make(ctx, **extra):
        return ctx.pkg.KernelModel(kernel=getattr(ctx.pkg, kname)(**kk), **extra)
    return make


def kernel2d(kname, shape):
    def make(ctx, **extra):
        return ctx.pkg.Kernel2dModel(kernel=getattr(ctx.pkg, kname)(), shape=shape, **extra)
    return make


def product(*parts):
    def make(ctx):
        return ctx.pkg.ProductModel([p(ctx) for p in parts])
    return make


def combi(**kw):
    def make(ctx, **extra):
        return ctx.pkg.CombiModel(ctx.pkg.GaussModel(), nrepeat=3, **dict(kw, **extra))
    return make


def sinespline(nk, order):
    def make(ctx, **extra):
        return ctx.pkg.SineSplineModel(ctx.real('freq'), knots(ctx, nk), order=order, **extra)
    return make


def sinesplinedrift(nk, order, degree):
    def make(ctx, **extra):
        return ctx.pkg.SineSplineDriftModel(knots(ctx, nk), order=order, degree=degree, **extra)
    return make


KERNELS = ['Biweight', 'CosSquare', 'Cosine', 'Gauss', 'Huber', 'Lorentz', 'Parabola', 'Sinc', 'Triangle', 'Tricube', 'Triweight', 'Uniform']

SPECS = [
    Spec('arctan', M('ArctanModel'), 3),
    Spec('exp', M('ExpModel'), 2),
    Spec('gauss', M('GaussModel'), 3, {2: POS}),
    Spec('lorentz', M('LorentzModel'), 3, {2: POS}),
    Spec('logistic', M('LogisticModel'), 3, {2: NZ}),
    Spec('sinc', M('SincModel'), 3, {2: POS}),
    Spec('poly0', M('PolynomialModel', 0), 1),
    Spec('poly1', M('PolynomialModel', 1), 2),
    Spec('poly3', M('PolynomialModel', 3), 4),
    Spec('cheb2', M('ChebyshevPolynomialModel', 2), 3),
    Spec('cheb4', M('ChebyshevPolynomialModel', 4), 5),
    Spec('sine', M('SineModel'), 3),
    Spec('sinephase', M('SineModel', phase=True), 3),
    Spec('sineamp', sympar('SineAmpModel', 'freq'), 2),
    Spec('sinedrift', M('SineDriftModel'), 4),
    Spec('harmonic1', sympar('HarmonicModel', 1, period=2.0), 2),
    Spec('harmonic3', M('HarmonicModel', 3, period=0.75), 6),
    Spec('polysineamp1', sympar('PolySineAmpModel', 1, 'freq'), 4, ndim=2, subset=False),
    Spec('polysineamp2', sympar('PolySineAmpModel', 2, 'freq'), 6, ndim=2, subset=False),
    Spec('etalon', M('EtalonModel'), 4, {1: POS}),
    Spec('etalondrift', M('EtalonDriftModel'), 5, {2: POS}, ndim=2),
    Spec('pade01', M('PadeModel', 0, 1), 2),
    Spec('pade12', M('PadeModel', 1, 2), 4),
    Spec('pade22', M('PadeModel', 2, 2), 5),
    Spec('powerlaw', M('PowerLawModel'), 3, {1: dict(lo=-2, hi=0)}, x=dict(lo=0.5)),
    Spec('power2', M('PowerModel', 2), 1),
    Spec('power-1', M('PowerModel', -1), 1, x=dict(lo=0)),
    Spec('power0.5', M('PowerModel', 0.5), 1, x=dict(lo=0)),
    Spec('constant', M('ConstantModel', values=[1.5]), 0, subset=False),
    Spec('pseudovoigt', M('PseudoVoigtModel'), 4, {2: POS}),
    Spec('polysurface0', M('PolySurfaceModel', 0), 1, ndim=2),
    Spec('polysurface1', M('PolySurfaceModel', 1), 3, ndim=2),
    Spec('polysurface3', M('PolySurfaceModel', 3), 10, ndim=2),
    Spec('splines1', spline('SplinesModel', 3, 1), 3),
    Spec('splines2', spline('SplinesModel', 3, 2), 4),
    Spec('splines3', spline('SplinesModel', 4, 3), 6, weight=2),
    Spec('sinespline2', sinespline(3, 2), 8, subset=False),
    Spec('sinespline3', sinespline(3, 3), 10, subset=False),
    Spec('sinesplinedrift', sinesplinedrift(3, 3, 1), 12, subset=False, weight=2),
    Spec('sinesplinedrift0', sinesplinedrift(2, 2, 2), 9, subset=False),
    Spec('surfacesplines', lambda ctx, **e: ctx.pkg.SurfaceSplinesModel([[0.0, 1.0, 2.0], [0.0, 1.5]], order=[2, 1], **e), 8, ndim=2, subset=False, deriv=False),
    Spec('product', product(M('PolynomialModel', 1), M('GaussModel')), 5, {4: POS}, ndim=2, subset=False, deriv=False),
    Spec('product3', product(M('ExpModel'), M('PolynomialModel', 0), M('SineModel')), 6, ndim=3, subset=False, deriv=False),
    Spec('combi', combi(addCombi={1: [0, 0.5, 2]}, mulCombi={2: [1, 1.5, 2]}), 5, {2: POS}, subset=False),
    Spec('combi0', combi(mulCombi={0: [1, -0.5, 0.25]}), 7, {2: POS, 4: POS, 6: POS}, subset=False),
    Spec('combi1', combi(addCombi={2: [0, 1, 0.5]}), 7, {2: POS}, subset=False),
]
for k in KERNELS:
    SPECS.append(Spec('kernel/' + k, kernelmodel(k), 3, {2: POS}))
for nc in (0, 1, 2, 3):
    SPECS.append(Spec('kernel/Tophat%d' % nc, kernelmodel('Tophat', nconv=nc), 3, {2: POS}))
for k in KERNELS + ['Tophat']:
    for s, npar in ((1, 4), (2, 5), (3, 6)):
        if s == 3 and k not in ('Gauss', 'Biweight', 'Lorentz', 'Parabola'):
            continue
        SPECS.append(Spec('kernel2d/%s%d' % (k, s), kernel2d(k, s), npar, {3: POS, 4: POS} if s > 1 else {3: POS}, ndim=2, n=1, weight=2))

BYNAME = {s.name: s for s in SPECS}
