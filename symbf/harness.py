"""Harness contexts (symbolic / concrete), goal discharge, replay, evidence."""
import fnmatch
import hashlib
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
import z3
from . import sym as S
from .sym import Sym, SymBool, EX, PathAbort, Unsupported, tosym, evalf, free_vars, isspecial, ZERO, ONE
from .norm import Norm, Blowup
from .explore import Explorer, Encoder, substitute, zfloat
from . import loader, shim

SUBMOD = {'Brackets': 'Model'}


class Pkg(object):
    def __init__(self, base):
        self._base = base

    def module(self, name):
        return importlib.import_module(self._base + '.' + name)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        mod = SUBMOD.get(name, name)
        try:
            m = self.module(mod)
        except ModuleNotFoundError:
            try:
                m = self.module('kernels.' + mod)
            except ModuleNotFoundError:
                raise AttributeError(name)
        v = getattr(m, name, m)
        self.__dict__[name] = v
        return v


class Goal(object):
    __slots__ = ('kind', 'a', 'b', 'label', 'tol')

    def __init__(self, kind, a, b, label, tol):
        self.kind, self.a, self.b, self.label, self.tol = kind, a, b, label, tol


class ShapeMismatch(Exception):
    pass


def flat(a):
    if isinstance(a, np.ndarray):
        return [x for x in a.flat]
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out += flat(x)
        return out
    return [a]


def shape(a):
    if isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)):
        return (len(a),) + (shape(a[0]) if len(a) else ())
    return ()


class BaseCtx(object):
    def __init__(self):
        self.goals = []
        self.covers = set()

    # ---- goals
    def eq(self, a, b, label='eq', tol=1e-6):
        """a == b elementwise, shapes included (scalars compare with 0-d/1-element arrays)."""
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            self.goals.append(Goal('shape', shape(a), shape(b), label + ':shape', 0))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.goals.append(Goal('eq', x, y, label + ('' if len(fa) == 1 else '[%d]' % i), tol))

    def le(self, a, b, label='le', tol=1e-9):
        for i, (x, y) in enumerate(zip(*self._bc(a, b))):
            self.goals.append(Goal('le', x, y, label + '[%d]' % i, tol))

    def lt(self, a, b, label='lt', tol=0.0):
        for i, (x, y) in enumerate(zip(*self._bc(a, b))):
            self.goals.append(Goal('lt', x, y, label + '[%d]' % i, tol))

    def _bc(self, a, b):
        fa, fb = flat(a), flat(b)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fb) == 1:
            fb = fb * len(fa)
        assert len(fa) == len(fb)
        return fa, fb

    def check(self, c, label='check'):
        self.goals.append(Goal('true', c, None, label, 0))

    def shape(self, a, sh, label='shape'):
        self.check(tuple(np.shape(a)) == tuple(sh), label + ' is %s' % (tuple(sh),))

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def defined(self, e, label='defined'):
        """the value is a finite number for every input"""
        for i, x in enumerate(flat(e)):
            self.goals.append(Goal('def', x, None, label + '[%d]' % i, 0))

    def cover(self, label):
        self.covers.add(label)

    def reals(self, name, n, *a, **k):
        return self.arr([self.real('%s%d' % (name, i), *a, **k) for i in range(n)])

    def mat(self, name, n, m, *a, **k):
        return self.arr([[self.real('%s%d_%d' % (name, i, j), *a, **k) for j in range(m)] for i in range(n)])

    def jac(self, f, x):
        """f: array of n reals -> array-like.  returns (flat values, J[value, n])"""
        raise NotImplementedError


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex, seed=1):
        super().__init__()
        self.ex = ex
        sp, rp, sh = loader.load()
        self.pkg = Pkg(loader.SYM)
        self.np = sh['numpy']
        self.math = sh['math']
        self.special = sh['scipy.special']
        self.inf = math.inf

    def arr(self, x):
        return shim.s_array(x, dtype=float)

    def const(self, x):
        return tosym(x)

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True, nonzero=False):
        return self.ex.declare(name, lo, hi, lo_open, hi_open, nonzero=nonzero)

    def integer(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.ex.declare(name, lo, hi, False, False, integer=True)
        return int(self.ex.concretize(v))

    def symint(self, name, lo, hi):
        """an integer-valued symbolic number (not case split)"""
        return self.ex.declare(name, lo, hi, False, False, integer=True)

    def choose(self, name, options):
        options = list(options)
        return options[self.integer(name, 0, len(options) - 1)]

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in c.flat:
                self.ex.require(x)
        else:
            self.ex.require(c)

    def rng(self, prefix='rng'):
        return shim.SymRng(self, prefix)

    def globalrandom(self, rng):
        shim._NoRandom.hook = rng

    def fn(self, name, nargs):
        def f(*args):
            assert len(args) == nargs
            return S.app(name, [tosym(a) for a in args])
        return f

    def dfn(self, name, nargs, mi):
        def f(*args):
            return S.app(name, [tosym(a) for a in args], tuple(mi))
        return f

    def jac(self, f, x):
        xs = [t for t in flat(x)]
        y = flat(f(x))
        J = np.empty((len(y), len(xs)), dtype=object)
        for j, v in enumerate(xs):
            if v.op != 'v':
                raise Unsupported('jac wants plain variables')
            c = {}
            for i, yy in enumerate(y):
                t = tosym(yy)
                J[i, j] = math.nan if t is None else S.diff(t, v, c)
        return np.array(y + [None], dtype=object)[:-1], J


    def integrate(self, f, lo, hi, name='t'):
        """exact integral of a function that is one polynomial on (lo, hi)"""
        t = self.ex.declare('@int_' + name, lo, hi)
        y = tosym(f(t))
        nm = self.ex.nm
        p = nm.norm(y)
        key = nm.norm(t)
        (tm,) = key.keys()
        at = tm[0][0]
        tot = ZERO
        for mono, cf in p.items():
            e = 0
            rest = S.const(cf)
            for i, q in mono:
                if i == at:
                    e = q
                elif nm.atoms[i].kind == 'v':
                    rest = S.mul(rest, S.powc(S.var(nm.atoms[i].name), Fraction(q)))
                else:
                    raise Unsupported('integrate: not a polynomial')
            if e < 0:
                raise Unsupported('integrate: not a polynomial')
            e = Fraction(e) + 1
            w = (Fraction(hi) ** int(e) - Fraction(lo) ** int(e)) / e
            tot = S.add(tot, S.mul(rest, S.const(w)))
        return tot


class AppFns(object):
    """fixed smooth stand-ins for uninterpreted functions in concrete runs; a table of solver values overrides"""

    def __init__(self, table=()):
        self.table = list(table)
        self.cache = {}

    def coef(self, name, n):
        c = self.cache.get((name, n))
        if c is None:
            r = random.Random('%s/%d' % (name, n))
            c = [(r.uniform(0.3, 1.5), [r.uniform(-1.2, 1.2) for _ in range(n)], r.uniform(-2, 2)) for _ in range(3)]
            self.cache[(name, n)] = c
        return c

    def __call__(self, key, args):
        _, name, mi = key
        for k, a, v in self.table:
            if k == key and all(abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, args)):
                return v
        tot = 0.0
        order = sum(mi)
        for amp, w, ph in self.coef(name, len(args)):
            f = amp
            for k, m in enumerate(mi):
                f *= w[k] ** m
            tot += f * math.sin(sum(a * b for a, b in zip(w, args)) + ph + order * math.pi / 2)
        if order == 0:
            tot += 1.7
        return tot


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, env=None, seed=0, apps=None, sample=True, spread=1.5):
        super().__init__()
        sp, rp, sh = loader.load()
        self.pkg = Pkg('BayesicFitting.source')
        self.np = np
        self.math = math
        import scipy.special
        self.special = scipy.special
        self.env = dict(env or {})
        self.rnd = random.Random(seed)
        self.apps = apps or AppFns()
        self.inf = math.inf
        self.spread = spread

    def arr(self, x):
        return np.array(x, dtype=float)

    def const(self, x):
        return float(x)

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True, nonzero=False):
        if name in self.env:
            return self.env[name]
        r = self.rnd
        if lo is not None and hi is not None:
            v = r.uniform(lo, hi)
        elif lo is not None:
            v = lo + abs(r.gauss(0, self.spread)) + 0.05
        elif hi is not None:
            v = hi - abs(r.gauss(0, self.spread)) - 0.05
        else:
            v = r.gauss(0, self.spread)
        if nonzero and abs(v) < 0.05:
            v += 0.3
        v = round(v, 6) if lo is None or hi is None or hi - lo > 1e-3 else v
        self.env[name] = v
        return v

    def integer(self, name, lo, hi):
        if lo == hi:
            return lo
        if name not in self.env:
            self.env[name] = self.rnd.randint(lo, hi)
        return int(round(self.env[name]))

    def symint(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = self.rnd.randint(lo, hi)
        return int(round(self.env[name]))

    def choose(self, name, options):
        options = list(options)
        return options[self.integer(name, 0, len(options) - 1)]

    def assume(self, c):
        if not np.all(c):
            raise PathAbort('assumption')

    def rng(self, prefix='rng'):
        return shim.ConcRng(self, prefix)

    def globalrandom(self, rng):
        self._restore = {}
        for n in ('rand', 'permutation', 'randint', 'uniform', 'random', 'choice', 'randn', 'normal', 'shuffle'):
            self._restore[n] = getattr(np.random, n)
            setattr(np.random, n, getattr(rng, n))
        self._restore['RandomState'] = np.random.RandomState
        np.random.RandomState = lambda seed=None: rng

    def close(self):
        for n, f in getattr(self, '_restore', {}).items():
            setattr(np.random, n, f)

    def fn(self, name, nargs):
        def f(*args):
            return self.apps(('app', name, (0,) * nargs), [float(a) for a in args])
        return f

    def dfn(self, name, nargs, mi):
        def f(*args):
            return self.apps(('app', name, tuple(mi)), [float(a) for a in args])
        return f

    def jac(self, f, x):
        x = np.array(x, dtype=float)
        y = np.array([float(t) for t in flat(f(x.copy()))])
        J = np.zeros((len(y), len(x)))
        for j in range(len(x)):
            h = 1e-3 * max(1.0, abs(x[j])) * (1 if abs(x[j]) > 1e-2 else 0.3)
            d = []
            for hh in (h, h / 2, h / 4):
                xp, xm = x.copy(), x.copy()
                xp[j] += hh
                xm[j] -= hh
                d.append((np.array([float(t) for t in flat(f(xp))]) - np.array([float(t) for t in flat(f(xm))])) / (2 * hh))
            r1 = [(4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3]
            J[:, j] = (16 * r1[1] - r1[0]) / 15
            err = np.abs(r1[1] - r1[0])
            if not np.all(np.isfinite(J[:, j])) or np.any(err > 1e-5 * (1e-3 + np.abs(J[:, j]))):
                raise PathAbort('the numerical derivative is not reliable here')
            xp, xm = x.copy(), x.copy()
            xp[j] += h / 4
            xm[j] -= h / 4
            sec = np.abs(np.array([float(t) for t in flat(f(xp))]) - 2 * y + np.array([float(t) for t in flat(f(xm))])) / (h / 4)
            xp[j] += 3 * h / 4
            xm[j] -= 3 * h / 4
            sec4 = np.abs(np.array([float(t) for t in flat(f(xp))]) - 2 * y + np.array([float(t) for t in flat(f(xm))])) / h
            if np.any((sec > 0.6 * sec4) & (sec > 1e-4 * (1e-3 + np.abs(J[:, j])))):
                raise PathAbort('kink')
        self.numdiff = True
        return y, J


def _integrate(self, f, lo, hi, name='t'):
    x, w = np.polynomial.legendre.leggauss(12)
    h = (hi - lo) / 2
    self.env['@int_' + name] = lo + h * 0.93
    return sum(h * wi * float(f(lo + h * (1 + xi))) for xi, wi in zip(x, w))


ConcCtx.integrate = _integrate


def conc_fail(g, loose=False):
    """None if the concrete goal holds, else a message"""
    k = g.kind
    if k == 'shape':
        return 'shapes %s and %s' % (g.a, g.b)
    if k == 'true':
        return None if bool(g.a) else 'false'
    if k == 'def':
        try:
            ok = g.a is not None and math.isfinite(float(g.a))
        except Exception:
            ok = False
        return None if ok else 'value %s' % (g.a,)
    a, b = g.a, g.b
    if a is None or b is None:
        return None if a is b else '%s vs %s' % (a, b)
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else '%r vs %r' % (a, b)
    try:
        a, b = float(a), float(b)
    except Exception:
        return None if a == b else '%r vs %r' % (a, b)
    tol = g.tol * (100 if loose else 1)
    if k == 'eq':
        if math.isnan(a) or math.isnan(b):
            return None if math.isnan(a) and math.isnan(b) else '%r vs %r' % (a, b)
        if math.isinf(a) or math.isinf(b):
            return None if a == b else '%r vs %r' % (a, b)
        return None if abs(a - b) <= tol * (1e-3 + max(abs(a), abs(b))) else '%.12g != %.12g' % (a, b)
    if math.isnan(a) or math.isnan(b):
        return '%r vs %r' % (a, b)
    m = tol * max(1e-3, abs(a), abs(b)) if not (math.isinf(a) or math.isinf(b)) else 0
    if k == 'le':
        return None if a <= b + m else 'not %.12g <= %.12g' % (a, b)
    if k == 'lt':
        return None if a < b + m or (a <= b and m > 0) else 'not %.12g < %.12g' % (a, b)
    raise AssertionError(k)


class H(object):
    """one harness"""

    def __init__(self, name, fn, args=(), kw=None, paths=3000, tmax=240, samples=3, qtimeout=3000, strictlog=False,
                 validate=True, allow_exc=(), thorough=False, bounds='', regular=True, generic=False, weight=1, trig=False, whole=False, expand=False):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw or {}
        self.paths, self.tmax, self.samples, self.qtimeout = paths, tmax, samples, qtimeout
        self.strictlog, self.validate = strictlog, validate
        self.thorough = thorough
        self.bounds = bounds
        self.regular = regular
        self.trig = trig
        self.expand = expand    # sines of sums of angles are written out
        self.whole = whole      # logs and exps that the normal form splits are also encoded as a whole
        self.generic = generic     # paths with an equality in their condition have no interior: no goals there
        self.weight = weight


def quietcall(h, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return h.fn(ctx, *h.args, **h.kw)


class _Dev(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def run_conc(h, env=None, seed=0, apps=None, spread=1.5):
    """run the harness on the real package. returns (ctx, exception or None, aborted)"""
    c = ConcCtx(env, seed, apps, spread=spread)
    so = sys.stdout
    sys.stdout = _Dev()
    try:
        try:
            quietcall(h, c)
            return c, None, False
        except PathAbort:
            return c, None, True
        except Exception as e:
            return c, e, False
    finally:
        sys.stdout = so
        c.close()


def conc_violations(h, env=None, seed=0, apps=None, spread=1.5):
    c, e, ab = run_conc(h, env, seed, apps, spread)
    if ab:
        return c, [], True
    loose = getattr(c, 'numdiff', False)
    if e is not None:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(loader.SRC)]
        w = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'harness'
        out = [('exception:%s@%s' % (type(e).__name__, w), '%s: %s' % (type(e).__name__, e))]
        return c, out, False
    out = []
    for g in c.goals:
        m = conc_fail(g, loose)
        if m:
            out.append((g.label, m))
    return c, out, False


def where_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    src = [f for f in tb if f.filename.startswith(loader.SRC)]
    w = '%s:%s' % (os.path.basename(src[-1].filename), src[-1].name) if src else 'harness'
    return 'exception:%s@%s' % (type(e).__name__, w)


class Result(object):
    def __init__(self, name):
        self.name = name
        self.violations = []     # (label, message, env, apps)
        self.inconclusive = []
        self.validated = 0
        self.samples = []
        self.functions = set()
        self.stats = {}
        self.skipped = 0
        self.labels = set()


def dedupe(label):
    return label


class Runner(object):
    def __init__(self, h, seed=1, tier='quick'):
        self.h = h
        self.seed = seed
        self.tier = tier
        self.res = Result(h.name)
        self.pathdata = []
        self.cand = []
        self.done_labels = set()
        self.goals = 0
        self.skipped = 0

    # ---------------------------------------------------------------- main
    def run(self):
        h, res = self.h, self.res
        t0 = time.time()
        _, _, shims = loader.load()
        tmax = h.tmax * (3 if self.tier == 'thorough' else 1)
        ex = self.ex = Explorer(maxpaths=h.paths, qtimeout=h.qtimeout, deadline=t0 + tmax)
        ex.strictlog = h.strictlog
        ex.trig = h.trig
        ex.whole = h.whole
        ex.expand = h.expand
        ex.assume_regular = h.regular
        self.monitor(True)
        try:
            ex.explore(self.one, self.onpath)
        except Unsupported as e:
            res.inconclusive.append('exploration: %s' % e)
        except (z3.Z3Exception, RecursionError, Blowup) as e:
            res.inconclusive.append('engine: %r' % e)
        except Exception as e:
            res.inconclusive.append('engine: %r %s' % (e, traceback.format_exc()[-600:]))
        finally:
            self.monitor(False)
            shim._NoRandom.hook = None
        self.replay_candidates()
        self.validate()
        st = ex.stats
        res.stats = dict(paths=st.paths, branches=st.branches, queries=st.queries, unsat=st.unsat, sat=st.sat,
                         unknown=st.unknown, solver_s=round(st.solver_s, 3), goals=self.goals, boundary_paths=self.skipped,
                         wall_s=round(time.time() - t0, 2), candidates=len(self.cand))
        if st.paths == 0 and not res.violations and not res.inconclusive:
            res.inconclusive.append('vacuous: no path satisfies the assumptions')
        if self.goals == 0 and not res.violations and not res.inconclusive:
            res.inconclusive.append('vacuous: no goal was reached')
        return res

    def one(self):
        self.ex.uninit = 0
        ctx = SymCtx(self.ex)
        ctx.exc = None
        self.exc_env = None
        try:
            quietcall(self.h, ctx)
        except Unsupported as e:
            ctx.exc = e
        except Exception as e:
            ctx.exc = e
        finally:
            shim._NoRandom.hook = None
        return ctx

    def onpath(self, ctx):
        ex, h = self.ex, self.h
        if ctx.exc is not None:
            e = ctx.exc
            if isinstance(e, Unsupported):
                self.res.inconclusive.append('unsupported: %s (%s)' % (e, tbshort(e)))
                return len(self.res.inconclusive) > 5
            lab = where_exc(e)
            env = {}
            apps = []
            if ex.check() == z3.sat:
                env, apps = self.model()
            self.cand.append((lab, env, apps, repr(e) + ' ' + tbshort(e)))
            return len(self.cand) > 40
        if h.generic and (any(c.op == '==' for c in ex.pc) or any(v == {0} for v in ex.facts.values())):
            self.skipped += 1
            return False
        self.pathdata.append((list(ex.pc), ctx.goals, set(ex.dom), dict(ex.dom)))
        self.discharge(ctx)
        return len(self.cand) > 40

    def model(self):
        ex = self.ex
        env = ex.model_env()
        m = ex.solver.model()
        apps = []
        for name, lst in ex.enc.fapps.items():
            if isinstance(name, tuple):
                for za, r in lst:
                    apps.append((name, [zfloat(m.eval(z, model_completion=True)) for z in za],
                                 zfloat(m.eval(r, model_completion=True))))
        return env, apps

    # ------------------------------------------------------------- goals
    def discharge(self, ctx):
        ex = self.ex
        pos = set(ex.positive)
        sub = self.equalities()
        nm = ex.nm if pos == {n for n in ex.nm.positive} and not sub else Norm(positive=pos)
        if nm is not ex.nm:
            nm.expand, nm.signof = ex.nm.expand, lambda p, nm=nm: 1 if all(nm.atoms[i].kind == 'v' and nm.atoms[i].name in pos for m in p for i, e in m) else 0
        enc = ex.enc if nm is ex.nm else None
        for g in ctx.goals:
            self.goals += 1
            lab = g.label
            if (lab in self.done_labels) or len(self.cand) > 40:
                continue
            ok, why = self.prove(g, nm, sub)
            if ok is True:
                continue
            if ok is None:
                self.res.inconclusive.append('%s: %s' % (lab, why))
                continue
            env, apps = why
            self.cand.append((lab, env, apps, gshow(g)))
            self.done_labels.add(lab)

    def equalities(self):
        """var = expression substitutions implied by the path condition"""
        mp = {}
        nm = self.ex.nm
        for c in self.ex.pc:
            if c.op != '==' or len(mp) > 6:
                continue
            try:
                p = nm.norm(substitute(c.a, mp) if mp else c.a)
            except (Blowup, ZeroDivisionError):
                continue
            for m, cf in p.items():
                if len(m) == 1 and m[0][1] == 1 and nm.atoms[m[0][0]].kind == 'v' and nm.atoms[m[0][0]].name != '@pi':
                    name = nm.atoms[m[0][0]].name
                    rest = {k: v for k, v in p.items() if k != m}
                    if any(m[0][0] in [i for i, e in k] for k in rest):
                        continue
                    if all(all(nm.atoms[i].kind == 'v' and e > 0 for i, e in k) for k in rest):
                        r = ZERO
                        okk = True
                        for k, v in rest.items():
                            t = S.const(v)
                            for i, e in k:
                                if nm.atoms[i].name == name:
                                    okk = False
                                t = S.mul(t, S.powc(S.var(nm.atoms[i].name), Fraction(e)))
                            r = S.add(r, t)
                        if not okk:
                            continue
                        r = S.mul(S.const(Fraction(-1) / cf), r)
                        mp = {kk: substitute(vv, {name: r}) for kk, vv in mp.items()}
                        mp[name] = r
                        break
        return mp

    def prove(self, g, nm, sub):
        """(True, None) proved; (False, (env, apps)) candidate; (None, reason) unknown"""
        ex = self.ex
        if g.kind == 'shape':
            return self.feasible()
        if g.kind == 'true':
            c = g.a
            if isinstance(c, SymBool):
                return self.prove_cond(c)
            if isinstance(c, Sym):
                c = bool(c)
            return (True, None) if bool(c) else self.feasible()
        if g.kind == 'def':
            a = tosym(g.a) if g.a is not None and not isinstance(g.a, str) else None
            if a is None:
                return self.feasible()
            if any(v.startswith('@uninit') for v in free_vars([a])):
                return self.feasible()
            return self.prove_defined(a)
        a, b = g.a, g.b
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return (True, None) if (a is b or (isinstance(a, str) and a == b)) else self.feasible()
        sa, sb = tosym(a), tosym(b)
        if sa is None or sb is None:
            if sa is None and sb is None:
                fa, fb = float(a), float(b)
                if math.isnan(fa) or math.isnan(fb):
                    ok = g.kind == 'eq' and math.isnan(fa) and math.isnan(fb)
                else:
                    ok = fa == fb if g.kind == 'eq' else fa <= fb if g.kind == 'le' else fa < fb
            elif g.kind == 'eq':
                ok = False
            else:
                fa = float(a) if sa is None else 0.0
                fb = float(b) if sb is None else 0.0
                ok = fa <= fb
            return (True, None) if ok else self.feasible()
        if g.kind == 'eq':
            return self.prove_eq(sa, sb, nm, sub)
        c = S.mkcmp(sa, '<=' if g.kind == 'le' else '<', sb)
        if not isinstance(c, SymBool):
            return (True, None) if c else self.feasible()
        return self.prove_cond(c)

    def feasible(self):
        """the goal is false on this path: candidate unless the path is infeasible"""
        r = self.ex.check()
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.model()
        return False, ({}, [])

    def prove_cond(self, c):
        ex = self.ex
        fk = ex.factkey(c)
        if fk is not None and fk[1] == 0:
            return (True, None) if fk[0] in ex.ALLOWED[c.op] else self.feasible()
        z = ex.enc.cond(c)
        ex.flush()
        r = ex.check(z3.Not(z))
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.lastmodel(z3.Not(z))
        # second attempt: fresh tactic
        s2 = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
        s2.set('timeout', ex.qtimeout * 3)
        for x in ex.solver.assertions():
            s2.add(x)
        s2.add(z3.Not(z))
        t = time.time()
        r = s2.check()
        ex.stats.queries += 1
        ex.stats.solver_s += time.time() - t
        if r == z3.unsat:
            ex.stats.unsat += 1
            return True, None
        if r == z3.sat:
            ex.stats.sat += 1
            return False, ({}, [])
        ex.stats.unknown += 1
        return False, ({}, [])

    def lastmodel(self, *extra):
        ex = self.ex
        try:
            return self.model()
        except z3.Z3Exception:
            return {}, []

    def prove_eq(self, a, b, nm, sub):
        ex = self.ex
        if a is b:
            # identical terms: the negated goal is 0 != 0
            ex.stats.goals += 1
            return True, None
        if sub:
            try:
                c = {}
                a, b = substitute(a, sub, c), substitute(b, sub, c)
            except ZeroDivisionError:
                return self.feasible()
        d = S.sub(a, b)
        p = None
        try:
            p = nm.numerator(nm.norm(d))
        except ZeroDivisionError:
            return self.feasible()
        except Blowup:
            p = None
        enc = ex.enc if nm is ex.nm else Encoder(nm, ex.intvars)
        if p is not None and len(p) < 3000:
            if enc is not ex.enc:
                # share the variables of the path solver
                enc.vars = ex.enc.vars
            enc.notice(d)
            z = enc.poly(p) != 0
            extra = [z] + (list(enc.side) if enc is not ex.enc else [])
            ex.flush()
            r = ex.check(*extra)
        else:
            z = ex.enc.term(d) != 0
            ex.flush()
            r = ex.check(z)
            extra = [z]
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.lastmodel()
        return False, ({}, [])

    def prove_defined(self, a):
        ex = self.ex
        seen = set()
        st = [a]
        conds = []
        while st:
            n = st.pop()
            if n.id in seen or n.const:
                continue
            seen.add(n.id)
            if n.op == 'pow':
                q = n.args[1]
                if q < 0:
                    conds.append(SymBool('==', n.args[0]))
                if q.denominator % 2 == 0:
                    conds.append(SymBool('<', n.args[0]))
            elif n.op == 'f' and n.args[0] == 'log':
                conds.append(SymBool('<=', n.args[1]))
            st.extend(x for x in n.args if type(x) is Sym)
        for c in conds:
            # a fresh solver: the path solver already assumes its own domain constraints
            enc = Encoder(ex.nm, ex.intvars)
            enc.trig = getattr(ex, 'trig', False)
            s = z3.Solver()
            s.set('timeout', ex.qtimeout)
            for name, (lo, hi, integer, nonzero) in ex.dom.items():
                z = enc.zvar(name)
                if lo is not None:
                    s.add(z >= z3.RealVal(str(lo)))
                if hi is not None:
                    s.add(z <= z3.RealVal(str(hi)))
                if nonzero:
                    s.add(z != 0)
            for x in ex.pc:
                if size_ok(x):
                    s.add(enc.cond(x))
            nb = len(enc.side)
            s.add(*enc.side)
            z = enc.cond(c)
            # domain constraints of the term under test itself are kept (they concern its subterms)
            s.add(*enc.side[nb:])
            s.add(z)
            t = time.time()
            r = s.check()
            ex.stats.queries += 1
            ex.stats.solver_s += time.time() - t
            if r == z3.unsat:
                ex.stats.unsat += 1
                continue
            if r == z3.sat:
                ex.stats.sat += 1
                m = s.model()
                env = {n: zfloat(m.eval(enc.zvar(n), model_completion=True)) for n in ex.dom}
                return False, (env, [])
            ex.stats.unknown += 1
            return False, ({}, [])
        return True, None

    # ------------------------------------------------------------- replay
    def replay_candidates(self):
        h, res = self.h, self.res
        found = {}
        for lab, env, apps, msg in self.cand:
            if lab in found:
                continue
            hit = None
            tries = []
            if env:
                tries.append((env, AppFns(apps), 0))
                tries.append((env, AppFns(), 0))
                # same discrete choices, generic reals
                keep = {k: v for k, v in env.items() if float(v).is_integer() and ('i' in k)}
                ints = {k: v for k, v in env.items() if k in self.intnames()}
                for s in range(12):
                    tries.append((ints, AppFns(), 100 + s))
                r = random.Random(7)
                for s in range(12):
                    tries.append(({k: (v if k in ints else v * (1 + 0.05 * r.gauss(0, 1)) + 1e-3 * r.gauss(0, 1)) for k, v in env.items()}, AppFns(), s))
            for s in range(60):
                tries.append((None, AppFns(), 1000 + s))
            for env2, ap, sd in tries:
                env2 = self.clip(env2)
                c, v, ab = conc_violations(h, env2, sd, ap)
                if ab or not v:
                    continue
                for l2, m2 in v:
                    if l2 not in found:
                        found[l2] = (m2, dict(c.env), ap.table)
                if lab in found or lab.startswith('exception') and any(l.startswith('exception') for l, _ in v):
                    hit = True
                    break
                if lab not in found:
                    # a different label of the same harness failed: still a real violation
                    hit = True
            if not hit:
                res.inconclusive.append('candidate %s not reproduced on the real code: %s' % (lab, msg[:600]))
        for l, (m, env, table) in found.items():
            res.violations.append((l, m, env, table, 'solver'))

    def intnames(self):
        s = set()
        for pc, goals, names, dom in self.pathdata:
            s |= {n for n, d in dom.items() if d[2]}
        s |= {n for n, d in self.ex.dom.items() if d[2]}
        return s

    def clip(self, env):
        if not env:
            return env
        dom = {}
        for _, _, _, d in self.pathdata:
            dom.update(d)
        dom.update(self.ex.dom)
        out = {}
        for k, v in env.items():
            d = dom.get(k)
            if d:
                lo, hi, integer, nz = d
                if not integer:
                    if lo is not None and hi is not None:
                        e = 1e-9 * (hi - lo)
                        v = min(max(v, lo + e), hi - e)
                    elif lo is not None and v <= lo:
                        v = lo + 1e-9
                    elif hi is not None and v >= hi:
                        v = hi - 1e-9
            out[k] = v
        return out

    # -------------------------------------------------- translation validation
    def validate(self):
        """run the real code on concrete inputs and compare with the symbolic result of the matching path"""
        h, res = self.h, self.res
        if not self.pathdata:
            return
        want = h.samples * (2 if self.tier == 'thorough' else 1)
        rnd = random.Random('%d/%s' % (self.seed, h.name))
        tries = 0
        mism = 0
        t0 = time.time()
        while res.validated < want and tries < want * 60 and time.time() - t0 < 20:
            tries += 1
            sd = rnd.randrange(1 << 30)
            c, viol, ab = conc_violations(h, None, sd)
            if ab:
                continue
            if viol:
                have = {v[0] for v in res.violations}
                for l, m in viol:
                    if l not in have:
                        res.violations.append((l, m, dict(c.env), [], 'trace validation'))
                continue
            env = dict(c.env)
            match = self.find_path(env, c.apps)
            if match is None:
                continue
            goals = match
            if len(goals) != len(c.goals):
                mism += 1
                if mism > 2:
                    res.inconclusive.append('trace validation: goal lists differ (%d, %d)' % (len(goals), len(c.goals)))
                    break
                continue
            cache = {}
            bad = None
            if h.validate:
                loose = getattr(c, 'numdiff', False)
                for gs, gc in zip(goals, c.goals):
                    if gs.kind not in ('eq', 'le', 'lt', 'def'):
                        continue
                    for x, y in ((gs.a, gc.a), (gs.b, gc.b)):
                        x = tosym(x) if not isinstance(x, str) and x is not None else None
                        if x is None or y is None or isinstance(y, str):
                            continue
                        if any(v.startswith('@uninit') for v in free_vars([x])):
                            continue
                        v = evalf(x, env, cache, c.apps)
                        try:
                            y = float(y)
                        except Exception:
                            continue
                        tol = max(gs.tol, 1e-6) * (1000 if loose else 10)
                        if math.isnan(v) or math.isinf(v) or math.isinf(y):
                            continue
                        if abs(v - y) > tol * (1e-2 + max(abs(v), abs(y))):
                            bad = '%s: encoding %.10g, real code %.10g' % (gs.label, v, y)
                            break
                    if bad:
                        break
            if bad:
                mism += 1
                if mism > 2:
                    res.inconclusive.append('trace validation mismatch: ' + bad)
                    break
                continue
            res.validated += 1
            if len(res.samples) < 2:
                res.samples.append({'harness': h.name, 'input': {k: env[k] for k in list(env)[:8]}, 'goals': len(goals)})
        if res.validated == 0 and not res.violations and not res.inconclusive:
            res.inconclusive.append('trace validation: no concrete run matched a symbolic path (%d tries)' % tries)

    def find_path(self, env, apps):
        for pc, goals, names, dom in self.pathdata:
            if not names <= set(env):
                continue
            cache = {}
            ok = True
            for c in pc:
                v = evalf(c.a, env, cache, apps)
                if math.isnan(v):
                    ok = False
                    break
                if c.op == '==':
                    t = abs(v) < 1e-12
                elif c.op == '!=':
                    t = abs(v) >= 1e-12
                else:
                    t = v < 0 or (v <= 0 and c.op == '<=')
                if not t:
                    ok = False
                    break
            if ok:
                return goals
        return None

    # --------------------------------------------------------- functions
    def monitor(self, on):
        mon = sys.monitoring
        tool = 4
        if on:
            try:
                mon.use_tool_id(tool, 'symbf')
            except ValueError:
                pass
            fs = self.res.functions

            def start(code, off):
                if code.co_filename.startswith(loader.SRC):
                    fs.add('%s:%s' % (os.path.relpath(code.co_filename, loader.SRC), code.co_qualname))
                return mon.DISABLE
            mon.register_callback(tool, mon.events.PY_START, start)
            mon.set_events(tool, mon.events.PY_START)
            mon.restart_events()
        else:
            mon.set_events(tool, 0)
            mon.register_callback(tool, mon.events.PY_START, None)
            mon.free_tool_id(tool)


def size_ok(c):
    return True


def tbshort(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join('%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))


def gshow(g):
    try:
        return '%s %s %s' % (g.kind, g.a if not isinstance(g.a, Sym) else S.show(g.a, 300), g.b if not isinstance(g.b, Sym) else S.show(g.b, 300))
    except Exception:
        return g.kind
