"""Path exploration and the z3 back end."""
import math
import time
import random
from fractions import Fraction
import z3
from .sym import (Sym, SymBool, EX, PathAbort, Unsupported, const, evalf, free_vars, mul, add, neg,
                  ZERO, ONE, _mk, var, size, sub)
from .norm import Norm, Blowup, _ri


def zfrac(q):
    q = Fraction(q)
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)


INVERSE = {'exp': 'log', 'log': 'exp', 'erf': 'erfinv', 'erfinv': 'erf', 'tan': 'arctan', 'arctan': 'tan'}
ODD = ('arctan', 'erf', 'erfinv', 'tanh', 'sinh')


class Encoder(object):
    """DAG -> z3 terms.  Transcendental applications become fresh reals keyed by their canonical
    argument (so equal arguments share a variable), constrained by axioms that are true of the function."""

    def __init__(self, nm, intvars):
        self.nm = nm
        self.intvars = intvars
        self.vars = {}
        self.memo = {}
        self.side = []          # axioms / domain constraints
        self.fapps = {}         # fname -> list of (argz, valz)
        self.fkey = {}
        self.nside = 0
        self.axioms = 0
        self.trig = False
        self.prober = None
        self.whole = False
        self.noticed = set()
        self.kept = []

    def zvar(self, name):
        v = self.vars.get(name)
        if v is None:
            if name in self.intvars:
                v = z3.ToReal(z3.Int(name))
            else:
                v = z3.Real(name)
            if name == '@pi':
                self.side.append(v > zfrac(Fraction('3.14159265358979')))
                self.side.append(v < zfrac(Fraction('3.14159265358980')))
            self.vars[name] = v
        return v

    def zpow(self, z, e):
        """z ** e for integer or rational e"""
        e = Fraction(e)
        if e.denominator == 1:
            n = abs(int(e))
            r = z
            for _ in range(n - 1):
                r = r * z
            if e < 0:
                return self.inv(r)
            return r
        # root
        key = ('root', z.get_id(), e.denominator)
        r = self.fkey.get(key)
        if r is None:
            r = (z3.FreshReal('root'), z)
            self.fkey[key] = r
            d = e.denominator
            t = r[0]
            for _ in range(d - 1):
                t = t * r[0]
            self.side += [t == z, r[0] >= 0, z >= 0]
        return self.zpow(r[0], e.numerator)

    def inv(self, z):
        key = ('inv', z.get_id())
        r = self.fkey.get(key)
        if r is None:
            r = (z3.FreshReal('inv'), z)
            self.fkey[key] = r
            self.side.append(r[0] * z == 1)
        return r[0]

    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = None
            for i, e in m:
                z = self.zpow(self.zatom(self.nm.atoms[i]), e)
                t = z if t is None else t * z
            if t is None:
                t = zfrac(c)
            elif c != 1:
                t = zfrac(c) * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zatom(self, at):
        r = self.fkey.get(('atom', at.idx))
        if r is not None:
            return r
        if at.kind == 'v':
            r = self.zvar(at.name)
        elif at.kind == 'P':
            r = self.poly(at.poly)
        elif at.kind == 'prime':
            r = zfrac(at.name)
        elif at.kind == 'logprime':
            r = self.app('log', [z3.RealVal(at.name)], ('logp', at.name), concrete=math.log(at.name))
        elif at.kind == 'E':
            r = self.app('exp', [self.poly({at.name: Fraction(1)})], ('E', at.name))
        else:
            r = self.app(at.name, [self.poly(p) for p in at.poly], (at.name, tuple(self.nm.key(p) for p in at.poly)))
        self.fkey[('atom', at.idx)] = r
        return r

    def app(self, name, zargs, key, concrete=None):
        r = self.fkey.get(key)
        if r is not None:
            return r
        r = z3.FreshReal('f')
        self.fkey[key] = r
        S = self.side
        a = zargs[0] if zargs else None
        lst = self.fapps.setdefault(name, [])
        if concrete is not None:
            S += [r > zfrac(Fraction(concrete) - Fraction(1, 10**9)), r < zfrac(Fraction(concrete) + Fraction(1, 10**9))]
        if name == 'exp':
            S += [r > 0, r >= 1 + a, (a > 0) == (r > 1), (a == 0) == (r == 1)]
        elif name == 'log':
            S += [a > 0, r <= a - 1, (a > 1) == (r > 0), (a == 1) == (r == 0)]
        elif name in ('sin', 'cos'):
            other = 'cos' if name == 'sin' else 'sin'
            S += [r <= 1, r >= -1]
            o = self.fkey.get((other,) + key[1:])
            if o is not None:
                S.append(r * r + o * o == 1)
            if self.trig:
                pi = self.zvar('@pi')
                if name == 'cos':
                    S += [z3.Implies(z3.And(2 * a < pi, 2 * a > -pi), r > 0), z3.Implies(z3.And(2 * a <= pi, 2 * a >= -pi), r >= 0)]
                else:
                    S += [z3.Implies(z3.And(a > 0, a < pi), r > 0), z3.Implies(z3.And(a < 0, a > -pi), r < 0),
                          z3.Implies(a > 0, r < a), z3.Implies(a < 0, r > a), z3.Implies(a == 0, r == 0)]
        elif name == 'arctan':
            pi = self.zvar('@pi')
            S += [2 * r < pi, 2 * r > -pi, (a > 0) == (r > 0), (a == 0) == (r == 0)]
        elif name == 'erf':
            S += [r < 1, r > -1, (a > 0) == (r > 0), (a == 0) == (r == 0)]
        elif name == 'erfinv':
            S += [a < 1, a > -1, (a > 0) == (r > 0), (a == 0) == (r == 0)]
        elif name == 'tan':
            S.append(self.intan(z3.And((a > 0) == (r > 0), (a == 0) == (r == 0)), a))
        elif name == 'tanh':
            S += [r < 1, r > -1, (a > 0) == (r > 0), (a == 0) == (r == 0)]
        elif name == 'floor':
            k = z3.FreshInt('fl')
            S += [r == z3.ToReal(k), r <= a, a < r + 1]
        for zb, rb in lst[-24:]:
            b = zb[0] if zb else None
            if name in ('exp', 'log'):
                S += [(a < b) == (r < rb), (a == b) == (r == rb)]
            elif name in ODD:
                S += [(a < b) == (r < rb), (a == b) == (r == rb), (a < -b) == (r < -rb), (a == -b) == (r == -rb)]
            elif name == 'tan':
                ax = z3.And((a < b) == (r < rb), (a == b) == (r == rb), (a < -b) == (r < -rb), (a == -b) == (r == -rb))
                S.append(self.intan(ax, a, b))
            elif name != 'floor':
                S.append(z3.Implies(z3.And([x == y for x, y in zip(zargs, zb)]), r == rb))
            self.axioms += 1
        inv = INVERSE.get(name)
        if inv:
            # r = f(a), rb = f^-1(b):  a < rb  <=>  r < b
            for zb, rb in self.fapps.get(inv, [])[-24:]:
                b = zb[0]
                ax = z3.And((a < rb) == (r < b), (a == rb) == (r == b))
                if name in ODD or name == 'tan':
                    ax = z3.And(ax, (a < -rb) == (r < -b), (a == -rb) == (r == -b))
                if name == 'tan':
                    ax = self.intan(ax, a)
                elif inv == 'tan':
                    ax = self.intan(ax, b)
                S.append(ax)
                self.axioms += 1
        lst.append((zargs, r))
        return r

    def intan(self, ax, *args):
        """the axiom, under the condition that the arguments are in the principal range of tan"""
        pi = self.zvar('@pi')
        todo = []
        for a in args:
            key = ('tanrange', a.get_id())
            if key not in self.fkey:
                c = z3.And(2 * a < pi, 2 * a > -pi)
                self.fkey[key] = (self.prober is not None and self.prober(z3.Not(c)), a)
                if self.fkey[key][0]:
                    self.side += [2 * a < pi, 2 * a > -pi]
            if not self.fkey[key][0]:
                todo += [2 * a < pi, 2 * a > -pi]
        return z3.Implies(z3.And(todo), ax) if todo else ax

    def notice(self, n):
        """log and exp nodes whose normal form splits them (log of a product, exp of a sum): also known as a whole"""
        if not self.whole:
            return
        st = [n]
        while st:
            x = st.pop()
            if x.id in self.noticed or x.const:
                continue
            self.noticed.add(x.id)
            self.kept.append(x)
            st.extend(y for y in x.args if type(y) is Sym)
            if x.op != 'f' or x.args[0] not in ('log', 'exp') or size(x) > 200:
                continue
            try:
                pa = self.nm.norm(x.args[1])
                p = self.nm.norm(x)
            except (Blowup, ZeroDivisionError):
                continue
            if len(p) > 6 or len(pa) > 12 or not pa:
                continue
            key = ('whole', x.args[0], self.nm.key(pa))
            if key in self.fkey:
                continue
            if x.args[0] == 'log' and len(p) == 1 or x.args[0] == 'exp' and len(pa) == 1 and list(pa.values())[0] == 1:
                continue
            r = self.app(x.args[0], [self.poly(pa)], key)
            self.side.append(r == self.poly(p))

    def term(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        self.notice(n)
        r = None
        if size(n) < 400:
            try:
                p = self.nm.norm(n)
                if len(p) <= 16 and not any(self.nm.atoms[i].kind in ('E', 'P') for m in p for i, e in m):
                    r = self.poly(p)
            except (Blowup, ZeroDivisionError):
                pass
        if r is None:
            r = self.struct(n)
        self.memo[n.id] = r
        return r

    def struct(self, n):
        if n.op == 'c':
            return zfrac(n.args[0])
        if n.op == 'v':
            return self.zvar(n.args[0])
        if n.op == '+':
            return self.term(n.args[0]) + self.term(n.args[1])
        if n.op == '*':
            return self.term(n.args[0]) * self.term(n.args[1])
        if n.op == 'pow':
            return self.zpow(self.term(n.args[0]), n.args[1])
        zargs = [self.term(a) for a in n.args[1:]]
        try:
            keys = []
            for a in n.args[1:]:
                keys.append(self.nm.key(self.nm.clear(self.nm.norm(a))))
            key = (n.args[0], tuple(keys))
        except (Blowup, ZeroDivisionError):
            key = ('node', n.id)
        return self.app(n.args[0], zargs, key)

    def cond(self, c):
        t = self.term(c.a)
        if c.op == '<':
            return t < 0
        if c.op == '<=':
            return t <= 0
        if c.op == '==':
            return t == 0
        return t != 0


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.goals = 0
        self.skipped = 0


class Explorer(object):
    def __init__(self, maxpaths=2000, qtimeout=4000, deadline=None):
        self.maxpaths = maxpaths
        self.qtimeout = qtimeout
        self.stats = Stats()
        self.intvars = {}
        self.deadline = deadline
        self.dom = {}

    # ------------------------------------------------------------ per run
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.facts = {}
        self.intvars = {}
        self.dom = {}
        self.positive = set()
        self.nm = Norm()
        self.nm.expand = getattr(self, 'expand', False)
        self.enc = Encoder(self.nm, self.intvars)
        self.nm.signof = self.signof
        self.enc.trig = getattr(self, 'trig', False)
        self.enc.whole = getattr(self, 'whole', False)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qtimeout)
        self.enc.prober = lambda c: self.check(c) == z3.unsat
        self.sidepos = 0
        self.unknowns = 0

    def declare(self, name, lo=None, hi=None, lostrict=True, histrict=True, integer=False, nonzero=False):
        self.dom[name] = (lo, hi, integer, nonzero)
        if integer:
            self.intvars[name] = (lo, hi)
        v = var(name)
        if lo is not None and (lo > 0 or (lo == 0 and lostrict)):
            self.nm.positive.add(name)
            self.positive.add(name)
        z = self.enc.zvar(name)
        if lo is not None:
            self.solver.add(z > zfrac(snapf(lo)) if lostrict and not integer else z >= zfrac(snapf(lo)))
        if hi is not None:
            self.solver.add(z < zfrac(snapf(hi)) if histrict and not integer else z <= zfrac(snapf(hi)))
        if nonzero:
            self.solver.add(z != 0)
        return v

    def signof(self, p):
        """+1 or -1 when the path condition knows the sign of a polynomial, otherwise 0"""
        z = self.enc.poly(p)
        if self.check(z <= 0) == z3.unsat:
            return 1
        return -1 if self.check(z >= 0) == z3.unsat else 0

    def flush(self):
        while self.sidepos < len(self.enc.side):
            self.solver.add(self.enc.side[self.sidepos])
            self.sidepos += 1

    def check(self, *extra):
        self.flush()
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported('time limit of the harness reached')
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    # ----------------------------------------------------------- branching
    def factkey(self, c):
        try:
            if size(c.a) > 600:
                return None
            p = self.nm.norm(c.a)
        except (Blowup, ZeroDivisionError):
            return None
        if not p:
            return 0, 0
        if len(p) == 1 and () in p:
            return 1 if p[()] > 0 else -1, 0
        if len(p) > 60:
            return None
        lead = p[max(p)]
        q = self.nm.pscale(p, 1 / abs(lead))
        s = 1
        if lead < 0:
            q = self.nm.pscale(q, -1)
            s = -1
        return self.nm.key(q), s

    ALLOWED = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}}

    def decide(self, c, assume=False):
        fk = self.factkey(c)
        allowed = self.ALLOWED[c.op]
        if fk is not None:
            k, s = fk
            if s == 0:
                return k in allowed
            al = {x * s for x in allowed}
            cur = self.facts.get(k, {-1, 0, 1})
            if cur <= al:
                return True
            if not (cur & al):
                return False
        i = len(self.trace)
        if i < len(self.prefix):
            opts, idx = self.prefix[i]
            val = opts[idx]
            self.trace.append((opts, idx))
        else:
            z = self.enc.cond(c)
            self.flush()
            rt = self.check(z)
            if rt == z3.unsat:
                val = False
                opts = [False]
            else:
                rf = self.check(z3.Not(z))
                if rf == z3.unsat:
                    val = True
                    opts = [True]
                else:
                    opts = [True, False]
                    val = True
                if rt == z3.unknown or rf == z3.unknown:
                    self.unknowns += 1
            self.trace.append((opts, 0))
            self.stats.branches += 1
        self.assume(c if val else _neg(c), fk)
        return val

    def assume(self, c, fk='?'):
        if fk == '?':
            fk = self.factkey(c)
            allowed = self.ALLOWED[c.op]
        else:
            allowed = self.ALLOWED[c.op]
            if fk is not None and fk[1] != 0:
                # c may be the negation (with a negated left side for < and <=)
                fk = self.factkey(c)
        if fk is not None and fk[1] != 0:
            k, s = fk
            self.facts[k] = self.facts.get(k, {-1, 0, 1}) & {x * s for x in allowed}
            if self.facts[k] == {1} and len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
                at = self.nm.atoms[k[0][0][0][0]]
                if at.kind == 'v':
                    self.positive.add(at.name)
        self.pc.append(c)
        self.solver.add(self.enc.cond(c))
        self.flush()

    def require(self, c):
        """harness assumption"""
        if isinstance(c, SymBool):
            fk = self.factkey(c)
            if fk is not None and fk[1] == 0:
                if fk[0] not in self.ALLOWED[c.op]:
                    raise PathAbort('assumption')
                return
            self.assume(c)
            i = len(self.trace)
            if i >= len(self.prefix):
                if self.check() == z3.unsat:
                    raise PathAbort('assumption')
        elif not c:
            raise PathAbort('assumption')

    def concretize(self, s):
        i = len(self.trace)
        fk = None
        if i < len(self.prefix):
            opts, idx = self.prefix[i]
        else:
            z = self.enc.term(s)
            self.flush()
            opts = []
            self.solver.push()
            while True:
                r = self.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown or len(opts) >= 130:
                    self.solver.pop()
                    raise Unsupported('cannot enumerate the values of an index')
                m = self.solver.model()
                v = m.eval(z, model_completion=True)
                k = v.as_fraction()
                if k.denominator != 1:
                    self.solver.pop()
                    raise Unsupported('non-integral index')
                opts.append(int(k))
                self.solver.add(z != v)
            self.solver.pop()
            if not opts:
                raise PathAbort('infeasible')
            opts.sort()
            idx = 0
            self.stats.branches += 1
        self.trace.append((opts, idx))
        k = opts[idx]
        self.assume(SymBool('==', sub(s, const(Fraction(k)))))
        return k

    FLOORSPAN = 5

    def floorcase(self, a):
        """case split on the floor of a when the path leaves only a few values; None: keep floor as a function"""
        i = len(self.trace)
        if i < len(self.prefix):
            opts, idx = self.prefix[i]
        else:
            z = self.enc.term(a)
            self.flush()
            opts = [None]
            r = self.check()
            if r == z3.sat:
                v = zfloat(self.solver.model().eval(z, model_completion=True))
                k0 = math.floor(v)
                W = self.FLOORSPAN
                if self.check(z3.Or(z < k0 - W, z >= k0 + W + 1)) == z3.unsat:
                    opts = []
                    for k in range(k0 - W, k0 + W + 1):
                        if self.check(z >= k, z < k + 1) != z3.unsat:
                            opts.append(k)
            elif r == z3.unsat:
                raise PathAbort('infeasible')
            idx = 0
            self.stats.branches += 1
        self.trace.append((opts, idx))
        k = opts[idx]
        if k is not None:
            self.assume(SymBool('<=', sub(const(Fraction(k)), a)))
            self.assume(SymBool('<', sub(a, const(Fraction(k + 1)))))
        return k

    def pick(self, n):
        """harness-level case split 0..n-1 (a symbolic choice, all values explored)"""
        i = len(self.trace)
        if i < len(self.prefix):
            opts, idx = self.prefix[i]
        else:
            opts, idx = list(range(n)), 0
        self.trace.append((opts, idx))
        return opts[idx]

    # ------------------------------------------------------------- the loop
    def explore(self, fn, onpath):
        prefix = []
        while True:
            if self.stats.paths >= self.maxpaths:
                raise Unsupported('more than %d paths' % self.maxpaths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the harness reached')
            self.start(prefix)
            EX.current = self
            try:
                try:
                    out = fn()
                    exc = None
                except PathAbort:
                    out, exc = None, 'abort'
                if exc != 'abort':
                    self.stats.paths += 1
                    stop = onpath(out)
                    if stop:
                        return
            finally:
                EX.current = None
            prefix = self.trace
            while prefix and prefix[-1][1] + 1 >= len(prefix[-1][0]):
                prefix = prefix[:-1]
            if not prefix:
                return
            o, i = prefix[-1]
            prefix = prefix[:-1] + [(o, i + 1)]

    # -------------------------------------------------------------- models
    def model_env(self):
        """float values of the declared variables in the current solver model"""
        m = self.solver.model()
        env = {}
        for name in self.dom:
            z = self.enc.vars.get(name)
            if z is None:
                continue
            v = m.eval(z, model_completion=True)
            env[name] = zfloat(v)
        return env


def zfloat(v):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = v.as_fraction()
        return float(f)
    except Exception:
        try:
            return float(v.as_decimal(20).rstrip('?'))
        except Exception:
            return 0.0


def snapf(x):
    from .sym import snap
    return snap(x)


def _neg(c):
    from .sym import negate
    return negate(c)


def substitute(n, mp, cache=None):
    """replace variables (by name) in a DAG"""
    from .sym import powc, fun, mul, add
    if cache is None:
        cache = {}

    def rec(x):
        r = cache.get(x.id)
        if r is not None:
            return r
        if x.op == 'c':
            r = x
        elif x.op == 'v':
            r = mp.get(x.args[0], x)
        elif x.op == '+':
            r = add(rec(x.args[0]), rec(x.args[1]))
        elif x.op == '*':
            r = mul(rec(x.args[0]), rec(x.args[1]))
        elif x.op == 'pow':
            r = powc(rec(x.args[0]), x.args[1])
        else:
            a = [rec(y) for y in x.args[1:]]
            r = fun(x.args[0], *a) if not isinstance(x.args[0], tuple) else _mk('f', (x.args[0],) + tuple(a))
        cache[x.id] = r
        return r
    return rec(n)
