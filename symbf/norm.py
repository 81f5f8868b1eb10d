"""Algebraic normal form of DAG nodes: sums of monomials over canonical atoms.

poly  = dict  mono -> Fraction
mono  = tuple of (atom_index, exponent) sorted by atom index; exponents int or Fraction, may be negative
atoms = variables, canonicalised function applications, E-atoms exp(mono), P-atoms (a polynomial
        that occurs under a negative or fractional power), primes under fractional powers, pi.
"""
import math
from fractions import Fraction
from .sym import Sym, const, evalf, fun, add, mul, ZERO, ONE, PI, Unsupported, symlog

F0 = Fraction(0)
F1 = Fraction(1)
MAXTERMS = 60000


class Blowup(Exception):
    pass


class Atom(object):
    __slots__ = ('kind', 'name', 'args', 'idx', 'pos', 'poly')


def _factor(n):
    out = []
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    if n > 1:
        out.append(n)
    return out


class Norm(object):
    def __init__(self, positive=()):
        self.atoms = []
        self.table = {}
        self.memo = {}
        self.positive = set(positive)
        self.keep = []
        self.signof = None
        self.expand = False         # write the sine of a sum as products of sines, and that of an arctangent in closed form

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, name, args=(), pos=False, poly=None):
        key = (kind, name, args)
        a = self.table.get(key)
        if a is None:
            a = Atom()
            a.kind, a.name, a.args, a.pos, a.poly = kind, name, args, pos, poly
            a.idx = len(self.atoms)
            self.atoms.append(a)
            self.table[key] = a
        return a

    def key(self, p):
        return tuple(sorted(p.items()))

    # ----------------------------------------------------------- polynomial
    def padd(self, a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, F0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    def pscale(self, a, c):
        if c == 0:
            return {}
        return {m: v * c for m, v in a.items()}

    def mmul(self, m1, m2):
        """product of two monomials -> poly (usually a single term)."""
        if not m1:
            return {m2: F1}
        if not m2:
            return {m1: F1}
        d = dict(m1)
        special = False
        for i, e in m2:
            s = d.get(i, 0) + e
            if s == 0:
                d.pop(i, None)
            else:
                d[i] = s
                k = self.atoms[i].kind
                if k in ('P', 'prime', 'sin', 'sqabs'):
                    special = True
        if not special:
            return {tuple(sorted(d.items())): F1}
        return self.reduce_mono(d)

    def reduce_mono(self, d):
        c = F1
        expand = []
        for i in list(d):
            at = self.atoms[i]
            e = d[i]
            if at.kind == 'prime':
                n = math.floor(e)
                if n:
                    c *= Fraction(at.name) ** n
                    if e - n:
                        d[i] = e - n
                    else:
                        del d[i]
            elif at.kind == 'P':
                if e >= 1:
                    n = math.floor(e)
                    if e - n:
                        d[i] = e - n
                    else:
                        del d[i]
                    expand.append((at, n))
            elif at.kind == 'sin':
                if Fraction(e).denominator == 1 and e >= 2:
                    n = int(e) // 2
                    if e - 2 * n:
                        d[i] = e - 2 * n
                    else:
                        del d[i]
                    ci = self.atom('cos', 'cos', at.args, poly=at.poly).idx
                    expand.append(({(): F1, ((ci, 2),): -F1}, n))
        r = {tuple(sorted(d.items())): c}
        for at, n in expand:
            p = at if isinstance(at, dict) else at.poly
            r = self.pmul(r, self.ppow(p, n))
        return r

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1 and () in a:
            return self.pscale(b, a[()])
        r = {}
        if len(a) * len(b) > 40 * MAXTERMS:
            raise Blowup()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                pr = self.mmul(m1, m2)
                cc = c1 * c2
                for m, c in pr.items():
                    s = r.get(m, F0) + c * cc
                    if s:
                        r[m] = s
                    else:
                        r.pop(m, None)
        if len(r) > MAXTERMS:
            raise Blowup()
        return r

    def ppow(self, a, n):
        r = {(): F1}
        while n:
            if n & 1:
                r = self.pmul(r, a)
            n >>= 1
            if n:
                a = self.pmul(a, a)
        return r

    # ------------------------------------------------------------- fractional
    def monopow(self, m, q):
        """(mono)^q with q Fraction -> poly or None when the sign is unknown."""
        if Fraction(q).denominator == 1:
            return self.reduce_mono({i: e * int(q) for i, e in m})
        for i, e in m:
            if not self.atoms[i].pos:
                return None
        return self.reduce_mono({i: _ri(e * q) for i, e in m})

    def constpow(self, c, q):
        """c^q -> poly (c>0 or q integral)"""
        if Fraction(q).denominator == 1:
            return {(): c ** int(q)}
        if c <= 0:
            return None
        d = {}
        for p in _factor(c.numerator):
            i = self.atom('prime', p, pos=True).idx
            d[i] = d.get(i, 0) + q
        for p in _factor(c.denominator):
            i = self.atom('prime', p, pos=True).idx
            d[i] = d.get(i, 0) - q
        d = {i: e for i, e in d.items() if e != 0}
        return self.reduce_mono(d)

    def content(self, p):
        """common monomial (only the exponents shared by all terms) of a poly."""
        it = iter(p)
        com = dict(next(it))
        for m in it:
            dm = dict(m)
            for i in list(com):
                if i not in dm:
                    e = 0
                else:
                    e = dm[i]
                if com[i] > 0 and e > 0:
                    com[i] = min(com[i], e)
                elif com[i] < 0 and e < 0:
                    com[i] = max(com[i], e)
                else:
                    com[i] = 0
                    del com[i]
            # negative exponents in m not in com: handled by clearing below
        # also factor out negative powers present in some terms only
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0 and e < neg.get(i, 0):
                    neg[i] = e
        for i, e in neg.items():
            com[i] = min(com.get(i, 0), e)
        return {i: e for i, e in com.items() if e}

    def pdivmono(self, p, com):
        if not com:
            return p
        inv = tuple(sorted((i, -e) for i, e in com.items()))
        r = {}
        for m, c in p.items():
            for m2, c2 in self.mmul(m, inv).items():
                s = r.get(m2, F0) + c * c2
                if s:
                    r[m2] = s
                else:
                    r.pop(m2, None)
        return r

    def polypow(self, p, q):
        if not p:
            if q > 0:
                return {}
            raise ZeroDivisionError
        if q > 0 and Fraction(q).denominator == 1:
            return self.ppow(p, int(q))
        if len(p) > 1:
            p = self.clear(p)
            if not p:
                if q > 0:
                    return {}
                raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            a = self.constpow(c, q)
            b = self.monopow(m, q)
            if a is not None and b is not None:
                return self.pmul(a, b)
            return self.patom(p, q)
        com = self.content(p)
        integral = Fraction(q).denominator == 1
        if not integral:
            # only pull out what is known to be positive, or even powers are left inside
            com = {i: e for i, e in com.items() if self.atoms[i].pos}
        rest = self.pdivmono(p, com)
        out = {(): F1}
        if com:
            out = self.monopow(tuple(sorted(com.items())), q)
        lead = rest[max(rest)]
        if integral:
            rest = self.pscale(rest, 1 / lead)
            out = self.pscale(out, lead ** int(q))
        else:
            al = abs(lead)
            rest = self.pscale(rest, 1 / al)
            out = self.pmul(out, self.constpow(al, q))
            # perfect square of a single-variable-sign polynomials are left as atoms
        return self.pmul(out, self.patom(rest, q))

    def patom(self, p, q):
        pos = self.known_positive(p)
        a = self.atom('P', self.key(p), pos=pos, poly=p)
        return self.reduce_mono({a.idx: _ri(q)})

    def known_positive(self, p):
        """all coefficients positive and all monomials positive (squares or positive atoms)."""
        strict = False
        for m, c in p.items():
            if c <= 0:
                return False
            st = True
            for i, e in m:
                if self.atoms[i].pos:
                    continue
                if Fraction(e).denominator == 1 and int(e) % 2 == 0:
                    st = False
                    continue
                return False
            strict = strict or st
        return strict

    # ------------------------------------------------------------ clearing
    def clear(self, p):
        """Rewrite p so that common P-atom denominators cancel where they divide the numerator."""
        ps = self.patoms_neg(p)
        if not ps:
            return p
        for i in ps:
            for _ in range(8):
                k = min((dict(m).get(i, 0) for m in p), default=0)
                if k >= 0 or Fraction(k).denominator != 1:
                    break
                n = self.mulatom(p, i, -k)
                qn = self.exactdiv(n, self.atoms[i].poly)
                if qn is None:
                    # canonical: N * P^k with N free of P
                    p = self.mulatom(n, i, k)
                    break
                p = self.mulatom(qn, i, k + 1)
        return p

    def patoms_neg(self, p):
        s = set()
        for m in p:
            for i, e in m:
                if e < 0 and self.atoms[i].kind == 'P':
                    s.add(i)
        return sorted(s)

    def mulatom(self, p, i, k):
        mm = ((i, k),) if k else ()
        r = {}
        for m, c in p.items():
            for m2, c2 in self.mmul(m, mm).items():
                s = r.get(m2, F0) + c * c2
                if s:
                    r[m2] = s
                else:
                    r.pop(m2, None)
        return r

    def exactdiv(self, n, d):
        """n / d when exact (both Laurent polys), else None."""
        if not n:
            return {}
        if len(n) * len(d) > 4000:
            return None
        ld = max(d)
        # dense ordering: use degree vectors over the involved atoms
        idx = sorted({i for m in list(n) + list(d) for i, e in m})
        pos = {i: k for k, i in enumerate(idx)}

        def vec(m):
            v = [0] * len(idx)
            for i, e in m:
                v[pos[i]] = e
            return tuple(v)
        dn = {vec(m): c for m, c in n.items()}
        dd = {vec(m): c for m, c in d.items()}
        lead = max(dd)
        lc = dd[lead]
        q = {}
        steps = 0
        while dn:
            steps += 1
            if steps > 400:
                return None
            t = max(dn)
            e = tuple(x - y for x, y in zip(t, lead))
            c = dn[t] / lc
            q[e] = c
            for m, cc in dd.items():
                mm = tuple(x + y for x, y in zip(m, e))
                s = dn.get(mm, F0) - c * cc
                if s:
                    dn[mm] = s
                else:
                    dn.pop(mm, None)
            if dn and max(dn) >= t:
                return None
        # the quotient must be polynomial wherever n and d are
        low = [min([0] + [vec(m)[k] for m in n]) for k in range(len(idx))]
        for e in q:
            if any(x < l for x, l in zip(e, low)):
                return None
        return {tuple((i, _ri(x)) for i, x in zip(idx, e) if x): c for e, c in q.items()}

    def numerator(self, p):
        """clear all negative powers of P-atoms and all negative exponents; zero iff p is zero."""
        for _ in range(40):
            mins = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i].kind == 'P':
                        mins[i] = min(mins.get(i, 0), e)
            todo = {i: k for i, k in mins.items() if k < 0}
            if not todo:
                break
            i = min(todo, key=lambda j: len(self.atoms[j].poly))
            k = todo[i]
            p = self.mulatom(p, i, -k)
        else:
            raise Blowup()
        return p

    # --------------------------------------------------------------- normal form
    def norm(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in x.args if type(a) is Sym and a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[x.id] = self._norm1(x)
            self.keep.append(x)
        return self.memo[n.id]

    def _norm1(self, x):
        M = self.memo
        if x.op == 'c':
            return {(): x.args[0]} if x.args[0] else {}
        if x.op == 'v':
            nm = x.args[0]
            a = self.atom('v', nm, pos=(nm == '@pi' or nm in self.positive))
            return {((a.idx, 1),): F1}
        if x.op == '+':
            return self.padd(M[x.args[0].id], M[x.args[1].id])
        if x.op == '*':
            return self.pmul(M[x.args[0].id], M[x.args[1].id])
        if x.op == 'pow':
            return self.polypow(M[x.args[0].id], x.args[1])
        name = x.args[0]
        args = [self.clear(M[a.id]) for a in x.args[1:]]
        if name == 'exp':
            return self.nexp(args[0])
        if name == 'log':
            return self.nlog(args[0])
        if name in ('sin', 'cos'):
            return self.ntrig(name, args[0])
        if name in ('arctan', 'erf', 'erfinv', 'arcsin', 'sinh', 'tanh', 'tan'):
            p = args[0]
            s = 1
            if not p:
                return {}
            inv = {'erf': 'erfinv', 'erfinv': 'erf', 'tan': 'arctan'}.get(name)
            if inv and len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                    at = self.atoms[m[0][0]]
                    if at.kind == 'f' and at.name == inv:
                        return self.pscale(at.poly[0], c)
            if p[max(p)] < 0:
                p = self.pscale(p, -1)
                s = -1
            if p == {(): F1} and name == 'arctan':
                a = self.atom('v', '@pi', pos=True)
                return {((a.idx, 1),): Fraction(s, 4)}
            return self.funatom(name, (p,), s)
        return self.funatom(name, tuple(args), 1)

    def funatom(self, name, ps, sign, kind='f', pos=False):
        keys = tuple(self.key(p) for p in ps)
        a = self.table.get((kind, name, keys))
        if a is None:
            # congruence: an existing application with provably equal arguments
            if any(self.haspatom(p) for p in ps):
                for b in self.atoms:
                    if b.kind == kind and b.name == name and b.poly is not None and len(b.poly) == len(ps):
                        if all(self.peq(p, q) for p, q in zip(ps, b.poly)):
                            self.table[(kind, name, keys)] = b
                            a = b
                            break
            if a is None:
                a = self.atom(kind, name, keys, pos=pos, poly=ps)
        return {((a.idx, 1),): Fraction(sign)}

    def haspatom(self, p):
        return any(self.atoms[i].kind == 'P' for m in p for i, e in m)

    def peq(self, p, q):
        d = self.padd(p, self.pscale(q, -1))
        if not d:
            return True
        try:
            return not self.numerator(d)
        except Blowup:
            return False

    def nexp(self, p):
        out = {(): F1}
        whole = {}
        for m, c in p.items():
            # c * log(a) with m a single log atom
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'f' and self.atoms[m[0][0]].name == 'log':
                base = self.atoms[m[0][0]].poly[0]
                out = self.pmul(out, self.polypow(base, c))
                continue
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'logprime':
                out = self.pmul(out, self.constpow(Fraction(self.atoms[m[0][0]].name), c))
                continue
            # symbolic exponents  e * log(a): keep as E-atom of the monomial
            a = self.atom('E', m, pos=True)
            out = self.pmul(out, {((a.idx, _ri(c)),): F1})
        return out

    def nlog(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) > 1:
            com = self.content(p)
            com = {i: e for i, e in com.items() if self.atoms[i].pos}
            rest = self.pdivmono(p, com)
            lead = abs(rest[max(rest)])
            rest = self.pscale(rest, 1 / lead)
            cm = tuple(sorted(com.items()))
            r = self.funatom('log', (rest,), 1)
        else:
            (m, lead), = p.items()
            if lead < 0:
                return self.funatom('log', (p,), 1)
            cm = tuple((i, e) for i, e in m if self.atoms[i].pos)
            rm = tuple((i, e) for i, e in m if not self.atoms[i].pos)
            if len(rm) == 1 and Fraction(rm[0][1]).denominator == 1:
                # log(x^n), n odd: x > 0 where defined
                if int(rm[0][1]) % 2:
                    r = self.pscale(self.funatom('log', ({((rm[0][0], 1),): F1},), 1), Fraction(rm[0][1]))
                else:
                    r = self.pscale(self.funatom('log', ({((rm[0][0], 2),): F1},), 1), Fraction(rm[0][1]) / 2)
            elif rm:
                r = self.funatom('log', ({rm: F1},), 1)
            else:
                r = {}
        for pr in _factor(lead.numerator):
            a = self.atom('logprime', pr, pos=True)
            r = self.padd(r, {((a.idx, 1),): F1})
        for pr in _factor(lead.denominator):
            a = self.atom('logprime', pr, pos=True)
            r = self.padd(r, {((a.idx, 1),): -F1})
        for i, e in cm:
            at = self.atoms[i]
            if at.kind == 'E':
                r = self.padd(r, {at.name: Fraction(e)})
            elif at.kind == 'prime':
                a = self.atom('logprime', at.name, pos=True)
                r = self.padd(r, {((a.idx, 1),): Fraction(e)})
            elif at.kind == 'P':
                r = self.padd(r, self.pscale(self.funatom('log', (at.poly,), 1), Fraction(e)))
            else:
                r = self.padd(r, self.pscale(self.funatom('log', ({((i, 1),): F1},), 1), Fraction(e)))
        return r

    def texpand(self, p):
        """sine and cosine of a sum of angles"""
        s, c = {}, {(): F1}

        def turn(a, b):
            return self.padd(self.pmul(s, b), self.pmul(c, a)), self.padd(self.pmul(c, b), self.pscale(self.pmul(s, a), -1))
        pi = self.atom('v', '@pi', pos=True)
        for m, f in sorted(p.items()):
            if m == ((pi.idx, 1),) and (2 * f).denominator == 1:
                k = int(2 * f) % 4
                s, c = turn([{}, {(): F1}, {}, {(): -F1}][k], [{(): F1}, {}, {(): -F1}, {}][k])
                continue
            n, d = f.numerator, f.denominator
            at = self.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if d == 1 and at is not None and at.kind == 'f' and at.name == 'arctan':
                z = at.poly[0]
                low = {}                            # the denominator
                for mm in z:
                    for i, e in mm:
                        if e < 0:
                            low[i] = min(e, low.get(i, 0))
                den = {tuple(sorted((i, -e) for i, e in low.items())): F1}
                num = self.pmul(z, den)
                b = self.polypow(self.padd(self.pmul(den, den), self.pmul(num, num)), Fraction(-1, 2))
                sg = self.signof(den) if self.signof else 0
                den = self.pscale(den, sg) if sg else self.polypow(self.pmul(den, den), Fraction(1, 2))     # its absolute value
                b = self.pmul(b, den)
                a = self.pmul(z, b)
            elif len(p) == 1 and abs(n) == 1:
                return None
            else:
                u = {m: Fraction(1, d)}
                a, b = self.funatom('sin', (u,), 1, kind='sin'), self.funatom('cos', (u,), 1, kind='cos')
            if n < 0:
                a, n = self.pscale(a, -1), -n
            if n > 6:
                return None
            for k in range(n):
                s, c = turn(a, b)
        return s, c

    def ntrig(self, name, p):
        if not p:
            return {(): F1} if name == 'cos' else {}
        if self.expand:
            r = self.texpand(p)
            if r is not None:
                return r[0] if name == 'sin' else r[1]
        pi = self.atom('v', '@pi', pos=True)
        mpi = ((pi.idx, 1),)
        c = p.get(mpi)
        shift = 0
        if c is not None:
            k = math.floor(c * 2 + Fraction(1, 2)) if (c * 2).denominator != 1 else int(c * 2)
            if k and (c * 2).denominator == 1:
                p = dict(p)
                del p[mpi]
                shift = k % 4
        sign = 1
        if p and p[max(p)] < 0:
            p = self.pscale(p, -1)
            # sin(-q + s pi/2): handle via parity
            if name == 'sin':
                # sin(s*pi/2 - q)
                # = sin(s pi/2) cos q - cos(s pi/2) sin q
                t = [('sin', -1), ('cos', 1), ('sin', 1), ('cos', -1)][shift]
            else:
                t = [('cos', 1), ('sin', 1), ('cos', -1), ('sin', -1)][shift]
        else:
            if name == 'sin':
                t = [('sin', 1), ('cos', 1), ('sin', -1), ('cos', -1)][shift]
            else:
                t = [('cos', 1), ('sin', -1), ('cos', -1), ('sin', 1)][shift]
        name, sign = t
        if not p:
            return {(): Fraction(sign)} if name == 'cos' else {}
        return self.funatom(name, (p,), sign, kind=name)

    # ------------------------------------------------------------------ zero test
    def iszero_sym(self, n):
        return not self.numerator(self.norm(n))


def _ri(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


_def = [None]


def default():
    if _def[0] is None or len(_def[0].atoms) > 20000:
        _def[0] = Norm()
    return _def[0]
