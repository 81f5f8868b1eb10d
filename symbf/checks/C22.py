"""C22  a decision tree model partitions its inputs."""
from ..harness import H

BOUNDS = ('trees of up to 4 branches (every shape with up to 3), float, boolean and categorial inputs in 1-2 dimensions, 2-4 data points, arbitrary float inputs, splits and parameters; '
          'histories of up to 2 grow, shrink and vary operations (3 in the thorough tier) at any place, alone and in chains')
ASSUMPTIONS = ['splits lie strictly between 0 and 1', 'inputs that are unknown (nan) only in float dimensions that have a known input too']


class Node:
    """what a (sub)tree is, as plain data"""

    def __init__(self, m):
        self.leaf = m.left is None and m.rite is None
        if self.leaf:
            self.dim = self.split = self.mask = None
            self.kids = []
        else:
            self.dim, self.split = m.dimension, m.split
            self.mask = m.mask if m.split is None else None
            self.kids = [Node(m.left), Node(m.rite)]

    def leaves(self):
        return [self] if self.leaf else self.kids[0].leaves() + self.kids[1].leaves()

    def branches(self):
        return [] if self.leaf else [self] + self.kids[0].branches() + self.kids[1].branches()

    def shape(self):
        return 1 if self.leaf else [k.shape() for k in self.kids]


def same(ctx, a, b, what, cuts=True):
    ctx.check(a.shape() == b.shape(), what + ': shape')
    for p, q in zip(a.branches(), b.branches()):
        ctx.check(p.dim == q.dim, what + ': dimension')
        if cuts:
            ctx.check((p.split is None) == (q.split is None), what + ': kind of cut')
            if p.split is not None:
                ctx.eq(p.split, q.split, what + ': split')
            else:
                ctx.check(p.mask == q.mask, what + ': mask')


def known(v):
    return not (isinstance(v, float) and v != v)


def route(ctx, node, cols, idx, out=None, first=0):
    """which leaf every input goes to"""
    if out is None:
        out = {}
    if node.leaf:
        for i in idx:
            out[i] = first
        return out
    xs = [(i, cols[node.dim][i]) for i in idx]
    left, rite = [], []
    if node.split is not None:
        kn = [v for i, v in xs if known(v)]
        if kn:
            mn = mx = kn[0]
            for v in kn[1:]:
                mn = v if v < mn else mn
                mx = v if v > mx else mx
            cut = mn + (mx - mn) * node.split
        small = rite if node.split < 0.5 else left
        for i, v in xs:
            if not known(v):
                small.append(i)
            else:
                (left if v > cut else rite).append(i)
    else:
        for i, v in xs:
            hit = (int(v) & node.mask) != 0 if node.mask >= 2 else int(v) == node.mask
            (left if hit else rite).append(i)
    route(ctx, node.kids[0], cols, left, out, first)
    route(ctx, node.kids[1], cols, rite, out, first + len(node.kids[0].leaves()))
    return out


def judge(ctx, m, x, cols, p, parlists=(), tag=''):
    """result, partial and order against the leaf of each input"""
    np = ctx.np
    n = len(cols[0])
    t = Node(m)
    nl = len(t.leaves())
    leaf = route(ctx, t, cols, list(range(n)))
    r = m.result(x, p)
    ctx.shape(r, (n,), tag + 'result')
    ctx.eq([a for a in r], [p[leaf[i]] for i in range(n)], tag + 'the result is the parameter of its leaf')
    pa = m.partial(x, p)
    ctx.shape(pa, (n, nl), tag + 'partial')
    ctx.eq([[a for a in row] for row in pa], [[1.0 if k == leaf[i] else 0.0 for k in range(nl)] for i in range(n)], tag + 'each input in exactly one leaf')
    for pl in parlists:
        q = m.basePartial(x, p, parlist=np.array(pl))
        ctx.shape(q, (n, len(pl)), tag + 'selected partials')
        ctx.eq([[a for a in row] for row in q], [[1.0 if k == leaf[i] else 0.0 for k in pl] for i in range(n)], tag + 'selected partials')
    d = m.baseDerivative(x, p)
    ctx.eq([a for a in np.asarray(d).flat], [0.0] * np.asarray(d).size, tag + 'piecewise constant')
    o = [int(k) for k in m.sortXdata(x)]
    ctx.check(sorted(o) == list(range(n)), tag + 'the order is a permutation')
    ks = [leaf[i] for i in o]
    ctx.check(ks == sorted(ks), tag + 'in the order of the leaves')


def sound(ctx, m, head=None, off=0, tail=0, tag='', types=None):
    """counts, parameters and links of the tree agree"""
    head = head or m
    t = Node(m)
    nl, nb = len(t.leaves()), len(t.branches())
    ctx.check(nl == nb + 1 and tuple(m.count()) == (nl, nb) and m.countLeaf() == nl and m.countBranch() == nb, tag + 'counts')
    ctx.check(m.npbase == nl and m.npmax == nl and m.ncomp == nb, tag + 'as many parameters as leaves')
    ctx.check(head.npars == off + nl + tail and head.npchain == off + nl + tail, tag + 'number of parameters')
    ctx.shape(head.parameters, (off + nl + tail,), tag + 'parameters')
    ctx.check(len(m.parNames) == nl, tag + 'names')
    todo = [m]
    while todo:
        c = todo.pop()
        for k in (c.left, c.rite):
            if k is not None:
                ctx.check(k.parent is c and k.findRoot() is m, tag + 'links')
                todo.append(k)
        ctx.check((c.left is None) == (c.rite is None) and c.isLeaf() == (c.left is None), tag + 'leaf or branch')
    ctx.check(m.parent is None, tag + 'links')
    ty = types or [0]
    for b in t.branches():
        tp = ty[min(b.dim, len(ty) - 1)]
        if tp == 0:
            ctx.check(b.split is not None, tag + 'a split in a float dimension')
            ctx.lt(0, b.split, tag + 'split')
            ctx.lt(b.split, 1, tag + 'split')
        else:
            ctx.check(b.split is None and b.mask is not None and 0 < b.mask < (2 << tp), tag + 'a mask in a categorial dimension')
    ctx.check(m.check(), tag + 'the tree finds itself in order')
    ctx.check(m.findLeaf(nl - 1).isLeaf() and (nb == 0 or not m.findBranch(nb - 1).isLeaf()), tag + 'leaves and branches can be found')


SHAPES = {1: [2], 2: [[2, 1], [1, 2]], 3: [[2, 2], [[2, 1], 1], [[1, 2], 1], [1, [2, 1]], [1, [1, 2]]]}


def splits(ctx, n):
    return [ctx.real('s%d' % k, 0.02, 0.98) for k in range(n)]


def data(ctx, n, ndim, unknown=()):
    cols = [[ctx.real('x%d_%d' % (d, i), -3, 3) for i in range(n)] for d in range(ndim)]
    for d, i in unknown:
        cols[d][i] = float('nan')
    if ndim == 1:
        return ctx.np.array(cols[0]), cols
    return ctx.np.array([[cols[d][i] for d in range(ndim)] for i in range(n)]), cols


def full(ctx, depth, n, ndim, dims, unknown=(), one=False):
    """a full tree, from depth, dimensions and splits"""
    P, np = ctx.pkg, ctx.np
    nb = 2 ** depth - 1
    s = splits(ctx, 1 if one else nb)
    given = s[0] if one else list(s)
    m = P.DecisionTreeModel(ndim=ndim, depth=depth, kdim=list(dims[:nb]), split=given) if nb else P.DecisionTreeModel(ndim=ndim)
    if not one and nb:
        ctx.check(len(given) == nb, 'the arguments are left alone')
    sound(ctx, m)
    t = Node(m)
    ctx.check(len(t.branches()) == nb, 'number of branches')
    ctx.check([b.dim for b in t.branches()] == list(dims[:nb]), 'dimensions')
    if nb:
        ctx.eq([b.split for b in t.branches()], s * nb if one else s, 'splits')
    x, cols = data(ctx, n, ndim, unknown)
    p = np.array([ctx.real('p%d' % k, -2, 2) for k in range(nb + 1)])
    judge(ctx, m, x, cols, p, [[nb], [nb, 0]] if nb > 1 else [[0]])


def coded(ctx, code, nb, n, ndim, chain=False, copied=False):
    """a tree of any shape, from its code; and back"""
    P, np = ctx.pkg, ctx.np
    s = splits(ctx, nb)
    dims = [k % ndim for k in range(nb)]
    m = P.DecisionTreeModel(ndim=ndim, code=code, kdim=list(dims), split=list(s))
    sound(ctx, m)
    c, d, q = m.encode()
    ctx.check(c == code and list(d) == dims, 'the same code')
    ctx.eq(list(q), s, 'the same splits')
    t = Node(m)

    def shape(c):
        return 1 if c == 1 else [1, 1] if c == 2 else [shape(k) for k in c]
    ctx.check(t.shape() == shape(code), 'the shape that was coded')
    ctx.check([b.dim for b in t.branches()] == dims, 'dimensions')
    ctx.eq([b.split for b in t.branches()], s, 'splits')
    m2 = P.DecisionTreeModel(ndim=ndim, code=c, kdim=d, split=q)
    same(ctx, t, Node(m2), 'resurrected')
    x, cols = data(ctx, n, ndim)
    p = np.array([ctx.real('p%d' % k, -2, 2) for k in range(nb + 1)])
    m3 = m.copy() if copied else m
    same(ctx, t, Node(m3), 'copy')
    sound(ctx, m3)
    judge(ctx, m3, x, cols, p, [[0, nb]])


def masked(ctx, itype, nb, n, code=None):
    """categorial and boolean inputs"""
    P, np = ctx.pkg, ctx.np
    vals = [0, 1] if itype == 1 else [1 << k for k in range(itype)]
    cols = [[ctx.choose('x%d_%d' % (d, i), vals) for i in range(n)] for d in range(2)]
    x = np.array([[cols[0][i], cols[1][i]] for i in range(n)])
    s = splits(ctx, nb)
    if code is None:
        m = P.DecisionTreeModel(ndim=2, depth=1 if nb == 1 else 2, kdim=[0, 1, 0][:nb], split=list(s), itypes=itype)
    else:
        m = P.DecisionTreeModel(ndim=2, code=code, kdim=[0, 1, 0][:nb], split=[ctx.choose('m%d' % k, [1, 2, 3]) for k in range(nb)], itypes=[itype])
        c, d, q = m.encode()
        same(ctx, Node(m), Node(P.DecisionTreeModel(ndim=2, code=c, kdim=d, split=q, itypes=[itype])), 'resurrected')
    sound(ctx, m, types=[itype])
    p = np.array([ctx.real('p%d' % k, -2, 2) for k in range(nb + 1)])
    judge(ctx, m, x, cols, p)
    same(ctx, Node(m), Node(m.copy()), 'copy')


def history(ctx, nops, types, before=0, after=0, start=None, use=('grow', 'shrink', 'vary'), rnd=True, data_=True, mincomp=None, maxcomp=None, copied=False):
    """any sequence of grow, shrink and vary"""
    P, np = ctx.pkg, ctx.np
    nd = len(types)
    if start is None:
        m = P.DecisionTreeModel(ndim=nd, itypes=list(types))
    else:
        code, dims, cuts = start
        m = P.DecisionTreeModel(ndim=nd, itypes=list(types), code=code, kdim=list(dims), split=list(cuts))
    if mincomp is not None or maxcomp is not None:
        m.setGrowPrior(min=mincomp or 0, max=maxcomp)
    head = m
    if before:
        head = P.PolySurfaceModel({1: 0, 3: 1}[before]) if nd > 1 else P.PolynomialModel(before - 1)
        for k in range(before):
            head.setPrior(k, prior=P.UniformPrior(limits=[20.0, 30.0]))
        head.addModel(m)
    if after:
        t = P.PolySurfaceModel({1: 0, 3: 1}[after]) if nd > 1 else P.PolynomialModel(after - 1)
        for k in range(after):
            t.setPrior(k, prior=P.UniformPrior(limits=[40.0, 50.0]))
        head.addModel(t)
    if copied:
        orig, head = head, head.copy()
        o = Node(m)
        m = head._next if before else head
        same(ctx, o, Node(m), 'copy')
        ctx.check(m.isDynamic() and m.isModifiable(), 'the copy can be changed too')
    off, n0 = before, m.npbase
    head.parameters = np.array([ctx.real('p%d' % k, 0, 1) if off <= k < off + n0 else 20.0 + k for k in range(head.npars)])
    sound(ctx, m, head, off, after, 'initially: ', types)
    rng = ctx.rng('r')
    for step in range(nops):
        old = [a for a in head.parameters]
        t0 = Node(m)
        nl, nb = len(t0.leaves()), len(t0.branches())
        op = ctx.choose('op%d' % step, list(use))
        kw = {}
        if not rnd:
            kw['location'] = ctx.choose('loc%d' % step, list(range(nl if op != 'vary' else max(nb, 1))))
            if op != 'shrink':
                kw['kdim'] = ctx.choose('dim%d' % step, list(range(nd)))
                kw['split'] = ctx.real('cut%d' % step, 0.02, 0.98)
        if op == 'vary':
            r = m.vary(**kw) if not rnd else m.vary(rng=rng)
        else:
            r = getattr(m, op)(offset=off, **kw) if not rnd else getattr(m, op)(offset=off, rng=rng)
        t1 = Node(m)
        tag = op + ': '
        sound(ctx, m, head, off, after, tag, types)
        new = [a for a in head.parameters]
        if off:
            ctx.eq(new[:off], old[:off], tag + 'parameters before')
        if after:
            ctx.eq(new[-after:], old[-after:], tag + 'parameters after')
        new, was = new[off:len(new) - after], old[off:len(old) - after]
        nb1 = len(t1.branches())
        ctx.check(nb1 >= min(nb, mincomp or 0), tag + 'not below the minimum')
        if maxcomp is not None:
            ctx.check(nb1 <= max(maxcomp, nb), tag + 'not above the maximum')
        if not r:
            same(ctx, t0, t1, tag + 'failed')
            ctx.eq(new, was, tag + 'parameters')
            ctx.check((op == 'grow' and maxcomp is not None and nb >= maxcomp) or (op == 'vary' and nb == 0) or (op == 'shrink' and (nb == 0 or bool(mincomp))), tag + 'succeeds')
        elif op == 'grow':
            ctx.check(nb1 == nb + 1, tag + 'one more')
            k = place(ctx, t0, t1, tag)
            if 'location' in kw:
                ctx.check(k == kw['location'], tag + 'at its place')
                b = [c for c in t1.branches() if c.kids[0].leaf and c.kids[1].leaf and t1.leaves().index(c.kids[0]) == k][0]
                ctx.check(b.dim == kw['kdim'], tag + 'in its dimension')
                if types[b.dim] == 0:
                    ctx.eq(b.split, kw['split'], tag + 'at its split')
            ctx.eq(new[:k] + new[k + 2:], was[:k] + was[k + 1:], tag + 'the other parameters survive')
            two = new[k:k + 2]
            keep = [j for j in (0, 1) if (two[j] is was[k] if ctx.symbolic else two[j] == was[k])]
            ctx.check(len(keep) > 0, tag + 'the parameter survives')
            if keep and rnd:
                v = two[1 - keep[-1]]
                ctx.le(0, v, tag + 'drawn from the prior')
                ctx.le(v, 1, tag + 'drawn from the prior')
                ctx.check(not (ctx.symbolic and isinstance(v, float)), tag + 'drawn from the prior')
        elif op == 'shrink':
            ctx.check(nb1 < nb, tag + 'less')
            k = place(ctx, t1, t0, tag, any_=True)
            m_ = nl - len(t1.leaves())                  # leaves k .. k+m_ became one
            ctx.eq(new[:k] + new[k + 1:], was[:k] + was[k + m_ + 1:], tag + 'the other parameters survive')
            ctx.check(any((new[k] is a if ctx.symbolic else new[k] == a) for a in was[k:k + m_ + 1]), tag + 'a parameter of the removed leaves')
            if 'location' in kw:
                ctx.check(k <= kw['location'] <= k + m_, tag + 'at its place')
        else:
            ctx.check(t1.shape() == t0.shape(), tag + 'the same shape')
            ctx.eq(new, was, tag + 'parameters')
            d = [j for j, (a, b) in enumerate(zip(t0.branches(), t1.branches())) if differs(ctx, a, b)]
            ctx.check(len(d) <= 1, tag + 'one branch')
            if 'location' in kw and nb:
                b = t1.branches()[kw['location']]
                ctx.check(all(j == kw['location'] for j in d) and b.dim == kw['kdim'], tag + 'at its place')
                if types[b.dim] == 0:
                    ctx.eq(b.split, kw['split'], tag + 'to its split')
    if copied:
        same(ctx, o, Node(orig._next if before else orig), 'the original')
        ctx.check(orig.npars == off + n0 + after, 'the original is unchanged')
    if data_ and head is m and all(t == 0 for t in types):
        x, cols = data(ctx, 2, nd)
        judge(ctx, m, x, cols, head.parameters, tag='finally: ')


def differs(ctx, a, b):
    if a.dim != b.dim or (a.split is None) != (b.split is None):
        return True
    if a.split is None:
        return a.mask != b.mask
    return not (a.split is b.split) if ctx.symbolic else a.split != b.split


def place(ctx, small, big, tag, any_=False):
    """the index of the leaf of small that is a branch in big; all else is the same"""
    found = []

    def go(a, b, k):
        if a.leaf:
            if not b.leaf:
                found.append(k)
                if not any_:
                    ctx.check(b.kids[0].leaf and b.kids[1].leaf, tag + 'one leaf is split')
            return k + 1
        ctx.check(not b.leaf, tag + 'the rest of the tree')
        if b.leaf:
            return k + len(a.leaves())
        ctx.check(not differs(ctx, a, b), tag + 'the rest of the tree')
        return go(a.kids[1], b.kids[1], go(a.kids[0], b.kids[0], k))
    go(small, big, 0)
    ctx.check(len(found) == 1, tag + 'at one place')
    return found[0] if found else 0


def static(ctx):
    """a tree that is not dynamic does not grow or shrink; nor does its copy"""
    P, np = ctx.pkg, ctx.np
    s = ctx.real('s', 0.02, 0.98)
    m = P.DecisionTreeModel(ndim=2, depth=1, kdim=[1], split=s, dynamic=False, modifiable=False)
    for c in (m, m.copy()):
        ctx.check(not c.isDynamic() and not c.isModifiable(), 'static')
        ctx.check(not c.grow(rng=ctx.rng('r')) and not c.shrink(rng=ctx.rng('q')), 'stays as it is')
        sound(ctx, c)
    m = P.DecisionTreeModel(ndim=2, depth=1, kdim=[1], split=s)
    m.setGrowPrior(min=1, max=3)
    c = m.copy()
    ctx.check(c.isDynamic() and c.isModifiable(), 'dynamic')
    ctx.check(c.minComp == 1 and c.maxComp == 3, 'bounds')
    d = P.DecisionTreeModel(ndim=2)
    ctx.check(d.npars == 1 and d.isLeaf() and d.check(), 'a single leaf')


def engine(ctx, name, free):
    """birth, death and structure engines on a tree in a walker"""
    P, np = ctx.pkg, ctx.np
    s0 = ctx.real('s0', 0.02, 0.98)
    m = P.DecisionTreeModel(ndim=2, code=[2, 1], kdim=[0, 1], split=[s0, 0.25])
    seen = []

    class Lik(P.GaussErrorDistribution):
        def logLhood(self, problem, allpars):
            self.ncalls += 1
            ctx.check(problem.model.npars + 1 == len(allpars), 'as many parameters as the model has')
            p = [a for a in allpars]
            seen.append(len(p))
            return ctx.fn('L%d' % len(p), len(p))(*p)
    x = np.array([[0.0, 1.0], [1.0, 0.5]])
    prob = P.ClassicProblem(m, xdata=x, ydata=np.array([0.5, 1.5]))
    err = Lik()
    if free:
        err.setPriors([P.UniformPrior(limits=[0.5, 2.5])])
        err.hyperpar[0].isFixed = False
    ws = P.WalkerList()
    n = m.npars
    low = ctx.real('low', -9, 9)
    p = np.array([ctx.real('p%d' % k, 0.02, 0.98) for k in range(n)] + [ctx.real('h', 0.6, 2.4) if free else 1.0])
    w = P.Walker(0, prob.copy(), p.copy(), np.array(list(range(n)) + ([-1] if free else [])))
    w.problem.model.parameters = p[:n].copy()
    w.logL = ctx.fn('L%d' % (n + 1), n + 1)(*[a for a in p])
    ctx.assume(w.logL >= low)
    ws.append(w)
    ws._count = 1
    t0 = Node(w.problem.model)
    eng = getattr(P, name)(ws, err, phantoms=P.PhantomCollection(dynamic=True))
    eng.rng = ctx.rng('r')
    eng.maxtrials = 1
    r = eng.execute(0, low)
    same(ctx, t0, Node(w.problem.model), 'the old walker is not changed in place')
    ctx.eq([a for a in w.allpars], [a for a in p], 'the old walker is not changed in place')
    if r == 0:
        ctx.check(ws[0] is w, 'the walker stays')
        return
    v = ws[0]
    N = v.problem.model.npars
    ctx.check(N == n + (1 if name == 'BirthEngine' else 0) if name != 'DeathEngine' else N < n, 'number of parameters')
    sound(ctx, v.problem.model)
    ctx.shape(v.allpars, (N + 1,), 'number of parameters')
    ctx.check(list(v.fitIndex) == list(range(N)) + ([-1] if free else []), 'fit index')
    ctx.eq(v.allpars[-1], p[-1], 'the scale')
    ctx.eq(v.logL, ctx.fn('L%d' % (N + 1), N + 1)(*[a for a in v.allpars]), 'likelihood of its own parameters')
    ctx.le(low, v.logL, 'above the threshold')
    for k in range(N):
        ctx.le(0, v.allpars[k], 'inside the prior domain')
        ctx.le(v.allpars[k], 1, 'inside the prior domain')


def harnesses(tier):
    out = []
    S = dict(paths=3000, tmax=60, samples=2, qtimeout=600)

    def h(name, f, *a, thorough=False, **k):
        kw = dict(S)
        for o in list(S) + ['weight']:
            if o in k:
                kw[o] = k.pop(o)
        out.append(H(name, f, args=a, kw=k, thorough=thorough, **kw))
    h('full/leaf', full, 0, 2, 1, [])
    h('full/1/1d', full, 1, 3, 1, [0])
    h('full/1/2d', full, 1, 3, 2, [1])
    h('full/2/2d', full, 2, 3, 2, [0, 1, 0])
    h('full/2/one', full, 2, 2, 2, [1, 0, 1], one=True)
    h('full/3', full, 3, 2, 2, [0, 1, 0, 1, 0, 1, 0])
    h('full/1/unknown', full, 1, 3, 2, [1], unknown=[(1, 1)])
    h('full/2/unknown', full, 2, 3, 2, [1, 0, 0], unknown=[(1, 1), (0, 2)])
    h('full/2/4', full, 2, 4, 2, [0, 1, 0], thorough=True)
    h('full/3/3', full, 3, 3, 2, [0, 1, 0, 1, 0, 1, 0], thorough=True)
    for nb in SHAPES:
        for c in SHAPES[nb]:
            h('code/%s' % str(c).replace(' ', ''), coded, c, nb, 2 if nb > 2 else 3, 2, copied=nb == 3)
    h('code/[[[2,1],1],1]', coded, [[[2, 1], 1], 1], 4, 2, 2)
    h('mask/boolean', masked, 1, 1, 3)
    h('mask/boolean/2', masked, 1, 3, 2)
    h('mask/2', masked, 2, 1, 2)
    h('mask/3', masked, 3, 1, 2)
    h('mask/2/3', masked, 2, 3, 1)
    h('mask/3/3', masked, 3, 3, 2, thorough=True, paths=60000, tmax=300)
    h('mask/code', masked, 2, 2, 2, code=[2, 1])
    h('static', static)
    F, B, C = [0], [1], [3]
    h('history/rng/leaf', history, 2, [0, 0])
    h('history/rng/mixed', history, 2, [0, 1])
    h('history/rng/categories', history, 2, [2, 3], data_=False)
    h('history/plain', history, 2, [0, 0], rnd=False)
    h('history/plain/mixed', history, 2, [0, 3], rnd=False)
    T = {'a': ([2, 2], [0, 1, 0], [0.25, 0.5, 0.75]), 'b': ([1, [2, 1]], [0, 1, 0], [0.25, 0.5, 0.75]), 'c': ([[1, 2], 1], [1, 0, 0], [0.25, 0.5, 0.75])}
    for k in T:
        h('history/%s' % k, history, 1, [0, 0], start=T[k], rnd=False)
        h('history/%s/rng' % k, history, 1, [0, 0], start=T[k])
        h('history/%s/chain' % k, history, 1, [0, 0], start=T[k], before=1, after=3, rnd=False)
        h('history/%s/min' % k, history, 1, [0, 0], start=T[k], mincomp=2, maxcomp=3, rnd=False, data_=False)
        h('history/%s/2' % k, history, 2, [0, 0], start=T[k], rnd=False, data_=False, thorough=True)
    h('history/chain/rng', history, 2, [0, 0], before=3, after=1)
    h('history/copied', history, 1, [0, 0], start=T['b'], copied=True, rnd=False)
    h('history/copied/chain', history, 1, [0, 0], start=T['c'], copied=True, rnd=False, before=1, after=1)
    M = ([2, 1], [0, 1], [0.25, 5])
    h('history/masks', history, 1, [0, 3], start=M, rnd=False, use=('vary', 'shrink'))
    h('history/masks/rng', history, 2, [0, 3], start=M, use=('vary',))
    h('history/masks/types', history, 1, [3, 1, 2], start=([2, 1], [0, 1], [6, 1]), use=('vary',))
    h('history/rng/3', history, 3, [0, 0], data_=False, thorough=True, tmax=300, paths=20000)
    h('history/plain/3', history, 3, [0, 0], rnd=False, data_=False, thorough=True, tmax=300, paths=20000)
    for e in ('BirthEngine', 'DeathEngine', 'StructureEngine'):
        h('engine/%s' % e, engine, e, False)
        h('engine/%s/scale' % e, engine, e, True)
    return out
