"""Bounded order-type templates and the geometric oracle.

A template fixes degrees and knot multiplicities; knot values, weights,
control points, fields and evaluation parameters stay symbolic.  Knot i of an
axis lies in the box [4i, 4i+1], so that every comparison between knots,
parameters and their midpoints is decided by the interval component."""
import itertools
from fractions import Fraction
from . import core, arrays as A, npmodel as N, pyinterp as PI, backend
from .core import (Z, Sc, PATH, Unmodelled, sc, sc_atom, sc_const, set_iv,
                   same, add, sub, mul, div)
from .arrays import Arr, AbsRaise
from .backend import elements

H = 4          # box pitch
BOX = 50       # coordinates and fields


# what the template data of the obligation under way look like
VARIANT = {}
VARIANTS = {
    'polynomial': {'weights': 1},           # no object is rational
    'equal-weights': {'weights': 'equal'},
    'planar': {'planar': True},
    'bare': {'bare': True},                 # no fields
    'negative': {'origin': -10},            # knots on both sides of zero
    'integer': {'knots': 'const'},          # 0, 4, 8, ...
    'centred': {'knots': 'const', 'origin': -4},
    'close': {'scale': Fraction(1, 1 << 24)},   # knots 1e-7 apart
    'far': {'scale': Fraction(1 << 24)},        # knots 1e8 apart
}
KNOTS = tuple(n for n, v in VARIANTS.items()
              if set(v) & {'origin', 'knots', 'scale'})
WITH_FIELDS = tuple(n for n in VARIANTS if n != 'bare')


def varied(obs, names, every):
    """the obligations again over template data of other kinds: each of the
    `names` (a dictionary) for every obligation in the thorough tier, one of
    them (in turn) in the quick tier"""
    out, k = list(obs), 0
    for o in obs:
        if o.fn is None:
            continue
        mine = [n for n in names if every is None or every(o, n)]
        for i, n in enumerate(mine):
            quick = i == k % len(mine)
            out.append(type(o)(o.prop, o.oid + '~' + n, vary(
                o.fn, VARIANTS[n]), o.tier if quick else 'thorough', o.mode,
                o.limit, o.site, o.budget, o.rule))
        k += 1
    return out


def vary(fn, v):
    def g(t):
        VARIANT.clear()
        VARIANT.update(v)
        try:
            return fn(t)
        finally:
            VARIANT.clear()
    return g


def scale():
    return VARIANT.get('scale', 1)


def kv(name, mults, origin=0, pos=None):
    """symbolic knots with the given multiplicities"""
    out = []
    f = scale()
    origin = (origin + VARIANT.get('origin', 0)) * f
    if VARIANT.get('knots') == 'const':
        for i, m in enumerate(mults):
            i = pos[i] if pos else i
            out += [sc_const(origin + H * i * f)] * m
        return out
    for i, m in enumerate(mults):
        i = pos[i] if pos else i
        a = sc_atom('knot', name, i, rep='%s%d' % (name, i))
        set_iv(a, origin + H * i * f, origin + (H * i + 1) * f)
        out += [a] * m
    return out


def par(name, span, lo=0.1, hi=0.9, origin=0, pos=None):
    """free parameter strictly inside breakpoint interval `span`,
    lo..hi: position of its box inside the interval"""
    f = scale()
    origin = (origin + VARIANT.get('origin', 0)) * f
    a = sc_atom('param', name, span, lo, hi, rep='%s@%d' % (name, span))
    s, e = H * span + 1, H * span + H
    if pos:
        s, e = H * pos[span] + 1, H * pos[span + 1]
    set_iv(a, origin + f * (s + (e - s) * lo),
           origin + f * (s + (e - s) * hi))
    return a


def weights_atom(name):
    def f(ix):
        a = sc_atom('w', name, *ix, rep='w%s[%s]' % (
            name, ','.join(map(str, ix))))
        set_iv(a, 0.5, 2.0)
        return a
    return f


def block(name, shape, lo=-BOX, hi=BOX):
    """array of free symbols with concrete extents, caller owned"""
    flat = []
    for ix in itertools.product(*[range(s) for s in shape]):
        a = sc_atom('el', name, *ix, rep='%s[%s]' % (
            name, ','.join(map(str, ix))))
        if lo is not None:
            set_iv(a, lo, hi)
        flat.append(a)
    r = backend.from_flat(shape, flat)
    r.buf.owner = 'caller'
    r.buf.name = name
    return r


def arr(vals, dtype='f8'):
    r = A.const_array(vals, dtype)
    r.buf.owner = 'caller'
    return r


class Spec(object):
    """one axis: degree and multiplicities of the breakpoints (all of them,
    including those outside the domain)"""

    def __init__(self, p, mults, origin=0, pos=None):
        self.p = p
        self.pos = pos
        self.mults = tuple(mults)
        self.origin = origin
        self.n = sum(mults) - p - 1        # number of control points

    @property
    def id(self):
        return 'p%d:%s%s' % (self.p, ''.join(map(str, self.mults)),
                             '@' + ''.join(map(str, self.pos))
                             if self.pos else '')

    def start(self):
        return (self.origin + VARIANT.get('origin', 0)) * scale()

    def knots(self, name):
        return kv(name, self.mults, self.origin, self.pos)

    def clamped(self):
        return self.mults[0] == self.mults[-1] == self.p + 1

    def spans(self):
        """breakpoint indices i such that [b_i, b_i+1] lies in the domain"""
        U = []
        for i, m in enumerate(self.mults):
            U += [i] * m
        a, b = U[self.p], U[-self.p - 1]
        return list(range(a, b))

    def domain(self):
        U = []
        for i, m in enumerate(self.mults):
            U += [i] * m
        return U[self.p], U[-self.p - 1]

    def par(self, name, span, lo=0.1, hi=0.9):
        return par(name, span, lo, hi, self.origin, self.pos)


def hom(name, shape, rational=True, nf=0):
    """homogeneous control data (x w, y w, z w, w, f w): the first four as
    free symbols, weight in a positive box"""
    flat = []
    wa = weights_atom(name)
    for ix in itertools.product(*[range(s) for s in shape]):
        w = wa(ix) if rational else sc_const(1)
        if rational and VARIANT.get('weights'):
            w = sc_const(1) if VARIANT['weights'] == 1 else wa(())
        for c in range(3):
            if c == 2 and VARIANT.get('planar'):
                flat.append(sc_const(0))
                continue
            flat.append(set_iv(sc_atom('cw', name, c, *ix, rep='%s%s[%s]' % (
                name, 'XYZ'[c], ','.join(map(str, ix)))), -BOX, BOX))
        flat.append(w)
    r = backend.from_flat(tuple(shape) + (4,), flat)
    r.buf.owner = 'caller'
    r.buf.name = name
    return r


class Made(object):
    """a template object together with the data it was built from"""


def make(t, specs, name='', nf=0, rational=True, kname=None, U=None):
    """build an object of the analysed class through its constructor"""
    c = t.c
    m = Made()
    m.specs = [Spec(*s) if isinstance(s, tuple) else s for s in specs]
    kname = name if kname is None else kname
    if VARIANT.get('bare'):
        nf = 0
    m.U = U or [s.knots('k%s%s' % (kname, 'uvw'[i]))
                for i, s in enumerate(m.specs)]
    shape = tuple(s.n for s in m.specs)
    m.knots = [arr(u) for u in m.U]
    m.cw = hom('C' + name, shape, rational)
    m.f = block('F' + name, shape + (nf,)) if nf else None
    args = [PI.PList(m.knots), m.cw] + ([m.f] if nf else [])
    cls = c.name('nurbs', 'NURBS')
    m.obj = c.call(cls, *args)
    return m


class Geo(object):
    """concrete-extent geometry read back through the public properties"""

    def __init__(self, t, obj):
        c = t.c
        self.dim = core.simp(c.get(obj, 'dim'))
        ks = c.get(obj, 'knots')
        self.U = []
        for k in ks:
            e = elements(N.toarr(k))
            if e is None:
                raise Unmodelled('symbolic knot vector')
            self.U.append([sc(x) for x in e])
        a = c.get(obj, 'array')
        if not isinstance(a, Arr):
            raise Unmodelled('control array')
        self.shape = a.shape
        fl = elements(a)
        if fl is None:
            raise Unmodelled('symbolic control array')
        self.flat = [sc(x) for x in fl]
        self.nc = self.shape[-1]
        self.p = [len(u) - n - 1 for u, n in zip(self.U, self.shape)]

    def cp(self, *ix):
        off = 0
        for s, i in zip(self.shape, ix):
            off = off * s + i
        return self.flat[off * self.nc:(off + 1) * self.nc]

    def domain(self, k):
        U, p = self.U[k], self.p[k]
        return U[p], U[-p - 1]


def lt(a, b):
    r = N.decided_lt(a, b)
    if r is None:
        # both orders are possible: follow the decision of the current path
        # (the reference value is continuous, so either side will do for
        # equal arguments)
        if core.PATH.memo.get(('lt', sc(b).fp, sc(a).fp)) == 1:
            return True
        r = core.cmp_lt(a, b)
    return r


def find_span(p, U, u):
    """k with U[k] <= u < U[k+1], p <= k <= n (last span closed)"""
    n = len(U) - p - 2
    if not lt(u, U[n + 1]):
        k = n
        while k > p and not lt(U[k], U[k + 1]):
            k -= 1
        return k
    k = p
    while k < n and not lt(u, U[k + 1]):
        k += 1
    return k


def ratio(a, b):
    """a / b with 0/0 = 0, the convention of the B-spline recurrence"""
    if b.const == 0 or same(b, sc_const(0)) is True:
        return sc_const(0)
    return div(a, b)


def basis(p, U, k, u):
    """Cox-de Boor: the p+1 functions N_{k-p..k,p} on the span k"""
    Nf = {k: sc_const(1)}
    for d in range(1, p + 1):
        M = {}
        for i in range(k - d, k + 1):
            v = sc_const(0)
            if i in Nf:
                v = add(v, mul(ratio(sub(u, U[i]), sub(U[i + d], U[i])),
                               Nf[i]))
            if i + 1 in Nf:
                v = add(v, mul(ratio(sub(U[i + d + 1], u),
                                     sub(U[i + d + 1], U[i + 1])),
                               Nf[i + 1]))
            M[i] = v
        Nf = M
    return [Nf[i] for i in range(k - p, k + 1)]


def ders(p, U, k, u, nd):
    """derivatives 0..nd of the basis functions by the derivative recurrence
    N'_{i,p} = p/(U[i+p]-U[i]) N_{i,p-1} - p/(U[i+p+1]-U[i+1]) N_{i+1,p-1}
    (functions returned for i = k-p..k)"""
    def rec(q, r):
        """dict i -> r-th derivative of N_{i,q}"""
        if r == 0:
            b = basis(q, U, k, u)
            return {k - q + j: b[j] for j in range(q + 1)}
        if q == 0:
            return {k: sc_const(0)}
        lower = rec(q - 1, r - 1)
        out = {}
        for i in range(k - q, k + 1):
            v = sc_const(0)
            if i in lower:
                v = add(v, mul(ratio(sc_const(q), sub(U[i + q], U[i])),
                               lower[i]))
            if i + 1 in lower:
                v = sub(v, mul(ratio(sc_const(q), sub(U[i + q + 1],
                                                      U[i + 1])),
                               lower[i + 1]))
            out[i] = v
        return out
    res = []
    for r in range(nd + 1):
        d = rec(p, r)
        res.append([d[i] for i in range(k - p, k + 1)])
    return res


def evaluate(g, us, comps=None, orders=None, spans=None):
    """homogeneous value (or mixed derivative) of the piecewise polynomial
    at the parameters us"""
    sp, bs = [], []
    for k in range(g.dim):
        p, U = g.p[k], g.U[k]
        s = spans[k] if spans else find_span(p, U, us[k])
        r = orders[k] if orders else 0
        b = basis(p, U, s, us[k]) if r == 0 else ders(p, U, s, us[k], r)[r]
        sp.append(s)
        bs.append(b)
    comps = range(g.nc) if comps is None else comps
    out = [sc_const(0) for _ in comps]
    for loc in itertools.product(*[range(len(b)) for b in bs]):
        c = sc_const(1)
        for b, j in zip(bs, loc):
            c = mul(c, b[j])
        cp = g.cp(*[s - p + j for s, p, j in zip(sp, g.p, loc)])
        out = [add(o, mul(c, cp[q])) for o, q in zip(out, comps)]
    return out


def proj_same(t, h1, h2, what):
    """two homogeneous vectors denote the same point and fields"""
    t.ok(len(h1) == len(h2), what + ': components',
         '%d vs %d' % (len(h1), len(h2)))
    w1, w2 = h1[3], h2[3]
    for q in range(min(len(h1), len(h2))):
        if q == 3:
            continue
        r = t.eq(mul(h1[q], w2), mul(h2[q], w1), '%s: component %d'
                 % (what, q))
        if r is not True:
            return r
    return True


def hom_same(t, h1, h2, what):
    return t.eqs(h1, h2, what)


def samples(specs, extra=None):
    """one free parameter per domain span and axis; `extra[axis]` = list of
    (lo, hi) sub-boxes used in every span of that axis"""
    out = []
    for i, s in enumerate(specs):
        boxes = (extra or {}).get(i) or [(0.1, 0.9)]
        out.append([s.par('s%d' % i, b, lo, hi)
                    for b in s.spans() for lo, hi in boxes])
    return out


def combos(lists, cap=12):
    c = list(itertools.product(*lists))
    if len(c) <= cap:
        return c
    step = len(c) / float(cap)
    return [c[int(i * step)] for i in range(cap)]


def same_geometry(t, g1, g2, specs, what, extra=None, cap=12, proj=True):
    """both objects denote the same map on every sampled span product"""
    if g1.dim != g2.dim:
        return t.note(False, what, 'dimension %d vs %d' % (g1.dim, g2.dim))
    for us in combos(samples(specs, extra), cap):
        h1, h2 = evaluate(g1, us), evaluate(g2, us)
        r = (proj_same if proj else hom_same)(
            t, h1, h2, '%s at (%s)' % (what, ', '.join(u.rep for u in us)))
        if r is not True:
            return r
    return True


def knots_are(t, g, axis, want, what):
    return t.eqs(g.U[axis], want, what)


def wellformed(t, obj, what, nc=None):
    """extents, degrees and knot order of a result, via public properties"""
    c = t.c
    g = Geo(t, obj)
    deg = c.get(obj, 'degree')
    shp = c.get(obj, 'shape')
    t.ok(len(g.shape) == g.dim + 1, what + ': control array rank',
         '%r' % (g.shape,))
    if nc is not None:
        t.ok(g.nc == nc, what + ': number of data components',
             '%d instead of %d' % (g.nc, nc))
    t.eqs(list(shp), list(g.shape[:-1]), what + ': shape')
    for k in range(g.dim):
        U = g.U[k]
        p = core.simp(list(deg)[k])
        t.ok(p >= 1, what + ': degree >= 1', p)
        t.ok(len(U) == g.shape[k] + p + 1,
             what + ': #knots = #control points + degree + 1 on axis %d' % k,
             '%d, %d, %d' % (len(U), g.shape[k], p))
        t.ok(g.shape[k] >= p + 1, what + ': enough control points')
        for i in range(len(U) - 1):
            r = N.decided_lt(U[i + 1], U[i])
            if r is not False:
                t.note(None if r is None else False,
                       what + ': knots nondecreasing',
                       'axis %d: U[%d]=%s, U[%d]=%s' % (
                           k, i, U[i].rep, i + 1, U[i + 1].rep))
        # the domain is not degenerate
        a, b = U[p], U[-p - 1]
        r = N.decided_lt(a, b)
        t.note(r if r is None else bool(r), what + ': domain')
    return g
