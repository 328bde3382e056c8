"""Primitives: lines, circular arcs, multilinear patches, grids."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements
from .transforms import sym, flat, point, neg

L = PI.PList
CAD = 'igakit/cad.py %s'
Q = core.Fraction


def vadd(a, b):
    return [core.add(x, y) for x, y in zip(a, b)]


def pi_times(q):
    return mul(core.sc_pi(), sc_const(Q(q)))


def inner(g, k, i, name='u', lo=.1, hi=.9):
    """free parameter inside the i-th nonempty span of axis k of a result
    whose knots are constants"""
    br = breaks_of(g, k)
    a, b = br[i].const, br[i + 1].const
    if a is None or b is None:
        raise Unmodelled('symbolic knots')
    x = sc_atom('param', name, k, i, rep='%s%d@%d' % (name, k, i))
    set_iv(x, float(a + (b - a) * Q(lo)), float(a + (b - a) * Q(hi)))
    return x


def clamped(t, g, k, what):
    """axis k has the domain [0, 1] and clamped ends"""
    U, p = g.U[k], g.p[k]
    t.eqs(g.domain(k), [0, 1], what)
    t.eqs(U[:p + 1] + U[-p - 1:], [0] * (p + 1) + [1] * (p + 1),
          what + ': clamped ends')


def breaks_of(g, k):
    """distinct knots of the domain of axis k"""
    p, U = g.p[k], g.U[k]
    out = [U[p]]
    for x in U[p + 1:len(U) - p]:
        if lt(out[-1], x):
            out.append(x)
    return out


def positive(t, g, what):
    """weights are positive: control polygon and map stay regular"""
    for i in range(0, len(g.flat), g.nc):
        w = g.flat[i + 3]
        s = core.sign(w)
        t.note(None if s is None else s > 0, what + ': weight %d positive'
               % (i // g.nc), w.rep)


ARCS = [('full', None, 0, 2), ('quarter', 'c', 0, Q(1, 2)),
        ('half', 'c', 0, 1), ('three-quarters', 'c', 0, Q(3, 2)),
        ('two-pi', 'c', 0, 2), ('minus-quarter', 'c', 0, -Q(1, 2)),
        ('minus-half', 'c', 0, -1), ('minus-two-pi', 'c', 0, -2),
        ('eighth', 'c', 0, Q(1, 4)), ('third', 'c', 0, Q(3, 4)),
        ('pair-const', 'p', Q(1, 4), Q(3, 4)), ('pair-neg', 'p', Q(3, 4),
                                                -Q(1, 4)),
        ('pair-cross', 'p', -Q(1, 4), Q(7, 4)), ('pair-shift', 'p', Q(1, 2),
                                                 Q(5, 2)),
        ('list-const', 'l', Q(1, 2), 1),
        ('start-none', 'ps', 0, Q(3, 2)), ('end-none', 'pe', Q(1, 2), 2),
        ('both-none', 'pn', 0, 2)]
PIF = 3.14159265358979
FREE = [('free%d%s' % (q, s), q, sg) for q in range(4)
        for s, sg in (('', 1), ('-neg', -1))]


@register
class Circles(Prop):
    pid = 'C17'

    def obligations(self):
        obs = []
        cens = ('none', 'xyz', 'xy', 'x', 'scalar')
        for name, kind, a, b in ARCS:
            for cen in cens:
                if cen not in ('none', 'xyz') and name not in (
                        'full', 'half', 'pair-const'):
                    continue
                for rad in ('symbol', 'default'):
                    if rad == 'default' and cen != 'none':
                        continue
                    obs.append(Ob(self.pid, 'circle:%s:%s:%s' % (
                        name, cen, rad), self.arc(kind, a, b, cen, rad),
                        site=CAD % 'circle'))
        for name, q, sg in FREE:
            for kind in ('f', 'fp', 'fl', 'sym'):
                for cen in ('none', 'xyz'):
                    obs.append(Ob(self.pid, 'circle:%s:%s:%s' % (
                        name, kind, cen), self.free(kind, q, sg, cen),
                        site=CAD % 'circle'))
        for d0 in (1, 2, 3):
            for d1 in (1, 2, 3):
                for kind in ('array', 'list', 'tuple'):
                    obs.append(Ob(self.pid, 'line:%s%d%d' % (kind, d0, d1),
                                  self.line(kind, d0, d1),
                                  site=CAD % 'line'))
        obs.append(Ob(self.pid, 'line:default', self.line(None, 2, 2),
                      site=CAD % 'line'))
        for kind in ('first', 'second'):
            obs.append(Ob(self.pid, 'line:default-' + kind,
                          self.line(kind, 2, 2), site=CAD % 'line'))
        return obs

    def line(self, kind, d0, d1):
        def fn(t):
            p0 = block('p', (d0,))
            p1 = block('q', (d1,))
            e0, e1 = flat(p0), flat(p1)
            f = t.c.name('cad', 'line')
            z = [sc_const(0)] * 3
            if kind is None:
                e0, e1 = z, [sc_const(1)] + z
                o = t.c.call(f)
            elif kind == 'first':
                o = t.c.call(f, p0)
                e1 = [sc_const(1)] + z
            elif kind == 'second':
                o = t.c.call(f, p1=p1)
                e0 = z
            elif kind == 'array':
                o = t.c.call(f, p0, p1)
            elif kind == 'list':
                o = t.c.call(f, L(e0), L(e1))
            else:
                o = t.c.call(f, tuple(e0), tuple(e1))
            e0, e1 = (e0 + z)[:3], (e1 + z)[:3]
            g = wellformed(t, o, 'line', 4)
            t.ok(g.dim == 1 and g.p == [1], 'a line is a linear curve')
            clamped(t, g, 0, 'parameter domain')
            u = inner(g, 0, 0)
            want = vadd([mul(sub(1, u), x) for x in e0],
                        [mul(u, x) for x in e1])
            t.eqs(point(evaluate(g, [u])), want, 'point of the line')
        return fn

    def center(self, cen):
        if cen == 'none':
            return None, [sc_const(0)] * 3
        if cen == 'scalar':
            s = sym('cx', 2, 3)
            return s, [s, sc_const(0), sc_const(0)]
        n = len(cen)
        b = block('c', (n,), 2, 3)
        return b, (flat(b) + [sc_const(0)] * 3)[:3]

    def build(self, t, kind, a, b, cen, rad):
        sym('bounded')
        r = sym('radius', .5, 3) if rad == 'symbol' else sc_const(1)
        c, ce = self.center(cen)
        kw = {}
        if rad == 'symbol':
            kw['radius'] = r
        if c is not None:
            kw['center'] = c
        if kind in ('c', 'f'):
            kw['angle'] = b
        elif kind in ('p', 'fp', 'sym'):
            kw['angle'] = (a, b)
        elif kind in ('l', 'fl'):
            kw['angle'] = L([a, b])
        elif kind == 'ps':
            kw['angle'] = (None, b)
        elif kind == 'pe':
            kw['angle'] = (a, None)
        elif kind == 'pn':
            kw['angle'] = (None, None)
        return r, ce, t.c.call(t.c.name('cad', 'circle'), **kw)

    def arc(self, kind, a, b, cen, rad):
        def fn(t):
            s, e = pi_times(a), pi_times(b)
            r, c, o = self.build(t, kind, s, e, cen, rad)
            n = max(1, -(-abs(b - a) * 2 // 1))
            self.check(t, o, r, c, s, e, int(n))
        return fn

    def free(self, kind, q, sg, cen):
        def fn(t):
            w = sym('sweep', PIF / 2 * (q + .05), PIF / 2 * (q + .95))
            if sg < 0:
                w = neg(w)
            if kind == 'f':
                s = sc_const(0)
            elif kind == 'sym':         # first segment bisected by +X
                s = neg(div(w, 2 * (q + 1)))
            else:
                s = sym('start', *((.1, 1) if (kind == 'fp') == (sg > 0)
                                   else (-4, -3)))
                if sg < 0 and kind == 'fp':
                    s = sym('start', -1, -.1)
                if sg < 0 and kind == 'fl':
                    s = sym('start', 3, 4)
            e = core.add(s, w)
            r, c, o = self.build(t, kind, s, e, cen, 'symbol')
            self.check(t, o, r, c, s, e, q + 1)
        return fn

    def check(self, t, o, r, c, s, e, n):
        g = wellformed(t, o, 'circle', 4)
        t.ok(g.dim == 1, 'a circle is a curve')
        clamped(t, g, 0, 'parameter domain')
        positive(t, g, 'circle')
        br = breaks_of(g, 0)
        k = len(br) - 1
        t.ok(k >= n, 'enough segments for the sweep', k)

        def on(u, th, what):
            want = vadd(c, [mul(r, core.cos(th)), mul(r, core.sin(th)),
                            sc_const(0)])
            return t.eqs(point(evaluate(g, [u])), want, what)
        sweep = sub(e, s)
        for i in range(k + 1):
            th = core.add(s, mul(sweep, div(i, k)))
            on(br[i], th, 'point at break %d' % i)
        for i in range(k):
            u = inner(g, 0, i)
            p = point(evaluate(g, [u]))
            d = [sub(x, y) for x, y in zip(p, c)]
            t.eq(core.add(mul(d[0], d[0]), mul(d[1], d[1])), mul(r, r),
                 'distance to the center on segment %d' % i)
            t.eq(d[2], sc_const(0), 'plane of segment %d' % i)
            m = div(core.add(br[i], br[i + 1]), 2)
            th = core.add(s, mul(sweep, div(2 * i + 1, 2 * k)))
            on(m, th, 'middle of segment %d' % i)


# ---------------------------------------------------------------------------

def multilinear(pts, nd, us):
    """interpolation of the corner values (flat, corners x nd)"""
    out = [sc_const(0)] * nd
    for n, ix in enumerate(itertools.product((0, 1), repeat=len(us))):
        c = sc_const(1)
        for i, u in zip(ix, us):
            c = mul(c, u if i else sub(1, u))
        out = [core.add(o, mul(c, x)) for o, x in zip(
            out, pts[n * nd:(n + 1) * nd])]
    return out


NAMES = ('linear', 'bilinear', 'trilinear')

# (shape, degree, continuity, wrap), None = default
GRIDS = [
    ((1,), None, None, None), ((3,), None, None, None),
    ((4,), 1, None, None), ((4,), 3, 0, None), ((2,), 4, 1, None),
    ((3,), 3, -1, None), ((3,), 3, -2, None), ((2,), (3,), (2,), None),
    ((6,), 2, None, True), ((5,), 3, 2, True), ((6,), 3, 1, True),
    ((4,), 1, 0, True), ((8,), 2, 0, True),
    ((2, 3), None, None, None), ((2, 3), (1, 2), None, None),
    ((3, 2), (3, 2), (0, 1), None), ((3, 2), (2, 3), -2, None),
    ((5, 2), (2, 1), None, (True, False)), ((2, 6), 2, (0, 1),
                                            (False, True)),
    ((5, 6), (2, 3), None, True),
    ((1, 2, 3), (1, 2, 1), None, None), ((2, 1, 2), 2, (0, 1, -1), None),
    ((2, 2, 5), (1, 1, 2), None, (False, False, True))]


@register
class Patches(Prop):
    pid = 'C18'

    def obligations(self):
        obs = []
        for k, name in enumerate(NAMES):
            for nd in (2, 3, 4):
                for kind in ('array', 'list'):
                    obs.append(Ob(self.pid, '%s:%s%d' % (name, kind, nd),
                                  self.patch(k + 1, nd, kind),
                                  site=CAD % name))
            obs.append(Ob(self.pid, name + ':default',
                          self.patch(k + 1, k + 1, None), site=CAD % name))
            obs.append(Ob(self.pid, name + ':reject', self.reject(k + 1),
                          site=CAD % name))
        for i, (sh, p, c, w) in enumerate(GRIDS):
            for lim in ('none', 'one', 'each', 'const'):
                for kind in ('list', 'array', 'scalar'):
                    if kind == 'scalar' and (len(sh) > 1):
                        continue
                    if kind != 'list' and lim not in ('one', 'each'):
                        continue
                    obs.append(Ob(self.pid, 'grid:%s:p%s:c%s:w%s:%s:%s' % (
                        'x'.join(map(str, sh)), j(p), j(c), j(w), lim, kind),
                        self.grid(sh, p, c, w, lim, kind),
                        site=CAD % 'grid'))
        for label, args in (
                ('degree 0', dict(shape=L([2]), degree=0)),
                ('continuity equal to the degree', dict(
                    shape=L([2, 2]), degree=2, continuity=2)),
                ('continuity below -degree', dict(
                    shape=L([2, 2]), degree=2, continuity=-3)),
                ('four axes', dict(shape=L([2, 2, 2, 2]))),
                ('three degrees for two axes', dict(
                    shape=L([2, 2]), degree=L([1, 2, 3]))),
                ('one degree in a list for two axes', dict(
                    shape=L([2, 2]), degree=L([2]))),
                ('negative degree', dict(shape=L([2]), degree=-1)),
                ('degree 0 on one axis', dict(shape=L([2, 2]),
                                              degree=L([1, 0]),
                                              continuity=0)),
                ('three continuities for two axes', dict(
                    shape=L([2, 2]), degree=2, continuity=L([0, 0, 0]))),
                ('continuity equal to the degree on one axis', dict(
                    shape=L([2, 2]), degree=L([3, 2]),
                    continuity=L([2, 2]))),
                ('continuity below -degree on one axis', dict(
                    shape=L([2, 2]), degree=L([3, 2]),
                    continuity=L([-3, -3]))),
                ('three limits', dict(shape=L([2, 2]),
                                      limits=L([0., 1., 2.]))),
                ('three pairs of limits for two axes', dict(
                    shape=L([2, 2]), limits=L([L([0., 1.])] * 3))),
                ('one pair of limits in a list for two axes', dict(
                    shape=L([2, 2]), limits=L([L([0., 1.])]))),
                ('limits of three values for two axes', dict(
                    shape=L([2, 2]), limits=L([L([0., 1., 2.])] * 2))),
                ('three wraps for two axes', dict(
                    shape=L([2, 2]), wrap=L([False, False, False]))),
                ('one wrap in a list for two axes', dict(
                    shape=L([2, 2]), wrap=L([False]))),
                ('no axes', dict(shape=L([]))),
                ('a matrix of shapes', dict(shape=L([L([2, 2])])))):
            obs.append(Ob(self.pid, 'grid:reject:' + label.replace(' ', '-'),
                          self.greject(label, args), site=CAD % 'grid'))
        return obs

    def reject(self, dim):
        def fn(t):
            f = t.c.name('cad', NAMES[dim - 1])
            for sh in ((3,) * dim + (3,), (2,) * (dim + 1) + (3,),
                       (2,) * (dim - 1) + (3, 3), (3,) + (2,) * dim,
                       (2,) * (dim - 1) + (3,), (4,) * dim + (3,),
                       (1,) * dim + (3,), (2,) * (dim - 1) + (1, 3)):
                t.raises(lambda: t.c.call(f, block('P', sh)),
                         'points of shape %r' % (sh,),
                         ('AssertionError', 'ValueError'))
        return fn

    def greject(self, label, kw):
        def fn(t):
            t.raises(lambda: t.c.call(t.c.name('cad', 'grid'), **kw), label,
                     ('AssertionError', 'ValueError', 'IndexError',
                      'TypeError'))
        return fn

    def patch(self, dim, nd, kind):
        def fn(t):
            f = t.c.name('cad', NAMES[dim - 1])
            sh = (2,) * dim + (nd,)
            if kind is None:
                o = t.c.call(f)
                e = []
                for ix in itertools.product((0, 1), repeat=dim):
                    e += [sc_const(Q(2 * i - 1, 2)) for i in ix]
            else:
                if nd == 4:
                    b = hom('P', (2,) * dim)
                else:
                    b = block('P', sh)
                e = flat(b)
                if kind == 'list':
                    b = nest(e, sh)
                o = t.c.call(f, b)
            g = wellformed(t, o, NAMES[dim - 1], 4)
            t.ok(g.dim == dim and g.p == [1] * dim, 'degrees and dimension')
            for k in range(dim):
                clamped(t, g, k, 'domain of axis %d' % k)
            us = [inner(g, k, 0) for k in range(dim)]
            got = evaluate(g, us)
            want = multilinear(e, nd, us)
            if nd < 4:
                t.eqs(point(got), (want + [sc_const(0)] * 3)[:3],
                      'interpolation of the corners')
            else:
                t.eqs(point(got), point(want), 'interpolation of the '
                      'homogeneous corners')
        return fn

    def grid(self, sh, p, c, w, lim, kind):
        def fn(t):
            dim = len(sh)

            def cont(x, isint=True):
                if kind == 'scalar':
                    return x[0] if isinstance(x, (list, tuple)) else x
                if not isinstance(x, tuple):
                    return x
                return arr(list(x), 'i4' if isint else '?') \
                    if kind == 'array' else L(list(x))
            kw = {}
            if p is not None:
                kw['degree'] = cont(p)
            if c is not None:
                kw['continuity'] = cont(c)
            if w is not None:
                kw['wrap'] = cont(w, False)
            if lim == 'none':
                lo, hi = [sc_const(0)] * dim, [sc_const(1)] * dim
            elif lim == 'const':
                lo, hi = [sc_const(-1)] * dim, [sc_const(3)] * dim
                kw['limits'] = (-1, 3)
            elif lim == 'one':
                a, b = sym('lo', -2, -1), sym('hi', 1, 2)
                lo, hi = [a] * dim, [b] * dim
                kw['limits'] = L([a, b]) if kind == 'list' else arr([a, b])
            else:
                lo = [sym('lo%d' % k, -2, -1) for k in range(dim)]
                hi = [sym('hi%d' % k, 1, 2) for k in range(dim)]
                kw['limits'] = L([L([a, b]) for a, b in zip(lo, hi)])
            o = t.c.call(t.c.name('cad', 'grid'), cont(tuple(sh)), **kw)
            g = wellformed(t, o, 'grid', 4)
            t.ok(g.dim == dim, 'dimension')
            P = [2] * dim if p is None else [p] * dim if isinstance(p, int) \
                else list(p)
            C = [q - 1 for q in P] if c is None else \
                [c] * dim if isinstance(c, int) else list(c)
            C = [x if x >= 0 else x + q for x, q in zip(C, P)]
            W = [bool(w)] * dim if not isinstance(w, tuple) else list(w)
            t.ok(g.p == P, 'degrees', '%r, expected %r' % (g.p, P))
            for k in range(dim):
                n, q, m = sh[k], P[k], P[k] - C[k]
                br = [core.add(lo[k], mul(div(i, n), sub(hi[k], lo[k])))
                      for i in range(n + 1)]
                inr = [x for b in br[1:-1] for x in [b] * m]
                U = g.U[k]
                if not W[k]:
                    t.eqs(U, [lo[k]] * (q + 1) + inr + [hi[k]] * (q + 1),
                          'knots of axis %d' % k)
                else:
                    t.eqs(g.domain(k), [lo[k], hi[k]],
                          'domain of axis %d' % k)
                    # periodic: the knots repeat after one period
                    per = sub(hi[k], lo[k])
                    full = [x for b in br[:-1] for x in [b] * m]
                    i0 = q - m + 1
                    t.eqs(U[i0:i0 + len(full) + m], full + [hi[k]] * m,
                          'knots of axis %d inside the domain' % k)
                    s = len(full)
                    for i in range(len(U) - s):
                        t.eq(sub(U[i + s], U[i]), per,
                             'periodic knots of axis %d' % k)
            us = []
            for k in range(dim):
                x = []
                for i in range(sh[k]):
                    d = set_iv(sc_atom('pos', k, i, rep='x%d_%d' % (k, i)),
                               (i + .1) / sh[k], (i + .9) / sh[k])
                    a = core.add(lo[k], mul(div(i, sh[k]),
                                            sub(hi[k], lo[k])))
                    js = [q for q, v in enumerate(g.U[k])
                          if same(v, a) is True]
                    if not t.ok(js, 'knot at the start of element %d of '
                                'axis %d' % (i, k)):
                        return
                    x.append((core.add(lo[k], mul(d, sub(hi[k], lo[k]))),
                              js[-1]))
                us.append(x)
            for u in combos(us, 8):
                u, sp = [x for x, _ in u], [q for _, q in u]
                want = (list(u) + [sc_const(0)] * 3)[:3]
                if t.eqs(point(evaluate(g, u, spans=sp)), want,
                         'identity map') is not True:
                    return
        return fn


def j(x):
    return '-' if x is None else ''.join(map(str, map(int, x))) \
        if isinstance(x, tuple) else str(int(x))


def nest(e, sh):
    if len(sh) == 1:
        return L(e)
    n = len(e) // sh[0]
    return L([nest(e[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])])
