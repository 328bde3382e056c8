"""Modelling: extrude, ruled, sweep, coons, revolve, join, compat, refine."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements
from .transforms import (sym, flat, point, neg, o_translate, o_rotate, unit)
from .primitives import inner, breaks_of, clamped, pi_times, CAD, Q

L = PI.PList


def obj(t, U, shape, fl):
    """object with given knots and flat homogeneous control data"""
    nc = len(fl)
    for s in shape:
        nc //= s
    w = backend.from_flat(tuple(shape) + (4,), [
        x for i in range(0, len(fl), nc) for x in fl[i:i + 4]])
    args = [L([arr(list(u)) for u in U]), w]
    if nc > 4:
        f = []
        for i in range(0, len(fl), nc):
            f += [div(x, fl[i + 3]) for x in fl[i + 4:i + nc]]
        args.append(backend.from_flat(tuple(shape) + (nc - 4,), f))
    return t.c.call(t.c.name('nurbs', 'NURBS'), *args)


def outer(p, how):
    """distances of the p + 1 end knots to the end of the domain: clamped,
    equidistant, a single outer knot, or repeated end knots"""
    return {'-': [0] * (p + 1), '1': list(range(p + 1)),
            '2': [2 * i for i in range(p + 1)], 'r': [0] + [1] * p,
            'k': [0, 0] + [1] * (p - 1)}[how]


def const_knots(p, inner_, a=0, b=1, ends='--'):
    """constant knots: inner_ = [(value, multiplicity)]"""
    U = [sc_const(Q(a) - d) for d in outer(p, ends[0])[::-1]]
    for v, m in inner_:
        U += [sc_const(Q(v))] * m
    return U + [sc_const(Q(b) + d) for d in outer(p, ends[1])]


def mk(t, axes, name, nf=0, rational=True):
    """template object over constant knots; axes = [(p, inner, a, b)]"""
    U = [const_knots(*a) for a in axes]
    shape = tuple(len(u) - a[0] - 1 for u, a in zip(U, axes))
    w = flat(hom('C' + name, shape, rational))
    if nf:
        f = flat(block('F' + name, shape + (nf,)))
        out = []
        for i in range(len(w) // 4):
            out += w[4 * i:4 * i + 4] + [mul(x, w[4 * i + 3])
                                         for x in f[nf * i:nf * i + nf]]
        w = out
    return obj(t, U, shape, w)


def pt(g, us):
    return point(evaluate(g, us))


def pf(g, us):
    """point and fields"""
    h = evaluate(g, us)
    return point(h) + [div(x, h[3]) for x in h[4:]]


def free(g, k, name='u'):
    """one free parameter per span of a constant-knot axis"""
    return [inner(g, k, i, name) for i in range(len(breaks_of(g, k)) - 1)]


def spars(m):
    return [[s.par('s%d' % i, b) for b in s.spans()]
            for i, s in enumerate(m.specs)]


EX = [((2, (3, 1, 3)),), ((3, (1,) * 8),), ((1, (2, 2)),),
      ((2, (3, 1, 3)), (1, (2, 1, 2))), ((1, (2, 2)), (2, (1,) * 6)),
      ((3, (4, 2, 4)), (2, (3, 3)))]
DISP = [('array3', None), ('array2', None), ('list3', None),
        ('tuple1', None), ('scalar', None), ('scalar', 0), ('scalar', 1),
        ('scalar', 2), ('scalar', -1)]


DBAD = {
    'four-components': lambda: [L([1., 2., 3., 4.])],
    'matrix': lambda: [L([L([1., 2., 3.])] * 2)],
    'axis3': lambda: [1., 3],
    'axis-4': lambda: [1., -4],
}


@register
class Extrude(Prop):
    pid = 'C19'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs in EX:
            obs.append(Ob(self.pid, 'extrude:%s:polynomial' % fid(specs),
                          self.extrude(specs, 1, 'array3', None, False),
                          site=CAD % 'extrude'))
            for nf in (0, 1):
                for kind, ax in DISP:
                    obs.append(Ob(self.pid, 'extrude:%s:nf%d:%s:%s' % (
                        fid(specs), nf, kind, ax),
                        self.extrude(specs, nf, kind, ax),
                        site=CAD % 'extrude'))
        for a in EX:
            for b in [(s,) for s in ((2, (3, 2, 3)), (1, (2, 2)),
                                     (2, (1,) * 6))]:
                for nf in (0, 1):
                    obs.append(Ob(self.pid, 'sweep:%s:%s:nf%d' % (
                        fid(a), fid(b), nf), self.sweep(a, b, nf),
                        site=CAD % 'sweep'))
                for rat in RATS:
                    obs.append(Ob(self.pid, 'sweep:%s:%s:%s' % (
                        fid(a), fid(b), ratid(rat)),
                        self.sweep(a, b, 0, rat), site=CAD % 'sweep'))
        for lab in DBAD:
            obs.append(Ob(self.pid, 'reject:extrude:' + lab,
                          self.badextrude(lab), site=CAD % 'extrude'))
        for f, dims in (('extrude', (3,)), ('sweep', (3, 1)),
                        ('sweep', (3, 2)), ('sweep', (2, 3)),
                        ('sweep', (1, 2)), ('sweep', (2, 2)),
                        ('sweep', (1, 3))):
            obs.append(Ob(self.pid, 'reject:%s:%s' % (
                f, ''.join(map(str, dims))), self.reject(f, dims),
                site=CAD % f))
        return obs

    def reject(self, f, dims):
        def fn(t):
            o = [make(t, ((1, (2, 2)),) * d, 'ab'[i]).obj
                 for i, d in enumerate(dims)]
            if f == 'extrude':
                o.append(arr([1., 2., 3.]))
            t.raises(lambda: t.c.call(t.c.name('cad', f), *o),
                     '%s of dimensions %r' % (f, dims),
                     ('AssertionError', 'ValueError'))
        return fn

    def badextrude(self, lab):
        def fn(t):
            o = make(t, ((1, (2, 2)),)).obj
            t.raises(lambda: t.c.call(t.c.name('cad', 'extrude'), o,
                                      *DBAD[lab]()), lab,
                     ('AssertionError', 'ValueError', 'IndexError'))
        return fn

    def extrude(self, specs, nf, kind, ax, rat=True):
        def fn(t):
            m = make(t, specs, nf=nf, rational=rat)
            g0 = Geo(t, m.obj)
            if kind == 'scalar':
                d = sym('d')
                e = [sc_const(0)] * 3
                e[ax or 0] = d
            else:
                n = int(kind[-1])
                d = block('d', (n,), 1, 2)
                e = (flat(d) + [sc_const(0)] * 3)[:3]
                d = d if kind[:-1] == 'array' else \
                    L(flat(d)) if kind[:-1] == 'list' else tuple(flat(d))
            a = [] if ax is None else [ax]
            r = t.c.call(t.c.name('cad', 'extrude'), m.obj, d, *a)
            t.ok(r is not m.obj, 'a new object')
            g = wellformed(t, r, 'extrude')
            t.ok(g.dim == g0.dim + 1, 'dimension')
            for k in range(g0.dim):
                t.eqs(g.U[k], g0.U[k], 'knots of axis %d' % k)
            clamped(t, g, g0.dim, 'domain of the new axis')
            v = inner(g, g0.dim, 0, 'v')
            for us in combos(spars(m), 6):
                p = pt(g0, us)
                for x in (sc_const(0), v, sc_const(1)):
                    want = [core.add(a, mul(x, b)) for a, b in zip(p, e)]
                    if t.eqs(pt(g, list(us) + [x]), want,
                             'point at %s, %s' % ([u.rep for u in us],
                                                  x.rep)) is not True:
                        return
        return fn

    def sweep(self, a, b, nf, rat=(True, True)):
        def fn(t):
            s = make(t, a, 'a', nf=nf, rational=rat[0])
            r = make(t, b, 'b', nf=nf, rational=rat[1])
            gs, gr = Geo(t, s.obj), Geo(t, r.obj)
            o = t.c.call(t.c.name('cad', 'sweep'), s.obj, r.obj)
            g = wellformed(t, o, 'sweep')
            t.ok(g.dim == gs.dim + 1, 'dimension')
            for k in range(g.dim):
                t.eqs(g.U[k], (gs.U + gr.U)[k], 'knots of axis %d' % k)
            for us in combos(spars(s) + [[r.specs[0].par('v', i) for i in
                                          r.specs[0].spans()]], 6):
                want = [core.add(x, y) for x, y in zip(
                    pt(gs, us[:-1]), pt(gr, us[-1:]))]
                if t.eqs(pt(g, us), want, 'section plus trajectory at %s' % (
                        [u.rep for u in us],)) is not True:
                    return
        return fn


# pairs of constant-knot axes lists
CK = [
    ([(1, [])], [(1, [])]),
    ([(2, [('1/2', 1)])], [(1, [])]),
    ([(1, [('1/2', 1)])], [(3, [])]),
    ([(2, [('1/3', 1)])], [(2, [('2/3', 2)])]),
    ([(3, [('1/2', 2)])], [(2, [('1/2', 1), ('3/4', 1)])]),
    ([(2, [], 0, 2)], [(2, [('1/2', 1)])]),
    ([(2, [(3, 1)], 2, 5)], [(1, [(3, 1)], 1, 4)]),
    ([(2, [], -1, 0)], [(3, [], 1, 3)]),
    ([(1, []), (2, [('1/2', 1)])], [(2, []), (1, [])]),
    ([(2, [('1/4', 1)]), (1, [])], [(2, [('1/2', 2)]), (1, [('1/2', 1)])]),
    ([(1, [], 0, 2), (1, [])], [(1, []), (2, [(2, 1)], 1, 3)]),
]


# rational and polynomial operands combined
RATS = [(True, False), (False, True), (False, False)]


def ratid(rat):
    return ''.join('pr'[x] for x in rat)


def ckid(ax):
    return '/'.join('p%d%s%s' % (a[0], ''.join(
        ',%s^%d' % im for im in a[1]), '' if len(a) < 3 else '@%s:%s' % a[2:4] + ''.join(a[4:]))
        for a in ax)


def domains(axs, k):
    """common domain of a list of constant-knot objects on axis k"""
    d = [(Q(a[k][2]), Q(a[k][3])) if len(a[k]) > 2 else (Q(0), Q(1))
         for a in axs]
    return min(x for x, _ in d), max(y for _, y in d), d


def remapped(u, d, lo, hi):
    """parameter of an object with domain d for u in [lo, hi]"""
    a, b = d
    return core.add(sc_const(a), mul(sub(u, sc_const(lo)),
                                     sc_const((b - a) / (hi - lo))))


def on_common(us, axs, i):
    out = []
    for k, u in enumerate(us):
        lo, hi, d = domains(axs, k)
        out.append(remapped(u, d[i], lo, hi))
    return out


# operands whose ends are not all clamped
UNCL = [
    ([(2, [('1/2', 1)])], [(2, [], 0, 1, '11')]),
    ([(2, [], 0, 1, '11')], [(2, [])]),
    ([(2, [], 0, 1, '1-')], [(2, [], 0, 1, '-1')]),
    ([(2, [], 0, 1, '11')], [(2, [('1/3', 1)], 0, 1, '11')]),
    ([(2, [], 0, 1, '12')], [(2, [('1/3', 1)], 0, 1, '21')]),
    ([(3, [], 0, 1, '1r')], [(2, [('1/3', 1)], 0, 1, 'k-')]),
    ([(2, [], 0, 2, '11')], [(2, [], 0, 1, '11')]),
    ([(1, [], 0, 1, '11')], [(1, [('1/2', 1)])]),
    ([(3, [], 0, 1, 'kk')], [(3, [('1/3', 2)], 0, 1, 'k1')]),
    ([(2, [], 0, 1, '--')], [(2, [], 0, 1, '-1')]),
    ([(2, [], 0, 1, '--')], [(2, [], 0, 1, 'r-')]),
    ([(2, [], 0, 1, '11'), (1, [])], [(2, []), (1, [], 0, 1, '1-')]),
]


@register
class Ruled(Prop):
    pid = 'C20'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for a, b in CK:
            for x, y in ((a, b), (b, a))[:1 if a == b else 2]:
                for nf in (0, 1):
                    obs.append(Ob(self.pid, 'ruled:%s:%s:nf%d' % (
                        ckid(x), ckid(y), nf), self.ruled(x, y, nf),
                        site=CAD % 'ruled'))
                for rat in RATS:
                    obs.append(Ob(self.pid, 'ruled:%s:%s:%s' % (
                        ckid(x), ckid(y), ratid(rat)),
                        self.ruled(x, y, 0, rat), site=CAD % 'ruled'))
        for spec in ((2, (3, 1, 3)), (3, (4, 2, 1, 4))):
            obs.append(Ob(self.pid, 'ruled:knots:%s' % fid((spec,)),
                          self.ruledk((spec,)), site=CAD % 'ruled'))
        for tup in UNCL:
            obs.append(Ob(self.pid, 'ruled:%s' % ':'.join(
                ckid(x) for x in tup), self.ruled(tup[0], tup[1], 1),
                site=CAD % 'ruled'))
        one = (1, [])
        C = [('linear', [one, one], [one, one]),
             ('degrees', [(2, []), (1, [])], [(1, []), (3, [])]),
             ('knots', [(2, [('1/2', 1)]), (2, [('1/3', 1)])],
              [(1, [('1/2', 1)]), (1, [])]),
             ('all', [(3, [('1/2', 1)]), (2, [])],
              [(2, [('1/4', 2)]), (3, [('1/2', 1)])]),
             ('domains', [(2, [], 1, 2), (1, [], 1, 2)],
              [(1, [(3, 1)], 2, 5), (2, [], 2, 5)]),
             ('unequal', [(1, [('3/2', 1)], 1, 2), (2, [('3/2', 1)], 1, 2)],
              [(2, [], -1, 0), (1, [], -2, 1)]),
             ('unequal2', [(1, [], -1, 0), (2, [], -2, 1)],
              [(1, [], 1, 2), (2, [('3/2', 1)], 1, 2)]),
             ('unclamped', [(1, [], 0, 1, '12'), (1, [], 0, 1, '12')],
              [(1, [('1/2', 1)], 0, 1, '11'), (1, [], 0, 1, '11')]),
             ('mixed', [(1, [], 0, 1, '12'), (1, [], 0, 1, '21')],
              [(1, [('1/2', 1)], 0, 1, '11'), (1, [], 0, 1, '1-')]),
             ('unclamped-one', [(1, [], 0, 1, '11'), one], [one, one]),
             ('unclamp', [(2, []), (2, [('1/2', 1)])],
              [(2, []), (3, [])])]
        for label, v, u in C:
            for rat in (False, True):
                obs.append(Ob(self.pid, 'coons:%s:%s' % (
                    label, 'rational' if rat else 'polynomial'),
                    self.coons(v, u, rat, label),
                    site=CAD % 'coons'))
        obs.append(Ob(self.pid, 'coons:reject', self.coonsrej(),
                      site=CAD % 'coons'))
        for dims in ((1, 2), (2, 1), (3, 3)):
            obs.append(Ob(self.pid, 'ruled:reject:%d%d' % dims,
                          self.ruledrej(dims), site=CAD % 'ruled'))
        return obs

    def ruledrej(self, dims):
        def fn(t):
            o = [mk(t, [(1, [])] * d, 'ab'[i]) for i, d in enumerate(dims)]
            t.raises(lambda: t.c.call(t.c.name('cad', 'ruled'), *o),
                     'ruled of dimensions %r' % (dims,),
                     ('AssertionError', 'ValueError'))
        return fn

    def ruled(self, a, b, nf, rat=(True, True)):
        def fn(t):
            A_, B_ = mk(t, a, 'a', nf, rat[0]), mk(t, b, 'b', nf, rat[1])
            ga, gb = Geo(t, A_), Geo(t, B_)
            r = t.c.call(t.c.name('cad', 'ruled'), A_, B_)
            self.chk(t, r, ga, gb, [a, b])
        return fn

    def ruledk(self, specs):
        def fn(t):
            a = make(t, specs, 'a', kname='')
            b = make(t, specs, 'b', kname='')
            ga, gb = Geo(t, a.obj), Geo(t, b.obj)
            r = t.c.call(t.c.name('cad', 'ruled'), a.obj, b.obj)
            g = wellformed(t, r, 'ruled')
            v = inner(g, g.dim - 1, 0, 'v')
            for us in combos(spars(a), 6):
                self.rule(t, g, list(us), v, pt(ga, us), pt(gb, us))
        return fn

    def chk(self, t, r, ga, gb, axs):
        g = wellformed(t, r, 'ruled')
        d = ga.dim
        t.ok(g.dim == d + 1, 'dimension')
        for k in range(d):
            lo, hi, _ = domains(axs, k)
            t.eqs(g.domain(k), [sc_const(lo), sc_const(hi)],
                  'common domain of axis %d' % k)
        clamped(t, g, d, 'domain of the ruling')
        v = inner(g, d, 0, 'v')
        for us in combos([free(g, k) for k in range(d)], 6):
            self.rule(t, g, list(us), v, pt(ga, on_common(us, axs, 0)),
                      pt(gb, on_common(us, axs, 1)))

    def rule(self, t, g, us, v, p, q):
        at = ' at (%s)' % ', '.join(u.rep for u in us)
        t.eqs(pt(g, us + [sc_const(0)]), p, 'first object' + at)
        t.eqs(pt(g, us + [sc_const(1)]), q, 'second object' + at)
        s = pt(g, us + [v])
        a = [sub(x, y) for x, y in zip(s, p)]
        b = [sub(x, y) for x, y in zip(q, p)]
        for i, j in ((0, 1), (1, 2), (2, 0)):
            t.eq(mul(a[i], b[j]), mul(a[j], b[i]),
                 'rulings are straight' + at)

    def curves(self, t, v, u, rat, near=False):
        """four curves sharing their end points with unit end weights"""
        P = [[flat(block('P%d%d' % (i, j), (3,))) + [sc_const(1)]
              for j in (0, 1)] for i in (0, 1)]
        if near:
            for p in P[0] + P[1]:
                for x in p[:3]:
                    set_iv(x, 1, 2)

        def curve(ax, name, a, b):
            U = const_knots(*ax)
            n = len(U) - ax[0] - 1
            w = flat(hom('C' + name, (n,), rat))
            return obj(t, [U], (n,), a + w[4:-4] + b)
        C00 = curve(v[0], '00', P[0][0], P[0][1])
        C01 = curve(v[1], '01', P[1][0], P[1][1])
        C10 = curve(u[0], '10', P[0][0], P[1][0])
        C11 = curve(u[1], '11', P[0][1], P[1][1])
        return C00, C01, C10, C11

    def coons(self, v, u, rat, label):
        def fn(t):
            C00, C01, C10, C11 = self.curves(t, v, u, rat)
            if label == 'unclamp':
                for c in (C00, C10, C11):
                    t.c.m(c, 'unclamp', 0)
            gs = [Geo(t, c) for c in (C00, C01, C10, C11)]
            r = t.c.call(t.c.name('cad', 'coons'),
                         L([L([C00, C01]), L([C10, C11])]))
            g = wellformed(t, r, 'coons')
            t.ok(g.dim == 2, 'dimension')
            dom = []
            for k, ax in enumerate((u, v)):
                ax = [[q] for q in list(ax) + [(1, [])]]
                dom.append(domains(ax, 0)[:2])
                t.eqs(g.domain(k), [sc_const(x) for x in dom[k]],
                      'domain of axis %d' % k)
            for side, axis in itertools.product((0, 1), repeat=2):
                # side of one direction, curve along the other one
                c = gs[side if axis else 2 + side]
                a, b = dom[axis]
                for x in free(g, axis, 'uv'[axis]):
                    us = [x, x]
                    us[1 - axis] = sc_const(dom[1 - axis][side])
                    y = x
                    if any(len(q) > 2 for q in u + v):
                        e, f = c.domain(0)
                        y = core.add(e, mul(div(sub(x, sc_const(a)),
                                                sc_const(b - a)), sub(f, e)))
                    t.eqs(pt(g, us), pt(c, [y]), 'curve %d along axis %d' % (
                        side, axis))
            if all(a == (1, []) for a in v + u) and not rat:
                x, y = inner(g, 0, 0, 'u'), inner(g, 1, 0, 'v')
                from .primitives import multilinear
                e = []
                for i, j in itertools.product((0, 1), repeat=2):
                    e += pt(g, [sc_const(i), sc_const(j)])
                t.eqs(pt(g, [x, y]), multilinear(e, 3, [x, y]),
                      'bilinear when all the curves are straight')
        return fn

    def coonsrej(self):
        def fn(t):
            one = (1, [])
            C00, C01, C10, C11 = self.curves(t, [one, one], [one, one],
                                             False, True)
            f = t.c.name('cad', 'coons')
            s2 = mk(t, [one, one], 'x')
            kinds = ('AssertionError', 'ValueError', 'TypeError')

            def refused(cs, what):
                t.raises(lambda: t.c.call(f, L([L(cs[:2]), L(cs[2:])])),
                         what, kinds)
            four = [C00, C01, C10, C11]
            for k in range(4):
                refused(four[:k] + [s2] + four[k + 1:],
                        'a surface as curve %d' % k)
            refused([s2] * 4, 'four surfaces')
            t.raises(lambda: t.c.call(f, L([L([C00, C01, C10]),
                                            L([C10, C11])])),
                     'five curves', kinds)
            # every end of every curve moved alone, along every axis
            for k, side, ax in itertools.product(range(4), (0, 1), range(3)):
                for n, gap in (('far', sc_const(900)),
                               ('near', set_iv(sc_atom('gap', rep='gap'),
                                               1e-3, 2e-3)),
                               ('close', set_iv(sc_atom('gap2', rep='gap2'),
                                                3e-9, 6e-9))):
                    g = Geo(t, four[k])
                    cw = list(g.flat)
                    x = ax if side == 0 else len(cw) - 4 + ax
                    cw[x] = core.add(cw[x], gap)
                    c = obj(t, [g.U[0]], g.shape[:1], cw)
                    refused(four[:k] + [c] + four[k + 1:],
                            'end %d of curve %d moved along %s (%s)' % (
                                side, k, 'xyz'[ax], n))
        return fn


AXES = [('z', 2), ('x', 0), ('y', 1), ('default', None)]
VEC = [s for s in itertools.product((0, 1, -1), repeat=3) if any(s)]


def box(name, lo, hi):
    return set_iv(sc_atom('box', name, lo, hi, rep=name), lo, hi)


def rational_unit(s):
    """unit vector with the given component signs, as rational functions of
    two free numbers, so that all the norms met are exact"""
    one = sc_const(1)
    if s[0] == 0 and s[1] == 0:
        return [sc_const(0), sc_const(0), sc_const(s[2])], None
    m = {1: box('m', .3, .8), -1: box('m', 1.3, 2), 0: one}[s[2]]
    q = {(1, 1): box('q', .2, .8), (-1, 1): box('q', 1.2, 2),
         (-1, -1): box('q', -2, -1.2), (1, -1): box('q', -.8, -.2),
         (0, 1): one, (0, -1): neg(one)}.get(s[:2], sc_const(0))
    if s[0] == -1 and s[1] == 0:
        m = neg(m)
    q2, m2 = mul(q, q), mul(m, m)
    a = div(mul(2, m), core.add(one, m2))
    k = core.add(one, q2)
    c, d = div(sub(one, q2), k), div(mul(2, q), k)
    u2 = div(sub(one, m2), core.add(one, m2))
    if s[2]:
        set_iv(u2, *((.2195, .835) if s[2] > 0 else (-.6, -.2564)))
    return [mul(a, c), mul(a, d), u2], (c, d)


def frame(s):
    """u, e1, e2 right-handed orthonormal"""
    u, cd = rational_unit(s)
    z = sc_const(0)
    e1 = [sc_const(1), z, z] if cd is None else [neg(cd[1]), cd[0], z]
    e2 = [sub(mul(u[1], e1[2]), mul(u[2], e1[1])),
          sub(mul(u[2], e1[0]), mul(u[0], e1[2])),
          sub(mul(u[0], e1[1]), mul(u[1], e1[0]))]
    return u, e1, e2


QUAD = {0: (.2, .8), 1: (1.2, 2), 2: (-2, -1.2), 3: (-.8, -.2)}


@register
class Revolve(Prop):
    pid = 'C22'
    variants = VARIANTS

    def obligations(self):
        obs = []
        angs = ('none', 'free0', 'free1', 'free2', 'free3', 'neg1', 'pair',
                'half')
        s1, s2 = ((1, (2, 2)),), ((1, (2, 2)), (1, (2, 2)))
        s3 = ((2, (3, 3)),)
        for label, ax in AXES:
            for ang in angs:
                for pk in ('array3', 'list2', 'scalar', 'tuple1'):
                    if pk != 'array3' and ang not in ('none', 'free0'):
                        continue
                    obs.append(Ob(self.pid, 'revolve:%s:%s:%s' % (
                        label, ang, pk), self.rev(s1, ax, ang, pk),
                        site=CAD % 'revolve'))
            for sp in (s2, s3):
                for nf in (0, 1):
                    obs.append(Ob(self.pid, 'revolve:%s:%s:nf%d' % (
                        label, fid(sp), nf), self.rev(
                            sp, ax, 'free0', 'array3', nf),
                        site=CAD % 'revolve'))
        for s in VEC:
            v = ''.join('0+-'[q] for q in s)
            for ang in ('none', 'free1', 'neg1'):
                obs.append(Ob(self.pid, 'revolve:%s:%s' % (v, ang),
                              self.rev(s1, s, ang, 'array3'),
                              site=CAD % 'revolve'))
        for n in (1, 2):
            obs.append(Ob(self.pid, 'revolve:list%d' % n, self.rev(
                s1, (1,) * n, 'free1', 'array3'), site=CAD % 'revolve'))
        for label, ax in AXES:
            for ang in ('none', 'free1'):
                obs.append(Ob(self.pid, 'pole:%s:%s' % (label, ang),
                              self.rev(s1, ax, ang, 'pole'),
                              site=CAD % 'revolve'))
        for lab in ('volume', 'zero', 'axis3', 'point4', 'axis-4', 'axis[4]',
                    'axis[0]', 'matrix', 'zero2', 'zero1', 'points'):
            obs.append(Ob(self.pid, 'reject:' + lab, self.rej(lab),
                          site=CAD % 'revolve'))
        return obs

    def rej(self, lab):
        def fn(t):
            m = make(t, ((1, (2, 2)),) * (3 if lab == 'volume' else 1))
            a = [m.obj, arr([0., 0., 0.]), 2]
            if lab == 'zero':
                a[2] = arr([0., 0., 0.])
            elif lab == 'axis3':
                a[2] = 3
            elif lab == 'point4':
                a[1] = arr([0., 0., 0., 1.])
            elif lab == 'points':
                a[1] = L([L([0., 0., 0.])] * 2)
            elif lab == 'axis-4':
                a[2] = -4
            elif lab == 'matrix':
                a[2] = L([L([0., 0., 1.])] * 2)
            elif lab == 'axis[4]':
                a[2] = L([0., 0., 1., 1.])
            elif lab == 'axis[0]':
                a[2] = L([])
            elif lab in ('zero1', 'zero2'):
                a[2] = L([0.] * int(lab[-1]))
            t.raises(lambda: t.c.call(t.c.name('cad', 'revolve'), *a), lab,
                     ('AssertionError', 'ValueError', 'IndexError'))
        return fn

    def rev(self, specs, ax, ang, pk, nf=0):
        def fn(t):
            sym('bounded')
            kw = {}
            if ang == 'free0':
                kw['angle'] = sym('angle', .1, 1.5)
            elif ang == 'free1':
                kw['angle'] = sym('angle', 1.6, 3.1)
            elif ang == 'free2':
                kw['angle'] = sym('angle', 3.2, 4.7)
            elif ang == 'free3':
                kw['angle'] = sym('angle', 4.8, 6.2)
            elif ang == 'neg1':
                kw['angle'] = sym('angle', -3.1, -1.6)
            elif ang == 'pair':
                kw['angle'] = (sym('start', -1, -.8), sym('end', .1, .7))
            elif ang == 'half':
                kw['angle'] = pi_times(1)
            if pk == 'pole':
                e = [sc_const(0)] * 3
                o = arr(list(e))
            else:
                n = 1 if pk == 'scalar' else int(pk[-1])
                o = block('o', (n,), 60, 90)
                e = (flat(o) + [sc_const(0)] * 3)[:3]
                o = {'s': flat(o)[0], 'a': o, 'l': L(flat(o)),
                     't': tuple(flat(o))}[pk[0]]
            if ax is None or isinstance(ax, int):
                s = tuple(int(i == (2 if ax is None else ax))
                          for i in range(3))
                u, e1, e2 = frame(s)
                args = [] if ax is None else [ax]
            else:
                s = (ax + (0, 0))[:3]
                u, e1, e2 = frame(s)
                k = sc_const(3) if s[:2] == (0, 0) else box('len', .5, 3)
                core.declare_root(k)
                if any(s[:2]):
                    core.declare_root(core.absval(sub(mul(u[0], e1[1]),
                                                      mul(u[1], e1[0]))))
                v = [mul(k, x) for x in u]
                args = [arr(v) if len(ax) == 3 else L(v[:len(ax)])]
            # control points in cylindrical coordinates about the axis
            m = Made()
            m.specs = [Spec(*q) for q in specs]
            U = [q.knots('k' + 'uvw'[i]) for i, q in enumerate(m.specs)]
            shape = tuple(q.n for q in m.specs)
            fl = []
            for n, ix in enumerate(itertools.product(
                    *[range(q) for q in shape])):
                w = weights_atom('C')(ix)
                r = box('r%d' % n, .5, 2)
                q = box('t%d' % n, *QUAD[n % 4])
                if pk == 'pole' and n == 0:
                    r = sc_const(0)
                z = box('z%d' % n, -2, 2)
                q2 = mul(q, q)
                c = mul(r, div(sub(1, q2), core.add(1, q2)))
                d = mul(r, div(mul(2, q), core.add(1, q2)))
                for i in range(3):
                    x = core.add(e[i], core.add(core.add(
                        mul(c, e1[i]), mul(d, e2[i])), mul(z, u[i])))
                    fl.append(mul(w, x))
                fl.append(w)
                for i in range(nf):
                    fl.append(mul(w, box('f%d_%d' % (n, i), -9, 9)))
            m.obj = obj(t, U, shape, fl)
            g0 = Geo(t, m.obj)
            r = t.c.call(t.c.name('cad', 'revolve'), m.obj, o, *args, **kw)
            arc = Geo(t, t.c.call(t.c.name('cad', 'circle'), **kw))
            g = wellformed(t, r, 'revolve')
            t.ok(g.dim == g0.dim + 1, 'dimension')
            for k in range(g0.dim):
                t.eqs(g.U[k], g0.U[k], 'knots of axis %d' % k)
            t.eqs(g.U[g0.dim], arc.U[0], 'knots of the circular axis')
            for us in combos(spars(m), 3):
                p = pt(g0, us)
                p = [sub(a, b) for a, b in zip(p, e)]
                ts = [arc.U[0][0], arc.U[0][-1]] + free(arc, 0, 'a')
                for x in ts:
                    c = pt(arc, [x])
                    want = rotated(p, u, c[0], c[1])
                    want = [core.add(a, b) for a, b in zip(want, e)]
                    if t.eqs(pt(g, list(us) + [x]), want,
                             'rotated point at %s, %s' % (
                                 [y.rep for y in us], x.rep)) is not True:
                        return
        return fn


def rotated(h, u, c, s):
    """rotation about the unit vector u by the angle with cosine c, sine s"""
    d = sc_const(0)
    for x, y in zip(u, h):
        d = core.add(d, mul(x, y))
    cr = [sub(mul(u[1], h[2]), mul(u[2], h[1])),
          sub(mul(u[2], h[0]), mul(u[0], h[2])),
          sub(mul(u[0], h[1]), mul(u[1], h[0]))]
    k = mul(sub(sc_const(1), c), d)
    return [core.add(core.add(mul(c, h[i]), mul(s, cr[i])), mul(k, u[i]))
            for i in range(3)]
