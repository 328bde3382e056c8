"""Slices, iso-parametric extraction and boundaries."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI

SITE = 'igakit/nurbs.py NURBS.%s'


def positions(s, few=False):
    """(name, f(m, axis) -> scalar, breakpoint position) of parameters of an
    axis: inside spans, at knots, at the ends of the domain; position is a
    sortable number"""
    out = []
    lo, hi = s.domain()
    for b in s.spans():
        out.append(('s%d' % b, (lambda b: lambda m, ax: m.specs[ax].par(
            'x%d' % b, b, .45, .5))(b), b + .475))
    for i in range(lo, hi + 1):
        out.append(('k%d' % i, (lambda i: lambda m, ax: m.U[ax][
            sum(m.specs[ax].mults[:i])])(i), float(i)))
    out.sort(key=lambda x: x[2])
    return out


def sub_boxes(a, b):
    """sampling boxes (span, lo, hi) between positions a < b"""
    out = []
    i = int(a)
    while i < b:
        lo, hi = .1, .9
        if a > i:
            lo = a - i + .05
        if b < i + 1:
            hi = b - i - .05
        if lo < hi:
            out.append((i, lo, hi))
        i += 1
    return out


@register
class Slicing(Prop):
    pid = 'C09'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            dim = len(specs)
            f = fid(specs)
            for axis in range(dim):
                s = Spec(*specs[axis])
                pos = positions(s)
                pairs = [(a, b) for a, b in itertools.combinations(
                    range(len(pos)), 2)]
                if dim > 1 or len(pairs) > 16:
                    keep = (0, 1, len(pos) - 2, len(pos) - 1)
                    pairs = [(a, b) for a, b in pairs
                             if a in keep and b in keep or b == a + 1]
                if dim > 2:
                    pairs = pairs[:2]
                for a, b in pairs:
                    obs.append(Ob(self.pid, 'slice:%s:axis%d:%s-%s' % (
                        f, axis, pos[a][0], pos[b][0]), self.slice(
                            specs, axis, pos[a], pos[b]), tier,
                        site=SITE % 'slice'))
                for a, b in ((None, pos[-2]), (pos[1], None), (None, None)):
                    obs.append(Ob(self.pid, 'slice:%s:axis%d:%s-%s' % (
                        f, axis, a and a[0] + 'n', b and b[0] + 'n'),
                        self.slice(specs, axis, a, b), tier,
                        site=SITE % 'slice'))
                obs.append(Ob(self.pid, 'slice:%s:axis%d:near' % (f, axis),
                              self.slice(specs, axis, pos[0], pos[-1],
                                         near=True), tier,
                              site=SITE % 'slice'))
                for q in pos if dim == 1 or len(pos) < 6 else \
                        pos[:3] + pos[-2:]:
                    obs.append(Ob(self.pid, 'extract:%s:axis%d:%s' % (
                        f, axis, q[0]), self.extract(specs, axis, q), tier,
                        site=SITE % 'extract'))
                for side in (0, 1):
                    obs.append(Ob(self.pid, 'boundary:%s:axis%d:%d' % (
                        f, axis, side), self.boundary(specs, axis, side),
                        tier, site=SITE % 'boundary'))
            obs.append(Ob(self.pid, 'negative:%s' % f, self.negative(specs),
                          tier, site=SITE % 'slice'))
        return obs

    def slice(self, specs, axis, pa, pb, near=False):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            a0, b0 = g0.domain(axis)
            lo, hi = s.domain()
            va = pa and pa[1](m, axis)
            vb = pb and pb[1](m, axis)
            if near:
                e = set_iv(sc_atom('eps'), 1e-7 * scale(), 2e-7 * scale())
                va, vb = core.add(va, e), sub(vb, e)
            r = t.c.m(m.obj, 'slice', axis, va, vb)
            t.ok(r is not m.obj, 'slice returns a new object')
            t.ok(r.cls is m.obj.cls, 'slice keeps the type')
            a = a0 if va is None else va
            b = b0 if vb is None else vb
            g1 = wellformed(t, r, 'slice', g0.nc)
            p = s.p
            t.ok(g1.p == g0.p, 'degrees', '%r' % g1.p)
            want = [a] * (p + 1) + [x for x in g0.U[axis]
                                    if lt(a, x) and lt(x, b)] + [b] * (p + 1)
            t.eqs(g1.U[axis], want, 'knots of the slice')
            for k in range(g0.dim):
                if k != axis:
                    t.eqs(g1.U[k], g0.U[k], 'knots of axis %d' % k)
            qa = lo if pa is None else pa[2]
            qb = hi if pb is None else pb[2]
            pars = [[q.par('s%d' % k, b_) for b_ in q.spans()]
                    for k, q in enumerate(m.specs)]
            pars[axis] = [s.par('s%d' % axis, *bx)
                          for bx in sub_boxes(qa, qb)]
            for us in combos(pars, 8):
                if proj_same(t, evaluate(g1, us), evaluate(g0, us),
                             'geometry of the slice') is not True:
                    break
        return fn

    def check_extract(self, t, m, g0, r, axis, v, what):
        t.ok(r is not m.obj, what + ' returns a new object')
        g1 = Geo(t, r)
        t.ok(g1.dim == g0.dim - 1, what + ': dimension', g1.dim)
        rest = [k for k in range(g0.dim) if k != axis]
        t.ok(g1.shape == tuple(g0.shape[k] for k in rest) + (g0.nc,),
             what + ': extents', '%r' % (g1.shape,))
        if g1.dim:
            wellformed(t, r, what, g0.nc)
        for k, j in enumerate(rest):
            t.eqs(g1.U[k], g0.U[j], what + ': knots')
        allp = samples(m.specs)
        for us in combos([allp[j] for j in rest], 6):
            full = list(us)
            full.insert(axis, v)
            h1 = evaluate(g1, us) if g1.dim else g1.cp()
            if proj_same(t, h1, evaluate(g0, full), what + ': geometry') \
               is not True:
                break

    def extract(self, specs, axis, q):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            v = q[1](m, axis)
            r = t.c.m(m.obj, 'extract', axis, v)
            self.check_extract(t, m, g0, r, axis, v, 'extract')
        return fn

    def boundary(self, specs, axis, side):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            v = g0.domain(axis)[side]
            r = t.c.m(m.obj, 'boundary', axis, side)
            self.check_extract(t, m, g0, r, axis, v, 'boundary')
        return fn

    def negative(self, specs):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[-1]
            x = s.par('x', s.spans()[0], .4, .5)
            r = Geo(t, t.c.m(m.obj, 'slice', -1, x, None))
            w = Geo(t, t.c.m(m.obj, 'slice', g0.dim - 1, x, None))
            t.eqs(r.flat, w.flat, 'axis -1 is the last axis')
            t.ok(r.shape == w.shape, 'axis -1 is the last axis')
            self.check_extract(t, m, g0, t.c.m(m.obj, 'extract', -1, x),
                               g0.dim - 1, x, 'extract')
            self.check_extract(t, m, g0, t.c.m(m.obj, 'boundary', -1, 1),
                               g0.dim - 1, g0.domain(g0.dim - 1)[1],
                               'boundary')
        return fn
