"""Knot insertion, refinement, clamping, removal, degree elevation."""
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import pyinterp as PI

SITE = 'igakit/nurbs.py NURBS.%s'


def merged(U, extra):
    out = list(U)
    for x in extra:
        k = len(out)
        while k and lt(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def others_same(t, g0, g1, axis, what):
    for k in range(g0.dim):
        if k != axis:
            t.eqs(g1.U[k], g0.U[k], what + ': knots of axis %d' % k)
            t.eq(g1.shape[k], g0.shape[k], what + ': extent of axis %d' % k)


@register
class Insert(Prop):
    pid = 'C05'
    variants = VARIANTS
    rule = ('result of insert/refine, evaluated by Cox-de Boor at a free '
            'parameter of every span, has the value numbers of the source '
            'object')

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            for axis in range(len(specs)):
                obs += self.insert(specs, axis, tier)
                obs += self.refine(specs, axis, tier)
        return obs

    def insert(self, specs, axis, tier):
        s = Spec(*specs[axis])
        cases = [('span%d' % b, b, None) for b in s.spans()]
        lo, hi = s.domain()
        cases += [('knot%d' % i, None, i) for i in range(lo, hi + 1)
                  if min(s.mults[i], s.p) < s.p]
        if len(specs) > 1:
            cases = cases[:2]
        out = []
        for cn, span, knot in cases:
            room = s.p - (0 if knot is None else min(s.mults[knot], s.p))
            many = range(1, room + 1) if len(specs) == 1 else (1, room)
            for times in sorted(set(many) | {None}, key=str):
                if times == 0:
                    continue
                out.append(Ob(self.pid, 'insert:%s:axis%d:%s:x%s' % (
                    fid(specs), axis, cn, times), self.mk_insert(
                        specs, axis, span, knot, times, room), tier,
                    site=SITE % 'insert'))
        return out

    def mk_insert(self, specs, axis, span, knot, times, room):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            if knot is None:
                x = s.par('x', span, 0.4, 0.5)
                extra = {axis: [(0.05, 0.35), (0.55, 0.95)]}
            else:
                x = m.U[axis][sum(s.mults[:knot])]
                extra = None
            r = t.c.m(m.obj, 'insert', axis, x, times)
            t.ok(r is m.obj, 'insert returns the object itself')
            g1 = wellformed(t, r, 'insert', g0.nc)
            n = room if times is None else times
            knots_are(t, g1, axis, merged(g0.U[axis], [x] * n),
                      'knots after insertion')
            others_same(t, g0, g1, axis, 'insert')
            same_geometry(t, g0, g1, m.specs, 'geometry', extra)
        return fn

    def refine(self, specs, axis, tier):
        s = Spec(*specs[axis])
        sp = s.spans()
        lo, hi = s.domain()
        cases = [('one', [(sp[0], .4, .5)], []),
                 ('two-in-a-span', [(sp[-1], .3, .35), (sp[-1], .6, .65)],
                  []),
                 ('unsorted', [(sp[-1], .6, .65), (sp[0], .3, .35)], [])]
        if s.p > 1:
            cases.append(('double', [(sp[0], .4, .5)] * 2, []))
            kn = [i for i in range(lo + 1, hi) if s.mults[i] < s.p]
            if kn:
                cases.append(('knot', [(sp[0], .4, .5)], kn[:1]))
                cases.append(('knot-full', [(sp[-1], .4, .5)],
                              kn[-1:] * (s.p - s.mults[kn[-1]])))
            if len(sp) > 1:
                cases.append(('every-span', [(b, .4, .5) for b in sp], kn))
            if s.p > 2:
                cases.append(('full', [(sp[0], .4, .5)] * s.p, []))
                cases.append(('mixed', [(sp[-1], .3, .35)] * (s.p - 1) +
                              [(sp[-1], .6, .65)] * 2, []))
            if s.mults[lo] < s.p:
                cases.append(('left-end', [], [lo]))
            if s.mults[hi] < s.p:
                cases.append(('right-end', [], [hi]))
        if len(specs) > 1:
            cases = cases[2:4]
        return [Ob(self.pid, 'refine:%s:axis%d:%s' % (fid(specs), axis, cn),
                   self.mk_refine(specs, axis, free, kn), tier,
                   site=SITE % 'refine') for cn, free, kn in cases]

    def mk_refine(self, specs, axis, free, kn):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            xs = [s.par('x', b, lo, hi) for b, lo, hi in free]
            xs += [m.U[axis][sum(s.mults[:i])] for i in kn]
            r = t.c.m(m.obj, 'refine', axis, arr(list(xs)))
            t.ok(r is m.obj, 'refine returns the object itself')
            g1 = wellformed(t, r, 'refine', g0.nc)
            knots_are(t, g1, axis, merged(g0.U[axis], xs),
                      'knots after refinement')
            others_same(t, g0, g1, axis, 'refine')
            same_geometry(t, g0, g1, m.specs, 'geometry', {
                axis: [(.05, .25), (.36, .39), (.51, .59), (.7, .95)]})
        return fn


def split_mults(mults, p):
    U = []
    for i, m in enumerate(mults):
        U += [i] * m
    return U


@register
class Clamp(Prop):
    pid = 'C06'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            for axis in range(len(specs)):
                for side in (None, 0, 1):
                    if side is not None and len(specs) > 1 and axis:
                        continue
                    obs.append(Ob(self.pid, 'clamp:%s:axis%d:side%s' % (
                        fid(specs), axis, side),
                        self.clamp(specs, axis, side), tier,
                        site=SITE % 'clamp'))
                s = Spec(*specs[axis])
                if not s.clamped():
                    continue
                for side in (None, 0, 1):
                    for C in [None] + list(range(s.p)):
                        if len(specs) > 1 and (side, C) not in (
                                (None, None), (0, 0), (1, s.p - 1)):
                            continue
                        obs.append(Ob(
                            self.pid, 'unclamp:%s:axis%d:side%s:C%s' % (
                                fid(specs), axis, side, C),
                            self.unclamp(specs, axis, side, C), tier,
                            site=SITE % 'unclamp'))
        return obs

    def clamp(self, specs, axis, side):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            p = s.p
            args = [axis] if side is None else [axis, side]
            r = t.c.m(m.obj, 'clamp', *args)
            t.ok(r is m.obj, 'clamp returns the object itself')
            g1 = wellformed(t, r, 'clamp', g0.nc)
            others_same(t, g0, g1, axis, 'clamp')
            U0, U1 = g0.U[axis], g1.U[axis]
            a, b = U0[p], U0[-p - 1]
            if side in (None, 0):
                t.eqs(U1[:p + 1], [a] * (p + 1), 'left end knots')
            else:
                t.eqs(U1[:p + 1], U0[:p + 1], 'untouched left end')
            if side in (None, 1):
                t.eqs(U1[-p - 1:], [b] * (p + 1), 'right end knots')
            else:
                t.eqs(U1[-p - 1:], U0[-p - 1:], 'untouched right end')
            ins = lambda U: [x for x in U if lt(a, x) and lt(x, b)]
            t.eqs(ins(U1), ins(U0), 'interior knots')
            same_geometry(t, g0, g1, m.specs, 'geometry')
        return fn

    def unclamp(self, specs, axis, side, C):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            p = s.p
            kw = {}
            if side is not None:
                kw['side'] = side
            if C is not None:
                kw['continuity'] = C
            r = t.c.m(m.obj, 'unclamp', axis, **kw)
            t.ok(r is m.obj, 'unclamp returns the object itself')
            g1 = wellformed(t, r, 'unclamp', g0.nc)
            others_same(t, g0, g1, axis, 'unclamp')
            U0, U1 = g0.U[axis], g1.U[axis]
            t.eq(len(U1), len(U0), 'number of knots')
            t.eqs(U1[p:-p], U0[p:-p], 'knots of the domain')
            c = p - 1 if C is None else C
            n = len(U0) - p - 2
            a, b = U0[p], U0[n + 1]
            left = side in (None, 0)
            right = side in (None, 1)
            near = min(c + 1, n - p + 1)
            # an end with continuity c keeps multiplicity p - c
            if left:
                t.eqs(U1[c + 1:p + 1], [a] * (p - c),
                      'left end multiplicity')
                t.ok(lt(U1[c], a), 'left end unclamped', U1[c].rep)
                t.eqs([sub(a, U1[c - i]) for i in range(near)],
                      [sub(b, U0[n - i]) for i in range(near)],
                      'spacing left of the domain')
            else:
                t.eqs(U1[:p], U0[:p], 'untouched left end')
            if right:
                t.eqs(U1[n + 1:n + 1 + p - c], [b] * (p - c),
                      'right end multiplicity')
                t.ok(lt(b, U1[n + 1 + p - c]), 'right end unclamped')
                t.eqs([sub(U1[len(U1) - 1 - c + i], b)
                       for i in range(near)],
                      [sub(U0[p + i + 1], a) for i in range(near)],
                      'spacing right of the domain')
            else:
                t.eqs(U1[-p:], U0[-p:], 'untouched right end')
            same_geometry(t, g0, g1, m.specs, 'geometry')
        return fn


@register
class Elevate(Prop):
    pid = 'C07'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            for axis in range(len(specs)):
                for times in (0, 1, 2, 3, 4, 6):
                    if times > 2 and len(specs) > 1:
                        continue
                    tr = tier if times < 5 and len(specs) < 3 else 'thorough'
                    if len(specs) == 3 and times == 1 and tier == 'quick':
                        tr = 'quick'
                    obs.append(Ob(self.pid, 'elevate:%s:axis%d:%d' % (
                        fid(specs), axis, times),
                        self.elevate(specs, axis, times), tr,
                        site=SITE % 'elevate'))
        return obs

    def elevate(self, specs, axis, times):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            r = t.c.m(m.obj, 'elevate', axis, times)
            t.ok(r is m.obj, 'elevate returns the object itself')
            g1 = wellformed(t, r, 'elevate', g0.nc)
            others_same(t, g0, g1, axis, 'elevate')
            t.eq(g1.p[axis], s.p + times, 'degree')
            if times == 0:
                t.eqs(g1.U[axis], g0.U[axis], 'knots')
                return
            a, b = g0.domain(axis)
            a1, b1 = g1.domain(axis)
            t.eq(a1, a, 'start of the domain')
            t.eq(b1, b, 'end of the domain')
            want = []
            for x in g0.U[axis]:
                if lt(a, x) and lt(x, b):
                    if not want or want[-1] is not x:
                        want += [x] * times
                    want.append(x)
            got = [x for x in g1.U[axis] if lt(a, x) and lt(x, b)]
            t.eqs(got, want, 'interior knots')
            if s.clamped():
                t.eqs(g1.U[axis], [a] * (s.p + times + 1) + want +
                      [b] * (s.p + times + 1), 'knots')
            same_geometry(t, g0, g1, m.specs, 'geometry')
        return fn


@register
class Remove(Prop):
    pid = 'C08'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            for axis in range(len(specs)):
                s = Spec(*specs[axis])
                lo, hi = s.domain()
                # removal of what was inserted
                for nf in (0, 1):
                    for times in sorted({1, min(2, s.p), s.p}):
                        if len(specs) > 1 and (times > 1 or nf):
                            continue
                        obs.append(Ob(
                            self.pid, 'undo:%s:axis%d:x%d:nf%d' % (
                                fid(specs), axis, times, nf),
                            self.undo(specs, axis, times, nf), tier,
                            site=SITE % 'remove'))
                if len(specs) == 1:
                    for where, ins, rem in self.places(s):
                        obs.append(Ob(
                            self.pid, 'undo-part:%s:%s:%d-%s' % (
                                fid(specs), where, ins, rem),
                            self.part(specs, where, ins, rem), tier,
                            site=SITE % 'remove'))
                for i in range(lo + 1, hi):
                    if len(specs) > 1 and i > lo + 1:
                        continue
                    obs.append(Ob(self.pid, 'some:%s:axis%d:knot%d' % (
                        fid(specs), axis, i), self.some(specs, axis, i),
                        tier, site=SITE % 'remove'))
                for e in ('left', 'right', 'absent', 'left-all',
                          'right-all', 'absent-all'):
                    if len(specs) == 1:
                        obs.append(Ob(self.pid, 'none:%s:axis%d:%s' % (
                            fid(specs), axis, e),
                            self.none(specs, axis, e), tier,
                            site=SITE % 'remove'))
        return obs

    def undo(self, specs, axis, times, nf):
        """a knot inserted `times` times and removed as often is gone"""
        def fn(t):
            m = make(t, specs, nf=nf)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            x = s.par('x', s.spans()[0], 0.4, 0.5)
            r = t.c.m(m.obj, 'insert', axis, x, times)
            r = t.c.m(r, 'remove', axis, x, times)
            t.ok(r is m.obj, 'remove returns the object itself')
            g1 = wellformed(t, r, 'remove', g0.nc)
            t.eqs(g1.U[axis], g0.U[axis], 'knots after removal')
            others_same(t, g0, g1, axis, 'remove')
            same_geometry(t, g0, g1, m.specs, 'geometry',
                          {axis: [(.05, .35), (.55, .95)]})
        return fn

    def places(self, s):
        """(knot or span, times inserted, times removed)"""
        lo, hi = s.domain()
        p, b, out = s.p, s.spans()[-1], []
        for i in range(1, p + 1):
            for r in sorted({1, i - 1, i} - {0}):
                out.append(('span%d' % b, i, r))
        out.append(('span%d' % b, p, None))
        for k in range(lo + 1, hi):
            for i in sorted({1, p - s.mults[k]}):
                if 0 < i <= p - s.mults[k]:
                    out.append(('knot%d' % k, i, i))
                    out.append(('knot%d' % k, i, 1))
        return sorted(set(out), key=str)

    def part(self, specs, where, ins, rem):
        """of the knots inserted some are removed: the others stay"""
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            s = m.specs[0]
            k = int(where[4:])
            if where[0] == 's':
                x, extra = s.par('x', k, .4, .5), {
                    0: [(.05, .35), (.55, .95)]}
            else:
                x, extra = m.U[0][sum(s.mults[:k])], None
            r = t.c.m(m.obj, 'insert', 0, x, ins)
            r = t.c.m(r, 'remove', 0, x, rem)
            g1 = wellformed(t, r, 'remove', g0.nc)
            left = ins - (ins if rem is None else rem)
            knots_are(t, g1, 0, merged(g0.U[0], [x] * left),
                      'knots after removal')
            same_geometry(t, g0, g1, m.specs, 'geometry', extra)
        return fn

    def some(self, specs, axis, i):
        """whatever is removed, knots and extents stay consistent"""
        def fn(t):
            m = make(t, specs)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            x = m.U[axis][sum(s.mults[:i])]
            r = t.c.m(m.obj, 'remove', axis, x, None)
            g1 = wellformed(t, r, 'remove', g0.nc)
            others_same(t, g0, g1, axis, 'remove')
            k = len(g0.U[axis]) - len(g1.U[axis])
            t.ok(0 <= k <= min(s.mults[i], s.p), 'number removed', k)
            U = list(g0.U[axis])
            at = sum(s.mults[:i])
            t.eqs(g1.U[axis], U[:at] + U[at + k:], 'knots after removal')
            if k == 0:
                t.eqs(g1.flat, g0.flat, 'control array when nothing is '
                      'removed')
        return fn

    def none(self, specs, axis, e):
        """end knots and absent values are never removed"""
        def fn(t):
            m = make(t, specs)
            g0 = Geo(t, m.obj)
            s = m.specs[axis]
            a, b = g0.domain(axis)
            x = a if 'left' in e else b if 'right' in e else \
                s.par('x', s.spans()[0], .4, .5)
            r = t.c.m(m.obj, 'remove', axis, x, *(
                [None] if 'all' in e else []))
            g1 = wellformed(t, r, 'remove', g0.nc)
            t.eqs(g1.U[axis], g0.U[axis], 'knots')
            t.eqs(g1.flat, g0.flat, 'control array')
        return fn
