"""Joining objects, making objects compatible, modelling refinement."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from .transforms import sym, flat, point
from .primitives import inner, breaks_of, CAD, Q
from .modelling import (UNCL, RATS, ratid, obj, const_knots, mk, pt, pf, free, spars, ckid,
                        domains, on_common, CK)
from .slicing import positions

L = PI.PList


def scaled(t, o, k):
    """the same object with its homogeneous data multiplied by k"""
    g = Geo(t, o)
    fl = [mul(k, x) for x in g.flat]
    return obj(t, g.U, g.shape[:-1], fl)


def scale_sym():
    return set_iv(sc_atom('arg', 'lam', rep='lam'), 2., 3.)


J1 = [((1, (2, 1, 2)),), ((2, (3, 1, 3)),), ((3, (4, 2, 1, 4)),),
      ((2, (1,) * 7),), ((3, (1, 2, 1, 1, 1, 1, 2)),),
      ((2, (3, 1, 3)), (1, (2, 1, 2))), ((1, (2, 2)), (2, (1,) * 6)),
      ((2, (3, 3)), (1, (2, 1, 2)), (1, (2, 2)))]

# generic pieces: constant-knot axes of both objects, join axis
J2 = [
    ([(1, [])], [(1, [])], 0),
    ([(2, [])], [(2, [('1/2', 1)])], 0),
    ([(1, [])], [(3, [])], 0),
    ([(3, [('1/3', 2)])], [(2, [])], 0),
    ([(2, [(3, 1)], 2, 5)], [(2, [], 1, 3)], 0),
    ([(2, [], -3, -1)], [(1, [(1, 1)], 0, 2)], 0),
    ([(1, []), (1, [])], [(1, []), (1, [])], 1),
    ([(2, []), (1, [])], [(2, []), (2, [])], 1),
    ([(1, []), (2, [])], [(2, [], 4, 6), (2, [])], 0),
    ([(1, [('1/2', 1)], 0, 1), (1, [])], [(2, []), (1, [('1/2', 1)])], 0),
    ([(1, []), (1, []), (1, [])], [(1, []), (1, []), (2, [])], 2),
]


@register
class Join(Prop):
    pid = 'C21'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs in J1:
            for axis in range(len(specs)):
                pos = positions(Spec(*specs[axis]))[1:-1]
                for q in pos:
                    for how in ('plain', 'remapped', 'scaled', 'unclamped',
                                'elevated'):
                        obs.append(Ob(self.pid, 'split:%s:axis%d:%s:%s' % (
                            fid(specs), axis, q[0], how), self.split(
                                specs, axis, q, how),
                            site=CAD % 'join'))
        for a, b, axis in J2:
            for nf in (0, 1):
                for lam in (False, True):
                    obs.append(Ob(
                        self.pid, 'pieces:%s:%s:axis%d:nf%d%s' % (
                            ckid(a), ckid(b), axis, nf,
                            ':scaled' if lam else ''),
                        self.pieces(a, b, axis, nf, lam),
                        site=CAD % 'join'))
            for rat in RATS:
                obs.append(Ob(self.pid, 'pieces:%s:%s:axis%d:%s' % (
                    ckid(a), ckid(b), axis, ratid(rat)),
                    self.pieces(a, b, axis, 0, False, rat),
                    site=CAD % 'join'))
        for dims, axis in (((1, 2), 0), ((2, 1), 0), ((2, 2), 2),
                           ((1, 1), 1), ((2, 2), -1)):
            obs.append(Ob(self.pid, 'reject:%d%d:%d' % (dims + (axis,)),
                          self.reject(dims, axis), site=CAD % 'join'))
        return obs

    def reject(self, dims, axis):
        def fn(t):
            o = [mk(t, [(1, [])] * d, 'ab'[i]) for i, d in enumerate(dims)]
            t.raises(lambda: t.c.call(t.c.name('cad', 'join'), o[0], o[1],
                                      axis),
                     'join of dimensions %r along axis %d' % (dims, axis),
                     ('AssertionError', 'ValueError', 'IndexError'))
        return fn

    def split(self, specs, axis, q, how):
        """joining both parts of a cut object gives the object"""
        def fn(t):
            nf = 1 if len(specs) < 3 else 0
            m = make(t, specs, nf=nf)
            g0 = Geo(t, m.obj)
            x = q[1](m, axis)
            lo, hi = g0.domain(axis)
            a = t.c.m(m.obj, 'slice', axis, None, x)
            b = t.c.m(m.obj, 'slice', axis, x, None)
            if how == 'remapped':
                e = core.add(hi, sub(hi, x))
                for k in Geo(t, b).U[axis]:
                    core.tighten(k, sub(k, x), core.add(k, sub(hi, x)))
                b = t.c.m(b, 'remap', axis, hi, e)
            elif how == 'scaled':
                b = scaled(t, b, scale_sym())
            elif how == 'unclamped':
                c = 0 if Spec(*specs[axis]).p > 1 else None
                b = t.c.m(b, 'unclamp', axis, 1, c)
                a = t.c.m(a, 'unclamp', axis, 0, c)
            elif how == 'elevated':
                b = t.c.m(b, 'elevate', axis, 1)
            r = t.c.call(t.c.name('cad', 'join'), a, b, axis)
            t.ok(r is not a and r is not b, 'join returns a new object')
            g = wellformed(t, r, 'join', g0.nc)
            t.eqs(g.domain(axis), [lo, hi], 'domain of the joined axis')
            for k in range(g0.dim):
                if k != axis:
                    t.eqs(g.domain(k), g0.domain(k), 'domain of axis %d' % k)
            mult = sum(1 for k in g.U[axis] if same(k, x) is True)
            s = Spec(*specs[axis])
            need = s.mults[int(q[2])] if q[0][0] == 'k' else 0
            if how == 'elevated' and need:
                need += 1
            t.ok(mult <= s.p + (how == 'elevated'), 'joint multiplicity',
                 mult)
            if mult < need:
                return      # removed within the tolerance
            extra = None
            if q[0][0] == 's':
                extra = {axis: [(.1, .4), (.55, .9)]}
            return same_geometry(t, g0, g, m.specs, 'joined object', extra)
        return fn

    def pieces(self, ax, bx, axis, nf, lam, rat=(True, True)):
        """generic pieces sharing their interface"""
        def fn(t):
            dim = len(ax)
            a = mk(t, ax, 'a', nf, rat[0])
            ga = Geo(t, a)
            # the second object starts on the interface of the first one:
            # same control points there, other axes must agree for that
            U = [const_knots(*q) for q in bx]
            shape = tuple(len(u) - q[0] - 1 for u, q in zip(U, bx))
            same_other = all(ax[k][:2] == bx[k][:2] for k in range(dim)
                             if k != axis)
            w = flat(hom('Cb', shape, rat[1]))
            f = flat(block('Fb', shape + (nf,))) if nf else []
            out = []
            for n, ix in enumerate(itertools.product(
                    *[range(s) for s in shape])):
                h = w[4 * n:4 * n + 4] + [mul(z, w[4 * n + 3])
                                          for z in f[nf * n:nf * n + nf]]
                if ix[axis] == 0 and same_other:
                    jx = list(ix)
                    jx[axis] = ga.shape[axis] - 1
                    h = ga.cp(*jx)
                out += h
            if lam:
                k = scale_sym()
                out = [mul(k, z) for z in out]
            b = obj(t, U, shape, out)
            gb = Geo(t, b)
            r = t.c.call(t.c.name('cad', 'join'), a, b, axis)
            g = wellformed(t, r, 'join', ga.nc)
            a0, a1 = ga.domain(axis)
            b0, b1 = gb.domain(axis)
            t.eqs(g.domain(axis), [a0, core.add(a1, sub(b1, b0))],
                  'domain of the joined axis')
            p = max(ga.p[axis], gb.p[axis])
            t.ok(g.p[axis] == p, 'degree of the joined axis')
            k = sum(1 for z in g.U[axis] if same(z, a1) is True)
            t.ok(1 <= p - k + 1 <= p or k == p, 'interface knot', k)
            for j in range(dim):
                if j == axis:
                    continue
                lo, hi, _ = domains([ax, bx], j)
                t.eqs(g.domain(j), [sc_const(lo), sc_const(hi)],
                      'domain of axis %d' % j)
            if k != p or not same_other:
                # knots were removed within the tolerance, or the interface
                # is not shared: only the far ends are exact
                for end, gg, i in ((0, ga, 0), (1, gb, 1)):
                    us = [free(g, j)[0] for j in range(dim)]
                    us[axis] = g.domain(axis)[end]
                    v = on_common(us, [ax, bx], i)
                    v[axis] = gg.domain(axis)[end]
                    t.eqs(pf(g, us), pf(gg, v), 'far end %d' % end)
                return
            for us in combos([free(g, j) for j in range(dim)], 10):
                u = us[axis]
                i = 0 if N.decided_lt(u, a1) else 1
                v = on_common(us, [ax, bx], i)
                v[axis] = u if i == 0 else core.add(b0, sub(u, a1))
                if t.eqs(pf(g, us), pf((ga, gb)[i], v), 'piece %d at (%s)' % (
                        i, ', '.join(z.rep for z in us))) is not True:
                    return
        return fn


# ---------------------------------------------------------------------------

def mults(U):
    """[value, multiplicity] in order, equal value numbers merged"""
    out = []
    for u in U:
        if out and same(out[-1][0], u) is True:
            out[-1][1] += 1
        else:
            out.append([u, 1])
    return out


# objects over the same symbolic breakpoints: lists of (p, mults) where a
# multiplicity may be 0
SYMB = [
    [(2, (3, 1, 3)), (2, (3, 0, 3))],
    [(2, (3, 1, 0, 3)), (2, (3, 0, 1, 3))],
    [(3, (4, 2, 1, 4)), (2, (3, 0, 2, 3))],
    [(1, (2, 1, 2)), (2, (3, 1, 3)), (3, (4, 0, 4))],
    [(3, (4, 2, 4)), (3, (4, 3, 4))],
    [(3, (4, 3, 1, 4)), (3, (4, 2, 2, 4))],
    [(3, (4, 1, 4)), (3, (4, 3, 4)), (3, (4, 2, 4))],
    [(4, (5, 2, 4, 5)), (4, (5, 3, 1, 5)), (2, (3, 1, 2, 3))],
]
CK3 = [
    ([(1, [])], [(2, [('1/2', 1)])], [(2, [('1/4', 2)])]),
    ([(1, [], 0, 2), (1, [])], [(1, []), (2, [])], [(2, []), (1, [], 1, 2)]),
]
UNCL2 = [([(2, [('1/2', 1)])], [(2, [])]), ([(2, [])], [(1, [('1/3', 1)])])]
UNCL3 = [([(2, [], 0, 1, '11')], [(2, [], 0, 1, '11')], [(2, [])]),
         ([(2, [], 0, 1, '11')], [(2, [], 0, 1, '11')],
          [(2, [('1/2', 1)], 0, 1, '11')])]


@register
class Compat(Prop):
    pid = 'C31'
    variants = VARIANTS

    def obligations(self):
        obs = []

        def add(label, fn):
            obs.append(Ob(self.pid, label, fn, site=CAD % 'compat'))
        for tup in CK + CK3:
            tag = ':'.join(ckid(a) for a in tup)
            for nf in (0, 1):
                for call in ('args', 'list', 'tuple'):
                    if call != 'args' and nf:
                        continue
                    add('const:%s:nf%d:%s' % (tag, nf, call),
                        self.const(tup, nf, call, None))
            d = len(tup[0])
            if d > 1:
                for ax in ([0], [1], 1, [-1], -1, -2, [-2], [0, 1], [1, 0],
                           [-1, 0], [-2, 1], []):
                    add('axes:%s:%s' % (tag, str(ax).replace(' ', '')),
                        self.const(tup, 0, 'args', ax))
            if len(tup) == 2:
                add('swapped:' + tag, self.const(tup[::-1], 0, 'args', None))
            for rat in RATS:
                add('%s:%s' % (ratid(rat), tag), self.const(
                    tup, 0, 'args', None, rat + (True,)))
        for tup in UNCL + UNCL3:
            for call in ('args', 'list'):
                add('unclamped:%s:%s' % (':'.join(ckid(a) for a in tup),
                                         call), self.uncl(tup, call))
        for tup in UNCL2:
            for side in (None, 0, 1):
                add('unclamp:%s:%s' % (':'.join(ckid(a) for a in tup),
                                       side), self.uncl(tup, 'args', side))
        for tup in SYMB:
            add('symbolic:' + ':'.join('p%d:%s' % (p, ''.join(map(str, m)))
                                       for p, m in tup), self.symb(tup))
        for n in (0, 1):
            for call in ('args', 'list'):
                add('few:%d:%s' % (n, call), self.few(n, call))
        add('reject:dims', self.reject(0))
        add('reject:keyword', self.reject(1))
        return obs

    def call(self, t, objs, call, **kw):
        f = t.c.name('cad', 'compat')
        if call == 'args':
            return t.c.call(f, *objs, **kw)
        return t.c.call(f, L(objs) if call == 'list' else tuple(objs), **kw)

    def items(self, t, r, objs):
        r = list(r.items) if hasattr(r, 'items') and not callable(r.items) \
            else list(r)
        t.ok(len(r) == len(objs), 'one result per object', len(r))
        for a in r:
            for b in objs:
                t.ok(a is not b, 'results are new objects')
        return r

    def few(self, n, call):
        def fn(t):
            if n == 0 and call == 'args':
                objs = []
            else:
                objs = [mk(t, [(2, [('1/2', 1)])], 'a')][:n]
            gs = [Geo(t, o) for o in objs]
            if n == 0 and call == 'args':
                r = self.call(t, objs, 'args')
            else:
                r = self.call(t, objs, call)
            r = self.items(t, r, objs)
            for a, g in zip(r, gs):
                h = Geo(t, a)
                t.eqs(h.flat, g.flat, 'a single object is kept')
                t.eqs(h.U[0], g.U[0], 'a single object is kept: knots')
        return fn

    def reject(self, kind):
        def fn(t):
            f = t.c.name('cad', 'compat')
            a = mk(t, [(1, [])], 'a')
            b = mk(t, [(1, [])] * (1 if kind else 2), 'b')
            kw = {'axis': 0} if kind else {}
            t.raises(lambda: t.c.call(f, a, b, **kw),
                     'unknown keyword' if kind else 'different dimensions',
                     ('AssertionError', 'ValueError', 'TypeError'))
        return fn

    def compare(self, t, gs, hs, axes, tup):
        dim = gs[0].dim
        p = {k: max(g.p[k] for g in gs) for k in axes}
        for i, (g, h) in enumerate(zip(gs, hs)):
            for k in range(dim):
                if k not in axes:
                    t.eqs(h.U[k], g.U[k], 'object %d: knots of the other '
                          'axis %d' % (i, k))
                    continue
                t.ok(h.p[k] == p[k], 'object %d: degree of axis %d' % (i, k),
                     h.p[k])
                t.eqs(h.U[k], hs[0].U[k], 'object %d: knots of axis %d '
                      'equal those of object 0' % (i, k))

    def const(self, tup, nf, call, ax, rat=(True,) * 3):
        def fn(t):
            objs = [mk(t, a, 'abc'[i], nf, rat[i])
                    for i, a in enumerate(tup)]
            gs = [Geo(t, o) for o in objs]
            dim = gs[0].dim
            kw = {} if ax is None else {
                'axes': L(ax) if isinstance(ax, list) else ax}
            axes = range(dim) if ax is None else [
                range(dim)[k] for k in (ax if isinstance(ax, list) else [ax])]
            r = self.items(t, self.call(t, objs, call, **kw), objs)
            hs = [wellformed(t, o, 'result %d' % i, gs[i].nc)
                  for i, o in enumerate(r)]
            self.compare(t, gs, hs, axes, tup)
            for o, g in zip(objs, gs):
                t.eqs(Geo(t, o).flat, g.flat, 'the operands are kept')
            for i, (g, h) in enumerate(zip(gs, hs)):
                for k in axes:
                    lo, hi, _ = domains(tup, k)
                    t.eqs(h.domain(k), [sc_const(lo), sc_const(hi)],
                          'object %d: common domain of axis %d' % (i, k))
                    # no more knots than needed
                    self.minimal(t, tup, gs, h, k)
                for us in combos([free(h, k) for k in range(dim)], 8):
                    v = on_common(us, tup, i)
                    v = [v[k] if k in axes else us[k] for k in range(dim)]
                    if t.eqs(pf(h, us), pf(g, v), 'object %d at (%s)' % (
                            i, ', '.join(z.rep for z in us))) is not True:
                        return
        return fn

    def minimal(self, t, tup, gs, h, k):
        lo, hi, d = domains(tup, k)
        pm = max(a[k][0] for a in tup)
        want = {}
        for i, a in enumerate(tup):
            c, e = d[i]
            for v, m in a[k][1]:
                v = (Q(v) - c) / (e - c) * (hi - lo) + lo
                want[v] = max(want.get(v, 0), m + pm - a[k][0])
        U = [sc_const(lo)] * (pm + 1)
        for v in sorted(want):
            U += [sc_const(v)] * want[v]
        U += [sc_const(hi)] * (pm + 1)
        t.eqs(h.U[k], U, 'union of the knots of axis %d' % k)

    def uncl(self, tup, call, *side):
        def fn(t):
            objs = [mk(t, q, 'abc'[i], 1) for i, q in enumerate(tup)]
            if side:
                t.c.m(objs[0], 'unclamp', 0, side[0])
            gs = [Geo(t, o) for o in objs]
            dim = gs[0].dim
            r = self.items(t, self.call(t, objs, call), objs)
            hs = [wellformed(t, o, 'result %d' % i, 5)
                  for i, o in enumerate(r)]
            self.compare(t, gs, hs, range(dim), tup)
            for i, (o, g, h) in enumerate(zip(objs, gs, hs)):
                t.eqs(Geo(t, o).flat, g.flat, 'the operands are kept')
                for k in range(dim):
                    lo, hi, _ = domains(tup, k)
                    t.eqs(h.domain(k), [sc_const(lo), sc_const(hi)],
                          'common domain')
                for us in combos([free(h, k) for k in range(dim)], 8):
                    t.eqs(pf(h, us), pf(g, on_common(us, tup, i)),
                          'object %d' % i)
        return fn

    def symb(self, tup):
        def fn(t):
            n = len(tup[0][1])
            ks = kv('k', (1,) * n)
            objs, gs = [], []
            for i, (p, m) in enumerate(tup):
                U = [k for k, c in zip(ks, m) for _ in range(c)]
                w = flat(hom('C' + 'abc'[i], (len(U) - p - 1,)))
                objs.append(obj(t, [U], (len(U) - p - 1,), w))
                gs.append(Geo(t, objs[-1]))
            r = self.items(t, self.call(t, objs, 'args'), objs)
            hs = [wellformed(t, o, 'result %d' % i) for i, o in enumerate(r)]
            pm = max(p for p, _ in tup)
            U = []
            for j, k in enumerate(ks):
                U += [k] * (max(m[j] + pm - p if m[j] else 0
                                for p, m in tup))
            for i, (g, h) in enumerate(zip(gs, hs)):
                t.eqs(h.U[0], U, 'union of the knots, object %d' % i)
                for j in range(n - 1):
                    u = par('s', j)
                    if t.eqs(pf(h, [u]), pf(g, [u]), 'object %d at %s' % (
                            i, u.rep)) is not True:
                        return
        return fn


# ---------------------------------------------------------------------------

RF = [((1, (2, 2)),), ((2, (3, 1, 3)),), ((3, (4, 2, 1, 4)),),
      ((2, (1,) * 6),), ((2, (3, 3)), (1, (2, 1, 2))),
      ((1, (2, 2)), (2, (3, 2, 3))),
      ((1, (2, 2)), (2, (3, 3)), (1, (2, 1, 2)))]


@register
class Refine(Prop):
    pid = 'C32'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs in RF:
            dim = len(specs)
            ns = [len(Spec(*s).spans()) for s in specs]
            facs = [None, 1, 2, 3]
            facs.append([2] + [1] * (dim - 1))
            facs.append([None] * (dim - 1) + [2])
            if dim > 1:
                facs.append([1] * (dim - 1) + [3])
            facs.append([[j + 1 for j in range(n)] for n in ns])
            if max(ns) > 1:
                facs.append([[n - j for j in range(n)] for n in ns])
                facs.append([[1] * (n - 1) + [2] for n in ns])
            if dim > 1:
                facs.append([[2] * n if k else 2 for k, n in enumerate(ns)])
            degs = [None, [s[0] + 1 for s in specs], 3,
                    [None] * (dim - 1) + [specs[-1][0] + 1], 1]
            cons = [None, 0, -1, [0] + [-1] * (dim - 1)]
            for fa in facs:
                for de in degs:
                    for co in cons:
                        if dim == 3 and (fa == 3 or de == 3):
                            continue
                        simple = (fa is None) + (de is None) + (co is None)
                        for nf in (0, 1):
                            if nf and (simple > 1 or dim == 3):
                                continue
                            obs.append(Ob(
                                self.pid, 'refine:%s:f%s:d%s:c%s:nf%d' % (
                                    fid(specs), tag(fa), tag(de), tag(co),
                                    nf), self.ref(specs, fa, de, co, nf),
                                'quick' if simple or dim == 1 and
                                co != -1 else 'thorough',
                                site=CAD % 'refine'))
        for label, kw in (('degree 0', {'degree': 0}),
                          ('factor 0', {'factor': 0}),
                          ('continuity equal to the degree',
                           {'continuity': 2}),
                          ('continuity below -degree', {'continuity': -4}),
                          ('three degrees', {'degree': L([1, 2, 3])}),
                          ('one factor for two axes', {'factor': L([2])})):
            obs.append(Ob(self.pid, 'reject:' + label.replace(' ', '-'),
                          self.reject(label, kw), site=CAD % 'refine'))
        seen = {}
        for o in obs:
            seen.setdefault(o.oid, o)
        return list(seen.values())

    def reject(self, label, kw):
        def fn(t):
            m = make(t, ((2, (3, 3)), (2, (3, 3))))
            t.raises(lambda: t.c.call(t.c.name('cad', 'refine'), m.obj, **kw),
                     label, ('AssertionError', 'ValueError', 'IndexError'))
        return fn

    def ref(self, specs, fa, de, co, nf):
        def fn(t):
            m = make(t, specs, nf=nf)
            g0 = Geo(t, m.obj)
            dim = g0.dim
            kw = {}
            for key, v in (('factor', fa), ('degree', de),
                           ('continuity', co)):
                if v is not None:
                    kw[key] = L([L(list(x)) if isinstance(x, list) else x
                                 for x in v]) if isinstance(v, list) else v

            def per(v, default):
                v = v if isinstance(v, list) else [v] * dim
                return [default if x is None else x for x in v]
            r = t.c.call(t.c.name('cad', 'refine'), m.obj, **kw)
            t.ok(r is not m.obj, 'refine returns a new object')
            g = wellformed(t, r, 'refine', g0.nc)
            D, F, C = per(de, 0), per(fa, 1), per(co, -1)
            extra = {}
            for k in range(dim):
                p = max(g0.p[k], D[k])
                t.ok(g.p[k] == p, 'degree of axis %d' % k,
                     '%d, expected %d' % (g.p[k], p))
                c = C[k] if C[k] >= 0 else C[k] + p
                lo, hi = g0.domain(k)
                dm = [[u, q] for u, q in mults(g0.U[k])
                      if not N.decided_lt(u, lo) and
                      not N.decided_lt(hi, u)]
                U = [lo] * (p + 1)
                for i in range(len(dm) - 1):
                    a, b = dm[i][0], dm[i + 1][0]
                    n = F[k][i] if isinstance(F[k], list) else F[k]
                    if i:
                        U += [a] * max(dm[i][1] + p - g0.p[k], p - c)
                    for j in range(1, n):
                        U += [core.add(a, mul(div(j, n), sub(b, a)))] * \
                            (p - c)
                U += [hi] * (p + 1)
                if t.eqs(g.U[k], U, 'knots of axis %d' % k) is not True:
                    return
            # one parameter in every new element
            us = []
            for k in range(dim):
                s = m.specs[k]
                x = []
                for i, b in enumerate(s.spans()):
                    n = F[k][i] if isinstance(F[k], list) else F[k]
                    u0, u1 = ends(s, m.U[k], b)
                    for j in range(n):
                        d = set_iv(sc_atom('pos', k, i, j, rep='x%d_%d_%d' % (
                            k, i, j)), (j + .1) / n, (j + .9) / n)
                        # a box of the template, inside the new element
                        z = core.add(u0, mul(d, sub(u1, u0)))
                        a = core.add(u0, mul(div(j, n), sub(u1, u0)))
                        q0 = [q for q, v in enumerate(g0.U[k])
                              if same(v, u0) is True]
                        q1 = [q for q, v in enumerate(g.U[k])
                              if same(v, a) is True]
                        x.append((z, q0[-1], q1[-1]))
                us.append(x)
            for c in combos(us, 8):
                u = [z for z, _, _ in c]
                h0 = evaluate(g0, u, spans=[q for _, q, _ in c])
                h1 = evaluate(g, u, spans=[q for _, _, q in c])
                if proj_same(t, h0, h1, 'refined object at (%s)' % ', '.join(
                        z.rep for z in u)) is not True:
                    return
        return fn


def ends(s, U, b):
    """knots bounding the breakpoint interval b"""
    i = sum(s.mults[:b])
    return U[i], U[sum(s.mults[:b + 1])]


def tag(v):
    if v is None:
        return '-'
    if isinstance(v, list):
        return '(%s)' % ','.join(tag(x) for x in v)
    return str(v)
