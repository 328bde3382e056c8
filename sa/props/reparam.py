"""Exact reparametrisations: transpose, swap, reverse, remap."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI

SITE = 'igakit/nurbs.py NURBS.%s'
L = PI.PList


def permuted(t, g0, g1, perm, what):
    """g1 is g0 with axes permuted: axis k of g1 is axis perm[k] of g0"""
    t.ok(g1.dim == g0.dim, what + ': dim')
    for k in range(g0.dim):
        t.eqs(g1.U[k], g0.U[perm[k]], what + ': knots of axis %d' % k)
    want = tuple(g0.shape[perm[k]] for k in range(g0.dim)) + (g0.nc,)
    if not t.ok(tuple(g1.shape) == want, what + ': extents',
                '%r instead of %r' % (g1.shape, want)):
        return
    for ix in itertools.product(*[range(s) for s in g1.shape[:-1]]):
        src = [None] * g0.dim
        for k in range(g0.dim):
            src[perm[k]] = ix[k]
        if t.eqs(g1.cp(*ix), g0.cp(*src), '%s: control point %r'
                 % (what, ix)) is not True:
            return


def reversed_(t, g0, g1, axes, what):
    for k in range(g0.dim):
        if k in axes:
            a, b = g0.domain(k)
            want = [sub(core.add(a, b), x) for x in reversed(g0.U[k])]
        else:
            want = g0.U[k]
        t.eqs(g1.U[k], want, what + ': knots of axis %d' % k)
    if not t.ok(g1.shape == g0.shape, what + ': extents'):
        return
    for ix in itertools.product(*[range(s) for s in g1.shape[:-1]]):
        src = [g0.shape[k] - 1 - i if k in axes else i
               for k, i in enumerate(ix)]
        if t.eqs(g1.cp(*ix), g0.cp(*src), '%s: control point %r'
                 % (what, ix)) is not True:
            return


@register
class Reparam(Prop):
    pid = 'C03'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            dim = len(specs)
            f = fid(specs)
            for perm in [None] + list(itertools.permutations(range(dim))):
                obs.append(Ob(self.pid, 'transpose:%s:%s' % (
                    f, perm and ''.join(map(str, perm))),
                    self.transpose(specs, perm), tier,
                    site=SITE % 'transpose'))
            for a, b in itertools.product(range(-dim, dim), repeat=2):
                if dim == 3 and tier != 'quick' and a < 0:
                    continue
                if dim == 1 and tier == 'quick' and specs[0][0] != 2:
                    continue
                obs.append(Ob(self.pid, 'swap:%s:%d,%d' % (f, a, b),
                              self.swap(specs, a, b), tier,
                              site=SITE % 'swap'))
            subs = [()] + [c for n in range(1, dim + 1)
                           for c in itertools.permutations(range(dim), n)]
            subs += [(-1,)] + ([(0, -1)] if dim > 1 else [])
            for axes in subs:
                obs.append(Ob(self.pid, 'reverse:%s:%s' % (
                    f, ','.join(map(str, axes))),
                    self.reverse(specs, axes), tier, site=SITE % 'reverse'))
            for axis in list(range(dim)) + [-1]:
                for mode in REMAPS:
                    if axis == -1 and mode != 'free':
                        continue
                    obs.append(Ob(self.pid, 'remap:%s:%d:%s' % (
                        f, axis, mode), self.remap(specs, axis, mode), tier,
                        site=SITE % 'remap'))
        return obs

    def transpose(self, specs, perm):
        def fn(t):
            m = make(t, specs, nf=2)
            g0 = Geo(t, m.obj)
            args = [] if perm is None else [
                L(perm) if len(perm) != 2 else tuple(perm)]
            r = t.c.m(m.obj, 'transpose', *args)
            t.ok(r is m.obj, 'transpose returns the object itself')
            g1 = wellformed(t, r, 'transpose', g0.nc)
            permuted(t, g0, g1, perm or tuple(range(g0.dim))[::-1],
                     'transpose')
        return fn

    def swap(self, specs, a, b):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            r = t.c.m(m.obj, 'swap', a, b)
            t.ok(r is m.obj, 'swap returns the object itself')
            g1 = wellformed(t, r, 'swap', g0.nc)
            p = list(range(g0.dim))
            p[a], p[b] = p[b], p[a]
            permuted(t, g0, g1, p, 'swap')
        return fn

    def reverse(self, specs, axes):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            r = t.c.m(m.obj, 'reverse', *axes)
            t.ok(r is m.obj, 'reverse returns the object itself')
            g1 = wellformed(t, r, 'reverse', g0.nc)
            ax = [a % g0.dim for a in axes] or range(g0.dim)
            reversed_(t, g0, g1, set(a for a in ax
                                     if list(ax).count(a) % 2), 'reverse')
            # as maps: S'(u) = S(a + b - u)
            ends = [g0.domain(k) for k in range(g0.dim)]
            for us in combos(samples(m.specs), 3):
                vs = [sub(core.add(*ends[k]), u) if k in ax and
                      list(ax).count(k) % 2 else u for k, u in enumerate(us)]
                proj_same(t, evaluate(g1, vs), evaluate(g0, us),
                          'reversed map')
        return fn

    def remap(self, specs, axis, mode):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            k = axis % g0.dim
            a, b = g0.domain(k)
            s, e, c, d = REMAPS[mode](a, b)
            r = t.c.m(m.obj, 'remap', axis, s, e)
            t.ok(r is m.obj, 'remap returns the object itself')
            g1 = wellformed(t, r, 'remap', g0.nc)
            for j in range(g0.dim):
                if j != k:
                    t.eqs(g1.U[j], g0.U[j], 'knots of axis %d' % j)
                    continue
                # affine image of the old knots
                f = div(sub(d, c), sub(b, a))
                t.eqs(g1.U[k], [core.add(c, mul(f, sub(x, a)))
                                for x in g0.U[k]], 'remapped knots')
            t.ok(g1.shape == g0.shape, 'extents')
            t.eqs(g1.flat, g0.flat, 'control array')
        return fn


def _free(name, lo, hi):
    x = sc_atom('arg', name, rep=name)
    f = scale() if abs(hi) < 1 else max(scale(), 1)
    return set_iv(x, lo * f, hi * f)


REMAPS = {
    'free': lambda a, b: (lambda c, d: (c, d, c, d))(
        _free('c', -99, -98), _free('d', 90, 91)),
    'const': lambda a, b: (0, 1, sc_const(0), sc_const(1)),
    'floats': lambda a, b: (sc_const(-15.5), sc_const(-12.5),
                            sc_const(-15.5), sc_const(-12.5)),
    'nostart': lambda a, b: (lambda d: (None, d, a, d))(_free('d', 90, 91)),
    'noend': lambda a, b: (lambda c: (c, None, c, b))(_free('c', -99, -98)),
    'none': lambda a, b: (None, None, a, b),
    'same': lambda a, b: (a, b, a, b),
    'samestart': lambda a, b: (lambda d: (a, d, a, d))(_free('d', 90, 91)),
    'sameend': lambda a, b: (lambda c: (c, b, c, b))(_free('c', -99, -98)),
    'shift': lambda a, b: (lambda c, d: (c, d, c, d))(
        core.add(a, sc_const(7)), core.add(b, sc_const(7))),
    'tozero': lambda a, b: (lambda d: (0, d, sc_const(0), d))(
        _free('d', 90, 91)),
    'tiny': lambda a, b: (lambda c, d: (c, d, c, d))(
        core.add(a, _free('e', 1e-7, 2e-7)), b),
    'tinyend': lambda a, b: (lambda c, d: (c, d, c, d))(
        a, core.add(b, _free('e', 1e-7, 2e-7))),
    'toleft': lambda a, b: (lambda c, d: (c, d, c, d))(
        _free('c', -99, -98), a),
}
