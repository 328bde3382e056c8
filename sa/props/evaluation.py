"""Evaluation of points, fields and their derivatives."""
import itertools
from math import comb
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements

SITE = 'igakit/nurbs.py NURBS.%s'
L = PI.PList
UVW = 'uvw'


class Tensor(object):
    """rational tensor-product functions over the axes of a template"""

    def __init__(self, g, us):
        self.g = g
        self.us = us
        self.spans = [find_span(g.p[k], g.U[k], us[k]) for k in range(g.dim)]
        self._b = {}

    def b(self, k, r):
        if (k, r) not in self._b:
            g = self.g
            self._b[k, r] = basis(g.p[k], g.U[k], self.spans[k], self.us[k]) \
                if r == 0 else ders(g.p[k], g.U[k], self.spans[k],
                                    self.us[k], r)[r]
        return self._b[k, r]

    def local(self):
        g = self.g
        for loc in itertools.product(*[range(p + 1) for p in g.p]):
            yield loc, tuple(s - p + j for s, p, j in zip(self.spans, g.p,
                                                          loc))

    def sum(self, alpha, vals):
        """sum of B_i^(alpha) vals(i)"""
        out = None
        for loc, ix in self.local():
            c = sc_const(1)
            for k, j in enumerate(loc):
                c = mul(c, self.b(k, alpha[k])[j])
            v = vals(ix)
            out = [mul(c, x) for x in v] if out is None else \
                [core.add(o, mul(c, x)) for o, x in zip(out, v)]
        return out

    def rational(self, alpha, vals, cache):
        """alpha-th partial derivative of (sum w B vals) / (sum w B)"""
        if alpha in cache:
            return cache[alpha]
        g = self.g
        w = lambda ix: g.cp(*ix)[3]
        num = lambda ix: [mul(w(ix), x) for x in vals(ix)]
        Aw = self.sum(alpha, num)
        for beta in itertools.product(*[range(a + 1) for a in alpha]):
            if not any(beta):
                continue
            c = 1
            for a, b in zip(alpha, beta):
                c *= comb(a, b)
            wb = mul(sc_const(c), self.sum(beta, lambda ix: [w(ix)])[0])
            rest = self.rational(tuple(a - b for a, b in zip(alpha, beta)),
                                 vals, cache)
            Aw = [sub(x, mul(wb, y)) for x, y in zip(Aw, rest)]
        W = self.sum((0,) * g.dim, lambda ix: [w(ix)])[0]
        cache[alpha] = [div(x, W) for x in Aw]
        return cache[alpha]


def points_of(g):
    def f(ix):
        c = g.cp(*ix)
        return [div(c[q], c[3]) for q in range(3)]
    return f


def fields_of(g):
    def f(ix):
        c = g.cp(*ix)
        return [div(x, c[3]) for x in c[4:]]
    return f


def data_of(arr_, g):
    fl = elements(arr_)
    n = len(fl)
    tot = 1
    for s in g.shape[:-1]:
        tot *= s
    nc = n // tot

    def f(ix):
        off = 0
        for s, i in zip(g.shape, ix):
            off = off * s + i
        return fl[off * nc:(off + 1) * nc]
    f.nc = nc
    return f


def axis_values(m, k, kind):
    """(argument, list of parameters, keeps its axis?)"""
    s = m.specs[k]
    sp = s.spans()
    lo, hi = s.domain()
    U = m.U[k]
    knot = lambda i: U[sum(s.mults[:i])]
    if kind == 'scalar':
        x = s.par('e%d' % k, sp[0])
        return x, [x], False
    if kind == 'scalar-end':
        return knot(hi), [knot(hi)], False
    if kind == 'scalar-start':
        return knot(lo), [knot(lo)], False
    if kind == 'scalar-knot':
        i = sp[-1]
        return knot(i), [knot(i)], False
    if kind == 'one':
        x = [s.par('e%d' % k, sp[-1])]
        return arr(list(x)), x, True
    if kind == 'spans':
        x = [s.par('e%d' % k, b) for b in sp]
        return arr(list(x)), x, True
    if kind == 'list':
        x = [s.par('e%d' % k, b) for b in sp]
        return L(x), x, True
    if kind == 'unordered':
        x = [s.par('e%d' % k, b) for b in reversed(sp)]
        x.append(x[0])
        return arr(list(x)), x, True
    if kind == 'knots':
        x = [knot(i) for i in range(lo, hi + 1)]
        return arr(list(x)), x, True
    if kind == 'near':
        e = set_iv(sc_atom('eps'), 1e-7 * scale(), 2e-7 * scale())
        x = [core.add(knot(i), e) for i in range(lo, hi)] + \
            [sub(knot(i), e) for i in range(lo + 1, hi + 1)]
        return arr(list(x)), x, True
    if kind == 'none':
        x = []
        for i in range(s.n):
            v = sc_const(0)
            for q in U[i + 1:i + s.p + 1]:
                v = core.add(v, q)
            x.append(div(v, sc_const(s.p)))
        return None, x, True
    raise KeyError(kind)


def patterns(specs):
    """the assignments of argument kinds to the axes of a template (the
    Greville abscissae of unclamped axes may lie out of the domain)"""
    return [k for k in pattern(len(specs)) if not any(
        a == 'none' and not clamped([s]) for a, s in zip(k, specs))]


def pattern(dim):
    one = ['spans', 'scalar', 'scalar-end', 'knots', 'none', 'unordered',
           'list', 'near', 'scalar-start', 'scalar-knot', 'one']
    if dim == 1:
        return [(k,) for k in one]
    two = [('spans', 'one'), ('scalar', 'knots'), ('one', 'scalar'),
           ('scalar', 'scalar-end'), ('scalar-start', 'none'),
           ('list', 'spans'), ('none', 'scalar-knot'), ('near', 'one'),
           ('one', 'near'), ('unordered', 'list'), ('none', 'none')]
    if dim == 2:
        return two
    return [('one', 'spans', 'scalar'), ('scalar', 'one', 'knots'),
            ('spans', 'scalar', 'one'), ('scalar', 'scalar', 'scalar-end'),
            ('scalar', 'knots', 'scalar-start'), ('none', 'scalar', 'list'),
            ('list', 'none', 'scalar-knot')]


def read(t, a, shape, what):
    if t.shape(a, shape, what + ': shape') is not True:
        return None
    e = elements(a)
    if e is None:
        raise Unmodelled('symbolic result')
    return [core.sc(x) for x in e]


def grid_of(m, kinds):
    args, pars, keep = [], [], []
    for k, kind in enumerate(kinds):
        a, x, kp = axis_values(m, k, kind)
        args.append(a)
        pars.append(x)
        keep.append(kp)
    shape = tuple(len(x) for x, kp in zip(pars, keep) if kp)
    return args, pars, shape


FAM1 = [((2, (3, 1, 3)),), ((3, (1, 2, 1, 1, 2, 1, 1, 1)),),
        ((1, (2, 1, 1, 2)),), ((3, (4, 3, 4)),), ((4, (5, 1, 3, 5)),),
        ((2, (1,) * 7),), ((5, (6, 1, 6)),)]
FAM2 = [((2, (3, 1, 3)), (1, (2, 2))), ((2, (1,) * 6), (3, (4, 1, 4))),
        ((1, (2, 1, 2)), (2, (3, 2, 3)))]
FAM3 = [((2, (3, 1, 3)), (1, (2, 2)), (1, (2, 1, 2))),
        ((1, (2, 2)), (2, (3, 3)), (2, (1,) * 6))]


def eval_specs():
    return [(s, 'quick') for s in FAM1 + FAM2 + FAM3] + \
        [(s, 'thorough') for s, _ in all_specs() if s not in
         FAM1 + FAM2 + FAM3]


@register
class Evaluation(Prop):
    pid = 'C10'
    variants = WITH_FIELDS

    def obligations(self):
        obs = []
        for specs, tier in eval_specs():
            dim = len(specs)
            for kinds in patterns(specs):
                kn = '/'.join(kinds)
                for mode in ('points', 'true', 'array', 'scalar', 'nofields'):
                    if mode == 'nofields' and kinds[0] != 'scalar' and \
                       dim > 1:
                        continue
                    obs.append(Ob(self.pid, 'call:%s:%s:%s' % (
                        fid(specs), kn, mode), self.call(specs, kinds, mode),
                        tier, site=SITE % '__call__'))
                for mode in ('own', 'array', 'scalar', 'none'):
                    obs.append(Ob(self.pid, 'evaluate:%s:%s:%s' % (
                        fid(specs), kn, mode), self.evaluate(
                            specs, kinds, mode), tier,
                        site=SITE % 'evaluate'))
            if not clamped(specs):
                continue
            for mode in ('call', 'evaluate', 'gradient', 'hessian'):
                obs.append(Ob(self.pid, 'defaults:%s:%s' % (
                    fid(specs), mode), self.defaults(specs, mode), tier,
                    site=SITE % '__call__'))
        return obs

    def call(self, specs, kinds, mode):
        def fn(t):
            nf = 0 if mode == 'nofields' else 2
            m = make(t, specs, nf=nf, rational=True)
            g = Geo(t, m.obj)
            args, pars, shape = grid_of(m, kinds)
            kw = {}
            vals = None
            if mode in ('true', 'nofields'):
                kw['fields'] = True
                vals = fields_of(g)
                ncf = nf
            elif mode == 'array':
                F = block('G', g.shape[:-1] + (2,))
                kw['fields'] = F
                vals = data_of(F, g)
                ncf = 2
            elif mode == 'scalar':
                F = block('G', g.shape[:-1])
                kw['fields'] = F
                vals = data_of(F, g)
                ncf = 1
            r = t.c.m(m.obj, '__call__', *args, **kw)
            if mode == 'points':
                C, F = r, None
            else:
                if not t.ok(isinstance(r, (tuple, list)) and len(r) == 2,
                            'returns points and fields'):
                    return
                C, F = r
            C = read(t, C, shape + (3,), 'points')
            if F is not None:
                F = read(t, F, shape + (ncf,), 'fields')
            if C is None or (mode != 'points' and F is None):
                return
            for i, us in enumerate(itertools.product(*pars)):
                T = Tensor(g, us)
                at = 'at (%s)' % ', '.join(u.rep for u in us)
                z = (0,) * g.dim
                if t.eqs(C[3 * i:3 * i + 3], T.rational(
                        z, points_of(g), {}), 'point ' + at) is not True:
                    return
                if vals and ncf:
                    if t.eqs(F[ncf * i:ncf * i + ncf], T.rational(
                            z, vals, {}), 'fields ' + at) is not True:
                        return
        return fn

    def evaluate(self, specs, kinds, mode):
        def fn(t):
            m = make(t, specs, nf=0 if mode == 'none' else 2)
            g = Geo(t, m.obj)
            args, pars, shape = grid_of(m, kinds)
            kw = dict(zip(UVW, args))
            if mode in ('own', 'none'):
                vals, n, tail = fields_of(g), g.nc - 4, (g.nc - 4,)
                r = t.c.m(m.obj, 'evaluate', **kw)
            elif mode == 'array':
                F = block('G', g.shape[:-1] + (2,))
                vals, n, tail = data_of(F, g), 2, (2,)
                r = t.c.m(m.obj, 'evaluate', F, **kw)
            else:
                F = block('G', g.shape[:-1])
                vals, n, tail = data_of(F, g), 1, ()
                r = t.c.m(m.obj, 'evaluate', fields=F, **kw)
            r = read(t, r, shape + tail, 'evaluate')
            if r is None or not n:
                return
            for i, us in enumerate(itertools.product(*pars)):
                if t.eqs(r[n * i:n * i + n], Tensor(g, us).rational(
                        (0,) * g.dim, vals, {}), 'field at (%s)' % ', '.join(
                            u.rep for u in us)) is not True:
                    return
        return fn

    def defaults(self, specs, mode):
        """omitted parameters are the Greville abscissae of their axis"""
        def fn(t):
            m = make(t, specs, nf=1)
            d = len(specs)
            ks = [axis_values(m, k, 'none')[1] for k in range(d)]
            gv = [arr(list(x)) for x in ks]
            f = block('G', tuple(s.n for s in m.specs))
            name = '__call__' if mode == 'call' else mode
            a = [f] if mode != 'call' else []
            r0 = t.c.m(m.obj, name, *a)
            r1 = t.c.m(m.obj, name, *a, **dict(zip(UVW, gv)))
            t.same_arr(r0, r1, 'omitted parameters')
            k = d - 1
            kw = {UVW[j]: gv[j] for j in range(d) if j != k}
            t.same_arr(t.c.m(m.obj, name, *a, **kw), r1,
                       'omitted parameter of the last axis')
        return fn


ORDERS = {'gradient': 1, 'hessian': 2}


@register
class Derivatives(Prop):
    pid = 'C11'
    variants = WITH_FIELDS

    def varies(self, ob, name):
        # (the fourth derivative is a known finding, listed once)
        return not ob.oid.startswith('derivative4')

    def obligations(self):
        obs = []
        for specs, tier in eval_specs():
            dim = len(specs)
            for kinds in patterns(specs):
                if kinds[0] == 'knots' or 'list' in kinds:
                    continue
                kn = '/'.join(kinds)
                for meth, order in (('gradient', 1), ('hessian', 2),
                                    ('derivative', 1), ('derivative', 2),
                                    ('derivative', 3), ('derivative', 4)):
                    few = kinds in (pattern(dim)[0], pattern(dim)[2],
                                    pattern(dim)[1])
                    if order > 2 and not few or \
                       meth == 'derivative' and order < 3 and not few:
                        continue
                    if dim == 1 and order == 4 and (
                            specs != FAM1[4] or kinds != pattern(1)[0]):
                        # see known-findings.txt
                        continue
                    if dim == 3 and order > 2 and kinds != pattern(3)[3]:
                        continue
                    modes = ('array', 'scalar') if not few else (
                        'array', 'scalar', 'own', 'points')
                    if dim == 1 and order == 4:
                        modes = ('scalar',)
                    if dim == 3 and order > 2:
                        modes = ('array', 'scalar')
                    for mode in modes:
                        tr = tier
                        if order > 2 and dim > 1 and mode in (
                                'own', 'points'):
                            tr = 'thorough'
                        obs.append(Ob(
                            self.pid, '%s%s:%s:%s:%s' % (
                                meth, order if meth == 'derivative' else '',
                                fid(specs), kn, mode),
                            self.der(specs, kinds, meth, order, mode), tr,
                            site=SITE % meth, budget=120))
        return obs

    def der(self, specs, kinds, meth, order, mode):
        def fn(t):
            m = make(t, specs, nf=2 if mode == 'own' else 0)
            g = Geo(t, m.obj)
            args, pars, shape = grid_of(m, kinds)
            kw = dict(zip(UVW, args))
            a = [order] if meth == 'derivative' else []
            if mode == 'own':
                vals, n, tail = fields_of(g), 2, (2,)
            elif mode == 'points':
                vals, n, tail = points_of(g), 3, (3,)
            elif mode == 'array':
                F = block('G', g.shape[:-1] + (2,))
                vals, n, tail = data_of(F, g), 2, (2,)
                a.append(F)
            else:
                F = block('G', g.shape[:-1])
                vals, n, tail = data_of(F, g), 1, ()
                a.append(F)
            if mode in ('own', 'points'):
                kw['mapped'] = False if mode == 'own' else 0
            r = t.c.m(m.obj, meth, *a, **kw)
            r = read(t, r, shape + tail + (g.dim,) * order, meth)
            if r is None:
                return
            w = g.dim ** order
            pts_ = list(itertools.product(*pars))
            for i, us in enumerate(pts_):
                T = Tensor(g, us)
                cache = {}
                for j, ax in enumerate(itertools.product(range(g.dim),
                                                         repeat=order)):
                    alpha = tuple(ax.count(k) for k in range(g.dim))
                    want = T.rational(alpha, vals, cache)
                    got = [r[(n * i + q) * w + j] for q in range(n)]
                    if t.eqs(got, want, 'd/d%s at (%s)' % (
                            ''.join(UVW[k] for k in ax), ', '.join(
                                u.rep for u in us))) is not True:
                        return
        return fn


@register
class Mapped(Prop):
    pid = 'C12'
    variants = WITH_FIELDS

    def varies(self, ob, name):
        # (a planar volume has no inverse map)
        return not (name == 'planar' and ob.oid.count('/') >= 2)

    def obligations(self):
        obs = []
        for specs, tier in eval_specs():
            dim = len(specs)
            for kinds in patterns(specs):
                if kinds[0] == 'knots' or 'list' in kinds:
                    continue
                for meth in ('gradient', 'derivative'):
                    for mode in ('array', 'scalar', 'own', 'points',
                                 'flag1', 'flag2'):
                        if meth == 'derivative' and mode == 'scalar' or \
                                'flag' in mode and kinds[0] != 'scalar':
                            continue
                        obs.append(Ob(
                            self.pid, '%s:%s:%s:%s' % (
                                meth, fid(specs), '/'.join(kinds), mode),
                            self.mapped(specs, kinds, meth, mode), tier,
                            site=SITE % meth, budget=120))
            for meth, a in (('hessian', []), ('derivative', [2]),
                            ('derivative', [3]), ('derivative', [4])):
                obs.append(Ob(self.pid, 'unsupported:%s:%s%s' % (
                    fid(specs), meth, ''.join(map(str, a))),
                    self.unsupported(specs, meth, a), tier,
                    site=SITE % meth))
        return obs

    def unsupported(self, specs, meth, a):
        def fn(t):
            m = make(t, specs, nf=1)
            for flag in (True, 1, 2):
                t.raises(lambda: t.c.m(m.obj, meth, *a, mapped=flag),
                         'mapped derivatives of order two and higher',
                         ('NotImplementedError',))
        return fn

    def mapped(self, specs, kinds, meth, mode):
        def fn(t):
            m = make(t, specs, nf=2 if mode == 'own' else 0)
            g = Geo(t, m.obj)
            args, pars, shape = grid_of(m, kinds)
            kw = dict(zip(UVW, args), mapped=int(mode[4:])
                      if 'flag' in mode else True)
            a = [1] if meth == 'derivative' else []
            if mode == 'own':
                vals, n, tail = fields_of(g), 2, (2,)
            elif mode == 'points' or 'flag' in mode:
                vals, n, tail = points_of(g), 3, (3,)
            elif mode == 'array':
                F = block('G', g.shape[:-1] + (2,))
                vals, n, tail = data_of(F, g), 2, (2,)
                a.append(F)
            else:
                F = block('G', g.shape[:-1])
                vals, n, tail = data_of(F, g), 1, ()
                a.append(F)
            r = t.c.m(m.obj, meth, *a, **kw)
            r = read(t, r, shape + tail + (g.dim,), meth)
            if r is None:
                return
            d = g.dim
            unit = [tuple(int(k == j) for k in range(d)) for j in range(d)]
            for i, us in enumerate(itertools.product(*pars)):
                T = Tensor(g, us)
                cf, cx = {}, {}
                J = [T.rational(unit[j], points_of(g), cx) for j in range(d)]
                for q in range(n):
                    G = [r[(n * i + q) * d + k] for k in range(d)]
                    for j in range(d):
                        # chain rule: sum_k dF/dx_k dx_k/du_j = dF/du_j
                        v = sc_const(0)
                        for k in range(d):
                            v = core.add(v, mul(G[k], J[j][k]))
                        want = T.rational(unit[j], vals, cf)[q]
                        if t.eq(v, want, 'chain rule d/d%s at (%s)' % (
                                UVW[j], ', '.join(u.rep for u in us))) \
                           is not True:
                            return
        return fn
