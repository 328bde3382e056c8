"""Construction and queries of NURBS objects, rejected arguments."""
import itertools
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements

SITE = 'igakit/nurbs.py NURBS.%s'
L = PI.PList
AXES = 'uvw'


def nested(a, kind=PI.PList):
    """the array as nested Python sequences"""
    el = elements(a)
    sh = a.shape

    def rec(off, k):
        if k == len(sh):
            return el[off]
        n = 1
        for s in sh[k + 1:]:
            n *= s
        return kind([rec(off + i * n, k + 1) for i in range(sh[k])])
    return rec(0, 0)


def swapped(a):
    """same contents, Fortran order storage (a transposed view)"""
    d = len(a.shape)
    perm = list(range(d))[::-1]
    b = A.copy(A.transpose(a, perm), owner='caller')
    return A.transpose(b, perm)


KNOTS = {
    'arrays': lambda U: L([arr(u) for u in U]),
    'tuple-of-lists': lambda U: tuple(L(u) for u in U),
    'tuples': lambda U: L([tuple(u) for u in U]),
}
DATA = {
    'array': lambda a: a,
    'lists': lambda a: nested(a),
    # a pair of sequences means (control, weights): keep a list outside
    'tuples': lambda a: L(nested(a, tuple)),
    'transposed': swapped,
}
# components of control, how the weights are given
CONTROL = [(2, None), (3, None), (4, None), (2, 'kw'), (3, 'kw'),
           (2, 'pair'), (3, 'pair'), (3, 'positional')]
FIELDS = [None, (), (1,), (3,)]


def expect(ncomp, how, C, W, shape):
    """homogeneous coordinates of every control point"""
    out = {}
    ce = elements(C)
    we = elements(W) if W is not None else None
    for i, ix in enumerate(itertools.product(*[range(s) for s in shape])):
        c = [sc(x) for x in ce[ncomp * i:ncomp * (i + 1)]]
        if ncomp == 4:
            out[ix] = c
            continue
        w = sc(we[i]) if we else sc_const(1)
        c = c + [sc_const(0)] * (3 - ncomp)
        out[ix] = [mul(x, w) for x in c] + [w]
    return out


@register
class Construction(Prop):
    pid = 'C02'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            f = fid(specs)
            for (nc, how), fl in itertools.product(CONTROL, FIELDS):
                if len(specs) > 1 and tier == 'thorough' and fl == (1,):
                    continue
                obs.append(Ob(self.pid, 'build:%s:%d%s:%s' % (
                    f, nc, how or '', 'none' if fl is None else
                    'x'.join(map(str, fl)) or 'scalar'),
                    self.build(specs, nc, how, fl), tier,
                    site=SITE % '__init__'))
            if clamped(specs):
                obs.append(Ob(self.pid, 'default:' + f, self.default(specs),
                              tier, site=SITE % '__init__'))
        for f, g in itertools.product(sorted(KNOTS), sorted(DATA)):
            for specs in (((2, (3, 1, 3)),), ((2, (3, 1, 3)), (1, (2, 2))),
                          ((1, (2, 2)), (1, (1,) * 5), (2, (3, 3)))):
                for nc, how in CONTROL:
                    obs.append(Ob(self.pid, 'forms:%s:%s:%s:%d%s' % (
                        fid(specs), f, g, nc, how or ''),
                        self.build(specs, nc, how, (2,), f, g),
                        site=SITE % '__init__'))
        for k, (label, thunk) in enumerate(self.ints()):
            obs.append(Ob(self.pid, 'integers:' + label, thunk,
                          site=SITE % '__init__'))
        for label, thunk in self.rejected():
            obs.append(Ob(self.pid, 'rejects:' + label, thunk,
                          site=SITE % '__init__'))
        return obs

    def read(self, t, obj, U, p, shape, want, nf, fwant, specs, us=None):
        c = t.c
        d = len(shape)
        t.eq(c.get(obj, 'dim'), d, 'dim')
        t.eqs(list(c.get(obj, 'shape')), list(shape), 'shape')
        t.eqs(list(c.get(obj, 'degree')), list(p), 'degree')
        ks = list(c.get(obj, 'knots'))
        t.eq(len(ks), d, 'number of knot vectors')
        for k in range(d):
            t.shape(ks[k], (len(U[k]),), 'knots of axis %d' % k)
            t.ok(ks[k].dtype == 'f8', 'dtype of the knots', ks[k].dtype)
            t.eqs(elements(ks[k]), U[k], 'knots of axis %d' % k)

        def check(attr, tail, f):
            a = c.get(obj, attr)
            if t.shape(a, tuple(shape) + tail, attr) is not True:
                return
            t.ok(a.dtype == 'f8', 'dtype of ' + attr, a.dtype)
            e = elements(a)
            n = 1
            for s in tail:
                n *= s
            for i, ix in enumerate(itertools.product(
                    *[range(s) for s in shape])):
                if t.eqs([sc(x) for x in e[n * i:n * (i + 1)]], f(ix),
                         '%s%r' % (attr, ix)) is not True:
                    return
        fw = lambda ix: [mul(x, want[ix][3]) for x in fwant(ix)]
        check('control', (4,), lambda ix: want[ix])
        check('weights', (), lambda ix: [want[ix][3]])
        check('points', (3,), lambda ix: [div(x, want[ix][3])
                                          for x in want[ix][:3]])
        check('array', (4 + nf,), lambda ix: want[ix] + (
            fw(ix) if nf else []))
        if nf:
            check('fields', (nf,), lambda ix: fwant(ix))
        else:
            t.ok(c.get(obj, 'fields') is None, 'no fields')
        # the object evaluates to the map of the data it was given
        g = Geo(t, obj)
        us = us or [s.par('s%d' % i, s.spans()[-1])
                    for i, s in enumerate(specs)]
        r = c.m(obj, '__call__', *us, **({'fields': True} if nf else {}))
        P, F = r if nf else (r, None)
        h = evaluate(g, us)
        if t.shape(P, (3,), 'point') is True:
            t.eqs([sc(x) for x in elements(P)],
                  [div(x, h[3]) for x in h[:3]], 'point at a parameter')
        if nf and t.shape(F, (nf,), 'field value') is True:
            t.eqs([sc(x) for x in elements(F)],
                  [div(x, h[3]) for x in h[4:]], 'fields at a parameter')

    def build(self, specs, nc, how, fl, kform='arrays', dform='array'):
        def fn(t):
            S = [Spec(*s) for s in specs]
            U = [s.knots('k' + AXES[i]) for i, s in enumerate(S)]
            shape = tuple(s.n for s in S)
            W = None
            if nc == 4:
                C = hom('C', shape)
            else:
                C = block('C', shape + (nc,))
                if how:
                    W = block('W', shape, .5, 2.)
            want = expect(nc, how, C, W, shape)
            F = None
            nf = 0
            fe = []
            if fl is not None:
                F = block('F', shape + fl)
                fe = [sc(x) for x in elements(F)]
                nf = fl[0] if fl else 1
            pos = {ix: i for i, ix in enumerate(itertools.product(
                *[range(s) for s in shape]))}
            fwant = lambda ix: fe[nf * pos[ix]:nf * (pos[ix] + 1)]
            form = DATA[dform]
            args, kw = [KNOTS[kform](U), form(C)], {}
            if how == 'kw':
                kw['weights'] = form(W)
            elif how == 'pair':
                args[1] = (form(C), form(W))
            if F is not None:
                kw['fields'] = form(F)
            if how == 'positional':
                args += [kw.pop('fields', None), form(W)]
            obj = t.c.call(t.c.name('nurbs', 'NURBS'), *args, **kw)
            self.read(t, obj, U, [s.p for s in S], shape, want, nf, fwant, S)
        return fn

    def default(self, specs):
        """knots alone: the identity map of the parameter domain"""
        def fn(t):
            S = [Spec(*s) for s in specs]
            U = [s.knots('k' + AXES[i]) for i, s in enumerate(S)]
            obj = t.c.call(t.c.name('nurbs', 'NURBS'),
                           L([arr(u) for u in U]))
            g = wellformed(t, obj, 'knots alone', 4)
            t.eqs(list(t.c.get(obj, 'degree')), [s.p for s in S], 'degree')
            for k, s in enumerate(S):
                t.eqs(g.U[k], U[k], 'knots')
            for us in combos(samples(S), 8):
                h = evaluate(g, us)
                want = list(us) + [sc_const(0)] * (3 - len(us))
                t.eqs([div(x, h[3]) for x in h[:3]], want,
                      'point at (%s)' % ', '.join(u.rep for u in us))
        return fn

    def ints(self):
        """integer data are read as floating point numbers"""
        def mk(knots, C, W, F, dt):
            def fn(t):
                a = (lambda v: arr(v, 'i8')) if dt == 'array' else \
                    (lambda v: v)
                shape = (len(C),)
                nc = len(C[0])
                Cc = arr([[sc_const(x) for x in r] for r in C])
                Wc = arr([sc_const(x) for x in W]) if W else None
                want = expect(nc, 'kw', Cc, Wc, shape)
                kw = {}
                if W:
                    kw['weights'] = a(L(W))
                kw['fields'] = a(L(F))
                obj = t.c.call(t.c.name('nurbs', 'NURBS'),
                               L([a(L(knots))]), a(L([L(r) for r in C])),
                               **kw)
                n = len(C)
                U = [[sc_const(x) for x in knots]]
                u = sc_atom('param', 'u', rep='u')
                set_iv(u, .1, .9)
                self.read(t, obj, U, [len(knots) - n - 1], shape, want, 1,
                          lambda ix: [sc_const(F[ix[0]])], None, [u])
            return fn
        K = [0, 0, 0, 1, 2, 2, 2]
        for dt in ('array', 'list'):
            yield dt + ':xyz', mk(K, [[0, 1, 2], [3, 5, 1], [4, 7, 2],
                                      [1, 1, 1]], [1, 2, 3, 1],
                                  [1, 2, 5, 4], dt)
            yield dt + ':xy', mk(K, [[0, 1], [3, 5], [4, 7], [1, 1]], None,
                                 [7, 2, 5, 4], dt)
            yield dt + ':xyzw', mk(K, [[0, 1, 2, 1], [3, 5, 1, 2],
                                       [4, 7, 2, 3], [1, 1, 1, 1]], None,
                                   [1, 2, 5, 3], dt)

    def rejected(self):
        S = {'u': Spec(2, (3, 1, 3)), 'v': Spec(1, (2, 2)),
             'w': Spec(1, (2, 1, 2))}
        kn = lambda ax: L([arr(S[a].knots('k' + a)) for a in ax])
        n = lambda ax: tuple(S[a].n for a in ax)

        def add(label, f):
            def fn(t):
                a, kw = f()
                t.raises(lambda: t.c.call(t.c.name('nurbs', 'NURBS'), *a,
                                          **kw), label)
            out.append((label, fn))
        out = []
        B = block
        add('no-knots', lambda: ([L([])], {}))
        add('four-knot-vectors', lambda: (
            [L(list(kn('uvw')) + list(kn('v'))), B('C', n('uvwv') + (3,))],
            {}))
        add('four-knot-vectors-alone', lambda: (
            [L(list(kn('uvw')) + list(kn('v')))], {}))
        add('two-dimensional-knots', lambda: (
            [L([B('K', (2, 7))]), B('C', (4, 3))], {}))
        add('three-knots', lambda: ([L([B('K', (3,))]), B('C', (1, 3))], {}))
        add('one-component', lambda: ([kn('u'), B('C', n('u') + (1,))], {}))
        add('five-components', lambda: ([kn('u'), B('C', n('u') + (5,))],
                                        {}))
        add('flat-control', lambda: ([kn('u'), B('C', n('u'))], {}))
        for ax in ('u', 'uv', 'uvw'):
            k = n(ax)
            add('weights-with-xyzw:' + ax, lambda ax=ax, k=k: (
                [kn(ax), hom('C', k)], {'weights': B('W', k, .5, 2)}))
            add('pair-with-xyzw:' + ax, lambda ax=ax, k=k: (
                [kn(ax), (hom('C', k), B('W', k, .5, 2))], {}))
            add('weights-twice:' + ax, lambda ax=ax, k=k: (
                [kn(ax), (B('C', k + (3,)), B('W', k, .5, 2))],
                {'weights': B('V', k, .5, 2)}))
            add('weights-alone:' + ax, lambda ax=ax, k=k: (
                [kn(ax)], {'weights': B('W', k, .5, 2)}))
            for j in range(len(ax)):
                k2 = k[:j] + (k[j] + 1,) + k[j + 1:]
                k1 = k[:j] + (1,) + k[j + 1:]
                add('weights-extent:%s:%d' % (ax, j),
                    lambda ax=ax, k=k, k2=k2: (
                        [kn(ax), B('C', k + (3,))],
                        {'weights': B('W', k2, .5, 2)}))
                add('weights-broadcast:%s:%d' % (ax, j),
                    lambda ax=ax, k=k, k1=k1: (
                        [kn(ax), B('C', k + (3,))],
                        {'weights': B('W', k1, .5, 2)}))
                add('fields-extent:%s:%d' % (ax, j),
                    lambda ax=ax, k=k, k2=k2: (
                        [kn(ax), B('C', k + (3,))],
                        {'fields': B('F', k2 + (2,))}))
                add('fields-broadcast:%s:%d' % (ax, j),
                    lambda ax=ax, k=k, k1=k1: (
                        [kn(ax), B('C', k + (3,))],
                        {'fields': B('F', k1 + (2,))}))
                big = k[:j] + (len(S[ax[j]].knots('q')) - 1,) + k[j + 1:]
                add('too-many-points:%s:%d' % (ax, j),
                    lambda ax=ax, big=big: (
                        [kn(ax), B('C', big + (3,))], {}))
                add('more-points-than-knots:%s:%d' % (ax, j),
                    lambda ax=ax, big=big, j=j: (
                        [kn(ax), B('C', big[:j] + (big[j] + 3,)
                                   + big[j + 1:] + (3,))], {}))
            add('scalar-weights:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k + (3,))], {'weights': sc_const(2)}))
            add('weights-with-tail:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k + (3,))],
                {'weights': B('W', k + (1,), .5, 2)}))
            add('fields-rank:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k + (3,))],
                {'fields': B('F', k + (2, 2))}))
            add('scalar-fields:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k + (3,))], {'fields': sc_const(2)}))
            add('missing-axis:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k[1:] + (3,))], {}))
            add('extra-axis:' + ax, lambda ax=ax, k=k: (
                [kn(ax), B('C', k + (2, 3))], {}))
        return out


def breaks_of(s, U):
    """distinct knots of the domain and their multiplicities (at most p)"""
    lo, hi = s.domain()
    first, k = {}, 0
    for i, m in enumerate(s.mults):
        first[i] = U[k]
        k += m
    return [first[i] for i in range(lo, hi + 1)], \
        [min(s.mults[i], s.p) for i in range(lo, hi + 1)]


@register
class Queries(Prop):
    pid = 'C27'
    variants = VARIANTS
    WHAT = ('breaks', 'mults', 'spans', 'greville', 'lagrange', 'lobatto')

    def obligations(self):
        obs = []
        for specs, tier in all_specs():
            for what in self.WHAT:
                for axis in list(range(len(specs))) + [-1, None]:
                    if axis == -1 and len(specs) == 1 and tier != 'quick':
                        continue
                    obs.append(Ob(self.pid, '%s:%s:%s' % (
                        what, fid(specs), axis),
                        self.query(specs, what, axis), tier,
                        site=SITE % what.replace('mults', 'breaks')))
        return obs

    def query(self, specs, what, axis):
        def fn(t):
            m = make(t, specs)
            kw = {'mults': True} if what == 'mults' else {}
            meth = 'breaks' if what == 'mults' else what
            a = [] if axis is None else [axis]
            r = t.c.m(m.obj, meth, *a, **kw)
            d = len(m.specs)
            if axis is None:
                t.ok(isinstance(r, list) and len(r) == d,
                     'one result per axis', r)
                rs = list(enumerate(r))
            else:
                rs = [(range(d)[axis], r)]
            for k, x in rs:
                getattr(self, what)(t, x, m.specs[k], m.U[k])
        return fn

    def arr(self, t, x, want, what, dt='f8'):
        if t.shape(x, (len(want),), what) is not True:
            return None
        t.ok(x.dtype[0] == dt[0], what + ': dtype', x.dtype)
        e = elements(x)
        if dt[0] == 'i':
            t.eqs([core.simp(v) for v in e], want, what)
        else:
            t.eqs([sc(v) for v in e], want, what)
        return e

    def breaks(self, t, x, s, U):
        self.arr(t, x, breaks_of(s, U)[0], 'breaks')

    def mults(self, t, x, s, U):
        t.ok(isinstance(x, tuple) and len(x) == 2, 'breaks and mults')
        self.arr(t, x[0], breaks_of(s, U)[0], 'breaks')
        self.arr(t, x[1], breaks_of(s, U)[1], 'multiplicities', 'i4')

    def spans(self, t, x, s, U):
        want = [k for k in range(s.p, len(U) - s.p - 1)
                if lt(U[k], U[k + 1])]
        self.arr(t, x, want, 'spans', 'i4')

    def greville(self, t, x, s, U):
        want = []
        for i in range(s.n):
            v = sc_const(0)
            for j in range(1, s.p + 1):
                v = core.add(v, U[i + j])
            want.append(div(v, sc_const(s.p)))
        self.arr(t, x, want, 'Greville abscissae')

    def lagrange(self, t, x, s, U):
        b = breaks_of(s, U)[0]
        want = []
        for i in range(len(b) - 1):
            for j in range(s.p):
                want.append(core.add(b[i], mul(
                    sub(b[i + 1], b[i]),
                    div(sc_const(j), sc_const(s.p)))))
        self.arr(t, x, want + [b[-1]], 'equispaced nodes')

    def lobatto(self, t, x, s, U):
        b = breaks_of(s, U)[0]
        n = (len(b) - 1) * s.p + 1
        if t.shape(x, (n,), 'Lobatto nodes') is not True:
            return
        e = [sc(v) for v in elements(x)]
        X = [sc(v) for v in elements(t.c.call(
            t.c.kernel('iga', 'GaussLobattoRule'), s.p + 1)[0])]
        half = sc_const(core.Fraction(1, 2))
        for i in range(n):
            k, j = divmod(i, s.p)
            want = b[k] if j == 0 else core.add(b[k], mul(
                mul(sub(b[k + 1], b[k]), half),
                core.add(X[j], sc_const(1))))
            t.eq(e[i], want, 'node %d of element %d' % (j, k))


# ---------------------------------------------------------------------------
# rejected arguments

def outside(s, side, name='o'):
    """a value beyond the domain of the axis"""
    lo, hi = s.domain()
    pos = s.pos or range(len(s.mults))
    a = sc_atom('out', name, side, rep='%s_%s' % (name, side))
    f = scale()
    if side == 'below':
        x = s.start() + H * pos[lo] * f
        set_iv(a, x - 3 * f, x - f / 100)
    else:
        x = s.start() + (H * pos[hi] + 1) * f
        set_iv(a, x + f / 100, x + 3 * f)
    return a


SPECS = {1: ((2, (3, 1, 3)),), 2: ((2, (3, 1, 3)), (1, (2, 2))),
         3: ((1, (2, 2)), (1, (2, 1, 2)), (2, (3, 1, 3)))}
UNCL = {1: ((2, (1,) * 7),), 2: ((1, (2, 2)), (2, (1,) * 7)),
        3: ((1, (2, 2)), (1, (2, 2)), (2, (1, 2, 1, 1, 2, 1)))}


def rejections():
    """label -> (dims, f(t, m, axis) -> (method, args, kw) or None)"""
    out = []

    def add(label, f, dims=(1, 2, 3)):
        out.append((label, f, dims))
    inner = lambda m, a, i=0, lo=.4, hi=.6: m.specs[a].par(
        'in%d' % i, m.specs[a].spans()[-1], lo, hi)

    def dom(m, a):
        s = m.specs[a]
        return m.U[a][s.p], m.U[a][-s.p - 1]
    nan = sc_atom('nan', rep='nan')
    for side in ('below', 'above'):
        o = lambda m, a, side=side: outside(m.specs[a], side)
        add('insert-' + side, lambda t, m, a, o=o: (
            'insert', [a, o(m, a)], {}))
        add('insert-zero-times-' + side, lambda t, m, a, o=o: (
            'insert', [a, o(m, a), 0], {}))
        add('insert-max-' + side, lambda t, m, a, o=o: (
            'insert', [a, o(m, a)], {'times': None}))
        add('remove-' + side, lambda t, m, a, o=o: (
            'remove', [a, o(m, a)], {}))
        add('refine-' + side, lambda t, m, a, o=o: (
            'refine', [a, arr([o(m, a), inner(m, a)])], {}))
        add('refine-scalar-' + side, lambda t, m, a, o=o: (
            'refine', [a, o(m, a)], {}))
        add('extract-' + side, lambda t, m, a, o=o: (
            'extract', [a, o(m, a)], {}))
        for meth, lead in (('__call__', []), ('evaluate', ['f']),
                           ('gradient', ['f']), ('hessian', ['f']),
                           ('derivative', [1, 'f']),
                           ('derivative', [2, 'f']),
                           ('derivative', [3, 'f']),
                           ('derivative', [4, 'f'])):
            n = meth + (str(lead[0]) if meth == 'derivative' else '')

            def ev(t, m, a, o=o, meth=meth, lead=lead, seq=False):
                d = len(m.specs)
                us = [inner(m, k, k) for k in range(d)]
                x = o(m, a)
                us[a] = arr([inner(m, a), x]) if seq else x
                args = [block('f', tuple(s.n for s in m.specs))
                        if z == 'f' else z for z in lead]
                return meth, args, dict(zip(AXES, us))
            add('%s-%s' % (n, side), ev)
            add('%s-array-%s' % (n, side),
                lambda t, m, a, ev=ev: ev(t, m, a, seq=True))
    add('slice-start-below', lambda t, m, a: (
        'slice', [a, outside(m.specs[a], 'below'), inner(m, a)], {}))
    add('slice-end-above', lambda t, m, a: (
        'slice', [a, inner(m, a), outside(m.specs[a], 'above')], {}))
    add('slice-start-below-open', lambda t, m, a: (
        'slice', [a, outside(m.specs[a], 'below'), None], {}))
    add('slice-end-above-open', lambda t, m, a: (
        'slice', [a, None, outside(m.specs[a], 'above')], {}))
    add('slice-empty', lambda t, m, a: (
        'slice', [a] + [inner(m, a)] * 2, {}))
    add('slice-backwards', lambda t, m, a: (
        'slice', [a, inner(m, a, 1, .7, .9), inner(m, a, 2, .1, .3)], {}))
    add('slice-backwards-open', lambda t, m, a: (
        'slice', [a, dom(m, a)[1], None], {}))
    add('remap-backwards', lambda t, m, a: (
        'remap', [a, inner(m, a, 1, .7, .9), inner(m, a, 2, .1, .3)], {}))
    add('remap-empty', lambda t, m, a: (
        'remap', [a] + [inner(m, a)] * 2, {}))
    add('remap-backwards-open', lambda t, m, a: (
        'remap', [a, outside(m.specs[a], 'above'), None], {}))
    add('remap-backwards-end', lambda t, m, a: (
        'remap', [a, None, outside(m.specs[a], 'below')], {}))
    add('insert-too-often', lambda t, m, a: (
        'insert', [a, inner(m, a), m.specs[a].p + 1], {}))
    add('insert-on-knot-too-often', lambda t, m, a: (
        'insert', [a, m.U[a][m.specs[a].p + 1], m.specs[a].p + 1], {}))
    add('insert-at-start-too-often', lambda t, m, a: (
        'insert', [a, dom(m, a)[0], m.specs[a].p], {}))
    add('insert-at-end-too-often', lambda t, m, a: (
        'insert', [a, dom(m, a)[1], m.specs[a].p], {}))
    add('insert-negative', lambda t, m, a: (
        'insert', [a, inner(m, a), -1], {}))
    add('remove-negative', lambda t, m, a: (
        'remove', [a, m.U[a][m.specs[a].p + 1], -1], {}), (1,))
    add('refine-too-often', lambda t, m, a: (
        'refine', [a, arr([inner(m, a)] * (m.specs[a].p + 1))], {}))
    add('refine-nested-too-often', lambda t, m, a: (
        'refine', [a, L([L([inner(m, a)])] * (m.specs[a].p + 1))], {}))
    add('refine-knot-too-often', lambda t, m, a: (
        'refine', [a, arr([m.U[a][m.specs[a].p + 1]] * m.specs[a].p)], {}))
    add('elevate-negative', lambda t, m, a: ('elevate', [a, -1], {}))
    for s in (2, -1):
        add('clamp-side%d' % s, lambda t, m, a, s=s: ('clamp', [a, s], {}))
        add('unclamp-side%d' % s, lambda t, m, a, s=s: (
            'unclamp', [a, s], {}))
        add('boundary-side%d' % s, lambda t, m, a, s=s: (
            'boundary', [a, s], {}))
    add('unclamp-continuity-negative', lambda t, m, a: (
        'unclamp', [a], {'continuity': -1}))
    add('unclamp-continuity-degree', lambda t, m, a: (
        'unclamp', [a], {'continuity': m.specs[a].p}))
    # axes
    for off, nm in ((0, 'high'), (-1, 'low')):
        ax = lambda m, off=off: (-len(m.specs) - 1 if off
                                 else len(m.specs))
        for meth, rest in (
                ('insert', lambda m: [inner(m, 0)]),
                ('remove', lambda m: [inner(m, 0)]),
                ('refine', lambda m: [arr([inner(m, 0)])]),
                ('elevate', lambda m: [1]), ('clamp', lambda m: []),
                ('unclamp', lambda m: []), ('reverse', lambda m: []),
                ('swap', lambda m: [0]),
                ('remap', lambda m: [sc_const(0), sc_const(1)]),
                ('slice', lambda m: [None, None]),
                ('extract', lambda m: [inner(m, 0)]),
                ('boundary', lambda m: [0]), ('spans', lambda m: []),
                ('breaks', lambda m: []), ('greville', lambda m: []),
                ('lagrange', lambda m: []), ('lobatto', lambda m: [])):
            add('%s-axis-%s' % (meth, nm), lambda t, m, a, meth=meth,
                rest=rest, ax=ax: (meth, [ax(m)] + rest(m), {}))
        add('swap-second-axis-' + nm, lambda t, m, a, ax=ax: (
            'swap', [0, ax(m)], {}))
        add('reverse-second-axis-' + nm, lambda t, m, a, ax=ax: (
            'reverse', [0, ax(m)], {}))
    add('transpose-short', lambda t, m, a: (
        'transpose', [tuple(range(len(m.specs) - 1))], {}), (2, 3))
    add('transpose-long', lambda t, m, a: (
        'transpose', [tuple(range(len(m.specs) + 1))], {}))
    add('transpose-repeated', lambda t, m, a: (
        'transpose', [(0,) * len(m.specs)], {}), (2, 3))
    add('transpose-range', lambda t, m, a: (
        'transpose', [tuple(range(1, len(m.specs) + 1))], {}))
    # transforms
    add('transform-shape', lambda t, m, a: (
        'transform', [block('M', (3, 3))], {}))
    add('translate-components', lambda t, m, a: (
        'translate', [block('d', (4,))], {}))
    # fields of the wrong extents
    for meth, kw in (('__call__', True), ('evaluate', False),
                     ('gradient', False), ('hessian', False),
                     ('derivative', False)):
        for nm, sh in (
                ('extent', lambda n: (n[0] + 1,) + n[1:]),
                ('broadcast', lambda n: (1,) + n[1:] + (2,)),
                ('rank', lambda n: n + (2, 2)),
                ('few', lambda n: n[1:])):
            def ff(t, m, a, meth=meth, kw=kw, sh=sh):
                F = block('F', sh(tuple(s.n for s in m.specs)))
                if kw:
                    return meth, [], {'fields': F}
                return meth, ([1] if meth == 'derivative' else []) + [F], {}
            add('%s-fields-%s' % (meth, nm), ff)
    add('derivative-order-negative', lambda t, m, a: (
        'derivative', [-1], {}))
    add('derivative-order-5', lambda t, m, a: ('derivative', [5], {}))
    return out


@register
class Rejects(Prop):
    pid = 'C13'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for label, f, dims in rejections():
            for d in dims:
                for fam, specs in (('clamped', SPECS[d]),
                                   ('unclamped', UNCL[d])):
                    if 'fields' in label or 'axis-' in label or \
                       'order' in label or label.startswith('trans'):
                        if fam == 'unclamped':
                            continue
                    if label.startswith('insert-at-'):
                        # full multiplicity is reached on clamped ends only
                        pass
                    for axis in range(d):
                        if axis < d - 1 and (fam == 'unclamped' or not (
                                label.endswith('below') or
                                label.endswith('above'))):
                            continue
                        obs.append(Ob(self.pid, '%s:%dd:%s:%d' % (
                            label, d, fam, axis),
                            self.rejected(specs, f, axis, label),
                            site=SITE % label.split('-')[0]))
        return obs

    def rejected(self, specs, f, axis, label):
        def fn(t):
            m = make(t, specs, nf=1)
            g0 = Geo(t, m.obj)
            name, args, kw = f(t, m, axis)
            snap = Snap(m.obj, L(m.knots), m.cw, m.f, *args)
            for k in kw:
                snap.add(kw[k], k)
            st = t.raises(lambda: t.c.m(m.obj, name, *args, **kw), label)
            if st is not True:
                return
            snap.check(t, 'rejected %s() leaves everything unchanged' % name)
            g1 = wellformed(t, m.obj, 'after the rejected call', g0.nc)
            for k in range(g0.dim):
                t.eqs(g1.U[k], g0.U[k], 'knots after the rejected call')
            t.eqs(g1.flat, g0.flat, 'control data after the rejected call')
        return fn
