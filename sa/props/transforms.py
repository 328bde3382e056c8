"""Affine transformations and their application to objects."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements

L = PI.PList
TR = 'igakit/transform.py transform.%s'
NU = 'igakit/nurbs.py NURBS.%s'


def sym(name, lo=-3., hi=3.):
    a = sc_atom('arg', name, rep=name)
    set_iv(a, lo, hi)
    return a


def neg(x):
    return sub(sc_const(0), x)


def flat(a):
    e = elements(N.toarr(a))
    if e is None:
        raise Unmodelled('symbolic array')
    return [core.sc(x) for x in e]


# --- the oracle: what an operation does to a homogeneous point (x,y,z,w)

def o_translate(d):
    d = list(d) + [sc_const(0)] * (3 - len(d))
    return lambda h: [core.add(h[i], mul(d[i], h[3])) for i in range(3)] + \
        [h[3]]


def o_scale(s):
    s = list(s) + [sc_const(1)] * (3 - len(s))
    return lambda h: [mul(s[i], h[i]) for i in range(3)] + [h[3]]


def o_rotate(a, axis):
    """Rodrigues' formula, right-handed, about a vector of any length"""
    v = list(axis) + [sc_const(0)] * (3 - len(axis))
    n2 = sc_const(0)
    for x in v:
        n2 = core.add(n2, mul(x, x))
    n = core.sqrt(n2)
    u = [div(x, n) for x in v]
    c, s = core.cos(a), core.sin(a)

    def f(h):
        d = sc_const(0)
        for x, y in zip(u, h):
            d = core.add(d, mul(x, y))
        cr = [sub(mul(u[1], h[2]), mul(u[2], h[1])),
              sub(mul(u[2], h[0]), mul(u[0], h[2])),
              sub(mul(u[0], h[1]), mul(u[1], h[0]))]
        k = mul(sub(sc_const(1), c), d)
        return [core.add(core.add(mul(c, h[i]), mul(s, cr[i])),
                         mul(k, u[i])) for i in range(3)] + [h[3]]
    return f


def o_matrix(m, n):
    """m: flat n x n matrix"""
    def f(h):
        out = list(h)
        for i in range(n):
            out[i] = sc_const(0)
            for j in range(n):
                out[i] = core.add(out[i], mul(m[i * n + j], h[j]))
        return out
    return f


def unit(i):
    return [sc_const(int(i == j)) for j in range(3)]


def ops():
    """(label, f(t) -> (method, args, kwargs, oracle))"""
    out = []

    def add(label, f):
        out.append((label, f))

    def vec(name, n):
        b = block(name, (n,), .5, 3)
        return b, flat(b)

    def cont(kind, b, e):
        return b if kind == 'array' else L(e) if kind == 'list' else tuple(e)
    for op, orc in (('translate', o_translate), ('move', o_translate),
                    ('scale', o_scale)):
        for n in (1, 2, 3):
            for kind in ('array', 'list', 'tuple'):
                def f(t, op=op, orc=orc, n=n, kind=kind):
                    b, e = vec('d', n)
                    return op, [cont(kind, b, e)], {}, orc(e)
                add('%s:%s%d' % (op, kind, n), f)
        for ax in (0, 1, 2, -1):
            def f(t, op=op, orc=orc, ax=ax):
                d = sym('d')
                e = [sc_const(int(op == 'scale'))] * 3
                e[ax] = d
                return op, [d, ax], {}, orc(e)
            add('%s:axis%d' % (op, ax), f)

            def f(t, op=op, orc=orc, ax=ax):
                d = sym('d')
                e = [sc_const(int(op == 'scale'))] * 3
                e[ax] = d
                return op, [d], {'axis': ax}, orc(e)
            add('%s:axis=%d' % (op, ax), f)

        def f(t, op=op, orc=orc):
            d = sym('d')
            return op, [d], {}, orc([d] * 3 if op == 'scale' else [d])
        add(op + ':scalar', f)
        for c in (0, 2, -3):
            def f(t, op=op, orc=orc, c=c):
                if op == 'scale' and c == 0:
                    c = 5
                d = sc_const(c)
                return op, [c], {}, orc([d] * 3 if op == 'scale' else [d])
            add('%s:constant%d' % (op, c), f)
    for ax in (0, 1, 2, None):
        for sg in ('', 'negative', 'right', 'half', 'zero', 'large'):
            def f(t, ax=ax, sg=sg):
                a = sym('angle', .1, 3) if sg == '' else \
                    sym('angle', -3, -.1) if sg == 'negative' else \
                    sym('angle', 6.5, 30) if sg == 'large' else \
                    sc_const(0) if sg == 'zero' else \
                    mul(core.sc_pi(), sc_const(1 if sg == 'half' else
                                               core.Fraction(1, 2)))
                args = [a] if ax is None else [a, ax]
                return 'rotate', args, {}, o_rotate(
                    a, unit(2 if ax is None else ax))
            add('rotate:axis%s:%s' % (ax, sg or 'positive'), f)
    signs = [s for s in itertools.product((0, 1, -1), repeat=3) if any(s)]
    for s in signs:
        def f(t, s=s):
            a = sym('angle', *((-3, -.1) if s[0] < 0 else (.1, 3)))
            e = []
            for i, q in enumerate(s):
                x = set_iv(sc_atom('axis', i, rep='axis%d' % i), .5, 3)
                e.append(x if q > 0 else neg(x) if q < 0 else sc_const(0))
            return 'rotate', [a, arr(e)], {}, o_rotate(a, e)
        add('rotate:vector:%s' % ''.join('0+-'[q] for q in s), f)
    for n in (1, 2, 3):
        for kind in ('list', 'tuple'):
            def f(t, n=n, kind=kind):
                a = sym('angle', .1, 3)
                b, e = vec('axis', n)
                return 'rotate', [a, cont(kind, b, e)], {}, o_rotate(a, e)
            add('rotate:%s%d' % (kind, n), f)
    for k in (1, 2):
        def f(t, k=k):
            a = sym('angle', .1, 3)
            e = [sc_const(0), sc_const(k), sc_const(0)]
            return 'rotate', [a, L([0, k, 0])], {}, o_rotate(a, e)
        add('rotate:integers%d' % k, f)

        def f(t, k=k):
            e = unit(1)
            return 'rotate', [k, L([0, -k, 0])], {}, o_rotate(
                sc_const(-k), e)
        add('rotate:integer-angle%d' % k, f)
    return out


def compositions():
    out = []

    def add(label, f):
        out.append((label, f))

    def m3(t):
        b = block('K', (3, 3), -3, 3)
        return 'compose', [b], {}, o_matrix(flat(b), 3)

    def m4(t):
        b = block('K', (4, 4), -3, 3)
        return 'compose', [b], {}, o_matrix(flat(b), 4)

    def lst(t):
        b = block('K', (3, 3), -3, 3)
        e = flat(b)
        return 'compose', [L([L(e[3 * i:3 * i + 3]) for i in range(3)])], \
            {}, o_matrix(e, 3)

    def tr(t):
        b = block('K', (4, 4), -3, 3)
        return 'compose', [t.c.call(t.c.name('transform', 'transform'), b)],\
            {}, o_matrix(flat(b), 4)
    add('compose:3x3', m3)
    add('compose:4x4', m4)
    add('compose:list', lst)
    add('compose:transform', tr)
    return out


SHAPES = [(4,), (3, 4), (2, 3, 4), (2, 2, 2, 4)]


@register
class Transforms(Prop):
    pid = 'C15'

    def obligations(self):
        obs = []
        for label, f in ops() + compositions():
            m = label.split(':')[0]
            for base in ('identity', 'matrix'):
                obs.append(Ob(self.pid, '%s:%s' % (label, base),
                              self.op(f, base), site=TR % m))
        for a, b in itertools.product(('translate:array3', 'scale:array3',
                                       'rotate:axis1:positive',
                                       'compose:3x3'), repeat=2):
            d = dict(ops() + compositions())
            obs.append(Ob(self.pid, 'sequence:%s:%s' % (a, b),
                          self.seq(d[a], d[b]), site=TR % b.split(':')[0]))
        for s in SHAPES:
            obs.append(Ob(self.pid, 'apply:%s' % 'x'.join(map(str, s)),
                          self.apply(s), site=TR % '__call__'))
        for kind in ('identity', 'matrix', 'list', 'transform', 'copy',
                     'clone', 'array'):
            obs.append(Ob(self.pid, 'create:' + kind, self.create(kind),
                          site=TR % '__init__'))
        for label, f in ops() + compositions():
            if label in ('translate:array3', 'translate:scalar',
                         'scale:array3', 'scale:scalar',
                         'rotate:axis0:positive', 'rotate:axis1:negative',
                         'rotate:axis2:positive', 'rotate:vector:+-+',
                         'compose:3x3', 'compose:4x4'):
                for meth in ('inverse', 'invert'):
                    obs.append(Ob(self.pid, '%s:%s' % (meth, label),
                                  self.inv(f, meth), site=TR % meth))
        for sh in ((3,), (2, 4), (5, 5), (3, 4)):
            obs.append(Ob(self.pid, 'reject:matrix%s' % (sh,),
                          self.rej('new', sh), site=TR % '__init__'))
            obs.append(Ob(self.pid, 'reject:compose%s' % (sh,),
                          self.rej('compose', sh), site=TR % 'compose'))
        for m in ('translate', 'scale', 'rotate'):
            obs.append(Ob(self.pid, 'reject:%s' % m, self.rej(m, None),
                          site=TR % m))
        return obs

    def new(self, t, base):
        cls = t.c.name('transform', 'transform')
        if base == 'identity':
            sym('bounded')      # switches the interval domain on
            return t.c.call(cls), lambda h: list(h)
        M = block('M', (4, 4), -3, 3)
        return t.c.call(cls, M), o_matrix(flat(M), 4)

    def acts(self, t, T, orc, what):
        P = block('P', (2, 4))
        e = flat(P)
        r = t.c.call(T, P)
        if t.shape(r, (2, 4), what + ': shape') is not True:
            return
        r = flat(r)
        for i in range(2):
            t.eqs(r[4 * i:4 * i + 4], orc(e[4 * i:4 * i + 4]),
                  what + ': point %d' % i)

    def op(self, f, base):
        def fn(t):
            T, o0 = self.new(t, base)
            m, args, kw, orc = f(t)
            r = t.c.m(T, m, *args, **kw)
            t.ok(r is T, m + ' returns its receiver')
            self.acts(t, T, lambda h: orc(o0(h)), m)
        return fn

    def seq(self, f, g):
        def fn(t):
            T, _ = self.new(t, 'identity')
            m1, a1, k1, o1 = f(t)
            m2, a2, k2, o2 = g(t)
            t.c.m(T, m1, *a1, **k1)
            t.c.m(T, m2, *a2, **k2)
            self.acts(t, T, lambda h: o2(o1(h)), '%s then %s' % (m1, m2))
        return fn

    def apply(self, shape):
        def fn(t):
            T, orc = self.new(t, 'matrix')
            P = block('P', shape)
            r = t.c.call(T, P)
            if t.shape(r, shape, 'shape') is not True:
                return
            r, e = flat(r), flat(P)
            for i in range(0, len(e), 4):
                t.eqs(r[i:i + 4], orc(e[i:i + 4]), 'point %d' % (i // 4))
        return fn

    def create(self, kind):
        def fn(t):
            cls = t.c.name('transform', 'transform')
            T, orc = self.new(t, 'identity' if kind == 'identity'
                              else 'matrix')
            if kind == 'list':
                e = flat(t.c.get(T, 'matrix'))
                T = t.c.call(cls, L([L(e[4 * i:4 * i + 4])
                                     for i in range(4)]))
            elif kind == 'matrix':
                M = block('M', (4, 4), -3, 3)
                keep = flat(M)
                T = t.c.call(cls, M)
                orc = o_matrix(keep, 4)
                A.setitem(M, (0, 3), sc_const(99))
                t.eqs(flat(t.c.get(T, 'matrix')), keep,
                      'the matrix given is copied')
            elif kind == 'transform':
                src = t.c.get(T, 'matrix')
                T = t.c.call(cls, T)
            elif kind in ('copy', 'clone'):
                old = T
                T = t.c.m(T, kind)
                src = t.c.get(old, 'matrix')
                t.ok(T is not old, kind + ' is a new object')
            elif kind == 'array':
                a = t.c.m(T, '__array__')
                t.same_arr(a, t.c.get(T, 'matrix'), '__array__')
                src = t.c.get(T, 'matrix')
            # writing in the matrix of one leaves the other alone
            if kind in ('copy', 'transform', 'array'):
                mine = a if kind == 'array' else t.c.get(T, 'matrix')
                keep = flat(src)
                A.setitem(mine, (0, 3), sc_const(99))
                t.eqs(flat(src), keep, kind + ': the original is kept')
                A.setitem(mine, (0, 3), keep[3])
            self.acts(t, T, orc, kind)
            if kind in ('copy', 'clone', 'transform'):
                t.c.m(T, 'translate', arr([1., 2., 3.]))
                self.acts(t, T, lambda h: o_translate(
                    [sc_const(i) for i in (1, 2, 3)])(orc(h)), 'new object')
        return fn

    def inv(self, f, meth):
        def fn(t):
            T, _ = self.new(t, 'identity')
            m, args, kw, orc = f(t)
            t.c.m(T, m, *args, **kw)
            P = block('P', (2, 4))
            e = flat(P)
            q = t.c.call(T, P)
            R = t.c.m(T, meth)
            t.ok((R is T) == (meth == 'invert'), meth + ': in place or not')
            back = flat(t.c.call(R, q))
            t.eqs(back, e, 'the inverse undoes the transformation')
            if meth == 'inverse':
                t.same_arr(t.c.call(T, P), q, 'the receiver is kept')
        return fn

    def rej(self, m, sh):
        def fn(t):
            T, _ = self.new(t, 'identity')
            kinds = ('AssertionError', 'ValueError', 'IndexError',
                     'TypeError')
            if m == 'new':
                t.raises(lambda: t.c.call(t.c.name(
                    'transform', 'transform'), block('M', sh)),
                    'a matrix that is not 4x4', kinds)
            elif m == 'compose':
                t.raises(lambda: t.c.m(T, 'compose', block('M', sh)),
                         'a matrix that is neither 3x3 nor 4x4', kinds)
            elif m == 'rotate':
                t.raises(lambda: t.c.m(T, m, sym('a', .1, 1), L([0, 0, 0])),
                         'rotation about the zero vector', kinds)
                t.raises(lambda: t.c.m(T, m, sym('a', .1, 1), 3),
                         'rotation about axis 3', kinds)
            else:
                t.raises(lambda: t.c.m(T, m, block('d', (4,))),
                         '%s by four components' % m, kinds)
                t.raises(lambda: t.c.m(T, m, block('d', (2, 2))),
                         '%s by a matrix' % m, kinds)
        return fn


def point(h):
    return [div(h[i], h[3]) for i in range(3)]


AFF = 'affine'


@register
class Applied(Prop):
    pid = 'C16'
    variants = WITH_FIELDS

    def obligations(self):
        obs = []
        fams = [((2, (3, 1, 3)),), ((2, (1,) * 6),),
                ((2, (3, 1, 3)), (1, (2, 1, 2))),
                ((1, (2, 2)), (2, (1,) * 6)),
                ((2, (3, 3)), (1, (2, 2)), (1, (2, 1, 2)))]
        for specs in fams:
            for nf in (0, 2):
                for label, f in ops():
                    m = label.split(':')[0]
                    k = label.split(':')[1]
                    few = m != 'rotate' and k in (
                        'array3', 'array2', 'list1', 'axis1', 'axis=2',
                        'scalar', 'constant2', 'axis-1', 'axis0') or \
                        label in ('rotate:axis1:positive',
                                  'rotate:vector:+-+', 'rotate:vector:0-0',
                                  'rotate:axisNone:negative',
                                  'rotate:vector:0+-',
                                  'rotate:list2', 'rotate:axis0:zero',
                                  'rotate:axis0:right')
                    if m == 'translate' or m == 'move' or m == 'scale' or \
                       m == 'rotate':
                        obs.append(Ob(
                            self.pid, '%s:%s:nf%d' % (label, fid(specs), nf),
                            self.direct(specs, nf, f),
                            'quick' if few else 'thorough', site=NU % m))
                for kind in ('matrix', 'list', 'transform', 'chain'):
                    obs.append(Ob(
                        self.pid, 'transform:%s:%s:nf%d' % (
                            kind, fid(specs), nf),
                        self.trans(specs, nf, kind), site=NU % 'transform'))
        return obs

    def check(self, t, m, r, orc, nf, what):
        t.ok(r is m.obj, what + ' returns the object')
        g = Geo(t, r)
        t.ok(g.shape == tuple(s.n for s in m.specs) + (4 + nf,),
             what + ': extents', g.shape)
        for k, (a, b) in enumerate(zip(g.U, m.U)):
            t.eqs(a, b, what + ': knots of axis %d' % k)
        w = flat(m.cw)
        f = flat(m.f) if nf else []
        for i in range(len(w) // 4):
            h = w[4 * i:4 * i + 4]
            got = g.flat[i * (4 + nf):(i + 1) * (4 + nf)]
            if t.eqs(point(got), point(orc(h)),
                     what + ': control point %d' % i) is not True:
                return
            t.eq(got[3], h[3], what + ': weight %d' % i)
            t.eqs([div(x, got[3]) for x in got[4:]], f[nf * i:nf * i + nf],
                  what + ': fields %d' % i)
        us = [s.par('u%d' % k, s.spans()[0]) for k, s in enumerate(m.specs)]
        ref = Geo.__new__(Geo)
        ref.__dict__.update(g.__dict__)
        ref.nc, ref.flat = 4, w
        a = evaluate(g, us)
        b = evaluate(ref, us)
        t.eqs(point(a), point(orc(b)), what + ': point at (%s)' % ', '.join(
            u.rep for u in us))

    def direct(self, specs, nf, f):
        def fn(t):
            m = make(t, specs, nf=nf)
            meth, args, kw, orc = f(t)
            r = t.c.m(m.obj, meth, *args, **kw)
            self.check(t, m, r, orc, nf, meth)
        return fn

    def trans(self, specs, nf, kind):
        def fn(t):
            m = make(t, specs, nf=nf)
            A_ = block('M', (3, 4), -3, 3)
            e = flat(A_) + [sc_const(int(i == 3)) for i in range(4)]
            M = arr(list(e))
            orc = o_matrix(e, 4)
            rows = L([L(e[4 * i:4 * i + 4]) for i in range(4)])
            cls = t.c.name('transform', 'transform')
            if kind == 'matrix':
                a = N.reshape(M, (4, 4))
            elif kind == 'list':
                a = rows
            else:
                a = t.c.call(cls, rows)
            r = t.c.m(m.obj, 'transform', a)
            if kind == 'chain':
                r = t.c.m(r, 'translate', arr([1., 2., 3.]))
                o1 = orc
                orc = lambda h: o_translate([sc_const(i) for i in
                                             (1, 2, 3)])(o1(h))
            self.check(t, m, r, orc, nf, 'transform')
        return fn
