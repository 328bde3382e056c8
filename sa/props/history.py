"""Histories: what an object answers depends only on its knots and control
data of the moment, whatever was asked of it or done to it before."""
import copy
from fractions import Fraction
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements
from ..core import sc_const
from .effects import methods, cads, trans, SPECS, UNCL

L = PI.PList


def flat(x):
    """(structure, scalars) of an answer"""
    if isinstance(x, A.Arr):
        e = elements(x)
        if e is None:
            raise core.Unmodelled('symbolic answer')
        return ('array', tuple(x.shape), x.dtype), [sc(v) for v in e]
    if isinstance(x, (PI.PList, list, tuple)):
        st, vs = [], []
        for y in x:
            s, v = flat(y)
            st.append(s)
            vs += v
        return tuple(st), vs
    if isinstance(x, PI.Inst):
        return ('object',), []
    if x is None:
        return ('none',), []
    return ('scalar',), [sc(x)]


def params(t, obj, a):
    """parameters of axis a: both ends and a point of the last element"""
    g = Geo(t, obj)
    p, U = g.p[a], g.U[a]
    lo, hi = U[p], U[-p - 1]
    b = hi
    for u in reversed(U[p:-p - 1]):
        if lt(u, hi):
            b = u
            break
    mid = div(core.add(b, core.add(b, hi)), sc_const(3))
    return [lo, mid, hi]


def questions(light=False):
    q = []

    def add(label, f):
        q.append((label, f))
    for n in ('dim', 'shape', 'degree', 'weights', 'points', 'fields',
              'control'):
        add(n, lambda t, o, us, G, n=n: t.c.get(o, n))
    add('breaks', lambda t, o, us, G: t.c.m(o, 'breaks', None, True))
    for n in ('breaks', 'spans', 'greville', 'lagrange', 'lobatto'):
        add(n + '-all', lambda t, o, us, G, n=n: t.c.m(o, n))
        add(n + '-axis', lambda t, o, us, G, n=n: L(
            [t.c.m(o, n, a) for a in range(len(us))]))
    add('call', lambda t, o, us, G: t.c.m(o, '__call__', *us))
    add('call-fields', lambda t, o, us, G: t.c.m(o, '__call__', *us,
                                                 fields=True))
    add('evaluate-array', lambda t, o, us, G: t.c.m(
        o, 'evaluate', G, **dict(zip('uvw', us))))
    add('gradient', lambda t, o, us, G: t.c.m(
        o, 'gradient', G, **dict(zip('uvw', us))))
    if not light:
        add('hessian', lambda t, o, us, G: t.c.m(
            o, 'hessian', G, **dict(zip('uvw', us))))
        add('gradient-fields', lambda t, o, us, G: t.c.m(
            o, 'gradient', **dict(zip('uvw', us))))
    for d in (0, 1):
        def bnd(t, o, us, G, d=d):
            if len(us) == 1:
                return None
            r = []
            for a in range(len(us)):
                b = t.c.m(o, 'boundary', a, d)
                r += [t.c.get(b, 'array'), L(t.c.get(b, 'knots'))]
            return L(r)
        add('boundary-%d' % d, bnd)
    return q


def ask(t, obj, skip=(), light=False):
    """every question; fields for the gradients come from the extents"""
    g = Geo(t, obj)
    us = [arr(params(t, obj, a)) for a in range(g.dim)]
    G = block('G' + 'x'.join(map(str, g.shape[:-1])), g.shape[:-1] + (2,))
    out = []
    for label, f in questions(light):
        if label in skip:
            continue
        out.append((label, f(t, obj, us, G)))
    return out


def fresh(t, obj):
    """a new object built from copies of the knots and control data"""
    g = Geo(t, obj)
    a = t.c.get(obj, 'array')
    e = [sc(x) for x in elements(a)]
    n = len(e) // g.nc
    rows = [e[g.nc * i:g.nc * (i + 1)] for i in range(n)]
    cw = N.toarr(A.reshape(arr([x for r in rows for x in r[:4]]),
                           g.shape[:-1] + (4,)))
    args = [L([arr(u) for u in g.U]), cw]
    if g.nc > 4:
        args.append(N.toarr(A.reshape(
            arr([div(x, r[3]) for r in rows for x in r[4:]]),
            g.shape[:-1] + (g.nc - 4,))))
    return t.c.call(t.c.name('nurbs', 'NURBS'), *args)


def agree(t, got, want, what):
    for (label, x), (_, y) in zip(got, want):
        sx, vx = flat(x)
        sy, vy = flat(y)
        if t.ok(sx == sy, '%s: form of %s' % (what, label),
                '%r instead of %r' % (sx, sy)):
            t.eqs(vx, vy, '%s: %s' % (what, label))


def current(t, obj, what, light=False):
    """the object and its clone answer as an equal new object does"""
    cl = t.c.m(obj, 'clone')
    got = ask(t, obj, light=light)
    agree(t, got, ask(t, fresh(t, obj), light=light), what)
    agree(t, ask(t, cl, light=True), got if light else
          [x for x in got if x[0] not in ('hessian', 'gradient-fields')],
          what + ', asked of a clone')


VIEWS = ('weights', 'control')


@register
class History(Prop):
    pid = 'C33'

    def obligations(self):
        obs = []
        ops = [(l, f, d) for l, inp, f, d in methods() if inp]
        for label, f, dims in ops:
            for dim in (1, 2, 3):
                for fam, S in (('clamped', SPECS), ('unclamped', UNCL)):
                    if fam == 'unclamped' and label == 'unclamp':
                        continue
                    obs.append(Ob(
                        self.pid, 'after:%s:%d:%s' % (label, dim, fam),
                        self.after(S[dim], dim - 1, f,
                                   label.startswith('remap')),
                        'quick' if dim < 3 and (
                            fam == 'clamped' or dim == 1) else 'thorough',
                        site='igakit/nurbs.py NURBS.'
                        + label.split('-')[0]))
        for w in ('array', 'points', 'weights', 'knots', 'knots-item'):
            for dim in (1, 2):
                obs.append(Ob(self.pid, 'write:%s:%d' % (w, dim),
                              self.write(SPECS[dim], dim - 1, w),
                              site='igakit/nurbs.py NURBS.array'))
        names = ('insert', 'elevate', 'reverse', 'remap-shift', 'translate',
                 'transpose', 'clamp', 'unclamp', 'refine')
        d = dict((l, f) for l, f, _ in ops)
        for x in names:
            for y in names:
                obs.append(Ob(
                    self.pid, 'then:%s:%s' % (x, y),
                    self.then(SPECS[2], 1, d[x], d[y],
                              'remap-shift' in (x, y)),
                    'quick' if y in ('reverse', 'remap-shift', 'translate')
                    else 'thorough', site='igakit/nurbs.py NURBS.'
                    + y.split('-')[0]))
        for dim in (1, 2, 3):
            obs.append(Ob(self.pid, 'others:%d' % dim, self.others(dim),
                          'quick' if dim < 3 else 'thorough',
                          site='igakit/nurbs.py NURBS'))
            obs.append(Ob(self.pid, 'inside:%d' % dim, self.inside(dim),
                          'quick' if dim < 3 else 'thorough',
                          site='igakit/nurbs.py NURBS'))
        for label, f in trans():
            obs.append(Ob(self.pid, 'transform:' + label, self.matrix(f),
                          site='igakit/transform.py transform.'
                          + label.split('-')[0]))
        for label, f in plain() + cads():
            obs.append(Ob(self.pid, 'again:' + label, self.again(f),
                          site='igakit/cad.py ' + label.split('-')[0]))
        return obs

    def matrix(self, f):
        def fn(t):
            cls = t.c.name('transform', 'transform')
            P = block('P', (3, 4))

            def answers(T):
                return [('call', t.c.call(T, P)),
                        ('array', t.c.m(T, '__array__')),
                        ('inverse', t.c.m(t.c.m(T, 'inverse'), '__array__')),
                        ('copy', t.c.m(t.c.m(T, 'copy'), '__array__')),
                        ('clone', t.c.call(t.c.m(T, 'clone'), P)),
                        ('transform', t.c.m(t.c.call(cls, T), '__array__'))]
            one = t.c.call(cls)
            T = t.c.call(cls, block('M', (4, 4)))
            before = answers(T)
            cl = t.c.m(T, 'clone')
            snap = Snap(*[x for _, x in before])
            name, args, inplace = f(t, T)
            t.c.m(T, name, *args)
            snap.check(t, 'answers given before %s() stay as they were'
                       % name)
            M = elements(t.c.m(T, '__array__'))
            new = t.c.call(cls, N.toarr(A.reshape(arr(list(M)), (4, 4))))
            agree(t, answers(T), answers(new), 'after ' + name)
            agree(t, answers(cl), before, 'a clone made before ' + name)
            t.c.m(one, name, *args)
            e = elements(t.c.m(t.c.call(cls), '__array__'))
            t.eqs([sc(x) for x in e], [sc_const(int(i % 5 == 0))
                                       for i in range(16)],
                  'a new transform() is the identity')
        return fn

    def again(self, f):
        def fn(t):
            name, args, kw = f(t)

            def build():
                r = t.c.call(t.c.name('cad', name), *args, **kw)
                return [r] if isinstance(r, PI.Inst) else list(r)

            def data(rs):
                return [(k, t.c.get(r, n)) for r in rs
                        for k, n in (('array', 'array'), ('knots', 'knots'))]
            first = build()
            want = [(k, flat(v)) for k, v in data(first)]
            for r in first:
                # move and reverse the first result, overwrite its data
                a = t.c.get(r, 'array')
                t.c.m(r, 'translate', L([1, 2]))
                b = t.c.get(r, 'array')
                t.c.m(r, 'reverse')
                # results may share data with operands, as clones do
                if not any(isinstance(x, PI.Inst) for x in own(args)):
                    for k, x in enumerate((a, b)):
                        A.write(A.view(x), block('N%d' % k, tuple(x.shape),
                                                 .5, 2))
                    for k in t.c.get(r, 'knots'):
                        A.write(A.view(k), arr([
                            core.add(mul(sc(x), sc_const(2)), sc_const(3))
                            for x in elements(k)]))
            second = build()
            got = [(k, flat(v)) for k, v in data(second)]
            if not t.ok(len(got) == len(want), 'number of results'):
                return
            for (k, (s1, v1)), (_, (s2, v2)) in zip(want, got):
                if t.ok(s1 == s2, 'form of %s of the second result' % k):
                    t.eqs(v1, v2, '%s of the second result' % k)
        return fn

    def start(self, t, specs, fixed=False):
        # a new domain makes the order of knots and parameters undecidable
        # for free knots: those start from fixed ones
        m = make(t, specs, nf=1, U=[[sc_const(Fraction(8 * i + 1, 2))
                                     for i, k in enumerate(Spec(*s).mults)
                                     for _ in range(k)] for s in specs]
                 if fixed else None)
        m.obj_dim = len(specs)
        return m

    def after(self, specs, axis, f, fixed):
        def fn(t):
            m = self.start(t, specs, fixed)
            before = ask(t, m.obj, VIEWS)
            cl = t.c.m(m.obj, 'clone')
            want = ask(t, cl, light=True)
            snap = Snap(*[x for _, x in before])
            name, args, kw = f(t, m, axis)
            t.c.m(m.obj, name, *args, **kw)
            snap.check(t, 'answers given before %s() stay as they were'
                       % name)
            current(t, m.obj, 'after ' + name)
            agree(t, ask(t, cl, light=True), want,
                  'a clone made before ' + name)
        return fn

    def write(self, specs, axis, w):
        def fn(t):
            m = self.start(t, specs)
            ask(t, m.obj)
            g = Geo(t, m.obj)
            if w.startswith('knots'):
                U = list(t.c.get(m.obj, 'knots'))[axis]
                new = [core.add(mul(x, sc_const(2)), sc_const(3))
                       for x in g.U[axis]]
                if w == 'knots':
                    A.write(A.view(U), arr(new))
                else:
                    i = g.p[axis] + 1
                    # a simple interior knot, moved inside its element
                    x = div(core.add(g.U[axis][i], core.add(
                        g.U[axis][i], g.U[axis][i + 1])), sc_const(3))
                    A.setitem(U, i, x)
            else:
                a = t.c.get(m.obj, 'array')
                sh = g.shape[:-1]
                if w == 'array':
                    A.write(A.view(a), block('N', sh + (5,), .5, 2))
                elif w == 'points':
                    A.setitem(a, (Ellipsis, 2), block('N', sh))
                else:
                    A.setitem(t.c.get(m.obj, 'weights'), Ellipsis,
                              block('N', sh, .5, 2))
            current(t, m.obj, 'after writing ' + w)
        return fn

    def then(self, specs, axis, f, f2, fixed):
        def fn(t):
            m = self.start(t, specs, fixed)
            for k, op in enumerate((f, f2)):
                ask(t, m.obj, light=True)
                if k:
                    # the second operation takes its arguments from the
                    # knots of the moment
                    m = Now(t, m.obj)
                name, args, kw = op(t, m, axis)
                t.c.m(m.obj, name, *args, **kw)
            current(t, m.obj, 'after two operations', True)
        return fn

    def inside(self, dim):
        # fixed knots: equal degrees, sizes and ends, and one knot apart;
        # each object is compared with the same object in a new process
        def fn(t):
            def build(k):
                U = [[Fraction(8 * i + 1, 2)
                      for i, n in enumerate(Spec(*s).mults)
                      for _ in range(n)] for s in SPECS[dim]]
                if k:
                    U[0] = inner(U[0], k)
                return make(t, SPECS[dim], 'abc'[k], nf=1, U=[
                    [sc_const(x) for x in u] for u in U]).obj
            alone = []
            for k in range(3):
                with process(t):
                    alone.append(ask(t, build(k)))
            with process(t):
                objs = [build(k) for k in range(3)]
                for o in objs:
                    ask(t, o)
                for k, o in enumerate(objs):
                    agree(t, ask(t, o), alone[k],
                          'object %d of 3, as in a process of its own' % k)
        return fn

    def others(self, dim):
        def fn(t):
            a = make(t, SPECS[dim], 'a', nf=1)
            b = make(t, UNCL[dim], 'b', nf=1)
            # same knots, other points; same points, other knots
            c = t.c.call(t.c.name('nurbs', 'NURBS'), L(a.knots),
                         hom('Cc', tuple(s.n for s in a.specs)))
            d = make(t, SPECS[dim], 'a', nf=1, kname='d')
            # same ends, other knots inside
            e = make(t, SPECS[dim], 'e', nf=1, U=[
                [x if x is U[0] or x is U[-1] or x in (U[0], U[-1]) else y
                 for x, y in zip(U, V)] for U, V in zip(a.U, d.U)])
            objs = [a.obj, b.obj, c, d.obj, e.obj]
            for k, o in enumerate(objs):
                if k != 2:
                    ask(t, o)
            for k, o in enumerate(objs):
                if k != 2:
                    current(t, o, 'object %d of 5' % k)
            us = [arr(params(t, c, i)) for i in range(dim)]
            x = t.c.m(c, '__call__', *us)
            y = t.c.m(fresh(t, c), '__call__', *us)
            t.same_arr(x, y, 'same knots, other points')
        return fn


def inner(U, k):
    """the same ends, interior knots moved by k/4"""
    return [x if x in (U[0], U[-1]) else x + Fraction(k, 4) for x in U]


class process(object):
    """the package imported anew: no state kept between calls in modules"""

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.old = c = self.t.c
        n = copy.copy(c)
        n.w = PI.World(c.repo, kernels=c.kmod)
        n.I = PI.INTERP[0] = n.w.interp
        self.t.c = n

    def __exit__(self, *exc):
        self.old.I.visited.update(self.t.c.I.visited)
        self.t.c = self.old
        PI.INTERP[0] = self.old.I


class Now(object):
    """what the builders of `methods` need, read from the object"""
    def __init__(self, t, obj):
        g = Geo(t, obj)
        self.obj, self.obj_dim, self.U = obj, g.dim, g.U
        self.specs = [NowSpec(g, a) for a in range(g.dim)]


class NowSpec(object):
    def __init__(self, g, a):
        self.U, self.p = g.U[a], g.p[a]
        self.n = g.shape[a]

    def spans(self):
        U, p = self.U, self.p
        return [i for i in range(p, len(U) - p - 1) if lt(U[i], U[i + 1])]

    def par(self, name, span, lo=.4, hi=.5):
        """a point of the element, the same for every path"""
        a, b = self.U[span], self.U[span + 1]
        return div(core.add(core.add(a, a), b), sc_const(3))


def own(args):
    for x in args:
        if isinstance(x, (PI.PList, list, tuple)):
            for y in own(x):
                yield y
        else:
            yield x


def plain():
    """calls relying on defaults"""
    out = []
    for n in ('line', 'linear', 'bilinear', 'trilinear', 'circle'):
        out.append((n + '-default', lambda t, n=n: (n, [], {})))
    out.append(('grid-default', lambda t: ('grid', [4], {'degree': 2})))
    return out
