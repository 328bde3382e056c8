"""Effects: caller-supplied data, copies and clones are never written."""
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..core import sc_const

L = PI.PList

SPECS = {1: ((2, (3, 1, 3)),),
         2: ((2, (3, 1, 3)), (1, (2, 1, 2))),
         3: ((2, (3, 1, 3)), (1, (2, 2)), (1, (2, 2)))}
UNCL = {1: ((2, (1,) * 7),),
        2: ((1, (2, 1, 2)), (2, (1,) * 6)),
        3: ((1, (2, 2)), (1, (2, 2)), (2, (1,) * 6))}


def spanpar(m, axis, i=0, lo=.4, hi=.5):
    s = m.specs[axis]
    return s.par('x', s.spans()[i], lo, hi)


def pts(m, axis, name='u'):
    s = m.specs[axis]
    return arr([s.par(name + str(axis), b) for b in s.spans()])


def lo(m, a):
    s = m.specs[a]
    return m.U[a][s.p]


def hi(m, a):
    s = m.specs[a]
    return m.U[a][-s.p - 1]


def sym(name, lo=-3., hi=3.):
    a = sc_atom('arg', name, rep=name)
    set_iv(a, lo, hi)
    return a


# method name, list of argument builders f(m, axis) -> args, kwargs
def methods():
    """(label, needs, f(t, m, axis) -> (method, args, kwargs), inplace)"""
    out = []

    def add(label, inplace, f, dims=(1, 2, 3)):
        out.append((label, inplace, f, dims))
    add('insert', True, lambda t, m, a: ('insert', [a, spanpar(m, a), 1],
                                         {}))
    add('insert-none', True, lambda t, m, a: (
        'insert', [a, spanpar(m, a), None], {}))
    add('remove', True, lambda t, m, a: (
        'remove', [a, m.U[a][sum(m.specs[a].mults[:1 + m.specs[a].domain()[
            0]])], 1], {}))
    add('refine', True, lambda t, m, a: (
        'refine', [a, arr([spanpar(m, a, -1, .6, .7), spanpar(m, a)])], {}))
    add('refine-list', True, lambda t, m, a: (
        'refine', [a, L([spanpar(m, a, -1, .6, .7), spanpar(m, a)])], {}))
    add('elevate', True, lambda t, m, a: ('elevate', [a, 1], {}))
    add('clamp', True, lambda t, m, a: ('clamp', [a], {}))
    add('unclamp', True, lambda t, m, a: ('unclamp', [a], {}))
    add('reverse', True, lambda t, m, a: ('reverse', [a], {}))
    add('reverse-all', True, lambda t, m, a: ('reverse', [], {}))
    add('transpose', True, lambda t, m, a: ('transpose', [], {}))
    add('transpose-perm', True, lambda t, m, a: (
        'transpose', [L([(i + 1) % m.obj_dim for i in range(m.obj_dim)])],
        {}))
    add('swap', True, lambda t, m, a: ('swap', [a, 0], {}))
    add('remap', True, lambda t, m, a: ('remap', [
        a, sym('s', 0, 1), sym('e', 2, 3)], {}))
    add('remap-shift', True, lambda t, m, a: ('remap', [
        a, core.add(lo(m, a), sc_const(5)), core.add(hi(m, a), sc_const(5))],
        {}))
    add('remap-none', True, lambda t, m, a: ('remap', [
        a, None, sym('e', *[x * max(scale(), 1) for x in (90, 91)])], {}))
    add('remap-same', True, lambda t, m, a: ('remap', [
        a, lo(m, a), hi(m, a)], {}))
    add('transform', True, lambda t, m, a: ('transform', [
        block('M', (4, 4))], {}))
    add('translate', True, lambda t, m, a: ('translate', [
        block('d', (3,))], {}))
    add('move', True, lambda t, m, a: ('move', [block('d', (2,))], {}))
    add('scale', True, lambda t, m, a: ('scale', [block('s', (3,))], {}))
    add('rotate', True, lambda t, m, a: ('rotate', [
        sym('angle', .1, 1), arr([1, 0, 0])], {}))
    add('slice', False, lambda t, m, a: ('slice', [
        a, spanpar(m, a, 0), spanpar(m, a, -1, .6, .7)], {}))
    add('slice-none', False, lambda t, m, a: ('slice', [a, None, None], {}))
    add('extract', False, lambda t, m, a: ('extract', [a, spanpar(m, a)],
                                           {}))
    add('boundary', False, lambda t, m, a: ('boundary', [a, 1], {}))
    add('copy', False, lambda t, m, a: ('copy', [], {}))
    add('clone', False, lambda t, m, a: ('clone', [], {}))
    add('breaks', False, lambda t, m, a: ('breaks', [a, True], {}))
    add('spans', False, lambda t, m, a: ('spans', [a], {}))
    add('greville', False, lambda t, m, a: ('greville', [a], {}))
    add('lagrange', False, lambda t, m, a: ('lagrange', [a], {}))
    add('lobatto', False, lambda t, m, a: ('lobatto', [a], {}))

    def U(m):
        return [pts(m, k) for k in range(len(m.specs))]
    names = ['u', 'v', 'w']

    def uvw(m):
        return dict(zip(names, U(m)))

    def ff(m):
        return block('G', tuple(s.n for s in m.specs) + (2,))

    def f1(m):
        return block('G', tuple(s.n for s in m.specs))
    add('call', False, lambda t, m, a: ('__call__', U(m), {}))
    add('call-fields', False, lambda t, m, a: ('__call__', U(m), {
        'fields': True}))
    add('call-array', False, lambda t, m, a: ('__call__', U(m), {
        'fields': ff(m)}))
    add('evaluate', False, lambda t, m, a: ('evaluate', [], uvw(m)))
    add('evaluate-array', False, lambda t, m, a: (
        'evaluate', [f1(m)], uvw(m)))
    add('gradient', False, lambda t, m, a: ('gradient', [ff(m)], uvw(m)))
    add('gradient-scalar', False, lambda t, m, a: ('gradient', [f1(m)],
                                                   uvw(m)))
    add('hessian', False, lambda t, m, a: ('hessian', [f1(m)], uvw(m)))
    add('derivative', False, lambda t, m, a: ('derivative', [1, f1(m)],
                                              uvw(m)))
    return out


@register
class Methods(Prop):
    pid = 'C01'
    variants = VARIANTS

    def obligations(self):
        obs = []
        for label, inplace, f, dims in methods():
            for dim in dims:
                for fam, specs in (('clamped', SPECS[dim]),
                                   ('unclamped', UNCL[dim])):
                    if fam == 'unclamped' and label == 'unclamp':
                        continue
                    axis = dim - 1
                    tier = 'quick' if fam == 'clamped' and dim < 3 or \
                        label in ('insert', 'refine', 'clamp', 'remap',
                                  'reverse') else 'thorough'
                    obs.append(Ob(
                        self.pid, 'method:%s:%d:%s' % (label, dim, fam),
                        self.mk(specs, axis, f, inplace), tier,
                        site='igakit/nurbs.py NURBS'))
        for label, f in cads():
            obs.append(Ob(self.pid, 'cad:' + label, self.cad(f),
                          site='igakit/cad.py ' + label.split('-')[0]))
        for label, f in trans():
            obs.append(Ob(self.pid, 'transform:' + label, self.trans(f),
                          site='igakit/transform.py transform'))
        for label, f in ctor():
            obs.append(Ob(self.pid, 'constructor:' + label, self.ctor(f),
                          site='igakit/nurbs.py NURBS.__init__'))
        return obs

    def mk(self, specs, axis, f, inplace):
        def fn(t):
            m = make(t, specs, nf=1)
            m.obj_dim = len(specs)
            other = t.c.m(m.obj, 'clone')
            cop = t.c.m(m.obj, 'copy')
            name, args, kw = f(t, m, axis)
            snap = Snap(m.obj, other, cop, L(m.knots), m.cw, m.f, *args)
            for k in kw:
                snap.add(kw[k], k)
            a = t.c.get(cop, 'array')
            b = t.c.get(m.obj, 'array')
            t.ok(a.buf is not b.buf, 'copy() has its own control array')
            for x, y in zip(t.c.get(cop, 'knots'), t.c.get(m.obj, 'knots')):
                t.ok(x.buf is not y.buf, 'copy() has its own knots')
            r = t.c.m(m.obj, name, *args, **kw)
            if inplace:
                t.ok(r is m.obj, name + ' returns its receiver')
            else:
                t.ok(r is not m.obj, name + ' returns a new object')
            snap.check(t, '%s() leaves data it does not own unchanged'
                       % name, own=(m.obj,) if inplace else ())
        return fn

    def cad(self, f):
        def fn(t):
            name, args, kw = f(t)
            snap = Snap(*args)
            for k in kw:
                snap.add(kw[k], k)
            t.c.call(t.c.name('cad', name), *args, **kw)
            snap.check(t, '%s() leaves its arguments unchanged' % name)
        return fn

    def trans(self, f):
        def fn(t):
            T = t.c.call(t.c.name('transform', 'transform'),
                         block('M', (4, 4)))
            other = t.c.m(T, 'clone')
            cop = t.c.m(T, 'copy')
            name, args, inplace = f(t, T)
            snap = Snap(T, other, cop, *args)
            r = t.c.m(T, name, *args)
            if inplace:
                t.ok(r is T, name + ' returns its receiver')
            snap.check(t, 'transform.%s() leaves data it does not own '
                       'unchanged' % name, own=(T,) if inplace else ())
        return fn

    def ctor(self, f):
        def fn(t):
            cls = t.c.name('nurbs', 'NURBS')
            args, kw = f(t)
            snap = Snap(*args)
            for k in kw:
                snap.add(kw[k], k)
            obj = t.c.call(cls, *args, **kw)
            snap.check(t, 'the constructor leaves its arguments unchanged')
            for name, a in (('clamp', [0]), ('elevate', [0, 1]),
                            ('reverse', []), ('translate', [arr([1, 2])]),
                            ('remap', [0, 20, 30])):
                t.c.m(obj, name, *a)
                snap.check(t, '%s() leaves the data the object was built '
                           'from unchanged' % name)
        return fn


def cads():
    c = ((2, (3, 1, 3)),)
    d = ((1, (2, 1, 2)),)
    ca = ((2, (3, 1, 3), 0, (0, 1, 4)),)
    cb = ((1, (2, 1, 2), 0, (0, 2, 4)),)
    K = {'kname': ''}
    s2 = ((2, (3, 3)), (1, (2, 1, 2)))
    out = []

    def add(label, f):
        out.append((label, f))

    def ob(t, specs, name='', **kw):
        return make(t, specs, name, **kw).obj
    add('line', lambda t: ('line', [block('p', (3,)), block('q', (2,))], {}))
    add('linear', lambda t: ('linear', [block('P', (2, 3))], {}))
    add('bilinear', lambda t: ('bilinear', [block('P', (2, 2, 3))], {}))
    add('trilinear', lambda t: ('trilinear', [block('P', (2, 2, 2, 3))], {}))
    add('circle', lambda t: ('circle', [2, block('c', (3,)), L([0, 1])], {}))
    add('grid', lambda t: ('grid', [
        arr([4, 5], 'i4'), arr([2, 3], 'i4'), arr([-1, 0], 'i4'),
        arr([0., 2.])], {}))
    add('grid-object', lambda t: ('grid', [L([4, 5]), L([2, 3]),
                                           L([-1, -2])], {}))
    add('grid-wrap', lambda t: ('grid', [
        arr([6], 'i4'), arr([2], 'i4'), arr([-1], 'i4')],
        {'wrap': arr([True], '?')}))
    add('compat', lambda t: ('compat', [ob(t, ca, 'a', **K), ob(t, cb, 'b', **K)], {}))
    add('compat-list', lambda t: ('compat', [
        L([ob(t, ca, 'a', **K), ob(t, cb, 'b', **K)])], {}))
    add('compat-axes', lambda t: ('compat', [
        ob(t, s2, 'a'), ob(t, s2, 'a')], {'axes': L([1])}))
    add('extrude', lambda t: ('extrude', [ob(t, c, nf=1),
                                          block('d', (3,))], {}))
    add('revolve', lambda t: ('revolve', [
        ob(t, c, nf=1), block('o', (3,)), 2], {}))
    add('revolve-axis', lambda t: ('revolve', [
        ob(t, c), block('o', (3,)), arr([0, 0, 1.])], {}))
    add('ruled', lambda t: ('ruled', [ob(t, ca, 'a', nf=1, **K),
                                      ob(t, cb, 'b', **K)], {}))
    add('sweep', lambda t: ('sweep', [ob(t, c, 'a', nf=1),
                                      ob(t, d, 'b', nf=2)], {}))
    add('join', lambda t: ('join', [ob(t, c, 'a'), ob(t, d, 'b'), 0], {}))
    add('join-2d', lambda t: ('join', [ob(t, s2, 'a'), ob(t, s2, 'b'), 1],
                              {}))
    add('refine', lambda t: ('refine', [ob(t, c, nf=1)], {
        'factor': arr([2], 'i4'), 'degree': arr([3], 'i4'),
        'continuity': arr([-1], 'i4')}))
    add('refine-list', lambda t: ('refine', [ob(t, s2, nf=1)], {
        'factor': L([2, L([1, 2])]), 'degree': L([None, 2]),
        'continuity': L([0, None])}))
    add('refine-object', lambda t: ('refine', [ob(t, s2, nf=1)], {
        'factor': arr([2, 1], 'O'), 'degree': arr([None, 2], 'O'),
        'continuity': arr([0, None], 'O')}))
    return out


def trans():
    out = []

    def add(label, f):
        out.append((label, f))

    def other(t):
        return t.c.call(t.c.name('transform', 'transform'),
                        block('K', (4, 4)))
    add('translate', lambda t, T: ('translate', [block('d', (3,))], True))
    add('translate-axis', lambda t, T: ('translate', [sym('d'), 1], True))
    add('scale', lambda t, T: ('scale', [block('d', (3,))], True))
    add('scale-all', lambda t, T: ('scale', [sym('d')], True))
    add('rotate', lambda t, T: ('rotate', [sym('d', .1, 1), arr(
        [0., 0., 1.])], True))
    add('rotate-axis', lambda t, T: ('rotate', [sym('d', .1, 1), 1], True))
    add('compose3', lambda t, T: ('compose', [block('K', (3, 3))], True))
    add('compose4', lambda t, T: ('compose', [block('K', (4, 4))], True))
    add('compose-transform', lambda t, T: ('compose', [other(t)], True))
    add('invert', lambda t, T: ('invert', [], True))
    add('inverse', lambda t, T: ('inverse', [], False))
    add('call', lambda t, T: ('__call__', [block('P', (5, 4))], False))
    add('copy', lambda t, T: ('copy', [], False))
    add('array', lambda t, T: ('__array__', [], False))
    return out


def ctor():
    out = []

    def add(label, f):
        out.append((label, f))

    def kn(specs=((2, (3, 1, 3)),)):
        return L([arr(Spec(*s).knots('k' + 'uvw'[i]))
                  for i, s in enumerate(specs)])
    W = lambda n=4: hom('W', (n,))
    add('xyz', lambda t: ([kn(), block('C', (4, 3))], {}))
    add('xy', lambda t: ([kn(), block('C', (4, 2))], {}))
    add('xyzw', lambda t: ([kn(), hom('C', (4,))], {}))
    add('weights', lambda t: ([kn(), block('C', (4, 3))], {
        'weights': block('w', (4,), .5, 2)}))
    add('pair', lambda t: ([kn(), (block('C', (4, 3)),
                                   block('w', (4,), .5, 2))], {}))
    add('fields', lambda t: ([kn(), hom('C', (4,))], {
        'fields': block('F', (4, 2))}))
    add('scalar-field', lambda t: ([kn(), hom('C', (4,))], {
        'fields': block('F', (4,))}))
    add('knots-only', lambda t: ([kn()], {}))
    return out
