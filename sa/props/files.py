"""PetIGA files and VTK export, against the format descriptions."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements
from ..values import norm_code, kind
from .transforms import flat, point, neg

L = PI.PList
IO = 'igakit/io.py %s'

VEC, MAT, IGA = 1211214, 1211216, 1211299
REAL = {'single': '>f4', 'double': '>f8'}
SCAL = {('single', 'real'): '>f4', ('double', 'real'): '>f8',
        ('single', 'complex'): '>c8', ('double', 'complex'): '>c16'}
INT = {'32bit': '>i4', '64bit': '>i8'}
CONFIGS = [c for c in itertools.product(('double', 'single'),
                                        ('real', 'complex'),
                                        ('32bit', '64bit'))]


class Disk(object):
    """the files of one abstract run"""

    def __init__(self):
        self.files = {}
        self.handles = []
        PI._top_path().open_hook = self.open

    def open(self, name, mode):
        f = PI.FileObj(name, mode)
        if 'r' in mode:
            if name not in self.files:
                raise A.AbsRaise('FileNotFoundError', name)
            f.inp = [list(s) if False else s for s in self.files[name]]
        else:
            self.files[name] = f.out
        self.handles.append(f)
        return f

    def closed(self, t, what):
        t.ok(all(f.closed for f in self.handles), what + ': file closed')

    def items(self, t, name, what):
        """[(dtype, value)] and text, adjacent items merged"""
        out = []
        for s in self.files[name]:
            if s[0] == 'text':
                if out and out[-1][0] == 'text':
                    out[-1] = ('text', out[-1][1] + str(s[1]))
                else:
                    out.append(('text', str(s[1])))
                continue
            e = elements(s[2])
            if e is None:
                raise Unmodelled('symbolic data in a file')
            for x in e:
                out.append((s[1], core.sc(x)))
        return out


def code(c):
    c = norm_code(c)
    return c if isinstance(c, str) else c[1]


def same_items(t, got, want, what):
    """want: list of (dtype, value) or ('text', str)"""
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0]:
            return t.note(False, '%s: item %d' % (what, i),
                          'stored as %s, expected %s' % (g[0], w[0]))
        if w[0] == 'text':
            if not t.ok(g[1] == w[1], '%s: text' % what, '%r, expected %r' % (
                    g[1], w[1])):
                return False
        elif t.eq(g[1], w[1], '%s: item %d' % (what, i)) is not True:
            return False
    return t.ok(len(got) == len(want), what + ': number of items',
                '%d, expected %d' % (len(got), len(want)))


def fortran(shape):
    """indices with the first one fastest"""
    return [ix[::-1] for ix in itertools.product(
        *[range(s) for s in shape[::-1]])]


PF = [((1, (2, 2)),), ((2, (3, 1, 3)),), ((2, (1,) * 7),),
      ((2, (3, 1, 3)), (1, (2, 1, 2))), ((1, (2, 2)), (3, (4, 2, 4))),
      ((1, (2, 2)), (2, (3, 3)), (1, (2, 1, 2)))]


def layout(g, prec, scal, ints, control, nsd, fields):
    """the documented contents of a PetIGA file"""
    I, R, S = INT[ints], REAL[prec], SCAL[prec, scal]
    nf = g.nc - 4 if fields else 0
    out = [(I, IGA), (I, int(control) + 2 * int(nf > 0)), (I, g.dim)]
    for p, U in zip(g.p, g.U):
        out += [(I, p), (I, len(U))] + [(R, u) for u in U]
    sh = g.shape[:-1]
    n = 1
    for s in sh:
        n *= s
    if control:
        out += [(I, nsd), (I, VEC), (I, n * (nsd + 1))]
        for ix in fortran(sh):
            h = g.cp(*ix)
            out += [(S, x) for x in h[:nsd] + [h[3]]]
    if nf:
        out += [(I, nf), (I, VEC), (I, n * nf)]
        for ix in fortran(sh):
            h = g.cp(*ix)
            out += [(S, div(x, h[3])) for x in h[4:]]
    return [(d, sc_const(x) if isinstance(x, int) else x) for d, x in out]


@register
class PetIGA(Prop):
    pid = 'C23'
    variants = WITH_FIELDS

    def obligations(self):
        obs = []

        def add(label, fn, where, tier='quick'):
            obs.append(Ob(self.pid, label, fn, tier,
                          site=IO % 'PetIGA.' + where))
        for specs in PF:
            dim = len(specs)
            for cfg in CONFIGS:
                tier = 'quick' if dim < 3 or cfg == CONFIGS[0] else \
                    'thorough'
                for nf in (0, 1, 2):
                    for ctl in (True, False):
                        for fl in (True, False):
                            if cfg != CONFIGS[0] and not (ctl and fl):
                                continue
                            tag = '%s:%s:nf%d:%d%d' % (
                                fid(specs), '-'.join(cfg), nf, ctl, fl)
                            add('write:' + tag, self.write(
                                specs, cfg, nf, ctl, fl, None), 'write',
                                tier)
                            add('trip:' + tag, self.trip(
                                specs, cfg, nf, ctl, fl, None), 'read',
                                tier)
            for nsd in range(1, 6):
                if not dim <= nsd <= 3:
                    add('reject:nsd%d:%s' % (nsd, fid(specs)),
                        self.badnsd(specs, nsd), 'write')
                    continue
                add('write:%s:nsd%d' % (fid(specs), nsd), self.write(
                    specs, CONFIGS[0], 1, True, True, nsd), 'write')
                add('trip:%s:nsd%d' % (fid(specs), nsd), self.trip(
                    specs, CONFIGS[0], 1, True, True, nsd), 'read')
            for cfg in CONFIGS:
                for nc in (None, 1, 3):
                    add('vec:%s:%s:nc%s' % (fid(specs), '-'.join(cfg), nc),
                        self.vec(specs, cfg, nc), 'read_vec',
                        'quick' if dim < 3 or nc == 3 else 'thorough')
        for cfg in CONFIGS:
            for sh in ((5,), (2, 3)):
                add('vec:plain:%s:%s' % ('x'.join(map(str, sh)),
                                         '-'.join(cfg)),
                    self.plain(sh, cfg), 'write_vec')
            for k in range(3):
                add('mat:%d:%s' % (k, '-'.join(cfg)), self.mat(k, cfg),
                    'read_mat')
        for what in ('iga-id', 'iga-short', 'iga-vec', 'iga-dim', 'vec-id',
                     'vec-short', 'mat-id', 'mat-short', 'mat-nz',
                     'iga-fvec', 'iga-nsd', 'iga-cut', 'vec-cut', 'mat-cut',
                     'iga-vcut', 'iga-fcut', 'iga-gcut'):
            add('reject:' + what, self.bad(what), 'read' + (
                '' if what[:3] == 'iga' else '_' + what[:3]))
        for op in ('write', 'read', 'write_vec', 'read_vec', 'read_mat'):
            for n in range(1, 9):
                add('fault:%s:%d' % (op, n), self.fault(op, n), op)
        return obs

    def io(self, t, cfg):
        return t.c.call(t.c.name('io', 'PetIGA'), *cfg)

    def kw(self, ctl, fl, nsd):
        kw = {}
        if not ctl:
            kw['control'] = False
        if not fl:
            kw['fields'] = False
        if nsd:
            kw['nsd'] = nsd
        return kw

    def write(self, specs, cfg, nf, ctl, fl, nsd):
        def fn(t):
            d = Disk()
            m = make(t, specs, nf=nf)
            g = Geo(t, m.obj)
            t.c.m(self.io(t, cfg), 'write', 'f.dat', m.obj,
                  **self.kw(ctl, fl, nsd))
            d.closed(t, 'write')
            got = d.items(t, 'f.dat', 'file')
            want = layout(g, cfg[0], cfg[1], cfg[2], ctl, nsd or g.dim, fl)
            same_items(t, got, want, 'file contents')
        return fn

    def put(self, d, name, items):
        """a file with the given (dtype, value) items, one segment per run
        of equal types"""
        segs = []
        for k, grp in itertools.groupby(items, key=lambda x: x[0]):
            v = [core.sc(x[1]) if not isinstance(x[1], int)
                 else sc_const(x[1]) for x in grp]
            segs.append(('array', k, arr(v, k)))
        d.files[name] = segs

    def trip(self, specs, cfg, nf, ctl, fl, nsd):
        """reading a file laid out as documented gives the object back"""
        def fn(t):
            d = Disk()
            m = make(t, specs, nf=nf)
            g = Geo(t, m.obj)
            n = nsd or g.dim
            self.put(d, 'f.dat', layout(g, cfg[0], cfg[1], cfg[2], ctl, n,
                                        fl))
            r = t.c.m(self.io(t, cfg), 'read', 'f.dat')
            d.closed(t, 'read')
            h = wellformed(t, r, 'read', 4 + (nf if fl else 0))
            t.ok(h.shape[:-1] == g.shape[:-1], 'extents')
            t.ok(h.p == g.p, 'degrees')
            for k in range(g.dim):
                t.eqs(h.U[k], g.U[k], 'knots of axis %d' % k)
            for ix in fortran(g.shape[:-1]):
                a, b = h.cp(*ix), g.cp(*ix)
                if ctl:
                    want = b[:n] + [sc_const(0)] * (3 - n) + [b[3]]
                    t.eqs(a[:4], want, 'control point %r' % (ix,))
                else:
                    gr = [greville(g, k, i) for k, i in enumerate(ix)]
                    t.eqs(point(a), gr + [sc_const(0)] * (3 - g.dim),
                          'identity control point %r' % (ix,))
                    t.eq(a[3], sc_const(1), 'unit weight %r' % (ix,))
                if nf and fl:
                    t.eqs([div(x, a[3]) for x in a[4:]],
                          [div(x, b[3]) for x in b[4:]],
                          'fields %r' % (ix,))
        return fn

    def badnsd(self, specs, nsd):
        def fn(t):
            d = Disk()
            m = make(t, specs)
            t.raises(lambda: t.c.m(self.io(t, CONFIGS[0]), 'write', 'f.dat',
                                   m.obj, nsd=nsd),
                     'nsd=%d' % nsd,
                     ('AssertionError', 'ValueError'))
        return fn

    def vec(self, specs, cfg, nc):
        def fn(t):
            d = Disk()
            m = make(t, specs)
            sh = tuple(s.n for s in m.specs)
            A_ = block('A', sh + ((nc,) if nc else ()))
            io = self.io(t, cfg)
            t.c.m(io, 'write_vec', 'v.dat', A_, m.obj)
            I, S = INT[cfg[2]], SCAL[cfg[0], cfg[1]]
            e = flat(A_)
            c = nc or 1
            want = [(I, sc_const(VEC)), (I, sc_const(len(e)))]
            for ix in fortran(sh):
                off = 0
                for s, i in zip(sh, ix):
                    off = off * s + i
                want += [(S, x) for x in e[off * c:off * c + c]]
            same_items(t, d.items(t, 'v.dat', 'file'), want, 'vector file')
            self.put(d, 'w.dat', want)
            r = t.c.m(io, 'read_vec', 'w.dat', m.obj)
            d.closed(t, 'vector')
            t.shape(r, sh + ((nc,) if c > 1 else ()), 'vector read')
            t.eqs(flat(r), e, 'vector read')
            r = t.c.m(io, 'read_vec', 'w.dat')
            t.shape(r, (len(e),), 'plain vector')
            t.eqs(flat(r), [x for _, x in want[2:]], 'plain vector')
        return fn

    def plain(self, sh, cfg):
        def fn(t):
            d = Disk()
            A_ = block('A', sh)
            io = self.io(t, cfg)
            t.c.m(io, 'write_vec', 'v.dat', A_)
            I, S = INT[cfg[2]], SCAL[cfg[0], cfg[1]]
            e = flat(A_)
            same_items(t, d.items(t, 'v.dat', 'file'),
                       [(I, sc_const(VEC)), (I, sc_const(len(e)))] +
                       [(S, x) for x in e], 'vector file')
            r = t.c.m(io, 'read_vec', 'v.dat')
            t.shape(r, (len(e),), 'vector read')
            t.eqs(flat(r), e, 'vector read')
            d.closed(t, 'vector')
        return fn

    MATS = [(2, 3, [2, 1], [0, 2, 1]), (3, 2, [0, 2, 1], [0, 1, 1]),
            (1, 1, [1], [0])]

    def matfile(self, k, cfg):
        M, n, rows, cols = self.MATS[k]
        I, S = INT[cfg[2]], SCAL[cfg[0], cfg[1]]
        v = flat(block('V', (len(cols),)))
        return [(I, x) for x in [MAT, M, n, len(cols)] + rows + cols] + \
            [(S, x) for x in v], v

    def mat(self, k, cfg):
        def fn(t):
            d = Disk()
            items, v = self.matfile(k, cfg)
            self.put(d, 'm.dat', items)
            M, n, rows, cols = self.MATS[k]
            r = t.c.m(self.io(t, cfg), 'read_mat', 'm.dat')
            d.closed(t, 'matrix')
            if not t.ok(isinstance(r, tuple) and [
                    len(x) if isinstance(x, tuple) else 0 for x in r]
                    == [2, 3], 'a size and three arrays'):
                return
            (a, b), (ai, aj, av) = r
            t.ok(core.simp(a) == M and core.simp(b) == n, 'size')
            for x, what in ((ai, 'row pointers'), (aj, 'columns')):
                if t.ok(isinstance(x, A.Arr), what + ' in an array'):
                    t.ok(kind(x.dtype) in 'iu', what + ' are integers',
                         x.dtype)
            ptr = [0]
            for x in rows:
                ptr.append(ptr[-1] + x)
            t.eqs(flat(ai), [sc_const(x) for x in ptr], 'row pointers')
            t.eqs(flat(aj), [sc_const(x) for x in cols], 'columns')
            t.eqs(flat(av), v, 'values')
        return fn

    def bad(self, what):
        def fn(t):
            d = Disk()
            cfg = CONFIGS[0]
            io = self.io(t, cfg)
            kinds = ('AssertionError', 'ValueError', 'IndexError',
                     'FormatError', 'StructError', 'IOError', 'OSError', 'EOFError')
            kind, how = what.split('-')
            I = INT[cfg[2]]
            if kind == 'iga':
                m = make(t, ((1, (2, 2)), (1, (2, 2))) if how == 'nsd' else
                         ((1, (2, 2)),), nf=0 if how in ('cut', 'gcut',
                                                         'vec') else 1)
                it = layout(Geo(t, m.obj), cfg[0], cfg[1], cfg[2],
                            how not in ('gcut', 'fcut'),
                            len(m.specs), how[0] in 'fv' and how != 'vec')
                ids = [q for q, (dt, x) in enumerate(it)
                       if dt == I and x.const == VEC]
                if how == 'nsd':
                    it[ids[0] - 1] = (I, sc_const(1))
                elif how == 'fvec':
                    it[ids[-1]] = (I, sc_const(MAT))
                elif how == 'id':
                    it[0] = (I, sc_const(VEC))
                elif how == 'short':
                    it = it[:-1]
                elif how == 'dim':
                    it[2] = (I, sc_const(4))
                elif how == 'vec':
                    i = [q for q, (dt, x) in enumerate(it)
                         if dt == I and x.const == VEC][0]
                    it[i] = (I, sc_const(MAT))
                op = 'read'
            elif kind == 'vec':
                v = flat(block('V', (4,)))
                it = [(I, VEC), (I, 4)] + [('>f8', x) for x in v]
                if how == 'id':
                    it[0] = (I, MAT)
                elif how == 'short':
                    it[1] = (I, 5)
                op = 'read_vec'
            else:
                it, v = self.matfile(0, cfg)
                if how == 'id':
                    it[0] = (I, VEC)
                elif how == 'short':
                    it = it[:-1]
                elif how == 'nz':
                    it[3] = (I, 2)
                op = 'read_mat'
            if how[-3:] == 'cut':
                # stops after any number of values
                for n in range(len(it)):
                    self.put(d, 'b.dat', it[:n])
                    t.raises(lambda: t.c.m(io, op, 'b.dat'),
                             'only the first %d values' % n, kinds)
                    d.closed(t, 'failed ' + op)
                return
            self.put(d, 'b.dat', it)
            t.raises(lambda: t.c.m(io, op, 'b.dat'), what, kinds)
            d.closed(t, 'failed ' + op)
        return fn

    def fault(self, op, n):
        """the file is closed whichever access to it fails"""
        def fn(t):
            d = Disk()
            cfg = CONFIGS[0]
            io = self.io(t, cfg)
            m = make(t, ((1, (2, 2)),), nf=1)
            if op == 'read':
                self.put(d, 'f', layout(Geo(t, m.obj), cfg[0], cfg[1],
                                        cfg[2], True, 1, True))
            elif op == 'read_vec':
                self.put(d, 'f', [(INT[cfg[2]], VEC), (INT[cfg[2]], 2)] + [
                    ('>f8', x) for x in flat(block('V', (2,)))])
            elif op == 'read_mat':
                self.put(d, 'f', self.matfile(0, cfg)[0])
            args = {'write': [m.obj], 'write_vec': [block('A', (3,))]}.get(
                op, [])
            top = PI._top_path()

            def hook(fh, what):
                if fh.nops == n:
                    raise A.AbsRaise('OSError', 'injected')
            top.fault = hook
            try:
                t.c.m(io, op, 'f', *args)
            except A.AbsRaise as e:
                t.ok(e.exc == 'OSError', 'the error is reported', e.exc)
            finally:
                top.fault = None
            d.closed(t, op)
        return fn


def greville(g, k, i):
    p, U = g.p[k], g.U[k]
    s = sc_const(0)
    for x in U[i + 1:i + p + 1]:
        s = core.add(s, x)
    return div(s, p)


# ---------------------------------------------------------------------------

VF = [((1, (2, 1, 2)),), ((2, (3, 1, 2, 3)),), ((2, (1,) * 7),),
      ((2, (3, 1, 3)), (1, (2, 2))), ((1, (2, 2)), (3, (4, 1, 4))),
      ((1, (2, 2)), (2, (3, 3)), (1, (2, 1, 2)))]

ATTRS = [
    ('none', (), ()),
    ('scalar', [('p', 0)], ()),
    ('scalars', [('p', 1), ('q', 0)], ()),
    ('vector', (), [('v', [0, 1])]),
    ('vectors', (), [('v', [2, 1, 0]), ('w', [1])]),
    ('both', [('rho', 2)], [('u vel', [0, 1])]),
    ('dicts', {'b': 1, 'a': 0}, {'z': [0, 1, 2], 'y': [2]}),
    ('spaces', [('a b c', 1), ('d_e f', 2)], [(' v  w ', [1, 2])]),
    ('unnamed', [('', 1)], [(None, [1, 2])]),
]


@register
class VTK(Prop):
    pid = 'C24'
    variants = WITH_FIELDS

    def obligations(self):
        obs = []

        def add(label, fn, tier='quick'):
            obs.append(Ob(self.pid, label, fn, tier,
                          site=IO % 'VTK.write'))
        for specs in VF:
            for label, sc_, ve in ATTRS:
                for ctl in (True, False):
                    for smp in ('none', 'mid', 'ends', 'point', 'cut0',
                                'cutlast'):
                        if smp != 'none' and label not in ('none', 'both'):
                            continue
                        add('write:%s:%s:%s:%s' % (
                            fid(specs), label, 'grid' if ctl else 'axes',
                            smp), self.write(specs, sc_, ve, ctl, smp))
            for label in ('none', 'both'):
                a = [x for x in ATTRS if x[0] == label][0]
                add('data:%s:%s' % (fid(specs), label), self.write(
                    specs, a[1], a[2], True, 'none', data=True))
        add('arguments', self.arguments())
        add('reject:index', self.reject('scalars', [('p', 5)]))
        add('reject:vector', self.reject('vectors', [('p', [0, 1, 2, 0])]))
        return obs

    def cont(self, x):
        if isinstance(x, dict):
            return {k: L(v) if isinstance(v, list) else v
                    for k, v in x.items()}
        if isinstance(x, tuple):
            return x
        return L([(n, L(i) if isinstance(i, list) else i) for n, i in x])

    def arguments(self):
        """the attribute lists given by the caller are not modified"""
        def fn(t):
            d = Disk()
            m = make(t, VF[0], nf=3)
            a, b = ATTRS[5][1:]
            a, b = self.cont(a), self.cont(b)
            n = [tuple(x) for x in a], [tuple(x) for x in b]
            t.c.m(t.c.call(t.c.name('io', 'VTK')), 'write', 'f.vtk', m.obj,
                  scalars=a, vectors=b)
            t.ok([tuple(x) for x in a] == n[0], 'scalars are kept')
            t.ok([tuple(x) for x in b] == n[1], 'vectors are kept')
        return fn

    def reject(self, key, v):
        def fn(t):
            d = Disk()
            m = make(t, VF[0], nf=3)
            t.raises(lambda: t.c.m(t.c.call(t.c.name('io', 'VTK')), 'write',
                                   'f.vtk', m.obj, **{key: self.cont(v)}),
                     'component out of range', ('IndexError', 'ValueError',
                                                'AssertionError'))
            t.ok('f.vtk' not in d.files or not d.files['f.vtk'],
                 'nothing written for refused arguments')
        return fn

    def write(self, specs, scal, vect, ctl, smp, data=False):
        def fn(t):
            d = Disk()
            m = make(t, specs, nf=3)
            g = Geo(t, m.obj)
            dim = g.dim
            kw = {}
            if not ctl:
                kw['control'] = False
            if scal:
                kw['scalars'] = self.cont(scal)
            if vect:
                kw['vectors'] = self.cont(vect)
            gg = g
            if data:
                # fields given by the caller instead of the stored ones
                F = block('D', g.shape[:-1] + (3,))
                kw['fields'] = F
                e = flat(F)
                gg = Geo.__new__(Geo)
                gg.__dict__.update(g.__dict__)
                fl, nc = [], 7
                for i in range(len(g.flat) // g.nc):
                    h = g.flat[i * g.nc:i * g.nc + 4]
                    fl += h + [mul(x, h[3]) for x in e[3 * i:3 * i + 3]]
                gg.flat, gg.nc = fl, 7
            br = []
            for k in range(dim):
                lo, hi = g.domain(k)
                b = []
                for u in g.U[k]:
                    if N.decided_lt(u, lo) or N.decided_lt(hi, u):
                        continue
                    if not b or same(b[-1], u) is not True:
                        b.append(u)
                br.append(b)
            if smp != 'none':
                first = [b[0] for b in br]

                def mid(u):
                    e = flat(u)
                    k = [i for i, x in enumerate(first)
                         if same(x, e[0]) is True]
                    if smp == 'point':
                        return arr([e[-1]])
                    if smp[:3] == 'cut':
                        # a single value along one axis only
                        cut = 0 if smp == 'cut0' else dim - 1
                        return arr([e[0]]) if cut in k else arr(e)
                    if smp == 'ends':
                        return arr([e[0], e[-1]])
                    o = []
                    for a, b in zip(e, e[1:]):
                        o += [a, div(core.add(a, b), 2)]
                    return arr(o + [e[-1]])
                kw['sampler'] = PI.Builtin('sampler', mid)
                br = [flat(mid(arr(list(b)))) for b in br]
            t.c.m(t.c.call(t.c.name('io', 'VTK')), 'write', 'f.vtk', m.obj,
                  **kw)
            d.closed(t, 'write')
            sh = [len(b) for b in br]
            n = 1
            for s in sh:
                n *= s
            dims = tuple(sh) + (1,) * (3 - dim)
            out = []

            def text(s):
                if out and out[-1][0] == 'text':
                    out[-1] = ('text', out[-1][1] + s)
                else:
                    out.append(('text', s))
            text('# vtk DataFile Version 2.0\nVTK Data\nBINARY\n')
            text('DATASET %s\nDIMENSIONS %d %d %d\n' % (
                ('STRUCTURED_GRID' if ctl else 'RECTILINEAR_GRID',) + dims))
            val = {}
            for ix in fortran(sh):
                val[ix] = evaluate(gg, [br[k][i] for k, i in enumerate(ix)])
            if ctl:
                text('POINTS %d double\n' % n)
                for ix in fortran(sh):
                    out.extend(('>f8', x) for x in point(val[ix]))
                text('\n')
            else:
                for k in range(3):
                    b = br[k] if k < dim else [sc_const(0)]
                    text('%s_COORDINATES %d double\n' % ('XYZ'[k], len(b)))
                    out.extend(('>f8', x) for x in b)
                    text('\n')
            if scal or vect:
                text('POINT_DATA %d\n' % n)

            def items(x):
                return sorted(x.items()) if isinstance(x, dict) else list(x)
            for i, (name, c) in enumerate(items(scal)):
                text('SCALARS %s double\nLOOKUP_TABLE default\n' % (
                    (name or 'scalars%d' % i).replace(' ', '_')))
                for ix in fortran(sh):
                    h = val[ix]
                    out.append(('>f8', div(h[4 + c], h[3])))
                text('\n')
            for i, (name, c) in enumerate(items(vect)):
                text('VECTORS %s double\n' % (
                    (name or 'vectors%d' % i).replace(' ', '_')))
                for ix in fortran(sh):
                    h = val[ix]
                    v = [div(h[4 + q], h[3]) for q in c]
                    out.extend(('>f8', x) for x in
                               (v + [sc_const(0)] * 3)[:3])
                text('\n')
            same_items(t, d.items(t, 'f.vtk', 'file'), out, 'file contents')
        return fn
