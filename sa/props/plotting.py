"""The plotter: what is handed to the backends and what they draw."""
import itertools
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements

PLOT = 'igakit/plot.py Plotter.%s'
MPL = 'igakit/plot_mpl.py %s'
MYV = 'igakit/plot_myv.py %s'
L = PI.PList

CURVES = [((1, (2, 2)),), ((2, (3, 1, 3)),), ((2, (1,) * 6),),
          ((3, (4, 4)),)]
SURFS = [((1, (2, 2)), (2, (3, 3))), ((2, (3, 1, 3)), (1, (2, 2))),
         ((1, (1,) * 4), (2, (3, 2, 3)))]
VOLS = [((1, (2, 2)), (1, (2, 1, 2)), (2, (3, 3)))]
RES = {1: 4, 2: 4}


class Rec(PI.Opaque):
    """an object of a plotting library: accepts everything, logs calls"""

    def __init__(self, name, log):
        self.name = name
        self.log = log
        self.kids = {}

    def abstract_getattr(self, n):
        if n not in self.kids:
            self.kids[n] = Rec(self.name + '.' + n, self.log)
        return self.kids[n]

    def abstract_call(self, interp, args, kw):
        self.log.append((self.name, list(args), dict(kw)))
        return Rec(self.name + '()', self.log)

    def abstract_truth(self):
        return True


class Sandbox(object):
    """fresh plotting modules on top of recording libraries"""
    LIBS = ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cm',
            'mpl_toolkits', 'mpl_toolkits.mplot3d', 'mayavi',
            'mayavi.tools', 'tvtk', 'tvtk.api', 'vtk', 'vtk.util')

    def __init__(self, t):
        self.t = t
        self.log = []
        w = t.c.w
        for n in list(w.modules):
            if n.startswith('igakit.plot'):
                del w.modules[n]
        w.extra.clear()
        for n in self.LIBS:
            w.extra[n] = self.lib(n)
        w.extra['matplotlib.colors'] = PI.Module('matplotlib.colors', {
            'cnames': {}})

    def lib(self, n):
        log = self.log

        class M(PI.Module):
            def get(self, a):
                if a not in self.d:
                    self.d[a] = Rec(n + '.' + a, log)
                return self.d[a]
        return M(n)

    def load(self, n):
        return self.t.c.w.load('igakit.' + n)

    def recorder(self):
        """a backend that logs what it is asked to draw"""
        log = self.log

        def mk(n):
            def f(*a, **kw):
                log.append((n, list(a), dict(kw)))
                return None
            return PI.Builtin(n, f)
        d = {n: mk(n) for n in ('points3d', 'quiver3d', 'line3d', 'surf3d')}
        d['_resolution'] = dict(RES)
        return PI.Module('recorder', d)

    def plotter(self, backend=None):
        c = self.t.c
        p = c.call(c.I.getattr(self.load('plot'), 'Plotter'))
        if backend is None:
            p.attrs['_backend'] = self.recorder()
        else:
            c.m(p, 'use', backend)
        return p


def triples(t, xyz, what):
    """list of points, in storage order, of three coordinate arrays"""
    xs = []
    sh = None
    xyz = list(xyz)
    if len(xyz) != 3:
        t.note(False, what, '%d coordinate arrays' % len(xyz))
        return None, None
    for a in xyz:
        if not isinstance(a, Arr):
            t.note(False, what, 'not an array: %r' % (a,))
            return None, None
        sh = sh or a.shape
        if t.shape(a, sh, what) is not True:
            return None, None
        xs.append([sc(v) for v in elements(a)])
    return sh, list(zip(*xs))


def key(p):
    return tuple(c.fp for c in p)


def unordered(t, got, want, what, undirected=False):
    """two collections of items (tuples of points) are equal"""
    def norm(item):
        k = tuple(key(p) for p in item)
        return min(k, k[::-1]) if undirected else k
    g = sorted(norm(x) for x in got)
    w = sorted(norm(x) for x in want)
    if g == w:
        return t.note(True, what)
    miss = [x for x in want if norm(x) not in set(g)]
    extra = [x for x in got if norm(x) not in set(w)]
    x = (extra or miss or [()])[0]
    return t.note(False, what, '%d items instead of %d; %s %s' % (
        len(g), len(w), 'unexpected' if extra else 'missing',
        [tuple(c.rep[:40] for c in p) for p in list(x)[:2]]))


def pick(log, name):
    return [e for e in log if e[0] == name]


def project(g, h):
    return tuple(div(x, h[3]) for x in h[:3])


def lin(a, b, n):
    return [a if i == 0 else b if i == n - 1 else core.add(a, mul(
        div(sc_const(i), sc_const(n - 1)), sub(b, a))) for i in range(n)]


class Shape(object):
    def __init__(self, t, specs):
        self.m = make(t, specs)
        self.g = Geo(t, self.m.obj)
        self.dim = self.g.dim

    def at(self, *us):
        return project(self.g, evaluate(self.g, us))

    def cp(self):
        sh = self.g.shape[:-1]
        return {ix: project(self.g, self.g.cp(*ix))
                for ix in itertools.product(*[range(s) for s in sh])}

    def breaks(self, k):
        s, U = self.m.specs[k], self.m.U[k]
        lo, hi = s.domain()
        first, n = {}, 0
        for i, m in enumerate(s.mults):
            first[i] = U[n]
            n += m
        return [first[i] for i in range(lo, hi + 1)]

    def lin(self, k, n):
        b = self.breaks(k)
        return lin(b[0], b[-1], n)

    def edges(self):
        """neighbours in the control net"""
        cp = self.cp()
        out = []
        for ix in cp:
            for k in range(self.dim):
                jx = ix[:k] + (ix[k] + 1,) + ix[k + 1:]
                if jx in cp:
                    out.append((cp[ix], cp[jx]))
        return out


@register
class Plotting(Prop):
    pid = 'C30'
    variants = VARIANTS

    def obligations(self):
        obs = []

        def add(oid, fn, site, budget=60):
            obs.append(Ob(self.pid, oid, fn, site=site, budget=budget))
        for specs in CURVES + SURFS + VOLS:
            f, d = fid(specs), len(specs)
            for what in ('cpoint', 'cwire', 'kpoint', 'kwire', 'curve',
                         'cplot', 'kplot'):
                add('%s:%s' % (what, f), self.plot(specs, what),
                    PLOT % what)
            if d > 1:
                add('surface:' + f, self.plot(specs, 'surface'),
                    PLOT % 'surface')
                add('ksurf:' + f, self.plot(specs, 'ksurf'), PLOT % 'ksurf')
                for axes in ([0], [d - 1], 1, (0, 1)):
                    for what in ('kwire', 'ksurf'):
                        add('%s:%s:%s' % (what, f, axes), self.plot(
                            specs, what, axes=axes), PLOT % what)
            if d > 2:
                add('volume:' + f, self.plot(specs, 'volume'),
                    PLOT % 'volume')
            add('plot:' + f, self.plot(specs, 'plot'), PLOT % 'plot')
            for what in ('cpoint', 'cwire'):
                add('mpl:%s:%s' % (what, f), self.mpl(specs, what),
                    MPL % what, 120)
            add('mpl:plot:' + f, self.mpl(specs, 'plot'), MPL % 'surf3d')
            add('mpl:kplot:' + f, self.mpl(specs, 'kplot'), MPL % 'line3d')
            for what in ('_extract_grid_lines', '_extract_grid_polys'):
                add('myv:%s:%s' % (what, f), self.myv(specs, what),
                    MYV % what)
        for name in ('points', 'quiver'):
            for nd in (1, 2):
                for nc in (1, 2, 3):
                    add('%s:%d:%d' % (name, nd, nc), self.points(
                        name, nd, nc), PLOT % name)
        for name in ('points', 'quiver'):
            for how in ('single', 'list', 'four', 'mixed', 'mpl'):
                if how == 'mixed' and name == 'points':
                    continue
                add('%s:%s' % (name, how), self.points_as(name, how),
                    PLOT % name)
        for specs in (CURVES[1], SURFS[0], VOLS[0]):
            f, d = fid(specs), len(specs)
            for what in ('cpoint', 'cwire', 'kpoint', 'kwire', 'curve',
                         'cplot', 'kplot', 'plot') + (
                             ('surface', 'ksurf') if d > 1 else ()) + (
                             ('volume',) if d > 2 else ()):
                add('options:%s:%s' % (what, f), self.options(specs, what),
                    PLOT % what)
                if what not in ('curve', 'surface', 'volume', 'ksurf'):
                    add('options:mpl:%s:%s' % (what, f), self.options(
                        specs, what, 'mpl'), MPL % what)
            for what in ('cwire', 'kwire', 'curve'):
                add('mode:%s:%s' % (what, f), self.mode(specs, what),
                    PLOT % what)
        for b in ('matplotlib', 'mpl', 'none', 'null', 'nul', 'mayavi',
                  'myv'):
            add('interface:' + b, self.interface(b),
                'igakit/plot.py Plotter.backend')
        add('interface:unknown', self.unknown(),
            'igakit/plot.py Plotter.backend')
        return obs

    # -- expected drawings

    def lines_of(self, o, what, axes=None):
        d = o.dim
        out = []
        if what == 'kwire':
            ax = range(d) if axes is None else [axes] \
                if isinstance(axes, int) else list(axes)
            for a in ax:
                par = o.lin(a, RES[1])
                rest = [o.breaks(k) if k != a else [None] for k in range(d)]
                for us in itertools.product(*rest):
                    out.append(tuple(o.at(*[par[i] if k == a else us[k]
                                            for k in range(d)])
                                     for i in range(RES[1])))
        elif what == 'curve':
            ends = [(o.breaks(k)[0], o.breaks(k)[-1]) for k in range(d)]
            for a in range(d):
                par = o.lin(a, RES[1])
                rest = [ends[k] if k != a else [None] for k in range(d)]
                for us in itertools.product(*rest):
                    line = tuple(o.at(*[par[i] if k == a else us[k]
                                        for k in range(d)])
                                 for i in range(RES[1]))
                    # an edge of a volume belongs to two faces
                    out += [line] * max(1, d - 1)
        return out

    def surfs_of(self, o, what, axes=None):
        d = o.dim
        R = RES[2]
        out = []
        if what == 'surface' and d == 2:
            sides = [(None, None)]
        else:
            ax = range(d) if axes is None else [axes] \
                if isinstance(axes, int) else list(axes)
            sides = [(a, u) for a in ax for u in (
                o.breaks(a) if what == 'ksurf' else
                (o.breaks(a)[0], o.breaks(a)[-1]))]
        for a, u in sides:
            pars = [o.lin(k, R) for k in range(d) if k != a]
            pts = []
            for us in itertools.product(*reversed(pars)):
                us = list(us)[::-1]
                if a is not None:
                    us.insert(a, u)
                pts.append(o.at(*us))
            out.append(tuple(pts))
        return out

    def plot(self, specs, what, axes=None):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter()
            o = Shape(t, specs)
            snap = Snap(o.m.obj)
            kw = {} if axes is None else {
                'axes': L(axes) if isinstance(axes, list) else axes}
            t.c.m(P, what, o.m.obj, **kw)
            snap.check(t, what + ' leaves the object unchanged')
            calls = [what]
            if what == 'cplot':
                calls = ['cpoint', 'cwire']
            elif what == 'kplot':
                calls = ['kpoint', 'kwire']
            elif what == 'plot':
                calls = [['curve', 'surface', 'volume'][o.dim - 1]]
            kinds = {'cpoint': 'points3d', 'kpoint': 'points3d',
                     'cwire': 'line3d', 'kwire': 'line3d',
                     'curve': 'line3d', 'surface': 'surf3d',
                     'ksurf': 'surf3d', 'volume': 'surf3d'}
            used = {kinds[c] for c in calls}
            for e in sb.log:
                t.ok(e[0] in used, '%s draws with %s' % (what, used), e[0])
            for c in calls:
                self.check(t, sb, o, c, axes)
        return fn

    def check(self, t, sb, o, what, axes=None):
        d = o.dim
        if what in ('cpoint', 'kpoint'):
            es = pick(sb.log, 'points3d')
            if not t.ok(len(es) == 1, what + ': one set of points',
                        len(es)):
                return
            sh, pts = triples(t, es[0][1], what)
            if pts is None:
                return
            want = list(o.cp().values()) if what == 'cpoint' else [
                o.at(*us) for us in itertools.product(
                    *[o.breaks(k) for k in range(d)])]
            unordered(t, [(p,) for p in pts], [(p,) for p in want],
                      what + ': points')
            return
        if what == 'cwire':
            es = pick(sb.log, 'line3d')
            if not t.ok(len(es) == 1, 'cwire: one net', len(es)):
                return
            ln = es[0][2].get('lines', es[0][1][0] if es[0][1] else ())
            if not t.ok(len(list(ln)) == 1, 'cwire: one net'):
                return
            sh, pts = triples(t, list(ln)[0], what)
            if pts is None:
                return
            unordered(t, net_edges(sh, pts), o.edges(), 'control net', True)
            return
        if what in ('kwire', 'curve'):
            lines = []
            for e in pick(sb.log, 'line3d'):
                for xyz in e[2].get('lines', e[1][0] if e[1] else ()):
                    sh, pts = triples(t, xyz, what)
                    if pts is None:
                        return
                    t.ok(len(sh) == 1, what + ': a line', '%r' % (sh,))
                    lines.append(tuple(pts))
            unordered(t, lines, self.lines_of(o, what, axes),
                      what + ': lines', True)
            return
        surfs = []
        for e in pick(sb.log, 'surf3d'):
            for xyz in e[2].get('surfs', e[1][0] if e[1] else ()):
                sh, pts = triples(t, xyz, what)
                if pts is None:
                    return
                t.ok(len(sh) == d - 1 if what == 'ksurf' else len(sh) == 2,
                     what + ': a surface', '%r' % (sh,))
                surfs.append(tuple(pts))
        unordered(t, surfs, self.surfs_of(
            o, 'surface' if what == 'volume' else what, axes),
            what + ': surfaces')

    # -- drawing with matplotlib

    def mpl(self, specs, what):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter('matplotlib')
            b = sb.load('plot_mpl')
            b.d['_resolution'] = dict(RES)
            o = Shape(t, specs)
            d = o.dim
            del sb.log[:]
            t.c.m(P, what, o.m.obj)
            pts, lines, surfs, edges = [], [], [], []
            for name, a, kw in sb.log:
                last = name.rsplit('.', 1)[-1]
                if last == 'scatter':
                    sh, p = triples(t, a[:3], 'scatter')
                    if p is None:
                        return
                    t.ok(len(sh) == 1, 'scatter takes flat arrays', sh)
                    pts += p
                elif last in ('plot', 'plot_wireframe', 'plot_surface'):
                    sh, p = triples(t, a[:3], last)
                    if p is None:
                        return
                    if last == 'plot_surface':
                        t.ok(len(sh) == 2, 'a surface', sh)
                        surfs.append(tuple(p))
                        s2 = {k: kw.get(k, 1) for k in ('rstride',
                                                        'cstride')}
                        t.ok(set(s2.values()) == {1}, 'every sample', s2)
                        continue
                    if last == 'plot':
                        t.ok(len(sh) == 1, 'a line', sh)
                        lines.append(tuple(p))
                    else:
                        t.ok(len(sh) == 2, 'a wireframe', sh)
                        s2 = {k: kw.get(k) for k in ('rstride', 'cstride')}
                        t.ok(set(s2.values()) == {1}, 'every line', s2)
                    edges += net_edges(sh, p)
            sg = lambda xs: [(x,) for x in xs]
            if what == 'cpoint':
                unordered(t, sg(pts), sg(o.cp().values()), 'points drawn')
            elif what == 'cwire':
                same_edges(t, edges, o.edges(), 'control net drawn')
            elif what == 'kplot':
                unordered(t, sg(pts), sg([o.at(*us) for us in
                          itertools.product(*[o.breaks(k)
                                              for k in range(d)])]),
                          'points drawn')
                unordered(t, lines, self.lines_of(o, 'kwire'),
                          'lines drawn', True)
            elif d == 1:
                unordered(t, lines, self.lines_of(o, 'curve'),
                          'lines drawn', True)
            else:
                tr = lambda s: tuple(s[i * RES[2] + j] for j in
                                     range(RES[2]) for i in range(RES[2]))
                unordered(t, [tr(s) for s in surfs], self.surfs_of(
                    o, 'surface'), 'surfaces drawn')
        return fn

    def myv(self, specs, what):
        """lines and cells handed to VTK connect neighbouring points"""
        def fn(t):
            sb = Sandbox(t)
            o = Shape(t, specs)
            m = sb.load('plot_myv')
            f = t.c.I.getattr(m, what)
            C = t.c.get(o.m.obj, 'points')
            poly = what.endswith('polys')
            if poly and o.dim == 1:
                return
            n = 1
            for s in o.g.shape[:-1]:
                n *= s
            X = [A.getitem(A.transpose(C), (k, Ellipsis)) for k in range(3)]
            P2 = block('B', (3, 4, 3))
            Y = [A.getitem(A.transpose(P2), (k, Ellipsis)) for k in range(3)]
            r = t.c.call(f, L([tuple(X), tuple(Y)]))
            pts, cells = list(r)
            if t.shape(pts, (n + 12, 3), 'points') is not True:
                return
            e = [sc(x) for x in elements(pts)]
            P = [tuple(e[3 * i:3 * i + 3]) for i in range(n + 12)]
            idx = [core.simp(x) for x in elements(cells)]
            w = 4 if poly else 2
            if not t.ok(cells.ndim == 2 and cells.shape[1] == w, 'cells',
                        cells.shape):
                return
            if not t.ok(all(isinstance(i, int) and 0 <= i < n + 12
                            for i in idx), 'cells refer to points'):
                return
            cells = [idx[w * i:w * i + w] for i in range(len(idx) // w)]
            want = o.edges()
            b = elements(P2)
            Q = {(i, j): tuple(sc(x) for x in
                               b[3 * (4 * i + j):3 * (4 * i + j) + 3])
                 for i in range(3) for j in range(4)}
            for i, j in Q:
                for k in ((i + 1, j), (i, j + 1)):
                    if k in Q:
                        want.append((Q[i, j], Q[k]))
            if not poly:
                got = [(P[a], P[b]) for a, b in cells]
            else:
                got = []
                for c in cells:
                    t.ok(len(set(c)) == 4, 'a cell has four corners', c)
                    got += [(P[c[k]], P[c[(k + 1) % 4]]) for k in range(4)]
            same_edges(t, got, want, 'neighbours are connected')
        return fn

    def points(self, name, nd, nc):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter()
            sh = (4, 3)[:nd] if nc > 0 else ()
            C = block('P', sh + (nc,))
            V = block('V', sh + (nc,))
            args = [C] if name == 'points' else [C, V]
            snap = Snap(*args)
            t.c.m(P, name, *args)
            snap.check(t, name + ' leaves its arguments unchanged')
            kind = {'points': 'points3d', 'quiver': 'quiver3d'}[name]
            es = pick(sb.log, kind)
            if not t.ok(len(es) == 1 and len(sb.log) == 1, 'one call',
                        len(es)):
                return
            a = es[0][1]
            if not t.ok(len(a) == 3 * len(args), 'coordinate arrays',
                        len(a)):
                return
            got = []
            for k in range(len(args)):
                s, p = triples(t, a[3 * k:3 * k + 3], name)
                if p is None:
                    return
                got.append(p)
            want = []
            for x in args:
                e = [sc(v) for v in elements(x)]
                n = len(e) // nc
                want.append([tuple(e[i * nc:(i + 1) * nc] +
                                   [sc_const(0)] * (3 - nc))
                             for i in range(n)])
            unordered(t, list(zip(*got)), list(zip(*want)),
                      name + ': points')
        return fn

    def points_as(self, name, how):
        '''other forms of the arguments; what matplotlib is given'''
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter('matplotlib' if how == 'mpl' else None)
            del sb.log[:]
            sh = {'single': (3,), 'list': (2, 2), 'four': (4, 4),
                  'mixed': (4, 2), 'mpl': (4, 3)}[how]
            C = block('P', sh)
            V = block('V', (4, 3) if how == 'mixed' else sh)
            if how == 'list':
                C, V = (L([L(elements(a)[:2]), L(elements(a)[2:])])
                        for a in (C, V))
            args = [C] if name == 'points' else [C, V]
            if how == 'four':
                t.raises(lambda: t.c.m(P, name, *args),
                         'points of four components')
                if name == 'quiver':
                    t.raises(lambda: t.c.m(P, name, block('Q', (4, 3)), V),
                             'vectors of four components')
                return
            t.c.m(P, name, *args)
            if how == 'mpl':
                es = [e for e in sb.log if e[0].rsplit('.', 1)[-1] == (
                    'scatter' if name == 'points' else 'quiver')]
            else:
                es = pick(sb.log, name + '3d' if name == 'points'
                          else 'quiver3d')
            if not t.ok(len(es) == 1, 'one call', len(es)):
                return
            a = es[0][1]
            if not t.ok(len(a) == 3 * len(args), 'coordinate arrays',
                        len(a)):
                return
            got, want = [], []
            for k, x in enumerate(args):
                s, p = triples(t, a[3 * k:3 * k + 3], name)
                if p is None:
                    return
                got.append(p)
                x = [list(r) for r in x] if how == 'list' else (
                    [elements(x)] if how == 'single' else
                    [[sc(v) for v in elements(A.getitem(x, i))]
                     for i in range(x.shape[0])])
                want.append([tuple([sc(v) for v in r] + [sc_const(0)] * (
                    3 - len(r))) for r in x])
            unordered(t, list(zip(*got)), list(zip(*want)),
                      name + ': points')
        return fn

    def options(self, specs, what, backend=None):
        '''options reach the backend; those of mayavi do not reach
        matplotlib'''
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter(backend)
            if backend:
                sb.load('plot_mpl').d['_resolution'] = dict(RES)
            o = Shape(t, specs)
            del sb.log[:]
            own = {'color': tuple(elements(block('RGB', (3,)))), 'name': 'title',
                   'opacity': elements(block('O', (1,)))[0], 'line_width': 7}
            if what[1:] != 'plot' and backend is None:
                own['scale_factor'] = elements(block('F', (1,)))[0]
            t.c.m(P, what, o.m.obj, **dict(own))
            n = 0
            for name, a, kw in sb.log:
                last = name.rsplit('.', 1)[-1]
                if last not in ('points3d', 'line3d', 'surf3d', 'scatter',
                                'plot', 'plot_wireframe', 'plot_surface'):
                    continue
                n += 1
                if backend is None:
                    for k, v in own.items():
                        t.ok(kw.get(k) is v or kw.get(k) == v,
                             'option %s is handed on' % k, repr(
                                 kw.get(k))[:60])
                else:
                    t.ok(kw.get('color') == own['color'],
                         'the colour is used', repr(kw.get('color'))[:60])
                    bad = sorted(set(kw) - {
                        'color', 's', 'marker', 'rstride', 'cstride',
                        'linewidth', 'cmap', 'shade', 'antialiased',
                        'c', 'linestyle', 'ls', 'lw', 'edgecolor',
                        'edgecolors', 'facecolors', 'alpha', 'zorder',
                        'rcount', 'ccount', 'depthshade', 'norm', 'vmin',
                        'vmax', 'zdir', 'label', 'markersize'})
                    t.ok(not bad, 'matplotlib knows the option', bad)
            t.ok(n > 0, what + ' draws something')
        return fn

    def mode(self, specs, what):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter()
            o = Shape(t, specs)
            for mode, rep in (('line', 'wireframe'), ('tube', 'surface')):
                del sb.log[:]
                t.c.m(P, what, o.m.obj, mode=mode)
                es = pick(sb.log, 'line3d')
                t.ok(es and all(e[2].get('representation') == rep
                                for e in es), 'mode %s: %s' % (mode, rep))
                t.ok(all(('tube_radius' in e[2] and
                          e[2]['tube_radius'] is None) == (mode == 'line')
                         for e in es), 'mode %s: radius' % mode)
                t.ok(all('mode' not in e[2] for e in es),
                     'the mode itself is not handed on')
            t.raises(lambda: t.c.m(P, what, o.m.obj, mode='dotted'),
                     'another mode')
        return fn

    def interface(self, backend):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter(backend)
            b = t.c.get(P, 'backend')
            for n in ('points3d', 'quiver3d', 'line3d', 'surf3d', 'figure',
                      'gcf', 'clf', 'close', 'save', 'show', 'title',
                      'xlabel', 'ylabel', 'zlabel', 'colorbar', 'colors'):
                try:
                    t.c.get(P, n)
                    ok = True
                except AbsRaise as e:
                    ok = False
                t.ok(ok, 'backend %s provides %s' % (backend, n))
            r = t.c.I.getattr(b, '_resolution')
            for k in (1, 2):
                t.ok(isinstance(r, dict) and isinstance(r.get(k), int) and
                     r[k] >= 2, 'resolution of backend ' + backend, r)
            if backend in ('mayavi', 'myv'):
                return
            b.d['_resolution'] = dict(RES)
            o = Shape(t, SURFS[0])
            for what in ('cplot', 'kplot', 'plot', 'curve', 'ksurf'):
                t.c.m(P, what, o.m.obj)
            v = Shape(t, VOLS[0])
            t.c.m(P, 'plot', v.m.obj)
            C = block('P', (4, 3))
            t.c.m(P, 'points', C)
            t.c.m(P, 'quiver', C, C)
            for kw in ({'name': 'x', 'opacity': sc_const(1)},
                       {'color': (1, 0, 0), 'line_width': 2}):
                t.c.m(P, 'plot', o.m.obj, **kw)
                t.c.m(P, 'cpoint', o.m.obj, **kw)
            t.note(True, 'everything can be drawn')
        return fn

    def unknown(self):
        def fn(t):
            sb = Sandbox(t)
            P = sb.plotter()
            t.raises(lambda: t.c.m(P, 'use', 'nonesuch'),
                     'unknown backend', ('ValueError',))
        return fn


def net_edges(sh, pts):
    """neighbours in an array of points stored in C order"""
    st = [1] * len(sh)
    for k in range(len(sh) - 2, -1, -1):
        st[k] = st[k + 1] * sh[k + 1]
    out = []
    for ix in itertools.product(*[range(s) for s in sh]):
        i = sum(a * b for a, b in zip(ix, st))
        for k in range(len(sh)):
            if ix[k] + 1 < sh[k]:
                out.append((pts[i], pts[i + st[k]]))
    return out


def same_edges(t, got, want, what):
    """same set of undirected edges (drawn any number of times)"""
    def u(xs):
        d = {}
        for a, b in xs:
            k = (key(a), key(b))
            d.setdefault(min(k, k[::-1]), (a, b))
        return list(d.values())
    unordered(t, u(got), u(want), what, True)
