"""The basis function kernels of igalib and the quadrature rules."""
import itertools
from fractions import Fraction
from . import Prop, register
from ..run import Ob, Snap
from ..tmpl import *
from ..families import *
from .. import core, pyinterp as PI, arrays as A, npmodel as N
from ..backend import elements

L = PI.PList
BSP = 'igakit/igalib.f90 bsp.%s'
IGA = 'igakit/igalib.f90 iga.%s'
SP1 = QUICK1 + MORE1


def ints(a):
    return [core.simp(x) for x in elements(a)]


def vals(a):
    return [sc(x) for x in elements(a)]


def spans_of(p, U):
    return [k for k in range(p, len(U) - p - 1) if lt(U[k], U[k + 1])]


def positions_1d(s, U):
    """parameters: inside every span, at every breakpoint of the domain;
    [(label, parameter, span expected)]"""
    out = []
    p = s.p
    n = len(U) - p - 2
    sp = spans_of(p, U)
    for b, k in zip(s.spans(), sp):
        out.append(('in%d' % b, s.par('u', b), k))
        out.append(('at%d' % b, U[k], k))
    out.append(('end', U[n + 1], sp[-1]))
    return out


@register
class Basis(Prop):
    pid = 'C28'
    variants = KNOTS

    def obligations(self):
        obs = []
        fams = [(s, 'quick') for s in SP1] + [(s, 'thorough') for s in DEEP1]
        for spec, tier in fams:
            s = Spec(*spec)
            f = s.id

            def add(label, fn, site):
                obs.append(Ob(self.pid, '%s:%s' % (label, f), fn(spec), tier,
                              site=site, budget=120))
            add('find', self.find, BSP % 'FindSpan')
            add('containers', self.containers, BSP % 'FindSpan')
            add('basis', self.basis, BSP % 'EvalBasisFuns')
            for d in sorted({0, 1, 2, s.p - 1, s.p}) + [None]:
                if d is None or 0 <= d <= s.p:
                    add('ders%s' % d, lambda spec, d=d: self.ders(spec, d),
                        BSP % 'EvalBasisFunsDers')
                    for q in ((1, 3, None) if s.p < 5 else (2,)):
                        add('basisdata%s,%s' % (d, q), lambda spec, d=d, q=q:
                            self.data(spec, d, q), IGA % 'BasisData')
                    add('basisdatacol%s' % d, lambda spec, d=d:
                        self.col(spec, d), IGA % 'BasisDataCol')
            add('span-index', self.index, BSP % 'SpanIndex')
            for mod in ('bsp', 'iga'):
                add('greville-' + mod, lambda spec, mod=mod:
                    self.greville(spec, mod), 'igakit/igalib.f90 %s.Greville'
                    % mod)
        for E, p in itertools.product((1, 2, 3, 5), (1, 2, 3, 4)):
            for C in [None] + list(range(p)):
                for wrap in (None, False, True):
                    if wrap and not self.fits(E, p, C):
                        continue
                    for ends in (False, True):
                        if wrap is None and ends:
                            continue
                        obs.append(Ob(
                            self.pid, 'knotvector:%d,%d,%s,%s,%d' % (
                                E, p, C, wrap, ends),
                            self.knotvector(E, p, C, wrap, ends),
                            site=IGA % 'KnotVector'))
        for label, fn in self.rejects():
            obs.append(Ob(self.pid, 'rejects:' + label, fn,
                          site='igakit/igalib.pyf'))
        return obs

    @staticmethod
    def fits(E, p, C):
        return True

    def k(self, t, mod, name, *a, **kw):
        return t.c.call(t.c.kernel(mod, name), *a, **kw)

    def find(self, spec):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            KU = arr(U)
            for lab, u, k in positions_1d(s, U):
                r = self.k(t, 'bsp', 'FindSpan', s.p, KU, u)
                t.eq(core.simp(r), k, 'span of %s' % lab)
                want = sum(1 for x in U if same(x, u) is True)
                r = self.k(t, 'bsp', 'FindMult', s.p, KU, u)
                t.eq(core.simp(r), want, 'multiplicity of ' + lab)
                r = self.k(t, 'bsp', 'FindMult', s.p, KU, u, k)
                t.eq(core.simp(r), want, 'multiplicity of %s, span given'
                     % lab)
                r = self.k(t, 'bsp', 'FindSpanMult', s.p, KU, u)
                t.ok(len(r) == 2, 'span and multiplicity')
                t.eqs([core.simp(x) for x in r], [k, want],
                      'span and multiplicity of ' + lab)
        return fn

    def containers(self, spec):
        """lists and tuples are accepted for the knots"""
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            u = s.par('u', s.spans()[0])
            k = spans_of(s.p, U)[0]
            for KU in (L(U), tuple(U)):
                t.eq(core.simp(self.k(t, 'bsp', 'FindSpan', s.p, KU, u)), k,
                     'span')
        return fn

    def basis(self, spec):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            KU = arr(U)
            for lab, u, k in positions_1d(s, U):
                want = basis(s.p, U, k, u)
                for a in ([], [k], [-1]):
                    r = self.k(t, 'bsp', 'EvalBasisFuns', s.p, KU, u, *a)
                    if t.shape(r, (s.p + 1,), 'basis') is not True:
                        return
                    t.eqs(vals(r), want, 'basis functions ' + lab)
        return fn

    def ders(self, spec, d):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            KU = arr(U)
            nd = s.p if d is None else d
            for lab, u, k in positions_1d(s, U):
                if s.p > 4 and not lab.startswith('in'):
                    continue
                want = sum(ders(s.p, U, k, u, nd), [])
                kw = {} if d is None else {'d': d}
                for a in ({}, {'span': k}):
                    r = self.k(t, 'bsp', 'EvalBasisFunsDers', s.p, KU, u,
                               **dict(kw, **a))
                    if t.shape(r, (nd + 1, s.p + 1), 'derivatives') \
                       is not True:
                        return
                    t.eqs(vals(r), want, 'basis derivatives ' + lab)
        return fn

    def data(self, spec, d, q):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            nd = s.p if d is None else d
            nq = s.p + 1 if q is None else q
            kw = {}
            if d is not None:
                kw['d'] = d
            if q is not None:
                kw['q'] = q
            r = self.k(t, 'iga', 'BasisData', s.p, arr(U), **kw)
            if not t.ok(len(r) == 5, 'five results', len(r)):
                return
            O, J, W, X, B = r
            sp = spans_of(s.p, U)
            ne = len(sp)
            XG, WG = [vals(x) for x in self.k(t, 'iga', 'GaussLegendreRule',
                                              nq)]
            for a, sh, nm in ((O, (ne,), 'offsets'), (J, (ne,), 'jacobians'),
                              (W, (nq,), 'weights'), (X, (ne, nq), 'points'),
                              (B, (ne, nq, s.p + 1, nd + 1), 'basis')):
                if t.shape(a, sh, nm) is not True:
                    return
            t.eqs(ints(O), [k - s.p for k in sp], 'offsets')
            half = sc_const(Fraction(1, 2))
            t.eqs(vals(J), [mul(sub(U[k + 1], U[k]), half) for k in sp],
                  'jacobians')
            t.eqs(vals(W), WG, 'weights')
            xs, bs = vals(X), vals(B)
            for e, k in enumerate(sp):
                for i in range(nq):
                    x = core.add(U[k], mul(mul(sub(U[k + 1], U[k]), half),
                                           core.add(XG[i], sc_const(1))))
                    if t.eq(xs[e * nq + i], x, 'point %d of element %d'
                            % (i, e)) is not True:
                        return
                    D = ders(s.p, U, k, x, nd)
                    w = s.p + 1
                    for j in range(w):
                        for r_ in range(nd + 1):
                            got = bs[((e * nq + i) * w + j) * (nd + 1) + r_]
                            if t.eq(got, D[r_][j], 'derivative %d of '
                                    'function %d at point %d of element %d'
                                    % (r_, j, i, e)) is not True:
                                return
        return fn

    def col(self, spec, d):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            nd = s.p if d is None else d
            pos = positions_1d(s, U)
            if s.p > 4:
                pos = pos[:1] + pos[-1:]
            kw = {} if d is None else {'d': d}
            r = self.k(t, 'iga', 'BasisDataCol', s.p, arr(U),
                       arr([u for _, u, _ in pos]), **kw)
            if not t.ok(len(r) == 2, 'two results'):
                return
            O, B = r
            n, w = len(pos), s.p + 1
            if t.shape(O, (n,), 'offsets') is not True or \
               t.shape(B, (n, w, nd + 1), 'basis') is not True:
                return
            t.eqs(ints(O), [k - s.p for _, _, k in pos], 'offsets')
            bs = vals(B)
            for i, (lab, u, k) in enumerate(pos):
                D = ders(s.p, U, k, u, nd)
                for j in range(w):
                    for r_ in range(nd + 1):
                        if t.eq(bs[(i * w + j) * (nd + 1) + r_], D[r_][j],
                                'derivative %d of function %d %s'
                                % (r_, j, lab)) is not True:
                            return
        return fn

    def index(self, spec):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            r = self.k(t, 'bsp', 'SpanIndex', s.p, arr(U))
            sp = spans_of(s.p, U)
            if t.shape(r, (len(sp),), 'span indices') is True:
                t.eqs(ints(r), sp, 'span indices')
        return fn

    def greville(self, spec, mod):
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            r = self.k(t, mod, 'Greville', s.p, arr(U))
            if t.shape(r, (s.n,), 'abscissae') is not True:
                return
            want = []
            for i in range(s.n):
                v = sc_const(0)
                for j in range(1, s.p + 1):
                    v = core.add(v, U[i + j])
                want.append(div(v, sc_const(s.p)))
            t.eqs(vals(r), want, 'abscissae')
        return fn

    def knotvector(self, E, p, C, wrap, ends):
        def fn(t):
            kw = {}
            a, b = sc_const(0), sc_const(1)
            if ends:
                a = set_iv(sc_atom('ui', rep='Ui'), -3., -1.)
                b = set_iv(sc_atom('uf', rep='Uf'), 1., 3.)
                kw.update(Ui=a, Uf=b)
            if C is not None:
                kw['C'] = C
            if wrap is not None:
                kw['wrap'] = wrap
            c = p - 1 if C is None else C
            r = self.k(t, 'iga', 'KnotVector', E, p, **kw)
            n = E * (p - c) + 1 + c      # control points of the clamped one
            if t.shape(r, (n + p + 1,), 'knot vector') is not True:
                return
            U = vals(r)
            h = div(sub(b, a), sc_const(E))
            inner = []
            for i in range(1, E):
                inner += [core.add(a, mul(sc_const(i), h))] * (p - c)
            if not wrap:
                t.eqs(U, [a] * (p + 1) + inner + [b] * (p + 1), 'knots')
                return
            # periodic: the interior and the ends of the domain stay, the
            # ends keep multiplicity p-c, the rest repeats with the period
            t.eqs(U[c + 1:-c - 1], [a] * (p - c) + inner + [b] * (p - c),
                  'knots inside the domain')
            per = sub(b, a)
            s = E * (p - c)              # index shift of one period
            for j in range(c + 1):
                t.eq(U[j], sub(U[j + s], per), 'periodic knot %d' % j)
                t.eq(U[-1 - j], core.add(U[-1 - j - s], per),
                     'periodic knot %d from the end' % j)
        return fn

    def rejects(self):
        def add(label, mod, name, a, kw=None):
            def fn(t):
                s = Spec(2, (3, 1, 3))
                U = s.knots('ku')
                u = s.par('u', 0)
                args = [{'U': arr(U), 'u': u, 'short': arr(U[:5]),
                         'X': arr([u]), 'none': arr([])}.get(x, x)
                        if isinstance(x, str) else x for x in a]
                t.raises(lambda: self.k(t, mod, name, *args, **(kw or {})),
                         label)
            out.append((label, fn))
        out = []
        for nm in ('FindSpan', 'FindMult', 'FindSpanMult', 'EvalBasisFuns',
                   'EvalBasisFunsDers'):
            add(nm + '-degree', 'bsp', nm, [0, 'U', 'u'])
            add(nm + '-short', 'bsp', nm, [2, 'short', 'u'])
        for nm in ('SpanIndex', 'Greville'):
            add(nm + '-degree', 'bsp', nm, [0, 'U'])
            add(nm + '-short', 'bsp', nm, [2, 'short'])
        add('ders-high', 'bsp', 'EvalBasisFunsDers', [2, 'U', 'u', 3])
        add('ders-negative', 'bsp', 'EvalBasisFunsDers', [2, 'U', 'u', -1])
        add('iga-Greville-short', 'iga', 'Greville', [2, 'short'])
        for nm, a in (('BasisData', []), ('BasisDataCol', ['X'])):
            add(nm + '-degree', 'iga', nm, [0, 'U'] + a)
            add(nm + '-short', 'iga', nm, [2, 'short'] + a)
            add(nm + '-high', 'iga', nm, [2, 'U'] + a, {'d': 3})
            add(nm + '-negative', 'iga', nm, [2, 'U'] + a, {'d': -1})
        add('BasisData-q0', 'iga', 'BasisData', [2, 'U'], {'q': 0})
        add('BasisData-q11', 'iga', 'BasisData', [2, 'U'], {'q': 11})
        add('BasisDataCol-none', 'iga', 'BasisDataCol', [2, 'U', 'none'])
        for kw, a in (({}, [0, 2]), ({}, [2, 0]), ({'C': 2}, [2, 2]),
                      ({'C': -1}, [2, 2])):
            add('KnotVector%s%s' % (''.join(map(str, a)), ''.join(
                '%s%d' % x for x in kw.items())), 'iga', 'KnotVector', a, kw)
        return out


# ---------------------------------------------------------------------------
# quadrature rules

DIGITS = 10 ** 40


def legendre(n):
    """coefficients of P_n, lowest first"""
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(2, n + 1):
        c = [Fraction(0)] * (k + 1)
        for i, x in enumerate(b):
            c[i + 1] += Fraction(2 * k - 1, k) * x
        for i, x in enumerate(a):
            c[i] -= Fraction(k - 1, k) * x
        a, b = b, c
    return b


def poly(c, x):
    r = Fraction(0)
    for k in reversed(c):
        r = r * x + k
    return r


def dpoly(c):
    return [i * x for i, x in enumerate(c)][1:]


def roots(c):
    """the real simple roots in (-1, 1), by sign changes and bisection,
    accurate to 1e-35"""
    n = 400
    out = []
    xs = [Fraction(2 * i - n, n) + Fraction(1, 7919) for i in range(n + 1)]
    xs = [max(min(x, Fraction(1)), Fraction(-1)) for x in xs]
    v = [poly(c, x) for x in xs]
    d = dpoly(c)
    for i in range(n):
        if (v[i] < 0) != (v[i + 1] < 0):
            lo, hi, s = xs[i], xs[i + 1], v[i] < 0
            for _ in range(8):
                mid = (lo + hi) / 2
                if (poly(c, mid) < 0) == s:
                    lo = mid
                else:
                    hi = mid
            x = (lo + hi) / 2
            for _ in range(7):
                x = x - poly(c, x) / poly(d, x)
                x = Fraction(round(x * DIGITS), DIGITS)
            out.append(x)
    return out


_rules = {}


def gauss(q):
    if ('g', q) not in _rules:
        c = legendre(q)
        X = roots(c)
        d = dpoly(c)
        W = [2 / ((1 - x * x) * poly(d, x) ** 2) for x in X]
        assert len(X) == q
        _rules['g', q] = X, W
    return _rules['g', q]


def lobatto(q):
    if ('l', q) not in _rules:
        c = legendre(q - 1)
        X = [Fraction(-1)] + roots(dpoly(c)) + [Fraction(1)]
        W = [Fraction(2, q * (q - 1)) / poly(c, x) ** 2 for x in X]
        assert len(X) == q
        _rules['l', q] = X, W
    return _rules['l', q]


def literal(t, got, want, what):
    """a literal of the source against the exact value: equal to the
    precision of the arithmetic it is used in"""
    if got.const is None:
        return t.note(None, what, 'not a literal: %s' % got.rep)
    err = abs(got.const - want)
    return t.ok(err <= Fraction(1, 2 ** 52), what, '%.20f instead of %.20f'
                % (float(got.const), float(want)))


@register
class Quadrature(Prop):
    pid = 'C29'

    def obligations(self):
        obs = []
        for q in range(1, 11):
            obs.append(Ob(self.pid, 'legendre:%d' % q, self.rule(
                'GaussLegendreRule', gauss, q), site=IGA %
                'GaussLegendreRule'))
            obs.append(Ob(self.pid, 'legendre-exactness:%d' % q,
                          self.exact('GaussLegendreRule', q, 2 * q - 1),
                          site=IGA % 'GaussLegendreRule'))
            if q > 1:
                obs.append(Ob(self.pid, 'lobatto:%d' % q, self.rule(
                    'GaussLobattoRule', lobatto, q), site=IGA %
                    'GaussLobattoRule'))
                obs.append(Ob(self.pid, 'lobatto-exactness:%d' % q,
                              self.exact('GaussLobattoRule', q, 2 * q - 3),
                              site=IGA % 'GaussLobattoRule'))
        for nm, q in (('GaussLegendreRule', 0), ('GaussLegendreRule', 11),
                      ('GaussLegendreRule', -1), ('GaussLobattoRule', 1),
                      ('GaussLobattoRule', 11), ('GaussLobattoRule', 0)):
            obs.append(Ob(self.pid, 'rejects:%s:%d' % (nm, q),
                          self.reject(nm, q), site=IGA % nm))
        return obs

    def get(self, t, name, q):
        r = t.c.call(t.c.kernel('iga', name), q)
        if not t.ok(len(r) == 2, 'nodes and weights'):
            return None
        if t.shape(r[0], (q,), 'nodes') is not True or \
           t.shape(r[1], (q,), 'weights') is not True:
            return None
        return vals(r[0]), vals(r[1])

    def rule(self, name, oracle, q):
        def fn(t):
            r = self.get(t, name, q)
            if r is None:
                return
            X, W = oracle(q)
            for i in range(q):
                literal(t, r[0][i], X[i], 'node %d' % i)
                literal(t, r[1][i], W[i], 'weight %d' % i)
        return fn

    def exact(self, name, q, deg):
        """integrates every polynomial of degree 2q-1 (2q-3) exactly, to
        the precision of the literals"""
        def fn(t):
            r = self.get(t, name, q)
            if r is None:
                return
            if any(x.const is None for x in r[0] + r[1]):
                t.note(None, 'literals')
                return
            for d in range(deg + 1):
                v = sum(w.const * x.const ** d for x, w in zip(*r))
                want = Fraction(2, d + 1) if d % 2 == 0 else Fraction(0)
                t.ok(abs(v - want) <= Fraction(1, 2 ** 50),
                     'integral of x^%d' % d, float(v - want))
        return fn

    def reject(self, name, q):
        def fn(t):
            t.raises(lambda: t.c.call(t.c.kernel('iga', name), q),
                     '%d nodes' % q)
        return fn
