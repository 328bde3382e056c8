"""The boundary between Python and the Fortran kernels."""
import itertools
from . import Prop, register
from ..run import Ob
from ..tmpl import *
from ..families import *
from .. import core, pyf, pyinterp as PI, arrays as A
from ..backend import elements
from ..core import Z, simp, PATH

SITE = 'igakit/igalib.pyf %s.%s'
L = PI.PList


def allsubs(c):
    mods, _ = pyf.parse(c.pyftext)
    return [s for d in mods.values() for s in d.values()]


def fz(e, env):
    """integer Fortran expression as a polynomial over `env`"""
    k = e[0]
    if k == 'int':
        return e[1]
    if k == 'par':
        return fz(e[1], env)
    if k == 'neg':
        return simp(Z.c(0) - Z.c(fz(e[1], env)))
    if k == 'var':
        if e[1] not in env:
            raise Unmodelled('extent depends on %s' % e[1])
        return env[e[1]]
    if k == 'bin' and e[1] in '+-*':
        a, b = Z.c(fz(e[2], env)), Z.c(fz(e[3], env))
        return simp(a + b if e[1] == '+' else a - b if e[1] == '-'
                    else a * b)
    if k == 'bin' and e[1] == '**' and isinstance(fz(e[3], env), int):
        return prod([fz(e[2], env)] * fz(e[3], env))
    raise Unmodelled('extent %r' % (e,))


def zeq(a, b):
    d = simp(Z.c(a) - Z.c(b))
    return isinstance(d, int) and d == 0


def prod(xs):
    r = Z.c(1)
    for x in xs:
        r = r * Z.c(x)
    return simp(r)


TYPES = {'integer': ('integer', '4'), 'real': ('real', '8'),
         'logical': ('logical', '4')}


@register
class Abi(Prop):
    pid = 'C26'
    rule = ('argument number, order, type, kind, intent and extents of '
            'every signature in igalib.pyf agree with the subroutine in '
            'igalib.f90; extents are compared as polynomials in the size '
            'arguments')

    def obligations(self):
        from ..run import context
        c = context()
        obs = []
        for s in allsubs(c):
            obs.append(Ob(self.pid, 'signature:%s.%s' % (s.module, s.name),
                          self.signature(s.module, s.name),
                          site=SITE % (s.module, s.name)))
        obs.append(Ob(self.pid, 'precision', self.precision(),
                      site='igakit/igalib.f90'))
        for mod, name, short, full in DEFAULTS:
            for spec in ((2, (3, 1, 3)), (3, (1, 2, 1, 1, 2, 1, 1, 1))):
                obs.append(Ob(self.pid, 'default:%s.%s:%s:%s' % (
                    mod, name, ','.join(sorted(full)), Spec(*spec).id),
                    self.default(mod, name, short, full, spec),
                    site=SITE % (mod, name)))
        for mod, names in USED.items():
            for n in names:
                obs.append(Ob(self.pid, 'provided:%s.%s' % (mod, n),
                              self.provided(mod, n), site=SITE % (mod, n)))
        return obs

    def default(self, mod, name, short, full, spec):
        """leaving optional arguments out means giving `full`"""
        def fn(t):
            s = Spec(*spec)
            U = s.knots('ku')
            u = s.par('u', s.spans()[-1])
            P = block('P', (s.n, 2))
            k = sum(s.mults[:s.spans()[-1] + 1]) - 1
            env = {'p': s.p, 'u': u, 'x': U[k]}

            def args(xs):
                return [{'U': arr(list(U)), 'P': P, 'X': arr([u]), 'k': k}
                        .get(x, env.get(x, x)) if isinstance(x, str) else x
                        for x in xs]

            def kws(d):
                return {a: s.p + b[1] if isinstance(b, tuple) else
                        k if b == 'k' else b for a, b in d.items()}
            f = t.c.kernel(mod, name)
            r0 = t.c.call(f, *args(short))
            r1 = t.c.call(f, *args(short), **kws(full))
            r0, r1 = [list(r) if isinstance(r, (list, tuple)) else [r]
                      for r in (r0, r1)]
            t.ok(len(r0) == len(r1), 'number of results')
            for i, (a, b) in enumerate(zip(r0, r1)):
                if not isinstance(b, Arr):
                    t.eq(a, b, 'result %d' % i)
                    continue
                if t.ok(tuple(a.shape) == tuple(b.shape),
                        'extents of result %d' % i):
                    t.eqs(elements(a), elements(b), 'result %d' % i)
        return fn

    def provided(self, mod, name):
        def fn(t):
            t.ok((mod.lower(), name.lower()) in {
                (s.module.lower(), s.name.lower()) for s in allsubs(t.c)},
                'kernel %s.%s exists' % (mod, name))
        return fn

    def signature(self, mod, name):
        def fn(t):
            s = [x for x in allsubs(t.c)
                 if (x.module, x.name) == (mod, name)][0]
            fw = t.c.B.fw
            u = fw.mods.get(mod.lower()) or fw.mods.get(mod)
            u = u and u.units.get(name.lower())
            if not t.ok(u is not None and u.kind != 'func',
                        'subroutine %s.%s in igalib.f90' % (mod, name)):
                return
            if u.broken is not None:
                raise Unmodelled('%s.%s: %s' % (mod, name, u.broken))
            if not t.ok(len(u.args) == len(s.args), 'number of arguments',
                        '%r in igalib.pyf, %r in igalib.f90'
                        % (s.args, u.args)):
                return
            pe, fe = {}, {}
            for p, f in zip(s.args, u.args):
                v, d = s.vars[p], u.decls.get(f)
                if not t.ok(d is not None, 'declaration of ' + f):
                    return
                if v.dims is None and d.type == 'integer':
                    pe[p] = fe[f] = Z.sym('arg:' + p)
            for d0 in ([u.module.decls] if u.module else []) + [u.decls]:
                for n, d in d0.items():
                    if d.param is not None and d.type == 'integer' and \
                            d.dims is None and d.const:
                        try:
                            fe[n] = fz(d.param, fe)
                        except Unmodelled:
                            pass
            for p, f in zip(s.args, u.args):
                v, d = s.vars[p], u.decls[f]
                lab = 'argument %s/%s' % (p, f)
                m = v.type.replace('kind=', '').replace('(', ' ').replace(
                    ')', '').split()
                t.ok(m[0] == d.type, lab + ': type', '%s, %s'
                     % (v.type, d.type))
                pk = m[1] if len(m) > 1 else None
                t.ok(pk == TYPES[m[0]][1], lab + ': kind in igalib.pyf',
                     v.type)
                fk = d.kind
                if fk is not None:
                    fk = fw.kind_of(fk, u)
                    if fk is None:
                        t.note(None, lab + ': kind ' + d.kind)
                        continue
                t.ok(fk == pk or (fk is None and (d.type, pk) in (
                    ('integer', '4'), ('logical', '4'))),
                    lab + ': kind', '%s, %s' % (pk, fk))
                out = 'out' in v.intents
                inn = s.isin(p) or 'hide' in v.intents and not out
                if out:
                    t.ok(d.intent in ('out', 'inout', None),
                         lab + ': a result the kernel may not set',
                         d.intent)
                elif inn:
                    t.ok(d.intent in ('in', None),
                         lab + ': an argument the kernel may overwrite',
                         d.intent)
                t.ok((v.dims is None) == (d.dims is None), lab + ': rank')
                if v.dims is None or d.dims is None:
                    continue
                ps = [simp(Z.c(pyf.cev(pyf.cexpr(h), dict(pe))) -
                           Z.c(pyf.cev(pyf.cexpr(l), dict(pe))) + Z.c(1))
                      for l, h in v.dims]
                fs = []
                for lo, hi in d.dims:
                    if hi is None:
                        t.note(False, lab + ': assumed shape')
                        return
                    l = fz(lo, fe) if lo is not None else 1
                    fs.append(simp(Z.c(fz(hi, fe)) - Z.c(l) + Z.c(1)))
                if 'c' in v.intents:
                    ps = ps[::-1]
                elif len(ps) > 1:
                    t.note(False, lab + ': C order', 'intent(c) missing')
                if len(ps) == len(fs):
                    for k, (a, b) in enumerate(zip(ps, fs)):
                        t.ok(zeq(a, b), '%s: extent %d' % (lab, k),
                             '%r in igalib.pyf, %r in igalib.f90' % (a, b))
                else:
                    t.ok(zeq(prod(ps), prod(fs)), lab + ': size',
                         '%r in igalib.pyf, %r in igalib.f90' % (ps, fs))
        return fn

    def precision(self):
        """every real variable and result is double precision"""
        def fn(t):
            def visit(u):
                for n, d in u.decls.items():
                    if d.type != 'real':
                        continue
                    k = t.c.B.fw.kind_of(d.kind, u)
                    if k is None and d.kind is not None:
                        t.note(None, 'kind of %s, line %d' % (n, d.line))
                        continue
                    t.ok(k == '8', 'double precision',
                         '%s of %s, line %d' % (n, u.qual(), d.line))
                for x in u.contains.values():
                    visit(x)
            for m in t.c.B.fw.mods.values():
                for u in m.units.values():
                    visit(u)
        return fn


P = ('p', 0)
# what leaving out an optional argument means
DEFAULTS = [
    ('bsp', 'FindMult', 'pUu', {'span': 'k'}),
    ('bsp', 'EvalBasisFuns', 'pUu', {'span': 'k'}),
    ('bsp', 'EvalBasisFunsDers', 'pUu', {'d': P, 'span': 'k'}),
    ('bsp', 'InsertKnot', 'pUPu', {'r': 1}),
    ('bsp', 'RemoveKnot', ['p', 'U', 'P', 'x', 1e-9], {'r': 1}),
    ('bsp', 'Clamp', 'pUP', {'l': True, 'r': True}),
    ('bsp', 'Unclamp', 'pUP', {'C': ('p', -1), 'l': True, 'r': True}),
    ('iga', 'KnotVector', [4, 'p'], {'C': ('p', -1), 'Ui': 0, 'Uf': 1,
                                     'wrap': False}),
    ('iga', 'BasisData', 'pU', {'d': P, 'q': ('p', 1)}),
    ('iga', 'BasisDataCol', 'pUX', {'d': P}),
]
USED = {
    'bsp': ['FindSpan', 'FindMult', 'FindSpanMult', 'EvalBasisFuns',
            'EvalBasisFunsDers', 'SpanIndex', 'Greville', 'InsertKnot',
            'RemoveKnot', 'Clamp', 'Unclamp', 'RefineKnotVector',
            'DegreeElevate', 'Extract'] +
           [n + str(d) for n in ('Evaluate', 'Gradient', 'Hessian',
                                 'ThirdDer', 'FourthDer')
            for d in (1, 2, 3)],
    'iga': ['KnotVector', 'GaussLegendreRule', 'GaussLobattoRule',
            'BasisData', 'BasisDataCol', 'Greville'],
}


# ---------------------------------------------------------------------------

@register
class Memory(Prop):
    pid = 'C25'
    variants = KNOTS
    rule = ('every array access of every kernel on every abstract path is '
            'inside the extents of igalib.pyf, no value is used before it '
            'is set, every element of every result is set, no input is '
            'written')

    def obligations(self):
        obs = []
        fams = [(s, 'quick') for s in QUICK1 + MORE1] + \
            [(s, 'thorough') for s in DEEP1]
        for spec, tier in fams:
            s = Spec(*spec)
            for lab, f in self.curve(s):
                obs.append(Ob(self.pid, '%s:%s' % (lab, s.id),
                              self.mk(f), tier, budget=120, limit=3000,
                              site=SITE % ('bsp', lab.split('-')[0])))
        for specs, tier in all_specs():
            for name in ('Evaluate', 'Gradient', 'Hessian', 'ThirdDer',
                         'FourthDer'):
                deep = name in ('ThirdDer', 'FourthDer')
                if len(specs) == 3 and deep:
                    tier2 = 'thorough'
                else:
                    tier2 = tier
                if len(specs) == 3 and tier == 'thorough' and deep:
                    continue
                for mp in ((0, 1) if name != 'Evaluate' else (0,)):
                    if mp and (name in ('ThirdDer', 'FourthDer')
                               or name == 'Hessian'):
                        continue
                    obs.append(Ob(
                        self.pid, '%s%d-map%d:%s' % (
                            name, len(specs), mp, fid(specs)),
                        self.mk(self.field(specs, name, mp)), tier2,
                        budget=200, site=SITE % ('bsp', '%s%d' % (
                            name, len(specs)))))
        for E, p in itertools.product((1, 2, 4), (1, 2, 3)):
            for C, w in itertools.product(range(p), (False, True)):
                obs.append(Ob(
                    self.pid, 'KnotVector:%d%d%d%d' % (E, p, C, w),
                    self.mk(lambda t, E=E, p=p, C=C, w=w: (
                        'iga', 'KnotVector', [E, p], {'C': C, 'wrap': w})),
                    site=SITE % ('iga', 'KnotVector')))
        for q in range(1, 11):
            for n in ('GaussLegendreRule', 'GaussLobattoRule'):
                if q == 1 and 'Lob' in n:
                    continue
                obs.append(Ob(self.pid, '%s:%d' % (n, q), self.mk(
                    lambda t, q=q, n=n: ('iga', n, [q], {})),
                    site=SITE % ('iga', n)))
        return obs

    def mk(self, f):
        def fn(t):
            mod, name, args, kw = f(t)
            B = t.c.B
            n0, m0 = len(B.unassigned), len(B.modified)
            t.c.call(t.c.kernel(mod, name), *args, **kw)
            t.ok(len(B.unassigned) == n0, 'every result is set',
                 '%s: element %s of %s is not' % tuple(
                     [B.unassigned[-1][i] for i in (0, 2, 1)]
                     if B.unassigned else ['', '', '']))
            t.ok(len(B.modified) == m0, 'inputs are not written',
                 B.modified[-1] if len(B.modified) > m0 else '')
        return fn

    def curve(self, s):
        p, n = s.p, s.n
        out = []

        def add(lab, f):
            out.append((lab, f))
        U = lambda: s.knots('ku')
        P = lambda d=2: block('P', (n, d))
        lo, hi = s.domain()
        spots = [('in%d' % b, b, None) for b in s.spans()] + \
            [('at%d' % i, None, i) for i in range(lo, hi + 1)]

        def at(spot, U):
            lab, b, i = spot
            if b is not None:
                return s.par('u', b)
            return U[sum(s.mults[:i])]
        for spot in spots:
            for name in ('FindSpan', 'FindMult', 'FindSpanMult',
                         'EvalBasisFuns', 'EvalBasisFunsDers'):
                add('%s-%s' % (name, spot[0]),
                    lambda t, name=name, spot=spot: (
                        'bsp', name, [p, arr(U()), at(spot, U())], {}))
            add('Extract-' + spot[0], lambda t, spot=spot: (
                'bsp', 'Extract', [p, arr(U()), P(3), at(spot, U())], {}))
            m = 0 if spot[2] is None else min(s.mults[spot[2]], p)
            for r in sorted({0, 1, p - m}):
                if r + m <= p:
                    add('InsertKnot-%s-%d' % (spot[0], r),
                        lambda t, spot=spot, r=r: (
                            'bsp', 'InsertKnot', [
                                p, arr(U()), P(), at(spot, U()), r], {}))
            if spot[2] is not None and lo < spot[2] < hi and n < 9:
                for r in range(1, m + 1):
                    for tol in (0, 1):
                        add('RemoveKnot-%s-%d-%s' % (
                            spot[0], r, ('zero', 'huge')[tol]),
                            lambda t, spot=spot, r=r, tol=tol: (
                                'bsp', 'RemoveKnot', [
                                    p, arr(U()), P(1), at(spot, U()),
                                    sc_const((-1, 10 ** 9)[tol]), r], {}))
        for l, r in itertools.product((False, True), repeat=2):
            add('Clamp-%d%d' % (l, r), lambda t, l=l, r=r: (
                'bsp', 'Clamp', [p, arr(U()), P(), l, r], {}))
            if s.clamped():
                for C in range(p):
                    add('Unclamp-%d-%d%d' % (C, l, r),
                        lambda t, l=l, r=r, C=C: (
                            'bsp', 'Unclamp', [p, arr(U()), P(), C, l, r],
                            {}))
        ins = [[], [('in', s.spans()[0])], [('in', b) for b in s.spans()],
               [('in', s.spans()[-1])] * p]
        for k, ws in enumerate(ins):
            add('RefineKnotVector-%d' % k, lambda t, ws=ws: (
                'bsp', 'RefineKnotVector', [p, arr(U()), P(), arr(
                    [s.par('u', b) for _, b in ws])], {}))
        if s.clamped():
            for e in (0, 1, 2, 3):
                add('DegreeElevate-%d' % e, lambda t, e=e: (
                    'bsp', 'DegreeElevate', [p, arr(U()), P(), e], {}))
        add('SpanIndex', lambda t: ('bsp', 'SpanIndex', [p, arr(U())], {}))
        add('Greville', lambda t: ('bsp', 'Greville', [p, arr(U())], {}))
        add('IgaGreville', lambda t: ('iga', 'Greville', [p, arr(U())], {}))
        for d in sorted({0, p}):
            add('BasisData-%d' % d, lambda t, d=d: (
                'iga', 'BasisData', [p, arr(U())], {'d': d, 'q': 2}))
            add('BasisDataCol-%d' % d, lambda t, d=d: (
                'iga', 'BasisDataCol', [p, arr(U()), arr(
                    [at(x, U()) for x in spots])], {'d': d}))
        return out

    def field(self, specs, name, mp):
        def f(t):
            S = [Spec(*s) for s in specs]
            shape = tuple(s.n for s in S)
            args = [] if name == 'Evaluate' else [mp]
            for i, s in enumerate(S):
                args += [s.p, arr(s.knots('k' + 'uvw'[i]))]
            if name == 'Evaluate':
                args.append(block('P', shape + (5,)))
            else:
                args.append(hom('C', shape))
                args.append(block('F', shape + (2,)))
            for i, s in enumerate(S):
                U = s.knots('k' + 'uvw'[i])
                us = [s.par('s%d' % i, s.spans()[0])]
                if i == 0 or name == 'Evaluate':
                    us += [U[s.p], U[-s.p - 1]]
                args.append(arr(us))
            return 'bsp', '%s%d' % (name, len(S)), args, {}
        return f
