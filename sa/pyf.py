"""Front end for the f2py signature file and abstract semantics of the
compiled kernels as seen from Python.

The signature file fixes arity, argument order, ranks, extents and the checks
performed at the language boundary; the numerical kernels themselves are
uninterpreted operators here (their Fortran source is analysed separately,
fortran.py), keyed by the value numbers of everything they read."""
import re
from . import core, arrays as A, npmodel as N
from .core import Z, Sc, PATH, Unmodelled, sc, prf, simp
from .arrays import Arr, AbsRaise
from .values import *


class Var(object):
    def __init__(self, name):
        self.name = name
        self.type = None
        self.intents = set()
        self.optional = False
        self.default = None
        self.dims = None
        self.checks = []


class Sub(object):
    def __init__(self, module, name, args):
        self.module = module
        self.name = name
        self.args = args
        self.vars = {}
        self.order = []

    def required(self):
        return [a for a in self.args if self.isin(a) and
                not self.vars[a].optional]

    def optional(self):
        return [a for a in self.args if self.isin(a) and
                self.vars[a].optional]

    def isin(self, a):
        i = self.vars[a].intents
        return 'hide' not in i and not ('out' in i and 'in' not in i)

    def outputs(self):
        return [a for a in self.args if 'out' in self.vars[a].intents]


def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def parse(text):
    """pyf source -> {module: {name: Sub}}"""
    lines = []
    cont = ''
    m = re.search(r"usercode\s*'''(.*?)'''", text, re.S)
    user = m.group(1) if m else ''
    text = re.sub(r"usercode\s*'''.*?'''", '', text, flags=re.S)
    for l in text.split('\n'):
        s = l.strip()
        if s.startswith('!f2py'):
            s = s[5:].strip()
        elif s.startswith('!'):
            continue
        if cont:
            s = cont + s.lstrip('&').strip()
            cont = ''
        if s.endswith('&'):
            cont = s[:-1].strip() + ' '
            continue
        if s:
            lines.append(s)
    mods, mod, sub = {}, None, None
    for s in lines:
        w = s.split()
        lw = [x.lower() for x in w]
        if lw[0] == 'module' and len(w) == 2:
            mod = mods.setdefault(w[1], {})
            modname = w[1]
        elif lw[0] == 'end':
            if len(lw) > 1 and lw[1] == 'subroutine':
                sub = None
        elif lw[0] == 'subroutine':
            m = re.match(r'subroutine\s+(\w+)\s*\((.*)\)', s, re.I)
            sub = Sub(modname, m.group(1), [x.strip() for x in
                                            m.group(2).split(',')])
            mod[sub.name] = sub
        elif sub is not None and '::' in s:
            decl(sub, s)
    for d in mods.values():
        for sb in d.values():
            for a in sb.args:
                if a not in sb.vars:
                    raise Unmodelled('pyf: %s has no declaration in %s'
                                     % (a, sb.name))
    return mods, user


def decl(sub, s):
    left, right = s.split('::', 1)
    attrs = split_top(left)
    typ = re.sub(r'\s+', '', attrs[0].lower())
    for item in split_top(right):
        m = re.match(r'(\w+)\s*(\(.*?\))?\s*(?:=\s*(.*))?$', item)
        if not m:
            raise Unmodelled('pyf declaration %r' % item)
        name, dims, dflt = m.group(1), m.group(2), m.group(3)
        v = sub.vars.get(name)
        if v is None:
            v = sub.vars[name] = Var(name)
            sub.order.append(name)
        v.type = typ
        for a in attrs[1:]:
            al = a.lower()
            if al.startswith('intent'):
                v.intents |= {x.strip() for x in
                              al[al.index('(') + 1:-1].split(',')}
            elif al.startswith('check'):
                v.checks.append(a[a.index('(') + 1:a.rindex(')')])
            elif al == 'optional':
                v.optional = True
        if dims:
            v.dims = []
            for d in split_top(dims[1:-1]):
                if ':' in d:
                    lo, hi = d.split(':')
                else:
                    lo, hi = '1', d
                v.dims.append((lo.strip(), hi.strip()))
        if dflt is not None:
            v.default = dflt.strip()
            if 'hide' not in v.intents:
                v.optional = True


# ---------------------------------------------------------------------------
# C expression evaluation (extents, defaults, checks)

TOK = re.compile(r'\s*(\d+\.\d*|\d+|\w+|&&|\|\||[<>=!]=|[-+*/()<>\[\],!])')


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unmodelled('pyf expression %r' % s)
        out.append(m.group(1))
        i = m.end()
    return out


class CExpr(object):
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0
        self.s = s

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        r = self.peek()
        if x is not None and r != x:
            raise Unmodelled('pyf expression %r' % self.s)
        self.i += 1
        return r

    def parse(self):
        r = self.or_()
        if self.peek() is not None:
            raise Unmodelled('pyf expression %r' % self.s)
        return r

    def or_(self):
        a = self.and_()
        while self.peek() == '||':
            self.take()
            a = ('||', a, self.and_())
        return a

    def and_(self):
        a = self.cmp()
        while self.peek() == '&&':
            self.take()
            a = ('&&', a, self.cmp())
        return a

    def cmp(self):
        a = self.add()
        while self.peek() in ('<', '>', '<=', '>=', '==', '!='):
            o = self.take()
            a = (o, a, self.add())
        return a

    def add(self):
        a = self.mul()
        while self.peek() in ('+', '-'):
            o = self.take()
            a = (o, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.peek() in ('*', '/'):
            o = self.take()
            a = (o, a, self.un())
        return a

    def un(self):
        if self.peek() == '-':
            self.take()
            return ('neg', self.un())
        if self.peek() == '!':
            self.take()
            return ('not', self.un())
        return self.atom()

    def atom(self):
        t = self.take()
        if t == '(':
            r = self.or_()
            self.take(')')
            return r
        if t is None:
            raise Unmodelled('pyf expression %r' % self.s)
        if re.match(r'\d', t):
            return ('num', t)
        if self.peek() == '(':
            self.take()
            args = []
            while self.peek() != ')':
                args.append(self.or_())
                if self.peek() == ',':
                    self.take()
            self.take(')')
            return ('call', t, args)
        if self.peek() == '[':
            self.take()
            r = self.or_()
            self.take(']')
            return ('idx', t, r)
        return ('var', t)


def names_of(e):
    if e[0] == 'var':
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            out |= names_of(x)
        elif isinstance(x, list):
            for y in x:
                out |= names_of(y)
    if e[0] == 'idx':
        out.add(e[1])
    return out


def cev(e, env):
    k = e[0]
    if k == 'num':
        return int(e[1]) if '.' not in e[1] else core.sc(float(e[1]))
    if k == 'var':
        if e[1] not in env:
            raise KeyError(e[1])
        return env[e[1]]
    if k == 'neg':
        return nneg(cev(e[1], env))
    if k == 'not':
        return not truth(cev(e[1], env))
    if k == '&&':
        return truth(cev(e[1], env)) and truth(cev(e[2], env))
    if k == '||':
        return truth(cev(e[1], env)) or truth(cev(e[2], env))
    if k == 'idx':
        a = env[e[1]]
        i = cev(e[2], env)
        return N.unbox(A.getitem(a, (i,)))
    if k == 'call':
        args = [cev(x, env) for x in e[2]]
        if e[1] == 'CountSpans':
            n, p, U = args
            if BACKEND[0] is not None and all(
                    isinstance(simp(x), int) for x in (n, p) + U.shape):
                return BACKEND[0].countspans(simp(n), simp(p), U)
            key = A.operand_key(U)
            if key is None:
                raise Unmodelled('CountSpans of an unknown array')
            return int_symbol(('CountSpans', kz(n), kz(p), key), lb=1,
                              prefix='spans')
        if e[1] == 'len':
            return args[0].shape[0]
        raise Unmodelled('pyf call %s' % e[1])
    a, b = cev(e[1], env), cev(e[2], env)
    if k in ('+', '-', '*'):
        return {'+': nadd, '-': nsub, '*': nmul}[k](a, b)
    if k == '/':
        return nfloordiv(a, b) if both_int(a, b) else ndiv(a, b)
    return {'<': CMP['lt'], '<=': CMP['le'], '>': CMP['gt'],
            '>=': CMP['ge'], '==': CMP['eq'], '!=': CMP['ne']}[k](a, b)


def kz(x):
    return Z.c(x).key() if not isinstance(x, Sc) else x.fp


_ast = {}


def cexpr(s):
    if s not in _ast:
        _ast[s] = CExpr(s).parse()
    return _ast[s]


# ---------------------------------------------------------------------------
# kernel call model

# data operand / result pairs in which the kernel acts independently on every
# component of the trailing ("d") extent: obligation `component-wise` of the
# Fortran analysis
COLUMN = {
    'InsertKnot': ('Pw', 'Qw'), 'RemoveKnot': ('Pw', None),
    'Clamp': ('Pw', 'Qw'), 'Unclamp': ('Pw', 'Qw'),
    'RefineKnotVector': ('Pw', 'Qw'), 'DegreeElevate': ('Pw', 'Qw'),
    'Extract': ('Pw', 'Cw'), 'Evaluate0': ('Pw', 'Cw'),
    'Evaluate1': ('Pw', 'Cw'), 'Evaluate2': ('Pw', 'Cw'),
    'Evaluate3': ('Pw', 'Cw'),
}
for _n in ('Gradient', 'Hessian', 'ThirdDer', 'FourthDer'):
    for _d in '123':
        COLUMN[_n + _d] = ('F', {'Gradient': 'G', 'Hessian': 'H',
                                 'ThirdDer': 'D3', 'FourthDer': 'D4'}[_n])
# sample points: an output row depends on the value of the point only
POINTS = ('X', 'Y', 'Z')
# arguments that only steer the amount of work, not the mathematics
IGNORED = {'RemoveKnot': ('TOL',)}


BACKEND = [None]


class Kernel(object):
    def __init__(self, sub, log):
        self.sub = sub
        self.name = sub.name
        self.log = log

    def abstract_call(self, interp, args, kw):
        return call(self.sub, args, kw, interp.where(), self.log)


def scalar_in(v, typ, name):
    if isinstance(v, Arr):
        if v.size != 1:
            if isinstance(v.size, int) or v.ndim == 0:
                raise AbsRaise('FortranError', 'argument %s: only length-1 '
                               'arrays can be converted' % name)
            raise Unmodelled('scalar argument from an array')
        v = N.unbox(A.reshape(A.copy(v), []))
    if v is None or isinstance(v, (str, list, tuple, dict)):
        raise AbsRaise('TypeError', 'kernel argument %s can\'t be converted'
                       % name)
    if typ.startswith('integer'):
        i = toint(v)
        if i is not None:
            return i
        if isinstance(v, Sc):
            if v.const is not None:
                return int(v.const)
            return int_symbol(('trunc', v.fp))
        raise Unmodelled('integer argument %r' % (v,))
    if typ.startswith('logical'):
        return bool(truth(v))
    return sc(v)


def call(sub, args, kw, where='', log=None):
    req, opt = sub.required(), sub.optional()
    names = req + opt
    if len(args) > len(names):
        raise AbsRaise('TypeError', '%s() takes at most %d arguments (%d '
                       'given)' % (sub.name, len(names), len(args)))
    given = dict(zip(names, args))
    for k, v in kw.items():
        if k in given or k not in names + [a for a in sub.args]:
            raise AbsRaise('TypeError', '%s(): bad keyword %s'
                           % (sub.name, k))
        given[k] = v
    for r in req:
        if r not in given:
            raise AbsRaise('TypeError', '%s() missing argument %s'
                           % (sub.name, r))
    env = {}
    for n in names:
        v = sub.vars[n]
        if n in given and v.dims is None and not (v.optional and
                                                  given[n] is None):
            env[n] = scalar_in(given[n], v.type, n)
    arrays = [n for n in sub.args if n in given and
              sub.vars[n].dims is not None]
    for n in arrays:
        v = sub.vars[n]
        a = given[n]
        if a is None or isinstance(a, str):
            raise AbsRaise('TypeError', 'kernel array argument %s' % n)
        a = N.asarray(a, 'i4' if v.type.startswith('integer') else 'd')
        if a.ndim > len(v.dims):
            key = []
            extra = a.ndim - len(v.dims)
            raise AbsRaise('FortranError', '%s: too many axes: %d (effrank='
                           '%d), expected rank=%d' % (n, a.ndim, a.ndim,
                                                      len(v.dims)))
        while a.ndim < len(v.dims):
            a = A.getitem(a, (Ellipsis, None))
        env[n] = a
    # implied dimensions
    for _ in range(6):
        prog = False
        for n in arrays:
            for k, (lo, hi) in enumerate(sub.vars[n].dims):
                prog |= solve_dim(lo, hi, env, env[n].shape[k])
        for n in sub.args:
            v = sub.vars[n]
            if n not in env and v.default is not None and v.dims is None:
                e = cexpr(v.default)
                if names_of(e) <= set(env):
                    d = cev(e, env)
                    env[n] = bool(d) if v.type.startswith('logical') else d
                    prog = True
        if not prog:
            break
    for n in arrays:
        for k, (lo, hi) in enumerate(sub.vars[n].dims):
            want = nadd(nsub(cev(cexpr(hi), env), cev(cexpr(lo), env)), 1)
            if not PATH.eq(Z.c(want), Z.c(env[n].shape[k])):
                raise AbsRaise('FortranError', '%s: %d-th dimension of %s '
                               'must be %r but got %r' % (
                                   sub.name, k, n, want, env[n].shape[k]))
    for n in sub.order:
        for c in sub.vars[n].checks:
            e = cexpr(c)
            if names_of(e) - {'CountSpans'} <= set(env):
                if not truth(cev(e, env)):
                    raise AbsRaise('FortranError', '(%s) failed for %s'
                                   % (c, sub.name))
    if log is not None:
        log.append((sub.name, where))
    r = None
    if BACKEND[0] is not None and BACKEND[0].concrete(sub, env):
        dims = {}
        for o in sub.args:
            v = sub.vars[o]
            if o not in env and v.dims is not None:
                dims[o] = [simp(nadd(nsub(cev(cexpr(h), env),
                                          cev(cexpr(l), env)), 1))
                           for l, h in v.dims]
        if all(isinstance(s, int) for d in dims.values() for s in d):
            r = BACKEND[0].call(sub, env, dims)
    if r is None:
        r = outputs(sub, env)
    return r[0] if len(r) == 1 else tuple(r)


def solve_dim(lo, hi, env, size):
    e = ('+', ('-', cexpr(hi), cexpr(lo)), ('num', '1'))
    unk = [x for x in names_of(e) if x not in env]
    if len(unk) != 1:
        return False
    u = unk[0]
    e0 = dict(env)
    e0[u] = 0
    try:
        c0 = cev(e, e0)
        e0[u] = 1
        c1 = cev(e, e0)
    except KeyError:
        return False
    if simp(Z.c(c1) - Z.c(c0)) != 1:
        return False
    env[u] = simp(Z.c(size) - Z.c(c0))
    return True


OPNAME = {'Extract': 'Evaluate', 'Evaluate1': 'Evaluate'}


def outputs(sub, env):
    name = sub.name
    ins = [a for a in sub.args if a in env and sub.isin(a)]
    col, res = COLUMN.get(name, (None, None))
    ign = IGNORED.get(name, ())
    npts = [a for a in ins if a in POINTS and col is not None and
            sub.vars[a].dims is not None and name != 'RefineKnotVector']
    base = []
    ok = True
    ops = frozenset([name])
    for a in ins:
        if a == col or a in ign or a in npts:
            continue
        k = A.operand_key(env[a])
        if k is None:
            ok = False
        base.append(k)
        ops = ops | N.opsof(env[a])
    base = tuple(base)
    if name == 'FindMult':
        sp = env.get('span')
        base = base[:-1] if len(base) == 4 else base
        fs = find_span(env, base)
        if toint(sp) != -1 and Z.c(sp) != fs:
            base = base + (kz(sp),)
    if name in ('FindSpan', 'FindMult', 'FindSpanMult'):
        if not ok:
            raise Unmodelled('%s of unknown data' % name)
        p, n = Z.c(env['p']), Z.c(env['m']) - env['p'] - 1
        span = lambda: find_span(env, base[:3])
        mult = lambda: int_symbol(('FindMult',) + base, lb=0, facts=[
            lambda s: p + 1 - s], prefix='mult')
        return {'FindSpan': lambda: [span()], 'FindMult': lambda: [mult()],
                'FindSpanMult': lambda: [span(), mult()]}[name]()
    outs = []
    whole = None
    for o in sub.outputs():
        v = sub.vars[o]
        if v.dims is None:
            key = base
            if col is not None:
                if whole is None:
                    whole = A.operand_key(env[col])
                key = base + (whole,)
            if v.type.startswith('integer'):
                facts = []
                if name == 'RemoveKnot' and o == 't':
                    facts = [lambda t: Z.c(env['r']) - t]
                z = int_symbol((name, o) + key, lb=0, facts=facts,
                               prefix=o)
                outs.append(simp(z))
            else:
                outs.append(Sc(prf((name, o) + key), ops=ops))
            if name == 'RemoveKnot':
                env['_t'] = key
            continue
        shape = [nadd(nsub(cev(cexpr(h), env), cev(cexpr(l), env)), 1)
                 for l, h in v.dims]
        if o == res:
            outs.append(column_out(sub, env, o, shape, base, ok, npts, ops))
        else:
            extra = ()
            if name == 'RemoveKnot':
                # knots and points left depend on the number removed, which
                # depends on the whole net
                if whole is None:
                    whole = A.operand_key(env[col])
                extra = (whole,)
                if o == 'Qw':
                    outs.append(column_out(sub, env, o, shape,
                                           base + extra, ok, npts, ops))
                    continue
            outs.append(plain_out(name, o, shape, base + extra, ok, ops,
                                  v.type.startswith('integer')))
    return outs


def find_span(env, base):
    p, n = Z.c(env['p']), Z.c(env['m']) - env['p'] - 1
    return int_symbol(('FindSpan',) + tuple(base[:3]), lb=0, facts=[
        lambda k: k - p, lambda k: n - k], prefix='span')


def plain_out(name, o, shape, key, ok, ops, integer):
    if not ok:
        return A.fresh(shape, lambda b: core.sc_top(name))

    def f(b):
        b = tuple(PATH.norm(i) for i in b)
        if integer:
            return int_symbol((name, o, key) + tuple(i.key() for i in b),
                              lb=0)
        return Sc(prf((name, o, key) + tuple(i.ev()[:3] for i in b)),
                  ops=ops, rep='%s.%s[%s]' % (name, o, ','.join(
                      repr(i) for i in b)))
    return A.fresh(shape, f, 'i4' if integer else 'f8')


def column_out(sub, env, o, shape, base, ok, npts, ops):
    """result whose trailing data component only depends on the same
    component of the data operand"""
    name = sub.name
    colname = COLUMN[name][0]
    src = A.copy(env[colname])
    nd = len(shape)
    if name in ('Extract', 'Evaluate0'):
        caxis = 0
    elif name.startswith('Evaluate') or not npts:
        caxis = nd - 1
    else:
        caxis = len(npts)
    pts = [env[x] for x in npts]
    prd = [x.reader() for x in pts]
    opn = OPNAME.get(name, name)
    axes = []
    for k in range(nd):
        if k == caxis:
            axes.append([A.Comp(c.size) for c in src.axes[src.ndim - 1]])
        elif k < len(npts):
            axes.append([A.Comp(c.size) for c in pts[k].axes[0]] or
                        [A.Comp(1)])
        else:
            axes.append([A.Comp(shape[k])])
    cache = {}

    def colclass(c):
        key = (id(core._PathProxy.cur), len(core._PathProxy.cur.sub),
               tuple(i.key() for i in c))
        if key not in cache:
            consts = dict(zip(src.axes[src.ndim - 1], c))
            view = Arr(src.buf, A._replace(src.base, {}, consts),
                       src.axes[:-1])
            cache[key] = (A.operand_key(view), N.opsof(view),
                          core._PathProxy.cur)
        return cache[key]

    def f(idx):
        if not ok:
            return core.sc_top(name)
        ck, cops, _ = colclass(idx[caxis])
        if ck is None:
            return core.sc_top(name)
        rest = []
        pops = frozenset()
        for k in range(nd):
            if k == caxis:
                continue
            if k < len(npts):
                x = pts[k]
                i = idx[k] if x.axes[0] else ()
                v = sc(prd[k]((i,)))
                if v.unknown():
                    return core.sc_top(name)
                rest.append(v.fp)
                pops = pops | v.ops
            else:
                z = Z.c(0)
                for c, iv in zip(axes[k], idx[k]):
                    z = z * c.size + iv
                rest.append(PATH.norm(z).ev()[:3])
        if name == 'Extract':
            b, rest = base[:-1], [base[-1][1:]]
        else:
            b = base
        return Sc(prf((opn, o if opn == name else '', b, ck, tuple(rest))),
                  ops=ops | cops | pops,
                  rep='%s.%s[%s]' % (name, o, ','.join(
                      repr(i) for k in range(nd) for i in idx[k])))
    return A.from_axisfn(axes, f, 'f8')


def kernels_module(text, log=None):
    from .pyinterp import Module
    mods, user = parse(text)
    d = {}
    for m, subs in mods.items():
        d[m] = Module('igalib.' + m, {n: Kernel(s, log)
                                      for n, s in subs.items()})
    mod = Module('igakit.igalib', d)
    mod.subs = mods
    mod.user = user
    return mod
