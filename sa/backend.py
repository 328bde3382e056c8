"""Template-mode binding: a Python-level kernel call with concrete extents is
carried through the f2py signature into the abstract interpretation of the
Fortran source (values stay symbolic)."""
import re
from . import core, arrays as A, npmodel as N, f90
from .core import Z, Sc, PATH, Unmodelled, sc, simp
from .arrays import Arr, AbsRaise
from .f90 import FArr, Scalar, UNDEF, FStop, FFault
from .values import *


class KernelFault(Exception):
    """a definite memory/definedness fault inside a kernel"""

    def __init__(self, kernel, what, where):
        Exception.__init__(self, '%s: %s (%s)' % (kernel, what, where))
        self.kernel = kernel
        self.what = what
        self.where = where


class Terminates(Exception):
    """a kernel reaches STOP: the whole Python process ends"""

    def __init__(self, kernel, msg, where):
        Exception.__init__(self, '%s reaches "stop" (%s) at %s'
                           % (kernel, msg, where))
        self.kernel = kernel
        self.msg = msg
        self.where = where


def elements(a, corder=True):
    """elements of an Arr of concrete shape, in memory order"""
    shape = a.shape
    if not all(isinstance(s, int) for s in shape):
        return None
    rd = a.reader()
    out = []
    import itertools
    if corder:
        for ix in itertools.product(*[range(s) for s in shape]):
            out.append(rd(tuple(Z.c(i) for i in ix)))
    else:
        for ix in itertools.product(*[range(s) for s in shape[::-1]]):
            out.append(rd(tuple(Z.c(i) for i in ix[::-1])))
    return out


def from_flat(shape, flat, dtype='f8', corder=True):
    shape = tuple(shape)
    st = [0] * len(shape)
    s = 1
    order = range(len(shape) - 1, -1, -1) if corder else range(len(shape))
    for k in order:
        st[k] = s
        s *= shape[k]

    def content(b):
        off = 0
        for k in range(len(shape)):
            i = PATH.norm(b[k])
            if i.is_const():
                off += int(i.const()) * st[k]
                continue
            for n in range(shape[k] - 1):
                if PATH.eq(i, n):
                    off += n * st[k]
                    break
            else:
                off += (shape[k] - 1) * st[k]
        return flat[off]
    return A.fresh(shape, content, dtype)


FTYPE = {'i': 'integer', 'r': 'real', 'l': 'logical', 'c': 'character'}


class Backend(object):
    def __init__(self, ftext, fname='igakit/igalib.f90', user=''):
        self.user = user
        self._cs = None
        self.fw = f90.FWorld(ftext, fname)
        self.calls = 0
        self.sites = {}
        self.poison = False     # unassigned outputs reported

    def fval(self, v, t):
        if t == 'integer':
            i = toint(v)
            if isinstance(i, int):
                return i
            raise Unmodelled('kernel integer %r' % (v,))
        if t == 'logical':
            return bool(v)
        return sc(v)

    def countspans(self, n, p, U):
        if self._cs is None:
            self._cs = CFun(self.user, 'CountSpans')
        return self._cs.run(n, p, U)

    def concrete(self, sub, env):
        for n in sub.args:
            if n in env:
                v = env[n]
                if isinstance(v, Arr):
                    if not all(isinstance(s, int) for s in v.shape):
                        return False
                elif sub.vars[n].type.startswith('integer'):
                    if not isinstance(toint(v), int):
                        return False
        return True

    def call(self, sub, env, outdims):
        """-> list of outputs in pyf order"""
        args, boxes, ins = [], {}, []
        for n in sub.args:
            v = sub.vars[n]
            t = FTYPE[v.type[0]]
            if v.dims is None:
                if n in env:
                    args.append(Scalar(self.fval(env[n], t), t))
                else:
                    boxes[n] = Scalar(UNDEF, t)
                    args.append(boxes[n])
                continue
            corder = 'c' in v.intents
            if n in env:
                el = [self.fval(x, t) for x in elements(env[n], corder)]
                fa = FArr.of(el, type_=t)
                ins.append((n, fa, el, corder))
                args.append(fa)
            else:
                cnt = 1
                for s in outdims[n]:
                    cnt *= max(s, 0)
                boxes[n] = FArr.new([cnt], type_=t)
                args.append(boxes[n])
        nun = len(self.fw.undef)
        try:
            self.fw.call(sub.module, sub.name, args)
        except FStop as e:
            raise Terminates(sub.name, e.msg, e.where)
        except FFault as e:
            raise KernelFault(sub.name, e.what, e.where)
        self.calls += 1
        for n, fa, el, corder in ins:
            now = list(fa.vals())
            if any(x is not y for x, y in zip(now, el)):
                # the kernel works on the memory of the caller
                self.modified.append((sub.name, n))
                A.write(env[n], from_flat(env[n].shape, now, env[n].dtype,
                                          corder), 'kernel ' + sub.name)
        if len(self.fw.undef) > nun:
            w = self.fw.undef[nun]
            raise KernelFault(sub.name, 'undefined value used: %s' % (w[0],),
                              w[1])
        outs = []
        for o in sub.outputs():
            v = sub.vars[o]
            if v.dims is None:
                x = boxes[o].v
                if x is UNDEF:
                    raise KernelFault(sub.name, 'result %s never assigned'
                                      % o, sub.name)
                outs.append(x)
                continue
            flat = list(boxes[o].vals())
            t = FTYPE[v.type[0]]
            for i, x in enumerate(flat):
                if x is UNDEF:
                    # f2py hands out zero filled storage
                    flat[i] = 0 if t == 'integer' else core.sc_const(0)
                    self.unassigned.append((sub.name, o, i))
            outs.append(from_flat(outdims[o], flat,
                                  'i4' if t == 'integer' else 'f8',
                                  'c' in v.intents))
        return outs

    unassigned = []
    modified = []


# ---------------------------------------------------------------------------
# the C helper embedded in the signature file

CT = re.compile(r'\s*(\d+\.\d*(?:[eE][-+]?\d+)?|\d+|\w+|&&|\|\||\+\+|--|'
                r'[-+*/<>=!]=|[-+*/()<>\[\]{},;=!?:])')


class CFun(object):
    """int/double subset of C: for, while, if, return, assignments"""

    def __init__(self, text, name):
        text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
        text = re.sub(r'//[^\n]*', ' ', text)
        text = re.sub(r'^\s*#.*$', '', text, flags=re.M)
        m = re.search(r'\b%s\s*\(([^)]*)\)\s*\{' % name, text)
        if not m:
            raise Unmodelled('C helper %s' % name)
        self.args = []
        for a in m.group(1).split(','):
            self.args.append(re.findall(r'\w+', a)[-1])
        self.t = []
        i = m.end() - 1
        depth = 0
        while True:
            mm = CT.match(text, i)
            if not mm:
                raise Unmodelled('C helper: %r' % text[i:i + 20])
            tok = mm.group(1)
            self.t.append(tok)
            i = mm.end()
            depth += (tok == '{') - (tok == '}')
            if depth == 0:
                break
        self.i = 0
        self.body = self.stmt()

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def tk(self, x=None):
        r = self.pk()
        if x is not None and r != x:
            raise Unmodelled('C helper: expected %r, got %r' % (x, r))
        self.i += 1
        return r

    def stmt(self):
        t = self.pk()
        if t == '{':
            self.tk()
            b = []
            while self.pk() != '}':
                b.append(self.stmt())
            self.tk()
            return ('block', b)
        if t == ';':
            self.tk()
            return ('block', [])
        if t in ('int', 'double', 'const', 'unsigned', 'long'):
            while self.pk() in ('int', 'double', 'const', 'unsigned', 'long'):
                self.tk()
            b = []
            while True:
                n = self.tk()
                if self.pk() == '=':
                    self.tk()
                    b.append(('expr', ('=', ('var', n), self.assign())))
                else:
                    b.append(('decl', n))
                if self.pk() == ',':
                    self.tk()
                    continue
                self.tk(';')
                return ('block', b)
        if t == 'for':
            self.tk()
            self.tk('(')
            a = None
            if self.pk() in ('int', 'double'):
                a = self.stmt()
            else:
                if self.pk() != ';':
                    a = ('expr', self.expr())
                self.tk(';')
            c = None if self.pk() == ';' else self.expr()
            self.tk(';')
            s = None if self.pk() == ')' else ('expr', self.expr())
            self.tk(')')
            return ('for', a, c, s, self.stmt())
        if t == 'while':
            self.tk()
            self.tk('(')
            c = self.expr()
            self.tk(')')
            return ('for', None, c, None, self.stmt())
        if t == 'if':
            self.tk()
            self.tk('(')
            c = self.expr()
            self.tk(')')
            a = self.stmt()
            b = None
            if self.pk() == 'else':
                self.tk()
                b = self.stmt()
            return ('if', c, a, b)
        if t == 'return':
            self.tk()
            e = self.expr()
            self.tk(';')
            return ('return', e)
        if t in ('break', 'continue'):
            self.tk()
            self.tk(';')
            return (t,)
        e = self.expr()
        self.tk(';')
        return ('expr', e)

    def expr(self):
        e = self.assign()
        while self.pk() == ',':
            self.tk()
            e = (',', e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        if self.pk() in ('=', '+=', '-=', '*='):
            o = self.tk()
            r = self.assign()
            if o == '=':
                return ('=', e, r)
            return ('=', e, (o[0], e, r))
        return e

    def cond(self):
        e = self.bin(0)
        if self.pk() == '?':
            self.tk()
            a = self.assign()
            self.tk(':')
            return ('?', e, a, self.cond())
        return e

    LV = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='),
          ('+', '-'), ('*', '/')]

    def bin(self, k):
        if k == len(self.LV):
            return self.un()
        e = self.bin(k + 1)
        while self.pk() in self.LV[k]:
            o = self.tk()
            e = (o, e, self.bin(k + 1))
        return e

    def un(self):
        t = self.pk()
        if t in ('-', '!', '+'):
            self.tk()
            return ('u' + t, self.un())
        if t in ('++', '--'):
            self.tk()
            v = self.un()
            return ('=', v, (t[0], v, ('num', 1)))
        if t == '(' and self.pk(1) in ('int', 'double') and \
           self.pk(2) == ')':
            self.tk(), self.tk(), self.tk()
            return self.un()
        e = self.prim()
        while self.pk() in ('++', '--', '['):
            o = self.tk()
            if o == '[':
                i = self.expr()
                self.tk(']')
                e = ('idx', e, i)
            else:
                e = ('post', e, o[0])
        return e

    def prim(self):
        t = self.tk()
        if t == '(':
            e = self.expr()
            self.tk(')')
            return e
        if re.match(r'\d', t):
            return ('num', int(t) if t.isdigit() else sc(float(t)))
        if self.pk() == '(':
            self.tk()
            a = []
            while self.pk() != ')':
                a.append(self.assign())
                if self.pk() == ',':
                    self.tk()
            self.tk(')')
            return ('call', t, a)
        return ('var', t)

    # evaluation
    class Ret(Exception):
        pass

    class Brk(Exception):
        pass

    class Cnt(Exception):
        pass

    def run(self, *args):
        env = dict(zip(self.args, args))
        self.steps = 0
        try:
            self.ex(self.body, env)
        except CFun.Ret as e:
            return e.args[0]
        raise Unmodelled('C helper returns nothing')

    def ex(self, s, env):
        self.steps += 1
        if self.steps > 100000:
            raise Unmodelled('C helper does not terminate')
        k = s[0]
        if k == 'block':
            for x in s[1]:
                self.ex(x, env)
        elif k == 'decl':
            env[s[1]] = UNDEF
        elif k == 'expr':
            self.ev(s[1], env)
        elif k == 'if':
            if self.tr(self.ev(s[1], env)):
                self.ex(s[2], env)
            elif s[3]:
                self.ex(s[3], env)
        elif k == 'for':
            if s[1]:
                self.ex(s[1], env)
            while s[2] is None or self.tr(self.ev(s[2], env)):
                try:
                    self.ex(s[4], env)
                except CFun.Brk:
                    break
                except CFun.Cnt:
                    pass
                if s[3]:
                    self.ex(s[3], env)
                self.steps += 1
                if self.steps > 100000:
                    raise Unmodelled('C helper does not terminate')
        elif k == 'return':
            raise CFun.Ret(self.ev(s[1], env))
        elif k == 'break':
            raise CFun.Brk()
        elif k == 'continue':
            raise CFun.Cnt()

    def tr(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        return truth(v)

    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'var':
            if e[1] not in env:
                if e[1] == 'DBL_EPSILON':
                    return f90.eps_value()
                raise Unmodelled('C helper: %s' % e[1])
            v = env[e[1]]
            if v is UNDEF:
                raise KernelFault('C helper', '%s used before assignment'
                                  % e[1], 'igalib.pyf')
            return v
        if k == 'idx':
            a, i = self.ev(e[1], env), self.ev(e[2], env)
            n = a.shape[0]
            if isinstance(i, int) and isinstance(n, int) and \
               not 0 <= i < n:
                raise KernelFault('C helper', 'index %d outside [0,%d)'
                                  % (i, n), 'igalib.pyf')
            return N.unbox(A.getitem(a, (i,)))
        if k == '=':
            v = self.ev(e[2], env)
            if e[1][0] != 'var':
                raise Unmodelled('C helper: store')
            env[e[1][1]] = v
            return v
        if k == 'post':
            v = self.ev(e[1], env)
            env[e[1][1]] = v + (1 if e[2] == '+' else -1)
            return v
        if k == ',':
            self.ev(e[1], env)
            return self.ev(e[2], env)
        if k == '?':
            return self.ev(e[2] if self.tr(self.ev(e[1], env)) else e[3],
                           env)
        if k == '&&':
            return self.tr(self.ev(e[1], env)) and self.tr(self.ev(e[2], env))
        if k == '||':
            return self.tr(self.ev(e[1], env)) or self.tr(self.ev(e[2], env))
        if k == 'u!':
            return not self.tr(self.ev(e[1], env))
        if k == 'u-':
            return nneg(self.ev(e[1], env))
        if k == 'u+':
            return self.ev(e[1], env)
        if k == 'call':
            a = [self.ev(x, env) for x in e[2]]
            if e[1] in ('fabs', 'abs'):
                return f90._abs(a[0])
            raise Unmodelled('C helper calls %s' % e[1])
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        if k in ('+', '-', '*'):
            return {'+': nadd, '-': nsub, '*': nmul}[k](a, b)
        if k == '/':
            return f90.idiv(a, b) if both_int(a, b) else ndiv(a, b)
        op = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq',
              '!=': 'ne'}[k]
        return f90.relop(op, a, b)
