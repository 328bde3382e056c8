"""Abstract interpreter for the Python modules of the analysed package.

The interpreter walks the syntax tree of the *current* source; it never
imports or runs the package.  Values are abstract (core.py / arrays.py);
branches on unknown data fork the abstract path; constructs outside the
model raise Unmodelled (no verdict)."""
import ast
import os
import sys
from fractions import Fraction
from . import core, arrays as A, npmodel as N, octets
from .core import (Z, Sc, PATH, Unmodelled, Infeasible, sc, sc_const, sc_top,
                   simp, isint, _PathProxy)
from .arrays import Arr, AbsRaise
from .values import *
from .npmodel import SymList, SymSeq

sys.setrecursionlimit(30000)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Leave(Exception):
    """return, break or continue out of the block of a with statement, on
    its way through the generator of the context manager"""

    def __init__(self, e):
        self.e = e


class Manager(object):
    """context manager: run(body) enters, calls body(value) and leaves"""

    def __init__(self, run):
        self.run = run


class ManagerGen(object):
    """takes the yield of a generator used as a context manager"""

    def __init__(self, body):
        self.body = body
        self.n = 0

    def append(self, v):
        self.n += 1
        if self.n > 1:
            raise AbsRaise('RuntimeError', "generator didn't stop")
        try:
            self.body(v)
        except (Return, Break, Continue) as e:
            raise Leave(e)


def manager(f):
    """contextlib.contextmanager"""
    if not (isinstance(f, Func) and f.is_gen):
        raise Unmodelled('contextmanager')

    def make(*a, **k):
        def run(body):
            h = ManagerGen(body)
            try:
                I().callfunc(f, list(a), dict(k), h)
            except Leave as e:
                raise e.e
            if h.n == 0:
                raise AbsRaise('RuntimeError', "generator didn't yield")
        return Manager(run)
    return Builtin(f.name, make)


def closing(x):
    def run(body):
        try:
            body(x)
        finally:
            I().call(I().getattr(x, 'close'), [], {})
    return Manager(run)


def suppress(*excs):
    def run(body):
        try:
            body(None)
        except AbsRaise as e:
            if not any(exc_isa(e.exc, getattr(x, 'name', '')) for x in excs):
                raise
    return Manager(run)


def nullcontext(x=None, **kw):
    return Manager(lambda body: body(x))


class Continue(Exception):
    pass


class Poison(object):
    def __init__(self, why):
        self.why = why


class PList(list):
    """list display; `sym` is set when a symbolic loop appended to it"""
    sym = None


class Iter(object):
    """an iterator; consumed by iteration"""

    def __init__(self, items, inf=False, pick=None):
        self.it = iter(items)
        self.inf = inf              # does not end
        self.pick = pick            # item as a function of a symbolic index

    def take(self):
        if self.inf:
            raise Unmodelled('whole of an endless iterator')
        return list(self.it)


class NTuple(tuple):
    """named tuple"""
    fields = ()


class DefDict(dict):
    factory = None


class ScKey(object):
    """a real number as the key of a dict or the item of a set"""

    def __init__(self, sc):
        self.sc = sc

    def __eq__(self, other):
        return isinstance(other, ScKey) and other.sc.fp == self.sc.fp

    def __hash__(self):
        return hash(self.sc.fp)

    def __repr__(self):
        return self.sc.rep


def unkey(k):
    if isinstance(k, ScKey):
        return k.sc
    if isinstance(k, tuple):
        return tuple(unkey(x) for x in k)
    return k


# names numpy 2 no longer has
GONE = set('float int complex object str product round_ alltrue sometrue '
           'cumproduct float_ complex_ Inf NaN infty Infinity PINF NINF mat '
           'msort asfarray find_common_type cast obj2sctype unicode_ string_ '
           'singlecomplex longfloat set_string_function'.split())


class Module(object):
    def __init__(self, name, attrs=None, missing='AttributeError'):
        self.name = name
        self.d = attrs if attrs is not None else {}
        self.missing = missing

    def get(self, n):
        if n in self.d:
            return self.d[n]
        if self.missing == 'opaque':
            return Opaque('%s.%s' % (self.name, n))
        if self.name == 'numpy' and n in GONE:
            raise AbsRaise('AttributeError', "module 'numpy' has no "
                           "attribute '%s'" % n)
        if self.missing == 'unmodelled':
            raise Unmodelled('%s.%s' % (self.name, n))
        raise AbsRaise('AttributeError', "module '%s' has no attribute '%s'"
                       % (self.name, n))


class Opaque(object):
    def __init__(self, name):
        self.name = name


class Flags(Opaque):
    def __init__(self, a):
        Opaque.__init__(self, 'flags')
        self.a = a

    def abstract_getattr(self, n):
        a, n = self.a, n.lower()
        if n in ('c_contiguous', 'contiguous', 'f_contiguous', 'fortran',
                 'fnc', 'forc'):
            m = a.memory_order()
            if m is None:
                raise Unmodelled('memory order of an array')
            if a.buf.layout and m != sorted(m):
                c, f = False, m == sorted(m)[::-1]
            else:
                c, f = a.contig, A.transpose(a).contig
            return {'c': c, 'f': f}[n[0]] if n[:2] in ('c_', 'f_', 'co') \
                else c or f if n == 'forc' else f and not c
        if n == 'writeable':
            return a.buf.owner != 'readonly'
        raise Unmodelled('ndarray.flags.' + n)

    def abstract_getitem(self, k):
        return self.abstract_getattr({'C': 'c_contiguous', 'W': 'writeable',
                                      'F': 'f_contiguous'}.get(k, k))


class PyClass(object):
    def __init__(self, name, bases, d, module):
        self.name = name
        self.bases = bases
        self.d = d
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.d:
                return c.d[n]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class ExcClass(object):
    """builtin exception type"""
    def __init__(self, name):
        self.name = name


EXC_BASES = {
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception',
    'IOError': 'OSError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception',
    'UnicodeError': 'ValueError', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'EOFError': 'Exception',
    'LinAlgError': 'ValueError', 'FortranError': 'Exception',
    'UFuncTypeError': 'TypeError', 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'Warning': 'Exception', 'DeprecationWarning': 'Warning',
    'UserWarning': 'Warning', 'FileNotFoundError': 'OSError',
}


def exc_isa(name, base):
    while name is not None:
        if name == base or (base == 'IOError' and name == 'OSError'):
            return True
        name = EXC_BASES.get(name)
    return False


class Inst(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<%s object>' % getattr(self.cls, 'name', self.cls)


class Func(object):
    owner = None

    def __init__(self, name, args, body, env, module, is_lambda=False,
                 defaults=(), kwdefaults=(), node=None):
        self.name = name
        self.args = args
        self.body = body
        self.env = env
        self.module = module
        self.is_lambda = is_lambda
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.node = node
        self.is_gen = False
        if not is_lambda:
            self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                              for b in body for n in walk_own(b))


def walk_own(node):
    """walk without descending into nested functions"""
    todo = [node]
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        return
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda,
                                  ast.ClassDef)):
                todo.append(c)


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, interp, n):
        obj = self.obj
        mro = (obj.cls if isinstance(obj, Inst) else obj).mro()
        for c in mro[mro.index(self.cls) + 1:]:
            if n in c.d:
                d = c.d[n]
                if isinstance(d, Static):
                    return d.f
                if isinstance(d, ClsMethod):
                    return Bound(d.f, obj.cls if isinstance(obj, Inst)
                                 else obj)
                if isinstance(d, Prop):
                    return interp.call(Bound(d.fget, obj), [], {})
                return Bound(d, obj) if isinstance(obj, Inst) else d
        if n == '__init__':
            return Builtin('__init__', lambda *a: None)
        raise Unmodelled('super().%s' % n)


class Bound(object):
    def __init__(self, f, obj):
        self.f = f
        self.obj = obj


class Builtin(object):
    def __init__(self, name, fn, types=None, dtype_name=None):
        self.name = name
        self.fn = fn
        self.types = types
        self.dtype_name = dtype_name
        self.attrs_ = None

    @property
    def attrs(self):
        raise AttributeError('attrs')

    @attrs.setter
    def attrs(self, v):
        self.attrs_ = v


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class Static(object):
    def __init__(self, f):
        self.f = f


class ClsMethod(object):
    def __init__(self, f):
        self.f = f


class SStr(object):
    """string with symbolic parts"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)


class Flat(object):
    def __init__(self, a):
        self.a = a


class RangeV(object):
    """range object with concrete bounds is a python range; symbolic ones
    are SymSeq"""


class Env(object):
    __slots__ = ('d', 'parent', 'glob', 'nonlocals', 'globals_', 'is_class',
                 'func')

    def __init__(self, parent=None, glob=None, is_class=False):
        self.d = {}
        self.is_class = is_class
        self.parent = parent
        self.glob = glob
        self.nonlocals = set()
        self.globals_ = set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        raise KeyError(n)

    def set(self, n, v):
        if n in self.globals_:
            self.glob[n] = v
            return
        if n in self.nonlocals:
            e = self.parent
            while e is not None:
                if n in e.d:
                    e.d[n] = v
                    return
                e = e.parent
        self.d[n] = v


class FileObj(object):
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.closed = False
        self.out = []        # written segments
        self.inp = []        # remaining segments
        self.nops = 0

    def op(self, what):
        if self.closed:
            raise AbsRaise('ValueError', 'I/O operation on closed file')
        self.nops += 1
        hook = getattr(_top_path(), 'fault', None)
        if hook is not None:
            hook(self, what)


def _top_path():
    p = _PathProxy.cur
    while getattr(p, 'parent', None) is not None:
        p = p.parent
    return p


class World(object):
    """parsed sources of the package + module objects"""

    def __init__(self, repo, kernels=None, package='igakit'):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.sources = {}
        self.kernels = kernels     # Module for igalib
        self.extra = {}
        self.interp = Interp(self)

    def path(self, name):
        return os.path.join(self.repo, *name.split('.')) + '.py'

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.package + '.igalib':
            if self.kernels is None:
                raise Unmodelled('igalib')
            self.modules[name] = self.kernels
            return self.kernels
        if name == self.package:
            m = Module(name, {})
            m.pkg = True
            self.modules[name] = m
            return m
        f = self.path(name)
        if name.startswith(self.package + '.') and os.path.exists(f):
            src = open(f).read()
            try:
                tree = ast.parse(src, f)
            except SyntaxError as e:
                raise Unmodelled('%s does not parse: %s' % (name, e))
            m = Module(name, {'__name__': name})
            m.file = os.path.relpath(f, self.repo)
            m.tree = tree
            self.modules[name] = m
            env = Env(None, m.d)
            env.d = m.d
            old = self.interp.cur
            self.interp.cur = (m, '<module>')
            try:
                self.interp.block(tree.body, env)
            finally:
                self.interp.cur = old
            return m
        if name.startswith(self.package + '.'):
            raise AbsRaise('ImportError', 'No module named ' + name)
        if name in self.extra:
            return self.extra[name]
        return external(name)


def external(name):
    if name == 'numpy':
        return NUMPY
    if name == 'numpy.linalg':
        return NUMPY.d['linalg']
    if name == 'math':
        return MATH
    if name == 'itertools':
        return ITERTOOLS
    if name in ('functools', 'operator', 'warnings', 'os', 'sys', 'struct',
                'contextlib', 'collections', '__future__', 'copy', 'numbers',
                'io', 'typing', 'bisect'):
        return EXT.get(name) or Module(name, {}, 'unmodelled')
    return Module(name, {}, 'opaque')


class Interp(object):
    def __init__(self, world):
        self.world = world
        self.cur = (None, '')
        self.line = 0
        self.stack = []
        self.steps = 0
        self.visited = set()       # (module, function) analysed

    # ---- locations
    def where(self):
        m, f = self.cur
        return '%s:%s in %s' % (getattr(m, 'file', '?'), self.line, f)

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s.lineno
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unmodelled('statement %s at %s' % (type(s).__name__,
                                                     self.where()))
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = None if s.value.value is None else self.ev(s.value.value, env)
            env.get('$yield').append(v)
            return
        if isinstance(s.value, ast.YieldFrom):
            env.get('$yield').extend(self.concrete(self.ev(
                s.value.value, env)))
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            m = self.world.load(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                top = a.name.split('.')[0]
                env.set(top, self.world.load(top) if '.' in a.name else m)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            base = self.cur[0].name.split('.')
            base = base[:len(base) - s.level]
            name = '.'.join(base + ([name] if name else []))
        mod = self.world.load(name)
        for a in s.names:
            if a.name == '*':
                for k, v in mod.d.items():
                    if not k.startswith('_'):
                        env.set(k, v)
                continue
            if getattr(mod, 'pkg', False) and a.name not in mod.d:
                v = self.world.load(name + '.' + a.name)
            else:
                try:
                    v = self.getattr(mod, a.name)
                except AbsRaise:
                    raise AbsRaise('ImportError', 'cannot import ' + a.name)
            env.set(a.asname or a.name, v)

    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        env.set(s.name, f)

    def mkfunc(self, s, env):
        a = s.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, env) for d in a.kw_defaults]
        cls = getattr(self, 'clsname', None)
        name = s.name if not cls else '%s.%s' % (cls, s.name)
        if env.is_class:
            env = env.parent       # class scopes do not enclose functions
        return Func(name, a, s.body, env, self.cur[0], False, defaults,
                    kwd, s)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name):
            if d.id == 'property':
                return Prop(f)
            if d.id == 'staticmethod':
                return Static(f)
            if d.id == 'classmethod':
                return ClsMethod(f)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter'):
            p = self.ev(d.value, env)
            if isinstance(p, Prop):
                return Prop(p.fget, f) if d.attr == 'setter' \
                    else Prop(f, p.fset)
        return self.call(self.ev(d, env), [f], {})

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        e = Env(env, env.glob, True)
        old = getattr(self, 'clsname', None)
        self.clsname = s.name
        try:
            self.block(s.body, e)
        finally:
            self.clsname = old
        c = PyClass(s.name, bases, e.d, self.cur[0])
        for f in e.d.values():
            for g in (f, getattr(f, 'f', None), getattr(f, 'fget', None),
                      getattr(f, 'fset', None)):
                if isinstance(g, Func) and g.owner is None:
                    g.owner = c
        if s.decorator_list:
            raise Unmodelled('class decorator')
        env.set(s.name, c)

    def s_Return(self, s, env):
        raise Return(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(
                ast.Name(t.id, ast.Load()), t), env)
            env_v = self.inplace(op, old, self.ev(s.value, env))
            env.set(t.id, env_v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old,
                                                 self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.index(t.slice, env)
            old = self.subscript(o, k)
            v = self.ev(s.value, env)
            new = self.inplace(op, old, v)
            if isinstance(o, Arr) and isinstance(old, Arr) and \
               new is old and old.buf is o.buf:
                return          # the view was updated in place
            self.setitem(o, k, new)
        else:
            raise Unmodelled('augmented assignment')

    def inplace(self, op, old, v):
        if isinstance(old, Poison):
            raise Unmodelled(old.why)
        if isinstance(old, Arr) and op != 'matmul':
            if isinstance(v, Inst):
                v = N.toarr(v)
            return N.iop(op, old, v, self.where())
        if isinstance(old, list) and op == 'add':
            if (isinstance(old, PList) and old.sym is not None):
                raise Unmodelled('extend a symbolic list')
            old.extend(self.concrete(v))
            return old
        return self.binop(op, old, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.index(t.slice, env)
                if isinstance(o, list) and getattr(o, 'sym', None) is None:
                    try:
                        if isinstance(k, slice):
                            del o[slice(*[None if x is None else
                                          self.cint(x) for x in
                                          (k.start, k.stop, k.step)])]
                        else:
                            del o[self.cint(k)]
                    except IndexError:
                        raise AbsRaise('IndexError', 'list assignment index')
                elif isinstance(o, dict):
                    if k not in o:
                        raise AbsRaise('KeyError', repr(k))
                    del o[k]
                elif isinstance(o, (tuple, str, int)) or o is None:
                    raise AbsRaise('TypeError', 'item deletion')
                else:
                    raise Unmodelled('del')
            elif isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            else:
                raise Unmodelled('del')

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (
                    c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            w = self.ev(p.value, env)
            if isinstance(v, Arr) or isinstance(v, Inst):
                raise Unmodelled('pattern on an object')
            if isinstance(w, str) != isinstance(v, str) or v is None:
                return False
            return self.truth(self.compare(ast.Eq(), v, w))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value or isinstance(v, bool) and \
                isinstance(p.value, bool) and v == p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name is not None:
                env.set(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, range):
                v = list(v)
            if not isinstance(v, (list, tuple)):
                return False
            if getattr(v, 'sym', None) is not None:
                raise Unmodelled('pattern on a symbolic list')
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star and len(v) != n or star and len(v) < n - 1:
                return False
            if not star:
                return all(self.pattern(q, x, env)
                           for q, x in zip(p.patterns, v))
            k = star[0]
            e = len(v) - (n - 1 - k)
            if not all(self.pattern(q, x, env) for q, x in zip(
                    p.patterns[:k] + p.patterns[k + 1:],
                    list(v[:k]) + list(v[e:]))):
                return False
            if p.patterns[k].name is not None:
                env.set(p.patterns[k].name, PList(v[k:e]))
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not b_isinstance(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, Builtin) and \
                        c.name in ('int', 'float', 'str', 'list', 'tuple',
                                   'bool', 'dict'):
                    return self.pattern(p.patterns[0], v, env)
                raise Unmodelled('positional class pattern')
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr(v, n):
                    return False
                if not self.pattern(q, self.getattr(v, n), env):
                    return False
            return True
        raise Unmodelled('pattern %s' % type(p).__name__)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.line = s.lineno
            raise AbsRaise('AssertionError', 'assert %s at %s' % (
                ast.unparse(s.test), self.where()))

    def s_Raise(self, s, env):
        if s.exc is None:
            e = getattr(self, 'handling', None)
            if e is None:
                raise AbsRaise('RuntimeError', 'no active exception')
            raise e
        v = self.ev(s.exc, env)
        if isinstance(v, (ExcClass, PyClass)):
            raise AbsRaise(v.name, 'raise at %s' % self.where())
        if isinstance(v, Inst):
            c = v.cls
            e = AbsRaise(getattr(c, 'name', str(c)), 'raise at %s'
                         % self.where())
            e.inst = v
            raise e
        raise Unmodelled('raise')

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except AbsRaise as e:
                for h in s.handlers:
                    if self.matches(e, h.type, env):
                        old = getattr(self, 'handling', None)
                        self.handling = e
                        if h.name:
                            v = getattr(e, 'inst', None)
                            if v is None:
                                v = Inst(ExcClass(e.exc))
                            env.set(h.name, v)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (AbsRaise, Return, Break, Continue, Leave):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def matches(self, e, t, env):
        if t is None:
            return True
        v = self.ev(t, env)
        for x in (v if isinstance(v, tuple) else (v,)):
            n = getattr(x, 'name', None)
            if n is None:
                raise Unmodelled('except clause')
            if exc_isa(e.exc, n):
                return True
        return False

    def s_With(self, s, env):
        def nest(k):
            if k == len(s.items):
                self.block(s.body, env)
                return
            it = s.items[k]
            v = self.ev(it.context_expr, env)

            def body(x):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, x, env)
                nest(k + 1)
            if isinstance(v, FileObj):
                if v.closed:
                    raise AbsRaise('ValueError', 'I/O on a closed file')
                try:
                    body(v)
                finally:
                    v.closed = True
            elif isinstance(v, Manager):
                v.run(body)
            elif isinstance(v, Inst):
                x = self.call(self.getattr(v, '__enter__'), [], {})
                leave = self.getattr(v, '__exit__')
                try:
                    body(x)
                except AbsRaise as e:
                    o = getattr(e, 'inst', None) or Inst(ExcClass(e.exc))
                    if self.truth(self.call(leave, [o.cls, o, None], {})):
                        return
                    raise
                except (Return, Break, Continue):
                    self.call(leave, [None, None, None], {})
                    raise
                self.call(leave, [None, None, None], {})
            else:
                raise Unmodelled('with')
        nest(0)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 60:
                raise Unmodelled('while loop at %s does not unroll'
                                 % self.where())
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = lazy(self.ev(s.iter, env))
        if isinstance(it, SymSeq):
            if s.orelse:
                raise Unmodelled('for-else')
            return self.symloop(s, it, env)
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, env)

    # ---- loops of symbolic extent, summarised as a parallel "forall"
    def symloop(self, s, seq, env):
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, (ast.Break, ast.Return, ast.Continue,
                              ast.Yield)):
                raise Unmodelled('control flow in a symbolic loop')
        sizes = seq.sizes or [seq.size]
        if any(PATH.norm(Z.c(x)).is_const() and PATH.norm(Z.c(x)).const() == 0
               for x in sizes):
            return
        for x in sizes:
            if not PATH.ge0(Z.c(x) - 1):
                return

        def item(idx):
            if seq.sizes is not None:
                return tuple(simp(i) for i in idx)
            return seq.item(idx[0])

        where = self.where()
        # generic iteration: discover the effects
        gen = []
        for x in sizes:
            i = PATH.fresh('@L', 0)
            PATH.facts.append(Z.c(x) - 1 - i)
            gen.append(i)
        names = [str(list(g.syms())[0]) for g in gen]
        frame = self.snapshot_env(env)
        lists = self.reachable_lists(env)
        lens = [(l, len(l)) for l in lists]
        marker = A.Buf([], lambda b: None).id     # buffers newer are local
        ev0 = len(PATH.events)
        before = {}

        def run(idx):
            self.assign(s.target, item(idx), env)
            self.block(s.body, env)
        nd = len(_PathProxy.cur.taken)
        pre_contents = {}
        run_state = {'first': True}
        old_write = A.write

        def rec_write(tgt, value, where=''):
            if tgt.buf.id < marker and tgt.buf not in pre_contents:
                pre_contents[tgt.buf] = (tgt.buf.content, tgt.buf.nwrites)
            return old_write(tgt, value, where)
        A.write = rec_write
        try:
            run(gen)
        finally:
            A.write = old_write
        for c, m, label in _PathProxy.cur.taken[nd:]:
            if any(n in label for n in names):
                raise Unmodelled('iteration dependent branch in the loop at '
                                 + where)
        writes = {}
        for e in PATH.events[ev0:]:
            if e[0] != 'write':
                raise Unmodelled('effect in a symbolic loop')
            if e[1].id < marker:
                if e[1] not in pre_contents:
                    raise Unmodelled('untracked write in a symbolic loop')
                writes.setdefault(e[1], []).append(e[3])
        for b, (cont, nw) in pre_contents.items():
            b.content = cont
        appended = []
        for l, n0 in lens:
            if len(l) != n0:
                if len(l) != n0 + 1 or n0 != 0 or not isinstance(l, PList):
                    raise Unmodelled('list growth in a symbolic loop')
                del l[n0:]
                appended.append(l)
        poison = Poison('variable set in the loop at ' + where)
        post = self.snapshot_env(env)
        for (e, k), v in post.items():
            if (e, k) not in frame or frame[(e, k)] is not v:
                e.d[k] = poison
        saved = self.snapshot_env(env)
        cur = self.cur
        writes = dict(writes)

        def guard(buf, tgts, idx, cont):
            """pre-loop content; reading another iteration's region is a
            loop carried dependence"""
            def g(b):
                for t in tgts:
                    sol = self.loop_solve(t, gen, names, sizes, b)
                    if sol is None:
                        continue
                    for x, y in zip(sol, idx):
                        if PATH.norm(Z.c(x) - Z.c(y)) != 0:
                            raise Unmodelled('loop carried dependence at '
                                             + where)
                return cont(b)
            return A.memo(g)

        def replay(idx, want):
            """run one iteration from the pre-loop state"""
            keep = {b: (b.content, b.nwrites) for b in writes}
            ev = list(PATH.events)
            oldcur, oldline = self.cur, self.line
            here = self.snapshot_env(env)
            for (e, k), v in frame.items():
                e.d[k] = v
            syms = [(l, l.sym) for l in appended]
            for l in appended:
                l.sym = None
            try:
                self.cur = cur
                for b in writes:
                    b.content = guard(b, writes[b], idx, pre_contents[b][0])
                run(idx)
                return want()
            finally:
                for b in keep:
                    b.content, b.nwrites = keep[b]
                del PATH.events[:]
                PATH.events.extend(ev)
                self.cur, self.line = oldcur, oldline
                for (e, k), v in self.snapshot_env(env).items():
                    if (e, k) not in here:
                        del e.d[k]
                for (e, k), v in here.items():
                    e.d[k] = v
                for l, sm in syms:
                    del l[:]
                    l.sym = sm

        # loop carried dependences show up when reading the generic
        # iteration's results; check them eagerly once
        for b, tgts in writes.items():
            pre = pre_contents[b][0]

            def new(bi, b=b, tgts=tgts, pre=pre):
                sol = None
                for t in tgts:
                    sol = self.loop_solve(t, gen, names, sizes, bi)
                    if sol is not None:
                        break
                if sol is None:
                    return pre(bi)
                return replay(sol, lambda: b.content(bi))
            b.content = A.memo(new)
            b.nwrites += 1
        for l in appended:
            if len(sizes) != 1:
                raise Unmodelled('append in a nested symbolic loop')
            l.sym = SymList(sizes[0], lambda i, l=l: replay(
                [i], lambda: l[0]))

    def loop_solve(self, tgt, gen, names, sizes, b):
        """iteration indices whose write to `tgt` covers base index b"""
        comps = [A.Comp(x) for x in sizes]
        base = []
        for c, terms in tgt.base:
            c = PATH.norm(c)
            extra = []
            for nme, comp in zip(names, comps):
                z = Z.sym(nme)
                c0 = c.subst({nme: Z.c(0)})
                step = c.subst({nme: Z.c(1)}) - c0
                if nme in c0.syms() or nme in step.syms() or \
                   (c - c0 - step * z) != 0:
                    raise Unmodelled('non affine write in a loop')
                if step != 0:
                    extra.append((step, comp))
                c = c0
            base.append((c, tuple(terms) + tuple(extra)))
        for c, terms in base:
            for st, comp in terms:
                if PATH.norm(comp.size).syms() & set(names):
                    raise Unmodelled('iteration dependent extent')
        v = Arr(tgt.buf, base, list(tgt.axes) + [(c,) for c in comps])
        env = A.solve(v, b)
        if env is None:
            return None
        for c in comps:
            if c not in env:
                raise Unmodelled('every iteration writes the same element')
        return [env[c] for c in comps]

    def snapshot_env(self, env):
        d = {}
        e = env
        while e is not None and e.parent is not None or e is env:
            for k, v in e.d.items():
                d[(e, k)] = v
            e = e.parent
            if e is None:
                break
        return d

    def reachable_lists(self, env):
        out = []
        for (e, k), v in self.snapshot_env(env).items():
            if isinstance(v, list) and not any(v is x for x in out):
                out.append(v)
        return out

    # ---- iteration
    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            if (isinstance(v, PList) and v.sym is not None):
                return SymSeq(v.sym.size, v.sym.item)
            return list(v)
        if isinstance(v, Iter):
            return v.take()
        if isinstance(v, Flat):
            return N.flat_terms(v.a) if N.flat_terms(v.a) is not None \
                else Unm('iterate flat')
        if isinstance(v, range):
            return list(v)
        if isinstance(v, dict):
            return [unkey(k) for k in v]
        if isinstance(v, (set, frozenset)):
            if all(isinstance(x, int) for x in v):
                return sorted(v)
            return [unkey(k) for k in sorted(v, key=repr)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymSeq):
            if v.sizes is None:
                n = simp(v.size)
                if isinstance(n, int) and n <= 64:
                    return [v.item(Z.c(i)) for i in range(n)]
            return v
        if isinstance(v, SymList):
            return self.iterate(SymSeq(v.size, v.item))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise('TypeError', 'iteration over a 0-d array')
            n = v.shape[0]
            if isinstance(n, int) and n <= 64:
                return [N.item0(v, i) for i in range(n)]
            return SymSeq(n, lambda i: N.unbox(A.getitem(v, (simp(i),))))
        if isinstance(v, FileObj):
            raise Unmodelled('iterate a file')
        if v is None or isinstance(v, (int, bool, Sc, Z)):
            raise AbsRaise('TypeError', 'object is not iterable')
        if isinstance(v, Inst):
            f = v.cls.lookup('__iter__') if isinstance(v.cls, PyClass) \
                else None
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            raise AbsRaise('TypeError', 'object is not iterable')
        raise Unmodelled('iterate %r' % (type(v).__name__,))

    def concrete(self, v):
        it = self.iterate(v)
        if isinstance(it, SymSeq):
            raise Unmodelled('symbolic iteration')
        return it

    # ---- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if isinstance(v, Arr) and v.ndim > 0:
                n = v.shape[0]
                if not isinstance(n, int):
                    if star:
                        raise Unmodelled('starred unpacking')
                    if not PATH.eq(Z.c(n), len(t.elts)):
                        raise AbsRaise('ValueError', 'unpack')
                    items = [N.item0(v, i) for i in range(len(t.elts))]
                else:
                    items = [N.item0(v, i) for i in range(n)]
            else:
                items = self.concrete(v)
            if star:
                i = star[0]
                k = len(t.elts) - 1
                if len(items) < k:
                    raise AbsRaise('ValueError', 'not enough values')
                tail = k - i
                items = items[:i] + [PList(items[i:len(items) - tail])] + \
                    items[len(items) - tail:]
            if len(items) != len(t.elts):
                raise AbsRaise('ValueError', 'cannot unpack %d values into '
                               '%d at %s' % (len(items), len(t.elts),
                                             self.where()))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e,
                            x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.index(t.slice, env), v)
        else:
            raise Unmodelled('assignment target')

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            if isinstance(v, SStr):
                raise Unmodelled('store')
            N.setitem(o, k, self.arrval(v), self.where())
        elif isinstance(o, list):
            if (isinstance(o, PList) and o.sym is not None):
                raise Unmodelled('store in a symbolic list')
            if isinstance(k, slice):
                o[self.cslice(k)] = self.concrete(v)
                return
            try:
                o[self.cint(k)] = v
            except IndexError:
                raise AbsRaise('IndexError', 'list assignment index out of '
                               'range')
        elif isinstance(o, dict):
            o[self.hashable(k)] = v
        elif isinstance(o, Flat):
            a = o.a
            if not a.contig:
                raise Unmodelled('.flat of a non contiguous array')
            flat = A.reshape(a, [a.size])
            N.setitem(flat, k, self.arrval(v), self.where())
        elif isinstance(o, tuple):
            raise AbsRaise('TypeError', 'tuple does not support assignment')
        elif isinstance(o, Inst):
            self.call(self.getattr(o, '__setitem__'), [k, v], {})
        else:
            if o is None or isinstance(o, str):
                raise AbsRaise('TypeError', 'object does not support item '
                               'assignment')
            raise Unmodelled('store into %r' % (type(o).__name__,))

    def arrval(self, v):
        if isinstance(v, Inst):
            return N.toarr(v)
        if isinstance(v, list) and (isinstance(v, PList) and v.sym is not None):
            return N.toarr(v.sym)
        if isinstance(v, range):
            return N.toarr(list(v))
        if isinstance(v, Iter):
            raise Unmodelled('array of an iterator')
        return v

    def hashable(self, k):
        if isinstance(k, Arr) and k.ndim == 0:
            k = N.unbox(k)
        if isinstance(k, Z):
            k = simp(PATH.norm(k))
        if isinstance(k, Sc):
            i = toint(k)
            return i if isinstance(i, int) else ScKey(k)
        if isinstance(k, (list, dict, set, Arr)):
            raise AbsRaise('TypeError', 'unhashable')
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        return k

    def cint(self, k):
        i = toint(k)
        if i is None:
            if isinstance(k, (Sc, str, type(None), tuple, list)):
                raise AbsRaise('TypeError', 'indices must be integers')
            raise Unmodelled('index %r' % (k,))
        if not isinstance(i, int):
            raise Unmodelled('symbolic index %r of a python sequence' % (i,))
        return i

    def cslice(self, k):
        return slice(*[None if x is None else self.cint(x)
                       for x in (k.start, k.stop, k.step)])

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            d = o.cls.lookup(n) if isinstance(o.cls, PyClass) else None
            if isinstance(d, Prop):
                if d.fset is None:
                    raise AbsRaise('AttributeError', 'can\'t set ' + n)
                self.call(Bound(d.fset, o), [v], {})
                return
            if isinstance(o.cls, PyClass) and o.cls.lookup('__setattr__'):
                raise Unmodelled('__setattr__')
            o.attrs[n] = v
        elif isinstance(o, Arr):
            if n == 'shape':
                if isinstance(v, (int, Z)):
                    v = (v,)
                v = list(v)
                if not o.contig and not N.empty(o):
                    raise AbsRaise('AttributeError', 'incompatible shape for '
                                   'a non-contiguous array')
                r = N.reshape(o, tuple(v))
                if r.buf is not o.buf and not N.empty(o):
                    raise AbsRaise('AttributeError', 'incompatible shape')
                o.buf = r.buf
                PATH.events.append(('shape', o, self.where(), None))
                o.base, o.axes = r.base, r.axes
            elif n == 'flat':
                A.write(o, N.reshape(npextra.resize(v, o.shape), o.shape)
                        if isinstance(v, (Arr, list, tuple)) else v,
                        self.where())
            else:
                raise Unmodelled('set array.%s' % n)
        elif isinstance(o, PyClass):
            o.d[n] = v
        elif isinstance(o, Module):
            o.d[n] = v
        elif isinstance(o, Func) and n in ('__name__', '__doc__'):
            if n == '__name__':
                o.name = v
        else:
            raise Unmodelled('set attribute %s' % n)

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unmodelled('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v == int(v) if abs(v) < 1e15 else False:
                return sc_const(int(v))
            return sc(v)
        if isinstance(v, bytes):
            return v.decode('latin-1')
        return v

    def e_Name(self, e, env):
        try:
            v = env.get(e.id)
        except KeyError:
            if e.id in BUILTINS:
                return BUILTINS[e.id]
            if e.id in EXC_BASES or e.id == 'BaseException':
                return ExcClass(e.id)
            m = self.cur[0]
            if m is not None and e.id in m.d:
                return m.d[e.id]
            raise AbsRaise('NameError', "name '%s' is not defined at %s"
                           % (e.id, self.where()))
        if isinstance(v, Poison):
            raise Unmodelled(v.why)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return PList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.hashable(x) for x in self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.subscript(self.ev(e.value, env), self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.concrete(self.ev(x.value, env)))
                else:
                    out.append(self.index(x, env))
            return tuple(out)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env)
                           for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.index(e, env)

    def e_Starred(self, e, env):
        raise Unmodelled('starred')

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env))
                       else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Inst):
                return self.call(self.getattr(v, '__neg__'), [], {})
            return N.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return N.invert(v)

    def e_BinOp(self, e, env):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left, env),
                          self.ev(e.right, env))

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unmodelled(x.why)
            if isinstance(x, (Opaque, FileObj, Module)):
                raise Unmodelled('arithmetic on %s' % type(x).__name__)
        if isinstance(a, Inst) and isinstance(a.cls, PyClass):
            f = a.cls.lookup(DUNDER.get(op, '__%s__' % op))
            if f is not None:
                return self.call(Bound(f, a), [b], {})
            if a.cls.lookup('__array__') and isinstance(b, Arr):
                return self.binop(op, N.toarr(a), b)
            raise AbsRaise('TypeError', 'unsupported operand')
        if isinstance(b, Inst):
            if isinstance(a, Arr):
                return self.binop(op, a, N.toarr(b))
            raise AbsRaise('TypeError', 'unsupported operand')
        if op == 'add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                for x in (a, b):
                    if (isinstance(x, PList) and x.sym is not None):
                        raise Unmodelled('concatenate symbolic lists')
                return PList(list(a) + list(b))
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return mkstr(parts(a) + parts(b))
            if octets.isbytes(a) and octets.isbytes(b):
                return octets.PBytes(octets.segs(a) + octets.segs(b))
            if isinstance(a, (list, tuple, str)) and not isinstance(b, Arr) \
                    or isinstance(b, (list, tuple, str)) and \
                    not isinstance(a, Arr):
                raise AbsRaise('TypeError', 'cannot concatenate')
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple, str)) and \
                   not isinstance(y, Arr):
                    n = toint(y)
                    if n is None or isinstance(y, Sc):
                        raise AbsRaise('TypeError', 'sequence repeat')
                    if not isinstance(n, int):
                        if isinstance(x, (list, tuple)) and len(x) == 1:
                            l = PList()
                            l.sym = SymList(n, lambda i, v=x[0]: v)
                            return l
                        raise Unmodelled('symbolic repeat')
                    r = x * n
                    return PList(r) if isinstance(x, list) else r
        if op == 'mod' and isinstance(a, (str, SStr)):
            return fmt_mod(a, b)
        if op == 'matmul':
            return N.matmul(N.toarr(a), N.toarr(b))
        if a is None or b is None or isinstance(a, (str, dict)) or \
           isinstance(b, (str, dict)):
            raise AbsRaise('TypeError', 'unsupported operand type(s) for %s '
                           'at %s' % (op, self.where()))
        if isinstance(a, range):
            a = list(a)
        if isinstance(b, range):
            b = list(b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set,
                                                              frozenset)):
            return {'or': a | b, 'and': a & b, 'sub': a - b}[op]
        return N.binop(op, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(right, env)
            res = self.compare(op, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unmodelled(x.why)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same_object(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        name = CMPOPS[type(op)]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or \
               isinstance(b, str):
                if name in ('eq', 'ne'):
                    raise Unmodelled('array compared with None')
                raise AbsRaise('TypeError', 'comparison')
            return N.binop(name, a, b)
        if name in ('eq', 'ne'):
            r = self.equal(a, b)
            return r if name == 'eq' else not r
        if isinstance(a, str) and isinstance(b, str):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b,
                    'ge': a >= b}[name]
        if not isnum(a) or not isnum(b):
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                lt = {'lt': (a, b, False), 'ge': (a, b, True),
                      'gt': (b, a, False), 'le': (b, a, True)}[name]
                return lt_any(self, lt[0], lt[1]) != lt[2]
            if isinstance(a, (set, frozenset)) and \
               isinstance(b, (set, frozenset)):
                return {'lt': a < b, 'le': a <= b, 'gt': a > b,
                        'ge': a >= b}[name]
            raise AbsRaise('TypeError', 'unorderable at %s' % self.where())
        return CMP[name](a, b)

    def same_object(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, (Inst, list, dict, Arr, PyClass, Module, Func,
                          Builtin)):
            return a is b
        if a is Ellipsis or b is Ellipsis:
            return a is b
        if isinstance(a, DType) and isinstance(b, DType):
            return a == b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        raise Unmodelled('identity')

    def equal(self, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.truth(N.binop('eq', a, b))
        if isinstance(a, range):
            a = list(a)
        if isinstance(b, range):
            b = list(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if getattr(a, 'sym', None) or getattr(b, 'sym', None):
                raise Unmodelled('symbolic list equality')
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.equal(x, y):
                    return False
            return True
        if isnum(a) and isnum(b):
            return neq(a, b)
        if isinstance(a, DType) or isinstance(b, DType):
            if isinstance(a, (str, Builtin)):
                a = DType(dtype_code(a))
            if isinstance(b, (str, Builtin)):
                b = DType(dtype_code(b))
            if isinstance(a, DType) and isinstance(b, DType):
                return a.code.lstrip('=<|') == b.code.lstrip('=<|')
            return False
        if isinstance(a, SStr) or isinstance(b, SStr):
            raise Unmodelled('symbolic string equality')
        if isinstance(a, Inst) and isinstance(a.cls, PyClass) and \
           a.cls.lookup('__eq__'):
            return self.truth(self.call(Bound(a.cls.lookup('__eq__'), a),
                                        [b], {}))
        if isinstance(a, (str, type(None), bool, dict, set, frozenset)) or \
           isinstance(b, (str, type(None), bool, dict, set, frozenset)):
            if type(a) is type(b) or a is None or b is None:
                return a == b
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, (str,)):
            if isinstance(x, str):
                return x in c
            raise Unmodelled('in')
        if isinstance(c, Arr):
            t = N.flat_terms(c)
            if t is None:
                raise Unmodelled('in array')
            c = t
        if isinstance(c, (set, frozenset)) and self.hashable(x) in c:
            return True
        it = lazy(c)
        if isinstance(it, SymSeq):
            raise Unmodelled('symbolic iteration')
        for y in it:
            if y is x:
                return True
            if self.equal(x, y):
                return True
        return False

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unmodelled(v.why)
        if isinstance(v, (str, list, tuple, dict, set, frozenset, range)):
            if (isinstance(v, PList) and v.sym is not None):
                return not PATH.eq(v.sym.size, 0)
            return len(v) > 0
        if isinstance(v, SymList):
            return not PATH.eq(v.size, 0)
        if isinstance(v, SStr):
            return True
        if isinstance(v, octets.PBytes):
            return not PATH.eq(octets.size(v), 0)
        if isinstance(v, Inst):
            if isinstance(v.cls, PyClass):
                for n in ('__bool__', '__len__'):
                    f = v.cls.lookup(n)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (PyClass, Func, Bound, Builtin, Module, DType,
                          FileObj, ExcClass, slice)):
            return True
        if isinstance(v, Opaque):
            if hasattr(v, 'abstract_truth'):
                return v.abstract_truth()
            raise Unmodelled('truth of %s' % v.name)
        return truth(v)

    def e_Lambda(self, e, env):
        defaults = [self.ev(d, env) for d in e.args.defaults]
        kwd = [None if d is None else self.ev(d, env)
               for d in e.args.kw_defaults]
        return Func('<lambda>', e.args, e.body, env, self.cur[0], True,
                    defaults, kwd, e)

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_GeneratorExp(self, e, env):
        outer = Env(env, env.glob)
        first = lazy(self.ev(e.generators[0].iter, outer))
        if isinstance(first, SymSeq):
            return self.comp(e, env, lambda en: self.ev(e.elt, en))
        cur = self.cur

        def gen(k, en, it):
            g = e.generators[k]
            for x in it:
                en2 = Env(en, env.glob)
                old, self.cur = self.cur, cur
                try:
                    self.assign(g.target, x, en2)
                    ok = all(self.truth(self.ev(c, en2)) for c in g.ifs)
                    if not ok:
                        continue
                    if k + 1 < len(e.generators):
                        sub = lazy(self.ev(e.generators[k + 1].iter, en2))
                        if isinstance(sub, SymSeq):
                            raise Unmodelled('symbolic comprehension')
                    else:
                        v = self.ev(e.elt, en2)
                finally:
                    self.cur = old
                if k + 1 < len(e.generators):
                    for y in gen(k + 1, en2, sub):
                        yield y
                else:
                    yield v
        return Iter(gen(0, outer, first))

    def e_SetComp(self, e, env):
        return set(self.hashable(x) for x in self.comp(
            e, env, lambda en: self.ev(e.elt, en)))

    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda en: (self.hashable(self.ev(e.key, en)),
                                          self.ev(e.value, en)))
        if r.sym is not None:
            raise Unmodelled('symbolic dict')
        return dict(r)

    def comp(self, e, env, f):
        out = PList()
        outer = Env(env, env.glob)

        def rec(k, en):
            if k == len(e.generators):
                out.append(f(en))
                return
            g = e.generators[k]
            it = self.iterate(self.ev(g.iter, en))
            if isinstance(it, SymSeq):
                if len(e.generators) != 1 or g.ifs:
                    raise Unmodelled('symbolic comprehension')
                cur = self.cur

                def item(i):
                    en2 = Env(env, env.glob)
                    x = it.item(i) if it.sizes is None else None
                    if it.sizes is not None:
                        raise Unmodelled('ndindex comprehension')
                    old = self.cur
                    self.cur = cur
                    try:
                        self.assign(g.target, x, en2)
                        return f(en2)
                    finally:
                        self.cur = old
                out.sym = SymList(it.size, item)
                return
            for x in it:
                en2 = Env(en, env.glob)
                self.assign(g.target, x, en2)
                if all(self.truth(self.ev(c, en2)) for c in g.ifs):
                    rec(k + 1, en2)
        rec(0, outer)
        return out

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    s = self.e_JoinedStr(v.format_spec, env)
                    if not isinstance(s, str):
                        raise Unmodelled('format spec')
                    spec = s
                out.extend(fmt_one(spec or 's', x))
        return mkstr(out)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    # ---- attribute access
    def getattr(self, o, n):
        if isinstance(o, Poison):
            raise Unmodelled(o.why)
        if isinstance(o, Inst):
            if isinstance(o.cls, PyClass):
                d = o.cls.lookup(n)
                if isinstance(d, Prop):
                    return self.call(Bound(d.fget, o), [], {})
                if n in o.attrs:
                    return o.attrs[n]
                if d is not None:
                    if isinstance(d, Func):
                        return Bound(d, o)
                    if isinstance(d, Static):
                        return d.f
                    if isinstance(d, ClsMethod):
                        return Bound(d.f, o.cls)
                    return d
                if n == '__class__':
                    return o.cls
                if n == '__dict__':
                    return o.attrs
                g = o.cls.lookup('__getattr__')
                if g is not None:
                    return self.call(Bound(g, o), [n], {})
            elif n in o.attrs:
                return o.attrs[n]
            raise AbsRaise('AttributeError', '%r has no attribute %s at %s'
                           % (o, n, self.where()))
        if isinstance(o, PyClass):
            if n == '__new__':
                return Builtin('__new__', lambda c, *a, **k: Inst(c))
            if n == '__name__':
                return o.name
            d = o.lookup(n)
            if d is None:
                raise AbsRaise('AttributeError', '%s.%s' % (o.name, n))
            if isinstance(d, Static):
                return d.f
            if isinstance(d, ClsMethod):
                return Bound(d.f, o)
            return d
        if isinstance(o, Module):
            if getattr(o, 'pkg', False) and n not in o.d:
                return self.world.load(o.name + '.' + n)
            return o.get(n)
        if isinstance(o, Opaque):
            if hasattr(o, 'abstract_getattr'):
                return o.abstract_getattr(n)
            return Opaque(o.name + '.' + n)
        if isinstance(o, Builtin) and n == '__new__' and o.name == 'object':
            return Builtin('__new__', lambda c, *a, **k: Inst(c))
        if isinstance(o, Builtin) and o.attrs_ and n in o.attrs_:
            return o.attrs_[n]
        if isinstance(o, Builtin) and n == '__name__':
            return o.name.split('.')[-1]
        if isinstance(o, Super):
            return o.get(self, n)
        if isinstance(o, NTuple) and n in o.fields:
            return o[o.fields.index(n)]
        if isinstance(o, (Arr, Sc, int, Z, bool)) and not isinstance(o, str):
            return arr_attr(self, o, n)
        if isinstance(o, Func) and n in ('__name__', '__doc__'):
            return o.name.split('.')[-1] if n == '__name__' else None
        f = METHODS.get(type(o), {}).get(n)
        if f is None:
            for t, d in METHODS.items():
                if isinstance(o, t) and n in d:
                    f = d[n]
                    break
        if f is not None:
            if isinstance(f, Prop):
                return f.fget(self, o)
            return Builtin('%s.%s' % (type(o).__name__, n),
                           lambda *a, **k: f(self, o, *a, **k))
        if isinstance(o, (list, tuple, dict, str, set, slice, type(None),
                          FileObj, DType, Masked)):
            if n.startswith('__') or isinstance(o, Masked):
                raise Unmodelled('attribute %s' % n)
            if KNOWN_ATTRS.get(type(o)) and n in KNOWN_ATTRS[type(o)]:
                raise Unmodelled('%s.%s' % (type(o).__name__, n))
            raise AbsRaise('AttributeError', '%s has no attribute %s at %s'
                           % (type(o).__name__, n, self.where()))
        raise Unmodelled('attribute %s of %s' % (n, type(o).__name__))

    def hasattr(self, o, n):
        try:
            self.getattr(o, n)
            return True
        except AbsRaise as e:
            if exc_isa(e.exc, 'AttributeError'):
                return False
            raise

    # ---- subscripts
    def arrkey(self, k):
        return tuple(x if isinstance(x, (slice, str)) else self.arrval(x)
                     for x in (k if isinstance(k, tuple) else (k,)))

    def subscript(self, o, k):
        if isinstance(o, Arr):
            if isinstance(k, list) and (isinstance(k, PList) and k.sym is not None):
                k = k.sym
            if isinstance(k, tuple):
                k = tuple(x.sym if (isinstance(x, PList) and x.sym is not None) else
                          (list(x) if isinstance(x, range) else x)
                          for x in k)
            if isinstance(k, range):
                k = list(k)
            if isinstance(k, str):
                raise AbsRaise('IndexError', 'only integers')
            return N.get(o, k)
        if isinstance(o, (list, tuple, str, range)):
            s = getattr(o, 'sym', None)
            if s is not None:
                if isinstance(k, slice):
                    st, step, ln = A.slice_params(slice(
                        *[A._asint(x) for x in (k.start, k.stop, k.step)]),
                        s.size)
                    r = PList()
                    r.sym = SymList(ln, lambda i: s.item(st + step * i))
                    return r
                i = toint(k)
                if i is None:
                    raise Unmodelled('index')
                return s.item(A.norm_index(i, s.size))
            if isinstance(k, slice):
                r = o[self.cslice(k)]
                return PList(r) if isinstance(o, list) else r
            if not isinstance(k, (int, bool)):
                i = toint(k)
                if isinstance(i, Z):
                    # symbolic position in a concrete sequence
                    i = A.norm_index(i, len(o))
                    for j in range(len(o)):
                        if PATH.eq(i, j):
                            return o[j]
                    raise Infeasible()
                if i is None:
                    if isinstance(k, (Sc, str, type(None), tuple, list)):
                        raise AbsRaise('TypeError', 'indices must be '
                                       'integers at %s' % self.where())
                    raise Unmodelled('index %r' % (k,))
                k = i
            try:
                return o[k]
            except IndexError:
                raise AbsRaise('IndexError', '%s index out of range at %s'
                               % (type(o).__name__, self.where()))
        if isinstance(o, dict):
            k = self.hashable(k)
            if k not in o:
                if isinstance(o, DefDict) and o.factory is not None:
                    o[k] = self.call(o.factory, [], {})
                    return o[k]
                raise AbsRaise('KeyError', repr(k))
            return o[k]
        if isinstance(o, Flat):
            a = o.a
            src = a if a.contig else A.copy(a)
            return N.get(A.reshape(src, [a.size]), k)
        if isinstance(o, (SymList,)):
            i = toint(k)
            return o.item(A.norm_index(i, o.size))
        if isinstance(o, Builtin) and o.name in ('ogrid', 'mgrid'):
            return N.ogrid_item(k, mesh=o.name == 'mgrid')
        if isinstance(o, Builtin) and o.name == 'r_':
            return npextra.r_item(self.arrkey(k))
        if isinstance(o, Builtin) and o.name == 'c_':
            return npextra.c_item(self.arrkey(k))
        if isinstance(o, Builtin) and o.name in ('s_', 'index_exp'):
            return k if o.name == 's_' or isinstance(k, tuple) else (k,)
        if isinstance(o, Inst):
            return self.call(self.getattr(o, '__getitem__'), [k], {})
        if isinstance(o, Sc):
            if k == () or k is Ellipsis:
                return o
            return N.get(N.toarr(o), k)
        if o is None or isinstance(o, (int, bool)):
            raise AbsRaise('TypeError', 'not subscriptable at %s'
                           % self.where())
        if hasattr(o, 'abstract_getitem'):
            return o.abstract_getitem(k)
        raise Unmodelled('subscript of %s' % type(o).__name__)

    # ---- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args.extend(self.concrete(v))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Unmodelled('** of a non dict')
                for x, y in d.items():
                    if x in kw:
                        raise AbsRaise('TypeError', 'multiple values')
                    kw[x] = y
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        if isinstance(f, Builtin) and f.name == 'super':
            return self.super(args, env)
        if isinstance(f, Builtin) and f.name == 'locals':
            raise Unmodelled('locals()')
        return self.call(f, args, kw)

    def super(self, args, env):
        if args:
            return Super(args[0], args[1])
        fn = None
        while env is not None:
            fn = getattr(env, 'func', None)
            if fn is not None and fn.owner is not None:
                break
            env = env.parent
        else:
            raise Unmodelled('super() outside a method')
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        return Super(fn.owner, env.get(names[0]))

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, Builtin):
            try:
                return f.fn(*args, **kw)
            except TypeError as e:
                import traceback
                tb = traceback.extract_tb(sys.exc_info()[2])
                raise Unmodelled('call of %s: %s [%s:%d]' % (
                    f.name, e, os.path.basename(tb[-1].filename),
                    tb[-1].lineno))
        if isinstance(f, PyClass):
            new = f.lookup('__new__')
            if new is not None:
                raise Unmodelled('__new__')
            o = Inst(f)
            init = f.lookup('__init__')
            if init is not None:
                self.call(Bound(init, o), args, kw)
            elif args or kw:
                raise AbsRaise('TypeError', '%s() takes no arguments'
                               % f.name)
            return o
        if isinstance(f, ExcClass):
            o = Inst(f)
            o.attrs['args'] = tuple(args)
            return o
        if isinstance(f, Inst):
            if isinstance(f.cls, PyClass):
                c = f.cls.lookup('__call__')
                if c is not None:
                    return self.call(Bound(c, f), args, kw)
            raise AbsRaise('TypeError', 'object is not callable')
        if isinstance(f, DType):
            raise Unmodelled('dtype call')
        if isinstance(f, (Static,)):
            return self.call(f.f, args, kw)
        if hasattr(f, 'abstract_call'):
            return f.abstract_call(self, args, kw)
        if isinstance(f, Opaque):
            raise Unmodelled('call of %s' % f.name)
        if f is None or isinstance(f, (int, Sc, Arr, str, tuple, list)):
            raise AbsRaise('TypeError', 'object is not callable at %s'
                           % self.where())
        raise Unmodelled('call of %s' % type(f).__name__)

    def callfunc(self, f, args, kw, sink=None):
        env = Env(f.env, f.module.d if f.module else None)
        env.func = f
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        npos = len(names)
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        if len(args) > npos:
            if a.vararg is None:
                raise AbsRaise('TypeError', '%s() takes %d positional '
                               'arguments but %d were given'
                               % (f.name, npos, len(args)))
            vals[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n in names:
            if n in kw:
                if n in vals:
                    raise AbsRaise('TypeError', '%s() got multiple values '
                                   'for argument %s' % (f.name, n))
                vals[n] = kw.pop(n)
        off = npos - len(f.defaults)
        for i, d in enumerate(f.defaults):
            vals.setdefault(names[off + i], d)
        for x, d, node in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif node is not None:
                vals[x.arg] = d
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise AbsRaise('TypeError', '%s() got an unexpected keyword '
                           'argument %s' % (f.name, sorted(kw)[0]))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise AbsRaise('TypeError', '%s() missing required argument '
                               '%s' % (f.name, n))
        env.d.update(vals)
        if len(self.stack) > 300:
            names = [n for n, _ in self.stack]
            if max(names.count(n) for n in set(names)) < 100:
                raise Unmodelled('recursion in %s' % f.name)
            raise AbsRaise('RecursionError', 'in %s' % f.name)
        old, line = self.cur, self.line
        self.cur = (f.module, f.name)
        self.stack.append((f.name, line))
        self.visited.add((getattr(f.module, 'file', '?'), f.name))
        try:
            if f.is_lambda:
                return self.ev(f.body, env)
            if f.is_gen:
                env.d['$yield'] = PList() if sink is None else sink
            try:
                self.block(f.body, env)
            except Return as r:
                if not f.is_gen:
                    return r.v
            if f.is_gen and sink is None:
                return Iter(env.d['$yield'])
            return None
        except AbsRaise as e:
            if not getattr(e, 'site', None):
                e.site = self.where()
            raise
        finally:
            self.cur, self.line = old, line
            self.stack.pop()


BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div',
          ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
          ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
          ast.LShift: 'lshift', ast.RShift: 'rshift',
          ast.MatMult: 'matmul'}
DUNDER = {'div': '__truediv__'}
CMPOPS = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
          ast.Eq: 'eq', ast.NotEq: 'ne'}


# ---------------------------------------------------------------------------
# strings

def parts(s):
    return [s] if isinstance(s, str) else list(s.parts)


def mkstr(ps):
    s = SStr(ps)
    if all(isinstance(p, str) for p in s.parts):
        return ''.join(s.parts)
    return s


def fmt_one(spec, v):
    if isinstance(v, (str,)) and spec in ('s', ''):
        return [v]
    if isinstance(v, SStr) and spec in ('s', ''):
        return list(v.parts)
    if isinstance(v, Inst) and isinstance(v.cls, ExcClass) and \
       spec in ('s', ''):
        a = v.attrs.get('args')
        if a is not None and len(a) <= 1:
            return fmt_one(spec, a[0]) if a else ['']
    if isinstance(v, (list, tuple, dict, Inst, type(None), Arr)):
        if v is None and spec in ('s', ''):
            return ['None']
        raise Unmodelled('format of %s' % type(v).__name__)
    i = toint(v)
    if i is not None and spec in ('d', 's', ''):
        return [str(i)] if isinstance(i, int) else [('int', PATH.norm(i))]
    if isinstance(v, str):
        raise Unmodelled('format')
    if i is not None and isinstance(v, (int, Z)):
        return [('fmt', spec, ('s',) + sc(v).fp)]
    return [('fmt', spec, ('s',) + sc(v).fp)]


def fmt_mod(a, b):
    if not isinstance(a, str):
        raise Unmodelled('symbolic format string')
    import re
    args = list(b) if isinstance(b, tuple) else [b]
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[diouxXeEfFgGrs])', a):
        out.append(a[pos:m.start()])
        pos = m.end()
        spec = m.group(1)
        if spec == '%':
            out.append('%')
            continue
        if k >= len(args):
            raise AbsRaise('TypeError', 'not enough arguments for format '
                           'string')
        spec = 'd' if spec in ('i', 'u') else spec
        if spec == 'd' and isinstance(args[k], (str, type(None))):
            raise AbsRaise('TypeError', '%d format: a number is required')
        if spec == 'd' and toint(args[k]) is None and isinstance(args[k],
                                                                 Sc):
            out.append(('fmt', 'd', ('s',) + args[k].fp))
        else:
            out.extend(fmt_one(spec, args[k]))
        k += 1
    out.append(a[pos:])
    if k < len(args) and not isinstance(b, dict):
        raise AbsRaise('TypeError', 'not all arguments converted')
    return mkstr(out)


def fmt_method(interp, s, *args, **kw):
    if not isinstance(s, str):
        raise Unmodelled('format')
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        v = args[int(field)] if field.isdigit() else kw[field]
        out.extend(fmt_one(spec or 's', v))
    return mkstr(out)


def _strm(f):
    def g(interp, s, *a):
        if isinstance(s, SStr):
            raise Unmodelled('method of a symbolic string')
        return f(s, *a)
    return g


def _join(interp, s, it):
    out = []
    it = list(interp.concrete(it))
    if any(isinstance(x, octets.PBytes) for x in it):
        return octets.join(s, it)
    for i, x in enumerate(it):
        if i:
            out.append(s)
        if not isinstance(x, (str, SStr)):
            raise AbsRaise('TypeError', 'join')
        out.extend(parts(x))
    return mkstr(out)


STRM = {n: _strm(getattr(str, n)) for n in
        ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split',
         'replace', 'title', 'lstrip', 'rstrip', 'isdigit', 'find', 'index',
         'count', 'capitalize')}
STRM['encode'] = lambda interp, s, *a, **k: s
STRM['decode'] = lambda interp, s, *a, **k: s
STRM['format'] = fmt_method
STRM['join'] = _join


def _lext(interp, l, v):
    it = interp.iterate(v)
    if isinstance(it, SymSeq):
        if len(l) or l.sym is not None or not isinstance(l, PList):
            raise Unmodelled('extend by a symbolic sequence')
        l.sym = SymList(it.size, it.item)
        return
    l.extend(it)


def _nosym(f):
    def g(interp, l, *a, **k):
        if (isinstance(l, PList) and l.sym is not None):
            raise Unmodelled('operation on a symbolic list')
        try:
            return f(interp, l, *a, **k)
        except (IndexError, ValueError) as e:
            raise AbsRaise(type(e).__name__, str(e))
    return g


def _lindex(interp, l, x):
    for i, y in enumerate(l):
        if y is x or interp.equal(y, x):
            return i
    raise AbsRaise('ValueError', 'not in list')


def _lremove(interp, l, x):
    del l[_lindex(interp, l, x)]


def _lsort(interp, l, key=None, reverse=False):
    l[:] = _sorted(interp, l, key, reverse)


LISTM = {
    'append': _nosym(lambda i, l, x: l.append(x)),
    'extend': lambda i, l, x: _lext(i, l, x),
    'insert': _nosym(lambda i, l, k, x: l.insert(i.cint(k), x)),
    'pop': _nosym(lambda i, l, k=-1: l.pop(i.cint(k))),
    'index': _nosym(_lindex), 'remove': _nosym(_lremove),
    'reverse': _nosym(lambda i, l: l.reverse()),
    'copy': _nosym(lambda i, l: PList(l)),
    'count': _nosym(lambda i, l, x: sum(1 for y in l if i.equal(x, y))),
    'clear': _nosym(lambda i, l: l.clear()),
    'sort': _nosym(_lsort),
}
TUPM = {'index': _lindex, 'count': LISTM['count']}


def _dpop(interp, d, k, *default):
    k = interp.hashable(k)
    if k in d:
        return d.pop(k)
    if default:
        return default[0]
    raise AbsRaise('KeyError', repr(k))


def _dupd(interp, d, other=None, **kw):
    if other is not None:
        if isinstance(other, dict):
            d.update(other)
        else:
            for k, v in interp.concrete(other):
                d[interp.hashable(k)] = v
    d.update(kw)


def _dset(interp, d, k, v=None):
    return d.setdefault(interp.hashable(k), v)


DICTM = {
    'get': lambda i, d, k, v=None: d.get(i.hashable(k), v),
    'pop': _dpop, 'update': _dupd, 'setdefault': _dset,
    'keys': lambda i, d: PList(unkey(k) for k in d),
    'values': lambda i, d: PList(d.values()),
    'items': lambda i, d: PList((unkey(k), v) for k, v in d.items()),
    'copy': lambda i, d: dict(d),
    'clear': lambda i, d: d.clear(),
}


# ---------------------------------------------------------------------------
# files

def flatarr(a):
    a = N.toarr(a)
    src = A.copy(a)
    return A.reshape(src, [src.size])


def file_write(interp, fh, s):
    fh.op('write')
    if isinstance(s, (octets.PBytes, Arr)):
        fh.out.extend(octets.segs(s))
        return octets.size(s)
    if not isinstance(s, (str, SStr)):
        if s is None or isinstance(s, (int, Sc, Z, list, tuple, dict)):
            raise AbsRaise('TypeError', 'a bytes-like object is required')
        raise Unmodelled('write of an object')
    fh.out.append(('text', mkstr(parts(s))))
    return len(s) if isinstance(s, str) else None


def tofile(interp, a, fh, sep='', format=None):
    if not isinstance(fh, FileObj):
        raise Unmodelled('tofile')
    fh.op('write')
    if sep != '':
        raise Unmodelled('tofile(sep)')
    fh.out.append(('array', a.dtype, flatarr(a)))


def fromfile(interp):
    def f(fh, dtype=None, count=-1, sep='', offset=0):
        if not isinstance(fh, FileObj):
            raise Unmodelled('fromfile')
        fh.op('read')
        code = dtype_code(dtype) or 'f8'
        n = toint(count)
        if n is None:
            raise Unmodelled('fromfile count')
        if n == -1:
            raise Unmodelled('fromfile to the end')
        got = []
        left = Z.c(n)
        while True:
            if PATH.norm(left) == 0:
                break
            if not fh.inp:
                break           # fewer items than asked for
            seg = fh.inp[0]
            if seg[0] != 'array':
                raise AbsRaise('FormatError', 'binary read of text')
            if seg[1] != code:
                raise AbsRaise('FormatError', 'item of type %s read as %s'
                               % (seg[1], code))
            m = seg[2].axsize(0)
            if PATH.norm(m - left) == 0 or not PATH.ge0(m - left):
                got.append(seg[2])
                fh.inp.pop(0)
                left = PATH.norm(left - m)
                if not PATH.ge0(left):
                    raise Unmodelled('fromfile')
            else:
                got.append(A.getitem(seg[2], (slice(0, left),)))
                fh.inp[0] = ('array', seg[1],
                             A.getitem(seg[2], (slice(left, None),)))
                left = Z.c(0)
        if not got:
            return A.fresh((0,), lambda b: sc_top(), code)
        r = got[0] if len(got) == 1 else N.concatenate(got)
        return octets.items(r, code)
    return f


def file_read(interp, fh, n=-1):
    fh.op('read')
    n = toint(n) if n is not None else -1
    if n is None:
        raise Unmodelled('read')
    return octets.PBytes(octets.take(fh.inp, None if n == -1 else n))


def frombuffer(b, dtype=None, count=-1, offset=0):
    r = octets.array(b, dtype_code(dtype) or 'f8', count, offset)
    r.buf.owner = 'readonly'
    return r


def _close(interp, fh):
    fh.closed = True


FILEM = {
    'write': file_write, 'close': _close, 'read': file_read,
    'flush': lambda i, fh: fh.op('flush'),
    'closed': Prop(lambda i, fh: fh.closed),
    'name': Prop(lambda i, fh: fh.name),
    '__enter__': lambda i, fh: fh,
    '__exit__': lambda i, fh, *a: _close(i, fh),
}


def py_open(name, mode='r', *a, **k):
    if not isinstance(name, str):
        raise Unmodelled('open(%r)' % (name,))
    top = _top_path()
    hook = getattr(top, 'open_hook', None)
    if hook is None:
        raise Unmodelled('open without a file model')
    return hook(name, mode)


METHODS = {str: STRM, SStr: STRM, list: LISTM, PList: LISTM, tuple: TUPM,
           dict: DICTM, FileObj: FILEM,
           slice: {'start': Prop(lambda i, s: s.start),
                   'stop': Prop(lambda i, s: s.stop),
                   'step': Prop(lambda i, s: s.step),
                   'indices': lambda i, s, n: s.indices(N.const_int(n))},
           DType: {'newbyteorder': lambda i, d, o='S': DType(
               d.code.lstrip('<>=') if o in ('=', 'N', '<', 'native')
               else '>' + d.code.lstrip('<>=')),
               'kind': Prop(lambda i, d: kind(d.code)),
               'itemsize': Prop(lambda i, d: int(norm_code(d.code)[1:]
                                                 .lstrip('<>'))),
               'str': Prop(lambda i, d: d.code),
               'char': Prop(lambda i, d: ext.CODE[norm_code(
                   d.code).lstrip('<>')]),
               'name': Prop(lambda i, d: ext.NAMES[norm_code(
                   d.code).lstrip('<>')]),
               'type': Prop(lambda i, d: NUMPY.d.get(ext.NAMES[norm_code(
                   d.code).lstrip('<>')]) or Unm('dtype.type')),
               'byteorder': Prop(lambda i, d: '>' if d.code.startswith('>')
                                 else '=')},
           set: {'add': lambda i, s, x: s.add(i.hashable(x)),
                 'discard': lambda i, s, x: s.discard(i.hashable(x)),
                 'update': lambda i, s, *t: [s.add(i.hashable(x)) for y in t
                                             for x in i.concrete(y)] and None,
                 'union': lambda i, s, *t: s.union(*[b_set(y) for y in t]),
                 'difference': lambda i, s, *t: s.difference(
                     *[b_set(y) for y in t]),
                 'intersection': lambda i, s, *t: s.intersection(
                     *[b_set(y) for y in t]),
                 'issubset': lambda i, s, t: s.issubset(b_set(t)),
                 'issuperset': lambda i, s, t: s.issuperset(b_set(t)),
                 'copy': lambda i, s: set(s)},
           range: TUPM,
           octets.PBytes: {},
           }
KNOWN_ATTRS = {t: set(dir(t)) for t in (str, list, tuple, dict, set, slice)}
KNOWN_ATTRS[PList] = set(dir(list))
KNOWN_ATTRS[octets.PBytes] = set(dir(bytes))
KNOWN_ATTRS[FileObj] = {'readline', 'seek', 'tell', 'fileno',
                        'truncate', 'readinto', 'writelines', 'readlines'}
KNOWN_ATTRS[DType] = {'type', 'names', 'fields', 'char', 'num', 'name',
                      'base', 'shape', 'isnative'}


# ---------------------------------------------------------------------------
# arrays

def arr_attr(interp, o, n):
    if isinstance(o, Arr):
        a = o
    else:
        a = None
    if n in ('real', 'imag', 'T') and a is None:
        if n == 'imag':
            return 0
        return o
    if a is None:
        if n in ('is_integer', 'bit_length', 'conjugate', 'as_integer_ratio',
                 'hex'):
            raise Unmodelled('number.%s' % n)
        if isinstance(o, (int, Z)) and n in ('numerator',):
            return o
        if n in ('astype', 'copy'):
            # a method of a numpy scalar gives a scalar
            m = ARRM[n]
            return Builtin(n, lambda *x, **k: N.unbox(
                m(interp, N.toarr(o), *x, **k)))
        a = N.toarr(o)
    W = interp.where
    if n == 'shape':
        return tuple(a.shape)
    if n == 'ndim':
        return a.ndim
    if n == 'size':
        return a.size
    if n == 'dtype':
        return DType(a.dtype)
    if n == 'T':
        return A.transpose(a)
    if n == 'flat':
        return Flat(a)
    if n == 'real':
        return N.real(a)
    if n == 'base':
        raise Unmodelled('ndarray.base')
    if n == 'flags':
        return Flags(a)
    if n == 'itemsize':
        return int(norm_code(a.dtype)[1:].lstrip('<>'))
    if n == 'nbytes':
        return simp(Z.c(a.size) * int(norm_code(a.dtype)[1:].lstrip('<>')))
    f = ARRM.get(n)
    if f is None:
        if n in ('imag', 'strides', 'data', 'ctypes', 'nbytes',
                 'newbyteorder', 'byteswap', 'view', 'choose',
                 'compress', 'diagonal', 'dump', 'dumps', 'getfield',
                 'argmax', 'argmin', 'argsort', 'nonzero', 'partition',
                 'put', 'resize', 'round', 'setflags', 'std', 'trace', 'var',
                 'argpartition', 'conj', 'conjugate', 'itemset', 'ptp',
                 '__array__', '__len__', '__copy__', '__array_interface__',
                 '__getitem__', '__setitem__', '__class__', '__iter__'):
            raise Unmodelled('ndarray.%s' % n)
        raise AbsRaise('AttributeError', "'numpy.ndarray' object has no "
                       "attribute '%s' at %s" % (n, interp.where()))
    return Builtin('ndarray.' + n, lambda *x, **k: f(interp, a, *x, **k))


def _astype(i, a, dtype, order='K', casting='unsafe', subok=True, copy=True):
    code = dtype_code(dtype)
    if copy is False and N.same_dtype(a, code):
        return a
    r = N.keep_order(a, code, order)
    r.buf.dtype = code
    return r


def _transpose(i, a, *axes):
    if len(axes) == 1 and (axes[0] is None or isinstance(
            axes[0], (tuple, list, range, Arr))):
        axes = axes[0]
        if axes is not None:
            axes = i.concrete(axes)
    if not axes:
        axes = None
    return N.transpose(a, axes)


def _view(i, a, *x, **k):
    if x or k:
        raise Unmodelled('view(dtype)')
    return A.view(a)


def _fill(i, a, v):
    A.write(a, v if not isinstance(v, Arr) else N.unbox(v), i.where())


def _sort(i, a, axis=-1, kind=None, order=None):
    N.sort_inplace(a, i.where())


def _item(i, a, *k):
    if k:
        return N.get(a, tuple(k))
    if a.size != 1:
        raise AbsRaise('ValueError', 'can only convert an array of size 1')
    return N.unboxv(a.get(tuple(Z.c(0) for _ in a.shape)), a.dtype)


def _tolist(i, a):
    if a.ndim == 0:
        return N.unbox(a)
    n = a.shape[0]
    if isinstance(n, int) and n <= 64:
        return PList(_tolist(i, A.getitem(a, (k,))) if a.ndim > 1
                     else N.item0(a, k) for k in range(n))
    l = PList()
    l.sym = SymList(n, lambda k: _tolist(i, A.getitem(a, (simp(k),))))
    return l


ARRM = {
    'tobytes': lambda i, a, order='C': octets.of_array(a, order),
    'tostring': lambda i, a, order='C': octets.of_array(a, order),
    'copy': lambda i, a, order='C': N.keep_order(a, a.dtype, order),
    'astype': _astype,
    'view': _view,
    'reshape': lambda i, a, *s, **k: N.reshape(a, *s, **k),
    'ravel': lambda i, a, order='C': N.ravel(a, order),
    'flatten': lambda i, a, order='C': N.flatten(a, order),
    'transpose': _transpose,
    'swapaxes': lambda i, a, x, y: N.swapaxes(a, x, y),
    'squeeze': lambda i, a, axis=None: N.squeeze(a, axis),
    'repeat': lambda i, a, r, axis=None: N.repeat(a, r, axis),
    'clip': lambda i, a, *x, **k: N.clip(a, *x, **k),
    'min': lambda i, a, axis=None, **k: N.amin(a, axis, **k),
    'max': lambda i, a, axis=None, **k: N.amax(a, axis, **k),
    'sum': lambda i, a, axis=None, **k: N.nsum(a, axis, **k),
    'prod': lambda i, a, axis=None, **k: N.nprod(a, axis, **k),
    'mean': lambda i, a, axis=None, **k: N.mean(a, axis, **k),
    'all': lambda i, a, axis=None, **k: N.nall(a, axis, **k),
    'any': lambda i, a, axis=None, **k: N.nany(a, axis, **k),
    'cumsum': lambda i, a, *x, **k: N.cumsum(a, *x, **k),
    'searchsorted': lambda i, a, v, side='left', sorter=None:
        N.searchsorted(a, v, side, sorter),
    'dot': lambda i, a, b, out=None: N.dot(a, N.toarr(b), out),
    'take': lambda i, a, idx, axis=None, **k: N.take(a, idx, axis, **k),
    'fill': _fill, 'sort': _sort, 'item': _item, 'tolist': _tolist,
    'tofile': tofile,
}


# ---------------------------------------------------------------------------
# builtins

INTERP = [None]


def I():
    return INTERP[0]


def b_bytes(*a):
    if not a:
        return ''
    if isinstance(a[0], (str, SStr, octets.PBytes)):
        return a[0]
    if isinstance(a[0], Arr):
        return octets.of_array(a[0])
    raise Unmodelled('bytes')


def b_len(x):
    s = getattr(x, 'sym', None)
    if s is not None:
        return simp(s.size)
    if isinstance(x, (list, tuple, dict, str, set, range)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise AbsRaise('TypeError', 'len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymList):
        return simp(x.size)
    if isinstance(x, octets.PBytes):
        return octets.size(x)
    if isinstance(x, Inst):
        return I().call(I().getattr(x, '__len__'), [], {})
    if x is None or isinstance(x, (int, Sc, Z)):
        raise AbsRaise('TypeError', 'object has no len()')
    raise Unmodelled('len')


def b_range(*a):
    v = []
    for x in a:
        i = toint(x)
        if i is None:
            if isinstance(x, (Sc, str, type(None))):
                raise AbsRaise('TypeError', 'range() integer expected')
            raise Unmodelled('range')
        v.append(i)
    if all(isinstance(x, int) for x in v):
        return range(*v)
    s, e, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) \
        if len(v) == 2 else v
    if st != 1:
        raise Unmodelled('range step')
    n = Z.c(e) - Z.c(s)
    if not PATH.ge0(n):
        n = Z.c(0)
    return SymSeq(n, lambda i: simp(Z.c(s) + i))


def b_zip(*its):
    picks = [isinstance(x, Iter) and x.inf and x.pick for x in its]
    inf = bool(its) and all(isinstance(x, Iter) and x.inf for x in its)
    its = [lazy(x) for x in its]
    if not any(isinstance(x, SymSeq) for x in its):
        return Iter(zip(*its), inf)
    its = [p if p else x if isinstance(x, (SymSeq, list)) else
           Iter(x, p is None).take() for x, p in zip(its, picks)]
    sizes = []
    for x in its:
        if callable(x):
            continue
        if isinstance(x, SymSeq):
            if x.sizes is not None:
                raise Unmodelled('zip of ndindex')
            sizes.append(x.size)
        else:
            sizes.append(Z.c(len(x)))
    for s in sizes[1:]:
        if PATH.norm(s - sizes[0]) != 0 and not PATH.eq(s, sizes[0]):
            raise Unmodelled('zip of different lengths')

    def pick(x, i):
        if callable(x):
            return x(i)
        if isinstance(x, SymSeq):
            return x.item(i)
        return I().subscript(x, simp(i))
    return SymSeq(sizes[0], lambda i: tuple(pick(x, i) for x in its))


def b_enumerate(it, start=0):
    inf = isinstance(it, Iter) and it.inf
    it = lazy(it)
    if isinstance(it, SymSeq):
        if it.sizes is not None:
            raise Unmodelled('enumerate of ndindex')
        return SymSeq(it.size, lambda i: (simp(Z.c(start) + i), it.item(i)))
    return Iter(enumerate(it, N.const_int(start)), inf)


def b_minmax(kindname):
    def f(*a, **kw):
        if kw:
            raise Unmodelled('min/max key')
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr):
                if x.ndim > 1:
                    raise Unmodelled('min of a matrix')
                return N.minmax(kindname, x)
            it = I().iterate(x)
            if isinstance(it, SymSeq):
                return N.minmax(kindname, N.toarr(it))
            a = it
        if not a:
            raise AbsRaise('ValueError', '%s() arg is an empty sequence'
                           % kindname)
        r = a[0]
        for x in a[1:]:
            if not isnum(N.unbox(x)) or not isnum(N.unbox(r)):
                raise Unmodelled('min/max of objects')
            r = nmaxmin(kindname, N.unbox(r), N.unbox(x))
        return N.unbox(r)
    return f


def b_sum(it, start=0):
    r = start
    for x in I().concrete(it):
        r = I().binop('add', r, x)
    return r


def b_isinstance(x, t):
    if isinstance(t, (tuple, list)):
        return any(b_isinstance(x, y) for y in t)
    if isinstance(t, PyClass):
        return isinstance(x, Inst) and isinstance(x.cls, PyClass) and \
            t in x.cls.mro()
    if isinstance(t, ExcClass):
        return isinstance(x, Inst) and isinstance(x.cls, ExcClass) and \
            exc_isa(x.cls.name, t.name)
    if isinstance(t, Builtin) and t.types is not None:
        return t.types(x)
    raise Unmodelled('isinstance(.., %s)' % getattr(t, 'name', t))


def b_float(x=0):
    if isinstance(x, Arr):
        if x.size != 1:
            raise AbsRaise('TypeError', 'only length-1 arrays can be '
                           'converted to Python scalars')
        x = _item(None, x)
    if isinstance(x, str):
        try:
            return sc(float(x))
        except ValueError:
            raise AbsRaise('ValueError', 'could not convert')
    if x is None or isinstance(x, (list, tuple, dict, Inst)):
        raise AbsRaise('TypeError', 'float() argument')
    return sc(x)


def b_int(x=0):
    if isinstance(x, Arr):
        if x.size != 1:
            raise AbsRaise('TypeError', 'only length-1 arrays can be '
                           'converted to Python scalars')
        x = _item(None, x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise AbsRaise('ValueError', 'invalid literal')
    if x is None or isinstance(x, (list, tuple, dict, Inst)):
        raise AbsRaise('TypeError', 'int() argument')
    i = toint(x)
    if i is not None:
        return i
    if isinstance(x, Sc):
        if x.const is not None:
            return int(x.const)
        return int_symbol(('trunc', x.fp))
    raise Unmodelled('int()')


def b_bool(x=False):
    return I().truth(x)


def b_list(x=()):
    it = I().iterate(x)
    if isinstance(it, SymSeq):
        l = PList()
        if it.sizes is not None:
            raise Unmodelled('list(ndindex)')
        l.sym = SymList(it.size, it.item)
        return l
    return PList(it)


def b_tuple(x=()):
    it = I().iterate(x)
    if isinstance(it, SymSeq):
        l = PList()
        if it.sizes is not None:
            raise Unmodelled('tuple(ndindex)')
        l.sym = SymList(it.size, it.item)
        return l
    return tuple(it)


def b_dict(*a, **kw):
    d = {}
    if a:
        _dupd(I(), d, a[0])
    d.update(kw)
    return d


def _sorted(interp, it, key=None, reverse=False):
    l = interp.concrete(it)
    ks = [interp.call(key, [x], {}) if key is not None else x for x in l]
    out = []
    for k, x in zip(ks, l):
        j = len(out)
        while j > 0 and lt_any(interp, k, out[j - 1][0]):
            j -= 1
        out.insert(j, (k, x))
    r = [x for k, x in out]
    if reverse:
        r.reverse()
    return PList(r)


def lt_any(interp, a, b):
    a, b = N.unbox(a), N.unbox(b)
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        for x, y in zip(a, b):
            if interp.equal(x, y):
                continue
            return lt_any(interp, x, y)
        return len(a) < len(b)
    if isnum(a) and isnum(b):
        return nlt(a, b)
    plain = (type(None), str, dict, tuple, list)
    if (a is None or b is None or isinstance(a, plain) != isinstance(b, plain)
        ) and (isinstance(a, plain) or isnum(a)) and (
            isinstance(b, plain) or isnum(b)):
        raise AbsRaise('TypeError', "'<' not supported between %s and %s" % (
            type(a).__name__, type(b).__name__))
    raise Unmodelled('sort key')


def b_getattr(o, n, *d):
    if not isinstance(n, str):
        if isinstance(n, (int, float, Module, PyClass, Func, Arr, list, tuple,
                          dict)) or n is None:
            raise AbsRaise('TypeError', 'attribute name must be string')
        raise Unmodelled('getattr name')
    try:
        return I().getattr(o, n)
    except AbsRaise as e:
        if d and exc_isa(e.exc, 'AttributeError'):
            return d[0]
        raise


def b_type(x, *a):
    if a:
        raise Unmodelled('type()')
    if isinstance(x, Inst):
        return x.cls
    for b in BUILTINS.values():
        if isinstance(b, Builtin) and b.types is not None and b.types(x):
            return b
    raise Unmodelled('type()')


def b_property(fget=None, fset=None, *a, **k):
    return Prop(fget, fset)


def b_reversed(x):
    it = I().iterate(x)
    if isinstance(it, SymSeq):
        n = it.size
        return SymSeq(n, lambda i: it.item(n - 1 - i))
    return Iter(reversed(it))


def b_map(f, *its):
    z = b_zip(*its)
    if isinstance(z, SymSeq):
        return SymSeq(z.size, lambda i: I().call(f, list(z.item(i)), {}))
    return Iter((I().call(f, list(x), {}) for x in z.it), z.inf)


def b_filter(f, it):
    inf = isinstance(it, Iter) and it.inf
    it = lazy(it)
    if isinstance(it, SymSeq):
        raise Unmodelled('symbolic iteration')
    return Iter((x for x in it if I().truth(
        x if f is None else I().call(f, [x], {}))), inf)


def lazy(x):
    return x.it if isinstance(x, Iter) else I().iterate(x)


def b_all(it):
    x = lazy(it)
    if isinstance(x, SymSeq):
        return N.nall(N.toarr(x))
    for y in x:
        if not I().truth(y):
            return False
    return True


def b_any(it):
    x = lazy(it)
    if isinstance(x, SymSeq):
        return N.nany(N.toarr(x))
    for y in x:
        if I().truth(y):
            return True
    return False


def b_issubclass(a, b):
    if isinstance(b, tuple):
        return any(b_issubclass(a, x) for x in b)
    if a is b or getattr(b, 'name', None) == 'object':
        return True
    if isinstance(a, PyClass) and isinstance(b, PyClass):
        return b in a.mro()
    if isinstance(a, ExcClass) and isinstance(b, ExcClass):
        return exc_isa(a.name, b.name)
    if isinstance(a, PyClass) and isinstance(b, Builtin):
        return False
    raise Unmodelled('issubclass')


def b_abs(x):
    if isinstance(x, Arr):
        return NUMPY.d['abs'].fn(x)
    if isinstance(x, Inst) and isinstance(x.cls, PyClass) and \
       x.cls.lookup('__abs__'):
        return I().call(I().getattr(x, '__abs__'), [], {})
    if not isnum(x):
        raise AbsRaise('TypeError', 'bad operand type for abs()')
    return N.nabs(x)


def b_str(x=''):
    if isinstance(x, (str, SStr)):
        return x
    return mkstr(fmt_one('s', x))


def b_pow(a, b):
    return N.binop('pow', a, b)


def b_divmod(a, b):
    return (N.binop('floordiv', a, b), N.binop('mod', a, b))


def b_import(name, *a, **k):
    return I().world.load(name)


def b_round(x, n=None):
    raise Unmodelled('round')


def b_print(*a, **k):
    return None


def b_set(x=()):
    return set(I().hashable(y) for y in I().concrete(x))


def b_iter(x):
    if isinstance(x, Iter):
        return x
    return Iter(I().concrete(x))


def b_next(x, *d):
    if not isinstance(x, Iter):
        if isinstance(x, (list, tuple, Arr, range, str, dict)):
            raise AbsRaise('TypeError', 'object is not an iterator')
        raise Unmodelled('next')
    for y in x.it:
        return y
    if d:
        return d[0]
    raise AbsRaise('StopIteration', '')


def _isfloat(x):
    return isinstance(x, (Sc, float)) and True


def _isint(x):
    return isinstance(x, (int, Z))


BUILTINS = {
    'len': Builtin('len', b_len), 'range': Builtin(
        'range', b_range, lambda x: isinstance(x, range)),
    'zip': Builtin('zip', b_zip), 'enumerate': Builtin('enumerate',
                                                       b_enumerate),
    'min': Builtin('min', b_minmax('min')),
    'max': Builtin('max', b_minmax('max')),
    'sum': Builtin('sum', b_sum), 'abs': Builtin('abs', b_abs),
    'isinstance': Builtin('isinstance', b_isinstance),
    'issubclass': Builtin('issubclass', b_issubclass),
    'float': Builtin('float', b_float, _isfloat, 'float'),
    'int': Builtin('int', b_int, _isint, 'int'),
    'bool': Builtin('bool', b_bool, lambda x: isinstance(x, bool), 'bool'),
    'complex': Builtin('complex', lambda *a: Unm('complex'),
                       lambda x: False, 'complex'),
    'str': Builtin('str', b_str, lambda x: isinstance(x, (str, SStr))),
    'list': Builtin('list', b_list, lambda x: isinstance(x, list)),
    'tuple': Builtin('tuple', b_tuple, lambda x: isinstance(x, tuple)),
    'dict': Builtin('dict', b_dict, lambda x: isinstance(x, dict)),
    'set': Builtin('set', lambda x=(): b_set(x),
                   lambda x: isinstance(x, set)),
    'frozenset': Builtin('frozenset', lambda x=(): frozenset(
        b_set(x)), lambda x: isinstance(x, frozenset)),
    'slice': Builtin('slice', lambda *a: slice(*a),
                     lambda x: isinstance(x, slice)),
    'sorted': Builtin('sorted', lambda it, key=None, reverse=False:
                      _sorted(I(), it, key, reverse)),
    'reversed': Builtin('reversed', b_reversed),
    'map': Builtin('map', b_map), 'filter': Builtin('filter', b_filter),
    'all': Builtin('all', b_all), 'any': Builtin('any', b_any),
    'getattr': Builtin('getattr', b_getattr),
    'hasattr': Builtin('hasattr', lambda o, n: I().hasattr(o, n)),
    'setattr': Builtin('setattr', lambda o, n, v: I().setattr(o, n, v)),
    'type': Builtin('type', b_type), 'property': Builtin('property',
                                                         b_property),
    'object': Builtin('object', lambda: Inst(PyClass('object', [], {},
                                                     None)),
                      lambda x: True, 'object'),
    'callable': Builtin('callable', lambda x: isinstance(
        x, (Func, Bound, Builtin, PyClass))),
    'open': Builtin('open', py_open), 'print': Builtin('print', b_print),
    'pow': Builtin('pow', b_pow), 'divmod': Builtin('divmod', b_divmod),
    'round': Builtin('round', b_round), 'iter': Builtin('iter', b_iter),
    'next': Builtin('next', b_next),
    '__import__': Builtin('__import__', b_import),
    'super': Builtin('super', None), 'locals': Builtin('locals', None),
    'staticmethod': Builtin('staticmethod', Static),
    'classmethod': Builtin('classmethod', ClsMethod),
    'id': Builtin('id', lambda x: Unm('id')),
    'bytes': Builtin('bytes', lambda *a: b_bytes(*a),
                     lambda x: isinstance(x, octets.PBytes)),
    'Ellipsis': Ellipsis, 'NotImplemented': Opaque('NotImplemented'),
    '__name__': 'module', '__file__': 'file', 'None': None, 'True': True,
    'False': False,
    'repr': Builtin('repr', b_str),
}


def Unm(what):
    raise Unmodelled(what)


# ---------------------------------------------------------------------------
# numpy namespace

def _u(f, dt='f8'):
    return N.ufunc1(f, dt)


def _rank_seq(args):
    return [I().arrval(x) for x in args]


def np_call(name, f):
    def g(*a, **k):
        a = [I().arrval(x) if isinstance(x, (Inst, range)) or
             (isinstance(x, PList) and x.sym is not None) else x for x in a]
        return f(*a, **k)
    return Builtin('numpy.' + name, g)


def _astuple(x):
    """sequence argument of stack-like functions"""
    if (isinstance(x, PList) and x.sym is not None):
        return x.sym
    if isinstance(x, SymList):
        return x
    if isinstance(x, Arr):
        return [N.item0(x, i) if x.ndim == 1 else A.getitem(x, (i,))
                for i in range(N.const_int(x.shape[0]))]
    return [I().arrval(y) for y in I().concrete(x)]


def _degs(x):
    return core.mul(x, core.div(sc_const(180), core.sc_pi()))


def _rads(x):
    return core.mul(x, core.div(core.sc_pi(), sc_const(180)))


def _tan(x):
    return core.div(core.sin(x), core.cos(x))


def _sign(x):
    raise Unmodelled('sign')


def _ceil(x):
    i = toint(x)
    if i is not None:
        return sc(i)
    if x.const is not None:
        import math
        return sc_const(math.ceil(x.const))
    return core.func('ceil', sc(x))


def _floor(x):
    i = toint(x)
    if i is not None:
        return sc(i)
    if x.const is not None:
        import math
        return sc_const(math.floor(x.const))
    return core.func('floor', sc(x))


def _unary(name):
    return lambda x: core.func(name, sc(x))


def _isnd(x):
    return isinstance(x, Arr)


def make_numpy():
    d = {}

    def reg(name, f):
        d[name] = np_call(name, f)
    for n in ('asarray', 'array', 'ascontiguousarray', 'asfortranarray',
              'arange', 'linspace', 'eye', 'identity', 'full', 'full_like',
              'reshape', 'ravel', 'squeeze', 'expand_dims', 'flip',
              'moveaxis', 'swapaxes', 'rollaxis', 'broadcast_to', 'tile',
              'repeat', 'amin', 'amax', 'allclose', 'array_equal', 'where',
              'minimum', 'maximum', 'clip', 'diff', 'ediff1d', 'cumsum',
              'unique', 'bincount', 'searchsorted', 'isin', 'dot', 'matmul',
              'tensordot', 'einsum', 'outer', 'cross', 'hypot', 'arctan2',
              'meshgrid', 'take', 'delete', 'append', 'insert', 'copyto',
              'real', 'mean', 'ix_', 'ndindex'):
        if hasattr(N, n):
            reg(n, getattr(N, n))
    reg('asanyarray', N.asarray)
    reg('min', N.amin)
    reg('max', N.amax)
    reg('sum', N.nsum)
    reg('prod', N.nprod)
    reg('all', N.nall)
    reg('any', N.nany)
    reg('sort', N.npsort)
    reg('in1d', N.isin)
    reg('copy', lambda a, order='K', subok=False: N.keep_order(
        N.toarr(a), None, order))
    reg('transpose', lambda a, axes=None: _transpose(I(), N.toarr(a),
                                                     axes))
    reg('zeros', N.fill(0))
    reg('ones', N.fill(1))
    reg('empty', N.fill(None))
    reg('zeros_like', N.like(0))
    reg('ones_like', N.like(1))
    reg('empty_like', N.like(None))
    reg('shape', lambda a: tuple(N.toarr(a).shape))
    reg('ndim', lambda a: N.toarr(a).ndim)
    reg('size', lambda a, axis=None: N.toarr(a).size if axis is None
        else N.toarr(a).shape[axis])
    for n in ('stack', 'concatenate', 'vstack', 'hstack', 'dstack',
              'column_stack'):
        f = getattr(N, n)
        d[n] = Builtin(n, lambda x, *a, _f=f, **k: _f(_astuple(x), *a, **k))
    d['row_stack'] = d['vstack']
    for n in (1, 2, 3):
        reg('atleast_%dd' % n, N.atleast(n))
    for n, f in (('sin', core.sin), ('cos', core.cos), ('tan', _tan),
                 ('sqrt', core.sqrt), ('arccos', core.arccos),
                 ('arcsin', core.arcsin), ('degrees', _degs),
                 ('radians', _rads), ('deg2rad', _rads), ('rad2deg', _degs),
                 ('ceil', _ceil), ('floor', _floor),
                 ('exp', _unary('exp')), ('log', _unary('log')),
                 ('arctan', _unary('arctan')), ('sign', _sign),
                 ('square', lambda x: core.mul(sc(x), sc(x))),
                 ('cosh', _unary('cosh')), ('sinh', _unary('sinh')),
                 ('isnan', lambda x: False),
                 ('isfinite', lambda x: True)):
        reg(n, N.ufunc1(f))
    reg('abs', N.nabs)
    reg('absolute', N.nabs)
    reg('fabs', N.nabs)
    reg('negative', lambda a, **k: N.neg(a))
    reg('logical_not', lambda a, **k: N.invert(N.toarr(a)))
    for n, op in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'),
                  ('divide', 'div'), ('true_divide', 'div'),
                  ('power', 'pow'), ('less', 'lt'), ('greater', 'gt'),
                  ('less_equal', 'le'), ('greater_equal', 'ge'),
                  ('equal', 'eq'), ('not_equal', 'ne'),
                  ('floor_divide', 'floordiv'), ('mod', 'mod'),
                  ('logical_and', 'and'), ('logical_or', 'or')):
        reg(n, N.ufunc2(op, None))
    d['ogrid'] = Builtin('ogrid', None)
    d['mgrid'] = Builtin('mgrid', None)
    d['r_'] = Builtin('r_', None)
    d['newaxis'] = None
    d['pi'] = core.sc_pi()
    d['inf'] = core.sc_atom('inf')
    d['inf'].iv = (1e300, 1e301)
    d['nan'] = core.sc_atom('nan')
    d['dtype'] = Builtin('dtype', lambda x, *a, **k: DType(dtype_code(x)))
    d['ndarray'] = Builtin('ndarray', None, _isnd)
    d['frombuffer'] = Builtin('frombuffer', frombuffer)
    d['fromfile'] = Builtin('fromfile', lambda *a, **k: fromfile(I())(*a,
                                                                      **k))
    for n in ('float64', 'int32', 'int64', 'intc', 'float32', 'bool_',
              'complex128', 'object_', 'intp', 'int_', 'double', 'uint8'):
        t = {'float64': _isfloat, 'int32': _isint, 'int64': _isint,
             'intp': _isint}.get(n, lambda x: False)
        d[n] = Builtin(n, lambda x=0, _n=n: N.unbox(N.asarray(
            x, dtype_code(_n))), t, n)
    d['integer'] = Builtin('integer', None, _isint)
    d['floating'] = Builtin('floating', None, _isfloat)
    d['number'] = Builtin('number', None, lambda x: _isint(x) or _isfloat(x))
    d['isscalar'] = Builtin('isscalar', lambda x: isnum(x) or
                            isinstance(x, str))
    d['finfo'] = Builtin('finfo', lambda t=None: Unm('finfo'))
    lin = {}
    for n in ('norm', 'inv', 'det', 'solve'):
        lin[n] = np_call(n, getattr(N, n))
    d['linalg'] = Module('numpy.linalg', lin, 'unmodelled')
    d['lib'] = Module('numpy.lib', {}, 'unmodelled')
    m = Module('numpy', d, 'unmodelled')
    return m


NUMPY = make_numpy()
MATH = Module('math', {
    'sin': np_call('sin', N.ufunc1(core.sin)),
    'cos': np_call('cos', N.ufunc1(core.cos)),
    'tan': np_call('tan', N.ufunc1(_tan)),
    'sqrt': np_call('sqrt', N.ufunc1(core.sqrt)),
    'acos': np_call('acos', N.ufunc1(core.arccos)),
    'asin': np_call('asin', N.ufunc1(core.arcsin)),
    'atan2': np_call('atan2', N.arctan2),
    'hypot': np_call('hypot', N.hypot),
    'fabs': np_call('fabs', N.nabs),
    'radians': np_call('radians', N.ufunc1(_rads)),
    'degrees': np_call('degrees', N.ufunc1(_degs)),
    'pi': core.sc_pi(),
    'ceil': Builtin('ceil', lambda x: b_int(_ceil(sc(x)))),
    'floor': Builtin('floor', lambda x: b_int(_floor(sc(x)))),
}, 'unmodelled')


def it_product(*its, repeat=1):
    import itertools
    return PList(itertools.product(*[I().concrete(x) for x in its],
                                   repeat=repeat))


ITERTOOLS = Module('itertools', {
    'product': Builtin('product', it_product),
    'chain': Builtin('chain', lambda *a: PList(
        y for x in a for y in I().concrete(x))),
    'repeat': Builtin('repeat', lambda x, n: PList([x] * N.const_int(n))),
}, 'unmodelled')


def f_reduce(f, it, *init):
    l = list(I().concrete(it))
    acc = init[0] if init else l.pop(0)
    for x in l:
        acc = I().call(f, [acc, x], {})
    return acc


def f_partial(f, *a, **k):
    return Builtin('partial', lambda *b, **m: I().call(
        f, list(a) + list(b), dict(k, **m)))


EXT = {
    'functools': Module('functools', {
        'reduce': Builtin('reduce', f_reduce),
        'partial': Builtin('partial', f_partial)}, 'unmodelled'),
    'operator': Module('operator', {
        'add': Builtin('add', lambda a, b: I().binop('add', a, b)),
        'mul': Builtin('mul', lambda a, b: I().binop('mul', a, b)),
    }, 'unmodelled'),
    'struct': Module('struct', {
        'pack': Builtin('pack', octets.pack),
        'unpack': Builtin('unpack', octets.unpack),
        'calcsize': Builtin('calcsize', lambda f: sum(
            octets.width(c) for c in octets.fields(f)))}, 'unmodelled'),
    'warnings': Module('warnings', {'warn': Builtin(
        'warn', lambda *a, **k: None)}, 'unmodelled'),
    '__future__': Module('__future__', {n: None for n in (
        'division', 'print_function', 'absolute_import', 'annotations')}),
}


def _hook(x):
    if isinstance(x, Inst) and isinstance(x.cls, PyClass):
        f = x.cls.lookup('__array__')
        if f is not None:
            return I().call(Bound(f, x), [], {})
        if x.cls.lookup('__getitem__') is None:
            return A.scalar_arr(x, 'O')
    if isinstance(x, range):
        return N.toarr(list(x))
    return None


N._array_hook[0] = _hook


def b_iterable(x):
    try:
        I().iterate(x)
        return True
    except AbsRaise:
        return False


from . import npextra, ext, more    # noqa: E402
ext.install(sys.modules[__name__])
more.install(sys.modules[__name__])
