"""Number-level operations shared by the interpreter and the numpy model:
machine integers and symbolic integers stay exact integers (`int`/`Z`), every
real is an abstract scalar `Sc`."""
import hashlib
from . import core
from .core import Z, Sc, PATH, Unmodelled, sc, sc_const, sc_top, simp, isint
from .core import sc_z, prf
from .arrays import Arr, AbsRaise, _top
from . import arrays as A


class Masked(object):
    """a[mask]: a selection with a data dependent extent"""

    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask


class DType(object):
    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        return isinstance(o, DType) and norm_code(self.code) == \
            norm_code(o.code)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(norm_code(self.code))

    def __repr__(self):
        return 'dtype(%s)' % self.code


def norm_code(c):
    return c.lstrip('=<|')


_DT = {'d': 'f8', 'f': 'f4', 'i': 'i4', 'l': 'i8', 'q': 'i8', '?': 'b1',
       'D': 'c16', 'F': 'c8', 'O': 'O', 'float': 'f8', 'int': 'i8',
       'bool': 'b1', 'double': 'f8', 'float64': 'f8', 'int32': 'i4',
       'int64': 'i8', 'intc': 'i4', 'object': 'O', 'complex': 'c16',
       'float32': 'f4', 'complex128': 'c16', 'f8': 'f8', 'f4': 'f4',
       'i4': 'i4', 'i8': 'i8', 'b1': 'b1', 'c16': 'c16', 'c8': 'c8',
       'bool_': 'b1', 'intp': 'i8', 'object_': 'O', 'int_': 'i8',
       'float_': 'f8', 'long': 'i8', 'u1': 'u1', 'uint8': 'u1', 'B': 'u1',
       'complex64': 'c8', 'single': 'f4'}


def dtype_code(d):
    """normalise any dtype spelling to a code such as f8 or >f8"""
    if d is None:
        return None
    if isinstance(d, DType):
        return d.code
    if isinstance(d, str):
        e = ''
        s = d
        if s[:1] in '<>=|!':
            e = '>' if s[0] in '>!' else ''
            s = s[1:]
        if s in _DT:
            return e + _DT[s]
        raise Unmodelled('dtype %r' % d)
    n = getattr(d, 'dtype_name', None)
    if n:
        return _DT[n]
    raise Unmodelled('dtype %r' % (d,))


def kind(code):
    c = code.lstrip('<>=|')
    return c[0]


def promote(*codes):
    best = None
    rank = {'b': 0, 'u': 1, 'i': 2, 'f': 3, 'c': 4, 'O': 5}
    for c in codes:
        c = c.lstrip('<>=|')
        if best is None or (rank[c[0]], _sz(c)) > (rank[best[0]], _sz(best)):
            best = c
    return best


def _sz(c):
    return int(c[1:]) if c[1:].isdigit() else 0


def isnum(x):
    return isinstance(x, (bool, int, Z, Sc, float))


def toint(x):
    """bool/int/Z/Sc-with-z -> int or Z, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Z):
        return simp(x)
    if isinstance(x, Sc):
        if x.z is not None:
            return simp(x.z)
        if x.const is not None and x.const.denominator == 1:
            return int(x.const)
        return None
    if isinstance(x, Arr) and x.ndim == 0:
        return toint(x.get(()))
    return None


def both_int(a, b):
    return isinstance(a, (bool, int, Z)) and isinstance(b, (bool, int, Z))


def zz(x):
    return Z.c(int(x)) if isinstance(x, bool) else Z.c(x)


def digest(key):
    return hashlib.sha1(repr(key).encode()).hexdigest()[:12]


def paths_up():
    p = core._PathProxy.cur
    while p is not None:
        yield p
        p = getattr(p, 'parent', None)


def int_symbol(key, lb=None, facts=(), prefix='k'):
    """deterministic integer symbol standing for an opaque integer result"""
    name = '%s:%s' % (prefix, digest(key))
    z = Z.sym(name)
    for p in paths_up():
        if name not in p.lb:
            p.lb[name] = lb if lb is not None else -10**9
            for f in facts:
                p.facts.append(f(z))
    return z


# -- arithmetic

def nadd(a, b):
    if both_int(a, b):
        return simp(zz(a) + zz(b))
    return core.add(sc(a), sc(b))


def nsub(a, b):
    if both_int(a, b):
        return simp(zz(a) - zz(b))
    return core.sub(sc(a), sc(b))


def nmul(a, b):
    if both_int(a, b):
        return simp(zz(a) * zz(b))
    return core.mul(sc(a), sc(b))


def ndiv(a, b):
    if both_int(a, b) and isinstance(toint(b), int) and toint(b) == 0:
        raise AbsRaise('ZeroDivisionError', 'division by zero')
    return core.div(sc(a), sc(b))


def nfloordiv(a, b):
    if both_int(a, b):
        a, b = PATH.norm(zz(a)), PATH.norm(zz(b))
        if b.is_const() and b.const() == 0:
            raise AbsRaise('ZeroDivisionError', 'division by zero')
        qr = PATH.divmod(a, b)
        if qr is not None:
            return simp(qr[0])
        if PATH.ge0(b - 1):
            q = int_symbol(('fdiv', a.key(), b.key()), facts=[
                lambda q: a - q * b, lambda q: q * b + b - 1 - a])
            return q
        raise Unmodelled('floor division')
    a, b = sc(a), sc(b)
    return core.func('floor', core.div(a, b))


def nmod(a, b):
    if both_int(a, b):
        a, b = PATH.norm(zz(a)), PATH.norm(zz(b))
        if b.is_const() and b.const() == 0:
            raise AbsRaise('ZeroDivisionError', 'modulo by zero')
        qr = PATH.divmod(a, b)
        if qr is not None:
            return simp(qr[1])
        q = zz(nfloordiv(simp(a), simp(b)))
        return simp(a - q * b)
    return core.func('mod', sc(a), sc(b))


def npow(a, b):
    if both_int(a, b):
        n = toint(b)
        if isinstance(n, int) and 0 <= n <= 16:
            r = Z.c(1)
            for _ in range(n):
                r = r * zz(a)
            return simp(r)
        return core.power(sc(a), sc(b))
    return core.power(sc(a), sc(b))


def nneg(a):
    if isinstance(a, (bool, int, Z)):
        return simp(-zz(a))
    return core.neg(sc(a))


def nlt(a, b):
    if both_int(a, b):
        return PATH.lt(zz(a), zz(b))
    return core.cmp_lt(sc(a), sc(b))


def nle(a, b):
    if both_int(a, b):
        return PATH.le(zz(a), zz(b))
    return core.cmp_le(sc(a), sc(b))


def neq(a, b):
    if both_int(a, b):
        return PATH.eq(zz(a), zz(b))
    return core.cmp_eq(sc(a), sc(b))


CMP = {
    'lt': nlt, 'le': nle, 'gt': lambda a, b: nlt(b, a),
    'ge': lambda a, b: nle(b, a), 'eq': neq, 'ne': lambda a, b: not neq(a, b),
}


def bint(x, name):
    if isinstance(x, bool):
        return int(x)
    i = toint(x)
    if i is None or not isinstance(i, int):
        raise Unmodelled('bitwise %s' % name)
    return i


def _bit(name, f):
    def g(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return bool(f(a, b))
        return f(bint(a, name), bint(b, name))
    return g


ARITH = {
    'add': nadd, 'sub': nsub, 'mul': nmul, 'div': ndiv,
    'floordiv': nfloordiv, 'mod': nmod, 'pow': npow,
    'and': _bit('and', lambda a, b: a & b),
    'or': _bit('or', lambda a, b: a | b),
    'xor': _bit('xor', lambda a, b: a ^ b),
    'lshift': _bit('lshift', lambda a, b: a << b),
    'rshift': _bit('rshift', lambda a, b: a >> b),
}


def truth(x):
    """python truthiness of a scalar"""
    if isinstance(x, bool):
        return x
    if x is None:
        return False
    if isinstance(x, (int, Z)):
        return not PATH.eq(zz(x), 0)
    if isinstance(x, Sc):
        if x.const is not None:
            return x.const != 0
        if x.tag == 'bool':
            PATH.blind = True
            return PATH.choose(('truth', x.fp), 2, x.rep) == 0
        return not core.cmp_eq(x, sc_const(0))
    if isinstance(x, Arr):
        if x.ndim == 0:
            return truth(x.get(()))
        n = x.size
        if isinstance(n, int) and n == 1:
            return truth(x.get(tuple(Z.c(0) for _ in range(x.ndim))))
        raise AbsRaise('ValueError', 'truth value of an array is ambiguous')
    raise Unmodelled('truth of %r' % (x,))


def _flatset(kindname, a):
    t = a.tag
    if isinstance(t, tuple) and t[0] == kindname:
        return t[1]
    return frozenset([a.fp])


def nmaxmin(kindname, a, b):
    """max/min of two scalars"""
    ia, ib = toint(a), toint(b)
    if ia is not None and ib is not None:
        if isinstance(ia, int) and isinstance(ib, int):
            return max(ia, ib) if kindname == 'max' else min(ia, ib)
        ge = PATH.ge0(zz(ia) - zz(ib))
        if kindname == 'max':
            return ia if ge else ib
        return ib if ge else ia
    a, b = sc(a), sc(b)
    if core.same(a, b) is True:
        return a
    if a.const is not None and b.const is not None:
        f = max if kindname == 'max' else min
        return sc_const(f(a.const, b.const))
    oa, ob = PATH.order.get(a.fp), PATH.order.get(b.fp)
    if oa and ob and oa[0] == ob[0]:
        if kindname == 'max':
            return a if oa[1] >= ob[1] else b
        return a if oa[1] <= ob[1] else b
    g = core.order_sign(a, b)
    if g is not None:
        return a if (g > 0) == (kindname == 'max') else b
    if a.unknown() or b.unknown():
        return sc_top(kindname)
    s = _flatset(kindname, a) | _flatset(kindname, b)
    key = tuple(sorted(s, key=repr))
    r = Sc(prf((kindname,) + key), ops=a.ops | b.ops,
           rep=core.rp('%s(%s, %s)' % (kindname, a.rep, b.rep)))
    r.tag = (kindname, s)
    f = max if kindname == 'max' else min
    return core._fix(r, lambda x, y: (f(x[0], y[0]), f(x[1], y[1])), f, a, b)
