"""Further numpy functions: bitwise, sign and comparison ufuncs, selections,
aliases of numpy 2, memory-order aware copies."""
import itertools
import math
from fractions import Fraction
from . import core, arrays as A, npmodel as N, npextra as X
from .core import Sc, Z, Unmodelled, sc, sc_const
from .arrays import Arr, AbsRaise
from .values import *


def pair(f, dtype=None):
    """elementwise function of two arguments"""
    def g(a, b, out=None, **kw):
        if kw.get('where') is not None:
            raise Unmodelled('where=')
        x, y = X.arr(a), X.arr(b)
        code = dtype or promote(x.dtype, y.dtype)
        r = A.elementwise(lambda p, q: f(N.unboxv(p, x.dtype),
                                         N.unboxv(q, y.dtype)), [x, y], code)
        return N.out_(N.unbox(r) if r.ndim == 0 else r, out)
    return g


def copysign(a, b):
    v = sc(X.abs1(a))
    return sub0(v) if nlt(b, 0) else v


def sub0(v):
    return N.neg(v)


def heaviside(x, h):
    return sc_const(0) if nlt(x, 0) else sc(h) if neq_(x, 0) else sc_const(1)


def neq_(x, c):
    return not nlt(x, c) and not nlt(c, x)


def fmod(a, b):
    x, y = X.const_of(a), X.const_of(b)
    if x is None or y is None or y == 0:
        raise Unmodelled('fmod')
    q = x / y
    r = x - y * int(q)
    return int(r) if isinstance(toint(a), int) and not isinstance(
        a, Sc) and not isinstance(b, Sc) else sc_const(r)


def intpair(f):
    def g(a, b):
        i, j = toint(a), toint(b)
        if not isinstance(i, int) or not isinstance(j, int) or isinstance(
                a, Sc) or isinstance(b, Sc):
            raise Unmodelled('integer function of symbols')
        return f(i, j)
    return g


def bits(f):
    def g(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return bool(f(a, b))
        i, j = toint(a), toint(b)
        if isinstance(a, Sc) or isinstance(b, Sc):
            raise AbsRaise('TypeError', 'ufunc not supported')
        if not isinstance(i, int) or not isinstance(j, int):
            raise Unmodelled('bits of symbols')
        return f(i, j)
    return g


def take_along_axis(a, ix, axis=-1):
    a, ix = X.arr(a), X.arr(ix)
    if axis is None:
        a, axis = N.ravel(a), 0
    ax = N.axis_arg(axis, a.ndim)
    sa, si = X.dims(a), X.dims(ix)
    out = []
    for pos in itertools.product(*[range(s) for s in si]):
        k = N.const_int(N.unbox(A.getitem(ix, pos)))
        if not -sa[ax] <= k < sa[ax]:
            raise AbsRaise('IndexError', 'index out of bounds')
        p = [0 if sa[d] == 1 else i for d, i in enumerate(pos)]
        p[ax] = k % sa[ax]
        out.append(a.get(tuple(Z.c(i) for i in p)))
    return X.mk(si, out, a.dtype)


def trim_zeros(a, trim='fb'):
    v = X.flat(X.arr(a))
    zero = lambda x: core.same(sc(x), sc_const(0)) is True or neq_(x, 0)
    i, j = 0, len(v)
    if 'f' in trim.lower():
        while i < j and zero(v[i]):
            i += 1
    if 'b' in trim.lower():
        while j > i and zero(v[j - 1]):
            j -= 1
    return A.getitem(X.arr(a), (slice(i, j),))


def digitize(x, bins, right=False):
    b = X.flat(X.arr(bins))
    if len(b) > 1 and nlt(b[-1], b[0]):
        raise Unmodelled('decreasing bins')
    return N.searchsorted(bins, x, side='left' if right else 'right')


def diagflat(v, k=0):
    return X.diag(N.ravel(X.arr(v)), k)


def extract(cond, a):
    return X.compress(N.ravel(X.arr(cond)), N.ravel(X.arr(a)))


def putmask(a, mask, values):
    m, v = X.flat(X.arr(mask)), X.flat(X.arr(values))
    sh = X.dims(a)
    for n, pos in enumerate(itertools.product(*[range(s) for s in sh])):
        if N.truth(m[n]):
            N.setitem(a, pos if len(pos) > 1 else pos[0], v[n % len(v)],
                      'putmask')


def place(a, mask, values):
    m, v = X.flat(X.arr(mask)), X.flat(X.arr(values))
    sh = X.dims(a)
    k = 0
    for n, pos in enumerate(itertools.product(*[range(s) for s in sh])):
        if N.truth(m[n]):
            N.setitem(a, pos if len(pos) > 1 else pos[0], v[k % len(v)],
                      'place')
            k += 1


def put_along_axis(a, ix, values, axis):
    ix = X.arr(ix)
    ax = N.axis_arg(axis, a.ndim)
    si = X.dims(ix)
    v = N.broadcast_to(X.arr(values), si)
    for pos in itertools.product(*[range(s) for s in si]):
        p = list(pos)
        p[ax] = N.const_int(N.unbox(A.getitem(ix, pos)))
        N.setitem(a, tuple(p), N.unbox(A.getitem(v, pos)), 'put_along_axis')


def vecdot(a, b, axis=-1, **kw):
    return N.nsum(N.binop('mul', X.arr(a), X.arr(b)), axis)


def install(P):
    d = P.NUMPY.d

    def reg(name, f):
        d[name] = P.np_call(name, f)
    for n, m in (('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan'),
                 ('atan2', 'arctan2'), ('concat', 'concatenate'),
                 ('permute_dims', 'transpose'), ('pow', 'power'),
                 ('fmax', 'maximum'), ('fmin', 'minimum'),
                 ('remainder', 'mod'), ('nancumsum', 'cumsum'),
                 ('nancumprod', 'cumprod'), ('nanstd', 'std'),
                 ('nanvar', 'var'), ('nanmedian', 'median'),
                 ('nanargmax', 'argmax'), ('nanargmin', 'argmin')):
        if n not in d and m in d:
            d[n] = d[m]
    reg('copysign', pair(copysign, 'f8'))
    reg('signbit', N.ufunc1(lambda x: bool(nlt(x, 0)), 'b1'))
    reg('heaviside', pair(heaviside, 'f8'))
    reg('fmod', pair(fmod))
    reg('gcd', pair(intpair(math.gcd)))
    reg('lcm', pair(intpair(math.lcm)))
    reg('bitwise_and', pair(bits(lambda a, b: a & b)))
    reg('bitwise_or', pair(bits(lambda a, b: a | b)))
    reg('bitwise_xor', pair(bits(lambda a, b: a ^ b)))
    reg('left_shift', pair(bits(lambda a, b: a << b)))
    reg('right_shift', pair(bits(lambda a, b: a >> b)))
    reg('invert', lambda a, **k: N.invert(X.arr(a)))
    d['bitwise_not'] = d['bitwise_invert'] = d['invert']
    reg('logical_xor', pair(lambda a, b: bool(N.truth(a)) != bool(
        N.truth(b)), 'b1'))
    for n in ('isposinf', 'isneginf', 'isnat'):
        reg(n, X.bool_ufunc(False))
    reg('divmod', lambda a, b: (d['floor_divide'].fn(a, b),
                                d['mod'].fn(a, b)))
    reg('cbrt', N.ufunc1(P._unary('cbrt')))
    for n in ('exp2', 'expm1', 'log10', 'log1p', 'log2', 'tanh', 'arcsinh',
              'arccosh', 'arctanh', 'sinc'):
        if n not in d:
            reg(n, N.ufunc1(P._unary(n)))
    for n in ('take_along_axis', 'trim_zeros', 'digitize', 'diagflat',
              'extract', 'putmask', 'place', 'put_along_axis', 'vecdot'):
        reg(n, globals()[n])
    reg('matrix_transpose', lambda a: N.swapaxes(a, -1, -2))
    reg('unstack', lambda a, axis=0: tuple(
        A.getitem(N.moveaxis(a, axis, 0), (i,)) for i in range(
            N.const_int(X.arr(a).shape[N.axis_arg(axis, X.arr(a).ndim)]))))

    def cumulative(f, unit):
        def g(a, axis=None, dtype=None, out=None, include_initial=False):
            a = X.arr(a)
            if axis is None:
                if a.ndim > 1:
                    raise AbsRaise('ValueError', 'axis is required')
                axis = 0
            r = f(a, axis)
            if include_initial:
                sh = list(X.dims(r))
                sh[N.axis_arg(axis, r.ndim)] = 1
                r = N.concatenate([N.full(tuple(sh), unit, r.dtype), r],
                                  axis)
            return N.out_(r, out)
        return g
    reg('cumulative_sum', cumulative(X.cumsum, 0))
    reg('cumulative_prod', cumulative(X.cumprod, 1))
    reg('unique_values', lambda a: N.unique(a))

    def shares(a, b, *x, **k):
        return isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf
    reg('may_share_memory', shares)
    reg('shares_memory', shares)
    reg('isfortran', lambda a: not a.contig and N.transpose(a).contig)
