"""More of the numpy API, for arrays of concrete extents: the idioms the
analysed modules do not use today but a maintainer may use tomorrow."""
import itertools
import math
from fractions import Fraction
from . import core, arrays as A, npmodel as N
from .core import Z, Sc, PATH, Unmodelled, sc, sc_const, simp
from .arrays import Arr, AbsRaise
from .values import *

LIMIT = 4096


def dims(a):
    sh = []
    for s in a.shape:
        if not isinstance(s, int):
            raise Unmodelled('symbolic extent')
        sh.append(s)
    return tuple(sh)


def count(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def flat(a):
    """elements in C order"""
    sh = dims(a)
    if count(sh) > LIMIT:
        raise Unmodelled('large array')
    rd = a.reader()
    return [N.unboxv(rd(tuple(Z.c(i) for i in ix)), a.dtype)
            for ix in itertools.product(*[range(s) for s in sh])]


def nest(vals, sh):
    if not sh:
        return vals[0]
    if len(sh) == 1:
        return list(vals)
    n = count(sh[1:])
    return [nest(vals[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]


def mk(sh, vals, dtype):
    sh = tuple(sh)
    if not sh:
        return A.scalar_arr(vals[0], dtype)
    if 0 in sh:
        return A.fresh(sh, lambda b: 0, dtype)
    return A.const_array(nest(vals, sh), dtype)


def arr(x):
    return N.toarr(x)


def out1(r):
    return N.unbox(r) if isinstance(r, Arr) and r.ndim == 0 else r


def along(fn, a, axis, dtype=None, keepdims=False):
    """reduce the last axis of concrete a with fn(list)"""
    a = arr(a)
    dt = dtype or a.dtype
    if axis is None:
        return fn(flat(a))
    if isinstance(axis, (tuple, list)):
        raise Unmodelled('several axes')
    ax = N.axis_arg(axis, a.ndim)
    sh = dims(a)
    m = N.moveaxis(a, ax, -1)
    v = flat(m)
    n = sh[ax]
    rest = [s for k, s in enumerate(sh) if k != ax]
    if n == 0:
        vals = [fn([]) for _ in range(count(rest))]
    else:
        vals = [fn(v[i:i + n]) for i in range(0, len(v), n)]
    if not rest:
        r = vals[0]
        return N.expand_dims(arr(r), 0) if keepdims else r
    r = mk(rest, vals, dt)
    return N.expand_dims(r, ax) if keepdims else r


def mapaxis(fn, a, axis, dtype=None):
    """replace every line along axis by fn(line)"""
    a = arr(a)
    ax = N.axis_arg(axis, a.ndim)
    sh = dims(a)
    m = N.moveaxis(a, ax, -1)
    v = flat(m)
    n = sh[ax]
    rest = [s for k, s in enumerate(sh) if k != ax]
    lines = [fn(v[i:i + n]) for i in range(0, len(v), n)] if n else \
        [fn([]) for _ in range(count(rest))]
    k = len(lines[0]) if lines else n
    r = mk(rest + [k], [x for l in lines for x in l], dtype or a.dtype)
    return N.moveaxis(r, -1, ax)


def argsort_list(v):
    out = []
    for i, x in enumerate(v):
        j = len(out)
        while j and nlt(x, v[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


def argsort(a, axis=-1, kind=None, **kw):
    if axis is None:
        a, axis = N.ravel(a), 0
    return mapaxis(argsort_list, a, axis, 'i8')


def best(v, less):
    if not v:
        raise AbsRaise('ValueError', 'attempt to get argmax of an empty '
                       'sequence')
    k = 0
    for i in range(1, len(v)):
        if less(v[k], v[i]):
            k = i
    return k


def argmax(a, axis=None, out=None, keepdims=False):
    a = arr(a)
    if kind(a.dtype) == 'b':
        less = lambda x, y: bool(truth(y)) and not truth(x)
    else:
        less = nlt
    return along(lambda v: best(v, less), a, axis, 'i8', keepdims)


def argmin(a, axis=None, out=None, keepdims=False):
    return along(lambda v: best(v, lambda x, y: nlt(y, x)), a, axis, 'i8',
                 keepdims)


def nonzero(a):
    a = arr(a)
    sh = dims(a)
    hits = [ix for ix, v in zip(itertools.product(*[range(s) for s in sh]),
                                flat(a)) if truth(v)]
    return tuple(mk((len(hits),), [h[k] for h in hits], 'i8')
                 for k in range(len(sh)))


def flatnonzero(a):
    return nonzero(N.ravel(arr(a)))[0]


def argwhere(a):
    a = arr(a)
    t = nonzero(a)
    return N.stack(list(t), 1) if t else None


def count_nonzero(a, axis=None, keepdims=False):
    return along(lambda v: sum(1 for x in v if truth(x)), a, axis, 'i8',
                 keepdims)


_where = N.where


def where(c, *xy):
    if not xy:
        return nonzero(c)
    return _where(c, *xy)


def diag(a, k=0):
    a = arr(a)
    k = N.const_int(k)
    if a.ndim == 1:
        v = flat(a)
        n = len(v) + abs(k)
        z = 0 if kind(a.dtype) in 'iub' else sc_const(0)
        m = [[z] * n for _ in range(n)]
        for i, x in enumerate(v):
            m[i + max(0, -k)][i + max(0, k)] = x
        return mk((n, n), [x for r in m for x in r], a.dtype)
    if a.ndim != 2:
        raise AbsRaise('ValueError', 'Input must be 1- or 2-d.')
    return diagonal(a, k)


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = arr(a)
    k = N.const_int(offset)
    m = N.moveaxis(a, [axis1, axis2], [0, 1])
    n = max(0, min(dims(m)[0] + min(0, k), dims(m)[1] - max(0, k)))
    if n == 0:
        raise Unmodelled('empty diagonal')
    return N.stack([A.getitem(m, (i + max(0, -k), i + max(0, k)))
                    for i in range(n)], -1)


def trace(a, offset=0, **kw):
    return N.nsum(diagonal(a, offset), -1)


def tri_mask(a, keep):
    a = arr(a)
    sh = dims(a)
    if len(sh) < 2:
        raise Unmodelled('triangle of a vector')
    z = 0 if kind(a.dtype) in 'iub' else sc_const(0)
    vals = [v if keep(ix[-2], ix[-1]) else z for ix, v in zip(
        itertools.product(*[range(s) for s in sh]), flat(a))]
    return mk(sh, vals, a.dtype)


def triu(a, k=0):
    k = N.const_int(k)
    return tri_mask(a, lambda i, j: j - i >= k)


def tril(a, k=0):
    k = N.const_int(k)
    return tri_mask(a, lambda i, j: j - i <= k)


def tri(n, m=None, k=0, dtype=float):
    n = N.const_int(n)
    m = n if m is None else N.const_int(m)
    k = N.const_int(k)
    return mk((n, m), [sc_const(int(j - i <= k)) for i in range(n)
                       for j in range(m)], 'f8')


def scan(f, a, axis, dtype=None):
    a = arr(a)
    if axis is None:
        a, axis = N.ravel(a), 0

    def line(v):
        out = []
        for x in v:
            out.append(x if not out else f(out[-1], x))
        return out
    return mapaxis(line, a, axis, dtype)


_cumsum = N.cumsum


def cumsum(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if axis is not None and a.ndim > 1:
        return N.out_(scan(nadd, a, axis), out)
    if kind(a.dtype) == 'b':
        a = N.cast(a, 'i8')
    if dtype is not None:
        a = N.asarray(a, dtype)
    return _cumsum(a, axis, None, out)


def cumprod(a, axis=None, dtype=None, out=None):
    return N.out_(scan(nmul, a, axis), out)


def average(a, axis=None, weights=None, returned=False, **kw):
    if returned:
        raise Unmodelled('average returned')
    if weights is None:
        return N.mean(a, axis)
    a, w = arr(a), arr(weights)
    if a.shape != w.shape:
        if axis is None or w.ndim != 1:
            raise Unmodelled('average')
        key = [None] * a.ndim
        key[N.axis_arg(axis, a.ndim)] = slice(None)
        w = A.getitem(w, tuple(key))
    s = N.nsum(N.binop('mul', a, w), axis)
    return N.binop('div', s, N.nsum(N.binop('add', w, N.binop('mul', a, 0)),
                                    axis))


def inner(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return N.binop('mul', a, b)
    if b.ndim == 1:
        return N.dot(a, b)
    return N.tensordot(a, b, (A_list([-1]), A_list([-1]))) if 0 else \
        N.dot(a, N.swapaxes(b, -1, -2))


def A_list(l):
    return l


def vdot(a, b):
    return N.dot(N.ravel(a), N.ravel(b))


def kron(a, b):
    a, b = arr(a), arr(b)
    n = max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + dims(a)
    sb = (1,) * (n - b.ndim) + dims(b)
    a, b = N.reshape(a, sa), N.reshape(b, sb)
    ka = tuple(x for _ in range(n) for x in (slice(None), None))
    kb = tuple(x for _ in range(n) for x in (None, slice(None)))
    r = N.binop('mul', A.getitem(a, ka), A.getitem(b, kb))
    return N.reshape(A.copy(r), tuple(x * y for x, y in zip(sa, sb)))


_cross = N.cross


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = arr(a), arr(b)
    if a.ndim == 1 and b.ndim == 1 and a.shape[0] == 3 and b.shape[0] == 3:
        return _cross(a, b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = N.moveaxis(a, axisa, -1), N.moveaxis(b, axisb, -1)
    if dims(a)[-1] != 3 or dims(b)[-1] != 3:
        raise Unmodelled('cross of 2-vectors')
    x = [A.getitem(a, (Ellipsis, i)) for i in range(3)]
    y = [A.getitem(b, (Ellipsis, i)) for i in range(3)]

    def d(i, j):
        return N.binop('sub', N.binop('mul', x[i], y[j]),
                       N.binop('mul', x[j], y[i]))
    r = N.stack([arr(d(1, 2)), arr(d(2, 0)), arr(d(0, 1))], -1)
    return N.moveaxis(r, -1, axisc)


def sign1(x):
    i = toint(x)
    if isinstance(i, int):
        s = (i > 0) - (i < 0)
    else:
        s = 0 if neq(x, 0) else 1 if nlt(0, x) else -1
    return sc_const(s) if isinstance(x, Sc) else s


def same_kind(f):
    """elementwise, keeping the type"""
    def g(a, out=None, **kw):
        if isinstance(a, (Arr, list, tuple, N.SymList)) or \
           hasattr(a, 'attrs'):
            a = arr(a)
            if a.ndim == 0:
                return N.out_(f(N.unbox(a)), out)
            rd = a.reader()
            r = A.from_axisfn(a.axes, lambda i: f(
                N.unboxv(rd(i), a.dtype)), a.dtype)
            r.buf.layout = (a,)
            return N.out_(r, out)
        return N.out_(f(a), out)
    return g


def abs1(x):
    i = toint(x)
    if isinstance(i, int):
        return sc_const(abs(i)) if isinstance(x, Sc) else abs(i)
    if isinstance(x, Z):
        return x if PATH.ge0(x) else simp(-x)
    return core.absval(sc(x))


def const_of(x):
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if isinstance(x, Sc) and x.const is not None:
        return x.const
    return None


def rounder(name, f):
    def g(x, *a):
        i = toint(x)
        if i is not None and not a:
            return x
        c = const_of(x)
        if c is None:
            if a and N.const_int(a[0]) != 0:
                raise Unmodelled('%s of a symbol' % name)
            return core.func(name, sc(x))
        if a:
            k = Fraction(10) ** N.const_int(a[0])
            return sc_const(f(c * k) / k)
        return sc_const(f(c))
    return g


def trunc0(c):
    return Fraction(int(c))


round1 = rounder('round', lambda c: Fraction(round(c)))


def around(a, decimals=0, out=None):
    d = N.const_int(decimals)
    return same_kind(lambda x: round1(x) if d == 0 else round1(x, d))(a, out)


def roll(a, shift, axis=None):
    a = arr(a)
    if axis is None:
        r = roll(N.ravel(a), shift, 0)
        return N.reshape(r, dims(a))
    if isinstance(axis, (tuple, list)):
        sh = shift if isinstance(shift, (tuple, list)) else \
            [shift] * len(axis)
        for s, x in zip(sh, axis):
            a = roll(a, s, x)
        return a
    k = N.const_int(shift)
    return mapaxis(lambda v: v[-k % len(v):] + v[:-k % len(v)] if v else v,
                   a, axis)


def delete(a, idx, axis=None):
    a = arr(a)
    if axis is None:
        a, axis = N.ravel(a), 0
    n = dims(a)[N.axis_arg(axis, a.ndim)]
    if isinstance(idx, slice):
        drop = range(*idx.indices(n))
    else:
        d = arr(idx)
        if kind(d.dtype) == 'b':
            d = flatnonzero(d)
        drop = []
        for i in flat(d):
            i = N.const_int(i)
            if not -n <= i < n:
                raise AbsRaise('IndexError', 'index out of bounds')
            drop.append(i % n)
    return N.take(a, A.const_array([i for i in range(n) if i not in drop],
                                   'i8'), axis) if len(set(drop)) < n else \
        A.getitem(a, tuple(slice(0, 0) if k == N.axis_arg(axis, a.ndim) else
                           slice(None) for k in range(a.ndim)))


def insert(a, idx, v, axis=None):
    a = arr(a)
    if axis is None:
        a, axis = N.ravel(a), 0
    ax = N.axis_arg(axis, a.ndim)
    m = N.moveaxis(a, ax, 0)
    n = dims(m)[0]
    if isinstance(idx, slice):
        raise Unmodelled('insert slice')
    d = arr(idx)
    single = d.ndim == 0
    at = [N.const_int(i) for i in flat(d)]
    for i in at:
        if not -n <= i <= n:
            raise AbsRaise('IndexError', 'index out of bounds')
    at = [i + n if i < 0 else i for i in at]
    v = arr(v)
    rows = [A.getitem(m, (i,)) for i in range(n)]
    if single:
        if a.ndim == 1:
            new = [N.unbox(arr(x)) for x in flat(v)]
        elif v.ndim < a.ndim:
            new = [v]
        else:
            w = N.moveaxis(v, ax, 0)
            new = [A.getitem(w, (i,)) for i in range(dims(w)[0])]
        at = at * len(new)
    else:
        w = v if v.ndim == a.ndim == 1 else None
        if w is None and v.ndim == 0:
            new = [v] * len(at)
        elif w is None:
            raise Unmodelled('insert of rows')
        else:
            new = [A.getitem(w, (i if dims(w)[0] > 1 else 0,))
                   for i in range(len(at))]
    sh = dims(m)[1:]
    out = []
    order = sorted(range(len(at)), key=lambda j: at[j])
    for i in range(n + 1):
        for j in order:
            if at[j] == i:
                out.append(N.broadcast_to(arr(new[j]), sh) if sh
                           else arr(new[j]))
        if i < n:
            out.append(rows[i])
    r = N.stack([N.asarray(x, a.dtype) for x in out], 0)
    return N.moveaxis(r, 0, ax) if a.ndim > 1 else r


def diag_indices(n, ndim=2):
    i = N.arange(n)
    return (i,) * N.const_int(ndim)


def flipud(a):
    return N.flip(a, 0)


def fliplr(a):
    return N.flip(a, 1)


def rot90(a, k=1, axes=(0, 1)):
    a = arr(a)
    k = N.const_int(k) % 4
    x, y = axes
    for _ in range(k):
        a = N.swapaxes(N.flip(a, y), x, y)
    return a


def broadcast_arrays(*arrs, **kw):
    arrs = [arr(a) for a in arrs]
    sh = A.broadcast_shape([a.shape for a in arrs])
    return tuple(N.broadcast_to(a, sh) for a in arrs)


def ix_(*arrs):
    out = []
    for i, a in enumerate(arrs):
        a = arr(a)
        if kind(a.dtype) == 'b':
            a = flatnonzero(a)
        key = [None] * len(arrs)
        key[i] = slice(None)
        out.append(A.getitem(a, tuple(key)))
    return tuple(out)


def indices(dimensions, dtype=int, sparse=False):
    sh = [N.const_int(s) for s in dimensions]
    n = len(sh)
    ix = list(itertools.product(*[range(s) for s in sh]))
    return mk([n] + sh, [i[k] for k in range(n) for i in ix], 'i8')


def compress(cond, a, axis=None, out=None):
    idx = flatnonzero(cond)
    return N.take(a, idx, axis)


def cuts(n, sections, exact):
    if isinstance(sections, (list, tuple, Arr)):
        pts = [N.const_int(x) for x in (
            sections if not isinstance(sections, Arr) else flat(sections))]
        pts = [0] + pts + [n]
        return list(zip(pts[:-1], pts[1:]))
    k = N.const_int(sections)
    if exact and n % k:
        raise AbsRaise('ValueError', 'array split does not result in an '
                       'equal division')
    q, r = divmod(n, k)
    out, p = [], 0
    for i in range(k):
        m = q + (1 if i < r else 0)
        out.append((p, p + m))
        p += m
    return out


def split_(exact, axis0=0):
    def f(a, sections, axis=axis0):
        a = arr(a)
        ax = N.axis_arg(axis, a.ndim)
        out = []
        for lo, hi in cuts(dims(a)[ax], sections, exact):
            key = [slice(None)] * a.ndim
            key[ax] = slice(lo, hi)
            out.append(A.getitem(a, tuple(key)))
        return PList(out)
    return f


PList = list        # set by pyinterp


def close1(x, y, rtol, atol):
    if core.same(sc(x), sc(y)) is True:
        return True
    a, b = const_of(x), const_of(y)
    if a is not None and b is not None:
        return abs(a - b) <= atol + rtol * abs(b)
    return None


def tols(rtol, atol):
    r = const_of(rtol) if rtol is not None else Fraction(1, 10 ** 5)
    t = const_of(atol) if atol is not None else Fraction(1, 10 ** 8)
    return r, t


_allclose = N.allclose


def allclose(a, b, rtol=None, atol=None, **kw):
    a, b = arr(a), arr(b)
    r, t = tols(rtol, atol)
    try:
        sh = A.broadcast_shape([a.shape, b.shape])
        x, y = N.broadcast_to(a, sh), N.broadcast_to(b, sh)
        if r is not None and t is not None and count(dims(x)) <= LIMIT:
            res = [close1(p, q, r, t) for p, q in zip(flat(x), flat(y))]
            if False in res:
                return False
            if None not in res:
                return True
    except Unmodelled:
        pass
    return _allclose(a, b, rtol, atol)


def isclose(a, b, rtol=None, atol=None, **kw):
    a, b = arr(a), arr(b)
    r, t = tols(rtol, atol)
    sh = A.broadcast_shape([a.shape, b.shape])
    x, y = N.broadcast_to(a, sh), N.broadcast_to(b, sh)
    out = []
    for p, q in zip(flat(x), flat(y)):
        c = None if r is None or t is None else close1(p, q, r, t)
        if c is None:
            c = N.free_choice('isclose', [arr(p), arr(q)])
        out.append(c)
    return out1(mk(dims(x), out, 'b1'))


def array_equiv(a, b):
    return N.array_equal(*broadcast_arrays(a, b))


def reciprocal(a, **kw):
    return N.binop('div', 1, a)


def vander(x, n=None, increasing=False):
    v = flat(arr(x))
    n = len(v) if n is None else N.const_int(n)
    e = range(n) if increasing else range(n - 1, -1, -1)
    return mk((len(v), n), [N.binop('pow', a, k) for a in v for k in e],
              arr(x).dtype)


def polyval(p, x):
    r = 0
    for c in flat(arr(p)):
        r = N.binop('add', N.binop('mul', r, x), c)
    return r


def convolve(a, b, mode='full'):
    if mode != 'full':
        raise Unmodelled('convolve mode')
    a, b = arr(a), arr(b)
    x, y = flat(a), flat(b)
    out = [0] * (len(x) + len(y) - 1)
    for i, p in enumerate(x):
        for j, q in enumerate(y):
            out[i + j] = nadd(out[i + j], nmul(p, q))
    return mk((len(out),), out, promote(a.dtype, b.dtype))


def interp(x, xp, fp, left=None, right=None, period=None):
    xs, fs = flat(arr(xp)), flat(arr(fp))
    if period is not None:
        raise Unmodelled('interp period')

    def one(u):
        if nle(u, xs[0]):
            return fs[0] if left is None or neq(u, xs[0]) else left
        for i in range(1, len(xs)):
            if nle(u, xs[i]):
                t = ndiv(nsub(u, xs[i - 1]), nsub(xs[i], xs[i - 1]))
                return nadd(fs[i - 1], nmul(t, nsub(fs[i], fs[i - 1])))
        return fs[-1] if right is None else right
    a = arr(x)
    if a.ndim == 0:
        return sc(one(N.unbox(a)))
    return mk(dims(a), [sc(one(u)) for u in flat(a)], 'f8')


def unravel_index(i, shape, order='C'):
    sh = [N.const_int(s) for s in shape]
    i = N.const_int(i)
    out = []
    for s in (reversed(sh) if order == 'C' else sh):
        i, r = divmod(i, s)
        out.append(r)
    return tuple(reversed(out)) if order == 'C' else tuple(out)


def ravel_multi_index(ix, shape, mode='raise', order='C'):
    sh = [N.const_int(s) for s in shape]
    if any(isinstance(x, Arr) and x.ndim for x in ix):
        r = 0
        for x, s in (zip(ix, sh)):
            r = N.binop('add', N.binop('mul', r, s), x)
        return r
    r = 0
    seqs = list(zip(ix, sh))
    for x, s in (seqs if order == 'C' else seqs[::-1]):
        r = r * s + N.const_int(x)
    return r


def rows(x):
    """sequence argument of r_ and c_"""
    return x if isinstance(x, tuple) else (x,)


def range_of(s):
    start = 0 if s.start is None else s.start
    if isinstance(s.step, complex):
        return N.linspace(start, s.stop, int(abs(s.step)))
    return N.arange(start, s.stop, 1 if s.step is None else s.step)


def r_item(key):
    parts = []
    for x in rows(key):
        if isinstance(x, str):
            raise Unmodelled('r_ directive')
        if isinstance(x, slice):
            parts.append(range_of(x))
        else:
            a = arr(x)
            parts.append(N.reshape(a, (1,)) if a.ndim == 0 else a)
    return N.concatenate(parts, 0)


def c_item(key):
    parts = []
    for x in rows(key):
        if isinstance(x, str):
            raise Unmodelled('c_ directive')
        a = range_of(x) if isinstance(x, slice) else arr(x)
        if a.ndim == 0:
            a = N.reshape(a, (1,))
        parts.append(A.getitem(a, (slice(None), None)) if a.ndim == 1 else a)
    return N.concatenate(parts, -1)


def apply_along_axis(f, axis, a, *args, **kw):
    raise Unmodelled('apply_along_axis')     # replaced by pyinterp


def issub(code, name):
    k = kind(code)
    return k in {'floating': 'f', 'integer': 'iu', 'inexact': 'fc',
                 'number': 'iufc', 'signedinteger': 'i', 'complexfloating':
                 'c', 'bool_': 'b', 'generic': 'iufcbO', 'object_': 'O',
                 'float64': 'f', 'float': 'f', 'int': 'i', 'int64': 'i',
                 'int32': 'i', 'double': 'f'}[name]


def ptp(a, axis=None):
    return N.binop('sub', N.amax(a, axis), N.amin(a, axis))


def median(a, axis=None, **kw):
    def f(v):
        o = [v[i] for i in argsort_list(v)]
        n = len(o)
        if n % 2:
            return sc(o[n // 2])
        return ndiv(nadd(o[n // 2 - 1], o[n // 2]), 2)
    return along(f, a, axis, 'f8')


def var(a, axis=None, ddof=0, **kw):
    def f(v):
        n = len(v)
        m = ndiv(ssum(v), n)
        return ndiv(ssum([nmul(nsub(x, m), nsub(x, m)) for x in v]),
                    n - N.const_int(ddof))
    return along(f, a, axis, 'f8')


def ssum(v):
    r = 0
    for x in v:
        r = nadd(r, x)
    return r


def std(a, axis=None, ddof=0, **kw):
    r = var(a, axis, ddof)
    return N.ufunc1(core.sqrt)(r)


def pad(a, width, mode='constant', constant_values=0, **kw):
    a = arr(a)
    n = a.ndim
    w = width
    if isinstance(w, Arr):
        w = nest(flat(w), dims(w))
    if not isinstance(w, (list, tuple)):
        w = [(w, w)] * n
    else:
        w = list(w)
        if not isinstance(w[0], (list, tuple, Arr)):
            w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * n
        if len(w) == 1:
            w = w * n
    w = [(N.const_int(x), N.const_int(y)) for x, y in w]
    for ax in range(n):
        b, e = w[ax]
        if mode == 'constant':
            c = N.unbox(arr(constant_values))
            if isinstance(c, Arr):
                raise Unmodelled('pad values')
            c = sc(c) if kind(a.dtype) == 'f' else c
            a = mapaxis(lambda v: [c] * b + v + [c] * e, a, ax)
        elif mode == 'edge':
            a = mapaxis(lambda v: [v[0]] * b + v + [v[-1]] * e, a, ax)
        else:
            raise Unmodelled('pad mode')
    return a


def triu_indices(n, k=0, m=None):
    return nonzero(triu(N.full((N.const_int(n), N.const_int(
        n if m is None else m)), 1), k))


def tril_indices(n, k=0, m=None):
    return nonzero(tril(N.full((N.const_int(n), N.const_int(
        n if m is None else m)), 1), k))


def union1d(a, b):
    return N.unique(N.concatenate([N.ravel(a), N.ravel(b)]))


def in_list(x, l):
    for y in l:
        if neq(x, y):
            return True
    return False


def intersect1d(a, b, **kw):
    u = N.unique(arr(a))
    y = flat(arr(b))
    v = [x for x in flat(u) if in_list(x, y)]
    return mk((len(v),), v, u.dtype)


def setdiff1d(a, b, **kw):
    u = N.unique(arr(a))
    y = flat(arr(b))
    v = [x for x in flat(u) if not in_list(x, y)]
    return mk((len(v),), v, u.dtype)


def put(a, ind, v, mode='raise'):
    sh = dims(a)
    vals = flat(arr(v))
    ix = list(itertools.product(*[range(s) for s in sh]))
    for j, i in enumerate(flat(arr(ind))):
        N.setitem(a, ix[N.const_int(i)], vals[j % len(vals)], 'put')


def fill_diagonal(a, v, wrap=False):
    for i in range(min(dims(a))):
        N.setitem(a, (i,) * a.ndim, v, 'fill_diagonal')


def block(x):
    def rec(x, d):
        if isinstance(x, list):
            parts = [rec(y, d - 1) for y in x]
            return N.concatenate(parts, -d)
        a = arr(x)
        while a.ndim < depth:
            a = A.getitem(a, (None, Ellipsis))
        return a

    def dep(x):
        return 1 + dep(x[0]) if isinstance(x, list) else 0
    depth = max(dep(x), 1)
    nd = [0]

    def maxnd(x):
        if isinstance(x, list):
            for y in x:
                maxnd(y)
        else:
            nd[0] = max(nd[0], arr(x).ndim)
    maxnd(x)
    d0 = dep(x)
    depth = max(d0, nd[0])
    return rec(x, d0) if d0 else arr(x)


def multi_dot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = N.dot(arr(r), arr(m))
    return r


def matrix_power(a, n):
    a = arr(a)
    n = N.const_int(n)
    if n < 0:
        a, n = N.inv(a), -n
    r = N.eye(dims(a)[0])
    for _ in range(n):
        r = N.dot(r, a)
    return r


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = _where(arr(c), v, r)
    return r


def choose(i, choices, **kw):
    i = arr(i)
    bs = broadcast_arrays(i, *[arr(c) for c in choices])
    ix = flat(bs[0])
    cs = [flat(b) for b in bs[1:]]
    return mk(dims(bs[0]), [cs[N.const_int(k)][j] for j, k in enumerate(ix)],
              promote(*[b.dtype for b in bs[1:]]))


def fromiter(it, dtype='d', count=-1):
    l = list(it)
    r = N.toarr(l) if l else A.fresh((0,), lambda b: 0, 'f8')
    return N.asarray(r, dtype)


def geomspace(a, b, n=50, **kw):
    raise Unmodelled('geomspace')


def ndenumerate(a):
    a = arr(a)
    sh = dims(a)
    return list(zip(itertools.product(*[range(s) for s in sh]), flat(a)))


def positive(a, **kw):
    return A.copy(a) if isinstance(a, Arr) else a


def bool_ufunc(v):
    def g(a, **kw):
        a = arr(a)
        if a.ndim == 0:
            return v
        return N.full(a.shape, v, 'b1') if hasattr(N, 'full') else None
    return g


def lexsort(keys, axis=-1):
    ks = [flat(arr(k)) for k in (keys if not isinstance(keys, Arr) else
                                 [A.getitem(keys, (i,)) for i in
                                  range(dims(keys)[0])])]
    idx = list(range(len(ks[0])))
    for k in ks:
        o = argsort_list([k[i] for i in idx])
        idx = [idx[j] for j in o]
    return mk((len(idx),), idx, 'i8')


def frac_gcd(*a):
    r = 0
    for x in a:
        r = math.gcd(r, N.const_int(x))
    return r


def resize(a, shape):
    sh = [N.const_int(s) for s in (shape if isinstance(shape, (tuple, list))
                                   else [shape])]
    v = flat(arr(a))
    n = count(sh)
    return mk(sh, (v * (n // max(1, len(v)) + 1))[:n], arr(a).dtype)


# ---------------------------------------------------------------------------
# advanced indexing with concrete indices

def expand(a, k):
    """key without Ellipsis, masks replaced by index arrays"""
    out = []
    nreal = 0
    for x in k:
        if x is None or x is Ellipsis:
            continue
        nreal += x.ndim if isinstance(x, Arr) and kind(x.dtype) == 'b' else 1
    if nreal > a.ndim:
        raise AbsRaise('IndexError', 'too many indices for array')
    seen = False
    for x in k:
        if x is Ellipsis:
            out += [slice(None)] * (a.ndim - nreal)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [slice(None)] * (a.ndim - nreal)
    res, ax = [], 0
    for x in out:
        if isinstance(x, Arr) and kind(x.dtype) == 'b':
            sh = dims(x)
            if sh != dims(a)[ax:ax + len(sh)]:
                raise AbsRaise('IndexError', 'boolean index did not match')
            if not sh:
                raise Unmodelled('scalar mask')
            res += list(nonzero(x))
            ax += len(sh)
        else:
            res.append(x)
            if x is not None:
                ax += 1
    return res


def plan(a, k):
    """(result shape, list of element indices in a)"""
    kk = expand(a, k)
    sh = dims(a)
    adv = [i for i, x in enumerate(kk) if isinstance(x, Arr) or N.isint(x)]
    idx = []
    for i in adv:
        x = kk[i]
        x = arr(x)
        if kind(x.dtype) not in 'iu' and x.size != 0:
            raise AbsRaise('IndexError', 'arrays used as indices must be of '
                           'integer (or boolean) type')
        idx.append(x)
    bsh = A.broadcast_shape([x.shape for x in idx])
    bsh = tuple(N.const_int(s) for s in bsh)
    vals = [[N.const_int(v) for v in flat(N.broadcast_to(x, bsh))]
            if count(bsh) else [] for x in idx]
    adjacent = adv == list(range(adv[0], adv[-1] + 1))
    # dimensions of the result
    ax, axes = 0, []
    for x in kk:
        if x is None:
            axes.append(('new', None))
        else:
            axes.append(('ax', ax))
            ax += 1
    for i, v in zip(adv, vals):
        n = sh[axes[i][1]]
        for j, p in enumerate(v):
            if not -n <= p < n:
                raise AbsRaise('IndexError', 'index %d is out of bounds for '
                               'axis with size %d' % (p, n))
            v[j] = p % n
    before, after = [], []
    for i, x in enumerate(kk):
        if i in adv:
            continue
        if x is None:
            e = (None, [None])
        else:
            s = slice(*[None if y is None else N.const_int(y)
                        for y in (x.start, x.stop, x.step)])
            e = (axes[i][1], list(range(*s.indices(sh[axes[i][1]]))))
        (before if adjacent and i < adv[0] else after).append(e)
    shape = [len(e[1]) for e in before] + list(bsh) + \
        [len(e[1]) for e in after]
    out = []
    for b in itertools.product(*[e[1] for e in before]):
        for j in range(count(bsh)):
            for c in itertools.product(*[e[1] for e in after]):
                ix = [0] * len(sh)
                for e, p in zip(before, b):
                    if e[0] is not None:
                        ix[e[0]] = p
                for i, v in zip(adv, vals):
                    ix[axes[i][1]] = v[j]
                for e, p in zip(after, c):
                    if e[0] is not None:
                        ix[e[0]] = p
                out.append(tuple(ix))
    if len(out) > LIMIT:
        raise Unmodelled('large selection')
    return tuple(shape), out


def gather(a, k):
    shape, ix = plan(a, k)
    rd = a.reader()
    return mk(shape, [rd(tuple(Z.c(i) for i in x)) for x in ix], a.dtype)


def scatter(a, k, value, where):
    shape, ix = plan(a, k)
    if isinstance(value, Arr) and value.ndim:
        v = A.copy(value)
        lead = v.ndim - len(shape)
        if lead > 0:
            if any(s != 1 for s in dims(v)[:lead]):
                raise AbsRaise('ValueError', 'shape mismatch')
            v = N.reshape(v, dims(v)[lead:])
        bs = A.broadcast_shape([v.shape, shape])
        if tuple(bs) != tuple(shape):
            raise AbsRaise('ValueError', 'shape mismatch')
        vals = flat(N.broadcast_to(v, shape))
    else:
        vals = [N.unbox(value)] * len(ix)
    for x, v in zip(ix, vals):
        N.setitem(a, x, v, where)


_advanced, _set_advanced, _get = N.advanced, N.set_advanced, N.get


def advanced(a, k):
    try:
        return _advanced(a, k)
    except Unmodelled:
        return gather(a, k)


def set_advanced(a, k, value, where):
    def hard(x):
        return isinstance(x, Arr) and (x.ndim != 1 or kind(x.dtype) == 'b')
    if any(hard(x) for x in k):
        return scatter(a, k, value, where)
    return _set_advanced(a, k, value, where)


N.advanced = advanced
N.set_advanced = set_advanced


def concrete_mask(m):
    """a mask whose every entry is known without a case split"""
    try:
        v = flat(m)
    except Unmodelled:
        return False
    return len(v) <= 64
