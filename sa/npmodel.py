"""Abstract semantics of the numpy API used by the analysed modules (and of
the alternatives a maintainer would plausibly use instead).  Everything here
works on abstract arrays (arrays.Arr); anything outside the model raises
Unmodelled, i.e. yields no verdict."""
import itertools
from fractions import Fraction
from . import core, arrays as A
from .core import (Z, Sc, PATH, Unmodelled, sc, sc_const, sc_top, sc_pi, simp,
                   isint, prf, sc_z)
from .arrays import Arr, AbsRaise
from .values import *
from .values import _DT


class SymList(object):
    """a sequence of symbolic length: item(i) re-evaluates element i"""

    def __init__(self, size, item):
        self.size = Z.c(size)
        self.item = item


class SymSeq(SymList):
    """symbolic iterable (range, array rows, zip, enumerate, ndindex)"""

    def __init__(self, size, item, sizes=None):
        self.size = Z.c(size)
        self.item = item
        self.sizes = sizes      # multi-index iteration (ndindex)


def const_int(x, what='value'):
    i = toint(x)
    if not isinstance(i, int):
        A.initialised(x)
        raise Unmodelled('%s is not a known integer' % what)
    return i


def shape_arg(s):
    if isinstance(s, (list, tuple)):
        return [int_arg(x) for x in s]
    if isinstance(s, Arr):
        if s.ndim == 0:
            return [int_arg(s.get(()))]
        return [int_arg(x) for x in tolist1(s)]
    return [int_arg(s)]


def int_arg(x):
    i = toint(x)
    if i is None:
        A.initialised(x)
        raise Unmodelled('integer argument %r' % (x,))
    return i


def tolist1(a):
    n = a.shape[0]
    if not isinstance(n, int):
        raise Unmodelled('list of symbolic length')
    return [item0(a, i) for i in range(n)]


def item0(a, i):
    return unbox(A.getitem(a, (i,)))


def unbox(a):
    """0-d view -> scalar value"""
    if isinstance(a, Arr) and a.ndim == 0:
        return unboxv(a.get(()), a.dtype)
    return a


def unboxv(v, dtype):
    if isinstance(v, Sc) and kind(dtype) in 'iu':
        i = toint(v)
        if i is not None:
            return i
    if kind(dtype) == 'b':
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Z)):
            return truth(v)
    if kind(dtype) in 'fc' and isinstance(v, (bool, int, Z)):
        return sc(v)
    return v


_array_hook = [None]


def toarr(x, dtype=None):
    """convert to an array; arrays are returned unchanged (dtype ignored)"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool,)):
        return A.scalar_arr(x, dtype or 'b1')
    if isinstance(x, (int, Z)):
        return A.scalar_arr(x, dtype or 'i8')
    if isinstance(x, (float, complex)):
        return A.scalar_arr(sc(x), dtype or 'f8')
    if isinstance(x, Sc):
        return A.scalar_arr(x, dtype or 'f8')
    if isinstance(x, SymList):
        if getattr(x, 'sizes', None):
            raise Unmodelled('array of ndindex')
        i = PATH.fresh('@i', 0)
        PATH.facts.append(x.size - 1 - i)
        e = toarr(x.item(i))
        sub = e.shape

        def content(b):
            v = toarr(x.item(b[0]))
            return v.get(tuple(b[1:]))
        return A.fresh((x.size,) + tuple(sub), content, dtype or e.dtype)
    if isinstance(x, (list, tuple)):
        if dtype == 'O':
            return objarr(x)
        if not any(isinstance(e, (Arr, list, tuple, SymList)) or
                   hasattr(e, 'attrs') for e in x):
            for e in x:
                if e is None or isinstance(e, str):
                    return objarr(x)
                if not isnum(e):
                    raise Unmodelled('array of %r' % (e,))
            dt = dtype or (promote(*[dtof(e) for e in x]) if x else 'f8')
            return A.const_array(list(x), dt)
        parts = [toarr(e, dtype) for e in x]
        return stack(parts, 0, dtype)
    if _array_hook[0] is not None:
        r = _array_hook[0](x)
        if r is not None:
            return r
    if x is None or isinstance(x, str):
        return A.scalar_arr(x, 'O')
    raise Unmodelled('array from %r' % (type(x).__name__,))


def objarr(x):
    x = list(x)
    n = len(x)
    cells = list(x)

    def content(b):
        i = PATH.norm(b[0])
        if i.is_const():
            return cells[int(i.const())]
        raise Unmodelled('object array with a symbolic index')
    return A.fresh((n,), content, 'O')


def dtof(x):
    if isinstance(x, bool):
        return 'b1'
    if isinstance(x, (int, Z)):
        return 'i8'
    return 'f8'


def cast(a, code):
    """values of a converted to dtype code (same contents)"""
    rd = a.reader()
    k1, k2 = kind(a.dtype), kind(code)

    def f(idx):
        return castv(rd(idx), k1, k2)
    return A.from_axisfn(a.axes, f, code)


def castv(v, k1, k2):
    if k2 in 'iu' and k1 == 'f':
        i = toint(v)
        if i is not None:
            return i
        if isinstance(v, Sc) and v.const is not None:
            return int(v.const)
        return core.func('trunc', sc(v)) if isinstance(v, Sc) else v
    if k2 == 'b' and k1 != 'b':
        if isinstance(v, Arr):
            return v
        return truth(v)
    if k2 in 'iuf' and isinstance(v, bool):
        return int(v)
    if k2 in 'fiuc' and k1 == 'O':
        if isinstance(v, Arr):
            if v.ndim:
                raise AbsRaise('ValueError', 'setting an array element with '
                               'a sequence')
            v = v.get(())
        if v is None:
            if k2 == 'f':
                return core.sc_atom('nan')
            raise AbsRaise('TypeError', 'int() argument None')
        return castv(v, 'f' if isinstance(v, Sc) else 'i', k2)
    if k2 in 'fiu' and k1 == 'c':
        return v
    return v


def same_dtype(a, code):
    return norm_code(a.dtype) == norm_code(code)


def asarray(x, dtype=None, order=None, copy=None, **kw):
    code = dtype_code(dtype)
    if isinstance(x, Arr):
        if copy is True or order in ('C', 'F', 'c', 'f') or not (
                code is None or same_dtype(x, code)):
            k = (order or 'K').upper()
            if copy is not True and (code is None or same_dtype(x, code)) \
               and (k not in 'CF' or (x if k == 'C' else
                                      A.transpose(x)).contig):
                return x
            return keep_order(x, code, k)
        return x
    r = toarr(x, code)
    if code is not None and not same_dtype(r, code):
        r = cast(r, code)
    return r


def keep_order(a, code=None, order='K'):
    """copy (converted to the type) in the given memory order"""
    code = code or a.dtype
    r = cast(a, code) if not same_dtype(a, code) else A.copy(a)
    r.buf.dtype = code
    if a.ndim < 2 or order in ('C', 'c'):
        return r
    if order in ('F', 'f'):
        perm = list(range(a.ndim))[::-1]
    else:
        perm = a.memory_order()
        if perm is None:
            r.buf.layout = '?'
            return r
        ones = [k for k in range(a.ndim) if k not in perm]
        perm = ones + perm
        if order in ('A', 'a'):
            if perm != sorted(perm)[::-1] or a.contig:
                return r
        if perm == sorted(perm):
            return r
    t = A.copy(A.transpose(r, perm))
    inv = [perm.index(k) for k in range(a.ndim)]
    return A.transpose(t, inv)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **kw):
    r = asarray(x, dtype, order)
    if isinstance(x, Arr) and r is x and copy is not False:
        r = keep_order(r, None, order or 'K')
    while r.ndim < ndmin:
        r = A.getitem(r, (None, Ellipsis))
    return r


def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype)
    if r.ndim == 0:
        return A.reshape(r, [1])
    if r.contig:
        return r
    return A.copy(r)


def asfortranarray(x, dtype=None):
    r = asarray(x, dtype)
    if r.ndim < 2 or A.transpose(r).contig:
        return r
    return keep_order(r, None, 'F')


def fill(v):
    def f(shape, dtype='d', order='C', **kw):
        r = g(shape, dtype)
        if order in ('F', 'f') and r.ndim > 1:
            r = A.transpose(g(tuple(reversed(r.shape)), dtype))
        return r

    def g(shape, dtype):
        code = dtype_code(dtype) or 'f8'
        if v is None:
            if kind(code) == 'O':
                return objarr_shape(shape_arg(shape), None)
            w = uninitialised(code)
            return A.fresh(shape_arg(shape), lambda b: w, code)
        w = bool(v) if kind(code) == 'b' else v
        if kind(code) == 'O':
            return objarr_shape(shape_arg(shape), v)
        return A.fresh(shape_arg(shape), lambda b: w, code)
    return f


_fresh = itertools.count()


def uninitialised(code):
    """the contents of new memory: anything at all, hence a free symbol (one
    per array)"""
    if kind(code) in 'fiu':
        return core.sc_atom('uninitialised', next(_fresh), rep='uninitialised')
    return sc_top('uninitialised')


def objarr_shape(shape, v):
    return A.fresh(shape, lambda b: v, 'O')


def full(shape, v, dtype=None, order='C'):
    if isinstance(v, (list, tuple)):
        v = toarr(v)
    if isinstance(v, Arr):
        r = A.fresh(shape_arg(shape), lambda b: sc_top(), dtype_code(dtype)
                    or v.dtype)
        A.write(r, v, 'full')
        return r
    code = dtype_code(dtype) or dtof(v)
    return A.fresh(shape_arg(shape), lambda b: v, code)


def like(v):
    def f(a, dtype=None, order='K', shape=None, **kw):
        a = toarr(a)
        code = dtype_code(dtype) or a.dtype
        w = uninitialised(code) if v is None else v
        if shape is not None:
            return A.fresh(shape_arg(shape), lambda b: w, code)
        r = A.from_axisfn(a.axes, lambda idx: w, code)
        r.buf.layout = (a,)
        return r
    return f


def full_like(a, v, dtype=None, **kw):
    a = toarr(a)
    return A.from_axisfn(a.axes, lambda idx: v, dtype_code(dtype) or a.dtype)


def eye(n, m=None, k=0, dtype='d', **kw):
    n = int_arg(n)
    m = n if m is None else int_arg(m)
    code = dtype_code(dtype) or 'f8'

    def f(b):
        return 1 if PATH.eq(b[0] + k, b[1]) else 0
    return A.fresh((n, m), f, code)


def identity(n, dtype='d', **kw):
    return eye(n, None, 0, dtype)


def arange(*args, **kw):
    dtype = dtype_code(kw.pop('dtype', None))
    args = list(args)
    if 'stop' in kw:
        args = [kw.pop('start', 0), kw.pop('stop'), kw.pop('step', 1)]
    if len(args) == 4:
        dtype = dtype_code(args.pop())
    if len(args) == 1:
        args = [0, args[0]]
    if len(args) == 2:
        args.append(1)
    s, e, st = args
    if any(isinstance(x, Sc) for x in args) and dtype is None:
        dtype = 'f8'
        cs = [Fraction(int(x)) if isinstance(x, (int, bool)) else
              x.const if isinstance(x, Sc) else None for x in args]
        if None not in cs and cs[2] != 0 and any(
                c.denominator != 1 for c in cs):
            n = (cs[1] - cs[0]) / cs[2]
            n = max(0, -((-n.numerator) // n.denominator))
            return A.const_array([sc_const(cs[0] + i * cs[2])
                                  for i in range(n)], dtype) if n else \
                A.fresh((0,), lambda b: 0, dtype)
    if all(toint(x) is not None for x in args):
        s, e, st = [toint(x) for x in args]
        if st != 1:
            if all(isinstance(x, int) for x in (s, e, st)):
                return A.const_array(list(range(s, e, st)), dtype or 'i8')
            raise Unmodelled('arange step')
        n = Z.c(e) - Z.c(s)
        if not PATH.ge0(n):
            n = Z.c(0)
        return A.fresh((n,), lambda b: simp(Z.c(s) + b[0]), dtype or 'i8')
    raise Unmodelled('float arange')


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = Z.c(int_arg(num))
    a, b = unbox(toarr(a)), unbox(toarr(b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Unmodelled('linspace of arrays')
    a, b = sc(a), sc(b)
    div = n - 1 if endpoint else n

    def f(i):
        i = i[0]
        if PATH.norm(div) == 0:
            return a
        t = core.div(sc(simp(i)), sc(simp(PATH.norm(div))))
        return core.add(a, core.mul(core.sub(b, a), t))
    r = A.fresh((n,), f, 'f8')
    if retstep:
        return (r, core.div(core.sub(b, a), sc(simp(div))))
    return r


def axis_arg(axis, n):
    i = const_int(axis, 'axis')
    if i < -n or i >= n:
        raise AbsRaise('AxisError', 'axis %d is out of bounds for array of '
                       'dimension %d' % (i, n))
    return i + n if i < 0 else i


def stack(parts, axis=0, dtype=None):
    parts = [toarr(p) for p in parts]
    if not parts:
        raise AbsRaise('ValueError', 'need at least one array to stack')
    nd = parts[0].ndim
    axis = axis_arg(axis, nd + 1)
    out = []
    for p in parts:
        if p.ndim != nd:
            raise AbsRaise('ValueError', 'inhomogeneous shape')
        for k in range(nd):
            if PATH.norm(p.axsize(k)) != PATH.norm(parts[0].axsize(k)) and \
               not PATH.eq(p.axsize(k), parts[0].axsize(k)):
                raise AbsRaise('ValueError', 'inhomogeneous shape %r %r' % (
                    p.shape, parts[0].shape))
        key = [slice(None)] * nd
        key.insert(axis, None)
        out.append(A.getitem(p, tuple(key)))
    return concatenate(out, axis, dtype=dtype)


def concatenate(parts, axis=0, out=None, dtype=None, **kw):
    if isinstance(parts, Arr):
        parts = [A.getitem(parts, (i,)) for i in range(
            const_int(parts.shape[0]))]
    if isinstance(parts, SymList):
        raise Unmodelled('concatenate of a symbolic list')
    parts = [toarr(p) for p in parts]
    if not parts:
        raise AbsRaise('ValueError', 'need at least one array')
    if axis is None:
        parts = [A.reshape(p, [p.size]) for p in parts]
        axis = 0
    nd = parts[0].ndim
    if nd == 0:
        raise AbsRaise('ValueError', 'zero-dimensional arrays cannot be '
                       'concatenated')
    axis = axis_arg(axis, nd)
    for p in parts:
        if p.ndim != nd:
            raise AbsRaise('ValueError', 'all the input array dimensions '
                           'must match: %r and %r' % (parts[0].shape, p.shape))
        for k in range(nd):
            if k != axis and PATH.norm(p.axsize(k)) != PATH.norm(
                    parts[0].axsize(k)):
                if not PATH.eq(p.axsize(k), parts[0].axsize(k)):
                    raise AbsRaise('ValueError', 'concatenate: %r and %r' % (
                        parts[0].shape, p.shape))
    total = Z.c(0)
    offs = []
    for p in parts:
        offs.append(total)
        total = total + p.axsize(axis)
    readers = [p.reader() for p in parts]
    best = []
    for k in range(nd):
        if k == axis:
            best.append((A.Comp(total),))
            continue
        bk = parts[0].axes[k]
        for p in parts:
            if len(p.axes[k]) > len(bk):
                bk = p.axes[k]
        best.append(bk)

    def toz(idx):
        o = []
        for k, i in enumerate(idx):
            r = Z.c(0)
            for c, v in zip(best[k], i):
                r = r * c.size + v
            o.append(r)
        return o

    def f(idx):
        z = toz(idx)
        i = z[axis]
        live = [j for j in range(len(parts))
                if PATH.norm(parts[j].axsize(axis)) != 0]
        for j in live[:-1]:
            if not PATH.ge0(i - offs[j] - parts[j].axsize(axis)):
                z2 = list(z)
                z2[axis] = i - offs[j]
                return readers[j](tuple(z2))
        j = live[-1]
        z2 = list(z)
        z2[axis] = i - offs[j]
        return readers[j](tuple(z2))
    code = dtype_code(dtype) if dtype else promote(*[p.dtype for p in parts])
    r = A.from_axisfn(best, f, code)
    r.buf.layout = tuple(parts)
    if out is not None:
        A.write(out, r, 'concatenate(out=)')
        return out
    return r


def atleast(n):
    def f(*arrs):
        out = []
        for a in arrs:
            a = toarr(a)
            if a.ndim < n:
                if n == 1:
                    a = A.getitem(a, (None,))
                elif n == 2:
                    a = A.getitem(a, (None, None) if a.ndim == 0 else
                                  (None, slice(None)))
                else:
                    key = {0: (None, None, None),
                           1: (None, slice(None), None),
                           2: (slice(None), slice(None), None)}[a.ndim]
                    a = A.getitem(a, key)
            out.append(a)
        return out[0] if len(out) == 1 else tuple(out)
    return f


def vstack(parts, dtype=None, **kw):
    parts = [atleast(2)(p) for p in seq(parts)]
    return concatenate(parts, 0)


def hstack(parts, **kw):
    parts = [atleast(1)(p) for p in seq(parts)]
    return concatenate(parts, 0 if parts[0].ndim == 1 else 1)


def dstack(parts, **kw):
    parts = [atleast(3)(p) for p in seq(parts)]
    return concatenate(parts, 2)


def column_stack(parts):
    out = []
    for p in seq(parts):
        p = toarr(p)
        if p.ndim < 2:
            p = A.getitem(p, (slice(None), None)) if p.ndim == 1 else \
                A.getitem(p, (None, None))
        out.append(p)
    return concatenate(out, 1)


def seq(x):
    if isinstance(x, Arr):
        return [A.getitem(x, (i,)) for i in range(const_int(x.shape[0]))]
    if isinstance(x, SymList):
        raise Unmodelled('symbolic sequence')
    return list(x)


# -- shape manipulation

def transpose(a, axes=None):
    a = toarr(a)
    if axes is None:
        return A.transpose(a)
    ax = [axis_arg(x, a.ndim) for x in seq(axes)]
    return A.transpose(a, ax)


def rollaxis(a, axis, start=0):
    a = toarr(a)
    n = a.ndim
    axis = axis_arg(axis, n)
    start = const_int(start, 'start')
    if start < -n or start > n:
        raise AbsRaise('AxisError', 'start %d' % start)
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    perm = list(range(n))
    if axis == start:
        return A.view(a)
    perm.remove(axis)
    perm.insert(start, axis)
    return A.transpose(a, perm)


def moveaxis(a, source, destination):
    a = toarr(a)
    n = a.ndim
    s = [axis_arg(x, n) for x in (seq(source) if isinstance(
        source, (list, tuple)) else [source])]
    d = [axis_arg(x, n) for x in (seq(destination) if isinstance(
        destination, (list, tuple)) else [destination])]
    order = [k for k in range(n) if k not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return A.transpose(a, order)


def swapaxes(a, i, j):
    a = toarr(a)
    i, j = axis_arg(i, a.ndim), axis_arg(j, a.ndim)
    perm = list(range(a.ndim))
    perm[i], perm[j] = perm[j], perm[i]
    return A.transpose(a, perm)


def order_arg(order):
    if order in ('C', 'c', None, 'K', 'k', 'A', 'a'):
        return 'C'
    if order in ('F', 'f'):
        return 'F'
    raise Unmodelled('order %r' % (order,))


def memory_flat(a):
    """the elements in memory order (order='K'); a view where possible"""
    perm = a.memory_order()
    if perm is None:
        raise Unmodelled('memory order of an array')
    perm = [k for k in range(a.ndim) if k not in perm] + perm
    t = a if perm == sorted(perm) else A.transpose(a, perm)
    return A.reshape(t if t.contig else A.copy(t), [a.size])


def reshape(a, *shape, **kw):
    a = toarr(a)
    order = kw.pop('order', 'C')
    if order in ('A', 'a') and a.ndim > 1:
        if a.memory_order() is None:
            raise Unmodelled('memory order of an array')
        order = 'F' if A.transpose(a).contig and not a.contig else 'C'
    if order in ('K', 'k'):
        raise AbsRaise('ValueError', "order 'K' is not permitted for "
                       "reshaping")
    order = order_arg(order)
    if 'newshape' in kw:
        shape = (kw.pop('newshape'),)
    if 'shape' in kw:
        shape = (kw.pop('shape'),)
    if len(shape) == 2 and isinstance(shape[1], str):
        order = order_arg(shape[1])
        shape = shape[:1]
    shp = shape_arg(shape[0]) if len(shape) == 1 else shape_arg(list(shape))
    if order == 'F':
        t = A.transpose(a)
        src = t if t.contig else A.copy(t)
        r = A.reshape(src, list(reversed(fixneg(a, shp))))
        return A.transpose(r)
    src = a if a.contig else A.copy(a)
    try:
        return A.reshape(src, shp)
    except Unmodelled:
        return regroup(src, shp, src is a)


def regroup(a, shp, view):
    """reshape of concrete extents that do not nest; a copy standing for a
    view, which cannot be written to nor outlive writes to the original"""
    old = [const_int(s) for s in a.shape]
    n = 1
    for s in old:
        n *= s
    new = [const_int(s) for s in shp]
    if new.count(-1) == 1:
        m = 1
        for s in new:
            m *= s
        if m == 0 or n % m:
            raise AbsRaise('ValueError', 'cannot reshape array')
        new[new.index(-1)] = n // -m
    rd = a.reader()
    buf, n0 = a.buf, a.buf.nwrites

    def content(b):
        if view and buf.nwrites != n0:
            raise Unmodelled('reshaped array written meanwhile')
        k = 0
        for i, s in zip(b, new):
            i = PATH.norm(i)
            if not i.is_const():
                raise Unmodelled('reshape %r -> %r' % (old, new))
            k = k * s + i.const()
        idx = []
        for s in reversed(old):
            k, r = divmod(k, s)
            idx.append(Z.c(r))
        return rd(tuple(reversed(idx)))
    return A.fresh(new, content, a.dtype, 'lossy' if view else 'fresh')


def empty(a):
    return any(isinstance(s, int) and s == 0 for s in a.shape)


def fixneg(a, shp):
    return shp


def ravel(a, order='C'):
    a = toarr(a)
    if a.ndim > 1 and order in ('K', 'k'):
        return memory_flat(a)
    if a.ndim > 1 and order in ('A', 'a'):
        return reshape(a, (a.size,), order=order)
    if order_arg(order) == 'F':
        t = A.transpose(a)
        src = t if t.contig else A.copy(t)
        return A.reshape(src, [a.size])
    src = a if a.contig else A.copy(a)
    return A.reshape(src, [a.size])


def flatten(a, order='C'):
    r = ravel(a, order)
    return A.copy(r) if r.buf is toarr(a).buf else r


def squeeze(a, axis=None):
    a = toarr(a)
    key = []
    axes = None if axis is None else [
        axis_arg(x, a.ndim) for x in (seq(axis) if isinstance(
            axis, (list, tuple)) else [axis])]
    for k in range(a.ndim):
        if axes is not None:
            if k in axes:
                if not PATH.eq(a.axsize(k), 1):
                    raise AbsRaise('ValueError', 'cannot squeeze')
                key.append(0)
            else:
                key.append(slice(None))
        else:
            key.append(0 if PATH.eq(a.axsize(k), 1) else slice(None))
    return A.getitem(a, tuple(key))


def expand_dims(a, axis):
    a = toarr(a)
    axes = seq(axis) if isinstance(axis, (list, tuple)) else [axis]
    n = a.ndim + len(axes)
    axes = [axis_arg(x, n) for x in axes]
    key = [None if k in axes else slice(None) for k in range(n)]
    return A.getitem(a, tuple(key))


def flip(a, axis=None):
    a = toarr(a)
    if axis is None:
        axes = range(a.ndim)
    else:
        axes = [axis_arg(x, a.ndim) for x in (
            seq(axis) if isinstance(axis, (list, tuple)) else [axis])]
    key = [slice(None, None, -1) if k in axes else slice(None)
           for k in range(a.ndim)]
    return A.getitem(a, tuple(key))


def broadcast_to(a, shape):
    a = toarr(a)
    shp = shape_arg(shape)
    f = A.broadcast_axis(a, shp)
    return A.fresh(shp, lambda b: f(tuple(b)), a.dtype)


def tile(a, reps):
    a = toarr(a)
    reps = shape_arg(reps)
    n = max(a.ndim, len(reps))
    reps = [1] * (n - len(reps)) + reps
    while a.ndim < n:
        a = A.getitem(a, (None, Ellipsis))
    axes = []
    for k in range(n):
        axes.append((A.Comp(reps[k]),) + tuple(A.Comp(c.size)
                                               for c in a.axes[k]))
    rd = a.reader()

    def f(idx):
        return rd(tuple(i[1:] for i in idx))
    return A.from_axisfn(axes, f, a.dtype)


def ordered(vals):
    """known to be non-decreasing without a new decision"""
    for x, y in zip(vals, vals[1:]):
        x, y = sc(x), sc(y)
        if x.const is not None and y.const is not None:
            if x.const > y.const:
                return False
            continue
        if core.same(x, y) is True:
            continue
        ox, oy = PATH.order.get(x.fp), PATH.order.get(y.fp)
        if not (ox and oy and ox[0] == oy[0] and ox[1] <= oy[1]):
            return False
    return True


def repeat(a, repeats, axis=None):
    a = toarr(a)
    if axis is None:
        a = A.reshape(a if a.contig else A.copy(a), [a.size])
        axis = 0
    axis = axis_arg(axis, a.ndim)
    r = repeats
    if isinstance(r, Arr) and r.ndim == 0:
        r = r.get(())
    if not isinstance(r, (Arr, list, tuple)):
        r = int_arg(r)
        if isinstance(r, Z) or r >= 0:
            if isinstance(r, Z) and not PATH.ge0(r):
                raise AbsRaise('ValueError', 'repeats may not contain '
                               'negative values.')
        else:
            raise AbsRaise('ValueError', 'repeats may not contain negative '
                           'values.')
        axes = [tuple(a.axes[k]) + ((A.Comp(r),) if k == axis else ())
                for k in range(a.ndim)]
        rd = a.reader()

        def f(idx):
            idx = list(idx)
            idx[axis] = idx[axis][:-1]
            return rd(tuple(idx))
        return A.from_axisfn(axes, f, a.dtype)
    ra = toarr(r)
    n = a.shape[axis]
    if ra.ndim == 1 and isinstance(ra.shape[0], int) and ra.shape[0] == 1:
        return repeat(a, item0(ra, 0), axis)
    if isinstance(n, int) and isinstance(ra.shape[0], int):
        if n != ra.shape[0]:
            raise AbsRaise('ValueError', 'operands could not be broadcast')
        parts = []
        for i in range(n):
            key = [slice(None)] * a.ndim
            key[axis] = slice(i, i + 1)
            parts.append(repeat(A.getitem(a, tuple(key)), item0(ra, i), axis))
        if not parts:
            return a
        r = concatenate(parts, axis)
        if a.ndim == 1 and ordered([item0(a, i) for i in range(n)]):
            A.mark_sorted(r)
        return r
    if a.ndim != 1:
        raise Unmodelled('repeat')
    if PATH.norm(a.axsize(0)) != PATH.norm(ra.axsize(0)) and \
       not PATH.eq(a.axsize(0), ra.axsize(0)):
        raise AbsRaise('ValueError', 'operands could not be broadcast')
    return opaque1('repeat', [a, ra], a.dtype)


def opaque1(name, operands, dtype='f8', size=None, lb=0, extra=(),
            integer=False):
    """opaque 1-D array valued operator (value-numbered by congruence)"""
    keys = [A.operand_key(o) for o in operands] + list(extra)
    ops = frozenset([name])
    for o in operands:
        ops = ops | opsof(o)
    if any(k is None for k in keys):
        n = PATH.fresh('n', lb) if size is None else size
        return A.fresh((n,), lambda b: sc_top(name), dtype)
    if size is None:
        size = int_symbol((name, 'size') + tuple(keys), lb=lb, prefix='n')
    tkeys = tuple(keys)

    def f(b):
        i = PATH.norm(b[0])
        if integer:
            return int_symbol((name, tkeys, i.key()))
        return Sc(prf((name, tkeys, i.ev()[:3])), ops=ops,
                  rep='%s(..)[%r]' % (name, i))
    return A.fresh((size,), f, dtype)


def opsof(x):
    """operators an operand's contents depend on (generic element)"""
    if isinstance(x, Sc):
        return x.ops
    if isinstance(x, Arr):
        try:
            idx = []
            for k in range(x.ndim):
                vals = []
                for c in x.axes[k]:
                    s = PATH.norm(c.size)
                    if s.is_const():
                        if s.const() == 0:
                            return frozenset()
                        vals.append(Z.c(0))
                    else:
                        vals.append(Z.c(0))
                idx.append(tuple(vals))
            v = x.get(tuple(idx))
            return v.ops if isinstance(v, Sc) else frozenset()
        except (Unmodelled, AbsRaise):
            return frozenset()
    return frozenset()


# -- arithmetic

def ufunc2(name, f, dtype=None):
    def g(a, b, out=None, **kw):
        if kw.get('where') is not None:
            raise Unmodelled('where=')
        return out_(binop(name, a, b), out)
    return g


def out_(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
        if out is None:
            return r
    k = kind(r.dtype) if isinstance(r, Arr) else \
        'f' if isinstance(r, Sc) else 'i'
    if not isinstance(out, Arr):
        raise AbsRaise('TypeError', 'return arrays must be of ArrayType')
    if k == 'f' and kind(out.dtype) in 'iub':
        raise AbsRaise('UFuncTypeError', 'cannot cast ufunc output')
    A.write(out, r if isinstance(r, Arr) else r, 'out=')
    return out


def ufunc1(f, dtype='f8'):
    def g(a, out=None, **kw):
        if isinstance(a, Arr) or isinstance(a, (list, tuple, SymList)):
            a = toarr(a)
            if a.ndim == 0:
                return out_(f(a.get(())), out)
            rd = a.reader()
            r = A.from_axisfn(a.axes, lambda i: f(rd(i)), dtype or a.dtype)
            r.buf.layout = (a,)
            return out_(r, out)
        if hasattr(a, 'attrs'):
            return g(toarr(a), out)
        return out_(f(a), out)
    return g


def binop(op, a, b):
    """arithmetic/comparison on scalars and arrays"""
    if isinstance(a, Masked) or isinstance(b, Masked):
        m = a if isinstance(a, Masked) else b
        xa = a.arr if isinstance(a, Masked) else a
        xb = b.arr if isinstance(b, Masked) else b
        if isinstance(a, Masked) and isinstance(b, Masked):
            if a.mask is not b.mask and \
               A.arrays_same(a.mask, b.mask) is not True:
                raise Unmodelled('selections with different masks')
        elif isinstance(xa, Arr) and isinstance(xb, Arr) and \
                xa.ndim and xb.ndim:
            raise Unmodelled('masked selection and array')
        return Masked(binop(op, xa, xb), m.mask)
    if op in CMP:
        f = CMP[op]
    else:
        f = ARITH[op]
    if not isinstance(a, (Arr, list, tuple, SymList)) and \
       not isinstance(b, (Arr, list, tuple, SymList)):
        return f(a, b)
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 and b.ndim == 0:
        return f(unboxv(a.get(()), a.dtype), unboxv(b.get(()), b.dtype))
    if op in CMP:
        dt = 'b1'
    else:
        dt = promote(a.dtype, b.dtype)
        if op == 'div' and kind(dt) in 'iub':
            dt = 'f8'
        if op in ('add', 'sub', 'mul') and kind(dt) == 'b':
            def f(x, y, op=op):
                raise Unmodelled('boolean arithmetic')
    ka, kb = a.dtype, b.dtype
    if kind(ka) == 'O' or kind(kb) == 'O':
        g = f

        def f(x, y):
            if isinstance(x, Arr) or isinstance(y, Arr):
                return binop(op, x, y)
            return g(x, y)
        r = A.elementwise(f, [a, b], dt if op in CMP else 'O')
    else:
        r = A.elementwise(lambda x, y: f(unboxv(x, ka), unboxv(y, kb)),
                          [a, b], dt)
    if op in CMP:
        set_pred(r, (op, a, b))
    return r


_preds = {}


def set_pred(r, p):
    _preds[r.buf.id] = (r.buf, r.buf.nwrites, p)


def get_pred(r):
    p = _preds.get(r.buf.id)
    if p and p[0] is r.buf and p[1] == r.buf.nwrites:
        return p[2]
    return None


def neg(a):
    if isinstance(a, Masked):
        return Masked(neg(a.arr), a.mask)
    if isinstance(a, (Arr, list, tuple)):
        a = toarr(a)
        if a.ndim == 0:
            return nneg(unbox(a))
        rd = a.reader()
        return A.from_axisfn(a.axes, lambda i: nneg(unboxv(rd(i), a.dtype)),
                             a.dtype)
    return nneg(a)


def invert(a):
    if isinstance(a, Arr):
        rd = a.reader()
        if kind(a.dtype) != 'b':
            raise Unmodelled('bitwise not')
        r = A.from_axisfn(a.axes, lambda i: not truth(rd(i)), 'b1')
        p = get_pred(a)
        if p:
            inv = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt',
                   'eq': 'ne', 'ne': 'eq'}
            set_pred(r, (inv[p[0]], p[1], p[2]))
        return r
    if isinstance(a, bool):
        return not a
    return ~const_int(a)


is_sorted = A.is_sorted
SORTED = A.SORTED


def flat_terms(a):
    """all elements when the extent is a small constant, else None"""
    n = a.size
    if isinstance(n, int) and n <= 64:
        its = [range(const_int(s)) for s in a.shape]
        return [unboxv(a.get(tuple(Z.c(i) for i in ix)), a.dtype)
                for ix in itertools.product(*its)]
    return None


def minmax(kindname, a):
    a = toarr(a)
    t = flat_terms(a)
    if t is not None:
        if not t:
            raise AbsRaise('ValueError', 'zero-size array to reduction '
                           'operation which has no identity')
        r = t[0]
        for x in t[1:]:
            r = nmaxmin(kindname, r, x)
        return r
    if PATH.eq(a.size, 0):
        raise AbsRaise('ValueError', 'zero-size array to reduction operation')
    if is_sorted(a):
        i = Z.c(0) if kindname == 'min' else a.axsize(0) - 1
        return unboxv(a.get((i,)), a.dtype)
    s = sort_tag(a)
    if s is not None:
        return minmax(kindname, s)
    flat = A.reshape(a if a.contig else A.copy(a), [a.size]) \
        if a.ndim != 1 else a
    k = A.operand_key(flat)
    if k is None:
        return sc_top(kindname)
    if kind(a.dtype) in 'iu':
        return int_symbol((kindname, k))
    return Sc(prf((kindname, k)), ops=frozenset([kindname]) | opsof(a),
              rep='%s(%s)' % (kindname, flat.buf.name or 'array'))


_sorted_of = {}


def sort_tag(a):
    e = _sorted_of.get(a.buf.id)
    if e and e[0] is a.buf and e[1] == a.buf.nwrites and a.is_full():
        return e[2]
    return None


def decided_lt(a, b):
    """a < b when the order domain decides it without a case split"""
    ia, ib = toint(a), toint(b)
    if ia is not None and ib is not None:
        r = PATH.known_ge0(zz(ib) - zz(ia) - 1)
        return r
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return a.const < b.const
    if core.same(a, b) is True:
        return False
    oa, ob = PATH.order.get(a.fp), PATH.order.get(b.fp)
    if oa and ob and oa[0] == ob[0]:
        return oa[1] < ob[1]
    g = core.order_sign(a, b)
    return None if g is None else g < 0


def decided_sort(t):
    out = []
    for x in t:
        k = len(out)
        while k:
            r = decided_lt(x, out[k - 1])
            if r is None:
                return None
            if not r:
                break
            k -= 1
        out.insert(k, x)
    return out


def sorted_copy(a):
    """contents of np.sort(a) for a 1-D array"""
    if a.ndim != 1:
        raise Unmodelled('sort of a matrix')
    t = flat_terms(a)
    src = A.copy(a)
    if is_sorted(a):
        return A.mark_sorted(src)
    if sort_tag(a) is not None:
        return src
    if t is not None and len(t) <= 1:
        return src
    if t is not None:
        o = decided_sort(t)
        if o is not None:
            return A.const_array(o, a.dtype)
    n = a.axsize(0)
    mn = [None, None]

    def f(b):
        i = PATH.norm(b[0])
        if PATH.eq(i, 0):
            if mn[0] is None:
                mn[0] = minmax('min', src)
            return mn[0]
        if PATH.eq(i, n - 1):
            if mn[1] is None:
                mn[1] = minmax('max', src)
            return mn[1]
        k = A.operand_key(src)
        if k is None:
            return sc_top('sorted')
        return Sc(prf(('sorted', k, i.ev()[:3])), ops=frozenset(['sorted'])
                  | opsof(src), rep='sorted(..)[%r]' % (i,))
    r = A.fresh((n,), f, a.dtype)
    _sorted_of[r.buf.id] = (r.buf, r.buf.nwrites, src)
    return r


def sort_inplace(a, where=''):
    if is_sorted(a):
        return
    s = sorted_copy(a)
    A.write(a, s, where)
    e = _sorted_of.get(s.buf.id)
    if e and a.is_full():
        _sorted_of[a.buf.id] = (a.buf, a.buf.nwrites, e[2])


def npsort(a, axis=-1, kind=None, **kw):
    a = toarr(a)
    if axis is None:
        a, axis = ravel(a), 0
    if a.ndim > 1:
        from . import npextra
        return npextra.mapaxis(
            lambda v: [v[i] for i in npextra.argsort_list(v)], a, axis)
    return sorted_copy(a)


def reduce_axis(fn, a, axis, keepdims=False, dtype=None):
    a = toarr(a)
    if isinstance(axis, (tuple, list)):
        axes = sorted((axis_arg(x, a.ndim) for x in axis), reverse=True)
        for x in axes:
            a = reduce_axis(fn, a, x, keepdims, dtype)
        return a
    axis = axis_arg(axis, a.ndim)
    n = a.shape[axis]
    rd = a.reader()
    axes = [a.axes[k] for k in range(a.ndim) if k != axis]
    if isinstance(n, int):
        def f(idx):
            idx = list(idx)
            vals = []
            for i in range(n):
                j = list(idx)
                j.insert(axis, Z.c(i))
                vals.append(unboxv(rd(tuple(j)), a.dtype))
            return fn(vals)
    else:
        raise Unmodelled('reduction over a symbolic extent')
    if not axes:
        return f(())
    r = A.from_axisfn(axes, f, dtype or a.dtype)
    if keepdims:
        key = [slice(None)] * a.ndim
        key[axis] = None
        return A.getitem(r, tuple(key))
    return r


def amin(a, axis=None, keepdims=False, **kw):
    if axis is None:
        return minmax('min', a)
    a = toarr(a)
    if a.ndim == 1:
        return minmax('min', a)

    def f(v):
        r = v[0]
        for x in v[1:]:
            r = nmaxmin('min', r, x)
        return r
    return reduce_axis(f, a, axis, keepdims)


def amax(a, axis=None, keepdims=False, **kw):
    if axis is None:
        return minmax('max', a)
    a = toarr(a)
    if a.ndim == 1:
        return minmax('max', a)

    def f(v):
        r = v[0]
        for x in v[1:]:
            r = nmaxmin('max', r, x)
        return r
    return reduce_axis(f, a, axis, keepdims)


def opaque_scalar(name, a):
    flat = A.reshape(a if a.contig else A.copy(a), [a.size]) \
        if a.ndim != 1 else a
    k = A.operand_key(flat)
    if k is None:
        return sc_top(name)
    if kind(a.dtype) in 'iub':
        return int_symbol((name, k))
    return Sc(prf((name, k)), ops=frozenset([name]) | opsof(a),
              rep='%s(..)' % name)


def nsum(a, axis=None, keepdims=False, dtype=None, **kw):
    if isinstance(a, SymList):
        a = toarr(a)
    a = toarr(a)

    def f(v):
        r = 0
        for x in v:
            r = nadd(r, int(x) if isinstance(x, bool) else x)
        return r
    if axis is None:
        t = flat_terms(a)
        if t is None:
            return opaque_scalar('sum', a)
        return f(t)
    return reduce_axis(f, a, axis, keepdims)


def nprod(a, axis=None, **kw):
    a = toarr(a)

    def f(v):
        r = 1
        for x in v:
            r = nmul(r, x)
        return r
    if axis is None:
        t = flat_terms(a)
        if t is None:
            return opaque_scalar('prod', a)
        return f(t)
    return reduce_axis(f, a, axis)


def mean(a, axis=None, **kw):
    a = toarr(a)
    if axis is None:
        return ndiv(nsum(a), simp(Z.c(a.size)))
    n = a.shape[axis_arg(axis, a.ndim)]
    return binop('div', nsum(a, axis), n)


_FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq',
         'ne': 'ne'}


def nall(a, axis=None, **kw):
    a = toarr(a)
    if axis is not None:
        return reduce_axis(lambda v: all([truth(x) for x in v]), a, axis,
                           kw.get('keepdims', False), 'b1')
    t = None
    p = get_pred(a)
    if p is not None:
        op, l, r = p
        if flat_small(a):
            t = flat_terms(a)
        else:
            if r.ndim and not l.ndim:
                op, l, r = _FLIP[op], r, l
            if r.ndim == 0 and l.ndim and op in ('lt', 'le', 'gt', 'ge'):
                s = unboxv(r.get(()), r.dtype)
                if PATH.eq(l.size, 0):
                    return True
                if op == 'ge':
                    return nle(s, minmax('min', l))
                if op == 'gt':
                    return nlt(s, minmax('min', l))
                if op == 'le':
                    return nle(minmax('max', l), s)
                return nlt(minmax('max', l), s)
            if op == 'eq' and l.ndim == r.ndim:
                s = A.arrays_same(l, r)
                if s is True:
                    return True
                return free_choice('all-eq', [l, r], degenerate_true=True)
            if op in ('lt', 'le', 'gt', 'ge'):
                return free_choice('all-' + op, [l, r])
    else:
        t = flat_terms(a)
    if t is None:
        return free_choice('all', [a])
    for x in t:
        if not truth(x):
            return False
    return True


def flat_small(a):
    n = a.size
    return isinstance(n, int) and n <= 64


def nany(a, axis=None, **kw):
    a = toarr(a)
    if axis is not None:
        return reduce_axis(lambda v: any([truth(x) for x in v]), a, axis,
                           kw.get('keepdims', False), 'b1')
    p = get_pred(a)
    if p is not None and not flat_small(a):
        return not nall(invert(a))
    t = flat_terms(a)
    if t is None:
        return free_choice('any', [a])
    for x in t:
        if truth(x):
            return True
    return False


def free_choice(name, operands, degenerate_true=False):
    keys = tuple(A.operand_key(o) for o in operands)
    if any(k is None for k in keys):
        keys = ('?', next(core.PATH.counter))
    PATH.blind = True
    c = PATH.choose((name,) + keys, 2, name)
    if c == 1 and degenerate_true:
        PATH.degenerate = True
        return True
    if degenerate_true:
        return False
    return c == 0


def allclose(a, b, rtol=None, atol=None, **kw):
    a, b = toarr(a), toarr(b)
    try:
        shape = A.broadcast_shape([a.shape, b.shape])
        x, y = broadcast_to(a, shape), broadcast_to(b, shape)
        if A.arrays_same(x, y) is True:
            return True
    except Unmodelled:
        x, y = a, b
    if set(kw) <= {'equal_nan'} and far_apart(x, y, rtol, atol):
        return False
    if set(kw) <= {'equal_nan'} and all_near(x, y, rtol, atol):
        return True
    if set(kw) <= {'equal_nan'} and differ(x, y, rtol, atol):
        # distinct values agree within so little on a thin set only
        c = PATH.choose(('allclose', A.operand_key(x), A.operand_key(y)), 2,
                        'allclose')
        if c == 1:
            PATH.degenerate = True
        return c == 1
    return free_choice('allclose', [x, y])


def differ(x, y, rtol, atol):
    if A.operand_key(x) is None or A.operand_key(y) is None:
        return False
    t1, t2 = flat_terms(x), flat_terms(y)
    if t1 is None or t2 is None or len(t1) != len(t2):
        return False
    rtol = sc(Q_RTOL if rtol is None else rtol).const
    atol = sc(Q_ATOL if atol is None else atol).const
    if rtol is None or atol is None or rtol > Q_RTOL * 10 or \
       atol > Q_ATOL * 100:
        return False
    return any(core.same(sc(p), sc(q)) is False for p, q in zip(t1, t2))


def all_near(x, y, rtol, atol):
    """every pair of elements is the same or certainly within the tolerance"""
    t1, t2 = flat_terms(x), flat_terms(y)
    if t1 is None or t2 is None or len(t1) != len(t2):
        return False
    rtol = sc(Q_RTOL if rtol is None else rtol)
    atol = sc(Q_ATOL if atol is None else atol)
    for p, q in zip(t1, t2):
        if core.same(p, q) is True:
            continue
        p, q = sc(p), sc(q)
        d = core.sub(p, q)
        for e in (d, core.sub(sc_const(0), d)):
            if not any(decided_lt(e, core.add(atol, core.mul(rtol, s_)))
                       for s_ in (q, core.sub(sc_const(0), q), 0)):
                return False
    return True


def far_apart(x, y, rtol, atol):
    """some pair of elements certainly differs by more than the tolerance"""
    t1, t2 = flat_terms(x), flat_terms(y)
    if t1 is None or t2 is None or len(t1) != len(t2):
        return False
    rtol = sc(Q_RTOL if rtol is None else rtol)
    atol = sc(Q_ATOL if atol is None else atol)
    for p, q in zip(t1, t2):
        if core.same(p, q) is True:
            continue
        p, q = sc(p), sc(q)
        d = core.sub(p, q)
        tol = [core.add(atol, core.mul(rtol, s_)) for s_ in (
            q, core.sub(sc_const(0), q))]
        for e in (d, core.sub(sc_const(0), d)):
            if all(decided_lt(s_, e) is True for s_ in tol):
                return True
    return False


Q_RTOL, Q_ATOL = Fraction(1, 10**5), Fraction(1, 10**8)


def array_equal(a, b, **kw):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    for k in range(a.ndim):
        if PATH.norm(a.axsize(k)) != PATH.norm(b.axsize(k)):
            if not PATH.eq(a.axsize(k), b.axsize(k)):
                return False
    s = A.arrays_same(a, b)
    if s is True:
        return True
    t1, t2 = flat_terms(a), flat_terms(b)
    if t1 is not None and t2 is not None:
        for x, y in zip(t1, t2):
            if not neq(x, y):
                return False
        return True
    return free_choice('array_equal', [a, b], degenerate_true=True)


def where(c, x=None, y=None):
    if x is None:
        raise Unmodelled('where(cond)')
    c, x, y = toarr(c), toarr(x), toarr(y)
    r = A.elementwise(lambda p, q, s: unboxv(q, x.dtype) if truth(p)
                      else unboxv(s, y.dtype), [c, x, y],
                      promote(x.dtype, y.dtype))
    return unbox(r) if r.ndim == 0 else r


def minimum(a, b, out=None, **kw):
    return out_(_mm('min', a, b), out)


def maximum(a, b, out=None, **kw):
    return out_(_mm('max', a, b), out)


def _mm(k, a, b):
    if isinstance(a, Masked) and isinstance(b, Masked):
        return Masked(_mm(k, a.arr, b.arr), a.mask)
    if isinstance(a, Masked) or isinstance(b, Masked):
        raise Unmodelled('masked maximum')
    if isnum(a) and isnum(b):
        return nmaxmin(k, a, b)
    a, b = toarr(a), toarr(b)
    r = A.elementwise(lambda x, y: nmaxmin(k, unboxv(x, a.dtype),
                                           unboxv(y, b.dtype)), [a, b],
                      promote(a.dtype, b.dtype))
    return unbox(r) if r.ndim == 0 else r


def clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.get('min', kw.get('a_min', lo))
    hi = kw.get('max', kw.get('a_max', hi))
    r = a
    if lo is not None:
        r = _mm('max', r, lo)
    if hi is not None:
        r = _mm('min', r, hi)
    return out_(r, out)


def diff(a, n=1, axis=-1):
    a = toarr(a)
    ax = axis_arg(axis, a.ndim)
    for _ in range(const_int(n)):
        k1 = [slice(None)] * a.ndim
        k2 = [slice(None)] * a.ndim
        k1[ax] = slice(1, None)
        k2[ax] = slice(None, -1)
        a = binop('sub', A.getitem(a, tuple(k1)), A.getitem(a, tuple(k2)))
    return a


def ediff1d(a, **kw):
    return diff(ravel(a))


def cumsum(a, axis=None, dtype=None, out=None):
    a = ravel(a) if axis is None else toarr(a)
    if a.ndim != 1:
        raise Unmodelled('cumsum of a matrix')
    t = flat_terms(a)
    if t is not None:
        vals, r = [], 0
        for x in t:
            r = nadd(r, x)
            vals.append(r)
        res = A.const_array(vals, a.dtype)
    else:
        res = opaque1('cumsum', [a], a.dtype, size=a.axsize(0),
                      integer=kind(a.dtype) in 'iu')
    return out_(res, out)


def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **kw):
    a = ravel(a)
    t = flat_terms(a)
    if t is not None and all(x is not None for x in t):
        # order the elements by decisions
        items = []
        inv = []
        for x in t:
            for j, y in enumerate(items):
                if neq(x, y):
                    break
            else:
                items.append(x)
        out = []
        for x in items:
            k = 0
            while k < len(out) and nlt(out[k], x):
                k += 1
            out.insert(k, x)
        for x in t:
            for j, y in enumerate(out):
                if x is y or neq(x, y):
                    inv.append(j)
                    break
        u = A.const_array(out, a.dtype) if out else \
            A.fresh((0,), lambda b: sc_top(), a.dtype)
        res = [u]
        if return_index:
            res.append(A.const_array([inv.index(j) for j in
                                      range(len(out))], 'i8'))
        if return_inverse:
            res.append(A.const_array(inv, 'i8') if inv else
                       A.fresh((0,), lambda b: 0, 'i8'))
        if return_counts:
            res.append(A.const_array([inv.count(j) for j in
                                      range(len(out))], 'i8'))
        return res[0] if len(res) == 1 else tuple(res)
    if PATH.eq(a.size, 0):
        raise Unmodelled('unique of empty')
    key = A.operand_key(a)
    if key is None:
        n = PATH.fresh('n', 1)
        u = A.fresh((n,), lambda b: sc_top('unique'), a.dtype)
        key = ('?', repr(n))
    else:
        n = int_symbol(('unique', 'size', key), lb=1, facts=[
            lambda q: a.axsize(0) - q], prefix='n')
        ops = frozenset(['unique']) | opsof(a)
        src = A.copy(a)
        if is_sorted(a):
            src = a

        def f(b):
            i = PATH.norm(b[0])
            if PATH.eq(i, 0):
                return minmax('min', src)
            if PATH.eq(i, n - 1):
                return minmax('max', src)
            return Sc(prf(('unique', key, i.ev()[:3])), ops=ops,
                      rep='unique(..)[%r]' % (i,))
        u = A.fresh((n,), f, a.dtype)
        _sorted_of[u.buf.id] = (u.buf, u.buf.nwrites, src)
    res = [u]
    if return_index:
        res.append(opaque1('unique.index', [a], 'i8', size=n, integer=True))
    if return_inverse:
        res.append(opaque1('unique.inverse', [a], 'i8', size=a.axsize(0),
                           integer=True))
    if return_counts:
        res.append(opaque1('unique.counts', [a], 'i8', size=n, integer=True))
    return res[0] if len(res) == 1 else tuple(res)


def bincount(a, weights=None, minlength=0):
    a = toarr(a)
    t = flat_terms(a)
    if t is not None:
        vals = [const_int(x) for x in t]
        n = max(vals + [-1]) + 1
        return A.const_array([vals.count(i) for i in range(n)], 'i8')
    return opaque1('bincount', [a], 'i8', lb=1, integer=True)


def searchsorted(a, v, side='left', sorter=None):
    a = toarr(a)
    side = {'l': 'left', 'r': 'right'}.get(side, side)
    if isinstance(v, (Arr, list, tuple)):
        va = toarr(v)
        if va.ndim:
            n = const_int(va.shape[0])
            return A.const_array([searchsorted(a, item0(va, i), side)
                                  for i in range(n)], 'i8')
        v = unbox(va)
    t = flat_terms(a)
    if t is not None:
        for i, x in enumerate(t):
            if side == 'left':
                if not nlt(x, v):
                    return i
            else:
                if nlt(v, x):
                    return i
        return len(t)
    k1, k2 = A.operand_key(a), A.operand_key(v)
    if k1 is None or k2 is None:
        raise Unmodelled('searchsorted in unknown array')
    z = int_symbol(('searchsorted', k1, k2, side), lb=0, facts=[
        lambda q: a.axsize(0) - q])
    NOTE_OPS[z.key()] = frozenset(['searchsorted'])
    return z


NOTE_OPS = {}


def isin(a, b, **kw):
    a, b = toarr(a), toarr(b)
    t1, t2 = flat_terms(a), flat_terms(b)
    if t1 is not None and t2 is not None:
        return A.const_array([any([neq(x, y) for y in t2]) for x in t1],
                             'b1') if t1 else A.fresh((0,), lambda b: False,
                                                      'b1')
    return A.from_axisfn(a.axes, lambda i: sc_top('isin'), 'b1')


# -- linear algebra

def dot(a, b, out=None):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return out_(binop('mul', a, b), out)
    kb = b.ndim - 2 if b.ndim >= 2 else 0
    return out_(contract(a, a.ndim - 1, b, kb), out)


def contract(a, ka, b, kb):
    n, m = a.axsize(ka), b.axsize(kb)
    if PATH.norm(n) != PATH.norm(m):
        if not PATH.eq(n, m):
            raise AbsRaise('ValueError', 'shapes %r and %r not aligned' % (
                a.shape, b.shape))
    n = simp(PATH.norm(n))
    if not isinstance(n, int):
        m = simp(PATH.norm(m))
        n = m
    if not isinstance(n, int):
        raise Unmodelled('contraction over a symbolic extent')
    axes = [a.axes[k] for k in range(a.ndim) if k != ka] + \
        [b.axes[k] for k in range(b.ndim) if k != kb]
    ra, rb = a.reader(), b.reader()
    na = a.ndim - 1

    def f(idx):
        ia, ib = list(idx[:na]), list(idx[na:])
        s = 0
        for i in range(n):
            x = ra(tuple(ia[:ka] + [Z.c(i)] + ia[ka:]))
            y = rb(tuple(ib[:kb] + [Z.c(i)] + ib[kb:]))
            s = nadd(s, nmul(unboxv(x, a.dtype), unboxv(y, b.dtype)))
        return s
    dt = promote(a.dtype, b.dtype)
    if not axes:
        return f(())
    return A.from_axisfn(axes, f, dt)


def matmul(a, b, out=None, **kw):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise AbsRaise('ValueError', 'matmul: scalar operand')
    if a.ndim <= 2 and b.ndim <= 2 or b.ndim <= 2:
        return out_(dot(a, b), out)
    if a.ndim == 1:
        a2 = A.getitem(a, (None,))
        return out_(A.getitem(matmul(a2, b), (Ellipsis, 0, slice(None))), out)
    n = const_int(a.shape[-1])
    r = None
    for i in range(n):
        x = A.getitem(a, (Ellipsis, slice(None), slice(i, i + 1)))
        y = A.getitem(b, (Ellipsis, slice(i, i + 1), slice(None)))
        p = binop('mul', x, y)
        r = p if r is None else binop('add', r, p)
    return out_(r, out)


def tensordot(a, b, axes=2):
    a, b = toarr(a), toarr(b)
    if isinstance(axes, (list, tuple)):
        x, y = axes
        if not isinstance(x, (list, tuple)):
            x, y = [x], [y]
        if len(x) == 1:
            return contract(a, axis_arg(x[0], a.ndim), b,
                            axis_arg(y[0], b.ndim))
    elif const_int(axes) == 1:
        return contract(a, a.ndim - 1, b, 0)
    else:
        n = const_int(axes)
        x, y = range(a.ndim - n, a.ndim), range(n)
    x = [axis_arg(i, a.ndim) for i in x]
    y = [axis_arg(i, b.ndim) for i in y]
    if len(x) != len(y):
        raise AbsRaise('ValueError', 'shape-mismatch for sum')
    al = 'abcdefghijklmnopqrstuvwxyz'
    la, lb = list(al[:a.ndim]), list(al[a.ndim:a.ndim + b.ndim])
    for i, j in zip(x, y):
        if not PATH.eq(Z.c(a.shape[i]), Z.c(b.shape[j])):
            raise AbsRaise('ValueError', 'shape-mismatch for sum')
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in x] + \
        [c for j, c in enumerate(lb) if j not in y]
    return einsum('%s,%s->%s' % tuple(map(''.join, (la, lb, out))), a, b)


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unmodelled('einsum')
    ops = [toarr(o) for o in ops]
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise AbsRaise('ValueError', 'einsum operands')
    nell = 0
    for s, o in zip(ins, ops):
        if '...' in s:
            nell = max(nell, o.ndim - len(s.replace('...', '')))
    ell = ''.join(chr(0x3b1 + i) for i in range(nell))
    if '->' not in spec:
        letters = ''.join(ins).replace('...', '')
        out = ('...' if '...' in spec else '') + ''.join(
            sorted(c for c in set(letters) if letters.count(c) == 1))
    out = out.replace('...', ell)
    if len(set(out)) != len(out) or not set(out) <= set(''.join(ins) + ell):
        raise AbsRaise('ValueError', 'einsum output subscripts')
    if set(kw) - {'optimize', 'order', 'casting'}:
        raise Unmodelled('einsum ' + ', '.join(kw))
    subs = []
    size = {}
    for s, o in zip(ins, ops):
        if '...' in s:
            k = o.ndim - len(s.replace('...', ''))
            s = s.replace('...', ell[len(ell) - k:])
        if len(s) != o.ndim:
            raise AbsRaise('ValueError', 'einsum subscripts')
        for j, c in enumerate(s):
            n = PATH.norm(o.axsize(j))
            if c not in size or PATH.norm(size[c]) == 1:
                size[c] = o.axsize(j)
            elif n != 1 and PATH.norm(size[c]) != n and \
                    not PATH.eq(size[c], o.axsize(j)):
                raise AbsRaise('ValueError', 'einsum extents')
        subs.append(s)
    summed = [c for c in size if c not in out]
    for c in summed:
        if not PATH.norm(size[c]).is_const():
            raise Unmodelled('einsum over a symbolic extent')
    rds = [o.reader() for o in ops]

    def f(b):
        env = dict(zip(out, b))
        tot = 0
        for combo in itertools.product(*[range(int(PATH.norm(size[c]).const()))
                                         for c in summed]):
            e = dict(env)
            e.update((c, Z.c(i)) for c, i in zip(summed, combo))
            p = 1
            for s, rd, o in zip(subs, rds, ops):
                p = nmul(p, unboxv(rd(tuple(
                    e[c] if PATH.norm(o.axsize(j)) != 1 else Z.c(0)
                    for j, c in enumerate(s))), o.dtype))
            tot = nadd(tot, p)
        return tot
    if not out:
        return f(())
    return A.fresh([size[c] for c in out], f, promote(*[o.dtype
                                                        for o in ops]))


def outer(a, b, out=None):
    a, b = ravel(a), ravel(b)
    return out_(binop('mul', A.getitem(a, (slice(None), None)), b), out)


def cross(a, b, **kw):
    a, b = toarr(a), toarr(b)
    if a.ndim != 1 or b.ndim != 1 or a.shape[0] != 3 or b.shape[0] != 3:
        raise Unmodelled('cross')
    x = [item0(a, i) for i in range(3)]
    y = [item0(b, i) for i in range(3)]
    return A.const_array([
        nsub(nmul(x[1], y[2]), nmul(x[2], y[1])),
        nsub(nmul(x[2], y[0]), nmul(x[0], y[2])),
        nsub(nmul(x[0], y[1]), nmul(x[1], y[0]))], 'f8')


def norm(a, ord=None, axis=None, keepdims=False):
    a = toarr(a)
    if ord not in (None, 2) and not (isinstance(ord, Sc) and ord.const == 2):
        raise Unmodelled('norm ord')

    def f(v):
        s = sc_const(0)
        for x in v:
            s = core.add(s, core.mul(sc(x), sc(x)))
        return core.sqrt(s)
    if axis is not None:
        return reduce_axis(f, a, axis, keepdims)
    t = flat_terms(a)
    if t is None:
        return opaque_scalar('norm', a)
    return f(t)


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return nsub(nmul(m[0][0], m[1][1]), nmul(m[0][1], m[1][0]))
    s = 0
    for j in range(n):
        if isinstance(m[0][j], Sc) and m[0][j].const == 0 or m[0][j] == 0:
            continue
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = nmul(m[0][j], _det(minor))
        s = nadd(s, t) if j % 2 == 0 else nsub(s, t)
    return s


def matrix_list(a):
    n, m = const_int(a.shape[0]), const_int(a.shape[1])
    return [[sc(a.get((Z.c(i), Z.c(j)))) for j in range(m)]
            for i in range(n)]


def inv(a):
    a = toarr(a)
    if a.ndim != 2:
        raise Unmodelled('inv')
    m = matrix_list(a)
    n = len(m)
    d = _det(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = _det(minor) if n > 1 else sc_const(1)
            if (i + j) % 2:
                c = nneg(c)
            out[i][j] = ndiv(sc(c), sc(d))
    return A.const_array(out, 'f8')


def det(a):
    return _det(matrix_list(toarr(a)))


def solve(a, b):
    return dot(inv(a), b)


def hypot(a, b, out=None):
    return out_(_el2(lambda x, y: core.sqrt(core.add(
        core.mul(sc(x), sc(x)), core.mul(sc(y), sc(y)))), a, b), out)


def _el2(f, a, b):
    if isnum(a) and isnum(b):
        return f(a, b)
    a, b = toarr(a), toarr(b)
    r = A.elementwise(f, [a, b], 'f8')
    return unbox(r) if r.ndim == 0 else r


def arctan2(a, b, out=None):
    return out_(_el2(core.arctan2, a, b), out)


def _scale(f):
    return ufunc1(f)


def nabs(x):
    i = toint(x)
    if isinstance(i, int):
        return abs(i)
    if isinstance(x, Z):
        return x if PATH.ge0(x) else simp(-x)
    return core.absval(sc(x))


def ogrid_item(key, mesh=False):
    key = key if isinstance(key, tuple) else (key,)
    axes = []
    for s in key:
        step = s.step
        start = 0 if s.start is None else s.start
        if isinstance(step, complex):
            axes.append(linspace(start, s.stop, int(abs(step))))
        else:
            axes.append(arange(start, s.stop, 1 if step is None else step))
    n = len(axes)
    out = []
    for i, x in enumerate(axes):
        k = [None] * n
        k[i] = slice(None)
        out.append(A.getitem(x, tuple(k)))
    if mesh:
        shp = [a.axsize(0) for a in axes]
        return stack([broadcast_to(o, shp) for o in out], 0)
    return out[0] if n == 1 else tuple(out)


def meshgrid(*arrs, **kw):
    indexing = kw.get('indexing', 'xy')
    arrs = [ravel(a) for a in arrs]
    n = len(arrs)
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    shp = [arrs[order[k]].axsize(0) for k in range(n)]
    out = []
    for i, x in enumerate(arrs):
        pos = order.index(i)
        key = [None] * n
        key[pos] = slice(None)
        v = A.getitem(x, tuple(key))
        v = v if kw.get('sparse') else broadcast_to(v, shp)
        out.append(v if kw.get('copy') is False else A.copy(v))
    return tuple(out)


def ix_(*arrs):
    raise Unmodelled('ix_')


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    sizes = [int_arg(s) for s in shape]
    if all(isinstance(s, int) for s in sizes) and \
            _prod(sizes) <= 256:
        return list(itertools.product(*[range(s) for s in sizes]))
    tot = Z.c(1)
    for s in sizes:
        tot = tot * s
    return SymSeq(tot, None, sizes=[Z.c(s) for s in sizes])


def _prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def take(a, idx, axis=None, **kw):
    a = toarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis = axis_arg(axis, a.ndim)
    if isinstance(idx, (list, tuple)):
        idx = toarr(list(idx))
    key = [slice(None)] * a.ndim
    key[axis] = idx if isinstance(idx, Arr) else int_arg(idx)
    return get(a, tuple(key))


def delete(a, idx, axis=None):
    a = toarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis = axis_arg(axis, a.ndim)
    i = A.norm_index(int_arg(idx), a.axsize(axis))
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[axis] = slice(None, simp(i))
    k2[axis] = slice(simp(i + 1), None)
    return concatenate([A.getitem(a, tuple(k1)), A.getitem(a, tuple(k2))],
                       axis)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(b)], 0)
    return concatenate([a, b], axis)


def insert(a, idx, v, axis=None):
    if axis is not None:
        raise Unmodelled('insert axis')
    a = ravel(a)
    i = int_arg(idx)
    v = ravel(v)
    return concatenate([A.getitem(a, (slice(None, i),)), v,
                        A.getitem(a, (slice(i, None),))], 0)


def copyto(dst, src, **kw):
    A.write(dst, toarr(src) if isinstance(src, (list, tuple)) else src,
            'copyto')


def real(a):
    if isinstance(a, Arr):
        if kind(a.dtype) == 'c':
            rd = a.reader()
            return A.from_axisfn(a.axes, rd, 'f8' if a.dtype.endswith('16')
                                 else 'f4')
        return a
    return a


# -- indexing

def is_adv(k):
    return (isinstance(k, Arr) and k.ndim > 0) or isinstance(k, (list,
                                                                 SymList))


def norm_key(key):
    if isinstance(key, tuple):
        return tuple(norm1(k) for k in key)
    return (norm1(key),)


def norm1(k):
    if isinstance(k, Arr) and k.ndim == 0:
        v = unbox(k)
        i = toint(v)
        if i is not None:
            return i
    if isinstance(k, (list, SymList)):
        return toarr(k)
    if isinstance(k, bool):
        raise Unmodelled('boolean index')
    if isinstance(k, Sc):
        i = toint(k)
        if i is not None:
            return i
        raise AbsRaise('IndexError', 'only integers are valid indices')
    return k


def get(a, key):
    """numpy __getitem__ -> scalar, view, copy or Masked"""
    if isinstance(key, Masked):
        raise Unmodelled('index by masked')
    k = norm_key(key)
    if len(k) == 1 and isinstance(k[0], Arr) and kind(k[0].dtype) == 'b':
        sel = mask_index(k[0])
        if sel is not None:
            return advanced(a, (sel,))
        if known_mask(k[0]):
            return advanced(a, k)
        if k[0].ndim != a.ndim:
            raise Unmodelled('partial mask')
        return Masked(A.copy(a), A.copy(k[0]))
    if any(isinstance(x, Arr) for x in k):
        return advanced(a, k)
    r = A.getitem(a, k)
    if r.ndim == 0 and Ellipsis not in k and None not in k:
        return unbox(r)
    return r


def known_mask(m):
    """a matrix of booleans none of which is left open"""
    t = flat_terms(m) if m.ndim > 1 else None
    return t is not None and all(isinstance(x, bool) for x in t)


def mask_index(m):
    """positions selected by a 1-d mask of concrete extent"""
    if m.ndim != 1:
        return None
    t = flat_terms(m)
    if t is None:
        return None
    return A.const_array([i for i, x in enumerate(t) if truth(x)], 'i8')


def advanced(a, k):
    # expand the ellipsis
    nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
    kk = []
    for x in k:
        if x is Ellipsis:
            kk += [slice(None)] * (a.ndim - nreal)
        else:
            kk.append(x)
    if Ellipsis not in [x if x is Ellipsis else 0 for x in k]:
        kk += [slice(None)] * (a.ndim - nreal)
    if any(isinstance(x, Arr) and kind(x.dtype) == 'b' for x in kk):
        raise Unmodelled('boolean mask among other indices')
    adv = [i for i, x in enumerate(kk) if isinstance(x, Arr)]
    ints = [i for i, x in enumerate(kk) if isint(x)]
    if len(adv) > 1 or (adv and ints):
        return adv_multi(a, kk, sorted(adv + ints))
    i0 = adv[0]
    idx = kk[i0]
    if idx.ndim != 1:
        raise Unmodelled('matrix index')
    basic = list(kk)
    basic[i0] = slice(None)
    v = A.getitem(a, tuple(basic))
    # axis of v corresponding to i0
    pos = 0
    for j in range(i0):
        if kk[j] is None or isinstance(kk[j], slice):
            pos += 1
    n = v.axsize(pos)
    rd = v.reader()
    ird = idx.reader()
    axes = [v.axes[j] if j != pos else idx.axes[0] for j in range(v.ndim)]

    def f(ix):
        i = toint(ird((ix[pos],)))
        if i is None:
            raise Unmodelled('gather index')
        ix = list(ix)
        ix[pos] = A.norm_index(i, n)
        return rd(tuple(ix))
    # bounds of constant indices are checked eagerly
    t = flat_terms(idx)
    if t is not None:
        for x in t:
            xi = toint(x)
            if xi is not None:
                A.norm_index(xi, n)
    return A.from_axisfn(axes, f, a.dtype)


def adv_multi(a, kk, pos):
    n = None
    lists = []
    for p in pos:
        x = kk[p]
        if isinstance(x, Arr):
            if x.ndim != 1:
                raise Unmodelled('matrix index')
            vals = [int_arg(v) for v in flat_terms(x) or
                    _raise('symbolic index list')]
            n = len(vals) if n in (None, 1) else n
            lists.append(vals)
        else:
            lists.append([x])
    lists = [l * n if len(l) == 1 else l for l in lists]
    rows = []
    for j in range(n):
        key = list(kk)
        for p, l in zip(pos, lists):
            key[p] = l[j]
        rows.append(A.getitem(a, tuple(key)))
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    at = 0
    if adjacent:
        for j in range(pos[0]):
            at += 1
    return stack(rows, at)


def _raise(msg):
    raise Unmodelled(msg)


def setitem(a, key, value, where=''):
    k = norm_key(key)
    seq_ = isinstance(value, (list, tuple, SymList)) and kind(a.dtype) != 'O'
    if seq_:
        value = toarr(value)
    if not isinstance(value, (Arr, Masked)) and not isnum(value) and \
       kind(a.dtype) != 'O':
        if hasattr(value, 'attrs'):
            value = toarr(value)
        else:
            raise Unmodelled('store of %r' % (value,))
    if len(k) == 1 and isinstance(k[0], Arr) and kind(k[0].dtype) == 'b' \
            and not isinstance(value, Masked):
        sel = mask_index(k[0])
        if sel is not None:
            if sel.size == 0:
                return
            return set_advanced(a, (sel,), value, where)
        if known_mask(k[0]):
            return set_advanced(a, k, value, where)
    if len(k) == 1 and isinstance(k[0], Arr) and kind(k[0].dtype) == 'b':
        mask = A.copy(k[0])
        if isinstance(value, Masked):
            if value.mask is not mask and \
               A.arrays_same(value.mask, mask) is not True:
                A.havoc(a, where)
                return
            v = value.arr
        else:
            v = value
            if isinstance(v, Arr) and v.ndim:
                A.havoc(a, where)
                return
        old = A.copy(a)
        nv = where_raw(mask, v, old)
        A.write(a, nv, where)
        return
    if isinstance(value, Masked):
        raise Unmodelled('store of a masked selection')
    if any(isinstance(x, Arr) for x in k):
        return set_advanced(a, k, value, where)
    tgt = A.getitem(a, k)
    if seq_ and tgt.ndim == 0 and len([x for x in k if isint(x)]) == a.ndim:
        raise AbsRaise('ValueError', 'setting an array element with a '
                       'sequence.')
    if kind(a.dtype) == 'O':
        return A.write(tgt, value if not (isinstance(value, Arr) and
                                          tgt.ndim) else value, where) \
            if not (isinstance(value, Arr) and tgt.ndim == 0) \
            else write_obj(tgt, value, where)
    if isinstance(value, Arr):
        k1, k2 = kind(value.dtype), kind(a.dtype)
        if k1 != k2 and k2 in 'iub':
            value = cast(value, a.dtype)
    elif kind(a.dtype) in 'iub':
        value = castv(value, 'f' if isinstance(value, Sc) else 'i',
                      kind(a.dtype))
    A.write(tgt, value, where)


def write_obj(tgt, value, where):
    buf = tgt.buf
    old = buf.content

    def new(b):
        if A.solve(tgt, b) is None:
            return old(b)
        return value
    buf.content = A.memo(new)
    buf.nwrites += 1
    PATH.events.append(('write', buf, where, tgt))


def where_raw(mask, v, old):
    v = toarr(v)
    return A.elementwise(lambda m, x, y: unboxv(x, v.dtype) if truth(m)
                         else y, [mask, v, old], old.dtype)


def set_advanced(a, k, value, where):
    nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
    kk = []
    for x in k:
        if x is Ellipsis:
            kk += [slice(None)] * (a.ndim - nreal)
        else:
            kk.append(x)
    if Ellipsis not in [x if x is Ellipsis else 0 for x in k]:
        kk += [slice(None)] * (a.ndim - nreal)
    pos = [i for i, x in enumerate(kk) if isinstance(x, Arr) or isint(x)]
    n, lists = None, []
    for p in pos:
        x = kk[p]
        if isinstance(x, Arr):
            t = flat_terms(x)
            if t is None or kind(x.dtype) == 'b':
                raise Unmodelled('scatter')
            vals = [int_arg(v) for v in t]
            n = len(vals) if n in (None, 1) else n
            lists.append(vals)
        else:
            lists.append([x])
    lists = [l * n if len(l) == 1 else l for l in lists]
    nslice = sum(1 for x in kk if isinstance(x, slice))
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    at = 0
    if adjacent:
        at = sum(1 for j in range(pos[0]) if isinstance(kk[j], slice))
    if isinstance(value, Arr) and value.ndim:
        va = A.copy(value)
        full_nd = nslice + 1
        while va.ndim < full_nd:
            va = A.getitem(va, (None, Ellipsis))
        one = PATH.norm(va.axsize(at)) == 1
        if not one and not PATH.eq(va.axsize(at), n):
            raise AbsRaise('ValueError', 'shape mismatch')
    for j in range(n):
        key = list(kk)
        for p, l in zip(pos, lists):
            key[p] = l[j]
        tgt = A.getitem(a, tuple(key))
        if isinstance(value, Arr) and value.ndim:
            kv = [slice(None)] * va.ndim
            kv[at] = 0 if one else j
            A.write(tgt, A.getitem(va, tuple(kv)), where)
        else:
            A.write(tgt, unbox(value), where)


def iop(op, a, value, where=''):
    """in-place arithmetic on an array"""
    r = binop(op, A.view(a), value)
    if isinstance(r, Arr):
        r = A.copy(r)
        if kind(r.dtype) == 'f' and kind(a.dtype) in 'iu':
            raise AbsRaise('UFuncTypeError', 'cannot cast ufunc output from '
                           'float64 to int')
    A.write(a, r, where)
    return a
