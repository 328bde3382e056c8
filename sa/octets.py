"""bytes objects with abstract contents: the memory of arrays and text, in
order (ndarray.tobytes, numpy.frombuffer, struct, file.read)."""
import re
from . import core, arrays as A, npmodel as N
from .core import Z, Unmodelled, simp, PATH
from .arrays import Arr, AbsRaise
from .values import *


class PBytes(object):
    """segments ('text', string) and ('array', dtype code, flat array)"""

    def __init__(self, segs=()):
        self.segs = [s for s in segs if s[0] == 'array' or s[1] != '']


def width(code):
    return int(norm_code(code).lstrip('<>=')[1:])


def seg_size(s):
    if s[0] == 'text':
        if not isinstance(s[1], str):
            raise Unmodelled('length of symbolic bytes')
        return Z.c(len(s[1]))
    return Z.c(s[2].axsize(0)) * width(s[1])


def size(b):
    n = Z.c(0)
    for s in segs(b):
        n = n + seg_size(s)
    return simp(PATH.norm(n))


def flat(a, how='C'):
    a = N.toarr(a)
    if a.ndim > 1 and str(how).upper() == 'F':
        a = A.transpose(a)
    src = A.copy(a)
    return A.reshape(src, [src.size])


def of_array(a, how='C'):
    a = N.toarr(a)
    return PBytes([('array', a.dtype, flat(a, how))])


def isbytes(x):
    return isinstance(x, (PBytes, str)) or type(x).__name__ == 'SStr'


def segs(x):
    if isinstance(x, PBytes):
        return list(x.segs)
    if isinstance(x, (str,)) or type(x).__name__ == 'SStr':
        return [('text', x)] if x != '' else []
    if isinstance(x, Arr):
        return of_array(x).segs
    raise AbsRaise('TypeError', 'a bytes-like object is required')


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out += segs(sep)
        out += segs(x)
    return PBytes(out)


def divide(z, w):
    """z / w when it divides every coefficient"""
    z = PATH.norm(Z.c(z))
    if all(c % w == 0 for c in z.t.values()):
        return simp(Z({k: c // w for k, c in z.t.items()}))
    return None


def take(stock, n):
    """the first n bytes (all for None) of a list of segments, removed from
    it; fewer when it ends before"""
    got = []
    left = None if n is None else PATH.norm(Z.c(n))
    while stock and (left is None or not PATH.eq(left, 0)):
        s = stock[0]
        if left is None:
            got.append(stock.pop(0))
            continue
        m = seg_size(s)
        d = PATH.norm(m - left)
        if PATH.eq(d, 0) or not PATH.ge0(d):
            got.append(stock.pop(0))
            left = PATH.norm(left - m)
            continue
        if s[0] == 'text':
            k = toint(simp(left))
            if not isinstance(k, int):
                raise Unmodelled('part of a text')
            got.append(('text', s[1][:k]))
            stock[0] = ('text', s[1][k:])
        else:
            k = divide(left, width(s[1]))
            if k is None:
                raise AbsRaise('FormatError', 'part of an item is read')
            got.append(('array', s[1], A.getitem(s[2], (slice(0, k),))))
            stock[0] = ('array', s[1], A.getitem(s[2], (slice(k, None),)))
        left = Z.c(0)
    return got


def array(b, code, count=-1, offset=0):
    """items of the given type"""
    stock = segs(b)
    off = toint(offset)
    if off is None or toint(count) is None:
        raise Unmodelled('frombuffer')
    if not PATH.eq(Z.c(off), 0):
        take(stock, off)
    n = toint(count)
    if n != -1:
        want = PATH.norm(Z.c(n) * width(code))
        have = take(stock, want)
        tot = Z.c(0)
        for s in have:
            tot = tot + seg_size(s)
        if not PATH.eq(PATH.norm(tot - want), 0):
            raise AbsRaise('ValueError', 'buffer is smaller than requested '
                           'size')
        stock = have
    out = []
    for s in stock:
        if s[0] == 'text':
            raise AbsRaise('FormatError', 'binary read of text')
        if norm_code(s[1]) != norm_code(code):
            raise AbsRaise('FormatError', 'item of type %s read as %s'
                           % (s[1], code))
        out.append(s[2])
    if not out:
        if n == -1:
            raise AbsRaise('ValueError', 'buffer is empty')
        return A.fresh((0,), lambda b: core.sc_top(), code)
    r = out[0] if len(out) == 1 else N.concatenate(out)
    return items(r, code)


def items(r, code):
    rd = r.reader()
    if kind(code) in 'iu':
        def conv(idx):
            v = rd(idx)
            i = toint(v)
            return v if i is None else i
        return A.from_axisfn(r.axes, conv, code)
    return A.from_axisfn(r.axes, rd, code)


STRUCT = {'b': 'i1', 'h': 'i2', 'i': 'i4', 'l': 'i4', 'q': 'i8', 'f': 'f4',
          'd': 'f8', 'B': 'u1', 'H': 'u2', 'I': 'u4', 'L': 'u4', 'Q': 'u8'}


def fields(fmt):
    if not isinstance(fmt, str):
        raise Unmodelled('symbolic struct format')
    end = '<'
    if fmt[:1] in '<>!=@':
        end = {'>': '>', '!': '>'}.get(fmt[0], '<')
        if fmt[0] == '@':
            raise Unmodelled('struct alignment')
        fmt = fmt[1:]
    else:
        raise Unmodelled('struct alignment')
    out = []
    for n, c in re.findall(r'(\d*)\s*([a-zA-Z?])', fmt):
        if c not in STRUCT:
            raise Unmodelled('struct format %s' % c)
        code = STRUCT[c]
        out += [('>' if end == '>' and code[1] != '1' else '') + code] * (
            int(n) if n else 1)
    return out


def pack(fmt, *vals):
    f = fields(fmt)
    if len(f) != len(vals):
        raise AbsRaise('StructError', 'pack expected %d items' % len(f))
    out = []
    for c, v in zip(f, vals):
        if kind(c) in 'iu' and toint(v) is None:
            raise AbsRaise('StructError', 'required argument is not an '
                           'integer')
        out.append(('array', c, N.asarray([v], c)))
    return PBytes(out)


def unpack(fmt, b):
    f = fields(fmt)
    stock = segs(b)
    out = []
    for c in f:
        got = take(stock, width(c))
        if len(got) != 1 or not PATH.eq(seg_size(got[0]), width(c)):
            raise AbsRaise('StructError', 'unpack requires a buffer of %d '
                           'bytes' % sum(width(x) for x in f))
        a = array(PBytes(got), c)
        out.append(A.getitem(a, (0,)) if not isinstance(a, tuple) else a)
    if stock:
        raise AbsRaise('StructError', 'unpack')
    return tuple(N.unbox(x) if isinstance(x, Arr) else x for x in out)
