"""Abstract arrays: symbolic extents, contents as functions of symbolic
indices, explicit buffers (for aliasing / mutation), views with affine index
maps."""
import itertools
from .core import (Z, Sc, PATH, Unmodelled, nested, same, sc, sc_const, sc_z,
                   sc_top, prf, isint, simp, _PathProxy)
from . import core

_ids = itertools.count(1)


class AbsRaise(Exception):
    """the analysed program raises"""

    def __init__(self, exc, msg=''):
        Exception.__init__(self, exc, msg)
        self.exc = exc
        self.msg = msg


class Comp(object):
    __slots__ = ('size', 'uid')

    def __init__(self, size):
        self.size = Z.c(size)
        self.uid = next(_ids)


class Buf(object):
    __slots__ = ('id', 'content', 'sizes', 'dtype', 'owner', 'nwrites',
                 'name', 'layout')

    def __init__(self, sizes, content, dtype='f8', owner='fresh', name=''):
        self.id = next(_ids)
        self.sizes = [Z.c(s) for s in sizes]
        self.content = memo(content)
        self.dtype = dtype
        self.owner = owner
        self.nwrites = 0
        self.name = name
        self.layout = ''


def memo(f):
    cache = {}

    def g(idx):
        k = (id(_PathProxy.cur), len(_PathProxy.cur.sub),
             len(_PathProxy.cur.facts),
             tuple(i.key() for i in idx))
        v = cache.get(k)
        if v is None:
            v = f(idx)
            cache[k] = (v, _PathProxy.cur)   # keep the path alive: id reuse
            return v
        return v[0]
    return g


# base map entry: (const Z, ((step Z, Comp), ...))

class Arr(object):
    __slots__ = ('buf', 'base', 'axes', 'sorted')

    def __init__(self, buf, base, axes):
        self.buf = buf
        self.base = tuple(base)
        self.axes = tuple(tuple(a) for a in axes)
        self.sorted = False

    # -- shape
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.axes)

    def axsize(self, k):
        r = Z.c(1)
        for c in self.axes[k]:
            r = r * c.size
        return PATH.norm(r)

    @property
    def shape(self):
        return tuple(simp(self.axsize(k)) for k in range(self.ndim))

    @property
    def size(self):
        r = Z.c(1)
        for k in range(self.ndim):
            r = r * self.axsize(k)
        return simp(r)

    # -- access
    def comp_index(self, k, i):
        """axis index (Z) -> tuple of component indices"""
        comps = self.axes[k]
        i = Z.c(i)
        if len(comps) == 0:
            return ()
        if len(comps) == 1:
            return (i,)
        out = []
        for c in reversed(comps[1:]):
            qr = PATH.divmod(i, c.size)
            if qr is None:
                raise Unmodelled('index %r of a merged axis' % (i,))
            out.append(qr[1])
            i = qr[0]
        out.append(i)
        return tuple(reversed(out))

    def axis_index(self, k, vals):
        r = Z.c(0)
        for c, v in zip(self.axes[k], vals):
            r = r * c.size + v
        return r

    def base_index(self, env):
        out = []
        for c, terms in self.base:
            for step, comp in terms:
                c = c + step * env[comp]
            out.append(c)
        return tuple(out)

    def reader(self):
        """snapshot: function of a tuple of axis indices -> element"""
        content = self.buf.content
        base, axes = self.base, self.axes

        def rd(idx):
            env = {}
            for k in range(len(axes)):
                i = idx[k]
                vals = i if isinstance(i, tuple) else self.comp_index(k, i)
                for c, v in zip(axes[k], vals):
                    env[c] = v
            return content(self.base_index(env))
        return rd

    def get(self, idx):
        return self.reader()(idx)

    def is_full(self):
        """the view is exactly its buffer in C order"""
        flat = [c for a in self.axes for c in a]
        if len(flat) != len(self.base):
            # size-1 comps may have been dropped
            return False
        for (c, terms), comp, s in zip(self.base, flat, self.buf.sizes):
            if len(terms) != 1 or terms[0][1] is not comp:
                return False
            if terms[0][0] != 1 or c != 0 or \
               PATH.norm(comp.size) != PATH.norm(s):
                return False
        return True

    @property
    def contig(self):
        """the elements are adjacent in memory, in C order"""
        if self.ndim == 0 or self.is_full():
            return True
        strides, after = {}, Z.c(1)
        for (c, terms), s in zip(reversed(self.base),
                                 reversed(self.buf.sizes)):
            for step, comp in terms:
                strides[comp] = step * after
            after = after * s
        acc = Z.c(1)
        for c in reversed([c for a in self.axes for c in a]):
            if PATH.norm(c.size) == 1:
                continue
            if c not in strides or PATH.norm(strides[c] - acc) != 0:
                return any(PATH.norm(c.size) == 0 for a in self.axes
                           for c in a)
            acc = acc * c.size
        return True

    def follow(self):
        if self.buf.layout == '?':
            return None
        ops = [a for a in self.buf.layout if a.ndim > 1]
        orders = [a.memory_order() for a in ops]
        if all(o is not None and o == sorted(o) for o in orders):
            self.buf.layout = ''
            return 'C'
        if None in orders or not self.is_full() or any(
                o != orders[0] for o in orders) or any(
                    a.shape != self.shape for a in ops):
            return None
        return orders[0]

    def memory_order(self):
        """the axes (of extents other than one) from the slowest to the
        fastest varying in memory; None when that is not known"""
        if self.buf.layout and self.ndim > 1:
            # results of elementwise operations follow their operands
            m = self.follow()
            if m != 'C':
                return m
        place = {}
        for i, (c, terms) in enumerate(self.base):
            for j, (step, comp) in enumerate(terms):
                place[comp] = (i, j)
        keyed = []
        for k, comps in enumerate(self.axes):
            comps = [c for c in comps if PATH.norm(c.size) != 1]
            if not comps:
                continue
            if any(c not in place for c in comps):
                return None
            at = [place[c] for c in comps]
            if at != sorted(at):
                return None
            keyed.append((at[0], at[-1], k))
        keyed.sort()
        for (_, e, _), (b, _, _) in zip(keyed, keyed[1:]):
            if not e < b:
                return None
        return [k for _, _, k in keyed]

    def __repr__(self):
        return 'array%r<%s>' % (self.shape, self.buf.owner)


def fresh(shape, content, dtype='f8', owner='fresh', axes=None, name=''):
    """new C-contiguous array; content: function of base index tuple"""
    if axes is None:
        axes = [[Comp(s)] for s in shape]
    else:
        axes = [[Comp(c.size) for c in a] for a in axes]
    flat = [c for a in axes for c in a]
    buf = Buf([c.size for c in flat], content, dtype, owner, name)
    base = [(Z.c(0), ((Z.c(1), c),)) for c in flat]
    return Arr(buf, base, axes)


def from_axisfn(axes, f, dtype='f8', owner='fresh'):
    """fresh array with the given component structure; f takes a tuple of
    per-axis component tuples"""
    lens = [len(a) for a in axes]

    def content(b):
        idx, p = [], 0
        for n in lens:
            idx.append(tuple(b[p:p + n]))
            p += n
        return f(tuple(idx))
    return fresh(None, content, dtype, owner, axes=axes)


def atom_array(name, shape, dtype='f8', owner='fresh', ops=core.NOOPS,
               integer=False):
    """input array: element i is the free symbol name[i]"""
    def content(b):
        return element_atom(name, b, ops)
    return fresh(shape, content, dtype, owner, name=name)


def element_atom(name, b, ops=core.NOOPS):
    b = tuple(PATH.norm(i) for i in b)
    return Sc(prf(('el', name) + tuple(i.ev()[:3] for i in b)), ops=ops,
              rep='%s[%s]' % (name, ','.join(repr(i) for i in b)))


def const_array(nested_list, dtype='f8', owner='fresh'):
    """from (nested) python lists of scalars"""
    shape, flat = [], nested_list

    def shp(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 0:
                return (0,)
            s = [shp(e) for e in x]
            if any(t != s[0] for t in s):
                raise AbsRaise('ValueError', 'inhomogeneous array')
            return (len(x),) + s[0]
        return ()
    shape = shp(nested_list)

    def content(b):
        return sel(nested_list, [b[k] for k in range(len(b))], 0)

    def sel(x, b, k):
        if k == len(b):
            return x
        i = PATH.norm(b[k])
        if i.is_const():
            return sel(x[int(i.const())], b, k + 1)
        for n in range(len(x) - 1):
            if PATH.eq(i, n):
                return sel(x[n], b, k + 1)
        return sel(x[len(x) - 1], b, k + 1)
    return fresh(shape, content, dtype, owner)


def scalar_arr(v, dtype='f8'):
    return fresh((), lambda b: v, dtype)


def full(shape, v, dtype='f8'):
    return fresh(shape, lambda b: v, dtype)


# ---------------------------------------------------------------------------
# views

def transpose(a, perm=None):
    n = a.ndim
    if perm is None:
        perm = list(range(n))[::-1]
    perm = [int(p) for p in perm]
    perm = [p + n if p < 0 else p for p in perm]
    if sorted(perm) != list(range(n)):
        raise AbsRaise('ValueError', 'axes do not match array')
    return Arr(a.buf, a.base, [a.axes[p] for p in perm])


def view(a):
    return Arr(a.buf, a.base, a.axes)


def _replace(base, env, consts):
    """env: comp -> list of (step, newcomp), consts: comp -> Z"""
    out = []
    for c, terms in base:
        nt = []
        for step, comp in terms:
            if comp in consts:
                c = c + step * consts[comp]
            if comp in env:
                for s2, nc in env[comp]:
                    nt.append((step * s2, nc))
            elif comp not in consts:
                nt.append((step, comp))
        out.append((c, tuple(nt)))
    return tuple(out)


def norm_index(i, n):
    """python index semantics (negative wraps, bounds raise IndexError)"""
    i, n = PATH.norm(Z.c(i)), PATH.norm(Z.c(n))
    if PATH.ge0(i):
        if not PATH.ge0(n - 1 - i):
            raise AbsRaise('IndexError', 'index %r of axis of size %r'
                           % (i, n))
        return i
    if not PATH.ge0(i + n):
        raise AbsRaise('IndexError', 'index %r of axis of size %r' % (i, n))
    return i + n


def zmax(a, b):
    return Z.c(a) if PATH.ge0(Z.c(a) - Z.c(b)) else Z.c(b)


def zmin(a, b):
    return Z.c(a) if PATH.ge0(Z.c(b) - Z.c(a)) else Z.c(b)


def slice_params(s, n):
    """(start, step, length) of slice s over extent n"""
    n = PATH.norm(Z.c(n))
    step = s.step
    if step is None:
        step = 1
    step = PATH.norm(Z.c(step))

    def clampi(v, lo, hi):
        v = Z.c(v)
        if not PATH.ge0(v):
            v = v + n
            if not PATH.ge0(v - lo):
                return Z.c(lo)
            return v
        if not PATH.ge0(Z.c(hi) - v):
            return Z.c(hi)
        return v
    if step.is_const() and step.const() < 0:
        start = n - 1 if s.start is None else clampi(s.start, -1, n - 1)
        stop = Z.c(-1) if s.stop is None else clampi(s.stop, -1, n - 1)
        if step.const() != -1:
            raise Unmodelled('negative stride')
        ln = start - stop
        if not PATH.ge0(ln):
            ln = Z.c(0)
        return start, step, ln
    start = Z.c(0) if s.start is None else clampi(s.start, 0, n)
    stop = n if s.stop is None else clampi(s.stop, 0, n)
    ln = stop - start
    if not PATH.ge0(ln):
        return start, step, Z.c(0)
    if step == 1:
        return start, step, PATH.norm(ln)
    # ceil(ln/step)
    qr = PATH.divmod(ln + step - 1, step)
    if qr is None:
        q = (ln - 1).divmono(step)
        if q is not None:
            return start, step, q + 1
        raise Unmodelled('strided slice of extent %r step %r' % (ln, step))
    return start, step, qr[0]


def getitem(a, key):
    """basic indexing -> view Arr (0-d view when all axes are fixed)"""
    if not isinstance(key, tuple):
        key = (key,)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    if n_real > a.ndim:
        raise AbsRaise('IndexError', 'too many indices for array')
    out, ax = [], 0
    base = a.base
    if Ellipsis not in [k if k is Ellipsis else 0 for k in key]:
        key = key + (Ellipsis,)
    for k in key:
        if k is Ellipsis:
            m = a.ndim - n_real
            for _ in range(m):
                out.append(a.axes[ax])
                ax += 1
        elif k is None:
            out.append(())
        elif isinstance(k, slice):
            comps = a.axes[ax]
            n = a.axsize(ax)
            k = slice(_asint(k.start), _asint(k.stop), _asint(k.step))
            if k.start is None and k.stop is None and \
               (k.step is None or k.step == 1):
                out.append(comps)
            else:
                start, step, ln = slice_params(k, n)
                if len(comps) == 1 or len(comps) == 0:
                    if len(comps) == 0:
                        if ln == 1:
                            out.append(())
                        else:
                            nc = Comp(ln)
                            out.append((nc,))
                    elif PATH.norm(start) == 0 and step == 1 and \
                            PATH.norm(ln - n) == 0:
                        out.append(comps)
                    else:
                        nc = Comp(ln)
                        base = _replace(base, {comps[0]: [(step, nc)]},
                                        {comps[0]: start})
                        out.append((nc,))
                else:
                    # slicing the leading component of a merged axis
                    inner = Z.c(1)
                    for c in comps[1:]:
                        inner = inner * c.size
                    s2, l2 = start.divmono(inner), ln.divmono(inner)
                    if step != 1 or s2 is None or l2 is None:
                        axs = [tuple(x) for x in out] + [
                            tuple(x) for x in a.axes[ax:]]
                        flat = flat_axis(Arr(a.buf, base, axs), len(out))
                        rest = key[key.index(k):]
                        return getitem(flat, (slice(None),) * len(out)
                                       + rest)
                    nc = Comp(l2)
                    base = _replace(base, {comps[0]: [(Z.c(1), nc)]},
                                    {comps[0]: s2})
                    out.append((nc,) + tuple(comps[1:]))
            ax += 1
        elif isint(k):
            comps = a.axes[ax]
            i = norm_index(k, a.axsize(ax))
            vals = a.comp_index(ax, i)
            base = _replace(base, {}, dict(zip(comps, vals)))
            ax += 1
        else:
            raise Unmodelled('index %r' % (k,))
    return Arr(a.buf, base, out)


def flat_axis(a, k):
    """copy of `a` in which the merged axis k is a single component; writes
    to it cannot be propagated and are refused"""
    rd = a.reader()
    axes = [tuple(x) for x in a.axes]
    axes[k] = (Comp(a.axsize(k)),)
    split = a.comp_index
    buf, n0 = a.buf, a.buf.nwrites

    def f(idx):
        if buf.nwrites != n0:
            raise Unmodelled('slice of a merged axis written meanwhile')
        idx = list(idx)
        idx[k] = split(k, idx[k][0])
        return rd(tuple(idx))
    return from_axisfn(axes, f, a.dtype, 'lossy')


SORTED = set()     # names of buffers holding non-decreasing sequences


def is_sorted(a):
    if a.ndim != 1 or not a.buf.name:
        return False
    if a.buf.name not in SORTED or a.buf.nwrites:
        return False
    (c, terms), = a.base
    return len(terms) == 1 and terms[0][0] == 1


def mark_sorted(a):
    if a.buf.name not in SORTED:
        a.buf.name = 'sorted%d' % a.buf.id
        SORTED.add(a.buf.name)
    return a


def initialised(x):
    if isinstance(x, Sc) and x.const is None and \
            'uninitialised' in (x.rep or ''):
        from .backend import KernelFault
        raise KernelFault('numpy', 'uninitialised integer used as an index '
                          'or a size', '')


def _asint(x):
    if x is None or isint(x):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Sc) and x.z is not None:
        return simp(x.z)
    if isinstance(x, Arr) and x.ndim == 0:
        return _asint(x.get(()))
    initialised(x)
    raise Unmodelled('integer from %r' % (x,))


def reshape(a, shape, order='C'):
    """view with a new shape (C order)"""
    shape = [Z.c(_asint(s)) for s in shape]
    if order == 'F':
        r = reshape(transpose(a), list(reversed(shape)))
        return transpose(r)
    total = Z.c(a.size)
    if any(s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if s == -1]
        if len(k) > 1:
            raise AbsRaise('ValueError', 'can only specify one unknown dim')
        rest = Z.c(1)
        for i, s in enumerate(shape):
            if i != k[0]:
                rest = rest * s
        if PATH.norm(rest) == 0:
            raise Unmodelled('reshape of empty array')
        q = PATH.norm(total).divmono(PATH.norm(rest))
        if q is None:
            if PATH.norm(total).is_const() and PATH.norm(rest).is_const():
                raise AbsRaise('ValueError', 'cannot reshape array')
            raise Unmodelled('reshape %r -> %r' % (a.shape, shape))
        shape[k[0]] = q
    prod = Z.c(1)
    for s in shape:
        prod = prod * s
    if PATH.norm(prod) != PATH.norm(total):
        if not PATH.eq(prod, total):
            raise AbsRaise('ValueError', 'cannot reshape array of size %r '
                           'into %r' % (PATH.norm(total), shape))
    if PATH.norm(prod) == 0:
        return full([simp(s) for s in shape], sc_const(0), a.dtype)
    comps = [c for ax in a.axes for c in ax if PATH.norm(c.size) != 1]
    consts = {c: Z.c(0) for ax in a.axes for c in ax
              if PATH.norm(c.size) == 1}
    base = _replace(a.base, {}, consts) if consts else a.base
    out = []
    pos = 0
    cur = list(comps)
    for s in shape:
        s = PATH.norm(s)
        take, acc = [], Z.c(1)
        while PATH.norm(acc) != s:
            if not cur:
                raise Unmodelled('reshape %r -> %r' % (a.shape, shape))
            need = s.divmono(acc) if acc != 1 else s
            c = cur[0]
            csz = PATH.norm(c.size)
            q = need.divmono(csz) if need is not None else None
            if q is not None:
                take.append(c)
                acc = PATH.norm(acc * csz)
                cur.pop(0)
                continue
            # split component c
            if need is None:
                raise Unmodelled('reshape %r -> %r' % (a.shape, shape))
            r = csz.divmono(need)
            if r is None:
                raise Unmodelled('reshape %r -> %r' % (a.shape, shape))
            c1, c2 = Comp(need), Comp(r)
            base = _replace(base, {c: [(r, c1), (Z.c(1), c2)]}, {})
            take.append(c1)
            cur[0] = c2
            acc = PATH.norm(acc * need)
        out.append(tuple(take))
    return Arr(a.buf, base, out)


def ravel(a, order='C'):
    if order in ('F', 'f'):
        return reshape(transpose(a), [a.size])
    return reshape(a, [a.size])


def copy(a, dtype=None, owner='fresh'):
    rd = a.reader()
    r = from_axisfn(a.axes, rd, dtype or a.dtype, owner)
    if is_sorted(a):
        mark_sorted(r)
    return r


def broadcast_axis(a, shape):
    """a viewed with the broadcast shape: returns fn(axisidx tuples)"""
    shape = list(shape)
    off = len(shape) - a.ndim
    if off < 0:
        raise AbsRaise('ValueError', 'cannot broadcast')
    rd = a.reader()
    one = []
    for k in range(a.ndim):
        s = Z.c(a.shape[k])
        t = PATH.norm(Z.c(shape[off + k]))
        if PATH.norm(s) == t:
            one.append(False)
        elif PATH.norm(s) == 1:
            one.append(True)
        elif PATH.eq(s, t):
            one.append(False)
        elif PATH.eq(s, 1):
            one.append(True)
        else:
            raise AbsRaise('ValueError', 'could not broadcast %r to %r'
                           % (a.shape, tuple(shape)))

    def f(idx):
        out = []
        for k in range(a.ndim):
            if one[k]:
                out.append(Z.c(0) if len(a.axes[k]) != 0 else ())
                if len(a.axes[k]) > 1:
                    out[-1] = tuple(Z.c(0) for _ in a.axes[k])
            else:
                i = idx[off + k]
                out.append(i)
        return rd(tuple(out))
    return f


def broadcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = Z.c(1)
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            t = PATH.norm(Z.c(s[j]))
            if t == 1:
                continue
            if cur == 1:
                cur = t
            elif cur != t:
                if PATH.eq(cur, t):
                    continue
                if PATH.eq(t, 1):
                    continue
                if PATH.eq(cur, 1):
                    cur = t
                    continue
                raise AbsRaise('ValueError', 'operands could not be '
                               'broadcast together %r' % (shapes,))
        out.append(cur)
    return out


def zaxis(idx, a, k):
    """component tuple -> axis Z index"""
    if isinstance(idx, tuple):
        return a.axis_index(k, idx)
    return idx


def elementwise(f, arrs, dtype):
    shapes = [a.shape for a in arrs]
    shape = broadcast_shape(shapes)
    n = len(shape)
    # component structure of the result: the finest factorisation available
    axes = []
    for k in range(n):
        best = None
        for a in arrs:
            j = k - (n - a.ndim)
            if j < 0:
                continue
            if PATH.norm(a.axsize(j)) == PATH.norm(shape[k]):
                if best is None or len(a.axes[j]) > len(best):
                    best = a.axes[j]
        if best is None or (len(best) == 0 and PATH.norm(shape[k]) != 1):
            best = (Comp(shape[k]),)
        axes.append(best)
    fns = [broadcast_axis(a, shape) for a in arrs]

    def toz(idx):
        out = []
        for k, i in enumerate(idx):
            r = Z.c(0)
            for c, v in zip(axes[k], i):
                r = r * c.size + v
            out.append(r)
        return tuple(out)

    def g(idx):
        z = toz(idx)
        return f(*[fn(z) for fn in fns])
    r = from_axisfn(axes, g, dtype)
    r.buf.layout = tuple(arrs)
    return r


# ---------------------------------------------------------------------------
# writes

def solve(a, b):
    """component environment of base index b in view a, or None when b is
    outside the view"""
    env = {}
    for (c, terms), bi, size in zip(a.base, b, a.buf.sizes):
        e = PATH.norm(bi - c)
        if not terms:
            if not PATH.eq(e, 0):
                return None
            continue
        terms = sorted(terms, key=lambda t: 0 if t[0] == 1 or t[0] == -1
                       else -1)
        if len(terms) > 1:
            # largest stride first: divisibility order
            ts = list(terms)
            order = []
            while ts:
                for t in ts:
                    if all(u is t or t[0].divmono(u[0]) is not None
                           for u in ts):
                        order.append(t)
                        ts.remove(t)
                        break
                else:
                    raise Unmodelled('write through a reshaped view')
            terms = order
        for j, (step, comp) in enumerate(terms):
            last = j == len(terms) - 1
            if step == 1:
                v = e
                e = Z.c(0)
            elif step == -1:
                v = -e
                e = Z.c(0)
            else:
                qr = PATH.divmod(e, step)
                if qr is None:
                    raise Unmodelled('strided write')
                v, e = qr
                if last:
                    if not PATH.eq(e, 0):
                        return None
            full = (c == 0 and len(terms) == 1 and step == 1 and
                    PATH.norm(comp.size) == PATH.norm(size))
            if not full:
                if not PATH.ge0(v):
                    return None
                if not PATH.ge0(comp.size - 1 - v):
                    return None
            env[comp] = v
    return env


def setitem(a, key, value, where=''):
    """a[key] = value (value: scalar or Arr)"""
    if key is not None:
        tgt = getitem(a, key)
    else:
        tgt = a
    write(tgt, value, where)


def write(tgt, value, where=''):
    buf = tgt.buf
    if buf.owner == 'lossy':
        raise Unmodelled('write through a slice of a merged axis')
    if buf.owner == 'readonly':
        raise AbsRaise('ValueError', 'assignment destination is read-only')
    old = buf.content
    if isinstance(value, Arr):
        v = value
        while v.ndim > tgt.ndim:
            if PATH.norm(v.axsize(0)) != 1:
                raise AbsRaise('ValueError', 'could not broadcast input '
                               'array %r into %r' % (value.shape, tgt.shape))
            v = getitem(v, (0,))
        fn = broadcast_axis(v, tgt.shape)

        def val(idx):
            return fn(idx)
    else:
        def val(idx):
            return value
    axes = tgt.axes

    def new(b):
        env = solve(tgt, b)
        if env is None:
            return old(b)
        idx = []
        for comps in axes:
            r = Z.c(0)
            for c in comps:
                r = r * c.size + env[c]
            idx.append(r)
        return val(tuple(idx))
    buf.content = memo(new)
    buf.nwrites += 1
    PATH.events.append(('write', buf, where, tgt))


def havoc(a, where=''):
    a.buf.content = memo(lambda b: sc_top('havoc'))
    a.buf.nwrites += 1
    PATH.events.append(('write', a.buf, where, a))


# ---------------------------------------------------------------------------
# comparison

def gen_indices(a, enum=6):
    """list of per-axis lists of alternatives (component tuples); symbolic
    extents get one fresh generic index"""
    per = []
    for k in range(a.ndim):
        alts = [()]
        for c in a.axes[k]:
            s = PATH.norm(c.size)
            if s.is_const():
                n = int(s.const())
                if n > 40:
                    raise Unmodelled('large constant extent')
                opts = [Z.c(i) for i in range(n)]
            else:
                i = PATH.fresh('@i', 0)
                PATH.facts.append(s - 1 - i)
                opts = [i]
            alts = [x + (o,) for x in alts for o in opts]
        per.append(alts)
    return per


def value_same(x, y):
    if x is y:
        return True
    if (x is None) != (y is None):
        return False
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return False
        r = [value_same(p, q) for p, q in zip(x, y)]
        return False if False in r else None if None in r else True
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return False
    if isinstance(x, Sc) or isinstance(y, Sc) or isint(x) or isint(y) or \
       isinstance(x, (bool, float)):
        try:
            return same(x, y)
        except Unmodelled:
            return None
    if type(x) is type(y) and isinstance(x, (str, type(None))):
        return x == y
    return None


def arrays_same(a, b, why=None):
    """True/False/None: equal shape and contents for every index.  `why`
    (list) receives a description of the first difference."""
    if a.ndim != b.ndim:
        if why is not None:
            why.append('rank %d instead of %d' % (a.ndim, b.ndim))
        return False
    for k in range(a.ndim):
        if PATH.norm(a.axsize(k)) != PATH.norm(b.axsize(k)):
            if why is not None:
                why.append('shape %r instead of %r' % (a.shape, b.shape))
            return False
    ra, rb = a.reader(), b.reader()

    def body():
        res = True
        # use the finer factorisation for generic indices
        src = [a if len(a.axes[k]) >= len(b.axes[k]) else b
               for k in range(a.ndim)]
        mixed = Arr(a.buf, (), [src[k].axes[k] for k in range(a.ndim)])
        per = gen_indices(mixed)
        for combo in itertools.product(*per):
            z = tuple(mixed.axis_index(k, v) for k, v in enumerate(combo))
            x, y = ra(z), rb(z)
            s = value_same(x, y)
            if s is False:
                if why is not None:
                    why.append('element [%s] is %s instead of %s' % (
                        ','.join(repr(i) for i in z), x, y))
                return False
            if s is None:
                if why is not None and not why:
                    why.append('unknown: element [%s]: %s vs %s' % (
                        ','.join(repr(i) for i in z), x, y))
                res = None
        return res
    out = True
    for p, r in nested(body):
        if p.degenerate:
            if r is not True:
                out = None if out is not False else out
            continue
        if r is False:
            return False
        if r is None:
            out = None
    return out


# ---------------------------------------------------------------------------
# value numbers of whole-array operands (congruence classes)

class VN(object):
    """per-path congruence table: operands -> small integers"""

    def __init__(self):
        self.classes = {}


def _top():
    p = _PathProxy.cur
    while getattr(p, 'parent', None) is not None:
        p = p.parent
    return p


def vn_table():
    t = _top()
    if getattr(t, 'vn', None) is None:
        t.vn = {}
    return t.vn


def array_hash(a):
    """canonical key of the contents: piecewise value numbers at generic
    probe indices (None when some element is unknown)"""
    rd = a.reader()

    def body():
        d = _PathProxy.cur.depth
        per = []
        for k in range(a.ndim):
            alts = [()]
            for j, c in enumerate(a.axes[k]):
                s = PATH.norm(c.size)
                if s.is_const():
                    n = int(s.const())
                    if n > 64:
                        raise Unmodelled('large constant extent')
                    opts = [Z.c(i) for i in range(n)]
                else:
                    nm = '@p%d_%d_%d' % (d, k, j)
                    i = PATH.declare(nm, 0)
                    PATH.facts.append(s - 1 - i)
                    opts = [i]
                alts = [x + (o,) for x in alts for o in opts]
            per.append(alts)
        out = []
        for combo in itertools.product(*per):
            v = rd(combo)
            if isinstance(v, Sc):
                if v.unknown():
                    return None
                out.append(v.fp)
            elif isinstance(v, bool) or isint(v):
                out.append(sc(v).fp)
            elif v is None or isinstance(v, str):
                out.append(('p', v))
            else:
                raise Unmodelled('operand element')
        return tuple(out)
    res = []
    for p, v in nested(body):
        if v is None:
            return None
        res.append((tuple((c, l) for c, n, l in p.taken), v))
    shape = tuple(PATH.norm(a.axsize(k)).key() for k in range(a.ndim))
    return (shape, tuple(res))


def array_class(a, tagname='arr'):
    """value number (int) of the contents of array a, or None if unknown"""
    h = array_hash(a)
    if h is None:
        return None
    t = vn_table()
    ht = t.setdefault(('h', tagname), {})
    if h in ht:
        return ht[h]
    tab = t.setdefault(tagname, [])
    snap = snapshot(a)
    for i, b in enumerate(tab):
        if b.ndim != snap.ndim:
            continue
        if arrays_same(snap, b) is True:
            ht[h] = i
            return i
    tab.append(snap)
    ht[h] = len(tab) - 1
    return len(tab) - 1


def snapshot(a):
    """an immutable copy of the current contents"""
    return copy(a)


def operand_key(x):
    """hashable value number of an operand (scalar / array / python value);
    None when unknown"""
    if isinstance(x, Arr):
        if x.ndim == 0:
            return operand_key(x.get(()))
        c = array_class(x)
        return None if c is None else ('arr', c)
    if isinstance(x, Sc):
        if x.unknown():
            return None
        return ('s',) + tuple(x.fp)
    if isinstance(x, (bool, int, Z, float)):
        return ('s',) + tuple(sc(x).fp)
    if isinstance(x, (str, type(None))):
        return ('p', x)
    raise Unmodelled('operand %r' % (x,))
