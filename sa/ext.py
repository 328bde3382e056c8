"""Registration of the wider numpy/standard-library vocabulary (npextra) in
the interpreter's name spaces."""
import ast
import itertools
import math
from fractions import Fraction
from . import core, arrays as A, npmodel as N, npextra as X
from .core import Z, Sc, PATH, Unmodelled, sc, sc_const, simp
from .arrays import Arr, AbsRaise
from .values import *

CODE = {'f8': 'd', 'f4': 'f', 'i4': 'i', 'i8': 'l', 'b1': '?', 'u1': 'B',
        'c16': 'D', 'c8': 'F', 'O': 'O'}
NAMES = {'f8': 'float64', 'f4': 'float32', 'i4': 'int32', 'i8': 'int64',
         'b1': 'bool', 'u1': 'uint8', 'c16': 'complex128',
         'c8': 'complex64', 'O': 'object'}
KIND = {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'u', 'c': 'c', 'O': 'O'}


def install(P):
    I, Builtin, PList = P.I, P.Builtin, P.PList
    X.PList = PList
    d = P.NUMPY.d

    def reg(name, f):
        d[name] = P.np_call(name, f)

    def either(f, g):
        """f, or g where f gives no model"""
        def h(*a, **k):
            try:
                return f(*a, **k)
            except Unmodelled:
                return g(*a, **k)
        return h

    def new(name, f):
        old = d.get(name)
        reg(name, f if old is None or old.fn is None else either(old.fn, f))

    for n in ('argsort', 'argmax', 'argmin', 'nonzero', 'flatnonzero',
              'argwhere', 'count_nonzero', 'where', 'diag', 'diagonal',
              'trace', 'triu', 'tril', 'tri', 'cumsum', 'cumprod', 'average',
              'inner', 'vdot', 'kron', 'cross', 'around', 'roll', 'flipud',
              'fliplr', 'rot90', 'broadcast_arrays', 'ix_', 'indices',
              'compress', 'isclose', 'array_equiv', 'reciprocal', 'vander',
              'polyval', 'convolve', 'interp', 'unravel_index',
              'ravel_multi_index', 'ptp', 'median', 'var', 'std', 'pad',
              'triu_indices', 'tril_indices', 'union1d', 'intersect1d',
              'setdiff1d', 'put', 'fill_diagonal', 'block', 'select',
              'choose', 'lexsort', 'resize', 'positive'):
        new(n, getattr(X, n))
    for n in ('allclose',):
        reg(n, getattr(X, n))
    for n in ('delete', 'insert', 'diag_indices'):
        new(n, getattr(X, n))
    d['__version__'] = '2.2.6'

    def broadcast_to(a, shape, subok=False):
        r = N.broadcast_to(a, shape)
        r.buf.owner = 'readonly'
        return r
    reg('broadcast_to', broadcast_to)
    # ix_ of symbolic extents is not in either model
    d['ix_'] = P.np_call('ix_', X.ix_)
    reg('round', X.around)
    reg('fromiter', lambda it, dtype='d', count=-1: X.fromiter(
        I().concrete(it), dtype))
    reg('ndenumerate', lambda a: P.Iter(X.ndenumerate(a)))
    for n, ex, ax in (('split', True, 0), ('array_split', False, 0),
                      ('vsplit', True, 0), ('hsplit', True, 1),
                      ('dsplit', True, 2)):
        reg(n, X.split_(ex, ax))

    def hsplit(a, sections):
        return X.split_(True, 0 if X.arr(a).ndim == 1 else 1)(a, sections)
    reg('hsplit', hsplit)
    reg('sign', X.same_kind(X.sign1))
    reg('abs', X.same_kind(X.abs1))
    d['absolute'] = d['abs']
    reg('fabs', X.same_kind(lambda x: sc(X.abs1(x))))
    reg('isnan', X.bool_ufunc(False))
    reg('isinf', X.bool_ufunc(False))
    reg('isfinite', X.bool_ufunc(True))
    reg('isreal', X.bool_ufunc(True))
    reg('iscomplex', X.bool_ufunc(False))
    reg('isrealobj', lambda a: kind(X.arr(a).dtype) != 'c')
    reg('iscomplexobj', lambda a: kind(X.arr(a).dtype) == 'c')
    reg('nan_to_num', lambda a, *x, **k: A.copy(X.arr(a)) if isinstance(
        a, (Arr, list, tuple)) else a)
    for n, m in (('nansum', 'sum'), ('nanmax', 'amax'), ('nanmin', 'amin'),
                 ('nanmean', 'mean'), ('nanprod', 'prod')):
        d[n] = d[m]
    f8 = lambda f: X.same_kind(lambda x: sc(f(x)))
    reg('rint', f8(X.round1))
    reg('fix', f8(X.rounder('fix', X.trunc0)))
    reg('trunc', f8(X.rounder('fix', X.trunc0)))
    reg('isscalar', lambda x: isnum(x) or isinstance(x, str))
    d['e'] = core.func('exp', sc_const(1))
    reg('iterable', lambda x: P.b_iterable(x))
    reg('conj', lambda a: a)
    reg('conjugate', lambda a: a)
    reg('broadcast_shapes', lambda *s: tuple(A.broadcast_shape(
        [tuple(x) if isinstance(x, (tuple, list)) else (x,) for x in s])))
    d['require'] = P.np_call('require', lambda a, dtype=None,
                             requirements=None, **k: N.asarray(a, dtype))
    d['s_'] = Builtin('s_', None)
    d['index_exp'] = Builtin('index_exp', None)
    d['c_'] = Builtin('c_', None)

    def logspace(a, b, n=50, endpoint=True, base=10, **k):
        return N.binop('pow', base, N.linspace(a, b, n, endpoint))
    reg('logspace', logspace)

    def gradient(*a, **k):
        raise Unmodelled('gradient')
    reg('gradient', gradient)

    def trapz(y, x=None, dx=1):
        y = X.flat(X.arr(y))
        xs = X.flat(X.arr(x)) if x is not None else None
        r = 0
        for i in range(1, len(y)):
            h = nsub(xs[i], xs[i - 1]) if xs else N.unbox(X.arr(dx))
            r = nadd(r, ndiv(nmul(h, nadd(y[i], y[i - 1])), 2))
        return sc(r)
    reg('trapezoid', trapz)
    reg('trapz', trapz)

    # ---- dtype queries
    def code(x):
        if isinstance(x, Arr):
            return x.dtype
        if isinstance(x, bool):
            return 'b1'
        if isinstance(x, (int, Z)):
            return 'i8'
        if isinstance(x, Sc):
            return 'f8'
        return P.dtype_code(x)

    def result_type(*xs):
        arrs = [x for x in xs if not isnum(x)]
        kinds = [code(x) for x in xs]
        c = kinds[0]
        for k in kinds[1:]:
            c = promote(c, k)
        # a Python scalar does not raise the precision within its kind
        ac = [code(x) for x in arrs]
        if ac:
            r = ac[0]
            for k in ac[1:]:
                r = promote(r, k)
            if kind(r) == kind(c):
                c = r
        return P.DType(c)
    reg('result_type', result_type)
    reg('promote_types', lambda a, b: P.DType(promote(code(a), code(b))))

    def issubdtype(a, b):
        n = b if isinstance(b, str) else getattr(b, 'name', None)
        if isinstance(b, P.DType):
            n = NAMES[norm_code(b.code).lstrip('<>')]
        try:
            return X.issub(code(a), n.replace('numpy.', ''))
        except KeyError:
            raise Unmodelled('issubdtype(.., %s)' % n)
    d['issubdtype'] = Builtin('issubdtype', issubdtype)
    for n in ('inexact', 'signedinteger', 'complexfloating', 'generic',
              'single', 'longdouble', 'int8', 'int16', 'uint32',
              'uint64', 'uint', 'long', 'complex64'):
        d.setdefault(n, Builtin(n, None, lambda x: False, n))
    d['bool'] = P.BUILTINS['bool']

    def finfo(t=None):
        o = P.Opaque('finfo')
        return FInfo()

    class FInfo(P.Opaque):
        def __init__(self):
            P.Opaque.__init__(self, 'finfo')

        def abstract_getattr(self, n):
            v = {'eps': Fraction(1, 2 ** 52), 'tiny': Fraction(1, 2 ** 1022),
                 'resolution': Fraction(1, 10 ** 15),
                 'smallest_normal': Fraction(1, 2 ** 1022),
                 'max': (2 - Fraction(1, 2 ** 52)) * 2 ** 1023,
                 'min': -(2 - Fraction(1, 2 ** 52)) * 2 ** 1023}.get(n)
            if v is None:
                raise Unmodelled('finfo.%s' % n)
            return sc_const(v)
    d['finfo'] = Builtin('finfo', lambda t=None: FInfo())

    # ---- functions of functions
    class Vectorized(Builtin):
        pass

    def vectorize(f, otypes=None, **k):
        def g(*arrs):
            arrs = [X.arr(a) for a in arrs]
            bs = X.broadcast_arrays(*arrs)
            sh = X.dims(bs[0])
            cols = [X.flat(b) for b in bs]
            vals = [I().call(f, list(v), {}) for v in zip(*cols)]
            if not vals:
                raise Unmodelled('vectorize of nothing')
            if otypes is not None:
                dt = P.dtype_code(otypes[0])
            else:
                # the type of the first result decides
                dt = 'f8' if isinstance(N.unbox(vals[0]), Sc) else 'i8'
                if isinstance(vals[0], bool):
                    dt = 'b1'
            return X.mk(sh, [N.unbox(v) for v in vals], dt)
        return P.np_call('vectorized', g)
    d['vectorize'] = Builtin('vectorize', vectorize)

    def frompyfunc(*a, **k):
        raise Unmodelled('frompyfunc')
    d['frompyfunc'] = Builtin('frompyfunc', frompyfunc)

    def apply_along_axis(f, axis, a, *args, **kw):
        a = X.arr(a)
        sh = X.dims(a)
        ax = N.axis_arg(axis, a.ndim)
        m = N.moveaxis(a, ax, -1)
        lead = sh[:ax] + sh[ax + 1:]
        res = []
        for ix in itertools.product(*[range(s) for s in lead]):
            res.append(X.arr(I().call(f, [A.getitem(m, ix + (slice(None),))]
                                      + list(args), kw)))
        if not res:
            raise Unmodelled('apply_along_axis of nothing')
        n = X.dims(res[0])
        vals = [v for r in res for v in X.flat(r)]
        out = X.mk(lead + n, vals, res[0].dtype)
        if len(n) == 1:
            out = N.moveaxis(out, -1, ax)
        elif len(n):
            raise Unmodelled('apply_along_axis of matrices')
        return A.copy(out) if out.ndim else N.unbox(out)
    reg('apply_along_axis', apply_along_axis)

    # ---- ufunc methods
    OPS = {'add': ('add', 0), 'multiply': ('mul', 1), 'subtract':
           ('sub', None), 'divide': ('div', None), 'true_divide':
           ('div', None), 'power': ('pow', None), 'logical_and':
           ('and', True), 'logical_or': ('or', False), 'maximum':
           (None, None), 'minimum': (None, None), 'hypot': (None, None)}

    def ufunc_attrs(n, op):
        base = d[n].fn

        def two(a, b):
            return base(a, b)

        def reduce_(a, axis=0, dtype=None, out=None, keepdims=False,
                    initial=None):
            a = X.arr(a)
            if n in ('add', 'multiply', 'maximum', 'minimum') and \
               initial is None:
                f = {'add': N.nsum, 'multiply': N.nprod,
                     'maximum': N.amax, 'minimum': N.amin}[n]
                r = f(a, axis, keepdims=keepdims)
                return N.out_(r, out)

            def g(v):
                r = v[0] if initial is None else two(initial, v[0])
                for x in v[1:]:
                    r = two(r, x)
                return r
            r = X.along(g, a, axis, dtype if dtype is None else
                        P.dtype_code(dtype), keepdims)
            return N.out_(r, out)

        def accumulate(a, axis=0, dtype=None, out=None):
            if n == 'add':
                return N.out_(X.cumsum(a, axis), out)
            return N.out_(X.scan(two, X.arr(a), axis), out)

        def outer(a, b):
            a, b = X.arr(a), X.arr(b)
            a2 = A.getitem(a, (Ellipsis,) + (None,) * b.ndim)
            return base(a2, b)

        def at(a, ix, b=None):
            ix = X.flat(X.arr(ix))
            vals = X.arr(b)
            for k, i in enumerate(ix):
                v = vals if vals.ndim == 0 else A.getitem(vals, (k,))
                i = N.unbox(i)
                N.setitem(a, i, base(N.get(a, i), N.unbox(v)), 'ufunc.at')
        return {'reduce': P.np_call(n + '.reduce', reduce_),
                'accumulate': P.np_call(n + '.accumulate', accumulate),
                'outer': P.np_call(n + '.outer', outer),
                'at': Builtin(n + '.at', at)}
    for n, (op, unit) in OPS.items():
        if n in d:
            d[n].attrs = ufunc_attrs(n, op)
    lin = d['linalg'].d
    lin['multi_dot'] = Builtin('multi_dot', lambda ms: X.multi_dot(
        [I().arrval(m) for m in I().concrete(ms)]))
    lin['matrix_power'] = P.np_call('matrix_power', X.matrix_power)

    # ---- ndarray methods
    M = P.ARRM
    for n in ('argsort', 'argmax', 'argmin', 'nonzero', 'diagonal', 'trace',
              'cumprod', 'ptp', 'var', 'std'):
        M[n] = lambda i, a, *x, _f=getattr(X, n), **k: _f(a, *x, **k)
    M['cumsum'] = lambda i, a, *x, **k: d['cumsum'].fn(a, *x, **k)
    M['round'] = lambda i, a, *x, **k: X.around(a, *x, **k)
    M['conj'] = M['conjugate'] = lambda i, a: a
    M['compress'] = lambda i, a, c, axis=None, out=None: X.compress(
        c, a, axis, out)
    M['put'] = lambda i, a, ind, v, mode='raise': X.put(a, ind, v)

    def arr_resize(i, a, *s, refcheck=True):
        raise Unmodelled('ndarray.resize')
    M['resize'] = arr_resize

    # ---- math
    m = P.MATH.d

    def scalar(f):
        def g(*a):
            a = [P._item(I(), x) if isinstance(x, Arr) and x.size == 1 else x
                 for x in a]
            for x in a:
                if isinstance(x, (list, tuple, str, dict)) or x is None:
                    raise AbsRaise('TypeError', 'must be real number')
            return f(*a)
        return g

    def isclose(a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0):
        x, y = X.const_of(a), X.const_of(b)
        r, t = X.const_of(rel_tol), X.const_of(abs_tol)
        if core.same(sc(a), sc(b)) is True:
            return True
        if None not in (x, y, r, t):
            return abs(x - y) <= max(r * max(abs(x), abs(y)), t)
        return N.free_choice('isclose', [X.arr(a), X.arr(b)])

    def ints(f):
        return lambda *a: f(*[N.const_int(x) for x in a])

    def iprod(it, start=1):
        r = start
        for x in I().concrete(it):
            r = I().binop('mul', r, x)
        return r

    def fsum(it):
        r = sc_const(0)
        for x in I().concrete(it):
            r = I().binop('add', r, x)
        return r

    def copysign(a, b):
        v = sc(X.abs1(a))
        return nsub(0, v) if nlt(b, 0) else v

    def modf(x):
        c = X.const_of(x)
        if c is None:
            raise Unmodelled('modf of a symbol')
        return (sc_const(c - int(c)), sc_const(int(c)))
    for n, f in (('factorial', ints(math.factorial)),
                 ('comb', ints(math.comb)), ('perm', ints(math.perm)),
                 ('gcd', ints(math.gcd)), ('prod', iprod), ('fsum', fsum),
                 ('isclose', isclose), ('copysign', scalar(copysign)),
                 ('trunc', lambda x: P.b_int(x)), ('modf', modf),
                 ('isnan', lambda x: False), ('isinf', lambda x: False),
                 ('isfinite', lambda x: True),
                 ('pow', lambda a, b: N.binop('pow', sc(a), b)),
                 ('fmod', lambda a, b: Unm('fmod')),
                 ('exp', scalar(lambda x: expf(x))),
                 ('log', lambda x: logf(x))):
        m[n] = Builtin(n, f)
    m['atan'] = d['arctan']
    m['tau'] = nmul(2, m['pi'])
    m['inf'] = d['inf']
    m['e'] = d['e']

    def Unm(w):
        raise Unmodelled(w)

    def expf(x):
        return sc_const(1) if X.const_of(x) == 0 else core.func('exp', sc(x))

    def logf(x):
        return sc_const(0) if X.const_of(x) == 1 else core.func('log', sc(x))
    reg('exp', N.ufunc1(expf))
    reg('log', N.ufunc1(logf))

    # ---- itertools
    it = P.ITERTOOLS.d
    con = lambda x: list(I().concrete(x))
    lz = lambda x: P.lazy(x)
    it['product'] = Builtin('product', lambda *a, repeat=1: P.Iter(
        list(itertools.product(*[con(x) for x in a],
                               repeat=N.const_int(repeat)))))
    ch = it['chain'] = Builtin('chain', lambda *a: P.Iter(
        [y for x in a for y in con(x)]))
    ch.attrs = {'from_iterable': Builtin('from_iterable', lambda x: P.Iter(
        [z for y in con(x) for z in con(y)]))}
    for n in ('permutations', 'combinations',
              'combinations_with_replacement'):
        it[n] = Builtin(n, lambda x, *k, _f=getattr(itertools, n): P.Iter(
            list(_f(con(x), *[N.const_int(y) for y in k]))))

    def accumulate(x, f=None, initial=None):
        out = [] if initial is None else [initial]
        for y in con(x):
            if not out:
                out.append(y)
            elif f is None:
                out.append(I().binop('add', out[-1], y))
            else:
                out.append(I().call(f, [out[-1], y], {}))
        return P.Iter(out)
    it['accumulate'] = Builtin('accumulate', accumulate)

    def islice(x, *a):
        a = [None if y is None else N.const_int(y) for y in a]
        src = lz(x)
        if isinstance(src, P.SymSeq):
            raise Unmodelled('islice')
        return P.Iter(itertools.islice(iter(src), *a))
    it['islice'] = Builtin('islice', islice)
    it['zip_longest'] = Builtin('zip_longest', lambda *a, fillvalue=None:
                                P.Iter(list(itertools.zip_longest(
                                    *[con(x) for x in a],
                                    fillvalue=fillvalue))))
    it['izip'] = P.BUILTINS['zip']

    def groupby(x, key=None):
        out = []
        for y in con(x):
            k = y if key is None else I().call(key, [y], {})
            if out and I().equal(out[-1][0], k):
                out[-1][1].append(y)
            else:
                out.append((k, [y]))
        return P.Iter([(k, P.Iter(g)) for k, g in out])
    it['groupby'] = Builtin('groupby', groupby)

    def endless(x):
        return isinstance(x, P.Iter) and x.inf

    def known(x):
        y = lz(x)
        if isinstance(y, P.SymSeq):
            raise Unmodelled('symbolic iteration')
        return iter(y)

    def test(f, y):
        return I().truth(I().call(f, [y], {}))
    it['takewhile'] = Builtin('takewhile', lambda f, x: P.Iter(
        itertools.takewhile(lambda y: test(f, y), known(x))))
    it['dropwhile'] = Builtin('dropwhile', lambda f, x: P.Iter(
        itertools.dropwhile(lambda y: test(f, y), known(x)), endless(x)))
    it['filterfalse'] = Builtin('filterfalse', lambda f, x: P.Iter(
        (y for y in known(x)
         if not (I().truth(y) if f is None else test(f, y))), endless(x)))
    it['compress'] = Builtin('compress', lambda x, m: P.Iter(
        (y for y, k in zip(known(x), known(m)) if I().truth(k)),
        endless(x) and endless(m)))

    def count(start=0, step=1):
        def g():
            x = start
            while True:
                yield x
                x = I().binop('add', x, step)
        return P.Iter(g(), True, lambda i: I().binop(
            'add', start, I().binop('mul', i, step)))
    it['count'] = Builtin('count', count)

    def cycle(x):
        l = con(x)
        return P.Iter(itertools.cycle(l), bool(l))
    it['cycle'] = Builtin('cycle', cycle)

    def repeat(x, *n):
        if not n:
            return P.Iter(itertools.repeat(x), True, lambda i: x)
        return P.Iter([x] * N.const_int(n[0]))
    it['repeat'] = Builtin('repeat', repeat)
    it['starmap'] = Builtin('starmap', lambda f, x: P.Iter(
        [I().call(f, con(y), {}) for y in con(x)]))
    it['pairwise'] = Builtin('pairwise', lambda x: P.Iter(
        list(itertools.pairwise(con(x)))))

    def tee(x, n=2):
        l = con(x)
        return tuple(P.Iter(l) for _ in range(N.const_int(n)))
    it['tee'] = Builtin('tee', tee)

    # ---- operator
    op = P.EXT['operator'].d
    for n, k in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'),
                 ('truediv', 'div'), ('floordiv', 'floordiv'),
                 ('mod', 'mod'), ('pow', 'pow'), ('matmul', 'matmul')):
        op[n] = Builtin(n, lambda a, b, _k=k: I().binop(_k, a, b))
    op['neg'] = Builtin('neg', lambda a: N.neg(a))
    for n, c in (('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt),
                 ('ge', ast.GtE), ('eq', ast.Eq), ('ne', ast.NotEq),
                 ('is_', ast.Is), ('is_not', ast.IsNot)):
        op[n] = Builtin(n, lambda a, b, _c=c: I().compare(_c(), a, b))
    op['contains'] = Builtin('contains', lambda c, x: I().contains(c, x))
    op['not_'] = Builtin('not_', lambda x: not I().truth(x))
    op['truth'] = Builtin('truth', lambda x: I().truth(x))
    op['index'] = Builtin('index', lambda x: index(x))
    op['getitem'] = Builtin('getitem', lambda o, k: I().subscript(o, k))

    def index(x):
        i = toint(x)
        if i is None or isinstance(x, Sc):
            raise AbsRaise('TypeError', 'not an integer')
        return i

    def itemgetter(*ks):
        def g(o):
            r = [I().subscript(o, k) for k in ks]
            return r[0] if len(ks) == 1 else tuple(r)
        return Builtin('itemgetter', g)

    def attrgetter(*ns):
        def one(o, n):
            for p in n.split('.'):
                o = I().getattr(o, p)
            return o

        def g(o):
            r = [one(o, n) for n in ns]
            return r[0] if len(ns) == 1 else tuple(r)
        return Builtin('attrgetter', g)

    def methodcaller(n, *a, **k):
        return Builtin('methodcaller', lambda o: I().call(
            I().getattr(o, n), list(a), k))
    op['itemgetter'] = Builtin('itemgetter', itemgetter)
    op['attrgetter'] = Builtin('attrgetter', attrgetter)
    op['methodcaller'] = Builtin('methodcaller', methodcaller)

    # ---- functools
    ft = P.EXT['functools'].d
    ident = Builtin('identity', lambda f: f)
    ft['wraps'] = Builtin('wraps', lambda g, *a, **k: ident)

    def cmp_to_key(*a):
        raise Unmodelled('cmp_to_key')
    ft['cmp_to_key'] = Builtin('cmp_to_key', cmp_to_key)

    # ---- copy
    def deep(x, memo):
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, PList):
            if x.sym is not None:
                raise Unmodelled('deepcopy of a symbolic list')
            r = memo[id(x)] = PList()
            r.extend(deep(y, memo) for y in x)
            return r
        if isinstance(x, tuple):
            return tuple(deep(y, memo) for y in x)
        if isinstance(x, dict):
            r = memo[id(x)] = {}
            for k, v in x.items():
                r[k] = deep(v, memo)
            return r
        if isinstance(x, set):
            return set(x)
        if isinstance(x, Arr):
            r = memo[id(x)] = A.copy(x)
            return r
        if isinstance(x, P.Inst) and isinstance(x.cls, P.PyClass):
            h = x.cls.lookup('__deepcopy__')
            if h is not None:
                return I().call(P.Bound(h, x), [{}], {})
            r = memo[id(x)] = P.Inst(x.cls)
            for k, v in x.attrs.items():
                r.attrs[k] = deep(v, memo)
            return r
        return x

    def shallow(x):
        if isinstance(x, PList):
            if x.sym is not None:
                raise Unmodelled('copy of a symbolic list')
            return PList(x)
        if isinstance(x, dict):
            return dict(x)
        if isinstance(x, set):
            return set(x)
        if isinstance(x, Arr):
            return A.copy(x)
        if isinstance(x, P.Inst) and isinstance(x.cls, P.PyClass):
            h = x.cls.lookup('__copy__')
            if h is not None:
                return I().call(P.Bound(h, x), [], {})
            r = P.Inst(x.cls)
            r.attrs.update(x.attrs)
            return r
        return x
    P.EXT['copy'] = P.Module('copy', {
        'copy': Builtin('copy', shallow),
        'deepcopy': Builtin('deepcopy', lambda x, memo=None: deep(x, {}))},
        'unmodelled')

    # ---- contextlib, bisect, warnings
    P.EXT['contextlib'] = P.Module('contextlib', {
        'closing': Builtin('closing', P.closing),
        'suppress': Builtin('suppress', P.suppress),
        'nullcontext': Builtin('nullcontext', P.nullcontext),
        'contextmanager': Builtin('contextmanager', P.manager),
    }, 'unmodelled')
    w = P.EXT['warnings'].d
    w['catch_warnings'] = Builtin('catch_warnings', lambda **k:
                                  P.nullcontext())
    for n in ('simplefilter', 'filterwarnings', 'resetwarnings'):
        w[n] = Builtin(n, lambda *a, **k: None)
    reg('errstate', P.nullcontext)

    def bisector(side):
        return lambda a, x: I().call(P.NUMPY.d['searchsorted'],
                                     [P.PList(con(a)), x], {'side': side})
    P.EXT['bisect'] = P.Module('bisect', dict(
        (n, Builtin(n, bisector(d))) for n, d in (
            ('bisect', 'right'), ('bisect_right', 'right'),
            ('bisect_left', 'left'))), 'unmodelled')

    # ---- collections
    def namedtuple(name, fields, **k):
        fs = fields.replace(',', ' ').split() if isinstance(fields, str) \
            else [str(f) for f in I().concrete(fields)]

        def mkone(*a, **kw):
            a = list(a) + [kw[f] for f in fs[len(a):] if f in kw]
            if len(a) != len(fs):
                raise AbsRaise('TypeError', '%s() arguments' % name)
            r = P.NTuple(a)
            r.fields = fs
            return r
        return Builtin(name, mkone, lambda x: isinstance(x, P.NTuple) and
                       x.fields is fs)

    def defaultdict(f=None, *a):
        r = P.DefDict()
        r.factory = f
        if a:
            P._dupd(I(), r, a[0])
        return r

    def Counter(x=()):
        r = P.DefDict()
        r.factory = P.BUILTINS['int']
        for y in con(x):
            k = I().hashable(y)
            r[k] = r.get(k, 0) + 1
        return r
    P.EXT['collections'] = P.Module('collections', {
        'OrderedDict': P.BUILTINS['dict'],
        'namedtuple': Builtin('namedtuple', namedtuple),
        'defaultdict': Builtin('defaultdict', defaultdict),
        'Counter': Builtin('Counter', Counter)}, 'unmodelled')

    # ---- builtins
    B = P.BUILTINS

    def b_round(x, n=None):
        if isinstance(x, Arr):
            return X.around(x, 0 if n is None else n)
        if isinstance(x, (int, Z)) and n is None:
            return x
        c = X.const_of(x)
        if c is None:
            i = toint(x)
            if i is not None:
                return i if n is None else x
            if n is None:
                return P.int_symbol(('round', sc(x).fp))
            raise Unmodelled('round of a symbol')
        if n is None:
            return int(round(c))
        k = N.const_int(n)
        return sc_const(Fraction(round(c * 10 ** k)) / 10 ** k)
    B['round'] = Builtin('round', b_round)
    B['ord'] = Builtin('ord', lambda c: ord(c))
    B['chr'] = Builtin('chr', lambda i: chr(N.const_int(i)))

    def b_repr(x):
        if isinstance(x, str):
            return repr(x)
        return P.b_str(x)
    B['repr'] = Builtin('repr', b_repr)

    def pick(kindname):
        plain = P.b_minmax(kindname)

        def f(*a, key=None, default=P):
            if key is None and default is P:
                try:
                    return plain(*a)
                except Unmodelled:
                    pass
            l = con(a[0]) if len(a) == 1 else list(a)
            if not l:
                if default is P:
                    raise AbsRaise('ValueError', '%s() arg is an empty '
                                   'sequence' % kindname)
                return default
            if key is None and all(isnum(N.unbox(x)) for x in l):
                return plain(*(l if len(l) > 1 else [l]))
            best = bk = None
            for j, x in enumerate(l):
                k = x if key is None else I().call(key, [x], {})
                if j == 0 or (P.lt_any(I(), k, bk) if kindname == 'min'
                              else P.lt_any(I(), bk, k)):
                    best, bk = x, k
            return best
        return Builtin(kindname, f)
    B['min'] = pick('min')
    B['max'] = pick('max')
