"""Abstract scalar / index / path domain shared by the Python and Fortran
front ends.

Scalars are abstracted by *value numbers* in the sense of random
interpretation (Gulwani & Necula, POPL'03/'04): every real-valued expression
of the analysed program is mapped to the value of its polynomial / rational /
trigonometric normal form at K fixed pseudo-random points of a prime field.
Two abstract scalars with different value numbers denote different functions
of the program inputs; two with equal value numbers denote the same function
(up to a false-merge probability < 2**-100).  No program input is ever
chosen: inputs are free symbols, array extents are symbolic polynomials, and
array contents are functions of symbolic indices.
"""
from fractions import Fraction
import hashlib
import math
import operator
import itertools

P = (1 << 61) - 1
K = 24
M = 8          # inhabitants carried per scalar

_prf_cache = {}


def prf(key):
    """K pseudo-random field elements, a function of `key` only."""
    v = _prf_cache.get(key)
    if v is None:
        d = hashlib.shake_128(repr(key).encode()).digest(8 * K)
        v = tuple(int.from_bytes(d[8 * i:8 * i + 8], 'little') % P
                  for i in range(K))
        _prf_cache[key] = v
    return v


class Unmodelled(Exception):
    """The analysis met a construct outside its model: no verdict."""


class PathLimit(Exception):
    pass


# ---------------------------------------------------------------------------
# integer polynomials (sizes, indices)

class Z(object):
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def c(n):
        if isinstance(n, Z):
            return n
        return Z({(): n} if n != 0 else {})

    @staticmethod
    def sym(name):
        return Z({(name,): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, int):
            o = Z.c(o)
        return isinstance(o, Z) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = Z.c(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Z(t)
    __radd__ = __add__

    def __neg__(self):
        return Z({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Z.c(o))

    def __rsub__(self, o):
        return Z.c(o) - self

    def __mul__(self, o):
        o = Z.c(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Z(t)
    __rmul__ = __mul__

    def syms(self):
        return {s for m in self.t for s in m}

    def subst(self, env):
        if not (self.syms() & set(env)):
            return self
        r = Z({})
        for m, c in self.t.items():
            x = Z.c(c)
            for s in m:
                x = x * (env[s] if s in env else Z.sym(s))
            r = r + x
        return r

    def divmono(self, d):
        """exact division by d (returns None when not exact)."""
        d = Z.c(d)
        if d.is_const():
            k = d.const()
            if k == 0 or any(c % k for c in self.t.values()):
                return None
            return Z({m: c // k for m, c in self.t.items()})
        if len(d.t) == 1:
            (dm, dc), = d.t.items()
            t = {}
            for m, c in self.t.items():
                mm = list(m)
                for s in dm:
                    if s in mm:
                        mm.remove(s)
                    else:
                        return None
                if c % dc:
                    return None
                t[tuple(mm)] = c // dc
            return Z(t)
        # general polynomial long division w.r.t. a lexicographic order
        rem, q = self, Z({})
        lead = max(d.t)
        for _ in range(64):
            if not rem.t:
                return q
            m = max(rem.t, key=lambda mm: (len(mm), mm))
            lead = max(d.t, key=lambda mm: (len(mm), mm))
            x = Z({m: rem.t[m]}).divmono(Z({lead: d.t[lead]}))
            if x is None:
                return None
            q = q + x
            rem = rem - x * d
        return None

    def ev(self):
        out = [0] * K
        for m, c in self.t.items():
            x = [c % P] * K
            for s in m:
                v = PATH.symval(s)
                x = [a * b % P for a, b in zip(x, v)]
            out = [(a + b) % P for a, b in zip(out, x)]
        return tuple(out)

    def __repr__(self):
        if not self.t:
            return '0'
        r = []
        for m, c in sorted(self.t.items()):
            if not m:
                r.append('%+d' % c)
            else:
                s = '*'.join(m)
                r.append(('%+d*' % c if abs(c) != 1 else
                          ('+' if c > 0 else '-')) + s)
        s = ''.join(r)
        return s[1:] if s.startswith('+') else s


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, Z)


def simp(z):
    """Z -> plain int when constant."""
    if isinstance(z, Z):
        z = PATH.norm(z)
        if z.is_const():
            return int(z.const())
    return z


# ---------------------------------------------------------------------------
# paths: decisions, integer facts, order facts

class Path(object):
    """One abstract path: a decision prefix plus the facts it implies."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []          # list of (choice, n, label)
        self.memo = {}
        self.lb = {}             # symbol -> int lower bound
        self.facts = []          # Z >= 0
        self.sub = {}            # symbol -> Z
        self.order = {}          # fp -> (chain, rank)
        self.chains = {}
        self.degenerate = False
        self.log = []            # human readable decisions
        self.counter = itertools.count()
        self.events = []         # effect log used by the rules
        self.pred = []           # (op, fpa, fpb, truth)
        self.depth = 0
        self._vals = {}
        self.ge_cache = {}
        self.tight = {}          # fp -> sharper interval
        self.roots = {}          # fp of a square -> its positive root
        self.ivs = {}            # fp -> (lo, hi) interval assumptions
        self.alive = frozenset(range(M))
        self.blind = False

    # symbols
    def fresh(self, name, lb=0):
        n = '%s#%d' % (name, next(self.counter))
        self.lb[n] = lb
        return Z.sym(n)

    def declare(self, name, lb=0):
        self.lb.setdefault(name, lb)
        return Z.sym(name)

    def symval(self, s):
        v = self._vals.get(s)
        if v is None:
            if s in self.sub:
                v = self.sub[s].ev()
            else:
                v = prf(('sym', s))
            self._vals[s] = v
        return v

    def norm(self, z):
        if self.sub and (z.syms() & set(self.sub)):
            for _ in range(10):
                z2 = z.subst(self.sub)
                if z2 == z:
                    break
                z = z2
        return z

    # decisions
    def choose(self, key, n, label):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        if i > 400:
            raise PathLimit('too many decisions on one path')
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n, label))
        self.memo[key] = c
        self.log.append((label, c))
        return c

    # integer order
    def _lbpos(self, z):
        """all coefficients >= 0 after shifting symbols to lower bounds"""
        env = {}
        for s in z.syms():
            l = self.lb.get(s, None)
            if l is None:
                return False
            if l:
                env[s] = Z.sym(s) + l
        if env:
            z = z.subst(env)
        return all(c >= 0 for c in z.t.values())

    def known_ge0(self, z):
        z = self.norm(Z.c(z))
        if z.is_const():
            return z.const() >= 0
        ck = (z.key(), len(self.facts), len(self.sub))
        if ck in self.ge_cache:
            return self.ge_cache[ck]
        r = self._known_ge0(z)
        self.ge_cache[ck] = r
        return r

    def _known_ge0(self, z):
        def tryit(z):
            if self._lbpos(z):
                return True
            syms = z.syms()
            fs = [self.norm(f) for f in self.facts]
            rel = [f for f in fs if f.syms() & syms]
            for f in rel:
                if self._lbpos(z - f):
                    return True
            for f in rel:
                z1 = z - f
                s1 = z1.syms()
                for g in fs:
                    if g is f or not (g.syms() & s1):
                        continue
                    if self._lbpos(z1 - g):
                        return True
                    z2 = z1 - g
                    s2 = z2.syms()
                    for h in fs:
                        if h is f or h is g or not (h.syms() & s2):
                            continue
                        if self._lbpos(z2 - h):
                            return True
            return False
        if tryit(z):
            return True
        if tryit(-z - 1):
            return False
        return None

    def ge0(self, z, label='int'):
        z = self.norm(Z.c(z))
        k = self.known_ge0(z)
        if k is not None:
            return k
        if (-z - 1).key() < z.key():
            return not self.ge0_(-z - 1)
        return self.ge0_(z)

    def ge0_(self, z):
        c = self.choose(('ge0', z.key()), 2, '%r >= 0' % (z,))
        if c == 0:
            self.facts.append(z)
            return True
        self.facts.append(-z - 1)
        return False

    def eq0(self, z):
        z = self.norm(Z.c(z))
        if z.is_const():
            return z.const() == 0
        a = self.known_ge0(z - 1)
        b = self.known_ge0(-z - 1)
        if a is True or b is True:
            return False
        if a is False and b is False:
            return True
        # undecided
        c = self.choose(('eq0', z.key()), 2, '%r == 0' % (z,))
        if c == 0:          # generic: different
            if a is None and b is False:
                self.facts.append(z - 1)
            elif b is None and a is False:
                self.facts.append(-z - 1)
            else:
                # split the sign
                c2 = self.choose(('sg', z.key()), 2, '%r > 0' % (z,))
                self.facts.append(z - 1 if c2 == 0 else -z - 1)
            return False
        # equal: solve for a linear symbol with unit coefficient, index
        # symbols (prefix '@') first; substituting a size symbol would make
        # previously computed value numbers stale, hence `degenerate`
        for m, co in sorted(z.t.items(), key=lambda mc:
                            (not (mc[0] and mc[0][0].startswith('@')),
                             repr(mc))):
            if len(m) == 1 and abs(co) == 1:
                if not m[0].startswith('@'):
                    self.degenerate = True
                rest = z - Z({m: co})
                if m[0] in rest.syms():
                    continue
                val = (-rest) if co == 1 else rest
                self.sub[m[0]] = val
                self._vals.clear()
                lbm = self.lb.get(m[0], 0)
                self.facts.append(val - lbm)
                return True
        self.facts.append(z)
        self.facts.append(-z)
        self.degenerate = True
        return True

    def divmod(self, e, d):
        """(q, r) with e = q*d + r, 0 <= r < d, or None"""
        e, d = self.norm(Z.c(e)), self.norm(Z.c(d))
        if d.is_const() and e.is_const():
            return (Z.c(e.const() // d.const()), Z.c(e.const() % d.const()))
        q = e.divmono(d)
        if q is not None:
            return q, Z.c(0)
        if len(d.t) == 1:
            qt, rt = Z({}), Z({})
            for m, c in e.t.items():
                x = Z({m: c}).divmono(d)
                if x is None:
                    rt = rt + Z({m: c})
                else:
                    qt = qt + x
            if self.known_ge0(rt) and self.known_ge0(d - 1 - rt):
                return qt, rt
            if self.known_ge0(rt + d) and self.known_ge0(-rt - 1):
                return qt - 1, rt + d
        # e + c a multiple of d for a small c: the extreme elements
        for k in (1, -1):
            q = (e + k).divmono(d)
            if q is not None:
                if k == 1 and self.known_ge0(d - 1):
                    return q - 1, d - 1
                if k == -1 and self.known_ge0(d - 2):
                    return q, Z.c(1)
        # generic index: i = q*d + r without loss of generality
        for m, c in sorted(e.t.items()):
            if len(m) == 1 and c == 1 and m[0].startswith('@'):
                rest = e - Z({m: c})
                if m[0] in rest.syms():
                    continue
                q, r = self.fresh('@q', 0), self.fresh('@r', 0)
                self.facts.append(d - 1 - r)
                old = [f for f in self.facts if m[0] in f.syms()]
                self.sub[m[0]] = q * d + r - rest
                self._vals.clear()
                self.facts.append(self.sub[m[0]] - self.lb.get(m[0], 0))
                return q, r
        return None

    def le(self, a, b):
        return self.ge0(Z.c(b) - Z.c(a))

    def lt(self, a, b):
        return self.ge0(Z.c(b) - Z.c(a) - 1)

    def eq(self, a, b):
        return self.eq0(Z.c(a) - Z.c(b))


PATH = None   # the current path; rebound by explore()


class SubPath(Path):
    """A local exploration below a path: decisions about bound indices stay
    local, all others are forwarded to the enclosing path."""

    def __init__(self, parent, prefix):
        Path.__init__(self, prefix)
        self.parent = parent
        self.lb = dict(parent.lb)
        self.facts = list(parent.facts)
        self.sub = dict(parent.sub)
        self.order = parent.order
        self.chains = parent.chains
        self.ivs = parent.ivs
        self.counter = itertools.count(1000000 * (parent.depth + 1))
        self.depth = parent.depth + 1
        self.bound = set(getattr(parent, 'bound', ()))
        self.events = parent.events
        self.extra = getattr(parent, 'extra', None)

    def choose(self, key, n, label):
        if key in self.memo:
            return self.memo[key]
        p = self.parent
        while p is not None:
            if key in p.memo:
                return p.memo[key]
            p = getattr(p, 'parent', None)
        if key[0] in ('ge0', 'eq0', 'sg'):
            syms = {s for m, _ in key[1] for s in m}
            if not any(s.startswith('@') for s in syms):
                old = _PathProxy.cur
                _PathProxy.cur = self.parent
                try:
                    return self.parent.choose(key, n, label)
                finally:
                    _PathProxy.cur = old
        return Path.choose(self, key, n, label)


def nested(fn, limit=200):
    """results of fn() on every local path"""
    parent = _PathProxy.cur
    stack, out, n = [()], [], 0
    while stack:
        prefix = stack.pop()
        p = SubPath(parent, prefix)
        _PathProxy.cur = p
        try:
            try:
                out.append((p, fn()))
            except Infeasible:
                pass
        finally:
            _PathProxy.cur = parent
        for i in range(len(prefix), len(p.taken)):
            c, m, _ = p.taken[i]
            base = [t[0] for t in p.taken[:i]]
            for alt in range(m - 1, c, -1):
                stack.append(tuple(base + [alt]))
        if p.degenerate:
            parent.degenerate = True
        n += 1
        if n > limit:
            raise PathLimit('nested exploration')
    return out


class _PathProxy(object):
    cur = None

    def __getattr__(self, n):
        return getattr(_PathProxy.cur, n)

    def __setattr__(self, n, v):
        setattr(_PathProxy.cur, n, v)


PATH = _PathProxy()
_PathProxy.cur = Path()


class Infeasible(Exception):
    pass


def explore(fn, limit=3000):
    """Enumerate all abstract paths of fn(path); yields (path, outcome)."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(prefix)
        old = _PathProxy.cur
        _PathProxy.cur = p
        try:
            try:
                out = ('ok', fn(p))
            except Infeasible:
                out = None
            except Unmodelled as e:
                out = ('unmodelled', str(e))
            except PathLimit as e:
                out = ('unmodelled', 'path limit: ' + str(e))
            except RecursionError:
                out = ('unmodelled', 'recursion depth')
        finally:
            pass
        for i in range(len(prefix), len(p.taken)):
            c, m, _ = p.taken[i]
            base = [t[0] for t in p.taken[:i]]
            for alt in range(m - 1, c, -1):
                stack.append(tuple(base + [alt]))
        if out is not None:
            yield p, out
        _PathProxy.cur = old
        n += 1
        if n > limit:
            yield p, ('unmodelled', 'more than %d abstract paths' % limit)
            return


# ---------------------------------------------------------------------------
# scalars

_inv_cache = {}


def finv(x):
    return pow(x, P - 2, P)


def _map2(f, a, b):
    return tuple(None if (x is None or y is None) else f(x, y)
                 for x, y in zip(a, b))


NOOPS = frozenset()


class Sc(object):
    """abstract real (or complex) scalar."""
    __slots__ = ('fp', 'const', 'z', 'lin', 'ops', 'rep', 'tag', 'iv',
                 'w', 'src')

    def __init__(self, fp, const=None, z=None, lin=None, ops=NOOPS, rep='?',
                 tag=None, iv=None, w=None):
        self.iv = iv
        self.w = w
        self.src = None
        self.fp = fp
        self.const = const
        self.z = z
        self.lin = lin
        self.ops = ops
        self.rep = rep
        self.tag = tag

    def __repr__(self):
        return self.rep

    def unknown(self):
        return all(x is None for x in self.fp)


def sc_const(q):
    q = Fraction(q)
    d = q.denominator % P
    v = q.numerator % P * finv(d) % P
    return Sc((v,) * K, const=q, z=Z.c(int(q)) if q.denominator == 1 else None,
              rep=str(q) if abs(q.numerator) < 10**9 and q.denominator < 10**9
              else '%.17g' % float(q))


def sc_atom(*key, **kw):
    return Sc(prf(('atom',) + key), rep=kw.get('rep') or atomrep(key),
              tag=kw.get('tag'), ops=kw.get('ops', NOOPS))


def atomrep(key):
    s = ','.join(str(k) for k in key[1:])
    return '%s[%s]' % (key[0], s) if s else str(key[0])


def sc_top(rep='unknown'):
    return Sc((None,) * K, rep=rep)


def sc_z(z):
    z = PATH.norm(Z.c(z))
    if z.is_const():
        return sc_const(z.const())
    return Sc(z.ev(), z=z, rep=repr(z))


def sc(x):
    if isinstance(x, Sc):
        return x
    if isinstance(x, bool):
        return sc_const(int(x))
    if isinstance(x, (int, Fraction)):
        return sc_const(x)
    if isinstance(x, Z):
        return sc_z(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return sc_atom('special', repr(x))
        return sc_const(Fraction(repr(x)) if len(repr(x)) < 18
                        else Fraction(x))
    if isinstance(x, complex):
        return sc_atom('cplx', repr(x))
    raise Unmodelled('scalar from %r' % type(x).__name__)


def rp(s, n=150):
    return s if len(s) <= n else s[:n] + '..'


def _lin(a):
    if a.lin is not None:
        return a.lin
    if a.const is not None:
        return {1: a.const} if a.const else {}
    return {('v', a.fp): Fraction(1)}


def _addlin(a, b, sg):
    la, lb = _lin(a), _lin(b)
    r = dict(la)
    for k, c in lb.items():
        v = r.get(k, 0) + sg * c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r if len(r) <= 6 else None


def _const_or(fp, q, **kw):
    return sc_const(q)


# --- interval component (reduced product with the value numbers)

def set_iv(s, lo, hi):
    PATH.ivs[sc(s).fp] = (float(lo), float(hi))
    return s


def iv(a):
    if a.const is not None:
        f = float(a.const)
        return (f, f)
    if a.iv is not None:
        if PATH.tight:
            t = PATH.tight.get(a.fp)
            if t is not None:
                return (max(t[0], a.iv[0]), min(t[1], a.iv[1]))
        return a.iv
    ivs = PATH.ivs
    if not ivs:
        return None
    r = ivs.get(a.fp)
    if r is None and a.lin is not None and PI_KEY in a.lin:
        r = _ivlin(a.lin)
    if r is not None:
        a.iv = r
    return r


def _ivlin(lin):
    ivs = PATH.ivs
    lo = hi = m = 0.0
    for k, c in lin.items():
        if k == 1:
            x = (1.0, 1.0)
        elif k == 'pi':
            x = (3.141592653589793, 3.141592653589793)
        else:
            x = ivs.get(k[1]) if k[0] == 'v' else None
            if x is None:
                return None
        c = float(c)
        m = max(m, abs(c * x[0]), abs(c * x[1]))
        if c >= 0:
            lo += c * x[0]
            hi += c * x[1]
        else:
            lo += c * x[1]
            hi += c * x[0]
    return _outward(lo, hi, m * (len(lin) + 1))


# --- inhabitants: M sample points of the concretisation of the abstract
# state, used only to show that a branch outcome is inhabited before an alarm
# is raised on it



def wit(a):
    """M floats, or None when unknown"""
    w = a.w
    if w is None:
        if a.const is not None:
            w = (float(a.const),) * M
        elif a.ops or a.unknown():
            w = False
        else:
            lo, hi = PATH.ivs.get(a.fp, (-2.0, 2.0))
            if a.z is not None and a.fp not in PATH.ivs:
                w = False
            elif a.lin is not None and 'pi' in a.lin:
                w = (3.141592653589793 * float(a.lin['pi']),) * M
            else:
                w = tuple(lo + (hi - lo) * ((x % 99991 + 0.5) / 99991)
                          for x in prf(('w', a.fp))[:M])
        a.w = w
    return w or None


def _wf(r, f, *args):
    if PATH.ivs and r.const is None:
        ws = [wit(a) for a in args]
        if all(w is not None for w in ws):
            out = []
            for x in zip(*ws):
                try:
                    out.append(f(*x))
                except (ValueError, ZeroDivisionError, OverflowError,
                        TypeError):
                    out.append(float('nan'))
            r.w = tuple(out)
        else:
            r.w = False
    return r


def _fix(r, f, wf, *args):
    """attach interval and inhabitants of the result r of f(*args)"""
    if PATH.ivs and r.const is None and r.iv is None:
        _wf(r, wf, *args)
        r.src = (wf.__name__,) + args
        x = None
        xs = [iv(a) for a in args]
        if all(v is not None for v in xs):
            x = f(*xs)
        if r.lin is not None:
            y = _ivlin(r.lin)
            if y is not None:
                x = y if x is None else (max(x[0], y[0]), min(x[1], y[1]))
        r.iv = x
    return r


def _ivmul(x, y):
    p = (x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1])
    return (min(p), max(p))


def _ivsq(x, _):
    m = max(x[0] * x[0], x[1] * x[1])
    return (0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1]), m)


def _ivdiv(x, y):
    if y[0] <= 0 <= y[1]:
        return None
    p = (x[0] / y[0], x[0] / y[1], x[1] / y[0], x[1] / y[1])
    return (min(p), max(p))


def _outward(lo, hi, m):
    e = 4e-16 * m           # covers the rounding of the sums below
    return (lo - e, hi + e)


def _IVADD(x, y):
    return _outward(x[0] + y[0], x[1] + y[1], max(map(abs, x + y)))


def _IVSUB(x, y):
    return _outward(x[0] - y[1], x[1] - y[0], max(map(abs, x + y)))


TINY = 0.0


def sign(a):
    """-1 / 1 when the interval component decides the sign, else None"""
    a = sc(a)
    if a.const is not None:
        return (a.const > 0) - (a.const < 0)
    x = iv(a)
    if x is None:
        return None
    if x[0] > TINY:
        return 1
    if x[1] < -TINY:
        return -1
    return None


def order_sign(a, b):
    """sign of a - b when decided, else None"""
    if not PATH.ivs and (a.iv is None and a.const is None or
                         b.iv is None and b.const is None):
        return None
    x, y = iv(a), iv(b)
    if x is not None and y is not None:
        if x[0] > y[1] + TINY:
            return 1
        if x[1] < y[0] - TINY:
            return -1
    d = sub(a, b)
    r = sign(d)
    return _order_src(a, b, 5) if r is None else r


def _order_src(a, b, depth):
    """compare by cancelling a common operand (monotone operations)"""
    if not depth or a.src is None or b.src is None:
        return None
    out = None
    for op, x, c, s in _views(a):
        for op2, y, c2, s2 in _views(b):
            if op != op2 or s != s2 or c.fp != c2.fp or \
               (c.const is None and same(c, c2) is not True):
                continue
            g = s
            if op == '*':
                g = sign(c)
                if g is None or g == 0:
                    continue
            if same(x, y) is True:
                return 0
            ix, iy = iv(x), iv(y)
            r = None
            if ix and iy:
                r = 1 if ix[0] > iy[1] else -1 if ix[1] < iy[0] else None
            if r is None:
                r = sign(sub(x, y))
            if r is None:
                r = _order_src(x, y, depth - 1)
            if r is not None:
                return r * g
    return out


def _views(a):
    if a.src is None or len(a.src) != 3:
        return
    op, x, y = a.src
    if op == 'add':
        yield '+', x, y, 1
        yield '+', y, x, 1
    elif op == 'sub':
        yield '-', x, y, 1        # x - c
        yield '-', y, x, -1       # c - y
    elif op == 'mul':
        yield '*', x, y, 1
        yield '*', y, x, 1
    elif op == 'truediv':
        g = sign(y)
        if g:
            yield '/', x, y, g


def add(a, b):
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return sc_const(a.const + b.const)
    if b.const == 0:
        return a
    if a.const == 0:
        return b
    return _fix(Sc(
        _map2(lambda x, y: (x + y) % P, a.fp, b.fp),
        z=(a.z + b.z) if a.z is not None and b.z is not None else None,
        lin=_addlin(a, b, 1), ops=a.ops | b.ops,
        rep=rp('(%s + %s)' % (a.rep, b.rep))), _IVADD, operator.add, a, b)


def sub(a, b):
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return sc_const(a.const - b.const)
    if b.const == 0:
        return a
    fp = _map2(lambda x, y: (x - y) % P, a.fp, b.fp)
    if all(x == 0 for x in fp):
        return sc_const(0)
    return _fix(Sc(
        fp, z=(a.z - b.z) if a.z is not None and b.z is not None else None,
        lin=_addlin(a, b, -1), ops=a.ops | b.ops,
        rep=rp('(%s - %s)' % (a.rep, b.rep))), _IVSUB, operator.sub, a, b)


def mul(a, b):
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return sc_const(a.const * b.const)
    for x, y in ((a, b), (b, a)):
        if x.const is not None:
            if x.const == 0:
                return sc_const(0)
            if x.const == 1:
                return y
    lin = None
    for x, y in ((a, b), (b, a)):
        if x.const is not None:
            lin = {k: c * x.const for k, c in _lin(y).items()}
    return _fix(Sc(
        _map2(lambda x, y: x * y % P, a.fp, b.fp),
        z=(a.z * b.z) if a.z is not None and b.z is not None else None,
        lin=lin, ops=a.ops | b.ops,
        rep=rp('%s*%s' % (a.rep, b.rep))),
        _ivsq if a.fp == b.fp else _ivmul, operator.mul, a, b)


def div(a, b):
    a, b = sc(a), sc(b)
    if b.const is not None:
        if b.const == 0:
            # inf or nan: no finite value
            return sc_atom('x/0', a.fp, rep=rp('%s/0' % a.rep))
        if a.const is not None:
            return sc_const(a.const / b.const)
        return mul(a, sc_const(1 / b.const))
    if a.const == 0:
        return a

    def f(x, y):
        return None if y == 0 else x * finv(y) % P
    z = None
    if a.z is not None and b.z is not None:
        z = a.z.divmono(b.z)
    return _fix(Sc(_map2(f, a.fp, b.fp), z=z, ops=a.ops | b.ops,
                   rep=rp('%s/(%s)' % (a.rep, b.rep))), _ivdiv,
                operator.truediv, a, b)


def neg(a):
    a = sc(a)
    if a.const is not None:
        return sc_const(-a.const)
    return _fix(Sc(tuple(None if x is None else (-x) % P for x in a.fp),
                   z=(-a.z) if a.z is not None else None,
                   lin={k: -c for k, c in _lin(a).items()}, ops=a.ops,
                   rep=rp('-' + a.rep)), lambda x: (-x[1], -x[0]),
                operator.neg, a)


def _fsqrt(x):
    if x is None:
        return None
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    return r if r * r % P == x else None


def sqrt(a):
    a = sc(a)
    if a.const is not None and a.const >= 0:
        n, d = a.const.numerator, a.const.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return sc_const(Fraction(rn, rd))
    if a.src is not None and len(a.src) == 3 and a.src[0] == 'mul' and \
       same(a.src[1], a.src[2]) is True and sign(a.src[1]):
        return absval(a.src[1])
    r = PATH.roots.get(a.fp)
    if r is not None:
        return r
    return _fix(Sc(tuple(_fsqrt(x) for x in a.fp), ops=a.ops,
                   rep=rp('sqrt(%s)' % a.rep)),
                lambda x: (max(x[0], 0) ** .5, max(x[1], 0) ** .5), math.sqrt,
                a)


def declare_root(x):
    """x is positive: sqrt(x*x) is x (square roots in a finite field do not
    know their sign)"""
    PATH.roots[mul(x, x).fp] = x
    return x


def tighten(*xs):
    """use the interval of x for every expression of the same value"""
    for x in xs:
        r = iv(x)
        if r is not None:
            PATH.tight[x.fp] = r


def absval(a):
    a = sc(a)
    if a.const is not None:
        return sc_const(abs(a.const))
    g = sign(a)
    if g is not None:
        return a if g > 0 else neg(a)
    s = sqrt(mul(a, a))
    return Sc(s.fp, ops=a.ops, rep=rp('abs(%s)' % a.rep), iv=s.iv, w=s.w)


def power(a, b):
    a, b = sc(a), sc(b)
    if b.const is not None and b.const.denominator == 1 and abs(b.const) <= 12:
        n = int(b.const)
        r = sc_const(1)
        for _ in range(abs(n)):
            r = mul(r, a)
        return div(1, r) if n < 0 else r
    if b.const == Fraction(1, 2):
        return sqrt(a)
    return func('pow', a, b)


_FLOATF = {'floor': math.floor, 'pow': pow, 'exp': math.exp,
           'log': math.log, 'mod': operator.mod, 'tan': math.tan,
           'ceil': math.ceil}


def func(name, *args, **kw):
    """uninterpreted function of scalars"""
    args = [sc(a) for a in args]
    ops = kw.get('ops', NOOPS)
    for a in args:
        ops = ops | a.ops
    if any(a.unknown() for a in args):
        return sc_top(name)
    r = Sc(prf(('f', name) + tuple(a.fp for a in args)), ops=ops,
           rep=rp('%s(%s)' % (name, ', '.join(a.rep for a in args))))
    f = _FLOATF.get(name)
    if f is None:
        r.w = False
        return r
    return _wf(r, f, *args)


# --- trigonometry on the circle group over F_P (order P + 1 = 2**61)

def _cmul(a, b):
    if a is None or b is None:
        return None
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def _cpow(a, n):
    if a is None:
        return None
    if n < 0:
        a = (a[0], -a[1] % P)
        n = -n
    r = (1, 0)
    while n:
        if n & 1:
            r = _cmul(r, a)
        a = _cmul(a, a)
        n >>= 1
    return r


def _circ(t):
    d = finv((1 + t * t) % P)
    return ((1 - t * t) * d % P, 2 * t * d % P)


def _pi128():
    t = 3
    while True:
        g = _cpow(_circ(t), 1 << 54)
        if _cpow(g, 64) == (P - 1, 0):
            break
        t += 1
    s2 = _fsqrt(2) * finv(2) % P
    for k in range(1, 128, 2):
        h = _cpow(g, k)
        if _cpow(h, 32) == (0, 1) and _cpow(h, 16) == (s2, s2):
            return h
    raise AssertionError


_PI = None
_ANG = {}     # lin key -> (scale, [circle elements])
PI_KEY = 'pi'


def sc_pi():
    s = sc_atom('pi')
    s.lin = {PI_KEY: Fraction(1)}
    s.iv = (3.1415926535, 3.1415926536)
    return s


def _circle(a):
    """K circle elements exp(i*a), or raises Unmodelled."""
    global _PI
    out = [(1, 0)] * K
    for k, c in _lin(a).items():
        if k == PI_KEY:
            n = c * 64
            if n.denominator != 1:
                raise Unmodelled('angle %s*pi' % c)
            if _PI is None:
                _PI = _pi128()
            e = [_cpow(_PI, int(n))] * K
        else:
            if k == 1:
                # constant (non pi) angle: an opaque circle element
                scale, base = 1920, [_circ(x) for x in prf(('ang', 'one'))]
            elif k in _ANG:
                scale, base = _ANG[k]
            else:
                fp = k[1]
                scale = 960
                base = [None if x is None else _circ(prf(('ang', fp))[i])
                        for i, x in enumerate(fp)]
            n = c * scale
            if n.denominator != 1:
                raise Unmodelled('angle multiple %s' % c)
            e = [_cpow(b, int(n)) for b in base]
        out = [_cmul(x, y) for x, y in zip(out, e)]
    return out


def cos(a):
    a = sc(a)
    if a.const == 0:
        return sc_const(1)
    fp = tuple(None if e is None else e[0] for e in _circle(a))
    return _cst(_wf(Sc(fp, ops=a.ops, rep=rp('cos(%s)' % a.rep),
                       iv=_ivcos(iv(a))), math.cos, a))


def _ivcos(x):
    """range of cos over an interval"""
    if x is None or x[1] - x[0] > 6.28:
        return (-1.0, 1.0)
    lo, hi = sorted((math.cos(x[0]), math.cos(x[1])))
    k = math.ceil(x[0] / math.pi - 1e-12)
    while k * math.pi <= x[1] + 1e-12:
        if k % 2:
            lo = -1.0
        else:
            hi = 1.0
        k += 1
    return _outward(lo, hi, 1.0)


def sin(a):
    a = sc(a)
    if a.const == 0:
        return sc_const(0)
    fp = tuple(None if e is None else e[1] for e in _circle(a))
    x = iv(a)
    return _cst(_wf(Sc(fp, ops=a.ops, rep=rp('sin(%s)' % a.rep),
                       iv=_ivcos(x and (x[0] - math.pi / 2,
                                        x[1] - math.pi / 2))), math.sin, a))


def _cst(s):
    for q in (0, 1, -1):
        if all(x is not None and x == q % P for x in s.fp):
            return sc_const(q)
    return s


def _angle_atom(name, args, circ, ops):
    key = ('a', name) + tuple(x.fp for x in args)
    _ANG[key] = (1, circ)
    s = Sc(prf(('f', name) + tuple(x.fp for x in args)),
           lin={key: Fraction(1)}, ops=ops,
           rep=rp('%s(%s)' % (name, ', '.join(x.rep for x in args))))
    return _wf(s, {'arctan2': math.atan2, 'arccos': math.acos,
                   'arcsin': math.asin}[name], *args)


def arctan2(y, x):
    y, x = sc(y), sc(x)
    if y.const == 0:
        if x.const == 0 or (sign(x) or 0) > 0:
            return sc_const(0)
        if (sign(x) or 0) < 0:
            return sc_pi()
    r = sqrt(add(mul(x, x), mul(y, y)))
    c, s = div(x, r), div(y, r)
    circ = [None if (a is None or b is None) else (a, b)
            for a, b in zip(c.fp, s.fp)]
    return _angle_atom('arctan2', (y, x), circ, y.ops | x.ops)


def arccos(x):
    x = sc(x)
    if x.const == 1:
        return sc_const(0)
    if x.const == -1:
        return sc_pi()
    if x.const == 0:
        return div(sc_pi(), 2)
    s = sqrt(sub(1, mul(x, x)))
    circ = [None if (a is None or b is None) else (a, b)
            for a, b in zip(x.fp, s.fp)]
    r = _angle_atom('arccos', (x,), circ, x.ops)
    i = PATH.ivs.get(x.fp) or iv(x)
    if i is not None:
        r.iv = _outward(math.acos(max(-1, min(1, i[1]))),
                        math.acos(max(-1, min(1, i[0]))), 4)
    return r


def arcsin(x):
    x = sc(x)
    c = sqrt(sub(1, mul(x, x)))
    circ = [None if (a is None or b is None) else (a, b)
            for a, b in zip(c.fp, x.fp)]
    return _angle_atom('arcsin', (x,), circ, x.ops)


# --- comparisons

def same(a, b):
    """True / False / None (unknown)"""
    a, b = sc(a), sc(b)
    n = 0
    for x, y in zip(a.fp, b.fp):
        if x is None or y is None:
            continue
        if x != y:
            return False
        n += 1
    return True if n >= 2 else None


def set_order(*chain):
    """declare c0 < c1 < c2 ... for scalars (a context assumption)"""
    name = len(PATH.chains)
    PATH.chains[name] = chain
    for r, s in enumerate(chain):
        PATH.order[sc(s).fp] = (name, r)


def cmp_lt(a, b):
    """a < b"""
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return a.const < b.const
    if same(a, b) is True:
        return False
    if a.z is not None and b.z is not None:
        return PATH.lt(a.z, b.z)
    oa, ob = PATH.order.get(a.fp), PATH.order.get(b.fp)
    if oa and ob and oa[0] == ob[0]:
        return oa[1] < ob[1]
    g = order_sign(a, b)
    if g is not None:
        return g < 0
    k1 = ('lt', a.fp, b.fp)
    k2 = ('lt', b.fp, a.fp)
    if k2 in PATH.memo and PATH.memo[k2] == 0:
        return False
    c = PATH.choose(k1, 2, rp('%s < %s' % (a.rep, b.rep)))
    inhabit(a, b, (lambda x, y: x < y) if c == 0 else (lambda x, y: x >= y))
    return c == 0


def cmp_eq(a, b):
    a, b = sc(a), sc(b)
    if a.const is not None and b.const is not None:
        return a.const == b.const
    s = same(a, b)
    if s is True:
        return True
    if a.z is not None and b.z is not None:
        return PATH.eq(a.z, b.z)
    oa, ob = PATH.order.get(a.fp), PATH.order.get(b.fp)
    if oa and ob and oa[0] == ob[0]:
        return oa[1] == ob[1]
    g = order_sign(a, b)
    if g is not None:
        return g == 0
    for k in (('lt', a.fp, b.fp), ('lt', b.fp, a.fp)):
        if PATH.memo.get(k) == 0:
            return False
    x, y = sorted([a.fp, b.fp], key=repr)
    c = PATH.choose(('eq', x, y), 2, rp('%s == %s' % (a.rep, b.rep)))
    inhabit(a, b, _NE if c == 0 else operator.eq)
    if c == 1:
        PATH.degenerate = True
        return True
    return False


_NE = operator.ne


def inhabit(a, b, f):
    """restrict the inhabitants of the current path by a decision"""
    p = _PathProxy.cur
    if not p.ivs:
        x = y = None
        if f is _NE:
            return
    else:
        x, y = wit(a), wit(b)
    ok = None if x is None or y is None else \
        frozenset(i for i in range(M) if f(x[i], y[i]))
    while p is not None:
        if ok is None:
            p.blind = True
        else:
            p.alive = p.alive & ok
        p = getattr(p, 'parent', None)


def cmp_le(a, b):
    a, b = sc(a), sc(b)
    if same(a, b) is True:
        return True
    if a.z is not None and b.z is not None:
        return PATH.le(a.z, b.z)
    return not cmp_lt(b, a)
