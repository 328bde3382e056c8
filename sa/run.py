"""Obligations, path verdicts and the driver of one property check."""
import argparse
import json
import os
import signal
import sys
import time
import traceback

from . import core, arrays as A, npmodel as N, pyinterp as PI, pyf, backend
from .core import (Z, Sc, PATH, Unmodelled, PathLimit, explore, same, sc,
                   sc_atom, sc_const, simp)
from .arrays import Arr, AbsRaise

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IGAKIT_SRC', '/repo')


class Ctx(object):
    """the analysed sources, parsed once per process"""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.klog = []
        d = os.path.join(repo, 'igakit')
        self.pyftext = open(os.path.join(d, 'igalib.pyf')).read()
        self.f90text = open(os.path.join(d, 'igalib.f90')).read()
        self.kmod = pyf.kernels_module(self.pyftext, self.klog)
        self.B = backend.Backend(self.f90text, user=self.kmod.user)
        self.w = PI.World(repo, kernels=self.kmod)
        PI.INTERP[0] = self.w.interp
        self.I = self.w.interp

    def template(self, on=True):
        pyf.BACKEND[0] = self.B if on else None

    def mod(self, name):
        m = self.w.load('igakit.' + name)
        return m

    def name(self, mod, n):
        return self.I.getattr(self.mod(mod), n)

    def call(self, f, *a, **kw):
        return self.I.call(f, list(a), kw)

    def m(self, obj, name, /, *a, **kw):
        """obj.name(*a, **kw)"""
        return self.I.call(self.I.getattr(obj, name), list(a), kw)

    def get(self, obj, name):
        return self.I.getattr(obj, name)

    def kernel(self, mod, name):
        return self.kmod.d[mod].d[name]


class T(object):
    """checks collected along one abstract path"""

    def __init__(self, ctx):
        self.c = ctx
        self.res = []
        self.n = 0

    def note(self, st, what, detail=''):
        self.n += 1
        if st is not True:
            self.res.append((st, what, str(detail)[:600]))
        return st

    def ok(self, cond, what, detail=''):
        if cond is None:
            return self.note(None, what, detail)
        return self.note(bool(cond), what, detail)

    def eq(self, a, b, what, strict=False):
        """value-number equality of two scalars"""
        if isinstance(a, bool) or isinstance(b, bool) or a is None or \
           b is None or isinstance(a, str) or isinstance(b, str):
            return self.note(a == b, what, '%r vs %r' % (a, b))
        if isinstance(a, (int, Z)) and isinstance(b, (int, Z)):
            d = simp(Z.c(a) - Z.c(b))
            if isinstance(d, int):
                return self.note(d == 0, what, '%r vs %r' % (a, b))
            e = PATH.known_ge0(d - 1) is False and \
                PATH.known_ge0(-d - 1) is False
            if e:
                return self.note(True, what)
            ne = PATH.known_ge0(d - 1) or PATH.known_ge0(-d - 1)
            return self.note(False if ne else None, what,
                             '%r vs %r' % (a, b))
        a, b = sc(a), sc(b)
        r = same(a, b)
        if r is False and (a.ops != b.ops or (a.ops and not strict)):
            r = None
        return self.note(r, what, '%s vs %s' % (a.rep, b.rep))

    def eqs(self, xs, ys, what, strict=False):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return self.note(False, what, 'lengths %d vs %d'
                             % (len(xs), len(ys)))
        st = True
        for i, (x, y) in enumerate(zip(xs, ys)):
            r = self.eq(x, y, '%s[%d]' % (what, i), strict)
            if r is False:
                return r
            if r is None:
                st = r
        return st

    def shape(self, a, shape, what):
        if not isinstance(a, Arr):
            return self.note(False, what, 'not an array: %r' % (a,))
        s = a.shape
        if len(s) != len(shape):
            return self.note(False, what, 'shape %r, expected %r'
                             % (s, tuple(shape)))
        for k, (x, y) in enumerate(zip(s, shape)):
            r = self.eq(x, y, '%s: extent %d' % (what, k))
            if r is not True:
                return r
        return True

    def raises(self, thunk, what, kinds=None):
        try:
            thunk()
        except AbsRaise as e:
            if kinds and e.exc not in kinds:
                return self.note(False, what, 'raised %s %s' % (e.exc, e.msg))
            return self.note(True, what)
        return self.note(False, what, 'accepted')

    def same_arr(self, a, b, what):
        """same shape and contents (generic mode: by symbolic index)"""
        if self.shape(a, b.shape, what) is not True:
            return
        r = A.arrays_same(a, b)
        if r is False and (N.opsof(a) or N.opsof(b)):
            r = None
        return self.note(r, what)


class Snap(object):
    """snapshot of caller-owned data, for effect checks"""

    def __init__(self, *objs):
        self.items = []
        for o in objs:
            self.add(o, 'argument')

    def add(self, o, name):
        if isinstance(o, Arr):
            self.items.append(('arr', o, name, A.view(o), o.buf.content,
                               o.buf.nwrites, o.base, o.axes))
        elif isinstance(o, (PI.PList, list, tuple)):
            it = list(o)
            self.items.append(('list', o, name, it))
            for i, x in enumerate(it):
                self.add(x, '%s[%d]' % (name, i))
        elif isinstance(o, dict):
            for k in o:
                self.add(o[k], '%s[%r]' % (name, k))
        elif isinstance(o, PI.Inst):
            d = dict(o.attrs)
            self.items.append(('inst', o, name, d))
            for k in d:
                if isinstance(d[k], (Arr, PI.PList, list, tuple)):
                    self.add(d[k], '%s.%s' % (name, k))

    def check(self, t, what, own=()):
        """nothing in the snapshot changed; objects in `own` (in-place
        targets) may be rebound but their old buffers may not change"""
        for it in self.items:
            if it[0] == 'arr':
                _, o, name, v, content, nw, base, axes = it
                if o.buf.content is not content:
                    old = Arr(_frozen(o.buf, content), v.base, v.axes)
                    r = A.arrays_same(old, A.view(v))
                    if r is False or r is True:
                        t.note(r, what, 'contents of %s changed' % name)
                    else:
                        t.note(None, what, 'contents of %s' % name)
                else:
                    t.note(True, what)
                if (o.base, o.axes) != (base, axes) and o.base != base or \
                   [[c.size for c in a] for a in o.axes] != \
                   [[c.size for c in a] for a in axes]:
                    t.note(False, what, 'shape of %s changed in place'
                           % name)
            elif it[0] == 'list':
                _, o, name, items = it
                now = list(o)
                t.note(len(now) == len(items) and all(
                    a is b or a == b for a, b in zip(now, items)), what,
                    'list %s changed' % name)
            elif it[0] == 'inst':
                _, o, name, d = it
                if any(o is x for x in own):
                    continue
                for k in d:
                    t.note(_value_eq(o.attrs.get(k), d[k]), what,
                           '%s.%s changed' % (name, k))


def _value_eq(a, b):
    """same value (contents of the old arrays are checked separately)"""
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.shape) == len(b.shape) and A.arrays_same(a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        r = [_value_eq(x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    return _plain_eq(a, b)


def _plain_eq(a, b):
    if isinstance(a, (int, str, type(None), float)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(x is y or _plain_eq(x, y) for x, y in zip(a, b))
    return False


def _frozen(buf, content):
    b = A.Buf.__new__(A.Buf)
    b.id = -buf.id
    b.content = content
    b.sizes = buf.sizes
    b.dtype = buf.dtype
    b.owner = buf.owner
    b.nwrites = 0
    b.name = buf.name
    return b


# ---------------------------------------------------------------------------

class Ob(object):
    def __init__(self, prop, oid, fn, tier='quick', mode='template',
                 limit=400, site='', budget=60, rule=''):
        self.prop = prop
        self.oid = oid
        self.fn = fn
        self.tier = tier
        self.mode = mode
        self.limit = limit
        self.site = site
        self.budget = budget
        self.rule = rule


class Budget(Exception):
    pass


def _alarm(sig, frm):
    raise Budget()


_ctx = [None]


def context():
    if _ctx[0] is None:
        _ctx[0] = Ctx()
    return _ctx[0]


def int_inhabited(p):
    """small assignment of the size symbols satisfying the path facts"""
    facts = [p.norm(f) for f in p.facts]
    syms = sorted({s for f in facts for s in f.syms()
                   if not s.startswith('@')})
    facts = [f for f in facts
             if not any(s.startswith('@') for s in f.syms())]
    if any(':' in s for s in syms):
        return False           # opaque integers: cannot tell
    if not facts:
        return True
    if len(syms) > 6:
        return False
    import itertools
    for vals in itertools.product(range(5), repeat=len(syms)):
        env = {s: p.lb.get(s, 0) + v for s, v in zip(syms, vals)}
        for f in facts:
            tot = 0
            for m, c in f.t.items():
                x = c
                for s in m:
                    x *= env[s]
                tot += x
            if tot < 0:
                break
        else:
            return True
    return False


def run_ob(ob, debug=False):
    """-> dict(status, paths, checks, details)"""
    ctx = context()
    ctx.template(ob.mode == 'template')
    t0 = time.time()
    paths = checks = good = 0
    und, bad = [], []
    calls0 = ctx.B.calls
    ctx.I.visited.clear()
    ctx.B.fw.visited.clear()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ob.budget)

    def body(p):
        t = T(ctx)
        exc = None
        try:
            ob.fn(t)
        except AbsRaise as e:
            exc = ('raise', '%s: %s' % (e.exc, e.msg))
        except backend.KernelFault as e:
            exc = ('fault', str(e))
        except backend.Terminates as e:
            exc = ('stop', str(e))
        except (PathLimit, core.Infeasible, Budget):
            raise
        except Unmodelled:
            # what was refuted before the oracle gave up stays refuted
            if not any(r[0] is False for r in t.res):
                raise
        except Exception as e:
            if debug:
                traceback.print_exc()
            if not any(r[0] is False for r in t.res):
                raise Unmodelled('internal: %s %s' % (type(e).__name__, e))
        return t, exc

    try:
        for p, o in explore(body, ob.limit):
            paths += 1
            if o[0] == 'unmodelled':
                und.append(o[1])
                continue
            t, exc = o[1]
            checks += t.n
            fails = [r for r in t.res if r[0] is False]
            unk = [r for r in t.res if r[0] is None]
            dec = [(l, c) for l, c in p.log]
            if exc is not None:
                fails.append((False, 'valid input %s' % {
                    'raise': 'rejected', 'fault': 'faults',
                    'stop': 'ends the process'}[exc[0]], exc[1]))
            if not fails and not unk:
                if not p.degenerate:
                    good += 1
                continue
            if not fails:
                und.append('%s (%s)' % (unk[0][1], unk[0][2]))
                continue
            if p.degenerate:
                und.append('degenerate path: ' + fails[0][1])
                continue
            if p.blind or not p.alive or \
               (p.facts and not int_inhabited(p)):
                und.append('unconfirmed path: %s (%s) under %r' % (
                    fails[0][1], fails[0][2], dec[:4]))
                continue
            bad.append({'what': fails[0][1], 'detail': fails[0][2],
                        'others': len(fails) - 1,
                        'path': ['%s -> %d' % d for d in dec[:12]]})
    except Budget:
        und.append('time budget of %d s exceeded' % ob.budget)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if bad:
        st = 'refuted'
    elif und or not good:
        st = 'undecided'
        if not und:
            und = ['no feasible path']
    else:
        st = 'proven'
    return {'id': ob.oid, 'site': ob.site, 'status': st, 'paths': paths,
            'checks': checks, 'bad': bad[:3], 'und': und[:3],
            'kernel_calls': ctx.B.calls - calls0,
            'visited': sorted('%s:%s' % (os.path.basename(str(a)), b)
                              for a, b in ctx.I.visited) +
            sorted('igalib.f90:' + str(q if isinstance(q, str)
                                        else '.'.join(map(str, q))) for q in ctx.B.fw.visited),
            'wall': round(time.time() - t0, 3)}


def registry():
    from . import props
    return props.load()


def _worker(args):
    prop, oid, debug = args
    for ob in _obs_cache(prop):
        if ob.oid == oid:
            try:
                return run_ob(ob, debug)
            except Exception as e:
                return {'id': oid, 'site': ob.site, 'status': 'undecided',
                        'paths': 0, 'checks': 0, 'bad': [],
                        'und': ['internal: %r' % (e,)], 'kernel_calls': 0,
                        'wall': 0}


_oc = {}


def _obs_cache(prop):
    if prop not in _oc:
        _oc[prop] = registry()[prop].everything()
    return _oc[prop]


def known(prop):
    out = []
    fn = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(' :: ')[0]
                         .split() if '=' in x)
                if d.get('property') == prop:
                    d['text'] = l.split(' :: ', 1)[1] if ' :: ' in l else ''
                    out.append(d)
    return out


def main(argv=None):
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    reg = registry()
    if a.prop not in reg:
        print('unknown property', a.prop)
        return 2
    P = reg[a.prop]
    t0 = time.time()
    obs = [o for o in _obs_cache(a.prop)
           if a.tier == 'thorough' or o.tier == 'quick']
    if a.only:
        obs = [o for o in obs if a.only in o.oid]
    res = []
    jobs = [(a.prop, o.oid, a.debug) for o in obs]
    assert len({o.oid for o in obs}) == len(obs), 'duplicate obligation ids'
    try:
        context()
        broken = None
    except (Unmodelled, OSError, SyntaxError) as e:
        broken = str(e)
    if broken is not None:
        res = [{'id': 'load', 'site': '', 'status': 'undecided', 'paths': 0,
                'checks': 0, 'bad': [], 'und': [broken], 'kernel_calls': 0,
                'wall': 0}]
    elif a.j <= 1 or len(jobs) < 4:
        res = [_worker(j) for j in jobs]
    else:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(a.j) as pool:
            res = pool.map(_worker, jobs, chunksize=max(
                1, min(8, len(jobs) // (4 * a.j))))
    wall = time.time() - t0
    return report(a, P, res, wall)


def report(a, P, res, wall):
    kn = known(a.prop)
    viol = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    for r in res:
        if r['status'] != 'refuted':
            continue
        k = [d for d in kn if d.get('obligation') == r['id']]
        if k:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                a.prop, r['id'], k[0]['text'] or r['bad'][0]['what']))
            r['known'] = True
            continue
        viol.append(r)
    cnt = {s: sum(1 for r in res if r['status'] == s)
           for s in ('proven', 'refuted', 'undecided')}
    if not a.no_evidence and not a.only:
        write_evidence(a, P, res, cnt, viol, wall)
    if a.v:
        for r in res:
            print('%-10s %-50s paths %d checks %d %.2fs' % (
                r['status'], r['id'], r['paths'], r['checks'], r['wall']))
            for u in r['und'][:2]:
                print('      ? ', u[:300])
            for b in r['bad'][:2]:
                print('      ! ', b['what'], '|', b['detail'][:300],
                      b['path'][:4])
    print('%s %s: %d obligations, %d proven, %d refuted, %d undecided, '
          '%d paths, %d checks, %.1f s' % (
              a.prop, a.tier, len(res), cnt['proven'], cnt['refuted'],
              cnt['undecided'], sum(r['paths'] for r in res),
              sum(r['checks'] for r in res), wall))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for r in viol[:20]:
            fn = os.path.join(rdir, '%s-%s.json' % (
                a.prop, ''.join(ch if ch.isalnum() else '_'
                                for ch in r['id'])[:80]))
            with open(fn, 'w') as f:
                json.dump(r, f, indent=1)
            b = r['bad'][0]
            print('  %s: %s at %s: %s' % (r['id'], b['what'],
                                          r['site'] or '?', b['detail'][:300]))
        r = viol[0]
        fn = os.path.join(rdir, '%s-%s.json' % (
            a.prop, ''.join(ch if ch.isalnum() else '_'
                            for ch in r['id'])[:80]))
        print('VIOLATION property=%s replay=%s' % (a.prop, fn))
        return 1
    return 0


EXPLAIN = (
    'The Python, signature and Fortran sources are parsed on this run and '
    'interpreted over abstract values: every scalar is a value number '
    '(an equivalence class of exact real expressions over free symbols), an '
    'interval and an order relation; integers are polynomials in size '
    'symbols; arrays are maps from index regions to value numbers. Branches '
    'the domain cannot decide are followed both ways. An obligation is one '
    'operation applied to one template of abstract input; it is proven when '
    'every abstract path meets every assertion of the rule, refuted when a '
    'feasible path contradicts one, undecided otherwise (reported here, '
    'never as a violation).')
RULE = ('abstract result of the analysed source = abstract result demanded '
        'by the statement, on every abstract path')
ASSUME = (
    'arithmetic is exact (no rounding, overflow or NaN)',
    'the abstract models of numpy, f2py argument conversion and Fortran '
    'semantics in /verif/sa are faithful',
    'the build compiles the sources analysed here')


def statement(pid):
    try:
        for l in open(os.path.join(HERE, 'properties.jsonl')):
            d = json.loads(l)
            if d['id'] == pid:
                return d['statement']
    except OSError:
        pass
    return ''


def groups(res):
    out = {}
    for r in res:
        k = r['id'].split(':')[0]
        g = out.setdefault(k, {'proven': 0, 'refuted': 0, 'undecided': 0})
        g[r['status']] += 1
    return out


def write_evidence(a, P, res, cnt, viol, wall):
    ev = {
        'property': a.prop,
        'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': P.level,
        'coverage': {
            'explanation': EXPLAIN + (' ' + P.explanation
                                      if P.explanation else ''),
            'statement': statement(a.prop),
            'rule': P.rule or RULE,
            'obligations': len(res),
            'proven': cnt['proven'],
            'refuted': cnt['refuted'],
            'undecided': cnt['undecided'],
            'abstract_paths': sum(r['paths'] for r in res),
            'equalities_and_assertions_decided': sum(r['checks']
                                                     for r in res),
            'kernel_bodies_interpreted': sum(r['kernel_calls'] for r in res),
            'functions_analysed': sorted({
                v for r in res for v in r.get('visited', ())
                if not v.rsplit('.', 1)[-1].isdigit()}),
            'fortran_statements_interpreted': len({
                v for r in res for v in r.get('visited', ())
                if v.rsplit('.', 1)[-1].isdigit()}),
            'obligation_groups': groups(res),
            'undecided_obligations': [
                {'id': r['id'], 'why': (r['und'] or [''])[0][:300]}
                for r in res if r['status'] == 'undecided'][:60],
            'violated': [{'obligation': r['id'], 'site': r['site'],
                          'what': r['bad'][0]['what'],
                          'detail': r['bad'][0]['detail'],
                          'path': r['bad'][0]['path']} for r in viol[:20]],
            'known_findings': [r['id'] for r in res if r.get('known')],
        },
        'assumptions': list(ASSUME) + list(P.assumptions),
        'violations': len(viol),
        'wall_s': round(wall, 2),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
