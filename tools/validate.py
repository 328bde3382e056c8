#!/usr/bin/env python3
"""Compares the analyser's model of Python and numpy with the real thing.

    python3 -B tools/validate.py [-p PYTHON_WITH_NUMPY] [SUBSTR]

Every snippet of tools/snippets.txt (separated by blank lines, one function
body each) is run by the given Python and interpreted by the analyser; the
two results are compared in value, type, shape, dtype and exception. This is
not a registered check and touches nothing of igakit.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SNIP = os.path.join(HERE, 'tools', 'snippets.txt')

REAL = r'''
import sys, json, numpy as np
sys.path.insert(0, sys.argv[1])
import warnings; warnings.simplefilter('ignore')
np.seterr(all='ignore')
def enc(x, d=0):
    if isinstance(x, np.ndarray):
        return ['arr', x.dtype.kind, list(x.shape),
                [enc1(v) for v in x.ravel().tolist()]]
    if isinstance(x, np.generic):
        return ['npscalar', x.dtype.kind, enc1(x.item())]
    if isinstance(x, np.dtype):
        return ['dtype', x.kind]
    if isinstance(x, tuple): return ['tuple'] + [enc(v) for v in x]
    if isinstance(x, list): return ['list'] + [enc(v) for v in x]
    if isinstance(x, dict):
        return ['dict'] + [[enc(k), enc(v)] for k, v in x.items()]
    return enc1(x)
def enc1(x):
    if x is None or isinstance(x, (bool, int, str)): return x
    if isinstance(x, float): return ['f', repr(x)]
    if isinstance(x, complex): return ['c', repr(x)]
    if isinstance(x, bytes): return ['b', x.hex()]
    return ['other', type(x).__name__]
import importlib.util as U
_sp = U.spec_from_file_location('snip', sys.argv[1] + '/igakit/snip.py')
S = U.module_from_spec(_sp)
_sp.loader.exec_module(S)
out = {}
for n in sorted(k for k in vars(S) if k.startswith('snip_')):
    try:
        out[n] = enc(getattr(S, n)())
    except Exception as e:
        out[n] = ['raise', type(e).__name__]
print('@@' + json.dumps(out))
'''


def snippets():
    cur, out = [], []
    for line in open(SNIP):
        if line.startswith('#'):
            continue
        if line.strip():
            cur.append(line.rstrip('\n'))
        elif cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def norm_real(e):
    """npscalar/float/int/bool distinctions that the model does not make"""
    return e


def num_eq(real, x):
    from sa import core
    from sa.values import zz
    if isinstance(real, list) and real and real[0] == 'f':
        r = float(real[1])
        if r != r or abs(r) == float('inf'):
            return None
        try:
            s = core.sc(x)
        except Exception:
            return False
        for q in (Fraction(r), Fraction(r).limit_denominator(10 ** 7)):
            if core.sc_const(q).fp == s.fp:
                return True
        if s.const is not None:
            return abs(float(s.const) - r) <= 1e-12 * (1 + abs(r))
        iv = core.iv_of(s) if hasattr(core, 'iv_of') else s.iv
        if iv is not None and iv[0] is not None and iv[1] is not None:
            lo, hi = float(iv[0]), float(iv[1])
            if lo - 1e-9 <= r <= hi + 1e-9:
                return True if hi - lo < 1e-6 else None
            return False
        return None
    if isinstance(real, bool):
        from sa.values import truth
        return bool(truth(x)) == real
    if isinstance(real, int):
        try:
            return core.sc(x).fp == core.sc_const(real).fp
        except Exception:
            return False
    return None


def kind_of(code):
    from sa.values import kind
    return kind(code)


def cmp(real, x, why):
    from sa import core, pyinterp as PI
    from sa.arrays import Arr
    from sa.backend import elements
    from sa.values import DType
    if isinstance(real, list) and real:
        k = real[0]
        if k == 'arr':
            if not isinstance(x, Arr):
                why.append('not an array: %r' % (x,))
                return False
            if list(x.shape) != real[2]:
                why.append('shape %r, real %r' % (x.shape, real[2]))
                return False
            if kind_of(x.dtype) != real[1]:
                why.append('dtype %s, real %s' % (x.dtype, real[1]))
                return False
            ok = True
            for a, b in zip(real[3], elements(x)):
                r = num_eq(a, b)
                if r is False:
                    why.append('element %r, real %r' % (b, a))
                    return False
                if r is None:
                    ok = None
            return ok
        if k in ('tuple', 'list'):
            if not isinstance(x, tuple if k == 'tuple' else list):
                why.append('type %s, real %s' % (type(x).__name__, k))
                return False
            if len(x) != len(real) - 1:
                why.append('length %d, real %d' % (len(x), len(real) - 1))
                return False
            rs = [cmp(a, b, why) for a, b in zip(real[1:], x)]
            return False if False in rs else None if None in rs else True
        if k == 'dict':
            return None
        if k == 'npscalar':
            if isinstance(x, Arr) and x.ndim:
                why.append('array, real scalar')
                return False
            if isinstance(x, Arr):
                x = elements(x)[0]
            r = num_eq(real[2], x)
            if r is False:
                why.append('%r, real %r' % (x, real[2]))
            return r
        if k == 'f':
            if isinstance(x, Arr):
                why.append('array %r, real scalar' % (x,))
                return False
            r = num_eq(real, x)
            if r is False:
                why.append('%r, real %r' % (x, real[1]))
            return r
        return None
    if real is None:
        if x is not None:
            why.append('%r, real None' % (x,))
        return x is None
    if isinstance(real, str):
        s = x if isinstance(x, str) else None
        if s is None:
            return None
        if s != real:
            why.append('%r, real %r' % (s, real))
        return s == real
    if isinstance(x, Arr):
        why.append('array, real %r' % (real,))
        return False
    r = num_eq(real, x)
    if r is False:
        why.append('%r, real %r' % (x, real))
    return r


def main():
    py = '/opt/venv/bin/python'
    argv = sys.argv[1:]
    if argv[:1] == ['-p']:
        py, argv = argv[1], argv[2:]
    sub = argv[0] if argv else ''
    repo = os.environ.get('IGAKIT_SRC', '/repo')
    d = tempfile.mkdtemp()
    try:
        return run(py, sub, repo, d)
    finally:
        shutil.rmtree(d)


def run(py, sub, repo, d):
    pk = os.path.join(d, 'igakit')
    os.mkdir(pk)
    open(os.path.join(pk, '__init__.py'), 'w').close()
    for f in ('igalib.pyf', 'igalib.f90'):
        shutil.copy(os.path.join(repo, 'igakit', f), pk)
    sn = [s for s in snippets() if sub in '\n'.join(s)]
    src = ['import numpy as np', 'import itertools', 'import math',
           'import operator', 'from functools import reduce', 'import functools', '']
    for i, s in enumerate(sn):
        src.append('def snip_%04d():' % i)
        body = list(s)
        if not any(l.startswith('return') for l in body):
            t = ast.parse('\n'.join(body)).body[-1]
            if isinstance(t, ast.Expr):
                body[t.lineno - 1] = 'return ' + body[t.lineno - 1]
        src += ['    ' + l for l in body] + ['']
    open(os.path.join(pk, 'snip.py'), 'w').write('\n'.join(src))
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    r = subprocess.run([py, '-c', REAL, d], capture_output=True, text=True,
                       env=env)
    if '@@' not in r.stdout:
        print(r.stderr[-2000:])
        return 2
    real = json.loads(r.stdout.split('@@')[1])
    from sa import run as R, core
    from sa.arrays import AbsRaise
    ctx = R.Ctx(d)
    ctx.template(True)
    cnt = {'same': 0, 'WRONG': 0, 'unmodelled': 0, 'imprecise': 0}
    mod = None
    for i, s in enumerate(sn):
        n = 'snip_%04d' % i
        why = []

        def body(p):
            try:
                if n not in (ctx.w.modules.get('igakit.snip') or
                             PIModule).d:
                    ctx.mod('snip')
                return ('ok', ctx.call(ctx.name('snip', n)))
            except AbsRaise as e:
                return ('raise', e)
        try:
            outs = list(core.explore(body, 8))
        except core.PathLimit:
            outs = [(None, ('unmodelled', 'paths'))]
        except Exception as e:
            outs = [(None, ('crash', '%s: %s' % (type(e).__name__, e)))]
        st = None
        for p, o in outs:
            if o[0] in ('unmodelled', 'crash'):
                why.append('%s: %s' % o)
                st = 'unmodelled'
                break
            kind, v = o[1]
            if kind == 'raise':
                if real[n][:1] == ['raise'] if isinstance(real[n], list) \
                   else False:
                    r = True
                    if v.exc != real[n][1]:
                        why.append('raises %s, real %s' % (v.exc, real[n][1]))
                else:
                    why.append('raises %s %s, real %s' % (
                        v.exc, v.msg, str(real[n])[:80]))
                    r = False
            elif isinstance(real[n], list) and real[n][:1] == ['raise']:
                why.append('%r, real raises %s' % (v, real[n][1]))
                r = False
            else:
                try:
                    r = cmp(real[n], v, why)
                except core.Unmodelled as e:
                    why.append('unmodelled %s' % e)
                    r = 'unmodelled'
            s1 = {True: 'same', False: 'WRONG', None: 'imprecise'}.get(r, r)
            if len(outs) > 1 and s1 == 'WRONG':
                s1 = 'imprecise'
            st = s1 if st in (None, 'same') else st
        cnt[st] += 1
        if st != 'same':
            print('%-10s %s\n           -> %s' % (
                st, ' ; '.join(s)[:150], '; '.join(map(str, why))[:200]))
    print(cnt)
    return 1 if cnt['WRONG'] else 0


class PIModule(object):
    d = {}


if __name__ == '__main__':
    sys.exit(main())
