#!/usr/bin/env python3
"""plant.py BUGFILE... : confirm planted bugs and keep them in seeded/.

A bug file is Python defining prop, needs, breaks, edits = [(file, old, new)]
and demo (source of a program that exits nonzero when the bug is in).  The
bug is applied to /repo, built, tested and undone."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'],
           MPLCONFIGDIR='/opt/mplconfig', MPLBACKEND='agg',
           PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
DEMO = '''#!/bin/bash
export PATH=/opt/venv/bin:$PATH MPLCONFIGDIR=/opt/mplconfig MPLBACKEND=agg
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec python "$(dirname "$0")/demo.py"
'''


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh('git', '-C', R, 'checkout', '--', '.')


def tests():
    with tempfile.TemporaryDirectory() as d:
        o = sh('bash', '/opt/vp/test.sh', d + '/o.json')
        res = json.load(open(d + '/o.json'))
    txt = json.dumps(res)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    if 'results' in res:
        res = res['results']
    passed = set(res.get('passed', [])) if isinstance(
        res.get('passed'), list) else {
            k for k, v in res.items() if v in ('pass', 'passed', 'PASS', True)}
    return sorted(set(stable) - passed)


def checks(only=None):
    man = json.load(open(HERE + '/MANIFEST.json'))
    hit, und = [], []
    for c in man['checks']:
        if only and c['property'] not in only:
            continue
        o = sh(*(c['quick_cmd'].split() + ['--no-evidence']), cwd=HERE)
        if o.returncode == 1 and 'VIOLATION property=' in o.stdout:
            hit.append(c['property'])
        elif o.returncode:
            und.append(c['property'])
    return hit, und


def one(fn, fast):
    bid = os.path.basename(fn)[:-3]
    g = {}
    exec(compile(open(fn).read(), fn, 'exec'), g)
    d = os.path.join(HERE, 'seeded', bid)
    if sh('git', '-C', R, 'status', '--porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    with tempfile.TemporaryDirectory() as tmp:
        with open(tmp + '/demo.py', 'w') as f:
            f.write(g['demo'])
        with open(tmp + '/demo.sh', 'w') as f:
            f.write(DEMO)
        sh('bash', '/opt/vp/build.sh')
        o = sh('bash', tmp + '/demo.sh', cwd=R, env=ENV)
        if o.returncode:
            print(bid, 'DEMO FAILS ON CLEAN TREE\n', o.stdout[-700:])
            return
        try:
            for file, old, new in g['edits']:
                p = os.path.join(R, file)
                s = open(p).read()
                if s.count(old) != 1:
                    print(bid, 'edit matches %d times in %s' % (
                        s.count(old), file))
                    return
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', R, 'diff'],
                                  stdout=subprocess.PIPE, text=True).stdout
            b = sh('bash', '/opt/vp/build.sh')
            if b.returncode:
                print(bid, 'DOES NOT BUILD', b.stdout[-600:])
                return
            o = sh('bash', tmp + '/demo.sh', cwd=R, env=ENV)
            if not o.returncode:
                print(bid, 'DEMO PASSES WITH THE BUG', o.stdout[-300:])
                return
            if not fast:
                bad = tests()
                if bad:
                    print(bid, 'TESTS FAIL', bad[:4])
                    return
            hit, und = checks(None if '--all' in sys.argv else [g['prop']])
        finally:
            restore()
            sh('bash', '/opt/vp/build.sh')
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(g['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['prop'], 'needs': g['needs'],
                   'what_it_breaks': g['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print('%-8s %s  property %s  caught by %s%s' % (
            bid, 'CAUGHT' if g['prop'] in hit else 'MISSED', g['prop'],
            hit, '  ERRORS %s' % und if und else ''))


if __name__ == '__main__':
    fast = '--fast' in sys.argv
    for fn in sys.argv[1:]:
        if fn.endswith('.py'):
            one(fn, fast)
            sys.stdout.flush()
