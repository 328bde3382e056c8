#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

N, C, F, Y = ('igakit/nurbs.py', 'igakit/cad.py', 'igakit/igalib.f90',
              'igakit/igalib.pyf')
T, IO, IGA, PL = ('igakit/transform.py', 'igakit/io.py', 'igakit/iga.py',
                  'igakit/plot.py')

TECH = ('abstract interpretation of the Python and Fortran sources '
        '(value-numbering x interval x order domains), %s')
NOTE = ('Static: the sources under /repo/igakit are parsed and interpreted '
        'in an abstract domain on every run; nothing of igakit is executed '
        'and no solver is involved. %s Values are exact reals, not floating '
        'point; the models of numpy, of f2py argument handling and of '
        'Fortran semantics are trusted. Obligations the domain cannot '
        'settle are counted as undecided in the evidence and are never '
        'reported as violations.')
FAM = ('Knot values, weights, control points, fields and parameters are '
       'arbitrary; degrees, knot multiplicities and array extents are '
       'enumerated over families of templates.')

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique,
         note=FAM, state=None, observe=None):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': w}
                                 for a, b, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, TECH % technique, NOTE % note))


NOT_APPLICABLE = [
    {'property': 'N01', 'reason': 'a bound on the accumulated floating-'
     'point error needs the run-time magnitudes of knots, weights and '
     'control points; no sound static bound in reach is tight enough to '
     'decide it (the checks work over exact reals)'},
    {'property': 'N02', 'reason': 'whether a residual falls under the '
     'tolerance for perturbed data is a statement about run-time '
     'magnitudes; the exact case (a knot inserted is removed, a required '
     'one stays) is C08'},
    {'property': 'N03', 'reason': 'what the figure looks like is decided '
     'inside matplotlib and mayavi at run time, outside the sources of '
     'igakit; what igakit hands to them is C30'},
]

with open(os.path.join(HERE, 'tools', 'table.py')) as _f:
    exec(_f.read())


def main():
    from sa import props
    reg = props.load()
    na = {d['property'] for d in NOT_APPLICABLE}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, tech, note in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks = []
    for d, tech, note in P:
        pid = d['id']
        if pid in na:
            continue
        assert pid in reg, pid
        checks.append({'property': pid,
                       'quick_cmd': './check %s --tier quick' % pid,
                       'thorough_cmd': './check %s --tier thorough' % pid,
                       'technique': tech, 'level': 'other',
                       'level_note': note})
    for pid in reg:
        if pid not in {d['id'] for d, _, _ in P}:
            print('no entry for', pid)
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': NOT_APPLICABLE,
           'notes': 'See DESIGN.md. known-findings.txt lists genuine '
           'defects: repaired ones (fixed:) and recorded ones (finding:).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
