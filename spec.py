#!/usr/bin/env python3
"""Single source of the property texts and of MANIFEST.json: python3 spec.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # properties
C = {}      # check: id -> (technique, level_note)
NA = {}     # not applicable: id -> reason
TECH = 'symbolic execution of the LLVM IR of the real functions, z3 verdict per obligation'
PYTECH = 'symbolic execution of the real Python functions on z3 values, z3 verdict per obligation'


def prop(pid, title, statement, over, qtext, why, files, mech, note=None, tech=TECH, na=None, observe=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = list(observe)
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NA[pid] = na
    else:
        C[pid] = (tech, note)


exec(open(os.path.join(HERE, 'spec_props.py')).read())


def main():
    assert len(set(p['id'] for p in P)) == len(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [
        {'property': k, 'reason': v} for k, v in NA.items()],
        'notes': 'One driver: python3-vt check.py <property>. It compiles /repo to LLVM IR (or imports the Python '
                 'package), explores the harness entries symbolically, validates the executor against a native build, '
                 'replays counterexamples natively and writes evidence/<property>.json. See DESIGN.md.'}
    for p in P:
        if p['id'] in C:
            t, n = C[p['id']]
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'],
                                'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'],
                                'technique': t, 'level': 'model_checking', 'level_note': n})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
