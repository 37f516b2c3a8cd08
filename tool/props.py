#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing (python3 tool/props.py)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
CG = 'include/cppad/cg/'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, state=None, claim=True, na=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [CG + f if not f.startswith('/') else f[1:] for f in files],
                     'mechanism': [{'name': n, 'where': CG + w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': CG + w} for n, m, w in state]
    for w in d['anchors']['files'] + [m['where'] for m in d['anchors']['mechanism']]:
        if not os.path.exists('/repo/' + w):
            print('MISSING anchor file', id, w)
    PROPS.append(d)
    if na:
        NA.append({'property': id, 'reason': na})


exec(open(os.path.join(V, 'tool', 'props_data.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    na = {n['property'] for n in NA}
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        m = importlib.import_module('cgv.checks.' + p['id'].lower())
        c = {'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
             'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
             'technique': 'static analysis: ' + m.SPEC['technique'], 'level': m.SPEC.get('level', 'other'),
             'level_note': m.SPEC.get('note') or ('decided from the resolved program of the current tree; assumptions: ' +
                                                  '; '.join(m.SPEC.get('assumptions', ['none'])))}
        checks.append(c)
    man = {'version': 1, 'setup_cmd': 'python3 -m cgv.setup', 'checks': checks, 'not_applicable': NA,
           'notes': 'Every check extracts the resolved program (clang AST with instantiated templates) of the current /repo tree and '
                    'decides its property from it; nothing of /repo is executed. Exit 2 means the analysis itself lost an anchor.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('%d properties, %d checks, %d not applicable' % (len(PROPS), len(checks), len(NA)))


main()
