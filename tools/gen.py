#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/docs.py."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import docs, MODULE_OF    # noqa: E402

src = ''.join(open(os.path.join(V, 'props', f)).read()
              for f in os.listdir(os.path.join(V, 'props'))
              if f.endswith('.py'))
have = set(re.findall(r"@harness\('(C\d+)'", src))

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in docs.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': list(p['over']), 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
    for i, t, s, r, fs in docs.NOT_APPLICABLE:
        f.write(json.dumps({
            'id': i, 'title': t, 'statement': s,
            'quantifier': {'over': ['inputs'], 'text': 'every input'},
            'why_tests_cant': 'The tests sample.',
            'anchors': {'files': fs, 'mechanism': [
                {'name': 'computation', 'where': fs[0]}]},
        }) + '\n')

LEVEL = ('Every path of the harness through the real source is executed '
         'symbolically and z3 decides each branch and assertion for all '
         'values within the bounds: {}. Outside: {}. Trusted: z3, the '
         'engine\'s model of Python ints and rounded floats; each violation '
         'is replayed on the real package before it is reported.')
checks = []
na = []
for p in docs.PROPS:
    if p['id'] not in have or p['id'] not in MODULE_OF:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    cmd = f"python3-vt engine/driver.py {p['id']} --tier "
    checks.append({
        'property': p['id'], 'quick_cmd': cmd + 'quick',
        'thorough_cmd': cmd + 'thorough',
        'technique': 'symbolic execution of the real source, decided by z3',
        'level': 'model_checking',
        'level_note': LEVEL.format(p['bounds'], p['outside'] or 'nothing'),
    })
for i, t, s, r, fs in docs.NOT_APPLICABLE:
    na.append({'property': i, 'reason': r})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
               'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
