#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when contracts/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level='proof', note='', state=None):
    R.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level=level, note=note, state=state or []))


exec(open(os.path.join(V, 'tools/props.py')).read())

NA = []
exec(open(os.path.join(V, 'tools/na.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in R:
        assert len(r['title']) <= 80, (r['id'], len(r['title']))
        n = r['statement'].count('. ') + 1
        assert n <= 3, (r['id'], n)
        f.write(json.dumps({
            'id': r['id'], 'title': r['title'], 'statement': r['statement'],
            'quantifier': {'over': r['over'], 'text': r['qtext']}, 'why_tests_cant': r['why'],
            'anchors': {'files': r['files'], 'mechanism': [{'name': a, 'where': b} for a, b in r['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in r['state']],
                        'observe_at': r['observe'], 'hook_needed': 'none'}}) + '\n')
checks, na = [], list(NA)
for r in R:
    if os.path.exists(os.path.join(V, 'contracts', r['id'] + '.py')):
        c = {'property': r['id'], 'quick_cmd': 'python3 checks/run.py ' + r['id'],
             'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + r['id'],
             'technique': 'contract-based deductive verification of the C code (CBMC contracts, loop invariants)',
             'level': r['level'], 'level_note': r['note']}
        checks.append(c)
    elif not any(x['property'] == r['id'] for x in na):
        na.append({'property': r['id'], 'reason': 'check under construction, not claimed yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: loop contracts are woven mechanically into a copy of the current source on every run (checks/weave.py).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(R), 'properties', len(checks), 'claimed')
