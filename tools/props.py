#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (id, title, statement, over, qtext, why, files, mechanism, claim|None, note/reason)
def prop(id, title, statement, qtext, why, files, mech, note=None, na=None, over=('inputs',), theorems=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), q=qtext, why=why, files=files, mech=mech, note=note, na=na))

BASE = ('All real inputs (exact real arithmetic; rounding not modelled), every path; obligations discharged by finite-field identity testing, interval reasoning and z3. '
        'Trusted: clang IR, the vcgen interpreter.')
exec(open(ROOT + '/tools/props_data.py').read())

TECH = 'contract-based deductive verification: contracts on the real functions, VCs generated from the LLVM IR of /repo on every run, discharged by identity testing over prime fields and z3'
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        assert len(p['title']) <= 80, p['id']
man = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']: man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else: man['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt vcgen/run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt vcgen/run.py %s --tier thorough' % p['id'], 'technique': TECH, 'level': 'proof', 'level_note': (p['note'] + ' ' if p['note'] else '') + BASE})
json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'n/a')
