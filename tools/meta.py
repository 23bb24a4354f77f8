#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props_meta.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
TECH = 'contract-based deductive verification (contracts discharged function by function over the LLVM IR of the real source, z3/cvc5)'
man = {'version': 1,
       'setup_cmd': 'python3-vt tools/setup.py',
       'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
        'technique': TECH, 'level': p['level'], 'level_note': p['note']})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
bad = [p['id'] for p in P if len(p['title']) > 80]
print('properties', len(P), 'claimed', len(man['checks']), 'too long:', bad)
