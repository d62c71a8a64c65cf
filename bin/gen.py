#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import REGISTRY
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + [n['prop'] for n in NA]:
        assert p['id'] not in ids; ids.add(p['id'])
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in REGISTRY:
        r = REGISTRY[p['id']]
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 bin/check.py %s quick' % p['id'],
            'thorough_cmd': 'python3 bin/check.py %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': r.get('technique', 'deterministic simulation with fault injection: seeded search over schedules and fault sequences'),
            'level': 'exploration',
            'level_note': r.get('note', 'Samples schedules and faults; a clean batch is evidence, not proof.') + ' Real: ' + r.get('real', '') + '. Simulated: ' + r.get('stub', '') + '.',
        })
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
for n in NA:
    na.append({'property': n['prop']['id'], 'reason': n['reason']})
m = {'version': 1,
     'setup_cmd': 'python3 bin/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: libc is replaced under the translated program (objcopy symbol redirection) or under the che binary (LD_PRELOAD)', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. bin/check.py PROPERTY [tier] runs one check; known_findings.txt lists recorded findings and repairs.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

import glob
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    x = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (d.split('/')[-2], x['property'], x['what_it_breaks'], x['needs']))
t = open(V + '/bin/design.tmpl.md').read()
t = t.replace('@@SEEDED@@', '\n'.join(rows))
t = t.replace('@@NA@@', '\n'.join('* **%s %s**: %s' % (n['prop']['id'], n['prop']['title'], n['reason']) for n in NA) or 'None so far.')
fixed = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
t = t.replace('@@FIXED@@', '\n'.join('* ' + x for x in fixed))
open(V + '/DESIGN.md', 'w').write(t)
