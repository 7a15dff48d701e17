"""Writes /verif/MANIFEST.json: one entry per checks/cNN.py."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

NOTES = json.load(open(os.path.join(here, 'tools', 'techniques.json')))

checks = []
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
missing = []
for p in props:
    if not os.path.exists(os.path.join(here, 'checks', p.lower() + '.py')):
        missing.append(p)
        continue
    t = NOTES[p]
    checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                   'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
m = {'version': 1, 'setup_cmd': './check.sh --setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'no check has been built for it yet'} for p in missing],
     'notes': 'All checks are generated-input searches on lib/pbt.py; see DESIGN.md. Replays: ./check.sh Cnn replay FILE.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks; missing', missing)
