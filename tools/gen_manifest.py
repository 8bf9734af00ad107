"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json'))) if os.path.exists(os.path.join(V, 'tools', 'technique.json')) else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vf', 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t.get('technique', 'property-based testing (Hypothesis) against an independent reference model'),
                       'level': 'exploration',
                       'level_note': t.get('note', 'Generated-input search with shrinking; no failure found on the explored cases. Trusts the reference oracle in vf/checks/%s.py and the stated input domain.' % i.lower())})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python vf/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Each check builds the C++/Cython extension from /repo (cached by content hash under .build) and imports the Python code from /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
