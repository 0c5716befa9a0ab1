#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present; entries for missing checks go to not_applicable."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', 'p_%s.py' % i.lower())):
        n = notes.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
                       'technique': n.get('technique', 'property-based testing against a reference model'),
                       'level': n.get('level', 'exploration'),
                       'level_note': n.get('note', 'Generated-input search; no violation in the explored cases, not a proof. Trusts the Python reference, GMP and the compilers.')})
    else:
        na.append({'property': i, 'reason': n_a.get(i) if (n_a := notes.get('_na', {})) and i in n_a else 'check under construction'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks: bin/check <id> [--tier quick|thorough] [--seed N] [--replay FILE]. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
