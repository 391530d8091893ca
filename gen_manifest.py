#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks present in engine/checks."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
NA = {}
p = os.path.join(HERE, 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for pr in props:
    i = pr['id']
    if os.path.exists(os.path.join(HERE, 'engine', 'checks', i.lower() + '.py')) and i not in NA:
        m = importlib.import_module('checks.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'python3 /verif/check.py %s quick' % i,
            'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
            'technique': getattr(m, 'TECHNIQUE', 'static dataflow: abstract interpretation of MIR, writer/reader layout agreement'),
            'level': getattr(m, 'LEVEL', 'other'),
            'level_note': getattr(m, 'LEVEL_NOTE', m.RULE)[:900],
            'evidence_file': '/verif/evidence/%s.json' % i,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
man = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks: check.py builds a nightly rustc driver (driver/) that dumps the type-checked MIR of /repo and of the fixture crate, and analyses the dump (engine/).',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
