#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        fn, level = registry.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': registry.TECH.get(i, registry.TECH['*']), 'level': level, 'level_note': registry.NOTE.get(i, registry.NOTE['*'])})
    else: na.append({'property': i, 'reason': registry.NA.get(i, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. All checks analyse MIR extracted from the working tree by driver/ (a rustc wrapper); nothing of the repository is executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
