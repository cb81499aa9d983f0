#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE, MC
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({
            'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
            'technique': c.get('technique', MC), 'level': c.get('level', 'model_checking'),
            'level_note': c.get('note', 'Bounded: every recorded session is decided exactly by the TLA+ specification; inputs are sampled or generated from the specification. Trusts TLC, the evaluation overrides (checked against their TLA+ definitions by setup_cmd) and gnark\'s test engine.')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'not built yet')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
