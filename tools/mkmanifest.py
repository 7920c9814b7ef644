#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: seeded search over schedules and faults, '
CLAIMED = json.load(open(os.path.join(V, 'tools', 'claims.json')))
NA = {
 'C20': 'pure function of its input: key parsing, digging and wrapping meet no schedule, clock, I/O or fault (what dotted keys select is exercised by C02)',
 'C21': 'pure function of its input: the merge algebra has no schedule, clock, I/O or fault (merged outcomes are compared with the reference model in C01, C02, C10)',
 'C22': 'pure function of its input: validation of a parsed configuration (a configuration that cannot be read is decided by C02 and C03)',
 'C24': 'pure function of its input: rendering a value (delivery of the bytes is decided by C13)',
}
checks = []
for p, c in sorted(CLAIMED.items()):
    checks.append({'property': p, 'quick_cmd': f'./run.sh {p} quick', 'thorough_cmd': f'./run.sh {p} thorough',
                   'technique': T + c['oracle'], 'level': 'exploration', 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())]}
unclaimed = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in unclaimed:
    if p not in CLAIMED and p not in NA:
        m['not_applicable'].append({'property': p, 'reason': 'not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
