#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: every seam is taken at link and compile time (thread runtime, clocks, stdio, heap, dl*). '
              'Thorough runs take about 10 minutes each; VERIF_SECS overrides the exploration time.'}
for p in props:
    c = CHECKS.get(p['id'])
    if c:
        m['checks'].append({
            'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'deterministic simulation with fault injection: ' + c['what'] + '; judged by ' + c['oracle'],
            'level': 'exploration',
            'level_note': c.get('note', 'Seeded search over schedules, faults and operation sequences on the real code; a clean batch is evidence, not proof. '
                          'Trusts the simulated runtime and the reconstructed interface headers.')})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'no check yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
