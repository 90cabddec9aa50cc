#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(os.path.join(here, 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'checks': [], 'not_applicable': [],
     'notes': 'gocv is the contract verifier; contracts/*.gcv are the specifications on /repo\'s functions; '
              'harness/ is the bounded companion and failing-input search. See DESIGN.md.'}
for p in props:
    c = cfg.get(p['id'])
    if not c or c.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': (c or {}).get('na', 'not built yet')})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                        'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
