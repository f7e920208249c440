"""writes MANIFEST.json: claimed properties are those in CLAIM; the rest is listed as not applicable"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIM, NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = [{'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': CLAIM[p['id']][0], 'level': CLAIM[p['id']][1], 'level_note': CLAIM[p['id']][2]}
          for p in props if p['id'] in CLAIM]
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in props if p['id'] not in CLAIM]
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Deductive verification of the code in /repo by pyvc (this directory); see DESIGN.md.'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
