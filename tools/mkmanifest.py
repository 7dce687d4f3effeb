#!/usr/bin/env python3
"""Write MANIFEST.json for the properties that have a check."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, missing = [], []
for p in props:
    mod = os.path.join(here, 'harness', 'props', p['id'].lower() + '.py')
    if not os.path.exists(mod):
        missing.append({'property': p['id'],
                        'reason': 'the check is not built yet'})
        continue
    n = NOTES.get(p['id'], {})
    cmd = '/opt/venv/bin/python harness/run_check.py %s --tier %s'
    checks.append({
        'property': p['id'],
        'quick_cmd': cmd % (p['id'], 'quick'),
        'thorough_cmd': cmd % (p['id'], 'thorough'),
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': n.get('technique', 'property-based testing (Hypothesis) '
                           'against a reference model'),
        'level': 'exploration',
        'level_note': n.get('note', 'Random search over generated inputs with '
                            'an explicit oracle; it does not establish '
                            'absence of violations.'),
    })
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python harness/selftest.py',
           'checks': checks, 'not_applicable': missing,
           'notes': 'See DESIGN.md. Each check imports the code from /repo '
                    '(override with VERIF_REPO) and needs no build.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'missing')
