#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (harness/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in props.PROPS:
        d = props.PROPS[p]
        checks.append({
            'property': p,
            'quick_cmd': 'python3 harness/check.py %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 harness/check.py %s --thorough' % p,
            'technique': d.get('technique', 'TLA+ specification checked with TLC; traces recorded from the implementation are validated against it'),
            'level': 'model_checking',
            'level_note': d.get('note', 'Every recorded call must equal the step the specification gives (value, errors, locations, callback log, heap). '
                                'Bounded to the generated schemas, inputs and histories; trusts the value codec and TLC.'),
        })
na = [{'property': p, 'reason': props.NOT_APPLICABLE.get(p, 'not claimed yet: its part of the specification is not written')}
      for p in ids if p not in props.PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 harness/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'see DESIGN.md; no hooks are needed in /repo, checks rebuild the extension from the working tree'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
