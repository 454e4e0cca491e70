#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from props import PROPS
from about import TECHNIQUE, NOTE, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        q = PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': TECHNIQUE[i],
            'level': 'exploration',
            'level_note': (NOTE + NOTES.get(i, '')).strip(),
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check builds /repo\'s working tree out of tree under /verif/build (ignored by git), generates cases from '
              'VERIF_SEED, and writes evidence/<id>.json. KNOWN_FINDINGS lists the defects found: repaired ones and five that stay, in the example operations.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
