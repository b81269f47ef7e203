#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib as L
from props import PROPS, LEVEL_NOTES

ids = [json.loads(l)['id'] for l in open(os.path.join(L.VERIF, 'properties.jsonl')) if l.strip()]
assert len(set(ids)) == len(ids)
assert set(ids) == set(PROPS), set(ids) ^ set(PROPS)
checks = []
for i in ids:
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                       technique=p['technique'], level='exploration',
                       level_note='Random search against an explicit oracle: no counterexample among the generated cases, no proof of absence. ' + LEVEL_NOTES.get(i, '')))
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=[],
         notes='Every check compiles its harness from /repo/include (or /repo/py) as it stands; no hooks are used. Saved failures are replayed with bin/replay.py PROPERTY FILE.')
json.dump(m, open(os.path.join(L.VERIF, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(L.VERIF, 'MANIFEST.json'), 'a').write('\n')
