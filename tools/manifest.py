#!/usr/bin/env python3
"""writes MANIFEST.json from driver/props.py and the level table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'driver'))
from props import PROPS, LEVELS, NOTES
checks = []
for p in sorted(PROPS):
    lv, note = LEVELS[p], NOTES[p]
    checks.append(dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='./check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p,
                       technique='contract-based deductive verification (Verus contracts on the mechanically extracted library source)'
                       + ('' if lv == 'proof' else '; the functions not yet under contract are checked bounded on the compiled library'),
                       level=lv, level_note=note))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[],
         notes='Every check builds the extractor and the native harness itself from the committed files (about 10 s) and redoes the proof from /repo\'s current source.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
