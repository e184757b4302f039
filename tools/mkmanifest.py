#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import plan
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 vt.py check {i} --tier quick', thorough_cmd=f'python3 vt.py check {i} --tier thorough',
                           technique=plan.TECH.get(i, 'runtime monitoring: the real code runs on generated hostile inputs, an online oracle compares every observed element with an independent scalar reference'),
                           level='exploration', level_note=plan.NOTE.get(i, 'sampled: inputs, shapes and instruction sets listed in the evidence; nothing is claimed beyond what was executed'), evidence_file=f'evidence/{i}.json'))
    else: na.append(dict(property=i, reason=plan.NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 vt.py setup', checks=checks, not_applicable=na, notes='No hooks in /repo: every monitor observes the public interface, the memory handed to it, the floating-point environment and the sanitizers. See DESIGN.md.'),
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
