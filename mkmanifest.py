#!/usr/bin/env python3
"""Write MANIFEST.json from the property modules."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ALL = ['C%02d' % i for i in range(1, 21)]
checks, na = [], []
for pid in ALL:
    if os.path.exists(os.path.join(HERE, 'dst/props/%s.py' % pid.lower())):
        m = importlib.import_module('dst.props.%s' % pid.lower())
        checks.append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': 'deterministic simulation with fault injection (seeded schedule and fault search)',
                       'level': 'exploration', 'level_note': m.LEVEL_NOTE})
    else:
        na.append({'property': pid, 'reason': 'no check built yet'})
body = {'version': 1, 'setup_cmd': './check selftest 2', 'checks': checks, 'not_applicable': na,
        'notes': 'No hooks in /repo: the checks instrument the agent at import time (dst/loader.py), so there is no '
                 'guard. "./check replay FILE" replays a reported violation.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(body, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
