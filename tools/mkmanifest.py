#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a plan is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import plan
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.DAEMON or i in plan.EXTRA:
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique=plan.TECH.get(i, 'TLA+ specification (Spiped.tla) checked with TLC; traces of the real program, run under a '
                                       'simulated operating system, validated against it'),
            level='model_checking',
            level_note=plan.NOTE.get(i, 'Every recorded execution of the unmodified program is accepted by the specification with this '
                       'property\'s requirements enforced; bounded to the scenarios explored (directed families plus seeded random '
                       'environments). Trusts the simulated operating system, the reference peer and OpenSSL.')))
    else:
        na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the harness replaces the system interface at link time.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
