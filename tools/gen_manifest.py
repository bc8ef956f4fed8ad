#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vp'))
from checks import CHECKS
TECH = {
 'mc': 'stateless model checking of the real code under a controlled scheduler (all interleavings up to the bound)',
 'seq': 'explicit enumeration of all bounded operation sequences / inputs on the real code against a reference model',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=[], not_applicable=[])
if os.path.exists(os.path.join(V, 'tools', 'hooks.json')):
    m['hooks'] = json.load(open(os.path.join(V, 'tools', 'hooks.json')))
for p in props:
    i = p['id']
    if i not in CHECKS:
        m['not_applicable'].append(dict(property=i, reason='no check is built for it (yet); model checking would apply'))
        continue
    c = CHECKS[i]
    m['checks'].append(dict(property=i, quick_cmd='python3 vp/check.py %s quick' % i, thorough_cmd='python3 vp/check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=c.get('technique') or TECH['mc' if c.get('flavor') == 'mc' else 'seq'],
        level='model_checking',
        level_note=c.get('note') or 'Exhaustive inside the bounds named in the evidence file (every scenario lists its bound, and says if it was capped); runs the implementation built from the working tree. ' + (
          'Assumes sequentially consistent memory plus a happens-before race check, and scheduling points at synchronisation operations and racy accesses only.' if c.get('flavor') == 'mc' else
          'Says nothing about values outside the enumerated alphabet; trusts the reference model in the harness and the compiler.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
