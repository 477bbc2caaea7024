#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when some harness entry decides it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
TECH = 'bounded symbolic execution of the LLVM IR compiled from /repo with SMT (Z3): symbolic data, clock, resume order and thread schedule'
checks = []; na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); p = d['id']; es = check.entries(p)
    if es and p not in NA:
        q = [e for e in es if e.get('tier', 'quick') == 'quick']
        mt = [e for e in es if e.get('mt') == '1']
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, evidence_file='evidence/%s.json' % p, technique=TECH, level='model_checking',
            level_note='Every path of %d harness programs (%d in the quick tier) over the real code is decided within the bounds stated per program in evidence and DESIGN.md (%s); sample paths and every violation are replayed natively.' % (len(es), len(q), 'OS-thread schedules up to a preemption bound, sequentially consistent memory' if mt else 'one OS thread, all resume orders')))
    else: na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
