#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the proofs there are."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib, sys
sys.path.insert(0, V)
old = json.load(open(os.path.join(V, 'MANIFEST.json')))
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    c = dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, evidence_file='evidence/%s.json' % p)
    f = os.path.join(V, 'qdv', 'proofs', p.lower() + '.py')
    note, level = None, 'proof'
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('LEVEL_NOTE = '):
                note = eval(line.split('=', 1)[1])
            if line.startswith('LEVEL = '):
                level = eval(line.split('=', 1)[1])
        c.update(technique='contract-based deductive verification: contracts on the real functions, obligations generated from the LLVM IR of /repo (clang 18) by /verif/qdv and discharged by z3; the same contracts run as executable oracles for the rest (bounded)',
                 level=level, level_note=note or 'see DESIGN.md')
    else:
        c.update(technique='executable contracts on the real code (bounded stand-in)', level='exploration', level_note='bounded: sampled inputs against an independent oracle under sanitizers')
    checks.append(c)
old['checks'] = checks
json.dump(old, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
