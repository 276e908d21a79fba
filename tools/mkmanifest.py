#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import sys
sys.path.insert(0, '/verif')
import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
out = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.SPECS:
        s = checks.SPECS[i]
        out['checks'].append({
            'property': i, 'quick_cmd': f'python3 run.py {i} quick', 'thorough_cmd': f'python3 run.py {i} thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': s.get('technique', 'symbolic execution of the LLVM bitcode of dhara/map.c and dhara/journal.c over a NAND model, z3 (bit-vectors) deciding every branch and assertion; counterexamples replayed on the native build'),
            'level': s['level'], 'level_note': ('Bounded: ' + s['bounds'] + '. Outside: ' + s['outside'])[:1500]})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check registered yet')})
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
