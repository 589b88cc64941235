#!/usr/bin/env python3
"""writes MANIFEST.json from the table below; properties without a claim go to not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
exec(open(V + '/tools/claims.py').read())
man = {'version': 1, 'setup_cmd': 'python3-vt analyzer/build_ir.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                              'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'other', 'level_note': note})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not decided by the present machinery')})
man['notes'] = 'Static analysis of /repo: LLVM SSA of the C sources, interprocedural abstract interpretation into closed-form value summaries, comparison with reference summaries. See DESIGN.md.'
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
