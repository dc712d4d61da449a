#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
CL = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt /verif/check.py --setup',
         hooks=dict(guard='none', enable='no hooks: the checks instantiate /repo\'s templates in translation units of their own', source_commits=[]),
         checks=[], not_applicable=[], notes='see DESIGN.md; known-findings.txt lists the defects found')
for p in props:
    if p in CL:
        m['checks'].append(dict(property=p, quick_cmd='VERIF_TIER=quick python3-vt /verif/check.py ' + p,
                                thorough_cmd='VERIF_TIER=thorough python3-vt /verif/check.py ' + p,
                                technique='contract-based deductive verification (symbolic execution of the clang IR against function contracts and loop invariants, z3/cvc5)',
                                level='proof', level_note=CL[p]))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA[p]))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
