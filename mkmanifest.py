#!/usr/bin/env python3
"""writes MANIFEST.json: the claimed checks and, for every other property, why it is not claimed"""
import json, os
CL = {}
def c(id, technique, level, note): CL[id] = dict(property=id, quick_cmd='VERIF_TIER=quick python3-vt check.py ' + id, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + id, technique=technique, level=level, level_note=note)
T = 'contract-based deductive verification of the LLVM IR of the real sources: '
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')).read())
props = [json.loads(l) for l in open('properties.jsonl')]
NA = globals().get('NA', {})
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=[CL[p['id']] for p in props if p['id'] in CL],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check has been built yet')) for p in props if p['id'] not in CL],
         notes='See DESIGN.md. Checks extract what they verify from /repo on every run (generator build, code generation, LLVM IR) into /verif/.cache.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
