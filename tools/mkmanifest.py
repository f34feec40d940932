"""writes MANIFEST.json from the list of claimed properties"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts on the real functions, VCs generated from their source on every run, z3/cvc5'
CLAIMS = {}   # id -> (level, note)
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p['id'] in CLAIMS:
        lv, note = CLAIMS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd=f'python3-vt run.py {p["id"]}', thorough_cmd=f'python3-vt run.py {p["id"]}',
                           technique=TECH, level=lv, level_note=note))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'not built yet')) for p in props if p['id'] not in CLAIMS]
m = dict(version=1, setup_cmd='python3-vt vc/selftest.py', checks=checks, not_applicable=na,
         notes='no hooks: the checks read and import /repo unchanged. Counterexamples are replayed with "python3-vt run.py ID --replay FILE".')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
