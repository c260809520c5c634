#!/opt/veriftools/pyvenv/bin/python
"""Validates properties.jsonl and MANIFEST.json against the given schemas and the anchors against /repo."""
import json, os, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s.get('items', s))
    ids.append(p['id'])
    assert len(p['title']) <= 80, p['id']
    for f in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
        assert os.path.exists('/repo/' + f), (p['id'], f)
assert len(ids) == len(set(ids))
print(len(ids), 'properties ok')
if os.path.exists('/verif/MANIFEST.json'):
    m = json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    got = [c['property'] for c in m['checks']] + [c['property'] for c in m['not_applicable']]
    print('claimed', len(m['checks']), 'na', len(m['not_applicable']), 'unlisted', sorted(set(ids) - set(got)), 'unknown', sorted(set(got) - set(ids)))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(x for x in os.listdir('/verif/evidence') if x.endswith('.json')) if os.path.isdir('/verif/evidence') else []:
    jsonschema.validate(json.load(open('/verif/evidence/' + f)), es)
