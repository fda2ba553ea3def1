"""Validate properties.jsonl, MANIFEST.json and evidence files (run with python3-vt)."""
import json, jsonschema, os, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, s)
    ids.append(d['id'])
    for f in d['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
assert len(ids) == len(set(ids))
if os.path.exists('/verif/MANIFEST.json'):
    m = json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for c in m['checks']:
        assert c['property'] in ids
    got = [c['property'] for c in m['checks']] + [c['property'] for c in m.get('not_applicable', [])]
    print('unclaimed', sorted(set(ids) - set(got)))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
print('valid', len(ids), 'properties')
