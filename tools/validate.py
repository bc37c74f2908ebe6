"""Validates the committed files against the schemas (python3-vt)"""
import json, os, sys, glob
import jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/root/.vp/'
s = json.load(open(R + 'PROPERTIES.schema.json'))
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s)
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
jsonschema.validate(json.load(open(H + '/MANIFEST.json')), json.load(open(R + 'MANIFEST.schema.json')))
for f in glob.glob(H + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open(R + 'EVIDENCE.schema.json')))
print('ok')
