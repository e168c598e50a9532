"""Validate properties.jsonl / MANIFEST.json / evidence against the schemas (run with python3-vt)."""
import json,jsonschema,glob,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); n+=1
    st=d['statement']
print('properties ok',n)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json'))); print('manifest ok')
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),es)
print('evidence ok',len(glob.glob('/verif/evidence/*.json')))
