"""validate properties.jsonl and MANIFEST.json against the schemas"""
import json, sys
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(p):
        print(p['id'], e.message[:150])
for e in jsonschema.Draft202012Validator(json.load(open('/root/.vp/MANIFEST.schema.json'))).iter_errors(json.load(open('/verif/MANIFEST.json'))):
    print('manifest', e.message[:150])
import glob
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    for e in jsonschema.Draft202012Validator(es).iter_errors(json.load(open(f))):
        print(f, e.message[:150])
