"""python3-vt tools/validate.py: properties.jsonl and MANIFEST.json against their schemas"""
import json, os
import jsonschema
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(os.path.join(top, 'properties.jsonl')):
    jsonschema.validate(json.loads(line), s)
jsonschema.validate(json.load(open(os.path.join(top, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')
