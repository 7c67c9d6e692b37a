import json, re, jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, ps)
    if len(re.findall(r'\.(?:\s|$)', d['statement'])) > 3:
        print("too many sentences", d['id'])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), ms)
print("ok")
