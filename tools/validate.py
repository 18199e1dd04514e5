import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]; n=[x['property'] for x in m['not_applicable']]
assert sorted(c+n)==sorted(ids),(set(ids)-set(c+n),set(c+n)-set(ids))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('valid',len(c),'claimed',len(n),'n/a')
