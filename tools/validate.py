import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
    for f in p['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(p['id'],'missing',f)
    n=p['statement'].count('. ')+1
    if n>3: print(p['id'],'sentences',n)
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    got=[c['property'] for c in m['checks']]+[c['property'] for c in m['not_applicable']]
    print('unlisted',set(ids)-set(got),'unknown',set(got)-set(ids))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')):
    if f.endswith('.json'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),es)
print('ok',len(ids))
