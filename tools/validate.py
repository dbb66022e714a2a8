import json, jsonschema, sys, re
S='/root/.vp/'
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
sch=json.load(open(S+'PROPERTIES.schema.json'))
for p in ps:
    jsonschema.validate(p,sch)
    n=len(re.findall(r'[.](?:\s|$)',p['statement']))
    if n>3: print('sentences',p['id'],n)
    import os
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/'+f),(p['id'],f)
ids=[p['id'] for p in ps]; assert len(set(ids))==len(ids)
try:
    m=json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m,json.load(open(S+'MANIFEST.schema.json')))
    cl=[c['property'] for c in m['checks']]+[c['property'] for c in m.get('not_applicable',[])]
    assert sorted(cl)==sorted(ids),(set(ids)^set(cl))
    import glob
    for f in glob.glob('/verif/evidence/*.json'):
        jsonschema.validate(json.load(open(f)),json.load(open(S+'EVIDENCE.schema.json')))
except FileNotFoundError as e: print(e)
print('ok',len(ps))
