import json,jsonschema,re,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    ids.add(p['id'])
    try: jsonschema.validate(p,s)
    except Exception as e: print(p['id'],str(e)[:200])
    n=len(re.findall(r'\.(?:\s|$)',p['statement']))
    if n>3: print(p['id'],'sentences',n)
try:
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
    print('unlisted',ids-c-n,'both',c&n,'unknown',(c|n)-ids)
except FileNotFoundError: print('no manifest')
