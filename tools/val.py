import json,jsonschema,glob,re
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    try: jsonschema.validate(d,s)
    except Exception as e: print(d['id'],str(e)[:200])
    n=len(re.findall(r'[.!?](?:\s|$)',d['statement']))
    if n>3: print(d['id'],'sentences',n)
try: jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
except Exception as e: print('MANIFEST',str(e)[:600])
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/P*.json'):
    try: jsonschema.validate(json.load(open(f)),s)
    except Exception as e: print(f,str(e)[:200])
