#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (kept in step with engine/config.go).
import json,os
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(D+'/properties.jsonl')]
TECH='symbolic execution of the go/ssa form of the real code, SMT-decided (z3, bit-vectors), counterexamples replayed natively'
notes=json.load(open(D+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']; n=notes.get(i)
    if n is None: na.append({'property':i,'reason':'check not built yet'}); continue
    if 'na' in n: na.append({'property':i,'reason':n['na']}); continue
    checks.append({'property':i,'quick_cmd':'bash run.sh '+i,'thorough_cmd':'VERIF_TIER=thorough bash run.sh '+i,
      'evidence_file':'evidence/%s.json'%i,'technique':n.get('technique',TECH),'level':n.get('level','model_checking'),'level_note':n['note']})
m={'version':1,'setup_cmd':'bash run.sh --build','checks':checks,'not_applicable':na,
 'notes':'One engine (engine/, Go): go/ssa symbolic executor over /repo plus harnesses (harness/), z3 for every verdict, native replay for every counterexample.'}
json.dump(m,open(D+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
