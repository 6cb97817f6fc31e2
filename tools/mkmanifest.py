#!/usr/bin/env python3
# writes MANIFEST.json from contracts/props.json and the reasons below
import json,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=json.load(open(d+'/contracts/props.json'))
ids=[json.loads(l)['id'] for l in open(d+'/properties.jsonl')]
na=json.load(open(d+'/contracts/not-applicable.json'))
checks=[]
for i in ids:
    if i not in props: continue
    c=props[i]
    checks.append({"property":i,"quick_cmd":"./check.sh %s"%i,"thorough_cmd":"./check.sh %s -tier thorough"%i,
      "technique":"contract-based deductive verification: pre/postconditions, loop invariants and lemmas on the functions of /repo, verification conditions generated from their go/ssa form on every run and discharged by z3 and cvc5; a bounded random search on the real code looks for a failing input",
      "level":c.get("level","proof"),
      "level_note":c["note"]})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":[{"property":i,"reason":na.get(i,"not built yet")} for i in ids if i not in props],
 "notes":"Contracts are in contracts/*.spec, the verifier in govc/. No hooks are needed in /repo."}
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1); open(d+'/MANIFEST.json','a').write('\n')
