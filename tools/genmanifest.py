#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={
 'C':"explicit-state / stateless model checking of the real client: every operation history to a depth, unpruned and state-pruned, against a lock-step reference automaton",
 'S':"explicit-state / stateless model checking of the real server: every operation history to a depth, unpruned and state-pruned, against a lock-step reference automaton",
 'F':"bounded exhaustive exploration of the real receivers: every cut of a stream corpus and every short token string against a reference framing automaton",
 'X':"explicit-state model checking of the composed real client and server: every schedule and delivery split",
 'L':"bounded exhaustive exploration: every short input and operation history in every mode, with panic, hang and quiescence detection",
 'H':"stateless model checking: controlled scheduler over the real counters, every interleaving of the atomic operations, plus long exhaustive runs",
 'T':"stateless model checking of the real socket driver under a controlled runtime: every readiness pattern, partial write, delivery split and cancellation point to a depth",
 'P':"stateless model checking of the real proxy under a controlled runtime and scripted peers: every schedule to a deviation bound",
}
TECH['P07']=TECH['P10']="bounded exhaustive enumeration of configuration values against an independent decision table"
import importlib.util
claimed=open('/verif/tools/claimed.txt').read().split()
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        n=NOTE.get(i) or NOTE[i[0]]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=TECH.get(i) or TECH[i[0]],level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason=NOTE.get('na:'+i,"no check built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="Every check rebuilds its harness crate (path dependency or source inclusion) from /repo's working tree. No hooks are needed in /repo. Known findings: known-findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'claimed',len(na),'not')
