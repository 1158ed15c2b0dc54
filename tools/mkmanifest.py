#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
TECH="runtime monitoring: "
T={}
def c(id,tech,note,level="exploration"): T[id]=(tech,note,level)
exec(open('tools/checks.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n,l=T[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
          evidence_file=f"evidence/{i}.json",technique=TECH+t,level=l,level_note=n))
    else: na.append(dict(property=i,reason=NA.get(i,"no check yet (in progress)")))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="The checks drive programs built from /repo's working tree as black boxes (plus, for C08, under a ptrace tracer that injects faults; for exported functions through a small program that links the library). No hooks are compiled into /repo."),
  open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('MANIFEST.json','a').write('\n')
