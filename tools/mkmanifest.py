#!/usr/bin/env python3
import os; ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json,os,sys
sys.path.insert(0,ROOT+'/tools')
import mkprops
meta=json.load(open(ROOT+'/checks/meta.json'))
checks=[];na=[]
for p in mkprops.P:
    i=p['id']
    if i in meta:
        m=meta[i]
        checks.append(dict(property=i,quick_cmd=f"python3 /verif/run.py {i} quick",thorough_cmd=f"python3 /verif/run.py {i} thorough",
            evidence_file=f"evidence/{i}.json",technique=m["technique"],level=m.get("level","model_checking"),level_note=m["rule"]+" Bounds: "+m["bounds"]))
    else:
        na.append(dict(property=i,reason="check not built yet"))
man=dict(version=1,setup_cmd="true",hooks=dict(guard="DNSFORWARDER_VERIF",enable="not needed: no hooks were added to the sources",source_commits=[]),checks=checks,not_applicable=na,
  notes="All checks share harness/ (explorer + controlled environment) and run via run.py; see DESIGN.md.")
json.dump(man,open(ROOT+'/MANIFEST.json','w'),indent=1)
