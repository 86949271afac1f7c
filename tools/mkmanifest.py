#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.PROPS and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import PROPS
NA={}
TECH='bounded symbolic execution of the LLVM IR compiled from the current sources; obligations decided by SAT (rewriting, MiniSat, SAT sweeping, kissat); counterexamples replayed natively'
ps=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for p in ps:
    i=p['id']
    if i in PROPS and i not in NA:
        checks.append({'property':i,'technique':TECH,'level':'other','level_note':'solver-decided for all values within bounds: '+PROPS[i]['bounds']['quick']+('' if not PROPS[i]['outside'] else '. Outside: '+PROPS[i]['outside']),'quick_cmd':'python3 run.py %s --tier quick'%i,'thorough_cmd':'python3 run.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i})
    else: na.append({'property':i,'reason':NA.get(i,'no check built yet')})
m={'version':1,'setup_cmd':'bash engine/build.sh build/symex','checks':checks,'not_applicable':na,'notes':'No hooks or instrumentation were added to the repository.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'n/a')
