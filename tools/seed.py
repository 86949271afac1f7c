#!/usr/bin/env python3
"""Author and vet planted bugs: seed.py new SPEC.py -> writes seeded/<id>; seed.py vet ID [--notest] applies, builds, tests, demos, runs the check, undoes."""
import sys, os, subprocess, json, importlib.util, time
V='/verif'; R='/repo'
def sh(c,t=900,**k):
    try: p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,**k); return p.returncode,p.stdout.decode('utf-8','replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
DEMO='''#!/bin/bash
# run with cwd = the repository after it was built
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -w -O2 -march=x86-64-v3 -maes -mpclmul -mrdseed -std=c++11 %s -I. "$D/demo.cpp" -L_build -lemp-tool -Wl,-rpath,"$PWD/_build" -lcrypto -lpthread -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
'''
def new(b):
    d=V+'/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain')[1].strip(), 'repo dirty'
    for f,o,n in b['edits']:
        p=R+'/'+f; s=open(p).read(); assert s.count(o)==b.get('count',1),(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    rc,diff=sh('git -C /repo diff'); open(d+'/patch.diff','w').write(diff); sh('git -C /repo checkout -- .')
    open(d+'/demo.cpp','w').write(b['demo']); open(d+'/demo.sh','w').write(b.get('sh') or DEMO%b.get('flags','')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
def vet(i,test=True):
    d=V+'/seeded/'+i; m=json.load(open(d+'/meta.json')); out={'id':i}
    rc,o=sh('bash %s/demo.sh'%d,300,cwd=R); out['demo_clean']=rc
    if rc: print(o[-800:])
    rc,o=sh('git -C /repo apply %s/patch.diff'%d); assert rc==0,o
    try:
        rc,o=sh('bash /opt/vp/build.sh'); out['build']=rc
        if rc: print(o[-1500:])
        rc,o=sh('bash %s/demo.sh'%d,300,cwd=R); out['demo_bug']=rc; out['demo_out']=o[-200:]
        if test:
            sh('bash /opt/vp/test.sh /tmp/st.json'); r=json.load(open('/tmp/st.json')); base=json.load(open('/opt/vp/BASELINE.json')); out['failed']=r['failed'] or (17-len(r['passed']))
        t=time.time(); rc,o=sh('python3 run.py %s --tier quick'%m['property'],cwd=V); out['check']=rc; out['viol']='VIOLATION property=%s'%m['property'] in o; out['t']=round(time.time()-t,1); out['check_out']=[l for l in o.splitlines() if 'counterexample' in l or 'undecided' in l][:3]
    finally: sh('git -C /repo checkout -- .')
    ok=out['demo_clean']==0 and out['demo_bug'] not in (0,99) and not out.get('failed')
    print(('OK   ' if ok else 'BAD  ')+('CAUGHT ' if out['viol'] else 'MISSED ')+json.dumps(out)); return out
if sys.argv[1]=='new':
    sp=importlib.util.spec_from_file_location('spec',sys.argv[2]); mod=importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
    for b in mod.BUGS:
        if len(sys.argv)<4 or b['id'] in sys.argv[3:]: new(b); print('wrote',b['id'])
else:
    for i in [a for a in sys.argv[2:] if not a.startswith('-')]: vet(i,'--notest' not in sys.argv)
    sh('bash /opt/vp/build.sh')
