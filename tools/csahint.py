#!/usr/bin/env python3
"""Finds, by simulation signatures, the carry-save schedule of the shipped float multiply/square gate lists and prints it
as a table (harness/csa_hint.h).  Only a hint for the reference product: any schedule is arithmetically valid."""
import re,sys,random,itertools
def load(n):
    s=open('/repo/emp-tool/circuits/float32_%s.cpp'%n).read()
    nb=int(re.search(r'new Bit\[(\d+)\]',s).group(1)); g=re.search(r'gates\[\]\s*=\s*\{(.*?)\}',s,re.S).group(1)
    v=[int(x) for x in re.findall(r'-?\d+',g)]
    return nb,[v[i:i+4] for i in range(0,len(v),4)],0
random.seed(2); N=2048; MASK=(1<<N)-1
nb,g,_=load(sys.argv[1]); sq=sys.argv[1]=='sq'
W=[0]*nb
def rb(): return random.getrandbits(N)
# exponents: random nonzero normals: bits fixed 127 -> 0x3f8
A=[rb() for i in range(23)]; B=[rb() for i in range(23)]
if sq: B=A
def ex(v): return [MASK if (v>>i)&1 else 0 for i in range(8)]
inA=A+[MASK if (120>>i)&1 else 0 for i in range(8)]+[rb()]; inB=B+[MASK if (130>>i)&1 else 0 for i in range(8)]+[rb()]
for i in range(32): W[i]=inA[i]
if not sq:
  for i in range(32): W[32+i]=inB[i]
for a,b,o,t in g: W[o]= W[a]&W[b] if t==0 else W[a]^W[b] if t==1 else W[a]^MASK
S={}
for i,w in enumerate(W): S.setdefault(w,i); S.setdefault(w^MASK,~i)
ma=A+[MASK]; mb=B+[MASK]
cols=[[] for _ in range(60)]
if not sq:
  for i in range(24):
    for j in range(24): cols[i+j].append((ma[i]&mb[j],('p',i,j)))
  miss=[x[1] for c in cols for x in c if x[0] not in S]
else:
  for i in range(24):
    cols[2*i].append((ma[i],('p',i,i)))
    for j in range(i): cols[i+j+1].append((ma[i]&ma[j],('p',i,j)))
  miss=[x[1] for c in cols for x in c if x[0] not in S]

import copy
cols0=cols; best=None; rng=random.Random(5); memo={}
def attempt(rng,upto=26):
    cols=[list(c) for c in cols0]; sched=[]; bad=0; left=[]
    for c in range(50):
        col=cols[c]
        while len(col)>2 or (len(col)==2 and c>=100):
            opts=[]
            for x,y,z in itertools.combinations(range(len(col)),3):
                s=col[x][0]^col[y][0]^col[z][0]
                if s in S:
                    m=(col[x][0]&col[y][0])|(col[x][0]&col[z][0])|(col[y][0]&col[z][0])
                    if m in S: opts.append((x,y,z,s,m))
            if not opts or (c<=18 and rng.random()<dev):
                for x,y in itertools.combinations(range(len(col)),2):
                    s=col[x][0]^col[y][0]; m=col[x][0]&col[y][0]
                    if s in S and m in S: opts.append((x,y,s,m))
            if not opts: break
            *ids,s,m=(rng.choice(opts) if (c<=18 and rng.random()<dev) else opts[0]); names=[col[k][1] for k in ids]; n=len(sched); sched.append((c,names))
            col=[q for k,q in enumerate(col) if k not in ids]; col.append((s,('s',n))); cols[c+1].append((m,('c',n)))
        cols[c]=col; left.append(len(col))
        bad+=max(0,len(col)-2)
        if c<=24 and best is not None and bad>best[0]: return bad,None,None
    return bad,sched,left
import time; t0=time.time()
for k in range(100000):
    dev=rng.choice([0,0.03,0.1,0.3]); b,sc,l=attempt(rng)
    if sc is not None and (best is None or b<best[0]): best=(b,sc,l); print(k,b,len(sc),file=sys.stderr)
    if best[0]==0 or time.time()-t0>100: break
sched=best[1]
def nid(t): return t[1]*24+t[2] if t[0]=='p' else 1000+2*t[1]+(t[0]=='c')
print('static const short csa_%s[][4]={'%sys.argv[1]+','.join('{%d,%d,%d,%d}'%(c,*(([nid(t) for t in names]+[-1])[:3])) for c,names in sched)+'};')
