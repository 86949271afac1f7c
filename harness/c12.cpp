// C12: programs run in the plaintext backend with circuit output; the written file is read back by an independent reader and by the
// library's loader, and evaluated on all inputs.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include <stdio.h>
using namespace emp;
static const char*FN="c12_circuit.txt";
static long long rd(FILE*f){ int c=fgetc(f); while(c==' '||c=='\n'||c=='\r'||c=='\t') c=fgetc(f); if(c<'0'||c>'9') return -1; long long v=0; while(c>='0'&&c<='9'){ v=v*10+(c-'0'); c=fgetc(f); } return v; }
static int rdop(FILE*f){ int c=fgetc(f); while(c==' '||c=='\n'||c=='\t') c=fgetc(f); char b[8]; int k=0; while(c>='A'&&c<='Z'&&k<7){ b[k++]=(char)c; c=fgetc(f); } b[k]=0; return strcmp(b,"AND")==0?0: strcmp(b,"XOR")==0?1: strcmp(b,"INV")==0?2:3; }
// checks the file against the definition of the format and the expected results
static void check(int nA,int nB,const bool*in,int nout,const bool*want){ int ni=nA+nB;
  { FILE*f=fopen(FN,"r"); sym_assert(f!=0,"file written"); if(!f) return; long long ng=rd(f),nw=rd(f),n1=rd(f),n2=rd(f),n3=rd(f); sym_assert(n1==nA&&n2==nB&&n3==nout,"header states the input and output counts"); sym_assert(ng>=0&&ng<4000&&nw>=0&&nw<4000&&nw==ni+ng,"header states the gate and wire counts"); if(ng<0||ng>=4000||nw<ni||nw>=4000) return;
    static bool w[4000],def[4000]; for(int i=0;i<4000;i++) def[i]=w[i]=false; for(int i=0;i<ni;i++){ w[i]=in[i]; def[i]=true; } bool good=true;
    for(long long g=0;g<ng;g++){ long long k=rd(f),one=rd(f); if((k!=1&&k!=2)||one!=1){ good=false; break; } long long a=rd(f),b= k==2?rd(f):0,o=rd(f); int op=rdop(f); if(a<0||b<0||o<0||a>=nw||b>=nw||o>=nw||!def[a]||(k==2&&!def[b])||def[o]||(k==1)!=(op==2)||op>2){ good=false; break; } w[o]= op==0? (w[a]&&w[b]): op==1? (w[a]!=w[b]): !w[a]; def[o]=true; }
    sym_assert(good,"every gate line is well formed, uses defined wires and defines a new one"); sym_assert(rd(f)==-1,"no more gate lines than stated"); fclose(f); if(good) for(int i=0;i<nout;i++) sym_assert(w[nw-nout+i]==want[i],"evaluating the written gates gives the revealed value"); }
  vb_setup(); BristolFormat cf(FN); block*a=new block[nA+1],*b=new block[nB+1],*o=new block[nout+1]; for(int i=0;i<nA;i++) a[i]=vb_mk(in[i]); for(int i=0;i<nB;i++) b[i]=vb_mk(in[nA+i]); sym_assert(cf.n3==nout,"output count"); if(cf.n3!=nout) return; cf.compute(o,a,b); for(int i=0;i<nout;i++) sym_assert(vb_val(o[i])==want[i],"loading and evaluating gives the revealed value"); delete[] a; delete[] b; delete[] o; }
extern "C" void harness(){ static bool in[1200],want[1200]; int nA,nB; int nout=0;
#if PART==0
  static const int SH[][2]={{1,1},{2,0},{0,2},{2,1}}; int sh=(int)sym_choose(0,TIER(2,3),"shape"); nA=SH[sh][0]; nB=SH[sh][1]; setup_plain_prot(true,FN); Bit w[10]; bool v[10]; int n=0; for(int i=0;i<nA+nB;i++){ in[i]=sym_bool("in"); w[n]=Bit(in[i], i<nA?ALICE:BOB); v[n]=in[i]; n++; } w[n]=Bit(false,PUBLIC); v[n++]=false; w[n]=Bit(true,PUBLIC); v[n++]=true;
  int ng=(int)sym_choose(0,TIER(2,2),"gates"); if(sh>=TIER(1,3)&&ng==2) ng=1; for(int g=0;g<ng;g++){ int op=(int)sym_choose(0,2,"op"); int i=(int)sym_choose(0,n-1,"i"),j= op==2||g>0? n-1:(int)sym_choose(0,n-1,"j"); if(op==2&&g>0) i=n-1; Bit r= op==0? (w[i]&w[j]): op==1? (w[i]^w[j]): !w[i]; v[n]= op==0? (v[i]&&v[j]): op==1? (v[i]!=v[j]): !v[i]; w[n++]=r; }
  nout=(int)sym_choose(1,2,"outputs"); for(int k=0;k<nout;k++){ int i=(int)sym_choose(0,n-1,"out"); want[k]=v[i]; bool r=w[i].reveal<bool>(k==0?PUBLIC:ALICE); sym_assert(r==v[i],"the program reveals its value"); }
  finalize_plain_prot(); check(nA,nB,in,nout,want);
#elif PART==3 // wide operands, fed in several batches
  static const int WS[]={40,64,65,128,257}; int w=WS[sym_choose(0,TIER(3,4),"w")],e=(int)sym_choose(0,2,"extra"); setup_plain_prot(true,FN); nA=w+e; nB=w+2*e; for(int i=0;i<nA+nB;i++) in[i]=sym_bool("in"); Integer A,B; A.bits.resize(w); B.bits.resize(w); Bit ea[4],eb[4]; auto fd=[&](Bit*d,int party,const bool*p,int k){ if(k) ProtocolExecution::prot_exec->feed((block*)d,party,p,k); };
  fd(A.bits.data(),ALICE,in,w); fd(ea,ALICE,in+w,e); fd(eb,BOB,in+nA,2*e); fd(B.bits.data(),BOB,in+nA+2*e,w); const bool*y=in+nA+2*e;
  static Integer R[3]; R[0]=A^B; R[1]=A&B; R[2]=A.select(e?ea[0]:B[0],B); static bool o[400]; bool c= e? in[w]: y[0]; for(int q=0;q<3;q++){ int party= q==0? PUBLIC: q==1? ALICE: BOB; R[q].revealBools(o,party); for(int i=0;i<w;i++){ want[nout]= q==0? in[i]!=y[i]: q==1? (in[i]&&y[i]): c? y[i]: in[i]; sym_assert(o[i]==want[nout],"the program reveals its value"); nout++; } } for(int i=0;i<2*e;i++){ want[nout]=in[nA+i]; sym_assert(eb[i].reveal<bool>(ALICE)==want[nout],"the program reveals its value"); nout++; }
  finalize_plain_prot(); check(nA,nB,in,nout,want);
#elif PART==2 // longer pseudo-random programs: the shape comes from a generator, the inputs are free
  uint64_t rs=91+sym_choose(0,TIER(39,199),"seed"); auto rnd=[&](int m){ rs=rs*6364136223846793005ull+1442695040888963407ull; return (int)((rs>>33)%(uint64_t)m); };
  nA=rnd(6); nB=rnd(6); if(nA+nB==0) nA=3; setup_plain_prot(true,FN); static Bit w[300]; static bool v[300]; int n=0; for(int i=0;i<nA+nB;i++){ in[i]=sym_bool("in"); w[n]=Bit(in[i], i<nA?ALICE:BOB); v[n]=in[i]; n++; } w[n]=Bit(false,PUBLIC); v[n++]=false; w[n]=Bit(true,PUBLIC); v[n++]=true; int ng=10+rnd(100);
  for(int g=0;g<ng;g++){ int op=rnd(4),i=rnd(n),j= rnd(3)? n-1-rnd(n<6?n:6): rnd(n); Bit r= op==0? (w[i]&w[j]): op==1? (w[i]^w[j]): op==2? !w[j]: (w[i]|w[j]); v[n]= op==0? (v[i]&&v[j]): op==1? (v[i]!=v[j]): op==2? !v[j]: (v[i]||v[j]); w[n++]=r; }
  nout=1+rnd(30); for(int k=0;k<nout;k++){ int i= rnd(2)? n-1-rnd(n<20?n:20): rnd(n); if(k&&rnd(5)==0) i=0; want[k]=v[i]; bool r=w[i].reveal<bool>(rnd(2)?PUBLIC:rnd(2)?ALICE:BOB); sym_assert(r==v[i],"the program reveals its value"); }
  finalize_plain_prot(); check(nA,nB,in,nout,want);
#else
  nA=nB=3; setup_plain_prot(true,FN); uint64_t x=0,y=0; for(int i=0;i<6;i++){ in[i]=sym_bool("in"); if(i<3) x|=(uint64_t)in[i]<<i; else y|=(uint64_t)in[i]<<(i-3); }
  int64_t sx= x&4? (int64_t)x-8:(int64_t)x, sy= y&4?(int64_t)y-8:(int64_t)y; bool bx[3]={in[0],in[1],in[2]},by[3]={in[3],in[4],in[5]}; Integer A,B; A.bits.resize(3); B.bits.resize(3); ProtocolExecution::prot_exec->feed((block*)A.bits.data(),ALICE,bx,3); ProtocolExecution::prot_exec->feed((block*)B.bits.data(),BOB,by,3);
  int pr=(int)sym_choose(0,7,"program"); Integer C(3,3,PUBLIC); Integer R[2]; uint64_t ex[2]={0,0}; int w[2]={0,0}; int k=1;
  switch(pr){ case 0: R[0]=A+B; ex[0]=x+y; break; case 1: R[0]=A*B; ex[0]=x*y; break; case 2: R[0]=A-C; ex[0]=x-3; R[1]=A+B; ex[1]=x+y; k=2; break; case 3: R[0]=A.select(A>B,B); ex[0]= sx>sy? y:x; break; case 4: R[0]=A; ex[0]=x; R[1]=A; ex[1]=x; k=2; break; case 5: R[0]=C; ex[0]=3; R[1]=B^C; ex[1]=y^3; k=2; break; case 6: { Integer ar[2]={A,B}; sort(ar,2); R[0]=ar[0]; R[1]=ar[1]; ex[0]= sx>sy? y:x; ex[1]= sx>sy? x:y; k=2; break; } default: R[0]=A&C; ex[0]=x&3; R[1]=C+C; ex[1]=6; k=2; }
  for(int q=0;q<k;q++){ w[q]=(int)R[q].size(); bool o[3]; for(int i=0;i<3;i++){ o[i]=R[q][i].reveal<bool>(PUBLIC); want[nout]=(ex[q]>>i)&1; sym_assert(o[i]==want[nout],"the program reveals its value"); nout++; } }
  finalize_plain_prot(); check(3,3,in,nout,want);
#endif
  sym_reach("end"); }
