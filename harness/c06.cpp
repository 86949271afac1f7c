// C06: oblivious sort. A symbolic probe (key,payload) must occur as often after as before.
#include "ints.h"
#include "emp-tool/circuits/number.h"
extern "C" void harness(){ vb_setup(); sym_config("qtime",QT);
  
#ifndef NMIN
#define NMIN 0
#endif
#ifdef NS
  static const int ns[]={NS}; int n=ns[sym_choose(0,sizeof(ns)/sizeof(ns[0])-1,"n")];
#else
  int n=(int)sym_choose(NMIN,NMAX,"n");
#endif
  int mode=(int)sym_choose(0,4,"mode"); // 0 asc, 1 desc, 2 asc+data, 3 desc+data, 4 asc+Bit data
  
#ifndef DWIDTH
#define DWIDTH 3
#endif
  const int KW=KWIDTH,DW=DWIDTH; Integer*K=new Integer[n+1]; Integer*D=new Integer[n+1]; Bit*DB=new Bit[n+1]; uint64_t k[140],d[140],ko[140],dn[140];
  for(int i=0;i<n;i++){ 
#ifdef FREE // only some keys are free, the others follow a fixed pattern
    if(i%((n+FREE-1)/FREE)!=n%3) { k[i]=(0x9e3779b97f4a7c15ull*(uint64_t)(i+1)>>40)&msk(KW); K[i]=mkI(KW,k[i]); } else
#endif
    K[i]=symI(KW,"k",k[i]); D[i]=symI(DW,"d",d[i]); DB[i].bit=vb_mk(d[i]&1); }
#ifdef TAG // payloads: one distinguished element, which must come out once, next to its key
  int tag=-1; if(mode>=2){ tag=(int)sym_choose(0,(uint64_t)(n>40?2:n-1),"tagged"); if(n>40) tag= tag==0? 0: tag==1? n/2: n-1; for(int i=0;i<n;i++){ d[i]=i==tag; D[i]=mkI(DW,d[i]); DB[i].bit=vb_mk(d[i]); } }
#endif
  // an earlier use with other values must not matter
  { Integer P[4]={mkI(KW,1),mkI(KW,0),mkI(KW,1),mkI(KW,0)},Q[4]={mkI(DW,0),mkI(DW,1),mkI(DW,0),mkI(DW,1)}; Bit B[4]; if(mode==0) emp::sort(P,4); else if(mode==1) emp::sort(P,4,(Bit*)nullptr,Bit(false)); else if(mode==2) emp::sort(P,4,Q); else if(mode==3) emp::sort(P,4,Q,Bit(false)); else { for(int i=0;i<4;i++) B[i].bit=vb_mk(i&1); emp::sort(P,4,B); } }
  if(mode==0) emp::sort(K,n); else if(mode==1) emp::sort(K,n,(Bit*)nullptr,Bit(false)); else if(mode==2) emp::sort(K,n,D); else if(mode==3) emp::sort(K,n,D,Bit(false)); else emp::sort(K,n,DB);
  for(int i=0;i<n;i++){ sym_assert(K[i].size()==(size_t)KW,"key width"); ko[i]=val(K[i]); dn[i]= mode==4? vb_val(DB[i].bit): val(D[i]); if(mode==4) d[i]&=1; }
#ifdef TAG
  if(tag<=0)
#endif
  for(int i=0;i+1<n;i++){ int64_t x=sx(KW,ko[i]),y=sx(KW,ko[i+1]); if(mode==1||mode==3) sym_assert(x>=y,"nonincreasing order"); else sym_assert(x<=y,"nondecreasing order"); }
#ifdef TAG
  if(mode>=2){ int c=0; uint64_t key=0; for(int i=0;i<n;i++){ c+=(int)(dn[i]&1); key|= (dn[i]&1)? ko[i]:0; } sym_assert(c==1,"each payload comes out exactly once"); sym_assert(key==k[tag],"each payload stays with its key"); sym_reach("end"); return; }
#endif
  uint64_t pk=sym_bits(KW,"probe_key"),pd=sym_bits(DW,"probe_data"); uint32_t ci=0,co=0; for(int i=0;i<n;i++){ bool e=k[i]==pk,o=ko[i]==pk; if(mode>=2){ e&=d[i]==pd; o&=dn[i]==pd; } ci+=e; co+=o; }
  sym_assert(ci==co,mode>=2?"permutation with payloads attached":"permutation of the keys"); sym_reach("end"); }
