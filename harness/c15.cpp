#include "gcio.h"
#ifndef PF
#define PF 0
#endif
#if PF
#include "emp-tool/gc/privacy_free_gen.h"
#include "emp-tool/gc/privacy_free_eva.h"
#include "aesref.h"
typedef emp::PrivacyFreeGen<RecIO> Gen; typedef emp::PrivacyFreeEva<RecIO> Eva;
static const size_t PERAND=16;
#else
#include "emp-tool/gc/halfgate_gen.h"
#include "emp-tool/gc/halfgate_eva.h"
typedef emp::HalfGateGen<RecIO> Gen; typedef emp::HalfGateEva<RecIO> Eva;
static const size_t PERAND=32;
#endif
using namespace emp;
struct W { block g; int v; }; // garbler's zero label and plaintext value
static Gen*gen; static Eva*eva; static RecIO*io; static block delta; static W w[64]; static int nw=0; static uint64_t ands=0; static uint64_t lsbs=0;
static bool fixedlab=false; // labels of a concrete warm-up run
static block act(const W&x){ return x.v? x.g^delta: x.g; }
static int lsb(const block&b){ return ((const unsigned char*)&b)[0]&1; }
// evaluator's label must be the garbler's label of the true value; the wire then continues with it
static void settle(const block&g,const block&e,int v,const char*what){ W x; x.g=g; x.v=v; block a=act(x); sym_assert_eq(&e,&a,16,what);
#if PF
  sym_assert(lsb(e)==v,"a label's lowest bit is the plaintext value");
#endif
  // continue with an arbitrary garbler label (more general than the one computed), its lowest bit fixed by case
  if(fixedlab){ static uint64_t f=1; uint64_t u[2]={0x9E3779B97F4A7C15ull*f,0xD1B54A32D192ED03ull*(f+3)}; f++; memcpy(&x.g,u,16); } else sym_make(&x.g,16,"label"); unsigned char*q=(unsigned char*)&x.g; q[0]&=0xfe;
#if !PF
  q[0]|=(unsigned char)((lsbs>>(nw&63))&1);
#endif
  if(fixedlab&&nw==60) nw=30; if(nw<64) w[nw++]=x; }
static void gate(int op,int i,int j){ size_t before=io->n; W a=w[i],b=w[j]; block ea=act(a),eb=act(b); CircuitExecution*G=gen,*E=eva;
  if(op==0){ block g=G->and_gate(a.g,b.g); sym_assert(io->n-before==PERAND,"blocks sent for an and-gate"); block e=E->and_gate(ea,eb); ands++; settle(g,e,a.v&b.v,"and: evaluator holds the label of the true value"); }
  else { if(op==1){ block g=G->xor_gate(a.g,b.g),e=E->xor_gate(ea,eb); settle(g,e,a.v^b.v,"xor: evaluator holds the label of the true value"); }
    else if(op==2){ block g=G->not_gate(a.g),e=E->not_gate(ea); settle(g,e,!a.v,"not: evaluator holds the label of the true value"); }
    else { bool c=i&1; block g=G->public_label(c),e=E->public_label(c); settle(g,e,c,"constant: evaluator holds the label of the true value"); }
    sym_assert(io->n==before,"free gates send nothing"); }
  sym_assert(io->r==io->n,"everything sent is consumed"); sym_assert(G->num_and()==E->num_and(),"both sides report the same and-gate count");
#if PF
  sym_assert(G->num_and()==ands,"and-gate count");
#else
  sym_assert(G->num_and()>=ands&&G->num_and()<ands+4,"and-gate count within one key batch");
#endif
}
static block mkd(){ block d; sym_make(&d,16,"delta"); return d; }
extern "C" void harness(){ sym_config("xorcap",2000); io=new RecIO(); gen=new Gen(io); eva=new Eva(io); sym_assert(io->n==io->r,"setup messages match"); sym_assert(lsb(gen->delta)==1,"the random offset has lowest bit one");
  { block c0=gen->public_label(false)^eva->public_label(false),c1=gen->public_label(true)^eva->public_label(true); block z=zero_block; sym_assert_eq(&c0,&z,16,"constant zero label after setup"); sym_assert_eq(&c1,&gen->delta,16,"constant one label after setup"); }
#if !PF
  block S; if(PART==3){ unsigned char q[16]; for(int i=0;i<16;i++) q[i]=(unsigned char)(91*i+5); memcpy(&S,q,16); } else sym_make(&S,16,"S"); 
  int su=(int)sym_choose(0,1,"setup"); if(su){ gen->mitccrh.setS(S); eva->mitccrh.setS(S); }
#endif
#if PF
  int su=(int)sym_choose(0,1,"setup");
#endif
  if(PART==3&&!su) return;
  if(su){ block d; if(PART==3){ unsigned char q[16]; for(int i=0;i<16;i++) q[i]=(unsigned char)(37*i+11); memcpy(&d,q,16); } else d=mkd(); gen->set_delta(d); eva->set_delta(); unsigned char*p=(unsigned char*)&d; p[0]|=1; sym_assert_eq(&gen->delta,&d,16,"the given offset is used with its lowest bit set"); sym_assert(io->n==io->r,"offset messages match"); }
  delta=gen->delta; int n0=2;
#if !PF
  { int m=(int)sym_choose(0,PART==0?7:PART==1?5:PART==3?1:7,"lsbs"); if(PART==1){ uint64_t P[6]={0,~0ULL,0x5555555555555555ULL,0xAAAAAAAAAAAAAAAAULL,0x3333333333333333ULL,0x9E3779B97F4A7C15ULL}; lsbs=P[m]; } else lsbs=0x2492492492492492ULL*((m>>2)&1)^(uint64_t)m*0x1041041041041041ULL; }
#endif
  for(int i=0;i<n0;i++){ sym_make(&w[i].g,16,"label"); w[i].v=(int)sym_choose(0,1,"value");
    ((unsigned char*)&w[i].g)[0]&=0xfe;
#if !PF
    ((unsigned char*)&w[i].g)[0]|=(unsigned char)((lsbs>>i)&1);
#endif
  } nw=n0;
#if PART==0
  for(int s=0;s<TIER(2,3);s++){ int op=(int)sym_choose(0,3,"op"); int i=(int)sym_choose(0,op==3?1:nw-1,"i"); int j= op<2? (int)sym_choose(0,nw-1,"j"): 0; gate(op,i,j); }
#elif PART==1 // long runs: many key batches
  int pat=(int)sym_choose(0,3,"pattern"); for(int s=0;s<TIER(18,40);s++){ if(pat==0) gate(0,nw-1,nw-2); else if(pat==1) gate(0,0,1); else if(pat==2) gate(s%3==1?1:s%3==2?2:0,nw-1,nw-2); else { gate(3,s&1,0); gate(0,nw-1,s%2); } }
#elif PART==3 // many gates later: a warm-up of fixed labels, then free ones
  static const int L[]={61,100,127,128,255,256,300,1000}; int n=L[sym_choose(0,7,"warmup")]; W k0=w[0],k1=w[1]; fixedlab=true; { unsigned char fx[16]; for(int i=0;i<2;i++){ for(int j=0;j<16;j++) fx[j]=(unsigned char)(i*31+j*7+4); fx[0]&=0xfe; memcpy(&w[i].g,fx,16); } } for(int s=0;s<n;s++) gate(0,s%(nw-1),nw-1); fixedlab=false; w[0]=k0; w[1]=k1; nw=2; gate(0,0,1); gate(0,nw-1,1); gate(0,nw-1,0); gate(1,nw-1,0);
#elif PART==2&&PF // the table is exactly one masked label under the gate's own tweak
  block key=zero_block; AesOf r(&key); gen->gid=eva->gid=(int64_t)sym_bits(40,"gid"); uint64_t g0=gen->gid; for(int s=0;s<3;s++){ uint64_t gid=gen->gid; sym_assert(gid==g0+s,"a new tweak for every and-gate"); size_t at=io->n; block res=gen->and_gate(w[0].g,w[1].g); block T; memcpy(&T,io->d+at,16);
    block h[2]; for(int k=0;k<2;k++){ block a= k? w[0].g^delta: w[0].g; uint64_t q[2],t[2]; memcpy(q,&a,16); t[0]=q[1]; t[1]=q[0]^q[1]^(2*gid); r.enc(t,&h[k]); uint64_t o[2]; memcpy(o,&h[k],16); o[0]^=t[0]; o[1]^=t[1]; o[0]=(o[0]&~1ULL)|k; memcpy(&h[k],o,16); }
    sym_assert_eq(&res,&h[0],16,"output label is the hash of the first input's zero label under its tweak"); block e=h[0]^h[1]^w[1].g; sym_assert_eq(&T,&e,16,"the sent block is H(A0)^H(A1)^B0 under its tweak"); block er=eva->and_gate(act(w[0]),act(w[1])); settle(res,er,w[0].v&w[1].v,"and with large tweak"); }
#elif PART==2 // free functions on arbitrary offsets
  MITCCRH<8> mg,me; block S2; sym_make(&S2,16,"S2"); mg.setS(S2); me.setS(S2); block d=mkd(); ((unsigned char*)&d)[0]|=1; delta=d; for(int s=0;s<TIER(10,20);s++){ W a=w[nw-1],b=w[nw-2]; block t[2]; block g=halfgates_garble(a.g,a.g^d,b.g,b.g^d,d,t,&mg); block e=halfgates_eval(act(a),act(b),t,&me); settle(g,e,a.v&b.v,"garble/eval of a single gate"); }
#endif
  sym_reach("end"); }
