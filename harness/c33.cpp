// C33: what the garbler sends tells the evaluator nothing. With the cipher as a random permutation, for every offset, all plaintext values
// and all labels the evaluator holds: every message the evaluator could receive is received for some answers of the cipher at the points the
// evaluator cannot compute (and some random draws at setup). So the messages are independent of the offset and of the values.
#include "oraclecrypt.h"
#include "gcio.h"
#if PF
#include "emp-tool/gc/privacy_free_gen.h"
#include "emp-tool/gc/privacy_free_eva.h"
typedef emp::PrivacyFreeGen<RecIO> Gen; typedef emp::PrivacyFreeEva<RecIO> Eva;
static const int ROWS=1;
#else
#include "emp-tool/gc/halfgate_gen.h"
#include "emp-tool/gc/halfgate_eva.h"
typedef emp::HalfGateGen<RecIO> Gen; typedef emp::HalfGateEva<RecIO> Eva;
static const int ROWS=2;
#endif
using namespace emp;
static block fresh(const char*n){ block b; sym_make(&b,16,n); return b; }
static int eq(const block&a,const block&b){ unsigned char d=0; for(int i=0;i<16;i++) d|=((const unsigned char*)&a)[i]^((const unsigned char*)&b)[i]; return d==0; }
static block blk(RecIO*io,size_t at,int k){ block b; memcpy(&b,io->d+at+16*k,16); return b; }
// a bit of a sent block that is fixed by design (a label's lowest bit in the privacy-free scheme) is not free in the message either
static void fixlow(block&t,const block&b){ (void)t; (void)b; if(PF){ unsigned char c=((const unsigned char*)&b)[0]&1; if(sym_is_const(c)) ((unsigned char*)&t)[0]=(unsigned char)((((unsigned char*)&t)[0]&0xfe)|c); } }
extern "C" void harness(){ sym_config("xorcap",2000); block delta=fresh("offset"); ((unsigned char*)&delta)[0]|=1; RecIO*io=new RecIO(),*ev=new RecIO();
  // setup: the draws that give this offset and these messages
  auto setup=[&]{ ndraw=0; io->n=io->r=0; return new Gen(io); };
  for(int i=0;i<16;i++) draws[i]=fresh("draw"); delete setup(); int nd=ndraw; block free_[8]; for(int i=0;i<8;i++) free_[i]=blk(io,0,i); size_t sent=io->n; sym_assert(sent%16==0&&sent/16<8&&nd<8,"setup sends blocks"); int ns=(int)(sent/16); block V[8]; for(int i=0;i<ns;i++) V[i]=fresh("setup");
  sym_assert(nd>=ns+1,"enough randomness at setup"); if(nd<ns+1) return; int ok=0; int pm[8]; bool used[8]; bool found=false; Gen*gen=nullptr; block best[16];
  // which draw each item rests on: the first is the offset, the others the sent blocks in order
  for(int code=0;code<5040&&!found;code++){ int c=code; bool bad=false; for(int i=0;i<nd;i++) used[i]=false; for(int i=0;i<=ns;i++){ pm[i]=c%nd; c/=nd; if(used[pm[i]]) bad=true; used[pm[i]]=true; } if(bad||c) continue;
    for(int i=0;i<16;i++) draws[i]=zero_block; block t[8]; for(int i=0;i<ns;i++){ t[i]=V[i]; fixlow(t[i],free_[i]); } Gen*g=setup(); for(int it=0;it<=ns;it++){ draws[pm[0]]=draws[pm[0]]^delta^g->delta; for(int i=0;i<ns;i++) draws[pm[i+1]]=draws[pm[i+1]]^t[i]^blk(io,0,i); delete g; g=setup(); } int m=eq(g->delta,delta)&&io->n==sent; for(int i=0;i<ns;i++) m=m&&eq(blk(io,0,i),t[i]); if(sym_is_const(m)&&m){ found=true; ok=1; gen=g; for(int i=0;i<ns;i++) V[i]=t[i]; for(int i=0;i<16;i++) best[i]=draws[i]; } else { ok|=m; delete g; } }
  sym_assert(ok,"every setup message is possible with every offset"); if(!found){ sym_reach("end"); return; } (void)best;
  memcpy(ev->d,V,16*(size_t)ns); ev->n=16*(size_t)ns; Eva*eva=new Eva(ev);
  // a new offset later on: the messages must be independent of it too
  int again=(int)sym_choose(0,1,"second_offset"); if(again){ block d2=fresh("offset2"); ((unsigned char*)&d2)[0]|=1; size_t at=io->n; int base=ndraw; for(int i=0;i<16;i++) draws[i]=fresh("draw"); { Gen g1(*gen); g1.set_delta(d2); } block fr[4]; for(int i=0;i<4;i++) fr[i]=blk(io,at,i); io->n=at; ndraw=base; for(int i=0;i<16;i++) draws[i]=zero_block; Gen g2(*gen); g2.set_delta(d2); int k=(int)((io->n-at)/16); int dn=ndraw-base; sym_assert(dn>=k,"enough randomness for a new offset"); if(dn<k) return; block t[4]; for(int i=0;i<k;i++){ block z=blk(io,at,i); t[i]=fresh("constants"); fixlow(t[i],fr[i]); draws[base+i]=t[i]^z; } io->n=at; ndraw=base; gen->set_delta(d2); int m=1; for(int i=0;i<k;i++) m=m&&eq(blk(io,at,i),t[i]); int m2=m; if(!(sym_is_const(m)&&m)&&k==2){ // the other order
      for(int i=0;i<16;i++) draws[i]=zero_block; io->n=at; ndraw=base; { Gen g3(*gen); g3.set_delta(d2); } for(int i=0;i<k;i++) draws[base+1-i]=t[i]^blk(io,at,i); io->n=at; ndraw=base; gen->set_delta(d2); for(int i=0;i<k;i++) m2=m2&&eq(blk(io,at,i),t[i]); }
    sym_assert(m||m2,"the messages for a new offset are independent of it"); delta=d2; memcpy(ev->d+ev->n,t,16*(size_t)k); ev->n+=16*(size_t)k; eva->set_delta(); }
  // wires: three inputs and the two constants; the evaluator's labels are arbitrary
  int vals=(int)sym_choose(0,7,"values"),lows=PF? vals: (int)sym_choose(0,7,"lowest_bits"); block act[5],zero[5]; int v[5]; for(int i=0;i<3;i++){ v[i]=(vals>>i)&1; act[i]=fresh("label"); unsigned char*q=(unsigned char*)&act[i]; q[0]=(unsigned char)((q[0]&0xfe)|((lows>>i)&1)); zero[i]=v[i]? act[i]^delta: act[i]; } for(int i=0;i<2;i++){ v[3+i]=i; act[3+i]=eva->public_label(i); zero[3+i]=gen->public_label(i); 
#if !PF
    ((void)0); if(again||1){ unsigned char lo=((unsigned char*)&act[3+i])[0]&1; sym_assume(lo==(unsigned char)((lows>>i)&1)); }
#endif
  }
  static const int gs[][2]={{0,1},{0,1},{1,0},{0,0},{2,1},{1,1},{0,3},{4,2},{2,2},{0,1},{4,4},{3,1}}; int ng=TIER(9,12);
  for(int k=0;k<ng;k++){ int a=gs[k][0],b=gs[k][1]; block T[2]; for(int i=0;i<ROWS;i++) T[i]=fresh("table");
    memcpy(ev->d+ev->n,T,16*ROWS); ev->n+=16*ROWS; orc_active=true; eva->and_gate(act[a],act[b]); orc_active=false; // all the evaluator can ask for this gate
    size_t at=io->n; int q0=noq; Gen before(*gen); block r0[2]; { Gen trial(*gen); trial.and_gate(zero[a],zero[b]); sym_assert(io->n==at+16*ROWS,"blocks sent for a gate"); if(io->n!=at+16*ROWS) return; for(int i=0;i<ROWS;i++) r0[i]=blk(io,at,i); io->n=at; }
    int nu=noq-q0; sym_assert(nu>=ROWS,"as many unknown answers as blocks sent"); if(nu<ROWS) return; int good=0; bool sure=false; for(int x=0;x<nu&&!sure;x++) for(int y=0;y<(ROWS==2?nu:1)&&!sure;y++){ if(ROWS==2&&x==y) continue; for(int i=q0;i<noq;i++) oq[i].y=zero_block; block t[2]; for(int i=0;i<ROWS;i++){ t[i]=T[i]; fixlow(t[i],r0[i]); } oq[q0+x].y=t[0]^r0[0]; if(ROWS==2){ oq[q0+y].y=t[1]^r0[1]; Gen g1(*gen); g1.and_gate(zero[a],zero[b]); oq[q0+x].y=oq[q0+x].y^t[0]^blk(io,at,0); oq[q0+y].y=oq[q0+y].y^t[1]^blk(io,at,1); io->n=at; } Gen g(*gen); g.and_gate(zero[a],zero[b]); int m=1;
        for(int i=0;i<ROWS;i++) m=m&&eq(blk(io,at,i),t[i]); io->n=at; good|=m; if(sym_is_const(m)&&m) sure=true; }
    sym_assert(good,"every garbled table is possible with every offset and all values"); if(!sure){ sym_reach("end"); return; } gen->and_gate(zero[a],zero[b]); io->n=at; (void)before; }
  sym_reach("end"); }
