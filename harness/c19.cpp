#include "aesref.h"
#if PART==5 // the build that seeds from the processor's instruction: each attempt may fail or give any value
#include <x86intrin.h>
#include "sym.h"
static uint64_t rd_v[64]; static bool rd_ok[64]; static int rd_n;
static int verif_rdseed64_step(unsigned long long*p){ static int left=-1,pat,run; if(left<0){ static const int nb[]={0,1,2,9,10,11,30}; left=nb[sym_choose(0,6,"bad_draws")]; pat=left? (int)sym_choose(0,3,"kind"): 0; run=0; }
  int kind= left? 1+(pat<3?pat:run%3): 0; // good, refused, all zeros or all ones although reported as good
  uint64_t v= kind==0? sym_u64("rdseed"): kind==3? ~0ull: 0; if(kind==0) sym_assume(v!=0&&v!=~0ull); left--; run= kind?run+1:0; sym_config("allowexit",run>=4); rd_v[rd_n]=v; rd_ok[rd_n]=kind==0; rd_n++; *p=v; return kind!=1; }
#define _rdseed64_step verif_rdseed64_step
#define ENABLE_RDSEED
#endif
#include "emp-tool/utils/prg.h"
#include <stdlib.h>
using namespace emp;
struct KS { AesRef r; void seed(const void*s,uint64_t id){ uint64_t k[2]; memcpy(k,s,16); k[0]^=id; r.set(k); } void at(uint64_t c,void*o) const { uint64_t b[2]={c,0}; r.enc(b,o); } };
static unsigned char*raw(size_t n,size_t off,void**base){ unsigned char*p=(unsigned char*)aligned_alloc(64,n+off?n+off:1); *base=p; return p+off; } // ends exactly after the request
// one request; returns nonzero if it equals the keystream from block c on
static int same(const KS&k,uint64_t c,const unsigned char*p,size_t n,bool bools){ unsigned char d=0; for(size_t b=0;b*16<n;b++){ unsigned char e[16]; k.at(c+b,e); for(size_t i=0;i<16&&b*16+i<n;i++) d|=p[b*16+i]^(bools?e[i]&1:e[i]); } return d==0; }
struct Track { uint64_t next=0; bool fresh=true; uint64_t wpos=0,wend=0; }; // next unused block; words of operator() still buffered
static void expect(const KS&k,Track&t,const unsigned char*p,size_t n,bool bools,const char*what){ if(!n) return; int any=0; uint64_t f=0; bool got=false; for(uint64_t s=0;s<=(t.fresh?0u:2u)&&!got;s++){ int m=same(k,t.next+s,p,n,bools); if(sym_is_const(m)&&m){ got=true; f=t.next+s; } any|=m; } sym_assert(got||any,what); if(!got) f=t.next; t.next=f+(n+15)/16; t.fresh=false; }
static void word(const KS&k,Track&t,uint64_t v){ for(int tries=0;tries<2;tries++){ if(t.wpos<t.wend){ uint64_t e[2]; k.at(t.wpos/2,e); int m= v==e[t.wpos%2]; if(sym_is_const(m)&&m){ t.wpos++; return; } sym_assert(m,"words of operator() are the keystream in order"); t.wpos++; return; }
    int any=0; bool got=false; uint64_t f=0; for(uint64_t s=0;s<=(t.fresh?0u:2u)&&!got;s++){ uint64_t e[2]; k.at(t.next+s,e); int m= v==e[0]; if(sym_is_const(m)&&m){ got=true; f=t.next+s; } any|=m; } sym_assert(got||any,"operator() starts at unused keystream"); if(!got) f=t.next; t.wpos=2*f+1; t.wend=2*f+32; t.next=f+16; t.fresh=false; return; } }
static void request(PRG&g,const KS&k,Track&t,int type,int n,int off){ void*base; 
  if(type==0){ unsigned char*p=raw(16*(size_t)n,off,&base); g.random_block((block*)p,n); expect(k,t,p,16*(size_t)n,false,"random_block gives unused keystream"); free(base); }
  else if(type==1){ unsigned char*p=raw(n,off,&base); g.random_data(p,n); expect(k,t,p,n,false,"random_data gives unused keystream"); free(base); }
  else if(type==2){ unsigned char*p=raw(n,off,&base); g.random_data_unaligned(p,n); expect(k,t,p,n,false,"random_data_unaligned gives unused keystream"); free(base); }
  else if(type==3){ unsigned char*p=raw(n,off,&base); g.random_bool((bool*)p,n); expect(k,t,p,n,true,"random_bool gives 0/1 bytes of unused keystream"); free(base); }
  else for(int i=0;i<n;i++) word(k,t,g()); }
extern "C" void harness(){ sym_config("xorcap",600); block seed; sym_make(&seed,16,"seed"); KS k;
#if PART==0 // two or three requests of any kind, with an optional reseed in between
  int id=(int)sym_u32("id"); k.seed(&seed,(uint64_t)(int64_t)id); PRG g(&seed,id); Track t; int sz[]={1,2,16,17}; int re=(int)sym_choose(0,TIER(2,3),"reseed");
  for(int i=0;i<TIER(3,4);i++){ if(i==re&&i){ sym_make(&seed,16,"seed2"); uint64_t id2=sym_u64("id2"); g.reseed(&seed,id2); k.seed(&seed,id2); t=Track(); } request(g,k,t,(int)sym_choose(0,4,"type"),sz[sym_choose(0,TIER(2,3),"size")],i==1?3:0); }
#elif PART==1 // every size at every alignment, then one more block
  k.seed(&seed,0); PRG g(&seed); Track t; int type=(int)sym_choose(1,3,"type"); int n=(int)sym_choose(0,TIER(66,140),"n"); int off=(int)sym_choose(0,15,"off"); if(!TIER(0,1)&&off>3&&off!=8&&off<14) return; request(g,k,t,type,n,off); block b,e; g.random_block(&b,1); expect(k,t,(unsigned char*)&b,16,false,"the next request gives unused keystream"); 
  PRG h(&seed); void*base; unsigned char*p=raw(n,0,&base); if(type==1) h.random_data(p,n); else if(type==2) h.random_data_unaligned(p,n); else h.random_bool((bool*)p,n); h.random_block(&e,1); sym_assert_eq(&b,&e,16,"the stream does not depend on the destination's alignment"); free(base);
#elif PART==2 // long requests and many words
  k.seed(&seed,0); PRG g(&seed); Track t; int m=(int)sym_choose(0,TIER(40,80),"n"); if(m<=TIER(33,70)) { request(g,k,t,0,m,0); request(g,k,t,1,m*7,m%16); request(g,k,t,0,1,0); } else { int c=(m-TIER(33,70))*6; request(g,k,t,4,c,0); request(g,k,t,0,2,0); request(g,k,t,4,40-c%40,0); request(g,k,t,0,1,0); }
#elif PART==6 // larger requests
  k.seed(&seed,0); PRG g(&seed); Track t; static const int big[]={127,128,129,255,256,257,511,512,513,1000,1024,1025,2048,4096,4097,8192,16385}; int type=(int)sym_choose(0,3,"type"); int n=big[sym_choose(0,TIER(14,16),"n")]; if(type==0) n= n/16+(n&1); request(g,k,t,type,n,type==0?0:3); request(g,k,t,0,1,0);
#elif PART==4 // late in a long stream: the position is just before every power of two
  k.seed(&seed,0); PRG g(&seed); Track t; uint64_t c=((uint64_t)1<<sym_choose(3,62,"position"))-(TIER(0,1)? sym_choose(1,9,"before"): 1+3*sym_choose(0,1,"before")); g.counter=c; t.next=c; int type=(int)sym_choose(0,4,"type"); static const int N[]={7,97,100,90,20}; request(g,k,t,type,N[type],type==2?5:0); t.fresh=type==0; request(g,k,t,0,9,0); request(g,k,t,1,33,0);
#elif PART==5
  PRG g; // error() ends the path: what follows holds for every run that gets a generator
  int nz=0; for(int i=0;i<rd_n;i++) nz+= rd_ok[i]; sym_assert(nz>=2,"two good draws make the key");
  uint64_t kk[2]; memcpy(kk,&g.key,16); int from=0; for(int i=0;i<rd_n;i++) for(int j=0;j<rd_n;j++) if(i!=j) from|= rd_ok[i]&&rd_ok[j]&&rd_v[i]==kk[0]&&rd_v[j]==kk[1]&&kk[0]!=0&&kk[1]!=0&&~kk[0]!=0&&~kk[1]!=0; sym_assert(from,"each half of the key is a different good draw");
  sym_reach("end"); return;
#else // no seed: the key comes entirely from the system's randomness
  int id=(int)sym_u32("id"); PRG g(nullptr,id); uint32_t d1[8]; size_t n1=sym_draws(d1,8); PRG h(nullptr,id); uint32_t d2[16]; size_t n2=sym_draws(d2,16); sym_assert(n1>=4,"at least 128 bits are drawn"); sym_assert(n2==2*n1,"every generator draws its own seed");
  if(n1==4){ block a,b; g.random_block(&a,1); h.random_block(&b,1); int eq=1; for(int i=0;i<4;i++) eq&=d1[i]==d2[4+i]; sym_assert(eq||memcmp(&g.key,&h.key,16)!=0,"different randomness gives different keys"); AesOf r(&g.key); unsigned char z[16]={0}; block e; r.enc(z,&e); sym_assert_eq(&a,&e,16,"unseeded stream starts at counter zero under its key"); }
#endif
  sym_reach("end"); }
