#include "aesref.h"
#include "emp-tool/utils/mitccrh.h"
using namespace emp;
#ifndef BS
#define BS 8
#endif
static block S; static block*buf(int n){ return (block*)aligned_alloc(16,16*(size_t)n); }
static void rsigma(const void*a,void*o){ uint64_t w[2],r[2]; memcpy(w,a,16); r[0]=w[1]; r[1]=w[0]^w[1]; memcpy(o,r,16); }
// does group g of the call's output equal the definition under key index idx?
static int match(const block*in,const block*out,int H,bool cir,uint64_t idx){ uint64_t k[2]; memcpy(k,&S,16); k[1]^=idx; AesOf r(k); unsigned char d=0; for(int j=0;j<H;j++){ block x=in[j],e; if(cir) rsigma(&in[j],&x); r.enc(&x,&e); for(int i=0;i<16;i++) d|=((unsigned char*)&e)[i]^((const unsigned char*)&x)[i]^((const unsigned char*)&out[j])[i]; } return d==0; }
static int uniform=0; // shapes used so far all equal
template<int K,int H> static void call(MITCCRH<BS>&m,bool cir,uint64_t&next,bool exact){ block*a=buf(K*H); block c[K*H]; sym_make(a,16*K*H,"x"); memcpy(c,a,16*K*H); if(cir) m.template hash_cir<K,H>(a); else m.template hash<K,H>(a);
  int slack= exact?0:BS; int any=0; uint64_t found=0; bool got=false;
  for(int s=0;s<=slack&&!got;s++){ int all=1; for(int g=0;g<K;g++){ int m1=match(c+g*H,a+g*H,H,cir,next+s+g); all&=m1; if(sym_is_const(all)&&!all) break; } if(sym_is_const(all)&&all){ got=true; found=next+s; } any|=all; }
  sym_assert(got||any,"every group is hashed under its own next key index"); if(!got) found=next; next=found+K; free(a); }
static void shape(MITCCRH<BS>&m,int s,uint64_t&next,bool exact){ bool cir=s&1; switch(s/2){ case 0: call<1,1>(m,cir,next,exact); break; case 1: call<2,1>(m,cir,next,exact); break; case 2: call<2,2>(m,cir,next,exact); break; case 3: call<4,1>(m,cir,next,exact); break;
#if BS>=8
  case 4: call<8,1>(m,cir,next,exact); break;
#endif
  case 5: call<4,2>(m,cir,next,exact); break; case 6: call<1,2>(m,cir,next,exact); break;
#if BS>=8
  case 7: call<8,2>(m,cir,next,exact); break; case 10: call<8,5>(m,cir,next,exact); break;
#endif
  case 8: call<1,9>(m,cir,next,exact); break; case 9: call<2,8>(m,cir,next,exact); break;
  } }
extern "C" void harness(){ sym_config("xorcap",600); sym_make(&S,16,"start"); MITCCRH<BS>*m=new MITCCRH<BS>(); m->setS(S); uint64_t next=0;
#if PART==0   // any interleaving of shapes and restarts
  bool exact=true; int prev=-1; int cir=(int)sym_choose(0,1,"circular"); int rpos=(int)sym_choose(0,TIER(3,4),"restartpos"); int K[8]={1,2,2,4,8,4,1,8};
  for(int i=0;i<TIER(3,4);i++){ if(rpos==i){ uint64_t g=sym_u64("index"); m->renew_ks(g); next=g; exact=true; prev=-1; }
    int s=(int)sym_choose(0,TIER(4,7),"shape"); int k=K[s]; if(k>BS) return; if(i==2) cir^=1;
    if(prev>=0&&prev!=k) exact=false; shape(*m,2*s+cir,next,exact); prev=k; }
#else         // long uniform runs cross several key batches
  int s=(int)sym_choose(0,21,"call"); int K[11]={1,2,2,4,8,4,1,8,1,2,8}; if(K[s/2]>BS) return; int rounds= s/2>=8? 10: TIER(70,260)/K[s/2]+1; if(rounds<3) rounds=3; for(int i=0;i<rounds;i++) shape(*m,s,next,true);
#endif
  delete m; sym_reach("end"); }
