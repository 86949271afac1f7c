#include "aesref.h"
#include "emp-tool/utils/crh.h"
#include "emp-tool/utils/ccrh.h"
#include "emp-tool/utils/tccrh.h"
using namespace emp;
static block*buf(int n){ return (block*)aligned_alloc(16,n?16*(size_t)n:16); }
static void rsigma(const void*a,void*o){ uint64_t w[2],r[2]; memcpy(w,a,16); r[0]=w[1]; r[1]=w[0]^w[1]; memcpy(o,r,16); }
static void x16(void*o,const void*a,const void*b){ for(int i=0;i<16;i++) ((unsigned char*)o)[i]=((const unsigned char*)a)[i]^((const unsigned char*)b)[i]; }
static void ref(int v,const AesRef&r,const block*in,uint64_t id,block*out){ block t,u; if(v==0){ r.enc(in,out); } else if(v==1){ r.enc(in,&t); x16(out,&t,in); } else if(v==2){ rsigma(in,&u); r.enc(&u,&t); x16(out,&t,&u); } else { r.enc(in,&t); u=t; uint64_t w[2]; memcpy(w,&u,16); w[0]^=id; memcpy(&u,w,16); block q; r.enc(&u,&q); x16(out,&q,&t); } }
template<int N> static void hN(int v,const block&key,bool inplace,const AesRef&r,uint64_t id){ block*a=buf(N),*o=inplace?a:buf(N); block c[N]; sym_make(a,16*N,"x"); memcpy(c,a,16*N);
  if(v==1){ CRH h(key); h.H<N>(o,a); } else if(v==2){ CCRH h(key); h.H<N>(o,a); } else { TCCRH h(key); h.H<N>(o,a,id); }
  for(int i=0;i<N;i++){ block e; ref(v,r,&c[i],id+i,&e); sym_assert_eq(&o[i],&e,16,"fixed-size form matches the definition"); } if(!inplace){ sym_assert_eq(a,c,16*N,"input unchanged"); free(o); } free(a); }
extern "C" void harness(){ sym_config("xorcap",600); block key; 
#if BIG
  int kk=0;
#else
  int kk=(int)sym_choose(0,1,"keykind");
#endif
  if(kk) sym_make(&key,16,"key"); else memset(&key,0,16); AesOf r(&key); uint64_t id=sym_u64("tweak");
  int v=(int)sym_choose(0,3,"variant");
#if PART==0
  
#if BIG // long batches: the first, middle and last block are free, the others are fixed distinct values
  static const int big[]={24,31,32,33,48,63,64,65,100,127,128,129,256,257,1025,2050}; int n=big[sym_choose(0,sizeof big/4-1,"n")];
#else
  int n=(int)sym_choose(0,TIER(18,34),"n");
#endif
  int mode=(int)sym_choose(0,3,"mode"); bool inplace=mode&1,scr=mode&2; block*a=buf(n),*c=buf(n),*o=inplace?a:buf(n),*s=scr?buf(n):nullptr; 
#if BIG
  for(int i=0;i<n;i++){ if(i==0||i==n-1||i==n/2) sym_make(&a[i],16,"x"); else { uint64_t q[2]={0x9E3779B97F4A7C15ull*(uint64_t)(i+1),0xD1B54A32D192ED03ull*(uint64_t)(i+7)}; memcpy(&a[i],q,16); } }
#else
  if(n) sym_make(a,16*(size_t)n,"x");
#endif
  memcpy(c,a,16*(size_t)n);
  if(v==0){ if(kk){ PRP p(key); p.permute_block(a,n); } else { PRP p; p.permute_block(a,n); } o=a; inplace=true; }
  else if(v==1){ if(kk){ CRH h(key); h.Hn(o,a,n,s); } else { CRH h; h.Hn(o,a,n,s); } } else if(v==2){ if(kk){ CCRH h(key); h.Hn(o,a,n,s); } else { CCRH h; h.Hn(o,a,n,s); } } else { if(kk){ TCCRH h(key); h.Hn(o,a,id,n,s); } else { TCCRH h; h.Hn(o,a,id,n,s); } }
  for(int i=0;i<n;i++){ block e; ref(v,r,&c[i],id+(uint64_t)i,&e); sym_assert_eq(&o[i],&e,16,"variable-length form matches the definition"); } if(!inplace) sym_assert_eq(a,c,16*(size_t)n,"input unchanged");
#elif PART==2 // one object through every sequence of three calls, each with fresh inputs
  CRH*h1=new CRH(key); CCRH*h2=new CCRH(key); TCCRH*h3=new TCCRH(key); PRP*p=new PRP(key); AesRef*cur=&r; block k2; sym_make(&k2,16,"key2"); AesOf r2(&k2);
  for(int st=0;st<3;st++){ int f=(int)sym_choose(0,4,"call"); int n= f==0? 1: f==1? 3: f==2? 5: f==3? 9: 0; uint64_t t=sym_u64("tw"); block*a=buf(n),*c=buf(n),*o=buf(n),*sc=buf(n); if(n) sym_make(a,16*(size_t)n,"x"); memcpy(c,a,16*(size_t)n); for(int i=0;i<n;i++){ sc[i]=zero_block; o[i]=all_one_block; }
    if(f==4){ if(v==0) p->aes_set_key(k2); else if(v==1) h1->aes_set_key(k2); else if(v==2) h2->aes_set_key(k2); else h3->aes_set_key(k2); cur=&r2; }
    else if(v==0){ p->permute_block(a,n); memcpy(o,a,16*(size_t)n); memcpy(a,c,16*(size_t)n); }
    else if(f==0) o[0]= v==1? h1->H(a[0]): v==2? h2->H(a[0]): h3->H(a[0],t);
    else if(f==1){ if(v==1) h1->H<3>(o,a); else if(v==2) h2->H<3>(o,a); else h3->H<3>(o,a,t); }
    else { block*w= f==3? sc: nullptr; if(v==1) h1->Hn(o,a,n,w); else if(v==2) h2->Hn(o,a,n,w); else h3->Hn(o,a,t,n,w); }
    for(int i=0;i<n;i++){ block e; ref(v,*cur,&c[i],t+(uint64_t)i,&e); sym_assert_eq(&o[i],&e,16,"each call matches the definition whatever came before"); } sym_assert_eq(a,c,16*(size_t)n,"input unchanged"); free(a); free(c); free(o); free(sc); }
  delete h1; delete h2; delete h3; delete p;
#else
  block x; sym_make(&x,16,"x"); block e,g; ref(v,r,&x,id,&e); 
  if(v==0){ PRP p(key); g=x; p.permute_block(&g,1); PRP q; q.aes_set_key(key); block g2=x; q.permute_block(&g2,1); sym_assert_eq(&g2,&e,16,"re-keyed permutation"); const char*kp=(const char*)&key; PRP w(kp); block g3=x; w.permute_block(&g3,1); sym_assert_eq(&g3,&e,16,"permutation keyed from bytes"); }
  else if(v==1){ CRH h(key); g=h.H(x); } else if(v==2){ CCRH h(key); g=h.H(x); } else { TCCRH h(key); g=h.H(x,id); } sym_assert_eq(&g,&e,16,"single-block form matches the definition");
  if(v){ bool ip=sym_choose(0,1,"inplace"); hN<1>(v,key,ip,r,id); hN<2>(v,key,ip,r,id); hN<3>(v,key,ip,r,id); hN<8>(v,key,ip,r,id); hN<9>(v,key,ip,r,id); }
#endif
  sym_reach("end"); }
