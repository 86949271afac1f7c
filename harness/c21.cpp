#include "sym.h"
#include "emp-tool/utils/f2k.h"
#include <stdlib.h>
using namespace emp;
static block*buf(int n){ return (block*)aligned_alloc(16,n?16*(size_t)n:16); }
static int gb(const void*p,int i){ return (((const unsigned char*)p)[i/8]>>(i%8))&1; }
static void xb(void*p,int i,int v){ ((unsigned char*)p)[i/8]^=(unsigned char)((v&1)<<(i%8)); }
// schoolbook carry-less product, one bit at a time
static void clm(const block&a,const block&b,unsigned char*r){ memset(r,0,32); for(int i=0;i<128;i++){ int ai=gb(&a,i); for(int j=0;j<128;j++) xb(r,i+j,ai&gb(&b,j)); } }
static void red(unsigned char*r,void*out){ for(int i=255;i>=128;i--){ int t=gb(r,i); xb(r,i-128,t); xb(r,i-127,t); xb(r,i-126,t); xb(r,i-121,t); } memcpy(out,r,16); }
static void refmul(const block&a,const block&b,block*o){ unsigned char r[32]; clm(a,b,r); red(r,o); }
static block refl(const block&a){ block o; memset(&o,0,16); for(int i=0;i<128;i++) xb(&o,127-i,gb(&a,i)); return o; }
static block sy(const char*n){ block b; sym_make(&b,16,n); return b; }
extern "C" void harness(){ sym_config("xorcap",4000);
#if PART==0
  switch(sym_choose(0,3,"op")){
  case 0: { block a=sy("a"),b=sy("b"),l,h; mul128(a,b,&l,&h); unsigned char r[32]; clm(a,b,r); sym_assert_eq(&l,r,16,"low half of the carry-less product"); sym_assert_eq(&h,r+16,16,"high half of the carry-less product"); break; }
  case 1: { block a=sy("a"),b=sy("b"),o,e; gfmul(a,b,&o); refmul(a,b,&e); sym_assert_eq(&o,&e,16,"field product"); block c=a; gfmul(c,b,&c); sym_assert_eq(&c,&e,16,"field product in place"); break; }
  case 2: { block a=sy("a"),b=sy("b"),o,e; gfmul_reflect(a,b,&o); refmul(refl(a),refl(b),&e); e=refl(e); sym_assert_eq(&o,&e,16,"reflected field product"); break; }
  case 3: { unsigned char r[32]; sym_make(r,32,"wide"); block l,h; memcpy(&l,r,16); memcpy(&h,r+16,16); block o=reduce(l,h),e; red(r,&e); sym_assert_eq(&o,&e,16,"reduction of any 256-bit value"); 
      unsigned char q[32]; sym_make(q,32,"wide2"); q[31]&=0x7f; memcpy(&l,q,16); memcpy(&h,q+16,16); o=reduce_reflect(l,h); unsigned char z[32]; memset(z,0,32); for(int i=0;i<255;i++) xb(z,254-i,gb(q,i)); red(z,&e); e=refl(e); sym_assert_eq(&o,&e,16,"reflected reduction of any 255-bit value"); break; } }
#elif PART==1 // inner products; the first factors have a few free bits, so that sums stay small
  static const int big[]={12,13,15,16,17,24,31,32,33,64,65,100}; int small=TIER(10,21),n=(int)sym_choose(0,(uint64_t)small+TIER(8,11),"n"); if(n>=small) n=big[n-small]; int pl=(int)sym_choose(0,2,"placement"); block*a=buf(n),*b=buf(n); for(int i=0;i<n;i++){ b[i]=sy("b"); memset(&a[i],0,16); unsigned char f=sym_u8("a"); for(int k=0;k<8;k++) xb(&a[i], pl==0? k: pl==1? 120+k: 17*k+i%8, (f>>k)&1); if((n-i)%3==0) xb(&a[i],(37*i+64)%128,1); }
  block*a2=buf(n),*b2=buf(n); memcpy(a2,a,16*(size_t)n); memcpy(b2,b,16*(size_t)n); unsigned char s[32]; memset(s,0,32); block sr; memset(&sr,0,16); for(int i=0;i<n;i++){ unsigned char r[32]; clm(a[i],b[i],r); for(int k=0;k<32;k++) s[k]^=r[k]; } { unsigned char t[32]; memcpy(t,s,32); red(t,&sr); }
  block o; vector_inn_prdt_sum_red(&o,a,b,n); sym_assert_eq(&o,&sr,16,"inner product with reduction"); block*w=buf(2); vector_inn_prdt_sum_no_red(w,a,b,n); sym_assert_eq(w,s,32,"inner product without reduction"); block rr=reduce(w[0],w[1]); sym_assert_eq(&rr,&sr,16,"reducing the unreduced inner product"); sym_assert_eq(a,a2,16*(size_t)n,"first operand unchanged"); sym_assert_eq(b,b2,16*(size_t)n,"second operand unchanged");
  if(n==3){ vector_inn_prdt_sum_red<3>(&o,a,b); sym_assert_eq(&o,&sr,16,"fixed-size inner product with reduction"); vector_inn_prdt_sum_no_red<3>(w,a,b); sym_assert_eq(w,s,32,"fixed-size inner product without reduction"); }
  if(n==5){ vector_inn_prdt_sum_red<5>(&o,a,b); sym_assert_eq(&o,&sr,16,"fixed-size inner product with reduction"); }
#elif PART==2 // full inner products of short vectors
  int n=(int)sym_choose(1,TIER(2,4),"n"); block*a=buf(n),*b=buf(n); sym_make(a,16*n,"a"); sym_make(b,16*n,"b"); unsigned char s[32]; memset(s,0,32); for(int i=0;i<n;i++){ unsigned char r[32]; clm(a[i],b[i],r); for(int k=0;k<32;k++) s[k]^=r[k]; } block w[2],o; vector_inn_prdt_sum_no_red(w,a,b,n); sym_assert_eq(w,s,32,"inner product without reduction, all operands"); 
  if(n==1){ block sr; red(s,&sr); vector_inn_prdt_sum_red(&o,a,b,n); sym_assert_eq(&o,&sr,16,"inner product with reduction, all operands"); }
#elif PART==3 // packing: sum of v[i]*X^i, and self-xor
  if(sym_choose(0,1,"op")==0){ GaloisFieldPacking*p=new GaloisFieldPacking(); for(int i=0;i<128;i++){ block e; memset(&e,0,16); xb(&e,i,1); sym_assert_eq(&p->base[i],&e,16,"packing base is X^i"); } block*v=buf(128); sym_make(v,16*128,"v"); block o; p->packing(&o,v); unsigned char s[32]; memset(s,0,32); for(int i=0;i<128;i++) for(int j=0;j<128;j++) xb(s,i+j,gb(&v[i],j)); block e; red(s,&e); sym_assert_eq(&o,&e,16,"packing is the sum of v[i]*X^i"); delete p; }
  else { static const int big[]={31,32,33,63,64,65,100,127,128,129,256,257,1000}; int small=TIER(22,65),n=(int)sym_choose(0,(uint64_t)small+12,"n"); if(n>=small) n=big[n-small]; block*v=buf(n); if(n) sym_make(v,16*(size_t)n,"v"); unsigned char e[16]; memset(e,0,16); for(int i=0;i<n;i++) for(int k=0;k<16;k++) e[k]^=((unsigned char*)&v[i])[k]; block o; vector_self_xor(&o,v,n); sym_assert_eq(&o,e,16,"xor of all elements"); if(n==7){ vector_self_xor<7>(&o,v); sym_assert_eq(&o,e,16,"fixed-size xor of all elements"); } free(v); }
#else // hash coefficients: consecutive powers of any seed. Given that c[0..i-1] are right (asserted before), c[i] is
  // right exactly if it equals c[j]*c[i-1-j] for one (hence every) j.
  static const int big[]={16,17,20,31,32,33,63,64,65,100}; int small=TIER(15,27),n=(int)sym_choose(1,(uint64_t)small+TIER(3,5),"n"); if(n>=small) n=big[n-small]; block seed=sy("seed"); block*c=buf(n); uni_hash_coeff_gen(c,seed,n); sym_assert_eq(&c[0],&seed,16,"the first coefficient is the seed");
  int pref[4]={0,3,1,7}; for(int i=1;i<n;i++){ bool got=false; int any=0; for(int q=0;q<4+i&&!got;q++){ int j= q<4? pref[q]: q-4; if(j>i-1) continue; if(q>=4&&(j<=1||j==3||j==7)) continue; block t; refmul(c[j],c[i-1-j],&t); unsigned char d=0; for(int k=0;k<16;k++) d|=((unsigned char*)&t)[k]^((unsigned char*)&c[i])[k]; int m= d==0; if(sym_is_const(m)&&m) got=true; any|=m; } if(!got) sym_assert(any,"coefficient i is the seed to the power i+1"); else sym_assert(1,"coefficient i is the seed to the power i+1"); }
  if(n==6){ block*f=buf(6); uni_hash_coeff_gen<6>(f,seed); sym_assert_eq(f,c,96,"fixed-size coefficients"); free(f); } free(c);
#endif
  sym_reach("end"); }
