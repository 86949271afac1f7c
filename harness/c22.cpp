#include "sym.h"
#include "emp-tool/utils/block.h"
#include <stdlib.h>
using namespace emp;
static int gb(const void*p,size_t i){ return (((const unsigned char*)p)[i/8]>>(i%8))&1; }
static int length(int k){ static const int big[]={12,15,16,17,31,32,33,63,64,65,100,127,128,129,256,257,1000,1025}; int small=TIER(10,34),n=(int)sym_choose(0,(uint64_t)small+k,"n"); return n<small? n: big[n-small]; }
static block sy(const char*n){ block b; sym_make(&b,16,n); return b; }
extern "C" void harness(){
#if PART==0
  uint64_t r=8*sym_choose(1,TIER(8,17),"rows8"),c=8*sym_choose(1,TIER(8,17),"cols8"); size_t nb=r*c/8; uint8_t*in=(uint8_t*)aligned_alloc(16,nb),*out=(uint8_t*)aligned_alloc(16,nb),*cp=(uint8_t*)malloc(nb); sym_make(in,nb,"in"); memcpy(cp,in,nb); sse_trans(out,in,r,c);
  unsigned char*e=(unsigned char*)calloc(nb,1); for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++){ size_t k=j*r+i; e[k/8]|=(unsigned char)(gb(cp,i*c+j)<<(k%8)); } sym_assert_eq(out,e,nb,"transposed matrix"); sym_assert_eq(in,cp,nb,"input unchanged"); free(in); free(out); free(cp); free(e);
#elif PART==2 // the sizes the protocols use
  int k=(int)sym_choose(0,15,"shape"); uint64_t R[]={128,128,256,1024,512,8,136,128,72,16,1000,2048,16,8,128,2056},Cc[]={128,256,128,128,64,1024,200,1024,264,512,24,128,1040,2056,1536,8}; uint64_t r=R[k],c=Cc[k]; size_t nb=r*c/8; uint8_t*in=(uint8_t*)aligned_alloc(16,nb),*out=(uint8_t*)aligned_alloc(16,nb); sym_make(in,nb,"in"); sse_trans(out,in,r,c); unsigned char*e=(unsigned char*)calloc(nb,1); for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++){ size_t q=j*r+i; e[q/8]|=(unsigned char)(gb(in,i*c+j)<<(q%8)); } sym_assert_eq(out,e,nb,"transposed matrix"); free(in); free(out); free(e);
#else
  switch(sym_choose(0,5,"op")){
  case 0: { uint64_t h=sym_u64("h"),l=sym_u64("l"),w[2]={l,h}; block b=makeBlock(h,l); sym_assert_eq(&b,w,16,"block from two halves"); break; }
  case 1: { block b=sy("b"); sym_assert(getLSB(b)==(bool)(((unsigned char*)&b)[0]&1),"lowest bit"); break; }
  case 2: { int i=(int)sym_choose(0,127,"i"); block b=sy("b"),o=set_bit(b,i); unsigned char e[16]; memcpy(e,&b,16); e[i/8]|=(unsigned char)(1<<(i%8)); sym_assert_eq(&o,e,16,"set one bit"); break; }
  case 3: { int n=length(17); int al=(int)sym_choose(0,2,"alias"); block*x=(block*)aligned_alloc(16,n?16*n:16),*y=(block*)aligned_alloc(16,n?16*n:16); if(n){ sym_make(x,16*n,"x"); sym_make(y,16*n,"y"); } unsigned char*ex=(unsigned char*)malloc(16*n+1),*ey=(unsigned char*)malloc(16*n+1); memcpy(ex,x,16*n); memcpy(ey,y,16*n); block z=sy("z"); block*r= al==0? (block*)aligned_alloc(16,n?16*n:16): al==1? x: y; xorBlocks_arr(r,x,y,n); for(int i=0;i<16*n;i++) sym_assert(((unsigned char*)r)[i]==(ex[i]^ey[i]),"xor of two arrays"); if(al!=1) sym_assert_eq(x,ex,16*n,"first operand unchanged"); if(al!=2) sym_assert_eq(y,ey,16*n,"second operand unchanged");
      memcpy(x,ex,16*n); r= al==1? x: (block*)aligned_alloc(16,n?16*n:16); xorBlocks_arr(r,x,z,n); for(int i=0;i<16*n;i++) sym_assert(((unsigned char*)r)[i]==(ex[i]^((unsigned char*)&z)[i%16]),"xor of an array and a block"); break; }
  case 4: { int n=length(17); block*x=(block*)aligned_alloc(16,n?16*n:16),*y=(block*)aligned_alloc(16,n?16*n:16); if(n){ sym_make(x,16*n,"x"); sym_make(y,16*n,"y"); } unsigned char d=0; for(int i=0;i<16*n;i++) d|=((unsigned char*)x)[i]^((unsigned char*)y)[i]; bool c=cmpBlock(x,y,n); sym_assert(c==(d==0),"array comparison"); break; }
  case 5: { block b=sy("b"),o=sigma(b); uint64_t w[2],e[2]; memcpy(w,&b,16); e[0]=w[1]; e[1]=w[0]^w[1]; sym_assert_eq(&o,e,16,"linear orthomorphism"); sym_assert(memcmp(&zero_block,"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",16)==0,"zero block"); unsigned char f[16]; memset(f,0xff,16); sym_assert_eq(&all_one_block,f,16,"all-one block"); sym_assert_eq(&select_mask[0],&zero_block,16,"selection mask 0"); sym_assert_eq(&select_mask[1],f,16,"selection mask 1"); break; } }
#endif
  sym_reach("end"); }
