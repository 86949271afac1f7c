// Reference single-precision arithmetic on bit patterns, round to nearest even. Subnormal operands count as zeros and
// subnormal results are flushed to zero (of the result's sign); NaN operands and results are outside.
#pragma once
#include <stdint.h>
#ifndef FR_LEMMA
#define FR_LEMMA(c,i) (void)0
#endif
static inline uint32_t fr_s(uint32_t x){ return x>>31; } static inline uint32_t fr_e(uint32_t x){ return (x>>23)&255; } static inline uint32_t fr_m(uint32_t x){ return x&0x7fffff; }
static inline bool fr_nan(uint32_t x){ return fr_e(x)==255&&fr_m(x)!=0; } static inline bool fr_inf(uint32_t x){ return fr_e(x)==255&&fr_m(x)==0; } static inline bool fr_zero(uint32_t x){ return fr_e(x)==0; }
// addition; nan set if the result is NaN
static inline uint32_t fr_add(uint32_t a,uint32_t b,bool*nan){ *nan=false; if(fr_nan(a)||fr_nan(b)){ *nan=true; return 0x7fc00000; } if(fr_inf(a)){ if(fr_inf(b)&&fr_s(a)!=fr_s(b)){ *nan=true; return 0x7fc00000; } return a; } if(fr_inf(b)) return b; bool za=fr_zero(a),zb=fr_zero(b); if(za&&zb) return (a&b)&0x80000000u; if(za) return b; if(zb) return a;
  if((a&0x7fffffff)<(b&0x7fffffff)){ uint32_t t=a; a=b; b=t; } int d=(int)fr_e(a)-(int)fr_e(b); uint64_t A=(uint64_t)(fr_m(a)|0x800000)<<3,B=(uint64_t)(fr_m(b)|0x800000)<<3; uint64_t st=0; if(d>=27){ st=1; B=0; } else { st=(B&((1u<<d)-1))!=0; B>>=d; } B|=st; int e=(int)fr_e(a); uint64_t R; bool sub=fr_s(a)!=fr_s(b); R= sub? A-B: A+B; if(R==0) return 0; uint32_t s=a&0x80000000u;
  if(R>>27){ R=(R>>1)|(R&1); e++; } for(int i=4;i>=0;i--){ int k=1<<i; if(!(R>>(27-k))){ R<<=k; e-=k; } }
  uint64_t q=R>>3,r=R&7; if(r>4||(r==4&&(q&1))) q++; if(q>>24){ q>>=1; e++; } if(e>=255) return s|0x7f800000u; if(e<=0) return s; return s|((uint32_t)e<<23)|(uint32_t)(q&0x7fffff); }
// product of two 24-bit numbers: partial products added in the order of a table, which is checked to use every partial product
// and every intermediate bit once, in its column; the remaining rows are added up
#include "csa_hint.h"
static inline void fr_bad(const char*w);
static inline uint64_t fr_prod(uint64_t A,uint64_t B,bool square){ static signed char colOf[1000+2*600]; static uint64_t v[1000+2*600]; for(int i=0;i<2200;i++) colOf[i]=-1;
  for(int i=0;i<24;i++) for(int j=0;j<24;j++){ if(square){ if(j>i) continue; colOf[i*24+j]=(signed char)(i==j? 2*i: i+j+1); } else colOf[i*24+j]=(signed char)(i+j); v[i*24+j]=(A>>i)&(B>>j)&1; }
  int n= square? (int)(sizeof csa_sq/sizeof csa_sq[0]): (int)(sizeof csa_mul/sizeof csa_mul[0]);
  for(int k=0;k<n;k++){ const short*t= square? csa_sq[k]: csa_mul[k]; int c=t[0]; uint64_t s=0,m=0; for(int q=1;q<4;q++) if(t[q]>=0){ int x=t[q]; if(colOf[x]!=c) fr_bad("schedule"); colOf[x]=-1; m|=s&v[x]; m|=0; if(q==3) m=(v[t[1]]&v[t[2]])|(v[x]&(v[t[1]]^v[t[2]])); s^=v[x]; } v[1000+2*k]=s; colOf[1000+2*k]=(signed char)c; v[1001+2*k]=m; colOf[1001+2*k]=(signed char)(c+1); }
  uint64_t row[24]; int nr=0; for(int i=0;i<24;i++) row[i]=0; for(int c=0;c<50;c++){ int r=0; for(int x=0;x<1000+2*n;x++) if(colOf[x]==c){ row[r]|=v[x]<<c; r++; } if(r>nr) nr=r; }
  uint64_t P=row[0]; for(int i=1;i<nr;i++) P+=row[i]; return P; }
static inline uint32_t fr_mul(uint32_t a,uint32_t b,bool*nan){ *nan=false; uint32_t s=(a^b)&0x80000000u; if(fr_nan(a)||fr_nan(b)){ *nan=true; return 0x7fc00000; } if(fr_inf(a)||fr_inf(b)){ if(fr_zero(a)||fr_zero(b)){ *nan=true; return 0x7fc00000; } return s|0x7f800000u; } if(fr_zero(a)||fr_zero(b)) return s;
  uint64_t P=fr_prod(fr_m(a)|((uint64_t)(fr_e(a)!=0)<<23),fr_m(b)|((uint64_t)(fr_e(b)!=0)<<23),false); int e=(int)fr_e(a)+(int)fr_e(b)-127; if(P>>47) e++; else P<<=1; uint64_t q=P>>24,r=P&0xffffff; if(r>0x800000||(r==0x800000&&(q&1))) q++; if(q>>24){ q>>=1; e++; } if(e>=255) return s|0x7f800000u; if(e<=0) return s; return s|((uint32_t)e<<23)|(uint32_t)(q&0x7fffff); }
static inline uint32_t fr_div(uint32_t a,uint32_t b,bool*nan){ *nan=false; uint32_t s=(a^b)&0x80000000u; if(fr_nan(a)||fr_nan(b)){ *nan=true; return 0x7fc00000; } if(fr_inf(a)){ if(fr_inf(b)){ *nan=true; return 0x7fc00000; } return s|0x7f800000u; } if(fr_inf(b)) return s; if(fr_zero(b)){ if(fr_zero(a)){ *nan=true; return 0x7fc00000; } return s|0x7f800000u; } if(fr_zero(a)) return s;
  // plain restoring division, then normalisation by the first quotient bit
  uint64_t A=fr_m(a)|((uint64_t)(fr_e(a)!=0)<<23),B=fr_m(b)|((uint64_t)(fr_e(b)!=0)<<23); int e=(int)fr_e(a)-(int)fr_e(b)+127; uint64_t Q=0,R=A; for(int i=0;i<27;i++){ Q<<=1; if(R>=B){ R-=B; Q|=1; } FR_LEMMA(R<B,i); R<<=1; } uint64_t st=R!=0; if(Q>>26) st|=Q&1; else { e--; Q<<=1; }
  uint64_t q=Q>>3,r=((Q>>1)&3)<<1|st; if(r>4||(r==4&&(q&1))) q++; if(q>>24){ q>>=1; e++; } if(e>=255) return s|0x7f800000u; if(e<=0) return s; return s|((uint32_t)e<<23)|(uint32_t)(q&0x7fffff); }
static inline bool fr_eq(uint32_t a,uint32_t b){ return a==b||(((a|b)&0x7fffffff)==0); }
static inline bool fr_lt(uint32_t a,uint32_t b){ if(((a|b)&0x7fffffff)==0) return false; if(fr_s(a)!=fr_s(b)) return fr_s(a); return fr_s(a)? (a&0x7fffffff)>(b&0x7fffffff): (a&0x7fffffff)<(b&0x7fffffff); }
// square, fully IEEE (subnormal results included; a subnormal operand's square is below half the smallest subnormal)
static inline uint32_t fr_sqr(uint32_t a,bool*nan){ *nan=false; if(fr_nan(a)){ *nan=true; return 0x7fc00000; } if(fr_inf(a)) return 0x7f800000u; if(fr_zero(a)) return 0; uint64_t m=fr_m(a)|((uint64_t)(fr_e(a)!=0)<<23); uint64_t P=fr_prod(m,m,true); int e=2*(int)fr_e(a)-127; if(P>>47){ e++; P=(P>>1)|(P&1); } // P in [2^46,2^47)
  if(e>=255) return 0x7f800000u; if(e<=0){ int k=1-e; if(k>26) return 0; uint64_t st=(P&(((uint64_t)1<<k)-1))!=0; P=(P>>k)|st; uint64_t q=P>>23,r=P&0x7fffff; if(r>0x400000||(r==0x400000&&(q&1))) q++; return (uint32_t)q; }
  uint64_t q=P>>23,r=P&0x7fffff; if(r>0x400000||(r==0x400000&&(q&1))) q++; if(q>>24){ q>>=1; e++; } if(e>=255) return 0x7f800000u; return ((uint32_t)e<<23)|(uint32_t)(q&0x7fffff); }
// square root, fully IEEE for nonnegative operands; core: positive finite nonzero operand
static inline uint32_t fr_sqrt_core(uint32_t a){ int e=(int)fr_e(a); uint64_t m=fr_m(a)|((uint64_t)(e!=0)<<23); if(e==0) e=1; for(int i=4;i>=0;i--){ int k=1<<i; if(!(m>>(24-k))){ m<<=k; e-=k; } }
  int u=e-127; uint64_t X=m<<(u&1); int h=(u-(u&1))/2; // value = X*2^-23 * 4^h, X in [2^23,2^25)
  // 25 bits of root, the last one for rounding: floor(sqrt(X<<25))
  uint64_t N=X<<25,R=0,Q=0; for(int i=24;i>=0;i--){ R=(R<<2)|((N>>(2*i))&3); uint64_t T=(Q<<2)|1; Q<<=1; if(R>=T){ R-=T; Q|=1; } FR_LEMMA(R<=2*Q,i); R&=((uint64_t)1<<(26-i))-1; /* no change: R<=2Q<2^(26-i) */ } uint64_t q=Q>>1,g=Q&1; if(g&&(R!=0||(q&1))) q++; int oe=h+127; if(q>>24){ q>>=1; oe++; } return ((uint32_t)oe<<23)|(uint32_t)(q&0x7fffff); }
