// C10: elementary functions of secret floats.  KF: 0 sin(pi x), 1 cos(pi x), 2 exp, 3 exp2, 4 ln, 5 log2.
// Reference under the executor: a recorded gate list whose accuracy on every operand is established by tools/accuracy.cpp
// (same predicate as facc.h).  Natively (replay) a counterexample counts only if the result is not accurate (facc.h).
#include "floats.h"
#define GOLD_K KF
#include "golden.h"
#include "facc.h"
static Float apply(const Float&x){
#if KF==0
  return x.sin();
#elif KF==1
  return x.cos();
#elif KF==2
  return x.exp();
#elif KF==3
  return x.exp2();
#elif KF==4
  return x.ln();
#else
  return x.log2();
#endif
}
static uint32_t real(uint32_t a){ Float x=fl_mk(a); Float y=apply(x); sym_assert(fl_bits(x)==a,"operand unchanged"); return fl_bits(y); }
static uint32_t golden(uint32_t x){ int ng=gold_n(KF),no= KF==2||KF==3? 31: 32; static unsigned char W[60000]; for(int i=0;i<32;i++) W[i]=(x>>i)&1; const gold_t*g=gold_g(KF); for(int k=0;k<ng;k++){ int a=g[k].a/3,t=g[k].a%3; W[32+k]= t==0? W[a]&W[g[k].b]: t==1? W[a]^W[g[k].b]: W[a]^1; } uint32_t r=0; for(int i=0;i<no;i++) r|=(uint32_t)W[32+ng-no+i]<<i; return r; }
static int64_t ord(uint32_t v){ int64_t m=v&0x7fffffff; return (v>>31)? -m: m; }
static int64_t fix(uint32_t v){ uint32_t e=(v>>23)&255; int64_t m= e? (int64_t)((v&0x7fffff)|0x800000): 0; int s=(int)127+23-(int)e; // value*2^28, capped at 64
  uint32_t up=e-122,dn=122-e; int64_t r= e>133? ((int64_t)1<<34): e>=122? m<<(up&15): dn<32? m>>(dn&31): 0; (void)s; return (v>>31)? -r: r; }
static bool isnan32(uint32_t v){ return (v&0x7f800000u)==0x7f800000u&&(v&0x7fffff); }
extern "C" void harness(){ vb_setup(); real(0x40490fdb); // an earlier use with another value must not matter
#if PART==0
  // against the recorded reference: first the differences no accurate result can have, then smaller ones
  uint32_t a=sym_u32("a"); sym_assume(!fr_nan(a)); uint32_t y=real(a); const char*l0="a result outside the accuracy bound (large error)",*l1="a result outside the accuracy bound",*l2="a result outside the accuracy bound (small error)",*l3="a result outside the accuracy bound (any change)";
  if(sym_engine()){ uint32_t w=golden(a);
#if KF<2
    sym_assume((a&0x7f800000u)!=0x7f800000u); int64_t d=fix(y)-fix(w); if(d<0) d=-d; sym_assert(d<=((int64_t)1<<22),l0); sym_assert(d<=560,l1); sym_assert(d<=280,l2); sym_assert(y==w,l3);
#else
    bool care= KF>=4? !(a>>31): true; int64_t d=ord(y)-ord(w); if(d<0) d=-d; bool near=d<=4;
#if KF>=4
    int64_t q=fix(y)-fix(w); if(q<0) q=-q; near=near||(q<=108&&(w&0x7f800000u)!=0x7f800000u&&(y&0x7f800000u)!=0x7f800000u);
#endif
    sym_assert(!care||d<=(1<<20),l0); sym_assert(!care||near,l1); sym_assert(!care||d<=2,l2); sym_assert(!care||y==w,l3);
#endif
  } else { sym_assert(fa_ok(KF,a,y),l0); sym_assert(fa_ok(KF,a,y),l1); sym_assert(fa_ok(KF,a,y),l2); sym_assert(fa_ok(KF,a,y),l3); }
#elif PART==1
  // laws decided on the code itself, without the recorded reference
  uint32_t a=sym_u32("a"); sym_assume(!fr_nan(a)&&!fr_inf(a));
#if KF<2
  { uint32_t y=real(a),z=real(a^0x80000000u); sym_assert(!isnan32(y)&&(y&0x7fffffff)<=0x3f800000,"within -1..1"); sym_assert(z==(KF==0? y^0x80000000u: y),KF==0?"odd function":"even function"); }
  // multiples of one half
  { uint32_t e=(a>>23)&255,m=(a&0x7fffff)|0x800000; int sh=(int)e-126; // |a| = m*2^(e-150); in halves: m*2^(e-149) = m >> (149-e)
    uint32_t s=149-e; bool half= e<126? false: e>=150? true: s==0? true: (s<24&&(m&((1u<<(s&31))-1))==0); uint32_t h= e>=152? 0: e>=150? (m<<(e-149))&3: s<24? (m>>(s&31))&3: 0; (void)sh;
    sym_assume(half||e==0); if(e==0) h=0; uint32_t y=real(a); 
    uint32_t sgn=a&0x80000000u; uint32_t w= KF==0? ((h&1)==0? sgn: h==1? 0x3f800000u|sgn: 0xbf800000u^sgn): ((h&1)? 0: h==0? 0x3f800000u: 0xbf800000u); 
    sym_assert(((y^w)&((h&1)==(KF==0?0u:1u)? 0x7fffffffu: 0xffffffffu))==0,"exact at multiples of one half"); }
#elif KF==2
  { uint32_t y=real(a); sym_assert(!(y>>31)&&!isnan32(y),"never negative and never a NaN"); sym_assert(!((a&0x7f800000u)==0)||y==0x3f800000u,"exp(0) is 1"); sym_assert(!((a>>31)==0&&(a&0x7fffffff)>=0x42b17219u)||y==0x7f800000u,"large operands give infinity"); sym_assert(!((a>>31)&&(a&0x7fffffff)>=0x42aeac51u)||y==0,"very negative operands give zero"); sym_assert(!(a>>31)||y<=0x3f800000u,"at most 1 for negative operands"); sym_assert((a>>31)||y>=0x3f800000u,"at least 1 for positive operands"); }
#elif KF==3
  { uint32_t y=real(a); sym_assert(!(y>>31)&&!isnan32(y),"never negative and never a NaN"); sym_assert(!((a>>31)==0&&(a&0x7fffffff)>=0x43000000u)||y==0x7f800000u,"large operands give infinity"); sym_assert(!((a>>31)&&(a&0x7fffffff)>=0x42fc0001u)||y==0||y==0x00800000u,"very negative operands give zero"); sym_assert(!(a>>31)||y<=0x3f800000u,"at most 1 for negative operands"); sym_assert((a>>31)||y>=0x3f800000u,"at least 1 for positive operands");
    // integers: fixed point a = n
    int n=(int)(sym_u8("n"))-126; sym_assume(n<=127); uint32_t an= n<0? -n: n; uint32_t k=0; for(int i=0;i<8;i++) if((an>>i)&1) k=i; uint32_t fb= an==0? 0: ((n<0)?0x80000000u:0)|((127+k)<<23)|((an<<(23-k))&0x7fffff); uint32_t p=real(fb); sym_assert(p==(uint32_t)(n+127)<<23,"powers of two are exact"); }
#else
  { sym_assume(!(a>>31)); uint32_t y=real(a); sym_assert(!isnan32(y),"never a NaN for positive operands"); sym_assert(((a&0x7f800000u)!=0)||y==0xff800000u,"logarithm of zero is minus infinity"); sym_assert((a&0x7f800000u)==0||(y&0x7f800000u)!=0x7f800000u,"finite for positive normal operands"); sym_assert(a!=0x3f800000u||y==0,"logarithm of one is zero"); sym_assert((a<0x3f800000u)||(y>>31)==0,"not negative above one"); sym_assert((a>=0x3f800000u)||(y>>31)==1,"negative below one");
    uint32_t lim= KF==4? 0x42b17218u: 0x43000000u,lo= KF==4? 0x42aeac50u: 0x42fc0000u; sym_assert((a&0x7f800000u)==0||(y>>31)||y<=lim,"bounded above"); sym_assert((a&0x7f800000u)==0||!(y>>31)||(y&0x7fffffff)<=lo,"bounded below");
#if KF==5
    uint32_t e=sym_u8("e"); sym_assume(e>=1&&e<=254); int n=(int)e-127; uint32_t an= n<0? -n: n; uint32_t k=0; for(int i=0;i<8;i++) if((an>>i)&1) k=i; uint32_t fb= an==0? 0: ((n<0)?0x80000000u:0)|((127+k)<<23)|((an<<(23-k))&0x7fffff); sym_assert(real(e<<23)==fb,"logarithms of powers of two are exact");
#endif
  }
#endif
#endif
  sym_reach("end"); }
