// C03: multiplication, division, remainder, modular exponentiation.
#include "ints.h"
#ifndef OP
#define OP 0
#endif
// schoolbook restoring division on w-bit unsigned values
static void ref_udiv(int w,uint64_t a,uint64_t b,uint64_t&q,uint64_t&r){ uint64_t rem=a; q=0; for(int i=w-1;i>=0;i--){ uint64_t t=rem>>i; bool ge=t>=b; uint64_t low=i?rem&((1ULL<<i)-1):0; rem= ge? (((t-b)<<i)|low)&msk(w): rem; q|=(uint64_t)ge<<i; } r=rem; }
extern "C" void harness(){ vb_setup();
  static const int ws[]={WS}; int w=ws[sym_choose(0,sizeof(ws)/sizeof(ws[0])-1,"w")]; uint64_t m=msk(w);
  // an earlier use with other values must not matter
  { Integer U=mkI(w,0x5a96c3f00d1e2b47ull),V=mkI(w,0xc13579bdf02468afull),R; R= OP==0? U*V: OP==1? U/V: U.modExp(mkI(2,2),mkI(w,3)); if(OP==1) R=U%V; }
#if OP==0
  uint64_t a,b; Integer A=symI(w,"a",a),B=symI(w,"b",b); Integer P=A*B; sym_assert(P.size()==(size_t)w&&val(P)==((a*b)&m),"product modulo 2^w"); if(w<=6){ sym_assert(val(A*A)==((a*a)&m),"square"); }
  sym_assert(val(A)==a&&val(B)==b,"operands unchanged");
#elif OP==1
  uint64_t a,b; Integer A=symI(w,"a",a),B=symI(w,"b",b); sym_assume(b!=0); Integer Q=A/B,R=A%B;
  bool na=sx(w,a)<0,nb=sx(w,b)<0; uint64_t ua=(na?0-a:a)&m,ub=(nb?0-b:b)&m,q,r; ref_udiv(w,ua,ub,q,r); uint64_t sq=(na!=nb?0-q:q)&m, sr=(na?0-r:r)&m;
  sym_assert(Q.size()==(size_t)w&&val(Q)==sq,"quotient truncates toward zero"); sym_assert(R.size()==(size_t)w&&val(R)==sr,"remainder has the dividend's sign");
  sym_assert(val(A)==a&&val(B)==b,"operands unchanged");
#else
  // the square of the modulus fits in the signed width
  static const int ps[]={PS}; int pw=ps[sym_choose(0,sizeof(ps)/sizeof(ps[0])-1,"pw")];
  uint64_t a,p,q; Integer A=symI(w,"a",a),P=symI(pw,"p",p),Q=symI(w,"q",q); sym_assume(sx(w,a)>=0&&sx(w,q)>0&&q*q<(1ULL<<(w-1))&&a*a<(1ULL<<(w-1)));
  sym_assume(q>1||p!=0); // a zero exponent gives the unreduced 1
  Integer R=A.modExp(P,Q); uint64_t e=1,base=a; for(int i=0;i<pw;i++){ if((p>>i)&1) e=(e*base)%q; base=(base*base)%q; }
  sym_assert(val(R)==e,"modular power"); sym_assert(val(A)==a&&val(P)==p&&val(Q)==q,"operands unchanged");
#endif
  sym_reach("end"); }
