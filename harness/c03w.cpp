// C03, widths beyond a machine word: operands with symbolic bits spread over fixed patterns, against bit-by-bit references.
#include "ints.h"
typedef std::vector<unsigned char> V;
static Integer mkV(const V&v){ Integer r; r.bits.resize(v.size()); for(size_t i=0;i<v.size();i++) r.bits[i].bit=vb_mk(v[i]); return r; }
static V pat(int w,int p){ V v((size_t)w,0); uint32_t x=0x9e3779b9u*(uint32_t)(p+1); for(int i=0;i<w;i++){ x=x*1664525u+1013904223u; v[i]= p==0? 0: p==1? 1: p==2? (x>>16)&1: (i==w/2); } return v; }
// n symbolic bits: the lowest, the highest and others evenly between
static void spread(V&v,int n,const char*nm){ int w=(int)v.size(); std::vector<unsigned char> s((size_t)n); sym_bools(s.data(),(size_t)n,nm); for(int k=0;k<n;k++) v[(size_t)((long)k*(w-1)/(n-1))]=s[k]; }
static V add(const V&a,const V&b,int c){ V r(a.size()); for(size_t i=0;i<a.size();i++){ r[i]=a[i]^b[i]^c; c^=(a[i]^c)&(b[i]^c); } return r; }
static V neg(const V&a){ V n(a),z(a.size(),0); for(auto&x:n) x^=1; return add(z,n,1); }
static V mux(int c,const V&t,const V&f){ V r(t); for(size_t i=0;i<t.size();i++) r[i]= c? t[i]: f[i]; return r; }
static V mul(const V&a,const V&b){ V s(a.size(),0); for(size_t i=0;i<b.size();i++){ V t(a.size(),0); for(size_t k=i;k<a.size();k++) t[k]=a[k-i]&b[i]; s=add(s,t,0); } return s; }
// restoring division, the remainder shifted in one bit at a time
static void udiv(const V&a,const V&b,V&q,V&r){ size_t w=a.size(); q=V(w,0); r=V(w+1,0); V be(b); be.push_back(0); for(size_t i=w;i-->0;){ for(size_t k=w;k>0;k--) r[k]=r[k-1]; r[0]=a[i]; V nb(be); for(auto&x:nb) x^=1; V d=add(r,nb,1); int ge=!d[w]; q[i]=(unsigned char)ge; r=mux(ge,d,r); } r.pop_back(); }
static void same(const Integer&x,const V&e,const char*what){ sym_assert(x.size()==e.size(),"result width"); unsigned char d=0; for(size_t i=0;i<e.size()&&i<x.size();i++) d|=(unsigned char)vb_val(x.bits[i].bit)^e[i]; sym_assert(!d,what); }
#if OP==2
// long exponents: fixed base and modulus, exponent bits free in a few places
extern "C" void harness(){ vb_setup(); static const int ws[]={WS},ps[]={PS}; int w=ws[sym_choose(0,sizeof(ws)/sizeof(ws[0])-1,"w")],pw=ps[sym_choose(0,sizeof(ps)/sizeof(ps[0])-1,"pw")],k=(int)sym_choose(0,TIER(2,3),"pattern"); int h=(w-2)/2; static const uint64_t bs[]={2,0x5a7ull,0x2345678bull,3},qs[]={0x7fffffffull,0x6d3ull,0x12345677ull,0x3b9aca07ull};
  uint64_t q=(qs[k]&msk(h))|1; if(q<3) q=3; uint64_t a=(bs[k]&msk(h))%q; V pv=pat(pw,k==0?0:2); spread(pv,FREE,"p"); Integer A=mkI(w,a),Q=mkI(w,q),P=mkV(pv); Integer R=A.modExp(P,Q);
  // all values the free exponent bits can select
  uint64_t e=1,base=a; for(int i=0;i<pw;i++){ uint64_t t=(uint64_t)((unsigned __int128)e*base%q); e= pv[i]? t: e; base=(uint64_t)((unsigned __int128)base*base%q); }
  sym_assert(R.size()==(size_t)w&&val(R)==e,"modular power"); sym_assert(val(A)==a&&val(Q)==q,"operands unchanged"); same(P,pv,"operands unchanged"); sym_reach("end"); }
#else
extern "C" void harness(){ vb_setup(); static const int ws[]={WS}; int w=ws[sym_choose(0,sizeof(ws)/sizeof(ws[0])-1,"w")]; int pa=(int)sym_choose(0,TIER(2,3),"pattern_a"),pb=(int)sym_choose(0,TIER(2,3),"pattern_b");
  V a=pat(w,pa),b=pat(w,pb);
#if OP==0
  spread(a,7,"a"); spread(b,5,"b"); Integer A=mkV(a),B=mkV(b); same(A*B,mul(a,b),"product modulo 2^w");
#else
  spread(a,6,"a"); spread(b,4,"b"); { unsigned char nz=0; for(auto x:b) nz|=x; sym_assume(nz); } Integer A=mkV(a),B=mkV(b); int na=a[w-1],nb=b[w-1]; V q,r; udiv(mux(na,neg(a),a),mux(nb,neg(b),b),q,r); same(A/B,mux(na^nb,neg(q),q),"quotient truncates toward zero"); same(A%B,mux(na,neg(r),r),"remainder has the dividend's sign");
#endif
  same(A,a,"operand unchanged"); same(B,b,"operand unchanged"); sym_reach("end"); }
#endif
