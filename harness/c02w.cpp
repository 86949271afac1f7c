// Integers wider than a machine word, against bit-by-bit references.
#include "ints.h"
#include "emp-tool/circuits/swappable.h"
typedef std::vector<unsigned char> V;
static Integer symW(int w,const char*n,V&v){ v.resize((size_t)w); sym_bools(v.data(),(size_t)w,n); Integer r; r.bits.resize((size_t)w); for(int i=0;i<w;i++) r.bits[i].bit=vb_mk(v[i]); return r; }
static void same(const Integer&x,const V&e,const char*what){ sym_assert(x.size()==e.size(),"result width"); for(size_t i=0;i<e.size()&&i<x.size();i++) sym_assert(vb_val(x.bits[i].bit)==e[i],what); }
static V add(const V&a,const V&b,int c){ V r(a.size()); for(size_t i=0;i<a.size();i++){ r[i]=a[i]^b[i]^c; c=(a[i]&b[i])|(c&(a[i]^b[i])); } return r; }
static V inv(const V&a){ V r(a); for(auto&x:r) x^=1; return r; }
static int less(const V&a,const V&b){ int l=0; for(size_t i=0;i<a.size();i++){ int x=a[i],y=b[i]; if(i+1==a.size()){ x^=1; y^=1; } l=(x^y)? y: l; } return l; } // the sign bit weighs the other way round
static int eq(const V&a,const V&b){ int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return !d; }
static const int ws[]={65,66,96,100,127,128,129,192,256,257,384,512,513};
extern "C" void harness(){ vb_setup(); int w=ws[sym_choose(0,12,"w")]; V a,b; Integer A=symW(w,"a",a),B=symW(w,"b",b); V z((size_t)w,0);
#if PART==0
  same(A+B,add(a,b,0),"addition"); same(A-B,add(a,inv(b),1),"subtraction"); same(-A,add(z,inv(a),1),"negation"); { V n=add(z,inv(a),1),e(a); for(int i=0;i<w;i++) e[i]= a[w-1]? n[i]: a[i]; same(A.abs(),e,"absolute value"); }
  sym_assert((A<B).reveal<bool>()==(bool)less(a,b)&&(A>B).reveal<bool>()==(bool)less(b,a),"less and greater"); sym_assert((A>=B).reveal<bool>()==!less(a,b)&&(A<=B).reveal<bool>()==!less(b,a),"greater or equal, less or equal"); sym_assert((A==B).reveal<bool>()==(bool)eq(a,b)&&(A!=B).reveal<bool>()==!eq(a,b),"equality and inequality");
#else
  int part=(int)sym_choose(0,4,"part");
  if(part==0){ static const int sh[]={0,1,7,8,31,32,33,63,64,65,66,95,96,97,127,128,129,191,192,255,256,257,1000}; for(int s:sh){ V l(z),r(z); for(int i=0;i<w;i++){ if(i-s>=0) l[i]=a[i-s]; if(i+s<w) r[i]=a[i+s]; } same(A<<(size_t)s,l,"public left shift"); same(A>>(size_t)s,r,"public right shift"); } }
  else if(part==1){ int sw=(int)sym_choose(8,10,"amount_width"); V s; Integer S=symW(sw,"s",s); V l(a),r(a); for(int k=0;k<sw;k++){ V l2(l),r2(r); int d=1<<k; for(int i=0;i<w;i++){ l2[i]= s[k]? (unsigned char)(i-d>=0? l[i-d]:0): l[i]; r2[i]= s[k]? (unsigned char)(i+d<w? r[i+d]:0): r[i]; } l=l2; r=r2; } int v=0; for(int k=0;k<sw-1;k++) v+=s[k]<<k; bool ok=!s[sw-1]&&v<w; Integer L=A<<S,R=A>>S; sym_assert(L.size()==(size_t)w&&R.size()==(size_t)w,"result width"); unsigned char dl=0,dr=0; for(int i=0;i<w;i++){ dl|=(unsigned char)vb_val(L.bits[i].bit)^l[i]; dr|=(unsigned char)vb_val(R.bits[i].bit)^r[i]; } sym_assert(!ok||!dl,"secret left shift"); sym_assert(!ok||!dr,"secret right shift"); }
  else if(part==2){ V e(z),o(z),x(z); for(int i=0;i<w;i++){ e[i]=a[i]&b[i]; o[i]=a[i]|b[i]; x[i]=a[i]^b[i]; } same(A&B,e,"and"); same(A|B,o,"or"); same(A^B,x,"xor"); { Integer X=A; X^=B; same(X,x,"in-place xor"); } bool c=sym_bool("c"); Bit S(c,ALICE); V t(z); for(int i=0;i<w;i++) t[i]=c?b[i]:a[i]; V f(z); for(int i=0;i<w;i++) f[i]=c?a[i]:b[i]; same(A.select(S,B),t,"select"); same(If(S,A,B),f,"If"); { Integer X=A,Y=B; emp::swap(S,X,Y); same(X,t,"swap"); same(Y,f,"swap"); } }
  else if(part==3){ int lz=w; for(int i=0;i<w;i++) lz= a[i]? w-1-i: lz; sym_assert(val(A.leading_zeros())==(uint64_t)lz,"leading zeros"); std::vector<int> t(256); for(int i=0;i<256;i++) t[i]= i<w? a[i]:0; for(int n=256;n>1;n/=2) for(int i=0;i<n/2;i++) t[i]=t[2*i]+t[2*i+1]; if(w<=256) sym_assert(val(A.hamming_weight())==(uint64_t)t[0],"population count");
    else { int fill=(int)sym_choose(0,1,"fill"); V h((size_t)w,(unsigned char)fill); int e=0; for(int k=0;k<10;k++){ size_t i=(size_t)(k*(w-1)/9); h[i]=a[i]; } Integer H; H.bits.resize((size_t)w); for(int i=0;i<w;i++) H.bits[i].bit=vb_mk(h[i]); for(auto x:h) e+=x; sym_assert(val(H.hamming_weight())==(uint64_t)e,"population count"); } }
  else { static const int ls[]={1,32,63,64,65,90,128,200,256,300}; for(int l:ls) for(int sg=0;sg<2;sg++){ Integer X=A; X.resize((size_t)l,sg); V e((size_t)l); for(int i=0;i<l;i++) e[i]= i<w? a[i]: sg? a[w-1]: 0; same(X,e,"resize"); } }
#endif
  same(A,a,"operand unchanged"); same(B,b,"operand unchanged"); sym_reach("end"); }
