#include "ints.h"
#ifdef THOROUGH
static const int ws[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,20,24,31,32,33,40,48,63,64};
#else
static const int ws[]={1,2,3,4,5,7,8,9,15,16,17,31,32,33,64};
#endif
extern "C" void harness(){ vb_setup();
  int w=ws[sym_choose(0,sizeof(ws)/sizeof(ws[0])-1,"w")];
  // an earlier use with other values must not matter
  { Integer U=mkI(w,0x5a96c3f00d1e2b47ull),V=mkI(w,0xc13579bdf02468aeull); Integer R=U+V; R=U-V; R=-U; R=R.abs(); Bit t=U>=V; t=U<V; t=U<=V; t=U>V; t=U==V; t=U!=V; }
  uint64_t a,b; Integer A=symI(w,"a",a),B=symI(w,"b",b);
  sym_assert(val(A+B)==((a+b)&msk(w)),"addition"); sym_assert(val(A-B)==((a-b)&msk(w)),"subtraction");
  sym_assert(val(-A)==((0-a)&msk(w)),"negation"); sym_assert(val(A.abs())==((sx(w,a)<0?0-a:a)&msk(w)),"absolute value");
  sym_assert((A>=B).reveal<bool>()==(sx(w,a)>=sx(w,b)),"greater or equal"); sym_assert((A<B).reveal<bool>()==(sx(w,a)<sx(w,b)),"less than");
  sym_assert((A<=B).reveal<bool>()==(sx(w,a)<=sx(w,b)),"less or equal"); sym_assert((A>B).reveal<bool>()==(sx(w,a)>sx(w,b)),"greater than");
  sym_assert((A==B).reveal<bool>()==(a==b),"equality"); sym_assert((A!=B).reveal<bool>()==(a!=b),"inequality");
  sym_assert(A.geq(B).reveal<bool>()==(sx(w,a)>=sx(w,b))&&A.equal(B).reveal<bool>()==(a==b),"geq and equal");
  sym_assert(val(A+A)==((a+a)&msk(w))&&val(A-A)==0&&(A==A).reveal<bool>()&&(A>=A).reveal<bool>()&&!(A<A).reveal<bool>(),"operand with itself");
  { Integer C=(A-B)+B; sym_assert(val(C)==a,"composed add and subtract"); Integer X=A; X=X+B; X=-X; sym_assert(val(X)==((0-a-b)&msk(w)),"assigned results"); }
  sym_assert(val(A)==a&&val(B)==b,"operands unchanged");
  sym_assert((A+B).size()==(size_t)w&&(A-B).size()==(size_t)w&&(-A).size()==(size_t)w&&A.abs().size()==(size_t)w,"result width");
  sym_reach("end"); }
