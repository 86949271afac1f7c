// C08: multiplication, division, square and square root of secret floats against references on bit patterns.
#include "floats.h"
// operand of a class: 0 normal, 1 exponent zero, 2 infinite
static uint32_t operand(const char*n,int cls){ uint32_t v=sym_u32(n); if(cls==1) return v&0x807fffffu; if(cls==2) return (v&0x80000000u)|0x7f800000u; sym_assume(fr_e(v)!=0&&fr_e(v)!=255); return v; }
extern "C" void harness(){ vb_setup(); bool nan; uint32_t w,r;
  // an earlier use with other values must not matter
  { Float u=fl_mk(0x40490fdb),v=fl_mk(0xc1b5c28f),t= OP==0? u*v: OP==1? u/v: OP==2? u.sqr(): u.sqrt(); }
#if OP<2
  int ca=(int)sym_choose(0,2,"class_a"),cb=(int)sym_choose(0,2,"class_b"); uint32_t a=operand("a",ca),b=operand("b",cb); Float x=fl_mk(a),y=fl_mk(b); w= OP==0? fr_mul(a,b,&nan): fr_div(a,b,&nan); if(sym_is_const(nan)&&nan){ sym_reach("end"); return; } sym_assume(!nan); r=fl_bits(OP==0? x*y: x/y); sym_assert(r==w,OP==0? "product rounds to nearest even":"quotient rounds to nearest even"); sym_assert(fl_bits(y)==b,"second operand unchanged");
#elif OP==2
  int ca=(int)sym_choose(0,2,"class_a"); uint32_t a=operand("a",ca); Float x=fl_mk(a); w=fr_sqr(a,&nan); r=fl_bits(x.sqr()); sym_assert(r==w,"square rounds to nearest even");
#else
  int c=(int)sym_choose(0,5,"class"); uint32_t a=sym_u32("a"); if(c==0){ a|=0x80000000u; sym_assume(a!=0x80000000u&&!fr_nan(a)); } else if(c==1) a&=0x80000000u; else if(c==2) a=0x7f800000u; else if(c==3){ a&=0x7fffffu; sym_assume(a!=0); } else { a=(a&0x7f7fffffu)|((uint32_t)(c-4)<<23); sym_assume(fr_e(a)!=0&&fr_e(a)!=255); }
  Float x=fl_mk(a); r=fl_bits(x.sqrt()); if(c==0) sym_assert(fr_nan(r),"the square root of a negative operand is NaN"); else { w= c<3? a: fr_sqrt_core(a); sym_assert(r==w,"square root rounds to nearest even"); }
#endif
  sym_assert(fl_bits(x)==a,"operand unchanged"); sym_reach("end"); }
