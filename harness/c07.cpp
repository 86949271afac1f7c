// C07: addition and subtraction of secret floats against a reference on bit patterns.
#include "floats.h"
extern "C" void harness(){ vb_setup(); int op=(int)sym_choose(0,1,"op"); 
  // an earlier use with other values must not matter
  { Float u=fl_mk(0x40490fdb),v=fl_mk(0xc1b5c28f),t= op? u-v: u+v; }
  uint32_t a=sym_u32("a"),b=sym_u32("b"); sym_assume(!fr_nan(a)&&!fr_nan(b)); 
  int d=(int)sym_choose(0,60,"diff")-30; int ea=(int)fr_e(a),eb=(int)fr_e(b); if(d==-30) sym_assume(ea-eb<=-30); else if(d==30) sym_assume(ea-eb>=30); else sym_assume(ea-eb==d);
  bool nan; uint32_t w=fr_add(a,op?b^0x80000000u:b,&nan); sym_assume(!nan); Float x=fl_mk(a),y=fl_mk(b); Float z= op? x-y: x+y; uint32_t r=fl_bits(z); sym_assert(r==w, op? "subtraction rounds to nearest even":"addition rounds to nearest even"); sym_assert(fl_bits(x)==a&&fl_bits(y)==b,"operands unchanged"); sym_reach("end"); }
