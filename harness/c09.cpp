// C09: comparisons, sign operations, selection, bit operators, input and reveal of secret floats.
#include "floats.h"
#include <string>
static uint64_t wide(uint32_t v){ uint64_t s=(uint64_t)(v>>31)<<63; uint32_t e=(v>>23)&255; uint64_t m=v&0x7fffff; if(e==255) return s|0x7ff0000000000000ull|(m<<29); if(e==0){ if(m==0) return s; int k=0; for(int i=0;i<23;i++) if(!((m<<k)>>23)) k++; m=(m<<k)&0x7fffff; return s|((uint64_t)(897-k)<<52)|(m<<29); } return s|((uint64_t)(e+896)<<52)|(m<<29); }
static float asf(uint32_t v){ float f; memcpy(&f,&v,4); return f; }
extern "C" void harness(){ vb_setup();
  // an earlier use with other values must not matter
  { Float u=fl_mk(0x40490fdb),v=fl_mk(0xc1b5c28f),t; Bit s=u.equal(v); s=u.less_than(v); s=u.less_equal(v); t=u.abs(); t=-u; t=u^v; t=u&v; t=u.If(s,v); }
#if PART==0
  // comparisons: any operands that are not NaN; subnormal operands count as zeros
  uint32_t a=sym_u32("a"),b=sym_u32("b"); sym_assume(!fr_nan(a)&&!fr_nan(b)); uint32_t za= fr_e(a)==0? a&0x80000000u: a,zb= fr_e(b)==0? b&0x80000000u: b;
  Float x=fl_mk(a),y=fl_mk(b); sym_assert(vb_val(x.equal(y).bit)==fr_eq(za,zb),"equality agrees with IEEE"); sym_assert(vb_val(x.less_than(y).bit)==fr_lt(za,zb),"less-than agrees with IEEE"); sym_assert(vb_val(x.less_equal(y).bit)==(fr_lt(za,zb)||fr_eq(za,zb)),"less-or-equal agrees with IEEE");
  sym_assert(vb_val(y.less_than(x).bit)==fr_lt(zb,za),"less-than agrees with IEEE"); sym_assert(vb_val(x.equal(x).bit)==1,"a number equals itself"); sym_assert(fl_bits(x)==a&&fl_bits(y)==b,"operands unchanged");
#elif PART==1
  uint32_t a=sym_u32("a"),b=sym_u32("b"),c=sym_u32("c")&1; Float x=fl_mk(a),y=fl_mk(b); Bit s; s.bit=vb_mk(c);
  sym_assert(fl_bits(x.abs())==(a&0x7fffffffu),"abs clears the sign only"); sym_assert(fl_bits(-x)==(a^0x80000000u),"negation flips the sign only");
  sym_assert(fl_bits(x.If(s,y))==(c?b:a),"selection returns the argument when the condition is true"); sym_assert(fl_bits(x^y)==(a^b),"exclusive or"); sym_assert(fl_bits(x&y)==(a&b),"and"); 
  sym_assert(fl_bits(x)==a&&fl_bits(y)==b,"operands unchanged"); Float z=x; Float w=(z^=y); sym_assert(fl_bits(z)==(a^b)&&fl_bits(w)==(a^b),"exclusive or in place"); Float v=x; v=y; sym_assert(fl_bits(v)==b,"assignment copies"); 
  Float p=x,q=y; swap(s,p,q); sym_assert(fl_bits(p)==(c?b:a)&&fl_bits(q)==(c?a:b),"conditional swap"); { Float u=fl_mk(a); Float t(std::move(u)); sym_assert(fl_bits(t)==a,"moving keeps the value"); }
  for(int i=0;i<32;i++){ sym_assert(vb_val(x[i].bit)==((a>>i)&1),"bit i is bit i of the pattern"); const Float&cx=x; sym_assert(vb_val(cx[i].bit)==((a>>i)&1),"bit i is bit i of the pattern"); } Bit one; one.bit=vb_mk(b&1); x[5]=one; sym_assert(fl_bits(x)==((a&~32u)|((b&1)<<5)),"a bit can be assigned"); sym_assert(x.size()==32,"size"); { Float e=fl_mk(a); const Float&ce=e; static const int past[]={32,33,40,63,64,100,1000}; for(int i:past) sym_assert(vb_val(e[i].bit)==(a>>31)&&vb_val(ce[i].bit)==(a>>31),"an index past the width reads the sign bit"); }
#elif PART==2
  // input and reveal
  uint32_t a=sym_u32("a"); int pty=(int)sym_choose(0,2,"party"); int party= pty==0? PUBLIC: pty==1? ALICE: BOB; int rp=(int)sym_choose(0,2,"to"); int rparty= rp==0? PUBLIC: rp==1? ALICE: BOB; Float x(asf(a),party); sym_assert(fl_bits(x)==a,"input keeps the bit pattern"); if(party!=PUBLIC) sym_assert(g_vp.lastFeed==party,"the input comes from the named party");
  g_vp.lastReveal=-9; sym_assume(!fr_nan(a)); double d=x.reveal<double>(rparty); uint64_t w; memcpy(&w,&d,8); sym_assert(w==wide(a),"reveal returns the value"); sym_assert(g_vp.lastReveal==rparty,"revealed to the named party");
#else
  // text form: the C library's rendering of the number (the executor's stand-in renders the bits of the number, injectively)
  uint32_t a=sym_u32("a"); sym_assume(!fr_nan(a)); Float x=fl_mk(a); std::string s=x.reveal<std::string>(ALICE); std::string t=std::to_string(asf(a)); sym_assert(s.size()==t.size(),"the text form is the number"); if(s.size()==t.size()) for(size_t i=0;i<s.size();i++) sym_assert(s[i]==t[i],"the text form is the number"); sym_assert(g_vp.lastReveal==ALICE,"revealed to the named party"); Float y; sym_assert(fl_bits(y)==0,"a default float is zero");
#endif
  sym_reach("end"); }
