// C01: boolean operators of Bit on both the value backend and the library's plaintext backend.
#include "vback.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
static int be;
static Bit mk(bool v,int kind){ VInput vi; Bit r(v, kind==0?PUBLIC:kind==1?ALICE:BOB); if(be==0) vi.check(kind==0?PUBLIC:kind==1?ALICE:BOB,1); return r; }
static bool rv(const Bit&b){ return b.reveal<bool>(PUBLIC); }
extern "C" void harness(){
  be=(int)sym_choose(0,1,"backend"); if(be==0) vb_setup(); else setup_plain_prot(false,"");
  int ka=(int)sym_choose(0,2,"ka"),kb=(int)sym_choose(0,2,"kb"),kc=(int)sym_choose(0,2,"kc");
  bool a=sym_bool("a"),b=sym_bool("b"),c=sym_bool("c"); const Bit A=mk(a,ka),B=mk(b,kb),S=mk(c,kc);
  sym_assert(rv(A)==a&&rv(B)==b&&rv(S)==c,"feed and reveal");
  sym_assert(rv(A&B)==(a&&b),"and"); sym_assert(rv(A|B)==(a||b),"or"); sym_assert(rv(A^B)==(a!=b),"xor"); sym_assert(rv(!A)==!a,"not");
  sym_assert(rv(A==B)==(a==b),"equality"); sym_assert(rv(A!=B)==(a!=b),"inequality");
  sym_assert(rv(A.select(S,B))==(c?b:a),"select: argument when true, receiver otherwise");
  sym_assert(rv(A.If(S,B))==(c?b:a),"member If");
  sym_assert(rv(If(S,A,B))==(c?a:b),"If: first when true, second otherwise");
  { Bit x=A; x^=B; sym_assert(rv(x)==(a!=b),"in-place xor"); Bit y=A; Bit z=(y^=B); sym_assert(rv(z)==(a!=b),"in-place xor result"); }
  { Bit x=A,y=B; emp::swap(S,x,y); sym_assert(rv(x)==(c?b:a)&&rv(y)==(c?a:b),"swap exactly when true"); emp::swap(S,x,y); sym_assert(rv(x)==a&&rv(y)==b,"double swap restores"); }
  { Bit x=A; sym_assert(rv(x&x)==a&&rv(x|x)==a&&rv(x^x)==false&&rv(x==x)==true&&rv(x!=x)==false,"operand with itself"); sym_assert(rv(x.select(x,B))==(a?b:a)&&rv(If(x,x,B))==(a?a:b)&&rv(If(S,x,x))==a,"aliased selection"); Bit n=!x; sym_assert(rv(x&n)==false&&rv(x|n)==true&&rv(x^n)==true&&rv(!n)==a,"operand with its negation"); }
  { Bit t=(A&B)|((!A)&S); sym_assert(rv(t)==((a&&b)||(!a&&c)),"composed"); Bit u=(A^B)==(S|A); sym_assert(rv(u)==((a!=b)==(c||a)),"composed equality"); }
  { Bit k(A.bit); sym_assert(rv(k)==a,"construction from a wire"); Bit d; sym_assert(rv(d)==false,"default is false"); Bit t(true); sym_assert(rv(t)==true,"public true"); }
  { string s=A.reveal<string>(); sym_assert((s=="true")==a&&(s=="false")==!a,"reveal as string"); }
  if(be==0){ uint64_t r0=g_vp.revealed; A.reveal<bool>(BOB); sym_assert(g_vp.lastReveal==BOB&&g_vp.revealed==r0+1,"revealed to the given party"); A.reveal<string>(ALICE); sym_assert(g_vp.lastReveal==ALICE&&g_vp.revealed==r0+2,"string revealed to the given party"); A.reveal<bool>(); sym_assert(g_vp.lastReveal==PUBLIC,"revealed to both by default"); uint64_t f0=g_vp.fed; Bit d; Bit t(true); (void)d; (void)t; sym_assert(g_vp.fed==f0,"a default bit is a constant"); }
  { bool q[1]; Bit::bool_data(q,a); sym_assert(q[0]==a&&Bit::bool_size()==1,"batch data"); }
  sym_assert(rv(A)==a&&rv(B)==b&&rv(S)==c,"operands unchanged");
  sym_reach("end"); }
