// C11: plaintext backend gates and accounting.
#include "sym.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
static block lab(PlainCircExec*c,int kind,bool v){ if(kind==0) return c->public_label(v); block l; ProtocolExecution::prot_exec->feed(&l,kind==1?ALICE:BOB,&v,1); return l; }
#ifdef SEEDS // long pseudo-random gate sequences: the choices come from a generator, the values stay free
static uint64_t rnd_=0; static uint64_t pick(uint64_t lo,uint64_t hi,const char*){ rnd_=rnd_*6364136223846793005ull+1442695040888963407ull; return lo+(rnd_>>33)%(hi-lo+1); }
#else
#define pick sym_choose
#endif
extern "C" void harness(){
#ifdef SEEDS
  rnd_=77+sym_choose(0,SEEDS,"seed");
#endif
  setup_plain_prot(false,""); PlainCircExec*c=static_cast<PlainCircExec*>(CircuitExecution::circ_exec); CircuitExecution*v=c;
  // expected: value, public?, and-count, gate-count tracked independently
  const int N=STEPS; block w[2*N+8]; bool val[2*N+8]; bool pub[2*N+8]; int n=0; uint64_t ands=0,gates=0;
  for(int i=0;i<(N>8?6:3);i++){ int k=(int)pick(0,2,"kind"); bool b=sym_bool("v"); w[n]=lab(c,k,b); val[n]=b; pub[n]=k==0; n++; }
  for(int s=0;s<N;s++){ int op=(int)pick(0,2,"op"); int i=(int)pick(0,n-1,"i"); int j= op==2?0:(int)pick(0,n-1,"j"); if(s>0&&op!=2&&i<n-1&&j<n-1) { /* later steps must use the newest wire */ j=n-1; }
    block wi=w[i],wj=w[j]; block r= op==0? v->and_gate(w[i],w[j]): op==1? v->xor_gate(w[i],w[j]): v->not_gate(w[i]); sym_assert_eq(&wi,&w[i],16,"first operand unchanged"); sym_assert_eq(&wj,&w[j],16,"second operand unchanged");
    bool x= op==0? (val[i]&&val[j]): op==1? (val[i]!=val[j]): !val[i];
    // a conjunction with a public false, or of two public wires, is public; with a public true it is the other wire
    bool p; if(op==0) p=(pub[i]&&pub[j])||(pub[i]&&!val[i])||(pub[j]&&!val[j]); else if(op==1) p=pub[i]&&pub[j]; else p=pub[i];
    if(op==0){ bool pr=!pub[i]&&!pub[j]; ands+=pr; gates+=pr; }
    else if(op==1){ // xor with public false is free; xor with public true is a negation gate
      bool both=!pub[i]&&!pub[j]; bool inv=(pub[i]&&val[i]&&!pub[j])||(pub[j]&&val[j]&&!pub[i]); gates+=both||inv; }
    else gates+=!pub[i];
    sym_assert(c->get_value(r)==x,"gate value"); sym_assert(c->is_public(r,PUBLIC)==p,"public exactly when determined by public operands");
    sym_assert(v->num_and()==ands,"and-gate count"); sym_assert(c->gates==gates,"gate count"); bool o; ProtocolExecution::prot_exec->reveal(&o,PUBLIC,&r,1); sym_assert(o==x,"revealed value");
    w[n]=r; val[n]=x; pub[n]=p; n++; }
  sym_assert(c->get_value(v->public_label(true))&&!c->get_value(v->public_label(false)),"public labels");
  { bool b=sym_bool("v"); block l=c->private_label(b); sym_assert(c->get_value(l)==b&&!c->is_public(l,PUBLIC),"private label"); }
  sym_reach("end"); }
