// Plaintext "value" backend. As in any backend, what is in a wire's block is the backend's business: here a mark, the wire's own number and,
// in one bit, its value. Code that reads or combines blocks itself instead of asking the backend gets something meaningless.
#pragma once
#include "sym.h"
#include "emp-tool/execution/circuit_execution.h"
#include "emp-tool/execution/protocol_execution.h"
static uint64_t vb_next=1;
static inline emp::block vb_mk(uint64_t b){ uint64_t k=vb_next++; return emp::makeBlock(0x5742000000000000ull|k,(k*0x9E3779B97F4A7C15ull&~0x20ull)|((b&1)<<5)); }
static inline uint64_t vb_val(const emp::block&b){ uint64_t w[2]; memcpy(w,&b,16); if(__builtin_expect((w[1]>>48)!=0x5742,0)) sym_assert(false,"a wire that the backend made"); return (w[0]>>5)&1; }
struct VCirc: public emp::CircuitExecution { uint64_t ands=0,gates=0,pubs=0;
  emp::block and_gate(const emp::block&a,const emp::block&b) override { ands++; gates++; return vb_mk(vb_val(a)&vb_val(b)); }
  emp::block xor_gate(const emp::block&a,const emp::block&b) override { gates++; return vb_mk(vb_val(a)^vb_val(b)); }
  emp::block not_gate(const emp::block&a) override { gates++; return vb_mk(vb_val(a)^1); }
  emp::block public_label(bool b) override { pubs++; return vb_mk(b); }
  uint64_t num_and() override { return ands; } };
struct VProt: public emp::ProtocolExecution { int lastFeed=-1,lastReveal=-1; uint64_t fed=0,revealed=0;
  void feed(emp::block*l,int party,const bool*b,int n) override { lastFeed=party; fed+=n; for(int i=0;i<n;i++) l[i]=vb_mk(b[i]); }
  void reveal(bool*o,int party,const emp::block*l,int n) override { lastReveal=party; revealed+=n; for(int i=0;i<n;i++) o[i]=(bool)vb_val(l[i]); } };
static VCirc g_vc; static VProt g_vp;
static inline void vb_setup(){ emp::CircuitExecution::circ_exec=&g_vc; emp::ProtocolExecution::prot_exec=&g_vp; }
// how the wires of an input came about: constants for PUBLIC, otherwise fed once by the owner
struct VInput { uint64_t f=g_vp.fed; void check(int party,uint64_t n){ if(party==emp::PUBLIC) sym_assert(g_vp.fed==f,"a public value is a constant, not an input"); else sym_assert(g_vp.fed==f+n&&g_vp.lastFeed==party,"a private value is fed once, by its owner"); } };
