// Harness API. In the symbolic executor these are primitives; in the native replay binary
// (replay.cpp) they read the values of a counterexample.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
extern "C" {
void sym_make(void*p,size_t n,const char*name);            // n unconstrained bytes
void sym_bools(void*p,size_t n,const char*name);           // n bytes, each unconstrained 0/1
uint64_t sym_choose(uint64_t lo,uint64_t hi,const char*name); // case split, lo..hi inclusive
uint64_t sym_concrete(uint64_t v);                         // case split on the feasible values of v
void sym_assume(int c);
void sym_assert(int c,const char*label);
void sym_assert_eq(const void*a,const void*b,size_t n,const char*label);
void sym_reach(const char*label);                          // must be satisfiable: guards against vacuity
void sym_uf(const char*name,const void*in,size_t nin,void*out,size_t nout); // uninterpreted function
void sym_config(const char*key,uint64_t v);
int sym_engine(void);                                      // 1 under the executor, 0 natively
uint64_t sym_time_left(void);
int sym_is_const(uint64_t v);
void sym_trace(const char*s,uint64_t v);
size_t sym_draws(uint32_t*out,size_t cap);                 // words obtained from the system's randomness so far
int sym_thread(void(*fn)(void*),void*arg);                  // new cooperative thread (must never return)
void sym_switch(int id);                                   // run thread id (0 is the harness)
void harness(void);
}
#ifdef THOROUGH
#define TIER(q,t) (t)
#else
#define TIER(q,t) (q)
#endif
static inline uint64_t sym_u64(const char*n){ uint64_t v; sym_make(&v,8,n); return v; }
static inline uint32_t sym_u32(const char*n){ uint32_t v; sym_make(&v,4,n); return v; }
static inline uint8_t sym_u8(const char*n){ uint8_t v; sym_make(&v,1,n); return v; }
static inline uint64_t sym_bits(int w,const char*n){ uint64_t v=0; sym_make(&v,(w+7)/8,n); return w>=64? v: v&((1ULL<<w)-1); }
static inline bool sym_bool(const char*n){ unsigned char v; sym_bools(&v,1,n); return v&1; }
