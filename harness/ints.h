#pragma once
#include "vback.h"
#include "emp-tool/circuits/integer.h"
using namespace emp;
static inline uint64_t msk(int w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static inline int64_t sx(int w,uint64_t v){ return w>=64?(int64_t)v:((int64_t)(v<<(64-w)))>>(64-w); }
static inline uint64_t val(const Integer&x){ uint64_t r=0; for(size_t i=0;i<x.bits.size()&&i<64;i++) r|=(uint64_t)vb_val(x.bits[i].bit)<<i; return r; }
static inline Integer mkI(int w,uint64_t v){ Integer r; r.bits.resize(w); for(int i=0;i<w;i++) r.bits[i].bit=vb_mk((v>>i)&1); return r; }
static inline Integer symI(int w,const char*n,uint64_t&v){ v=sym_bits(w,n); return mkI(w,v); }
