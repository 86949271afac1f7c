#pragma once
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
// A lemma about the reference is itself an obligation, and may be used by everything after it.
static const char*fl_lab(int i){ static char b[64][16]; char*p=b[i]; const char*t="lemma "; int k=0; while(t[k]){ p[k]=t[k]; k++; } p[k++]=(char)('0'+i/10); p[k++]=(char)('0'+i%10); p[k]=0; return p; }
#define FR_LEMMA(c,i) do{ bool fl_c=(c); sym_assert(fl_c,fl_lab(i)); sym_assume(fl_c); }while(0)
#include "fref.h"
static inline void fr_bad(const char*w){ sym_assert(false,w); }
using namespace emp;
static Float fl_mk(uint32_t v){ Float f; for(int i=0;i<32;i++) f.value[i].bit=vb_mk(v>>i); return f; }
static uint32_t fl_bits(const Float&f){ uint32_t v=0; for(int i=0;i<32;i++) v|=(uint32_t)vb_val(f.value[i].bit)<<i; return v; }
