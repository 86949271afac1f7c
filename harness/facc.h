// Accuracy of the elementary functions: the native predicate (C library in double precision).
// K: 0 sin(pi x), 1 cos(pi x), 2 exp, 3 exp2, 4 ln, 5 log2.  Operands are any bit pattern that is not a NaN.
#pragma once
#include <math.h>
#include <stdint.h>
#include <string.h>
static double fa_true(int k,double x){ switch(k){ case 0: return sin(M_PI*fmod(x,2)); case 1: return cos(M_PI*fmod(x,2)); case 2: return exp(x); case 3: return exp2(x); case 4: return log(x); default: return log2(x); } }
static double fa_ulp(double w){ int e; frexp(w,&e); if(e<-125) e=-125; return ldexp(1.0,e-24); }
// is `out` an accurate result for operand `in`?
static bool fa_ok(int k,uint32_t in,uint32_t out){ float x,y; memcpy(&x,&in,4); memcpy(&y,&out,4); uint32_t e=(in>>23)&255; if(e==255&&(in&0x7fffff)) return true; 
  if(e==255){ if(k<2) return true; if(k<4) return (in>>31)? y==0: (isinf(y)&&y>0); return (in>>31)||(isinf(y)&&y>0); }
  if(e==0) x=0; // subnormal operands count as zeros
  if(k<2) return fabs(fa_true(k,x)-y)<=1e-6;
  if(k<4){ double w=fa_true(k,x); if(isnan(y)||y<0) return false; if(isinf(y)) return w>=3.40282306e38; if(w>3.4028237e38) return false; if(y==0) return w<1.17549450e-38; if(w<1.17549421e-38) return false; return fabs(w-y)<=2*fa_ulp(w); }
  if(in>>31) return true; if(x==0) return isinf(y)&&y<0; double w=fa_true(k,x); if(isnan(y)||isinf(y)) return false; double t=2*fa_ulp(w); if(t<2e-7) t=2e-7; return fabs(w-y)<=t; }
