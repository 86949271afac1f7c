// Recorded gate lists of the elementary functions (their accuracy on all operands: tools/accuracy.cpp).
#pragma once
struct gold_t { unsigned a,b; };
#ifndef GOLD_K
#define GOLD_K -1
#endif
#if GOLD_K==-1||GOLD_K==0
static const gold_t gold_sin[]={
#include "golden/sin.inc"
};
#endif
#if GOLD_K==-1||GOLD_K==1
static const gold_t gold_cos[]={
#include "golden/cos.inc"
};
#endif
#if GOLD_K==-1||GOLD_K==2
static const gold_t gold_exp[]={
#include "golden/exp.inc"
};
#endif
#if GOLD_K==-1||GOLD_K==3
static const gold_t gold_exp2[]={
#include "golden/exp2.inc"
};
#endif
#if GOLD_K==-1||GOLD_K==4
static const gold_t gold_ln[]={
#include "golden/ln.inc"
};
#endif
#if GOLD_K==-1||GOLD_K==5
static const gold_t gold_log2[]={
#include "golden/log2.inc"
};
#endif
static inline const gold_t*gold_g(int k){
#if GOLD_K==-1||GOLD_K==0
  if(k==0) return gold_sin;
#endif
#if GOLD_K==-1||GOLD_K==1
  if(k==1) return gold_cos;
#endif
#if GOLD_K==-1||GOLD_K==2
  if(k==2) return gold_exp;
#endif
#if GOLD_K==-1||GOLD_K==3
  if(k==3) return gold_exp2;
#endif
#if GOLD_K==-1||GOLD_K==4
  if(k==4) return gold_ln;
#endif
#if GOLD_K==-1||GOLD_K==5
  if(k==5) return gold_log2;
#endif
  return 0; }
static inline int gold_n(int k){
#if GOLD_K==-1||GOLD_K==0
  if(k==0) return (int)(sizeof gold_sin/sizeof(gold_t));
#endif
#if GOLD_K==-1||GOLD_K==1
  if(k==1) return (int)(sizeof gold_cos/sizeof(gold_t));
#endif
#if GOLD_K==-1||GOLD_K==2
  if(k==2) return (int)(sizeof gold_exp/sizeof(gold_t));
#endif
#if GOLD_K==-1||GOLD_K==3
  if(k==3) return (int)(sizeof gold_exp2/sizeof(gold_t));
#endif
#if GOLD_K==-1||GOLD_K==4
  if(k==4) return (int)(sizeof gold_ln/sizeof(gold_t));
#endif
#if GOLD_K==-1||GOLD_K==5
  if(k==5) return (int)(sizeof gold_log2/sizeof(gold_t));
#endif
  return 0; }
