// Bit-vector values: concrete up to 128 bits, otherwise literal vectors.
#pragma once
#include "xag.h"
#include <memory>
typedef std::vector<Lit> LV; typedef std::shared_ptr<LV> LVP;
struct BV { uint32_t w=0; bool sym=false; u128 c=0; LVP b; };
static inline u128 mask(uint32_t w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline BV C(uint32_t w,u128 v){ BV r; r.w=w; if(w>128){ r.sym=true; r.b=std::make_shared<LV>(w,0); for(int i=0;i<128;i++) (*r.b)[i]=(v>>i)&1; return r; } r.c=v&mask(w); return r; }
static inline Lit bit(const BV&v,uint32_t i){ return v.sym? (*v.b)[i] : (Lit)((v.c>>i)&1); }
static inline BV fromLits(LV&&l){ BV r; r.w=l.size(); if(r.w<=128){ bool k=true; for(Lit x:l) if(x>1){k=false;break;} if(k){ for(uint32_t i=0;i<r.w;i++) if(l[i]) r.c|=(u128)1<<i; return r; } } r.sym=true; r.b=std::make_shared<LV>(std::move(l)); return r; }
static inline LV lits(const BV&v){ if(v.sym) return *v.b; LV l(v.w); for(uint32_t i=0;i<v.w;i++) l[i]=(v.c>>i)&1; return l; }
static inline BV slice(const BV&v,uint32_t lo,uint32_t w){ if(lo==0&&w==v.w) return v; if(!v.sym) return C(w,v.c>>lo); LV l(v.b->begin()+lo,v.b->begin()+lo+w); return fromLits(std::move(l)); }
static inline BV concat(const std::vector<BV>&ps){ uint32_t w=0; bool s=false; for(auto&p:ps){w+=p.w; s|=p.sym;} if(!s&&w<=128){ BV r; r.w=w; uint32_t o=0; for(auto&p:ps){ r.c|=p.c<<o; o+=p.w; } return r; } LV l; l.reserve(w); for(auto&p:ps) for(uint32_t i=0;i<p.w;i++) l.push_back(bit(p,i)); return fromLits(std::move(l)); }
static inline i128 sx(const BV&v){ if(v.w>=128) return (i128)v.c; u128 c=v.c; if((c>>(v.w-1))&1) c|=~mask(v.w); return (i128)c; }
static inline bool isC(const BV&v){ return !v.sym; }
static BV bAnd(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c&b.c); LV l(a.w); for(uint32_t i=0;i<a.w;i++) l[i]=G.And(bit(a,i),bit(b,i)); return fromLits(std::move(l)); }
static BV bOr(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c|b.c); LV l(a.w); for(uint32_t i=0;i<a.w;i++) l[i]=G.Or(bit(a,i),bit(b,i)); return fromLits(std::move(l)); }
static BV bXor(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c^b.c); LV l(a.w); for(uint32_t i=0;i<a.w;i++) l[i]=G.Xor(bit(a,i),bit(b,i)); return fromLits(std::move(l)); }
static BV bNot(const BV&a){ if(!a.sym) return C(a.w,~a.c); LV l(a.w); for(uint32_t i=0;i<a.w;i++) l[i]=NOT(bit(a,i)); return fromLits(std::move(l)); }
static BV addc(const BV&a,const BV&b,bool negb,Lit cin,Lit*cout=nullptr){ LV l(a.w); Lit c=cin; for(uint32_t i=0;i<a.w;i++){ Lit x=bit(a,i),y=bit(b,i)^(negb?1:0); l[i]=G.Xor(G.Xor(x,y),c); if(i+1<a.w||cout) c=G.Maj(x,y,c); } if(cout)*cout=c; return fromLits(std::move(l)); }
// sums base+constant are remembered so that chains of constant additions have one form
struct AddRec { LVP res,base; u128 c; }; static std::unordered_map<u64,std::vector<AddRec>> g_addMemo;
static u64 lvHash(const LV&l){ u64 h=l.size(); for(Lit x:l) h=XAG::mix(h*31+x); return h; }
static BV addConst(const BV&a,u128 c){ c&=mask(a.w); if(!c) return a; LVP base=a.b; u64 h=lvHash(*a.b); auto it=g_addMemo.find(h); if(it!=g_addMemo.end()) for(auto&r:it->second) if(*r.res==*a.b){ base=r.base; c=(c+r.c)&mask(a.w); break; }
  BV B=a; B.b=base; if(!c) return B; BV r=addc(B,C(a.w,c),false,0); if(r.sym){ auto&v=g_addMemo[lvHash(*r.b)]; bool f=false; for(auto&x:v) if(*x.res==*r.b) f=true; if(!f) v.push_back({r.b,base,c}); } return r; }
static BV bAdd(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c+b.c); if(a.w>=16&&a.w<=128){ if(!b.sym) return addConst(a,b.c); if(!a.sym) return addConst(b,a.c); } return addc(a,b,false,0); }
static BV bSub(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c-b.c); if(a.w>=16&&a.w<=128&&!b.sym) return addConst(a,(~b.c)+1); return addc(a,b,true,1); }
static BV bMux(Lit s,const BV&a,const BV&b){ if(s==1) return a; if(s==0) return b; if(!a.sym&&!b.sym&&a.c==b.c) return a; LV l(a.w); for(uint32_t i=0;i<a.w;i++) l[i]=G.Mux(s,bit(a,i),bit(b,i)); return fromLits(std::move(l)); }
static Lit bEq(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return a.c==b.c; Lit r=1; for(uint32_t i=0;i<a.w&&r;i++) r=G.And(r,NOT(G.Xor(bit(a,i),bit(b,i)))); return r; }
static Lit bUlt(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return a.c<b.c; Lit c=1; for(uint32_t i=0;i<a.w;i++) c=G.Maj(bit(a,i),bit(b,i)^1,c); return NOT(c); }
static Lit bUle(const BV&a,const BV&b){ return NOT(bUlt(b,a)); }
static BV flipTop(const BV&a){ if(!a.sym) return C(a.w,a.c^((u128)1<<(a.w-1))); LV l=*a.b; l.back()^=1; return fromLits(std::move(l)); }
static Lit bSlt(const BV&a,const BV&b){ return bUlt(flipTop(a),flipTop(b)); }
static Lit bSle(const BV&a,const BV&b){ return NOT(bSlt(b,a)); }
static BV bZext(const BV&a,uint32_t w){ if(w<=a.w) return slice(a,0,w); if(!a.sym&&w<=128) return C(w,a.c); LV l=lits(a); l.resize(w,0); return fromLits(std::move(l)); }
static BV bSext(const BV&a,uint32_t w){ if(w<=a.w) return slice(a,0,w); if(!a.sym&&w<=128) return C(w,(u128)sx(a)); LV l=lits(a); Lit s=l.back(); l.resize(w,s); return fromLits(std::move(l)); }
static BV shlC(const BV&a,uint32_t k){ if(k>=a.w) return C(a.w,0); if(!a.sym) return C(a.w,a.c<<k); LV l(a.w,0); for(uint32_t i=k;i<a.w;i++) l[i]=bit(a,i-k); return fromLits(std::move(l)); }
static BV lshrC(const BV&a,uint32_t k){ if(k>=a.w) return C(a.w,0); if(!a.sym) return C(a.w,a.c>>k); LV l(a.w,0); for(uint32_t i=0;i+k<a.w;i++) l[i]=bit(a,i+k); return fromLits(std::move(l)); }
static BV ashrC(const BV&a,uint32_t k){ if(k>=a.w) k=a.w-1; if(!a.sym) return C(a.w,(u128)(sx(a)>>k)); Lit s=bit(a,a.w-1); LV l(a.w,s); for(uint32_t i=0;i+k<a.w;i++) l[i]=bit(a,i+k); return fromLits(std::move(l)); }
static BV bShift(int op,const BV&a,const BV&s){ // 0 shl 1 lshr 2 ashr; amounts >= width are masked as x86 does for 32/64 bit, else saturate
  auto f=[&](const BV&x,uint32_t k){ return op==0?shlC(x,k):op==1?lshrC(x,k):ashrC(x,k); };
  if(!s.sym){ u128 k=s.c; if(k>=a.w){ if(a.w==32||a.w==64) k&=a.w-1; else k=a.w; } return f(a,(uint32_t)k); }
  BV r=a; uint32_t nb=0; while((1u<<nb)<a.w) nb++;
  for(uint32_t i=0;i<nb&&i<s.w;i++) r=bMux(bit(s,i),f(r,1u<<i),r);
  if(!(a.w==32||a.w==64)){ Lit over=0; for(uint32_t i=nb;i<s.w;i++) over=G.Or(over,bit(s,i)); r=bMux(over,f(a,a.w),r); }
  return r; }
static BV bMul(const BV&a,const BV&b){ if(!a.sym&&!b.sym) return C(a.w,a.c*b.c);
  const BV *x=&a,*y=&b; if(!a.sym) std::swap(x,y); // y = multiplier (constant if any)
  LV acc(a.w,0); for(uint32_t i=0;i<a.w;i++){ Lit yi=bit(*y,i); if(yi==0) continue; Lit c=0; for(uint32_t k=i;k<a.w;k++){ Lit t=G.And(bit(*x,k-i),yi); Lit s=G.Xor(G.Xor(acc[k],t),c); if(k+1<a.w) c=G.Maj(acc[k],t,c); acc[k]=s; } }
  return fromLits(std::move(acc)); }
static void bUdivrem(const BV&a,const BV&b,BV&q,BV&r){ if(!a.sym&&!b.sym){ if(b.c==0){ q=C(a.w,~(u128)0); r=a; } else { q=C(a.w,a.c/b.c); r=C(a.w,a.c%b.c);} return; }
  uint32_t w=a.w; BV rem=C(w+1,0), bb=bZext(b,w+1); LV ql(w,0); for(int i=w-1;i>=0;i--){ LV l=lits(rem); for(int j=w;j>0;j--) l[j]=l[j-1]; l[0]=bit(a,i); rem=fromLits(std::move(l)); Lit co; BV d=addc(rem,bb,true,1,&co); ql[i]=co; rem=bMux(co,d,rem); }
  q=fromLits(std::move(ql)); r=slice(rem,0,w); }
static BV bNeg(const BV&a){ return bSub(C(a.w,0),a); }
static void bSdivrem(const BV&a,const BV&b,BV&q,BV&r){ if(!a.sym&&!b.sym&&b.c!=0){ i128 x=sx(a),y=sx(b); if(y==-1){ q=C(a.w,(u128)-x); r=C(a.w,0);} else { q=C(a.w,(u128)(x/y)); r=C(a.w,(u128)(x%y)); } return; }
  Lit sa=bit(a,a.w-1),sb=bit(b,b.w-1); BV x=bMux(sa,bNeg(a),a),y=bMux(sb,bNeg(b),b); bUdivrem(x,y,q,r); q=bMux(G.Xor(sa,sb),bNeg(q),q); r=bMux(sa,bNeg(r),r); }
static BV bPopcount(const BV&a){ if(!a.sym){ return C(a.w,__builtin_popcountll((u64)a.c)+__builtin_popcountll((u64)(a.c>>64))); }
  std::vector<BV> v; for(uint32_t i=0;i<a.w;i++) v.push_back(bZext(slice(a,i,1),a.w)); while(v.size()>1){ std::vector<BV> n; for(size_t i=0;i+1<v.size();i+=2) n.push_back(bAdd(v[i],v[i+1])); if(v.size()&1) n.push_back(v.back()); v.swap(n);} return v[0]; }
static BV bCtz(const BV&a){ BV r=C(a.w,a.w); for(int i=a.w-1;i>=0;i--) r=bMux(bit(a,i),C(a.w,i),r); return r; }
static BV bClz(const BV&a){ BV r=C(a.w,a.w); for(uint32_t i=0;i<a.w;i++) r=bMux(bit(a,i),C(a.w,a.w-1-i),r); return r; }
// AES round pieces on 128-bit values
static BV aesByteTab(int t,const BV&v){ LV o(v.w); for(uint32_t i=0;i<v.w/8;i++){ Lit in[8],out[8]; bool k=true; int cv=0; for(int j=0;j<8;j++){ in[j]=bit(v,8*i+j); if(in[j]>1)k=false; else cv|=in[j]<<j; } if(k){ for(int j=0;j<8;j++) out[j]=(g_tables[t][cv]>>j)&1; } else G.Tab(t,in,out); for(int j=0;j<8;j++) o[8*i+j]=out[j]; } return fromLits(std::move(o)); }
static BV aesPerm(const BV&v,bool inv){ std::vector<BV> p; for(int c=0;c<4;c++) for(int r=0;r<4;r++){ int sc= inv? (c+4-r)%4:(c+r)%4; p.push_back(slice(v,8*(4*sc+r),8)); } return concat(p); }
static BV xtimeB(const BV&b){ BV s=shlC(b,1); Lit h=bit(b,7); LV l=lits(s); l[0]=G.Xor(l[0],h); l[1]=G.Xor(l[1],h); l[3]=G.Xor(l[3],h); l[4]=G.Xor(l[4],h); return fromLits(std::move(l)); }
static BV aesMix(const BV&v,bool inv){ std::vector<BV> p; for(int c=0;c<4;c++){ BV a[4],m2[4],m4[4],m8[4]; for(int r=0;r<4;r++){ a[r]=slice(v,8*(4*c+r),8); m2[r]=xtimeB(a[r]); if(inv){ m4[r]=xtimeB(m2[r]); m8[r]=xtimeB(m4[r]); } }
   for(int r=0;r<4;r++){ int r1=(r+1)%4,r2=(r+2)%4,r3=(r+3)%4; if(!inv) p.push_back(bXor(bXor(m2[r],bXor(m2[r1],a[r1])),bXor(a[r2],a[r3])));
     else { BV e=bXor(m8[r],bXor(m4[r],m2[r])), b=bXor(m8[r1],bXor(m2[r1],a[r1])), d=bXor(m8[r2],bXor(m4[r2],a[r2])), n=bXor(m8[r3],a[r3]); p.push_back(bXor(bXor(e,b),bXor(d,n))); } } } return concat(p); }
