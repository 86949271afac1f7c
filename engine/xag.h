// XOR-AND graph with structural hashing, canonical n-ary XOR nodes and random simulation words.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <unordered_map>
typedef uint32_t Lit;            // node*2 + sign; 0 = false, 1 = true
typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;
static inline Lit NOT(Lit a){return a^1;}
static inline uint32_t NODE(Lit a){return a>>1;}
enum { K_CONST=0, K_INPUT=1, K_AND=2, K_XOR=3, K_TAB=4 };
extern const uint8_t* g_tables[4]; // 8-bit lookup tables (AES S-box, inverse)
static const int SW = 5;         // simulation words per node
struct XNode { uint32_t a,b; uint32_t kind; };
struct Sim { u64 w[SW]; };
extern u64 g_rng;
static inline u64 rnd64(){ g_rng^=g_rng<<13; g_rng^=g_rng>>7; g_rng^=g_rng<<17; return g_rng*0x2545F4914F6CDD1DULL; }

struct XAG {
  std::vector<XNode> n; std::vector<Sim> sim;
  std::vector<uint32_t> pool;                    // XOR leaf lists (sorted node ids)
  std::vector<std::string> inName;               // per input
  std::vector<uint32_t> inNode;
  uint32_t xorcap=32;
  std::vector<uint32_t> tab; size_t tabCount=0;  // hash table of node ids (0 = empty)
  XAG(){ n.push_back({0,0,K_CONST}); sim.push_back(Sim{{0}}); tab.assign(1<<16,0); }
  u64 word(Lit l,int k) const { u64 v=sim[l>>1].w[k]; return (l&1)?~v:v; }
  Lit newInput(const std::string&name){
    uint32_t id=n.size(); n.push_back({(uint32_t)inNode.size(),0,K_INPUT}); Sim s;
    for(int k=0;k<SW;k++) s.w[k]=rnd64();
    // bias: word SW-1 has patterns of mostly zeros / mostly ones
    s.w[SW-1]=(rnd64()&rnd64()&rnd64())| (0xFFFFFFFF00000000ULL & ~(rnd64()&rnd64()&rnd64()));
    s.w[SW-1]=(s.w[SW-1]&~3ULL)|2ULL;            // bit0: all-zero pattern, bit1: all-one pattern
    s.w[SW-2]=structured(0,name);                // values with few significant bits
    sim.push_back(s); inNode.push_back(id); inName.push_back(name); return id*2; }
  // per-lane "narrow value" patterns: bits above a lane's cut repeat a fill bit
  struct StructState { std::string nm; int pos=0; int cut[64]; u64 fill=0; } ss[8];
  u64 structured(int k,const std::string&name){ StructState&t=ss[k]; if(t.nm!=name||t.pos%64==0){ t.nm=name; t.pos=0; for(int j=0;j<64;j++) t.cut[j]=(int)(rnd64()%(4u<<(rnd64()%5))); t.fill=rnd64()&rnd64(); }
    u64 r=rnd64(),o=0; for(int j=0;j<64;j++) o|=(u64)(t.pos<t.cut[j]? (r>>j)&1: (t.fill>>j)&1)<<j; t.pos++; return o; }
  static u64 mix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
  u64 hashNode(uint32_t id) const { const XNode&x=n[id]; if(x.kind==K_AND) return mix(((u64)x.a<<32|x.b)+0x9e3779b97f4a7c15ULL);
    if(x.kind==K_TAB){ u64 h=0x777+x.b; for(int i=0;i<8;i++) h=mix(h*31+pool[x.a+i]); return h; }
    u64 h=0x1234567; for(uint32_t i=0;i<x.b;i++) h=mix(h*31+pool[x.a+i]); return h; }
  // table lookup node: all eight output bits of table t at 8 input literals (not all constant)
  void Tab(int t,const Lit*in,Lit*out){
    if(t<2&&!(in[0]&1)&&n[in[0]>>1].kind==K_TAB){ uint32_t b=in[0]>>1; bool inv=n[b].b==(uint32_t)(1-t)*8; for(int i=0;i<8&&inv;i++) inv= in[i]==(b+i)*2; if(inv){ memcpy(out,&pool[n[b].a],32); return; } } // inverse of the other table
    size_t m=tab.size()-1; u64 h=0x777+t*8; for(int i=0;i<8;i++) h=mix(h*31+in[i]); size_t p=h&m;
    while(tab[p]){ const XNode&x=n[tab[p]]; if(x.kind==K_TAB&&x.b==(uint32_t)t*8&&!memcmp(&pool[x.a],in,32)){ for(int k=0;k<8;k++) out[k]=(tab[p]+k)*2; return; } p=(p+1)&m; }
    uint32_t id=n.size(),off=pool.size(); pool.insert(pool.end(),in,in+8); Sim s[8]; memset(s,0,sizeof s);
    for(int w=0;w<SW;w++){ u64 iw[8]; for(int i=0;i<8;i++) iw[i]=word(in[i],w);
      for(int j=0;j<64;j++){ int v=0; for(int i=0;i<8;i++) v|=((iw[i]>>j)&1)<<i; uint8_t r=g_tables[t][v]; for(int k=0;k<8;k++) s[k].w[w]|=(u64)((r>>k)&1)<<j; } }
    for(int k=0;k<8;k++){ n.push_back({off,(uint32_t)(t*8+k),K_TAB}); sim.push_back(s[k]); out[k]=(id+k)*2; }
    tab[p]=id; if(++tabCount*2>tab.size()) grow(); }
  std::unordered_map<uint32_t,Lit> tabExp;
  Lit expandTab(uint32_t id){ auto it=tabExp.find(id); if(it!=tabExp.end()) return it->second;
    Lit in[8]; memcpy(in,&pool[n[id].a],32); int t=n[id].b/8,k=n[id].b%8; 
    std::vector<Lit> cur(256); for(int v=0;v<256;v++) cur[v]=(g_tables[t][v]>>k)&1;
    for(int i=0;i<8;i++){ std::vector<Lit> nx(cur.size()/2); for(size_t v=0;v<nx.size();v++) nx[v]=Mux(in[i],cur[2*v+1],cur[2*v]); cur.swap(nx); }
    tabExp[id]=cur[0]; return cur[0]; }
  void grow(){ std::vector<uint32_t> old; old.swap(tab); tab.assign(old.size()*2,0); size_t m=tab.size()-1;
    for(uint32_t id:old) if(id){ size_t p=hashNode(id)&m; while(tab[p]) p=(p+1)&m; tab[p]=id; } }
  Lit rawAnd(Lit a,Lit b){
    if(a>b) std::swap(a,b);
    u64 h=mix(((u64)a<<32|b)+0x9e3779b97f4a7c15ULL); size_t m=tab.size()-1, p=h&m;
    while(tab[p]){ const XNode&x=n[tab[p]]; if(x.kind==K_AND&&x.a==a&&x.b==b) return tab[p]*2; p=(p+1)&m; }
    uint32_t id=n.size(); n.push_back({a,b,K_AND}); Sim s; for(int k=0;k<SW;k++) s.w[k]=word(a,k)&word(b,k); sim.push_back(s);
    tab[p]=id; if(++tabCount*2>tab.size()) grow(); return id*2; }
  bool isAnd(Lit l) const { return n[l>>1].kind==K_AND; }
  Lit And(Lit a,Lit b){
    if(a>b) std::swap(a,b);
    if(a==0) return 0; if(a==1) return b; if(a==b) return a; if(a==NOT(b)) return 0;
    for(int r=0;r<2;r++){ Lit x=r?b:a,y=r?a:b;         // y is an AND?
      if(isAnd(y)){ Lit f=n[y>>1].a,g=n[y>>1].b;
        if(!(y&1)){ if(f==x||g==x) return y; if(f==NOT(x)||g==NOT(x)) return 0; }
        else { if(f==NOT(x)||g==NOT(x)) return x; if(f==x) return And(x,NOT(g)); if(g==x) return And(x,NOT(f)); } } }
    if(isAnd(a)&&isAnd(b)&&!(a&1)&&!(b&1)){ Lit f=n[a>>1].a,g=n[a>>1].b,h=n[b>>1].a,i=n[b>>1].b;
      if(f==NOT(h)||f==NOT(i)||g==NOT(h)||g==NOT(i)) return 0; }
    return rawAnd(a,b); }
  Lit Or(Lit a,Lit b){ return NOT(And(NOT(a),NOT(b))); }
  // --- xor
  uint32_t tmpA[1<<13], tmpB[1<<13], tmpC[1<<13];
  uint32_t leafs(uint32_t node, const uint32_t*&p, uint32_t&single){ if(n[node].kind==K_XOR){ p=&pool[n[node].a]; return n[node].b; } single=node; p=&single; return 1; }
  Lit rawXorList(const uint32_t*l,uint32_t len){
    if(len==0) return 0; if(len==1) return l[0]*2;
    u64 h=0x1234567; for(uint32_t i=0;i<len;i++) h=mix(h*31+l[i]);
    size_t m=tab.size()-1,p=h&m;
    while(tab[p]){ const XNode&x=n[tab[p]]; if(x.kind==K_XOR&&x.b==len&&!memcmp(&pool[x.a],l,len*4)) return tab[p]*2; p=(p+1)&m; }
    uint32_t id=n.size(), off=pool.size(); pool.insert(pool.end(),l,l+len); n.push_back({off,len,K_XOR});
    Sim s; for(int k=0;k<SW;k++){ u64 v=0; for(uint32_t i=0;i<len;i++) v^=sim[l[i]].w[k]; s.w[k]=v; } sim.push_back(s);
    tab[p]=id; if(++tabCount*2>tab.size()) grow(); return id*2; }
  uint32_t listLen(uint32_t node){ return n[node].kind==K_XOR? n[node].b:1; }
  // plain symmetric difference, no rewriting
  Lit xorPlain(Lit a,Lit b){ Lit s=(a^b)&1; a&=~1u; b&=~1u; if(a==b) return s; if(a==0) return b^s; if(b==0) return a^s;
    uint32_t sa,sb; const uint32_t*pa,*pb; uint32_t la=leafs(a>>1,pa,sa), lb=leafs(b>>1,pb,sb);
    uint32_t i=0,j=0,k=0; 
    while(i<la||j<lb){ if(j>=lb||(i<la&&pa[i]<pb[j])) tmpC[k++]=pa[i++]; else if(i>=la||pb[j]<pa[i]) tmpC[k++]=pb[j++]; else {i++;j++;} }
    if(k>xorcap && k>2 && k>=la && k>=lb){ tmpC[0]=std::min(a>>1,b>>1); tmpC[1]=std::max(a>>1,b>>1); k=2; }
    return rawXorList(tmpC,k)^s; }
  Lit Xor(Lit a,Lit b){
    Lit s=(a^b)&1; a&=~1u; b&=~1u;
    if(a==b) return s; if(a==0) return b^s; if(b==0) return a^s;
    for(int r=0;r<2;r++){ Lit x=r?b:a,y=r?a:b;
      if(isAnd(y)){ Lit p=n[y>>1].a,q=n[y>>1].b;
        for(int t=0;t<2;t++,std::swap(p,q)){
          if((p>>1)==(x>>1)){ // x ^ (±x & q)
            if(!(p&1)) return And(p,NOT(q))^s; else return Or(x,q)^s; }
          if(n[p>>1].kind==K_XOR){
            uint32_t lx=listLen(x>>1), lp=listLen(p>>1);
            if(lx<lp && subset(x>>1,p>>1)){ Lit d=xorPlain(p,x);
              if(n[q>>1].kind==K_XOR && lx<listLen(q>>1) && subset(x>>1,q>>1)) { Lit e=xorPlain(q,x); return Maj(d,e,x)^s; }
              return Mux(q,d,x)^s; } } } } }
    // OR pattern: (p^q) ^ (p&q)
    for(int r=0;r<2;r++){ Lit x=r?b:a,y=r?a:b;
      if(isAnd(y)&&n[x>>1].kind==K_XOR&&listLen(x>>1)==2){ Lit p=n[y>>1].a,q=n[y>>1].b; uint32_t u=pool[n[x>>1].a],v=pool[n[x>>1].a+1];
        if((p>>1==u&&q>>1==v)||(p>>1==v&&q>>1==u)){ // p^q^sgn ^ p&q
          Lit sg=((p^q)&1); return Or(p,q)^sg^s; } 
        // p, q compound: x == p xor q as a list
      }
      if(isAnd(y)){ Lit p=n[y>>1].a,q=n[y>>1].b; if(n[p>>1].kind==K_XOR||n[q>>1].kind==K_XOR){ Lit d=xorPlain(p,q); if((d&~1u)==x) return Or(p,q)^(d&1)^s; } } }
    return xorPlain(a,b)^s; }
  bool subset(uint32_t x,uint32_t p){ uint32_t sx,sp; const uint32_t*a,*b; uint32_t la=leafs(x,a,sx),lb=leafs(p,b,sp); uint32_t j=0;
    for(uint32_t i=0;i<la;i++){ while(j<lb&&b[j]<a[i]) j++; if(j>=lb||b[j]!=a[i]) return false; } return true; }
  Lit Mux(Lit s,Lit a,Lit b){ // s?a:b
    if(s==1) return a; if(s==0) return b; if(a==b) return a; if(s&1){ s^=1; std::swap(a,b);} 
    if(a==NOT(b)) return Xor(s,b);
    if(a==1) return Or(s,b); if(a==0) return And(NOT(s),b); if(b==1) return Or(NOT(s),a); if(b==0) return And(s,a);
    if(a==s) return Or(s,b); if(a==NOT(s)) return And(NOT(s),b); if(b==s) return And(s,a); if(b==NOT(s)) return Or(NOT(s),a);
    Lit sg=0; if(b&1){ a^=1;b^=1;sg=1; }
    return Or(And(s,a),And(NOT(s),b))^sg; }
  Lit Maj(Lit a,Lit b,Lit c){
    if(a>b)std::swap(a,b); if(b>c)std::swap(b,c); if(a>b)std::swap(a,b);
    if(a==0) return And(b,c); if(a==1) return Or(b,c);
    if(a==b) return a; if(b==c) return b; if(a==NOT(b)) return c; if(b==NOT(c)) return a; if(a==NOT(c)) return b;
    Lit sg=0; if((a&1)+(b&1)+(c&1)>=2){ a^=1;b^=1;c^=1;sg=1; }
    return Or(And(a,b),And(c,Or(a,b)))^sg; }
  // evaluate literals under an input assignment (by input index)
  std::vector<uint8_t> evalAll(const std::vector<uint8_t>&in, const std::vector<Lit>&want){
    std::vector<uint32_t> order; std::vector<uint8_t> val; cone(want,order);
    std::unordered_map<uint32_t,uint8_t> v; v.reserve(order.size()*2);
    for(uint32_t id:order){ const XNode&x=n[id]; uint8_t r=0;
      if(x.kind==K_INPUT) r= x.a<in.size()?in[x.a]:0; else if(x.kind==K_AND) r=(v[x.a>>1]^(x.a&1))&(v[x.b>>1]^(x.b&1));
      else if(x.kind==K_XOR) for(uint32_t i=0;i<x.b;i++) r^=v[pool[x.a+i]];
      else if(x.kind==K_TAB){ int q=0; for(int i=0;i<8;i++){ Lit l=pool[x.a+i]; q|=(v[l>>1]^(l&1))<<i; } r=(g_tables[x.b/8][q]>>(x.b%8))&1; }
      v[id]=r; }
    std::vector<uint8_t> out; for(Lit l:want) out.push_back(v[l>>1]^(l&1)); return out; }
  std::vector<uint32_t> mark; uint32_t markGen=0;
  void cone(const std::vector<Lit>&roots,std::vector<uint32_t>&order){ // topological (by id)
    if(mark.size()<n.size()) mark.resize(n.size()*5/4+16,0); markGen++; if(markGen==0){ std::fill(mark.begin(),mark.end(),0); markGen=1; }
    std::vector<uint32_t> st; order.clear();
    for(Lit l:roots) if(mark[l>>1]!=markGen){ mark[l>>1]=markGen; st.push_back(l>>1); }
    while(!st.empty()){ uint32_t id=st.back(); st.pop_back(); order.push_back(id); const XNode&x=n[id];
      if(x.kind==K_AND){ uint32_t f=x.a>>1,g=x.b>>1; if(mark[f]!=markGen){mark[f]=markGen;st.push_back(f);} if(mark[g]!=markGen){mark[g]=markGen;st.push_back(g);} }
      else if(x.kind==K_XOR) for(uint32_t i=0;i<x.b;i++){ uint32_t f=pool[x.a+i]; if(mark[f]!=markGen){mark[f]=markGen;st.push_back(f);} }
      else if(x.kind==K_TAB) for(uint32_t i=0;i<8;i++){ uint32_t f=pool[x.a+i]>>1; if(mark[f]!=markGen){mark[f]=markGen;st.push_back(f);} } }
    std::sort(order.begin(),order.end()); }
};
extern XAG G;
