// SAT layer over the XAG: MiniSat (incremental / one-shot), SAT sweeping, kissat for the residue.
#pragma once
#include "xag.h"
#include <minisat/core/Solver.h>
#undef l_True
#undef l_False
#undef l_Undef
#include <chrono>
#include <functional>
#include <memory>
#include <map>
#include <algorithm>
#include <iterator>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
static inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const Minisat::lbool L_TRUE((uint8_t)0), L_FALSE((uint8_t)1), L_UNDEF((uint8_t)2);
enum Res { UNSAT=0, SAT=1, UNK=2 };
struct SolverStats { u64 queries=0, satQ=0, unsatQ=0, unkQ=0, simSat=0, structural=0, sweepMerges=0, sweepQueries=0, kissatRuns=0, maxVars=0; double time=0; };
extern SolverStats ST;
extern std::string g_tmp; // scratch directory
typedef std::vector<uint8_t> Model; // by input index

struct Cnf {
  std::unique_ptr<Minisat::Solver> s; std::vector<int> var; std::vector<uint32_t> encIn; bool cutTab=false; bool cutUsed=false;
  Cnf(){ s.reset(new Minisat::Solver()); }
  int nv(){ return s->newVar(); }
  Minisat::Lit ml(Lit l){ return Minisat::mkLit(var[l>>1], l&1); }
  void add(std::initializer_list<Minisat::Lit> c){ Minisat::vec<Minisat::Lit> v; for(auto l:c) v.push(l); s->addClause_(v); }
  void xor3(Minisat::Lit o,Minisat::Lit a,Minisat::Lit b){ add({~o,a,b}); add({~o,~a,~b}); add({o,~a,b}); add({o,a,~b}); }
  void encode(Lit root){
    std::vector<std::pair<uint32_t,int>> st; if(var.size()<G.n.size()) var.resize(G.n.size()*5/4+16,-1);
    auto need=[&](uint32_t id){ if(id>=var.size()) var.resize(G.n.size()*5/4+16,-1); if(var[id]<0) st.push_back({id,0}); };
    need(root>>1);
    while(!st.empty()){ uint32_t id=st.back().first; if(var[id]>=0){ st.pop_back(); continue; }
      const XNode x=G.n[id];
      if(st.back().second==0){ st.back().second=1;
        if(x.kind==K_AND){ need(x.a>>1); need(x.b>>1); }
        else if(x.kind==K_XOR) for(uint32_t i=0;i<x.b;i++) need(G.pool[x.a+i]);
        else if(x.kind==K_TAB&&!cutTab){ Lit e=G.expandTab(id); need(e>>1); }
        continue; }
      st.pop_back();
      if(x.kind==K_TAB&&cutTab){ var[id]=nv(); cutUsed=true; continue; }
      if(x.kind==K_TAB){ Lit e=G.expandTab(id); if((e&1)==0) var[id]=var[e>>1]; else { int v=nv(); var[id]=v; auto o=Minisat::mkLit(v),m=ml(e); add({~o,m}); add({o,~m}); } continue; }
      int v=nv(); var[id]=v; auto o=Minisat::mkLit(v);
      if(x.kind==K_CONST) add({~o});
      else if(x.kind==K_INPUT) encIn.push_back(id);
      else if(x.kind==K_AND){ auto a=ml(x.a),b=ml(x.b); add({~o,a}); add({~o,b}); add({o,~a,~b}); }
      else { auto cur=Minisat::mkLit(var[G.pool[x.a]]); for(uint32_t i=1;i<x.b;i++){ auto b=Minisat::mkLit(var[G.pool[x.a+i]]); auto t= i+1==x.b? o: Minisat::mkLit(nv()); xor3(t,cur,b); cur=t; } } } }
  Res solve(const std::vector<Lit>&as,double tlimit,i64 confl,Model*m){
    for(Lit l:as) encode(l);
    Minisat::vec<Minisat::Lit> v; for(Lit l:as) v.push(ml(l));
    double t0=now(); Res r=UNK; i64 used=0; if(!s->okay()) { r=UNSAT; }
    else while(true){ i64 b=2000; if(confl>0) b=std::min(b,confl-used); if(b<=0) break; s->setConfBudget(b); auto q=s->solveLimited(v); used+=b;
      if(q==L_TRUE){ r=SAT; if(m){ m->assign(G.inNode.size(),0); for(size_t i=0;i<G.inNode.size();i++){ uint32_t id=G.inNode[i]; if(id<var.size()&&var[id]>=0) (*m)[i]= s->model[var[id]]==L_TRUE; } } break; }
      if(q==L_FALSE){ r=UNSAT; break; }
      if(now()-t0>tlimit) break; }
    if((u64)s->nVars()>ST.maxVars) ST.maxVars=s->nVars();
    return r; }
};

// ---------------- SAT sweeping on a binary graph rebuilt from the cone
struct Fraig {
  struct N{uint32_t a,b; uint8_t k;}; // k: 0 const,1 input,2 and,3 xor
  std::vector<N> n; std::vector<std::vector<u64>> sim; size_t W=0;
  std::vector<uint32_t> inIdx; // new node -> global input index for inputs
  std::unordered_map<u64,uint32_t> ht; std::unordered_map<u64,std::vector<uint32_t>> cls; std::vector<char> inCls; std::vector<uint32_t> lev;
  std::vector<u64> seedIn; Minisat::Solver* s; std::vector<int> var; double deadline; size_t cexs=0,merges=0,tries=0,unk=0; double hard=0,start=0;
  std::vector<std::vector<u64>> inSim;
  Fraig():s(new Minisat::Solver()){} ~Fraig(){ delete s; }
  std::unordered_map<uint32_t,Lit> mp; // old node -> new lit
  int V(uint32_t id){ // encode lazily (iterative)
    if(var.size()<n.size()) var.resize(n.size()+1024,-1); std::vector<uint32_t> st{id};
    while(!st.empty()){ uint32_t x=st.back(); if(var[x]>=0){st.pop_back();continue;} N&q=n[x]; if(q.k>=2){ bool w=false; if(var[q.a>>1]<0){st.push_back(q.a>>1);w=true;} if(var[q.b>>1]<0){st.push_back(q.b>>1);w=true;} if(w)continue; }
      st.pop_back(); int v=s->newVar(); var[x]=v; auto o=Minisat::mkLit(v); Minisat::vec<Minisat::Lit> c;
      auto add=[&](std::initializer_list<Minisat::Lit> l){ Minisat::vec<Minisat::Lit> c; for(auto y:l)c.push(y); s->addClause_(c); };
      if(q.k==0) add({~o}); else if(q.k>=2){ auto a=Minisat::mkLit(var[q.a>>1],q.a&1),b=Minisat::mkLit(var[q.b>>1],q.b&1);
        if(q.k==2){ add({~o,a}); add({~o,b}); add({o,~a,~b}); } else { add({~o,a,b}); add({~o,~a,~b}); add({o,~a,b}); add({o,a,~b}); } } }
    return var[id]; }
  void simNode(uint32_t id,size_t w){ N&q=n[id]; u64 r=0; if(q.k>=2){ u64 a=sim[q.a>>1][w]; if(q.a&1)a=~a; u64 b=sim[q.b>>1][w]; if(q.b&1)b=~b; r= q.k==2? a&b: a^b; } else if(q.k==1) r=inSim[q.a][w]; sim[id][w]=r; }
  u64 key(uint32_t id){ u64 h=77; u64 f=(sim[id][0]&1)?~0ULL:0; for(size_t w=0;w<W;w++) h=XAG::mix(h*31+(sim[id][w]^f)); return h; }
  Lit mk(uint8_t k,Lit a,Lit b){
    if(k==2){ if(a>b)std::swap(a,b); if(a==0)return 0; if(a==1)return b; if(a==b)return a; if(a==(b^1))return 0; u64 h=((u64)a<<33)|((u64)b<<1); auto it=ht.find(h); if(it!=ht.end()) return it->second*2; uint32_t id=newN(2,a,b); ht[h]=id; return id*2; }
    Lit s_=(a^b)&1; a&=~1u;b&=~1u; if(a>b)std::swap(a,b); if(a==b) return s_; if(a==0) return b^s_; u64 h=((u64)a<<33)|((u64)b<<1)|1; auto it=ht.find(h); if(it!=ht.end()) return (it->second*2)^s_;
    std::vector<uint32_t> la,lb,lc; linOf(a>>1,la); linOf(b>>1,lb); if(la.size()+lb.size()<=LINCAP){ std::set_symmetric_difference(la.begin(),la.end(),lb.begin(),lb.end(),std::back_inserter(lc)); if(lc.empty()) return s_; if(lc.size()==1){ linMerges++; ht[h]=lc[0]; return lc[0]*2^s_; }
      auto&v=linT[linKey(lc)]; for(uint32_t x:v) if(lin[x]==lc){ linMerges++; ht[h]=x; return (x*2)^s_; }
      uint32_t id=newN(3,a,b); ht[h]=id; if(lin.size()<=id) lin.resize(id+1024); lin[id]=lc; v.push_back(id); return (id*2)^s_; }
    uint32_t id=newN(3,a,b); ht[h]=id; return (id*2)^s_; }
  uint32_t newN(uint8_t k,Lit a,Lit b){ uint32_t id=n.size(); n.push_back({a,b,k}); sim.emplace_back(W); for(size_t w=0;w<W;w++) simNode(id,w); inCls.push_back(0); lev.push_back(k>=2? 1+std::max(lev[a>>1],lev[b>>1]):0); return id; }
  void addWord(){ // new word from seedIn (cex) with neighbours
    W++; for(size_t i=0;i<inSim.size();i++){ u64 base=seedIn[i]?~0ULL:0; u64 flip=rnd64()&rnd64()&rnd64()&rnd64(); flip&=~1ULL; inSim[i].push_back(base^flip); }
    for(uint32_t id=0;id<n.size();id++){ sim[id].push_back(0); simNode(id,W-1);} if(!careN.empty()) fixLanes(W-1);
    cls.clear(); for(uint32_t id=0;id<n.size();id++) if(inCls[id]) cls[key(id)].push_back(id); }
  // equality of two nodes decided on a window below them: nodes outside the window are free variables (sound for "equal")
  uint32_t curG=0; std::vector<int> wv; std::vector<uint32_t> wAll; size_t winMerges=0;
  bool localProve(uint32_t a,uint32_t b,bool ph,size_t K,i64 confl,bool bfs){ size_t hd=0;
    if(wv.size()<n.size()) wv.resize(n.size()+4096,-1); Minisat::Solver q; wAll.clear();
    auto cmp=[&](uint32_t x,uint32_t y){ return lev[x]<lev[y]||(lev[x]==lev[y]&&x<y); }; std::vector<uint32_t> hp; size_t in=0;
    auto see=[&](uint32_t x){ if(wv[x]<0){ wv[x]=q.newVar(); wAll.push_back(x); if(n[x].k>=2){ hp.push_back(x); if(!bfs) std::push_heap(hp.begin(),hp.end(),cmp); } else if(n[x].k==0) q.addClause(Minisat::mkLit(wv[x],true)); } return wv[x]; };
    see(a); see(b);
    while(hd<hp.size()&&in<K){ uint32_t x; if(bfs) x=hp[hd++]; else { std::pop_heap(hp.begin(),hp.end(),cmp); x=hp.back(); hp.pop_back(); } in++; const N&d=n[x]; auto o=Minisat::mkLit(wv[x]); int va=see(d.a>>1),vb=see(d.b>>1); auto A=Minisat::mkLit(va,d.a&1),B=Minisat::mkLit(vb,d.b&1);
      if(d.k==2){ q.addClause(~o,A); q.addClause(~o,B); q.addClause(o,~A,~B); } else { q.addClause(~o,A,B); q.addClause(~o,~A,~B); q.addClause(o,~A,B); q.addClause(o,A,~B); } }
    auto x=Minisat::mkLit(wv[a]),y=Minisat::mkLit(wv[b],ph); bool ok=true;
    for(int r=0;r<2&&ok;r++){ Minisat::vec<Minisat::Lit> as; as.push(r?~x:x); as.push(r?y:~y); q.setConfBudget(confl); if(q.solveLimited(as)!=L_FALSE) ok=false; }
    for(uint32_t z:wAll) wv[z]=-1; if(ok) winMerges++; return ok; }
  // canonical linear form of an exclusive-or over nodes that are not exclusive-ors themselves
  std::vector<std::vector<uint32_t>> lin; std::unordered_map<u64,std::vector<uint32_t>> linT; static const size_t LINCAP=600; size_t linMerges=0;
  void linOf(uint32_t id,std::vector<uint32_t>&o){ if(id<lin.size()&&!lin[id].empty()) o=lin[id]; else o.assign(1,id); }
  static u64 linKey(const std::vector<uint32_t>&v){ u64 h=99+v.size(); for(uint32_t x:v) h=XAG::mix(h*31+x); return h; }
  // returns representative literal for lit l (after sweeping)
  Lit sweep(Lit l,i64 budget){ uint32_t id=l>>1; if(inCls[id]||n[id].k<2) { return l; }
    std::vector<uint32_t> bad; int lvl=0; // candidates whose query ran out of budget; cheap round first
    while(true){ u64 k=key(id); auto it=cls.find(k); if(it==cls.end()) break; uint32_t cand=~0u; bool ph=false; 
      uint32_t bd=~0u; for(uint32_t c:it->second){ uint32_t d= n[c].k==0? 100000: lev[c]>lev[id]? lev[c]-lev[id]: lev[id]-lev[c]; if(d>=bd||std::find(bad.begin(),bad.end(),c)!=bad.end()) continue; bool p=((sim[c][0]^sim[id][0])&1); bool eq=true; for(size_t w=0;w<W&&eq;w++) if(sim[c][w]!=(p?~sim[id][w]:sim[id][w])) eq=false; if(eq){cand=c;ph=p;bd=d;} }
      if(cand==~0u||bad.size()>=(lvl==3?2u:lvl==2?3u:lvl==1?16u:48u)||now()>deadline){ if(lvl<3&&!bad.empty()&&now()<deadline&&hard<0.5*(deadline-start)){ lvl++; bad.clear(); continue; } break; } double tq=now();
      tries++; { static const size_t WK[4]={40,400,2500,0}; static const i64 WC[4]={60,600,6000,0}; if(WK[lvl]&&(localProve(id,cand,ph,WK[lvl],WC[lvl],true)||localProve(id,cand,ph,WK[lvl],WC[lvl],false))){ if(lvl) hard+=now()-tq; merges++; return (cand*2)^(ph?1:0)^(l&1); } }
      V(id); V(cand); auto x=Minisat::mkLit(var[id]), y=Minisat::mkLit(var[cand],ph); bool un=false,diff=false;
      for(int r=0;r<2&&!un&&!diff;r++){ Minisat::vec<Minisat::Lit> as; as.push(r?~x:x); as.push(r?y:~y); s->setConfBudget(lvl==3?budget*50:lvl==2?budget*2:lvl==1?80:12); auto q=s->solveLimited(as); if(q==L_TRUE) diff=true; else if(q==L_UNDEF) un=true; }
      if(lvl) hard+=now()-tq;
      if(diff){ cexs++; for(size_t i=0;i<inSim.size();i++){ seedIn[i]=0; } for(uint32_t i=0;i<n.size();i++) if(n[i].k==1&&i<var.size()&&var[i]>=0) seedIn[n[i].a]= s->model[var[i]]==L_TRUE; addWord(); continue; }
      if(un){ bad.push_back(cand); unk++; continue; }
      { Minisat::vec<Minisat::Lit> c; c.push(~x); c.push(y); s->addClause_(c); c.clear(); c.push(x); c.push(~y); s->addClause_(c); }
      merges++; return (cand*2)^(ph?1:0)^(l&1); }
    if(!bad.empty()&&getenv("FRAIG_DBG3")&&id==(uint32_t)atoi(getenv("FRAIG_DBG3"))){ std::function<void(uint32_t,int)> pr=[&](uint32_t x,int d){ fprintf(stderr,"%*s%u k%d l%u",d*2,"",x,n[x].k,lev[x]); if(n[x].k>=2){ fprintf(stderr," %s%u %s%u\n",n[x].a&1?"~":"",n[x].a>>1,n[x].b&1?"~":"",n[x].b>>1); if(d<14){ pr(n[x].a>>1,d+1); pr(n[x].b>>1,d+1); } } else fprintf(stderr," in\n"); }; pr(id,0); for(uint32_t b:bad){ fprintf(stderr,"CAND\n"); pr(b,0); } }
    if(!bad.empty()&&getenv("FRAIG_DBG2")){ static int c=0; if(c++<60) fprintf(stderr,"[%d] unresolved g=%u id=%u lev=%u k=%d cands:",(int)getpid(),curG,id,lev[id],n[id].k); if(c<=60){ for(uint32_t b:bad) fprintf(stderr," %u(l%u)",b,lev[b]); fprintf(stderr,"\n"); } }
    inCls[id]=1; cls[key(id)].push_back(id); return l; }
  std::vector<Lit> careN; // literals (of this graph) that may be taken as true: every simulated pattern satisfies them
  bool fixLanes(size_t w){ // lanes of word w that break a care literal are replaced by copies of lanes that do not
    u64 ok=~0ULL; for(Lit c:careN){ u64 v=sim[c>>1][w]; ok&= (c&1)? ~v: v; } if(ok==~0ULL) return true; if(!ok) return false; int g=__builtin_ctzll(ok);
    for(auto&v:inSim){ u64 b=((v[w]>>g)&1)?~0ULL:0; v[w]=(v[w]&ok)|(b&~ok); } for(uint32_t id=0;id<n.size();id++) simNode(id,w); return true; }
  bool addCare(Lit c){ if(c==1) return true; if(c==0) return false; uint32_t id=c>>1; V(id); Minisat::vec<Minisat::Lit> q; q.push(Minisat::mkLit(var[id],c&1)); s->addClause_(q); careN.push_back(c);
    std::vector<size_t> dead; bool any=false; for(size_t w=0;w<W;w++) if(!fixLanes(w)) dead.push_back(w);
    if(!dead.empty()){ size_t g=~(size_t)0; for(size_t w=0;w<W;w++) if(std::find(dead.begin(),dead.end(),w)==dead.end()){ g=w; break; }
      if(g==~(size_t)0){ Minisat::vec<Minisat::Lit> as; s->setConfBudget(20000); if(s->solveLimited(as)!=L_TRUE) return false; std::vector<char> b(inSim.size(),0); for(uint32_t i=0;i<n.size();i++) if(n[i].k==1&&i<var.size()&&var[i]>=0) b[n[i].a]= s->model[var[i]]==L_TRUE; for(size_t i=0;i<inSim.size();i++) inSim[i][0]= b[i]?~0ULL:0; for(uint32_t k=0;k<n.size();k++) simNode(k,0); g=0; }
      for(size_t w:dead) if(w!=g){ for(auto&v:inSim) v[w]=v[g]; for(uint32_t k=0;k<n.size();k++) simNode(k,w); } }
    (void)any; cls.clear(); for(uint32_t k=0;k<n.size();k++) if(inCls[k]) cls[key(k)].push_back(k); return true; }
  std::vector<Lit> run(const std::vector<Lit>&roots0,i64 budget,double dl,const std::vector<Model>&seeds,const std::vector<Lit>&care={}){
    std::vector<Lit> roots(care.begin(),care.end()); size_t nc=care.size(); roots.insert(roots.end(),roots0.begin(),roots0.end()); size_t ri=0;
    deadline=dl; start=now(); W=SW+8; n.push_back({0,0,0}); sim.emplace_back(W); inCls.push_back(1); lev.push_back(0); 
    mp[0]=0; std::vector<std::pair<uint32_t,int>> st; std::vector<uint32_t> order;
    // constants participate as candidate
    bool constAdded=false;
    for(Lit r:roots){ st.push_back({r>>1,0}); ri++;
      while(!st.empty()){ uint32_t id=st.back().first; if(mp.count(id)){st.pop_back();continue;} const XNode x=G.n[id];
        if(st.back().second==0){ st.back().second=1; auto need=[&](uint32_t q){ if(!mp.count(q)) st.push_back({q,0}); };
          if(x.kind==K_AND){need(x.a>>1);need(x.b>>1);} else if(x.kind==K_XOR) for(uint32_t i=0;i<x.b;i++) need(G.pool[x.a+i]); else if(x.kind==K_TAB){ need(G.expandTab(id)>>1);} continue; }
        st.pop_back();
        if(x.kind==K_INPUT){ std::vector<u64> w(W); for(size_t i=0;i<W;i++) w[i]= i<(size_t)SW? G.sim[id].w[i]: (i<(size_t)SW+3||i>=(size_t)SW+8)? rnd64(): G.structured(1+(int)(i-SW-3),G.inName[x.a]); 
            for(size_t i=0;i<seeds.size()&&i<64;i++){ u64 b=x.a<seeds[i].size()?seeds[i][x.a]:0; w[SW]=(w[SW]&~(1ULL<<i))|(b<<i);} 
            inSim.push_back(w); seedIn.push_back(0); inIdx.push_back(x.a); uint32_t v=newN(1,inSim.size()-1,0); inCls[v]=1; cls[key(v)].push_back(v); if(!constAdded){ constAdded=true; cls[key(0)].push_back(0);} mp[id]=v*2; continue; }
        if(x.kind==K_TAB){ Lit e=G.expandTab(id); mp[id]=mp[e>>1]^(e&1); continue; }
        auto M=[&](Lit l){ return mp[l>>1]^(l&1); };
        curG=id; Lit r2; if(x.kind==K_AND) r2=sweep(mk(2,M(x.a),M(x.b)),budget);
        else { r2=mp[G.pool[x.a]]; for(uint32_t i=1;i<x.b;i++){ r2=mk(3,r2,mp[G.pool[x.a+i]]); if(r2>1) r2=sweep(r2,budget);} }
        mp[id]=r2; }
      if(ri<=nc){ if(!addCare(mp[r>>1]^(r&1))) nc=0; else mp[r>>1]=1^(r&1); } }
    std::vector<Lit> out; for(Lit r:roots0) out.push_back(mp[r>>1]^(r&1));
    if(getenv("FRAIG_DBG")) fprintf(stderr,"[%d] fraig n=%zu lin=%zu win=%zu merges=%zu tries=%zu cexs=%zu unk=%zu W=%zu timeleft=%.1f\n",(int)getpid(),n.size(),linMerges,winMerges,merges,tries,cexs,unk,W,deadline-now()); ST.sweepMerges+=merges; ST.sweepQueries+=tries; return out; }
  Res solveAny(const std::vector<Lit>&bads,double tl,Model*m){ // OR of bads satisfiable? (new lits)
    Minisat::vec<Minisat::Lit> c; auto act=Minisat::mkLit(s->newVar()); c.push(~act); for(Lit b:bads){ V(b>>1); c.push(Minisat::mkLit(var[b>>1],b&1)); } s->addClause_(c);
    double t0=now(); while(true){ Minisat::vec<Minisat::Lit> as; as.push(act); s->setConfBudget(5000); auto q=s->solveLimited(as); if(q==L_FALSE) return UNSAT; if(q==L_TRUE){ if(m){ m->assign(G.inNode.size(),0); for(uint32_t i=0;i<n.size();i++) if(n[i].k==1&&i<var.size()&&var[i]>=0) (*m)[inIdx[n[i].a]]= s->model[var[i]]==L_TRUE; } return SAT; } if(now()-t0>tl) return UNK; } }
  Res kissat(const std::vector<Lit>&bads,double tl,Model*m){
    ST.kissatRuns++; std::vector<int> v(n.size(),0); int nv=0; std::vector<uint32_t> st; std::vector<uint32_t> ord; for(Lit b:bads) st.push_back(b>>1); for(Lit c:careN) st.push_back(c>>1);
    std::vector<char> seen(n.size(),0); while(!st.empty()){ uint32_t x=st.back(); st.pop_back(); if(seen[x])continue; seen[x]=1; ord.push_back(x); v[x]=++nv; if(n[x].k>=2){st.push_back(n[x].a>>1);st.push_back(n[x].b>>1);} }
    char fn[256]; snprintf(fn,sizeof fn,"%s/k%d_%llu.cnf",g_tmp.c_str(),(int)getpid(),(unsigned long long)ST.kissatRuns); FILE*f=fopen(fn,"w"); if(!f) return UNK; u64 nc=0; std::string body; auto L=[&](Lit l){ return (l&1)?-v[l>>1]:v[l>>1]; }; char buf[128];
    for(uint32_t x:ord){ int o=v[x]; if(n[x].k==0){ snprintf(buf,128,"%d 0\n",-o); body+=buf; nc++; } else if(n[x].k>=2){ int a=L(n[x].a),b=L(n[x].b); if(n[x].k==2){ snprintf(buf,128,"%d %d 0\n%d %d 0\n%d %d %d 0\n",-o,a,-o,b,o,-a,-b); nc+=3; } else { snprintf(buf,128,"%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n",-o,a,b,-o,-a,-b,o,-a,b,o,a,-b); nc+=4; } body+=buf; } }
    for(Lit b:bads){ body+=std::to_string(L(b))+" "; } body+="0\n"; nc++; for(Lit c:careN){ body+=std::to_string(L(c))+" 0\n"; nc++; }
    fprintf(f,"p cnf %d %llu\n%s",nv,(unsigned long long)nc,body.c_str()); fclose(f); body.clear(); body.shrink_to_fit();
    char cmd[512]; snprintf(cmd,sizeof cmd,"timeout %d kissat -q --time=%d %s 2>/dev/null",(int)tl+5,(int)std::max(1.0,tl),fn); FILE*p=popen(cmd,"r"); Res r=UNK; std::vector<char> val(nv+1,0); char line[1<<16];
    while(p&&fgets(line,sizeof line,p)){ if(line[0]=='s'){ if(strstr(line,"UNSAT")) r=UNSAT; else if(strstr(line,"SATISF")) r=SAT; } else if(line[0]=='v'){ char*q=line+1; while(true){ char*e; long x=strtol(q,&e,10); if(e==q)break; q=e; if(x>0&&x<=nv) val[x]=1; } } }
    if(p) pclose(p); unlink(fn);
    if(r==SAT&&m){ m->assign(G.inNode.size(),0); for(uint32_t i=0;i<n.size();i++) if(n[i].k==1&&v[i]) (*m)[inIdx[n[i].a]]=val[v[i]]; }
    return r; }
};

// Is some literal of `bads` satisfiable?  (each bad already includes its path condition)
static Res decideAny(const std::vector<Lit>&bads0,double tl,Model*m,std::string*how,const std::vector<Lit>&care={}){
  double t0=now(); std::vector<Lit> bads; for(Lit b:bads0) if(b!=0) bads.push_back(b);
  ST.queries++; Res r=UNK; 
  auto done=[&](Res x,const char*h){ ST.time+=now()-t0; if(how)*how=h; if(x==SAT)ST.satQ++; else if(x==UNSAT)ST.unsatQ++; else ST.unkQ++; return x; };
  if(bads.empty()){ ST.structural++; return done(UNSAT,"structural"); }
  for(Lit b:bads) for(int k=0;k<SW;k++){ u64 w=G.word(b,k); if(w){ int j=__builtin_ctzll(w); if(m){ m->assign(G.inNode.size(),0); for(size_t i=0;i<G.inNode.size();i++) (*m)[i]=(G.sim[G.inNode[i]].w[k]>>j)&1; } ST.simSat++; return done(SAT,"simulation-witness"); } }
  { Cnf c; c.cutTab=true; for(Lit b:bads) c.encode(b); // table outputs as free variables: sound for unsatisfiability
    if(c.cutUsed){ auto act=Minisat::mkLit(c.nv()); Minisat::vec<Minisat::Lit> cl; cl.push(~act); for(Lit b:bads) cl.push(c.ml(b)); c.s->addClause_(cl); double ts=now(); while(now()-ts<std::min(tl*0.2,6.0)){ Minisat::vec<Minisat::Lit> as; as.push(act); c.s->setConfBudget(2000); auto q=c.s->solveLimited(as); if(q==L_FALSE) return done(UNSAT,"minisat-cut"); if(q==L_TRUE) break; } } }
  { Cnf c; Lit any=bads[0]; 
    if(bads.size()>1){ // activation clause
      for(Lit b:bads) c.encode(b); auto act=Minisat::mkLit(c.nv()); Minisat::vec<Minisat::Lit> cl; cl.push(~act); for(Lit b:bads) cl.push(c.ml(b)); c.s->addClause_(cl);
      double ts=now(); double lim=std::min(tl*0.15,4.0); while(true){ Minisat::vec<Minisat::Lit> as; as.push(act); c.s->setConfBudget(2000); auto q=c.s->solveLimited(as); if(q==L_FALSE){r=UNSAT;break;} if(q==L_TRUE){ r=SAT; if(m){ m->assign(G.inNode.size(),0); for(size_t i=0;i<G.inNode.size();i++){ uint32_t id=G.inNode[i]; if(id<c.var.size()&&c.var[id]>=0)(*m)[i]=c.s->model[c.var[id]]==L_TRUE; } } break; } if(now()-ts>lim) break; }
      if((u64)c.s->nVars()>ST.maxVars) ST.maxVars=c.s->nVars();
    } else r=c.solve({any},std::min(tl*0.15,4.0),-1,m); }
  if(r!=UNK) return done(r,"minisat");
  { Fraig f; std::vector<Lit> nb=f.run(bads,400,t0+tl*0.5,{},care); std::vector<Lit> rem; for(Lit l:nb) if(l!=0) rem.push_back(l);
    if(rem.empty()) return done(UNSAT,"sweep");
    for(Lit l:rem) if(l==1){ if(m) m->assign(G.inNode.size(),0); return done(SAT,"sweep-const"); }
    r=f.solveAny(rem,std::max(1.0,std::min(tl*0.1,5.0)),m); if(r!=UNK) return done(r,"sweep+minisat");
    double left=tl-(now()-t0); if(left>=1){ r=f.kissat(rem,left,m); if(r!=UNK) return done(r,"sweep+kissat"); } }
  return done(UNK,"budget"); }
