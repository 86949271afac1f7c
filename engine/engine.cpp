// symex: symbolic executor for LLVM IR with state merging, bit-blasting to an XAG and SAT.
#include "solve.h"
#include "bv.h"
#include "tables.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <unordered_set>
#include <set>
#include <cmath>
#include <cerrno>
using namespace llvm;
u64 g_rng=0x9E3779B97F4A7C15ULL; XAG G; SolverStats ST; std::string g_tmp="/tmp"; const uint8_t* g_tables[4]={T_S,T_I,0,0};

// ------------------------------------------------------------------ shared across forked processes
struct Shared { sem_t tok; volatile u64 paths,deadPaths,obl,structural,decided,undecided,violations,errors,instrs,queries,satQ,unsatQ,unkQ,simSat,sweepMerges,sweepQueries,kissatRuns,maxVars,maxNodes,loopMax; volatile double solveTime; volatile u64 nviol; volatile char fn[1<<16]; volatile u64 reachN; char reachLbl[256][96]; volatile u64 reachHit[256]; volatile u64 stop; volatile u64 live; };
static Shared*SH; static std::string g_out; static double g_deadline,g_qtime=20; static int g_jobs=8; static u64 g_maxViol=4;
static void appendLine(const std::string&s){ int fd=open((g_out+"/events.jsonl").c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); std::string t=s+"\n"; ssize_t r=write(fd,t.data(),t.size()); (void)r; close(fd); }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
#define ATOMADD(f,v) __sync_fetch_and_add(&SH->f,(u64)(v))
struct Unsupported { std::string why; };
static std::string curLoc(); static std::string g_lastLoc;
[[noreturn]] static void unsup(const std::string&w){ g_lastLoc=curLoc(); throw Unsupported{w}; }

// ------------------------------------------------------------------ memory
struct Obj { u64 base,size; Lit alive=1; uint8_t kind; bool ro=false; std::vector<uint8_t> val,st; std::vector<Lit> lits; std::string tag; };
static std::vector<Obj*> objs; static u64 nextAddr=0x10000000ULL; static Obj*lastHit=nullptr;
struct JE { Obj*o; u64 off; uint8_t kind,st,val; Lit l[8]; };
static std::vector<JE> jlog; static int jdepth=0;
static Obj* newObj(u64 size,u64 align,uint8_t kind,const std::string&tag){ Obj*o=new Obj; if(align<16) align=16; nextAddr=(nextAddr+align-1)/align*align; o->base=nextAddr; o->size=size; o->kind=kind; o->tag=tag; if(size>(1ULL<<31)) unsup("huge allocation"); o->val.assign(size,0); o->st.assign(size,2); nextAddr+=size+65536+(size>65536?size:0); objs.push_back(o);
  if(jdepth){ JE e; e.o=o; e.off=0; e.kind=1; e.l[0]=0; jlog.push_back(e); } return o; }
static Obj* findObj(u64 a){ if(lastHit&&a>=lastHit->base&&a<lastHit->base+lastHit->size) return lastHit;
  size_t lo=0,hi=objs.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(objs[m]->base<=a) lo=m+1; else hi=m; } if(lo==0) return nullptr; Obj*o=objs[lo-1]; if(a<o->base+o->size||(a==o->base)) { if(a<o->base+o->size) lastHit=o; return o; } return nullptr; }
static Obj* nearObj(u64 a){ size_t lo=0,hi=objs.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(objs[m]->base<=a) lo=m+1; else hi=m; } return lo?objs[lo-1]:nullptr; }
static inline void logByte(Obj*o,u64 off){ if(!jdepth) return; JE e; e.o=o; e.off=off; e.kind=0; e.st=o->st[off]; e.val=o->val[off]; if(e.st==1) memcpy(e.l,&o->lits[8*off],32); jlog.push_back(e); }
struct SB { uint8_t st=0,val=0; Lit l[8]; };
static SB getSB(Obj*o,u64 off){ SB s; s.st=o->st[off]; s.val=o->val[off]; if(s.st==1) memcpy(s.l,&o->lits[8*off],32); return s; }
static void rawSet(Obj*o,u64 off,const SB&s){ o->st[off]=s.st; o->val[off]=s.val; if(s.st==1){ if(o->lits.empty()) o->lits.resize(o->size*8); memcpy(&o->lits[8*off],s.l,32); } }
static void putSB(Obj*o,u64 off,const SB&s){ logByte(o,off); rawSet(o,off,s); }
static u64 uninitCount=0;
static void materialize(Obj*o,u64 off){ SB s; s.st=1; char nm[64]; snprintf(nm,64,"uninit%llu",(unsigned long long)uninitCount++); for(int i=0;i<8;i++) s.l[i]=G.newInput(nm); rawSet(o,off,s); }
static void setAlive(Obj*o,Lit a){ if(jdepth){ JE e; e.o=o; e.off=0; e.kind=1; e.l[0]=o->alive; jlog.push_back(e);} o->alive=a; }

// ------------------------------------------------------------------ path state
static Lit PC=1, EXTRA=1; static std::unordered_map<Lit,int> pcset; static std::unique_ptr<Cnf> incr;
struct Ob { Lit bad; std::string label,kind,loc; size_t care; };
static std::vector<Ob> obls; static u64 nStructural=0,nInstr=0,unkFeas=0;
struct SymIn { std::string name; int occ; LV l; }; static std::vector<SymIn> symIns; static std::map<std::string,int> symOcc;
struct UfCall { std::string name; BV in,out; }; static std::vector<UfCall> ufs;
static std::vector<std::pair<std::string,u64>> choices;
static bool expired(){ return now()>g_deadline || SH->stop; }
static Res satPC(Lit c,Model*m){ Lit l=G.And(PC,c); if(l==0) return UNSAT; if(l==1){ if(m) m->assign(G.inNode.size(),0); return SAT; }
  for(int k=0;k<SW;k++){ u64 w=G.word(l,k); if(w){ if(m){ int j=__builtin_ctzll(w); m->assign(G.inNode.size(),0); for(size_t i=0;i<G.inNode.size();i++) (*m)[i]=(G.sim[G.inNode[i]].w[k]>>j)&1; } return SAT; } }
  double t0=now(); if(!incr||incr->s->nVars()>1500000) incr.reset(new Cnf()); ST.queries++; Res r=incr->solve({l},std::min(g_qtime,std::max(1.0,g_deadline-now())),50000,m); ST.time+=now()-t0; if(r==SAT)ST.satQ++; else if(r==UNSAT)ST.unsatQ++; else {ST.unkQ++; unkFeas++;} return r; }
static bool feasible(Lit c){ if(c==0) return false; if(c!=1){ if(pcset.count(NOT(c))) return false; if(pcset.count(c)) return true; } else return true; return satPC(c,nullptr)!=UNSAT; }
static std::vector<Lit> careL; // conditions assumed at the top level of the path, in order
static void assume(Lit c){ if(c==1) return; if(!jdepth) careL.push_back(c); PC=G.And(PC,c); EXTRA=G.And(EXTRA,c); if(c>1) pcset[c]++; }
struct FnInfo;
static void oblige(Lit ok,const std::string&label,const char*kind){ Lit bad=G.And(PC,NOT(ok)); if(bad==0||pcset.count(ok)){ nStructural++; return; } obls.push_back({bad,label,kind,curLoc(),careL.size()}); }

// ------------------------------------------------------------------ module
static Module*M; static const DataLayout*DL; static LLVMContext Ctx;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<u64,Function*> faddr;
static uint32_t vw(Type*t){ if(t->isPointerTy()) return 64; if(auto*v=dyn_cast<FixedVectorType>(t)) return v->getNumElements()*vw(v->getElementType()); if(auto*s=dyn_cast<StructType>(t)){ uint32_t w=0; for(Type*e:s->elements()) w+=vw(e); return w; } if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*vw(a->getElementType()); if(t->isX86_FP80Ty()) return 80; if(t->isVoidTy()) return 0; return (uint32_t)t->getPrimitiveSizeInBits().getFixedValue(); }
static u64 globalAddr(const GlobalValue*g);
static BV evalConst(const Constant*c){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ uint32_t w=ci->getBitWidth(); if(w<=64) return C(w,ci->getZExtValue()); LV l(w); for(uint32_t i=0;i<w;i++) l[i]=ci->getValue()[i]; return fromLits(std::move(l)); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt a=cf->getValueAPF().bitcastToAPInt(); LV l(a.getBitWidth()); for(uint32_t i=0;i<l.size();i++) l[i]=a[i]; return fromLits(std::move(l)); }
  if(isa<ConstantPointerNull>(c)) return C(64,0);
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return C(vw(t),0);
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ std::vector<BV> p; for(unsigned i=0;i<cd->getNumElements();i++) p.push_back(evalConst(cd->getElementAsConstant(i))); return concat(p); }
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ std::vector<BV> p; for(unsigned i=0;i<ca->getNumOperands();i++) p.push_back(evalConst(cast<Constant>(ca->getOperand(i)))); return concat(p); }
  if(auto*g=dyn_cast<GlobalValue>(c)) return C(64,globalAddr(g));
  if(auto*be=dyn_cast<BlockAddress>(c)) { (void)be; unsup("blockaddress"); }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    auto op=[&](int i){ return evalConst(cast<Constant>(e->getOperand(i))); };
    switch(e->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off)) unsup("const gep"); return bAdd(op(0),C(64,(u128)(i128)off.getSExtValue())); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Trunc: return bZext(op(0),vw(t));
      case Instruction::SExt: return bSext(op(0),vw(t));
      case Instruction::Add: return bAdd(op(0),op(1)); case Instruction::Sub: return bSub(op(0),op(1)); case Instruction::Mul: return bMul(op(0),op(1)); case Instruction::Xor: return bXor(op(0),op(1)); case Instruction::Shl: return bShift(0,op(0),op(1));
      case Instruction::ICmp:{ BV a=op(0),b=op(1); switch(e->getPredicate()){ case CmpInst::ICMP_EQ: return C(1,bEq(a,b)); case CmpInst::ICMP_NE: return C(1,NOT(bEq(a,b))&1); default: unsup("const icmp"); } }
      default: unsup(std::string("constexpr ")+e->getOpcodeName()); } }
  if(auto*d=dyn_cast<DSOLocalEquivalent>(c)) return evalConst(d->getGlobalValue());
  unsup("constant kind"); }
static u64 globalAddr(const GlobalValue*g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto*a=dyn_cast<GlobalAlias>(g)){ u64 v=(u64)evalConst(a->getAliasee()).c; gaddr[g]=v; return v; }
  if(auto*f=dyn_cast<Function>(g)){ Obj*o=newObj(16,16,3,f->getName().str()); o->ro=true; gaddr[g]=o->base; faddr[o->base]=const_cast<Function*>(f); return o->base; }
  auto*v=cast<GlobalVariable>(g); u64 sz= v->getValueType()->isSized()? DL->getTypeAllocSize(v->getValueType()).getFixedValue():64; u64 rsz= v->isDeclaration()? std::max<u64>(sz,512):sz; 
  int sd=jdepth; jdepth=0; u64 al0=v->getAlign()?v->getAlign()->value():16; if(v->isConstant()&&rsz>=16&&rsz<=65536) while(al0<rsz) al0*=2; Obj*o=newObj(rsz,al0,0,v->getName().str()); jdepth=sd; gaddr[g]=o->base;
  if(v->isDeclaration()){ std::fill(o->st.begin(),o->st.end(),0); StringRef n=v->getName(); if(n=="stderr"||n=="stdout"||n=="stdin"){ Obj*f=newObj(256,16,0,"FILE"); std::fill(f->st.begin(),f->st.end(),0); for(int i=0;i<8;i++) o->val[i]=(f->base>>(8*i))&255; } }
  return o->base; }
static void initMem(Obj*o,u64 off,const Constant*c){ Type*t=c->getType(); u64 sz=DL->getTypeAllocSize(t).getFixedValue();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)){ for(u64 i=0;i<sz;i++){o->st[off+i]=0;o->val[off+i]=0;} return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ u64 es=cd->getElementByteSize(); StringRef raw=cd->getRawDataValues(); (void)es; for(size_t i=0;i<raw.size();i++){o->st[off+i]=0;o->val[off+i]=raw[i];} return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ for(u64 i=0;i<sz;i++){ if(o->st[off+i]==2) o->st[off+i]=0; } auto*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()).getFixedValue(); for(unsigned i=0;i<a->getNumOperands();i++) initMem(o,off+i*es,a->getOperand(i)); return; }
  BV v=evalConst(c); u64 ss=DL->getTypeStoreSize(t).getFixedValue(); v=bZext(v,ss*8); for(u64 i=0;i<sz;i++){ o->st[off+i]=0; o->val[off+i]= i<ss? (uint8_t)slice(v,8*i,8).c:0; } }

// ------------------------------------------------------------------ functions
struct Ins { Instruction*I; unsigned op; int dst; std::vector<int> a; Intrinsic::ID iid; Function*callee; };
struct BBI { std::vector<Ins> ins; unsigned nphi; int ip; BasicBlock*bb; };
struct FnInfo { Function*F; std::vector<BBI> bb; std::unordered_map<const BasicBlock*,int> bid; std::unordered_map<const Value*,int> slot; int nslots=0; std::vector<BV> consts; u64 id=0; };
static std::unordered_map<const Function*,FnInfo*> fns; extern std::unordered_map<const Function*,u64> fnId;
static FnInfo* getFn(Function*F){ auto it=fns.find(F); if(it!=fns.end()) return it->second; FnInfo*f=new FnInfo; fns[F]=f; f->F=F; f->id=fnId[F];
  for(auto&a:F->args()) f->slot[&a]=f->nslots++;
  for(auto&b:*F){ f->bid[&b]=f->bb.size(); f->bb.push_back({}); f->bb.back().bb=&b; }
  for(auto&b:*F) for(auto&i:b) if(!i.getType()->isVoidTy()) f->slot[&i]=f->nslots++;
  auto operand=[&](Value*v)->int{ auto s=f->slot.find(v); if(s!=f->slot.end()) return s->second; if(auto*c=dyn_cast<Constant>(v)){ f->consts.push_back(evalConst(c)); return -(int)f->consts.size(); } if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)) return INT32_MIN; if(isa<InlineAsm>(v)) return INT32_MIN; unsup("operand"); };
  for(auto&b:*F){ BBI&B=f->bb[f->bid[&b]]; B.nphi=0; for(auto&i:b){ if(isa<DbgInfoIntrinsic>(i)) continue; Ins x; x.I=&i; x.op=i.getOpcode(); x.dst= i.getType()->isVoidTy()? -1: f->slot[&i]; x.iid=Intrinsic::not_intrinsic; x.callee=nullptr; if(isa<PHINode>(i)) B.nphi++;
      if(auto*cb=dyn_cast<CallBase>(&i)){ for(auto&o:cb->args()) x.a.push_back(operand(o)); Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(cv)){ x.callee=cf; x.iid=cf->getIntrinsicID(); } else x.a.push_back(operand(cb->getCalledOperand())); }
      else for(auto&o:i.operands()) x.a.push_back(operand(o));
      B.ins.push_back(x); } }
  // immediate post-dominators over blocks that can reach a return
  int n=f->bb.size(); std::vector<std::vector<int>> succ(n),pred(n); std::vector<int> rets; for(auto&b:*F){ int u=f->bid[&b]; for(auto*s:successors(&b)){ int v=f->bid[s]; succ[u].push_back(v); pred[v].push_back(u);} if(isa<ReturnInst>(b.getTerminator())) rets.push_back(u); }
  std::vector<char> live(n,0); std::vector<int> st=rets; for(int r:rets) live[r]=1; while(!st.empty()){ int u=st.back(); st.pop_back(); for(int p:pred[u]) if(!live[p]){live[p]=1;st.push_back(p);} }
  // reverse graph postorder from virtual exit n
  std::vector<int> po(n+1,-1),ord; { std::vector<std::pair<int,size_t>> s2; std::vector<char> vis(n+1,0); auto nb=[&](int u)->const std::vector<int>&{ return u==n?rets:pred[u]; }; s2.push_back({n,0}); vis[n]=1; while(!s2.empty()){ int u=s2.back().first; if(s2.back().second<nb(u).size()){ int v=nb(u)[s2.back().second++]; if(live[v]&&!vis[v]){vis[v]=1;s2.push_back({v,0});} } else { po[u]=ord.size(); ord.push_back(u); s2.pop_back(); } } }
  std::vector<int> id(n+1,-1); id[n]=n; bool ch=true; auto inter=[&](int a,int b){ while(a!=b){ while(po[a]<po[b]) a=id[a]; while(po[b]<po[a]) b=id[b]; } return a; };
  while(ch){ ch=false; for(int k=(int)ord.size()-1;k>=0;k--){ int u=ord[k]; if(u==n) continue; int nw=-1; if(isa<ReturnInst>(f->bb[u].bb->getTerminator())) nw=n; for(int s:succ[u]) if(live[s]&&id[s]>=0) nw= nw<0? s: inter(nw,s); if(nw>=0&&id[u]!=nw){id[u]=nw;ch=true;} } }
  for(int i=0;i<n;i++) f->bb[i].ip= (live[i]&&id[i]>=0&&id[i]!=n)? id[i]: -1;
  return f; }
enum RK { Reached, Returned, Dead };
struct Frame { FnInfo*f; std::vector<BV> s; std::vector<Obj*> allocas; std::vector<std::pair<int,BV>> undo; int depth=0; std::vector<BV> phi; BV ret; std::vector<BV> va; Instruction*cur=nullptr; Frame*up=nullptr; u64 iters=0; };
static Frame*top=nullptr; static int callDepth=0;
static std::string curLoc(){ std::string r; int k=0; for(Frame*f=top;f&&k<6;f=f->up,k++){ std::string s=demangle(f->f->F->getName().str()); size_t p=s.find('('); if(p!=std::string::npos) s=s.substr(0,p); if(s.size()>80) s=s.substr(0,80); if(f->cur) if(auto&d=f->cur->getDebugLoc()) { auto*sc=dyn_cast<DIScope>(d->getScope()); std::string fn=sc?sc->getFilename().str():""; size_t q=fn.rfind('/'); if(q!=std::string::npos) fn=fn.substr(q+1); s+="@"+fn+":"+std::to_string(d.getLine()); } r+=(k?" < ":"")+s; } return r; }
static inline const BV& val(Frame&f,int i){ return i>=0? f.s[i]: f.f->consts[-i-1]; }
static inline void setv(Frame&f,int d,BV&&v){ if(f.depth) f.undo.push_back({d,std::move(f.s[d])}); f.s[d]=std::move(v); }

// violation of an always-failing kind at the current point: records and kills the path
static RK fault(const std::string&label,const char*kind){ oblige(0,label,kind); return Dead; }
struct PathDead {};
[[noreturn]] static void die(const std::string&label,const char*kind){ fault(label,kind); throw PathDead{}; }

// -------- access resolution
static void checkAlive(Obj*o,const char*what){ if(o->alive==1) return; if(o->alive==0) die(std::string(what)+" of dead object "+(o->kind==2?"(use after free)":"(use after scope)"),"memory"); if(satPC(NOT(o->alive),nullptr)!=UNSAT){ oblige(o->alive,std::string(what)+" of possibly dead object","memory"); assume(o->alive); } }
static Obj* objFor(u64 a,u64 n,const char*what){ Obj*o=findObj(a); if(!o||a+n>o->base+o->size){ Obj*x=nearObj(a); char b[256]; snprintf(b,256,"out-of-bounds %s of %llu bytes at offset %lld of object '%s' size %llu",what,(unsigned long long)n,x?(long long)(a-x->base):0LL,x?x->tag.c_str():"null",x?(unsigned long long)x->size:0ULL); die(a<4096?std::string("null pointer ")+what:b,"memory"); } checkAlive(o,what); return o; }
static BV readC(Obj*o,u64 off,u64 n){ bool conc=n<=16; if(conc) for(u64 i=0;i<n;i++) if(o->st[off+i]){conc=false;break;}
  if(conc){ u128 v=0; memcpy(&v,&o->val[off],n); return C(n*8,v); }
  LV l(n*8); for(u64 i=0;i<n;i++){ if(o->st[off+i]==2) materialize(o,off+i); if(o->st[off+i]==1) memcpy(&l[8*i],&o->lits[8*(off+i)],32); else for(int j=0;j<8;j++) l[8*i+j]=(o->val[off+i]>>j)&1; } return fromLits(std::move(l)); }
static void writeC(Obj*o,u64 off,const BV&v){ u64 n=v.w/8; if(!v.sym){ for(u64 i=0;i<n;i++){ logByte(o,off+i); o->st[off+i]=0; o->val[off+i]=(uint8_t)(v.c>>(8*i)); } return; }
  for(u64 i=0;i<n;i++){ SB s; bool k=true; for(int j=0;j<8;j++){ s.l[j]=(*v.b)[8*i+j]; if(s.l[j]>1)k=false; } if(k){ s.st=0; s.val=0; for(int j=0;j<8;j++) s.val|=s.l[j]<<j; } else s.st=1; putSB(o,off+i,s); } }
static u64 modelVal(const BV&v,const Model&m){ std::vector<Lit> w; for(uint32_t i=0;i<v.w&&i<64;i++) w.push_back(bit(v,i)); auto r=G.evalAll(m,w); u64 x=0; for(size_t i=0;i<r.size();i++) x|=(u64)r[i]<<i; return x; }
static u64 concretize(const BV&v,const char*why);
struct Res1 { Obj*o; Lit c; };
static std::vector<Res1> resolve(const BV&addr,u64 n,const char*what){
  std::vector<Res1> r; { u64 lo=0,hi=0; for(int i=0;i<64;i++){ Lit l=bit(addr,i); if(l==1) lo|=1ULL<<i; if(l!=0) hi|=1ULL<<i; } Obj*o=findObj(lo); if(o&&o->alive==1&&hi>=lo&&hi-o->base<=o->size-std::min(o->size,n)&&o->size>=n){ r.push_back({o,1}); return r; } }
  Lit covered=0; for(int it=0;it<24;it++){ Model m; Res q=satPC(NOT(covered),&m); if(q==UNSAT) break; if(q==UNK) unsup("pointer resolution budget"); u64 a=modelVal(addr,m); Obj*o=findObj(a); if(!o||a+n>o->base+o->size||o->alive==0){ char b[200]; Obj*x=nearObj(a); snprintf(b,200,"out-of-bounds %s (symbolic address) near object '%s' size %llu",what,x?x->tag.c_str():"null",x?(unsigned long long)x->size:0ULL); oblige(covered,b,"memory"); if(r.empty()) throw PathDead{}; assume(covered); break; }
    Lit in=G.And(bUle(C(64,o->base),addr),bUle(addr,C(64,o->base+o->size-n))); if(o->alive!=1&&satPC(G.And(in,NOT(o->alive)),nullptr)!=UNSAT){ Lit ok=G.Or(NOT(in),o->alive); oblige(ok,std::string(what)+" of possibly dead object","memory"); assume(ok); } r.push_back({o,in}); covered=G.Or(covered,in); if(it==23) unsup("too many pointer targets"); }
  return r; }
static BV loadSym(const BV&addr,u64 n){ auto rs=resolve(addr,n,"read"); if(rs.empty()) throw PathDead{}; BV res; bool first=true;
  for(auto&r:rs){ BV off=bSub(addr,C(64,r.o->base)); uint32_t tz=0; while(tz<12&&bit(off,tz)==0) tz++; u64 stride=1ULL<<tz; u64 cnt=(r.o->size-n)/stride+1; BV v;
    if(cnt>65536) { u64 a=concretize(addr,"load from large object"); return readC(r.o,a-r.o->base,n); }
    if(n==1&&tz<1&&r.o->size==256){ bool hi=true; for(uint32_t i=8;i<64&&hi;i++) hi=bit(off,i)==0; bool cc=hi; for(u64 i=0;i<256&&cc;i++) cc=r.o->st[i]==0; int tt=-1; if(cc) for(int t=0;t<2;t++) if(!memcmp(&r.o->val[0],g_tables[t],256)) tt=t;
      if(tt>=0){ LV in(8),out(8); for(int i=0;i<8;i++) in[i]=bit(off,i); G.Tab(tt,&in[0],&out[0]); v=fromLits(std::move(out)); if(first){res=v;first=false;} else res=bMux(r.c,v,res); continue; } }
    std::vector<BV> cur; for(u64 k=0;k<cnt;k++) cur.push_back(readC(r.o,k*stride,n)); uint32_t bi=tz; while(cur.size()>1){ std::vector<BV> nx; for(size_t i=0;i<cur.size();i+=2) nx.push_back(i+1<cur.size()? bMux(bit(off,bi),cur[i+1],cur[i]):cur[i]); cur.swap(nx); bi++; } v=cur[0];
    if(first){res=v;first=false;} else res=bMux(r.c,v,res); }
  return res; }
static void storeSym(const BV&addr,const BV&v){ u64 n=v.w/8; auto rs=resolve(addr,n,"write");
  for(auto&r:rs){ if(r.o->ro) die("write to read-only object","memory"); BV off=bSub(addr,C(64,r.o->base)); uint32_t tz=0; while(tz<12&&bit(off,tz)==0) tz++; u64 stride=1ULL<<tz; u64 cnt=(r.o->size-n)/stride+1; if(cnt>65536){ u64 a=concretize(addr,"store to large object"); writeC(r.o,a-r.o->base,v); return; }
    for(u64 k=0;k<cnt;k++){ Lit c=bEq(off,C(64,k*stride)); if(rs.size()>1) c=G.And(c,r.c); if(c==0) continue; for(u64 i=0;i<n;i++){ BV old=readC(r.o,k*stride+i,1); writeC(r.o,k*stride+i,bMux(c,slice(v,8*i,8),old)); } } } }
static BV loadBits(const BV&addr,u64 n,u64 align=1){ if(addr.sym) return loadSym(addr,n); u64 a=(u64)addr.c; if(align>=16&&a%align) die("misaligned vector read","memory"); Obj*o=objFor(a,n,"read"); return readC(o,a-o->base,n); }
static void storeBits(const BV&addr,const BV&v,u64 align=1){ if(addr.sym) { storeSym(addr,v); return; } u64 a=(u64)addr.c; if(align>=16&&a%align) die("misaligned vector write","memory"); Obj*o=objFor(a,v.w/8,"write"); if(o->ro) die("write to read-only object '"+o->tag+"'","memory"); writeC(o,a-o->base,v); }
static BV loadT(Type*t,const BV&addr,u64 align){ if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); std::vector<BV> p; for(unsigned i=0;i<s->getNumElements();i++) p.push_back(loadT(s->getElementType(i),bAdd(addr,C(64,(u64)sl->getElementOffset(i))),1)); return concat(p); }
  if(auto*a=dyn_cast<ArrayType>(t)){ std::vector<BV> p; u64 es=DL->getTypeAllocSize(a->getElementType()).getFixedValue(); for(u64 i=0;i<a->getNumElements();i++) p.push_back(loadT(a->getElementType(),bAdd(addr,C(64,i*es)),1)); return concat(p); }
  u64 n=DL->getTypeStoreSize(t).getFixedValue(); BV v=loadBits(addr,n,t->isVectorTy()?align:1); uint32_t w=vw(t); return w==v.w?v:slice(v,0,w); }
static void storeT(Type*t,const BV&addr,const BV&v,u64 align){ if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); uint32_t o=0; for(unsigned i=0;i<s->getNumElements();i++){ uint32_t w=vw(s->getElementType(i)); storeT(s->getElementType(i),bAdd(addr,C(64,(u64)sl->getElementOffset(i))),slice(v,o,w),1); o+=w; } return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ uint32_t w=vw(a->getElementType()); u64 es=DL->getTypeAllocSize(a->getElementType()).getFixedValue(); for(u64 i=0;i<a->getNumElements();i++) storeT(a->getElementType(),bAdd(addr,C(64,i*es)),slice(v,i*w,w),1); return; }
  u64 n=DL->getTypeStoreSize(t).getFixedValue(); storeBits(addr,v.w==n*8?v:bZext(v,n*8),t->isVectorTy()?align:1); }

// -------- forking case split
static void flushStats();
static void finishAndExit(const char*status,const std::string&why);
static u64 chooseFork(const std::vector<u64>&vals,const std::string&name){
  if(vals.size()==1){ choices.push_back({name,vals[0]}); return vals[0]; }
  flushStats(); sem_post(&SH->tok); int out=0; fflush(stdout);
  for(u64 v:vals){ while(out>=64||(out>0&&SH->live>400)){ int s; if(wait(&s)>0){ out--; ATOMADD(live,-1); if(!WIFEXITED(s)||WEXITSTATUS(s)>1){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"child process died (status "+std::to_string(s)+")\"}"); } } }
    if(expired()){ ATOMADD(undecided,1); appendLine("{\"event\":\"undecided\",\"why\":\"deadline before case "+jesc(name)+"="+std::to_string(v)+"\"}"); continue; }
    pid_t p=fork(); if(p==0){ while(sem_wait(&SH->tok)<0&&errno==EINTR); choices.push_back({name,v}); incr.reset(); return v; } if(p<0){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"fork failed\"}"); } else { out++; ATOMADD(live,1); } }
  while(out>0){ int s; if(wait(&s)<=0) break; out--; ATOMADD(live,-1); if(!WIFEXITED(s)||WEXITSTATUS(s)>1){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"child process died (status "+std::to_string(s)+")\"}"); } }
  _exit(0); }
static u64 concretize(const BV&v,const char*why){ if(!v.sym) return (u64)v.c; std::vector<u64> vals; Lit excl=1; while(true){ Model m; Res q=satPC(excl,&m); if(q==UNSAT) break; if(q==UNK) unsup(std::string("concretization budget: ")+why); u64 x=modelVal(v,m); vals.push_back(x); if(vals.size()>300) unsup(std::string("too many values: ")+why); excl=G.And(excl,NOT(bEq(v,C(v.w,x)))); }
  if(vals.empty()) throw PathDead{}; std::sort(vals.begin(),vals.end()); u64 x; if(vals.size()==1) return vals[0]; x=chooseFork(vals,std::string("@")+why); choices.pop_back(); assume(bEq(v,C(v.w,x))); return x; }

// -------- results
static std::string modelText(const Model&m){ std::string s; std::vector<Lit> want; for(auto&x:symIns) for(Lit l:x.l) want.push_back(l); for(auto&u:ufs){ for(uint32_t i=0;i<u.in.w;i++) want.push_back(bit(u.in,i)); for(uint32_t i=0;i<u.out.w;i++) want.push_back(bit(u.out,i)); }
  auto r=G.evalAll(m,want); size_t k=0; auto hex=[&](size_t nb){ std::string h; for(size_t i=0;i<nb;i+=8){ int v=0; for(int j=0;j<8&&i+j<nb;j++) v|=r[k+i+j]<<j; char b[4]; snprintf(b,4,"%02x",v); h+=b; } k+=nb; return h.empty()?std::string("-"):h; };
  for(auto&c:choices) s+="choose "+c.first+" "+std::to_string(c.second)+"\n";
  for(auto&x:symIns) s+="sym "+x.name+" "+std::to_string(x.occ)+" "+hex(x.l.size())+"\n";
  for(auto&u:ufs){ std::string a=hex(u.in.w); std::string b=hex(u.out.w); s+="uf "+u.name+" "+a+" "+b+"\n"; } return s; }
static u64 fs_ob=0,fs_st=0; static SolverStats fsST; static u64 fs_in=0;
static void flushStats(){ ATOMADD(structural,nStructural-fs_st); fs_st=nStructural; ATOMADD(instrs,nInstr-fs_in); fs_in=nInstr; ATOMADD(queries,ST.queries-fsST.queries); ATOMADD(satQ,ST.satQ-fsST.satQ); ATOMADD(unsatQ,ST.unsatQ-fsST.unsatQ); ATOMADD(unkQ,ST.unkQ-fsST.unkQ); ATOMADD(simSat,ST.simSat-fsST.simSat); ATOMADD(sweepMerges,ST.sweepMerges-fsST.sweepMerges); ATOMADD(sweepQueries,ST.sweepQueries-fsST.sweepQueries); ATOMADD(kissatRuns,ST.kissatRuns-fsST.kissatRuns); if(ST.maxVars>SH->maxVars) SH->maxVars=ST.maxVars; if(G.n.size()>SH->maxNodes) SH->maxNodes=G.n.size(); 
  { union{double d;u64 u;} a,b; do{ a.u=*(volatile u64*)&SH->solveTime; b.d=a.d+(ST.time-fsST.time); }while(!__sync_bool_compare_and_swap((volatile u64*)&SH->solveTime,a.u,b.u)); } fsST=ST; }
static std::string choiceText(){ std::string s; for(auto&c:choices) s+=(s.empty()?"":" ")+c.first+"="+std::to_string(c.second); return s; }
static bool crossCheck=false;
static void solveObligations(){
  // group by label
  std::map<std::string,std::vector<size_t>> g; std::vector<std::string> order; for(size_t i=0;i<obls.size();i++){ std::string k=obls[i].kind+"|"+obls[i].label; if(!g.count(k)) order.push_back(k); g[k].push_back(i); }
  for(auto&k:order){ auto&v=g[k]; std::vector<Lit> bads; for(size_t i:v) bads.push_back(obls[i].bad); ATOMADD(obl,v.size()); size_t cn=~(size_t)0; for(size_t i:v) cn=std::min(cn,obls[i].care); std::vector<Lit> care(careL.begin(),careL.begin()+std::min(cn,careL.size()));
    if(expired()){ ATOMADD(undecided,v.size()); appendLine("{\"event\":\"undecided\",\"label\":\""+jesc(k)+"\",\"path\":\""+jesc(choiceText())+"\",\"why\":\"deadline\"}"); continue; }
    Model m; std::string how; double t0=now(); Res r=decideAny(bads,std::max(1.0,std::min(g_qtime,g_deadline-now())),&m,&how,care);
    if(now()-t0>2) appendLine("{\"event\":\"slow\",\"label\":\""+jesc(k)+"\",\"path\":\""+jesc(choiceText())+"\",\"s\":"+std::to_string(now()-t0)+",\"how\":\""+how+"\",\"res\":"+std::to_string(r)+"}");
    if(r==UNSAT) ATOMADD(decided,v.size());
    else if(r==UNK){ ATOMADD(undecided,v.size()); appendLine("{\"event\":\"undecided\",\"label\":\""+jesc(k)+"\",\"path\":\""+jesc(choiceText())+"\",\"why\":\"solver budget\",\"n\":"+std::to_string(v.size())+"}"); }
    else { // identify which obligation
      auto ev=G.evalAll(m,bads); size_t w=0; for(;w<ev.size();w++) if(ev[w]) break; if(w==ev.size()){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"model does not evaluate to a violation ("+how+")\"}"); continue; }
      ATOMADD(decided,v.size()); u64 id=ATOMADD(nviol,1); ATOMADD(violations,1); std::string mf=g_out+"/viol"+std::to_string(id)+".model"; FILE*f=fopen(mf.c_str(),"w"); fputs(modelText(m).c_str(),f); fclose(f);
      appendLine("{\"event\":\"violation\",\"label\":\""+jesc(obls[v[w]].label)+"\",\"kind\":\""+jesc(obls[v[w]].kind)+"\",\"loc\":\""+jesc(obls[v[w]].loc)+"\",\"path\":\""+jesc(choiceText())+"\",\"how\":\""+how+"\",\"model\":\""+mf+"\"}");
      if(id+1>=g_maxViol) SH->stop=1; } }
  obls.clear(); }
static void finishAndExit(const char*status,const std::string&why){
  try { solveObligations(); } catch(std::bad_alloc&){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"out of memory while solving\"}"); }
  if(!strcmp(status,"ok")) ATOMADD(paths,1); else if(!strcmp(status,"dead")) ATOMADD(deadPaths,1); else { ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\""+jesc(why)+"\",\"path\":\""+jesc(choiceText())+"\",\"loc\":\""+jesc(top?curLoc():g_lastLoc)+"\"}"); }
  if(unkFeas) appendLine("{\"event\":\"note\",\"why\":\"feasibility queries without verdict, treated as feasible: "+std::to_string(unkFeas)+"\"}");
  flushStats(); sem_post(&SH->tok); _exit(0); }

// single to double precision, exact (a NaN keeps its payload)
static BV fpExt(const BV&a){ BV m=slice(a,0,23),e=slice(a,23,8); Lit z=bEq(e,C(8,0)),mz=bEq(m,C(23,0)),top=bEq(e,C(8,255)); BV en=bMux(top,C(11,2047),bAdd(bZext(e,11),C(11,896))); BV mn=m; BV es=C(11,896),ms=m; // subnormal: normalise
  BV k=bClz(m); BV sh=bAdd(bZext(k,23),C(23,1)); ms=bShift(0,m,sh); es=bSub(C(11,897),slice(bZext(sh,23),0,11)); BV E=bMux(z,bMux(mz,C(11,0),es),en),M=bMux(z,ms,mn); return concat({C(29,0),M,E,slice(a,31,1)}); }
static RK callF(Function*F,std::vector<BV>&args,BV&ret,CallBase*cb);
static RK model(const std::string&name,Function*F,std::vector<BV>&a,BV&ret,bool&handled,CallBase*cb);
static BV intrinsic(Frame&f,Ins&x,RK&rk);

static BV vecLanes(Type*t,const std::function<BV(unsigned)>&fn){ auto*v=dyn_cast<FixedVectorType>(t); if(!v) return fn(0); std::vector<BV> p; for(unsigned i=0;i<v->getNumElements();i++) p.push_back(fn(i)); return concat(p); }
static uint32_t lw(Type*t){ return vw(t->getScalarType()); }
static BV lane(const BV&v,Type*t,unsigned i){ uint32_t w=lw(t); return t->isVectorTy()? slice(v,i*w,w): v; }
static double asD(const BV&v){ if(v.sym) unsup("symbolic floating point"); if(v.w==64){ u64 u=(u64)v.c; double d; memcpy(&d,&u,8); return d; } if(v.w==32){ uint32_t u=(uint32_t)v.c; float f; memcpy(&f,&u,4); return f; } unsup("fp width"); }
static BV fromD(double d,uint32_t w){ if(w==64){ u64 u; memcpy(&u,&d,8); return C(64,u);} float f=(float)d; uint32_t u; memcpy(&u,&f,4); return C(32,u); }
static BV binop(unsigned op,const BV&a,const BV&b){ switch(op){ case Instruction::Add: return bAdd(a,b); case Instruction::Sub: return bSub(a,b); case Instruction::Mul: return bMul(a,b); case Instruction::And: return bAnd(a,b); case Instruction::Or: return bOr(a,b); case Instruction::Xor: return bXor(a,b); case Instruction::Shl: return bShift(0,a,b); case Instruction::LShr: return bShift(1,a,b); case Instruction::AShr: return bShift(2,a,b);
  case Instruction::UDiv: case Instruction::URem:{ BV q,r; bUdivrem(a,b,q,r); return op==Instruction::UDiv?q:r; } case Instruction::SDiv: case Instruction::SRem:{ BV q,r; bSdivrem(a,b,q,r); return op==Instruction::SDiv?q:r; }
  case Instruction::FAdd: return fromD(asD(a)+asD(b),a.w); case Instruction::FSub: return fromD(asD(a)-asD(b),a.w); case Instruction::FMul: return fromD(asD(a)*asD(b),a.w); case Instruction::FDiv: return fromD(asD(a)/asD(b),a.w); case Instruction::FRem: return fromD(fmod(asD(a),asD(b)),a.w); }
  unsup("binop"); }
static Lit icmp(unsigned p,const BV&a,const BV&b){ switch(p){ case CmpInst::ICMP_EQ: return bEq(a,b); case CmpInst::ICMP_NE: return NOT(bEq(a,b)); case CmpInst::ICMP_ULT: return bUlt(a,b); case CmpInst::ICMP_ULE: return bUle(a,b); case CmpInst::ICMP_UGT: return bUlt(b,a); case CmpInst::ICMP_UGE: return bUle(b,a); case CmpInst::ICMP_SLT: return bSlt(a,b); case CmpInst::ICMP_SLE: return bSle(a,b); case CmpInst::ICMP_SGT: return bSlt(b,a); case CmpInst::ICMP_SGE: return bSle(b,a); } unsup("icmp"); }
static BV L1(Lit l){ if(l<=1) return C(1,l); return fromLits(LV{l}); }
static Lit fcmp(unsigned p,const BV&a,const BV&b){ double x=asD(a),y=asD(b); bool un=std::isnan(x)||std::isnan(y); switch(p){ case CmpInst::FCMP_FALSE: return 0; case CmpInst::FCMP_TRUE: return 1; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_OEQ: return !un&&x==y; case CmpInst::FCMP_OGT: return !un&&x>y; case CmpInst::FCMP_OGE: return !un&&x>=y; case CmpInst::FCMP_OLT: return !un&&x<y; case CmpInst::FCMP_OLE: return !un&&x<=y; case CmpInst::FCMP_ONE: return !un&&x!=y; case CmpInst::FCMP_UEQ: return un||x==y; case CmpInst::FCMP_UGT: return un||x>y; case CmpInst::FCMP_UGE: return un||x>=y; case CmpInst::FCMP_ULT: return un||x<y; case CmpInst::FCMP_ULE: return un||x<=y; case CmpInst::FCMP_UNE: return un||x!=y; } unsup("fcmp"); }

struct Arm { Lit cond; bool dead=false; Lit extra=1; std::vector<BV> phi; BV ret; std::vector<std::pair<std::pair<Obj*,u64>,SB>> bytes; std::vector<std::pair<Obj*,Lit>> alive; };
struct PHash { size_t operator()(const std::pair<Obj*,u64>&p) const { return XAG::mix((u64)p.first*31+p.second); } };
static void undoLog(size_t mark,Arm*arm){ std::unordered_set<std::pair<Obj*,u64>,PHash> seen; std::set<Obj*> sa;
  while(jlog.size()>mark){ JE&e=jlog.back(); if(e.kind==0){ if(arm&&seen.insert({e.o,e.off}).second) arm->bytes.push_back({{e.o,e.off},getSB(e.o,e.off)}); SB s; s.st=e.st; s.val=e.val; if(e.st==1) memcpy(s.l,e.l,32); rawSet(e.o,e.off,s); } else { if(arm&&sa.insert(e.o).second) arm->alive.push_back({e.o,e.o->alive}); e.o->alive=e.l[0]; } jlog.pop_back(); } }
static Lit sbBit(const SB&s,int j){ return s.st==1? s.l[j]: (Lit)((s.val>>j)&1); }
static RK runRegion(Frame&f,int bb,int prev,int stop);
static u64 branchCount=0;

// N-way symbolic branch; returns Reached with f.phi for block ip (or Returned)
static RK branchMerge(Frame&f,int cur,std::vector<std::pair<Lit,int>>&arms0,int ip){
  std::vector<Arm> arms; Lit pc0=PC,ex0=EXTRA; branchCount++;
  for(auto&a:arms0){ Arm A; A.cond=a.first; size_t mark=jlog.size(); size_t um=f.undo.size(); jdepth++; f.depth++; size_t al=f.allocas.size();
    PC=G.And(pc0,a.first); EXTRA=1; auto saved=pcset; if(a.first>1) pcset[a.first]++; Frame*tsave=top; int cd=callDepth;
    RK r; try { r= PC==0? Dead: runRegion(f,a.second,cur,ip); } catch(PathDead&){ r=Dead; top=tsave; callDepth=cd; }
    A.dead=(r==Dead); A.extra=EXTRA; if(!A.dead){ if(ip>=0){ if(r!=Reached) unsup("merge point not reached"); A.phi=f.phi; } else A.ret=f.ret; }
    undoLog(mark,A.dead?nullptr:&A); while(f.undo.size()>um){ f.s[f.undo.back().first]=std::move(f.undo.back().second); f.undo.pop_back(); } (void)al;
    jdepth--; f.depth--; pcset.swap(saved); arms.push_back(std::move(A)); }
  PC=pc0; EXTRA=ex0; std::vector<Arm*> live; for(auto&a:arms) if(!a.dead) live.push_back(&a);
  if(live.empty()) return Dead;
  // assumptions
  Lit ex=0; bool triv=live.size()==arms.size(); for(auto*a:live) if(a->extra!=1) triv=false; if(!triv){ for(auto*a:live) ex=G.Or(ex,G.And(a->cond,a->extra)); assume(ex); if(live.size()==1){ if(live[0]->cond>1) pcset[live[0]->cond]++; } }
  if(live.size()==1){ Arm*a=live[0]; for(auto it=a->bytes.rbegin();it!=a->bytes.rend();++it) putSB(it->first.first,it->first.second,it->second); for(auto&x:a->alive) setAlive(x.first,x.second); if(ip>=0) f.phi=a->phi; else f.ret=a->ret; return ip>=0?Reached:Returned; }
  // merge memory: acc starts with last arm's view
  std::unordered_map<Obj*,Lit> newAlive; { std::set<Obj*> os; for(auto*a:live) for(auto&x:a->alive) os.insert(x.first); for(Obj*o:os){ Lit acc=0; bool first=true; for(int i=(int)live.size()-1;i>=0;i--){ Lit v=o->alive; for(auto&x:live[i]->alive) if(x.first==o) v=x.second; if(first){acc=v;first=false;} else acc=G.Mux(live[i]->cond,v,acc); } newAlive[o]=acc; } }
  std::unordered_map<std::pair<Obj*,u64>,std::vector<const SB*>,PHash> by; for(size_t i=0;i<live.size();i++) for(auto&b:live[i]->bytes){ auto&v=by[b.first]; v.resize(live.size(),nullptr); v[i]=&b.second; }
  for(auto&kv:by){ Obj*o=kv.first.first; u64 off=kv.first.second; bool anyUn=false; for(auto*p:kv.second) if(!p) anyUn=true; SB base=getSB(o,off);
    if(anyUn&&base.st==2){ if(o->alive==0){ // allocated inside one arm: other arms cannot observe it
        base.st=0; base.val=0; const SB*only=nullptr; for(auto*p:kv.second) if(p) only=p; if(only) base=*only; } else { materialize(o,off); base=getSB(o,off);} }
    SB acc; bool first=true; for(int i=(int)live.size()-1;i>=0;i--){ const SB*s=kv.second[i]?kv.second[i]:&base; SB cur=*s; if(cur.st==2){ cur.st=1; for(int j=0;j<8;j++) cur.l[j]=G.newInput("uninitm"); } if(first){acc=cur;first=false;continue;} if(acc.st==0&&cur.st==0&&acc.val==cur.val) continue; SB r; r.st=1; bool k=true; for(int j=0;j<8;j++){ r.l[j]=G.Mux(live[i]->cond,sbBit(cur,j),sbBit(acc,j)); if(r.l[j]>1)k=false; } if(k){ r.st=0; r.val=0; for(int j=0;j<8;j++) r.val|=r.l[j]<<j; } acc=r; }
    putSB(o,off,acc); }
  for(auto&x:newAlive) if(x.first->alive!=x.second) setAlive(x.first,x.second);
  if(ip>=0){ std::vector<BV> ph=live.back()->phi; for(int i=(int)live.size()-2;i>=0;i--) for(size_t k=0;k<ph.size();k++) ph[k]=bMux(live[i]->cond,live[i]->phi[k],ph[k]); f.phi=ph; return Reached; }
  BV rv=live.back()->ret; for(int i=(int)live.size()-2;i>=0;i--) if(rv.w) rv=bMux(live[i]->cond,live[i]->ret,rv); f.ret=rv; return Returned; }

static u64 g_maxIter=200000000ULL;
static RK runRegion(Frame&f,int bb,int prev,int stop){
  bool havePhi=false; // f.phi already holds merged phi values for bb
  while(true){
    BBI&B=f.f->bb[bb];
    if(!havePhi){ std::vector<BV> ph; if(B.nphi){ ph.reserve(B.nphi); BasicBlock*pb= prev>=0? f.f->bb[prev].bb:nullptr; for(unsigned i=0;i<B.nphi;i++){ auto*p=cast<PHINode>(B.ins[i].I); int k=p->getBasicBlockIndex(pb); ph.push_back(val(f,B.ins[i].a[k])); } } if(bb==stop){ f.phi=std::move(ph); return Reached; } for(unsigned i=0;i<B.nphi;i++) setv(f,B.ins[i].dst,std::move(ph[i])); }
    else { havePhi=false; if(bb==stop) return Reached; std::vector<BV> ph=f.phi; for(unsigned i=0;i<B.nphi;i++) setv(f,B.ins[i].dst,std::move(ph[i])); }
    for(size_t ii=B.nphi;ii<B.ins.size();ii++){
      Ins&x=B.ins[ii]; f.cur=x.I; if((++nInstr&0x3ffff)==0){ if(expired()) unsup("deadline"); if(nInstr>g_maxIter) unsup("instruction limit"); }
      #define A(i) val(f,x.a[i])
      switch(x.op){
        case Instruction::Ret: f.ret= x.a.empty()? BV(): A(0); return Returned;
        case Instruction::Unreachable: return fault("reached unreachable code","unreachable");
        case Instruction::Br:{ auto*br=cast<BranchInst>(x.I); if(br->isUnconditional()){ prev=bb; bb=f.f->bid[br->getSuccessor(0)]; goto nextBlock; }
          Lit c=bit(A(0),0); int t=f.f->bid[br->getSuccessor(0)],e=f.f->bid[br->getSuccessor(1)];
          if(c>1){ if(pcset.count(c)) c=1; else if(pcset.count(NOT(c))) c=0; }
          if(c==1||t==e){ prev=bb; bb=t; goto nextBlock; } if(c==0){ prev=bb; bb=e; goto nextBlock; }
          bool ft=feasible(c), fe= !ft? true: feasible(NOT(c)); if(!fe){ prev=bb; bb=t; goto nextBlock; } if(!ft){ prev=bb; bb=e; goto nextBlock; }
          std::vector<std::pair<Lit,int>> arms{{c,t},{NOT(c),e}}; RK r=branchMerge(f,bb,arms,B.ip); if(r!=Reached) return r; prev=-1; bb=B.ip; havePhi=true; goto nextBlock; }
        case Instruction::Switch:{ auto*sw=cast<SwitchInst>(x.I); const BV&v=A(0); if(!v.sym){ BasicBlock*d=sw->getDefaultDest(); for(auto&cs:sw->cases()) if(cs.getCaseValue()->getValue().getZExtValue()==(u64)v.c){d=cs.getCaseSuccessor();break;} prev=bb; bb=f.f->bid[d]; goto nextBlock; }
          std::map<int,Lit> by; std::vector<int> ord; Lit any=0; for(auto&cs:sw->cases()){ Lit c=bEq(v,C(v.w,cs.getCaseValue()->getValue().getZExtValue())); any=G.Or(any,c); int t=f.f->bid[cs.getCaseSuccessor()]; if(!by.count(t)){by[t]=0;ord.push_back(t);} by[t]=G.Or(by[t],c); } int d=f.f->bid[sw->getDefaultDest()]; if(!by.count(d)){by[d]=0;ord.push_back(d);} by[d]=G.Or(by[d],NOT(any));
          std::vector<std::pair<Lit,int>> arms; for(int t:ord) if(feasible(by[t])) arms.push_back({by[t],t}); if(arms.empty()) return Dead; if(arms.size()==1){ prev=bb; bb=arms[0].second; goto nextBlock; }
          RK r=branchMerge(f,bb,arms,B.ip); if(r!=Reached) return r; prev=-1; bb=B.ip; havePhi=true; goto nextBlock; }
        case Instruction::Alloca:{ auto*al=cast<AllocaInst>(x.I); u64 es=DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); u64 cnt= A(0).sym? concretize(A(0),"alloca size"): (u64)A(0).c; Obj*o=newObj(es*cnt,al->getAlign().value(),1,al->hasName()?al->getName().str():"stack"); f.allocas.push_back(o); setv(f,x.dst,C(64,o->base)); break; }
        case Instruction::Load:{ auto*l=cast<LoadInst>(x.I); setv(f,x.dst,loadT(l->getType(),A(0),l->getAlign().value())); break; }
        case Instruction::Store:{ auto*s=cast<StoreInst>(x.I); storeT(s->getValueOperand()->getType(),A(1),A(0),s->getAlign().value()); break; }
        case Instruction::GetElementPtr:{ auto*g=cast<GetElementPtrInst>(x.I); if(g->getType()->isVectorTy()) unsup("vector gep"); BV r=A(0); unsigned k=1; for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi,++k){ const BV&ix=A(k); if(StructType*st=gi.getStructTypeOrNull()){ u64 o=DL->getStructLayout(st)->getElementOffset((unsigned)ix.c); if(o) r=bAdd(r,C(64,o)); } else { u64 es=DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue(); if(!ix.sym){ i64 v=(i64)sx(ix)*(i64)es; if(v) r=bAdd(r,C(64,(u128)(u64)v)); } else r=bAdd(r,bMul(bSext(ix,64),C(64,es))); } } setv(f,x.dst,std::move(r)); break; }
        case Instruction::PHI: unsup("phi in body");
        case Instruction::ICmp:{ auto*ic=cast<ICmpInst>(x.I); Type*t=ic->getOperand(0)->getType(); const BV&a=A(0);const BV&b=A(1); if(!t->isVectorTy()) setv(f,x.dst,L1(icmp(ic->getPredicate(),a,b))); else setv(f,x.dst,vecLanes(t,[&](unsigned i){ return L1(icmp(ic->getPredicate(),lane(a,t,i),lane(b,t,i))); })); break; }
        case Instruction::FCmp:{ auto*ic=cast<FCmpInst>(x.I); Type*t=ic->getOperand(0)->getType(); const BV&a=A(0);const BV&b=A(1); setv(f,x.dst,vecLanes(t,[&](unsigned i){ return L1(fcmp(ic->getPredicate(),lane(a,t,i),lane(b,t,i))); })); break; }
        case Instruction::Select:{ Type*t=x.I->getType(); Type*ct=cast<SelectInst>(x.I)->getCondition()->getType(); const BV&c=A(0),&a=A(1),&b=A(2); if(!ct->isVectorTy()) setv(f,x.dst,bMux(bit(c,0),a,b)); else setv(f,x.dst,vecLanes(t,[&](unsigned i){ return bMux(bit(c,i),lane(a,t,i),lane(b,t,i)); })); break; }
        case Instruction::Freeze: case Instruction::BitCast: case Instruction::AddrSpaceCast: setv(f,x.dst,BV(A(0))); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Trunc: case Instruction::SExt:{ Type*t=x.I->getType(); Type*s=x.I->getOperand(0)->getType(); uint32_t w=lw(t); const BV&a=A(0); bool sg=x.op==Instruction::SExt; setv(f,x.dst,vecLanes(t,[&](unsigned i){ BV v=lane(a,s,i); return sg? bSext(v,w): bZext(v,w); })); break; }
        case Instruction::UIToFP:{ const BV&a=A(0); if(a.sym) unsup("symbolic int to fp"); setv(f,x.dst,fromD((double)(u64)a.c,vw(x.I->getType()))); break; }
        case Instruction::SIToFP:{ const BV&a=A(0); if(a.sym) unsup("symbolic int to fp"); setv(f,x.dst,fromD((double)(i64)sx(a),vw(x.I->getType()))); break; }
        case Instruction::FPToUI:{ double d=asD(A(0)); setv(f,x.dst,C(vw(x.I->getType()),(u128)(u64)d)); break; }
        case Instruction::FPToSI:{ double d=asD(A(0)); setv(f,x.dst,C(vw(x.I->getType()),(u128)(i128)(i64)d)); break; }
        case Instruction::FPExt: case Instruction::FPTrunc: { const BV&a=A(0); if(a.sym&&a.w==32&&vw(x.I->getType())==64){ setv(f,x.dst,fpExt(a)); break; } if(a.sym) unsup("symbolic fp convert"); setv(f,x.dst,fromD(asD(a),vw(x.I->getType()))); break; }
        case Instruction::FNeg:{ Type*t=x.I->getType(); const BV&a=A(0); setv(f,x.dst,vecLanes(t,[&](unsigned i){ return flipTop(lane(a,t,i)); })); break; }
        case Instruction::ExtractValue: case Instruction::InsertValue:{ bool ins=x.op==Instruction::InsertValue; Type*t=x.I->getOperand(0)->getType(); uint32_t o=0; ArrayRef<unsigned> idx= ins? cast<InsertValueInst>(x.I)->getIndices(): cast<ExtractValueInst>(x.I)->getIndices(); for(unsigned i:idx){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) o+=vw(s->getElementType(k)); t=s->getElementType(i); } else { auto*a=cast<ArrayType>(t); o+=i*vw(a->getElementType()); t=a->getElementType(); } } uint32_t w=vw(t); const BV&a=A(0); if(!ins) setv(f,x.dst,slice(a,o,w)); else { std::vector<BV> p; if(o) p.push_back(slice(a,0,o)); p.push_back(A(1)); if(o+w<a.w) p.push_back(slice(a,o+w,a.w-o-w)); setv(f,x.dst,concat(p)); } break; }
        case Instruction::ExtractElement:{ Type*t=x.I->getOperand(0)->getType(); const BV&v=A(0); const BV&ix=A(1); unsigned n=cast<FixedVectorType>(t)->getNumElements(); if(!ix.sym){ if(ix.c>=n) unsup("extractelement index"); setv(f,x.dst,lane(v,t,(unsigned)ix.c)); } else { BV r=lane(v,t,0); for(unsigned i=1;i<n;i++) r=bMux(bEq(ix,C(ix.w,i)),lane(v,t,i),r); setv(f,x.dst,std::move(r)); } break; }
        case Instruction::InsertElement:{ Type*t=x.I->getType(); const BV&v=A(0),&e=A(1),&ix=A(2); setv(f,x.dst,vecLanes(t,[&](unsigned i){ if(!ix.sym) return ix.c==i? e: lane(v,t,i); return bMux(bEq(ix,C(ix.w,i)),e,lane(v,t,i)); })); break; }
        case Instruction::ShuffleVector:{ auto*s=cast<ShuffleVectorInst>(x.I); Type*t=s->getOperand(0)->getType(); unsigned n=cast<FixedVectorType>(t)->getNumElements(); const BV&a=A(0),&b=A(1); auto mk=s->getShuffleMask(); setv(f,x.dst,vecLanes(s->getType(),[&](unsigned i){ int k=mk[i]; if(k<0) return C(lw(t),0); return (unsigned)k<n? lane(a,t,k): lane(b,t,k-n); })); break; }
        case Instruction::AtomicRMW:{ auto*rm=cast<AtomicRMWInst>(x.I); BV old=loadT(x.I->getType(),A(0),1); const BV&v=A(1); BV nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=bAdd(old,v); break; case AtomicRMWInst::Sub: nv=bSub(old,v); break; case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::And: nv=bAnd(old,v); break; case AtomicRMWInst::Or: nv=bOr(old,v); break; case AtomicRMWInst::Xor: nv=bXor(old,v); break; default: unsup("atomicrmw"); } storeT(x.I->getType(),A(0),nv,1); setv(f,x.dst,std::move(old)); break; }
        case Instruction::AtomicCmpXchg:{ auto*cx=cast<AtomicCmpXchgInst>(x.I); Type*t=cx->getNewValOperand()->getType(); BV old=loadT(t,A(0),1); Lit e=bEq(old,A(1)); storeT(t,A(0),bMux(e,A(2),old),1); setv(f,x.dst,concat({old,L1(e)})); break; }
        case Instruction::Fence: break;
        case Instruction::Call: case Instruction::Invoke:{ RK rk=Returned; BV ret; auto*cb=cast<CallBase>(x.I);
          if(x.iid!=Intrinsic::not_intrinsic){ ret=intrinsic(f,x,rk); }
          else { std::vector<BV> args; size_t na=cb->arg_size(); for(size_t i=0;i<na;i++) args.push_back(A(i)); Function*F=x.callee; if(!F){ if(cb->isInlineAsm()) unsup("inline asm"); BV fp=A(na); u64 a=fp.sym? concretize(fp,"indirect call"): (u64)fp.c; auto it=faddr.find(a); if(it==faddr.end()){ return fault("call through invalid function pointer","memory"); } F=it->second; }
            for(size_t i=0;i<na;i++) if(cb->isByValArgument(i)){ Type*bt=cb->getParamByValType(i); u64 sz=DL->getTypeAllocSize(bt).getFixedValue(); Obj*o=newObj(sz,16,1,"byval"); f.allocas.push_back(o); for(u64 k=0;k<sz;k++){ if(args[i].sym) unsup("byval symbolic"); Obj*so=objFor((u64)args[i].c+k,1,"read"); putSB(o,k,getSB(so,(u64)args[i].c+k-so->base)); } args[i]=C(64,o->base); }
            rk=callF(F,args,ret,cb); }
          if(rk==Dead) return Dead; if(x.dst>=0){ uint32_t w=vw(x.I->getType()); if(ret.w!=w) { if(ret.w==0) ret=C(w,0); else ret=bZext(ret,w);} setv(f,x.dst,std::move(ret)); }
          if(auto*iv=dyn_cast<InvokeInst>(x.I)){ prev=bb; bb=f.f->bid[iv->getNormalDest()]; goto nextBlock; } break; }
        case Instruction::VAArg: unsup("va_arg instruction");
        default:
          if(x.I->isBinaryOp()){ Type*t=x.I->getType(); const BV&a=A(0),&b=A(1);
            if((x.op==Instruction::UDiv||x.op==Instruction::SDiv||x.op==Instruction::URem||x.op==Instruction::SRem)&&!t->isVectorTy()){ Lit z=bEq(b,C(b.w,0)); if(z==1) return fault("division by zero","arith"); if(z!=0){ oblige(NOT(z),"division by zero","arith"); assume(NOT(z)); } }
            if(!t->isVectorTy()||x.op==Instruction::And||x.op==Instruction::Or||x.op==Instruction::Xor) setv(f,x.dst,binop(x.op,a,b)); else setv(f,x.dst,vecLanes(t,[&](unsigned i){ return binop(x.op,lane(a,t,i),lane(b,t,i)); })); break; }
          unsup(std::string("instruction ")+x.I->getOpcodeName());
      }
    }
    nextBlock:;
  } }

std::unordered_map<const Function*,u64> fnId;
static RK callF(Function*F,std::vector<BV>&args,BV&ret,CallBase*cb){
  if(F->isDeclaration()){ bool handled=false; std::string nm=F->getName().str(); RK r=model(nm,F,args,ret,handled,cb); if(handled) return r; unsup("call to external function "+nm); }
  FnInfo*fi=getFn(F); if(fi->id<(1<<16)) SH->fn[fi->id]=1;
  Frame f; f.f=fi; f.s.resize(fi->nslots); f.up=top; size_t n=F->arg_size(); for(size_t i=0;i<n&&i<args.size();i++) f.s[i]=args[i]; for(size_t i=n;i<args.size();i++) f.va.push_back(args[i]);
  if(++callDepth>20000) unsup("call depth"); top=&f; RK r; 
  try { r=runRegion(f,0,-1,-2); } catch(...) { /* keep frames for location; unwound by branchMerge */ throw; }
  top=f.up; callDepth--; if(r==Dead) return Dead;
  for(Obj*o:f.allocas){ setAlive(o,0); if(!jdepth){ std::vector<uint8_t>().swap(o->val); std::vector<uint8_t>().swap(o->st); std::vector<Lit>().swap(o->lits); o->size=o->size; } }
  ret=f.ret; return r; }
// A path that does not end (deadline, instruction limit or runaway recursion): a candidate that the native replay confirms or drops.
static void reportHang(){ double gd=g_deadline; g_deadline=now()+15; Model m; if(satPC(1,&m)==SAT){ u64 id=ATOMADD(nviol,1); std::string mf=g_out+"/viol"+std::to_string(id)+".model"; FILE*f=fopen(mf.c_str(),"w"); fputs(modelText(m).c_str(),f); fclose(f); appendLine("{\"event\":\"hang\",\"label\":\"does not terminate\",\"kind\":\"hang\",\"loc\":\""+jesc(g_lastLoc)+"\",\"path\":\""+jesc(choiceText())+"\",\"model\":\""+mf+"\"}"); } g_deadline=gd; }
// Reports the end of a path that was abandoned by an exception; called inside a catch block.
[[noreturn]] static void handleEnd(){ try { throw; }
    catch(Unsupported&u){ std::string w=u.why; top=nullptr; bool dl=w=="deadline", runaway=w=="instruction limit"||w=="call depth";
      if(dl){ ATOMADD(undecided,1); appendLine("{\"event\":\"undecided\",\"why\":\"deadline during symbolic execution\",\"path\":\""+jesc(choiceText())+"\",\"loc\":\""+jesc(g_lastLoc)+"\"}"); }
      if((dl&&!SH->stop&&now()>g_deadline)||(runaway&&!SH->stop)) reportHang();
      if(dl){ obls.clear(); flushStats(); sem_post(&SH->tok); _exit(0);} finishAndExit("error",w); }
    catch(PathDead&){ top=nullptr; finishAndExit("dead",""); }
    catch(std::bad_alloc&){ top=nullptr; obls.clear(); finishAndExit("error","out of memory"); }
  _exit(0); }

// -------- cooperative threads: each has its own native stack; switches are explicit
struct Co { ucontext_t c; Frame*top=nullptr; int depth=0; Function*fn=nullptr; BV arg; }; static std::vector<Co*> thr; static int curCo=0;
static void coMain(){ Co*c=thr[curCo]; try { std::vector<BV> a{c->arg}; BV r; RK k=callF(c->fn,a,r,nullptr); if(k==Dead) finishAndExit("dead",""); unsup("a cooperative thread returned"); } catch(...) { handleEnd(); } }
static int coNew(Function*fn,const BV&arg){ if(jdepth) unsup("thread creation under a symbolic branch"); if(thr.empty()) thr.push_back(new Co()); Co*c=new Co(); c->fn=fn; c->arg=arg; size_t sz=256u<<20; void*st=mmap(nullptr,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(st==MAP_FAILED) unsup("no stack for a thread"); getcontext(&c->c); c->c.uc_stack.ss_sp=st; c->c.uc_stack.ss_size=sz; c->c.uc_link=nullptr; makecontext(&c->c,coMain,0); thr.push_back(c); return (int)thr.size()-1; }
static void coSwitch(int k){ if(jdepth) unsup("thread switch under a symbolic branch"); if(thr.empty()) thr.push_back(new Co()); if(k<0||k>=(int)thr.size()) unsup("switch to an unknown thread"); if(k==curCo) return; Co*a=thr[curCo],*b=thr[k]; a->top=top; a->depth=callDepth; top=b->top; callDepth=b->depth; curCo=k; swapcontext(&a->c,&b->c); }
#include "models.h"
int main(int argc,char**argv){
  { struct rlimit rs; getrlimit(RLIMIT_STACK,&rs); rlim_t want=8ULL<<30; if(rs.rlim_max!=RLIM_INFINITY&&rs.rlim_max<want) want=rs.rlim_max; if(rs.rlim_cur!=RLIM_INFINITY&&rs.rlim_cur<want&&!getenv("SYMEX_REEXEC")){ rs.rlim_cur=want; if(!setrlimit(RLIMIT_STACK,&rs)){ setenv("SYMEX_REEXEC","1",1); execv("/proc/self/exe",argv); } } }
  std::string file,entry="harness"; double tl=600; u64 seed=1;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--out") g_out=nx(); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--qtime") g_qtime=atof(nx().c_str()); else if(a=="--jobs") g_jobs=atoi(nx().c_str()); else if(a=="--entry") entry=nx(); else if(a=="--maxviol") g_maxViol=atoi(nx().c_str()); else if(a=="--seed") seed=atoll(nx().c_str()); else file=a; }
  g_deadline=now()+tl; g_tmp=g_out; g_rng^=seed*0x9E3779B97F4A7C15ULL; if(!g_rng) g_rng=1; for(int i=0;i<8;i++) rnd64();
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sem_init(&SH->tok,1,g_jobs);
  struct rlimit rl; rl.rlim_cur=rl.rlim_max=14ULL<<30; setrlimit(RLIMIT_AS,&rl);
  double t0=now(); int pfd[2]; if(pipe(pfd)) return 3;
  pid_t p=fork();
  if(p==0){ close(pfd[0]); while(sem_wait(&SH->tok)<0&&errno==EINTR);
    try { SMDiagnostic err; auto mod=parseIRFile(file,err,Ctx); if(!mod){ err.print("symex",errs()); appendLine("{\"event\":\"error\",\"why\":\"cannot read bitcode\"}"); ATOMADD(errors,1); _exit(3); } M=mod.release(); DL=&M->getDataLayout(); initModels();
      { FILE*ff=fopen((g_out+"/fnnames.txt").c_str(),"w"); u64 k=1; for(auto&fu:M->functions()) if(!fu.isDeclaration()){ fnId[&fu]=k++; fprintf(ff,"%s\n",fu.getName().str().c_str()); } fclose(ff); }
      for(auto&g:M->globals()) globalAddr(&g);
      for(auto&g:M->globals()) if(g.hasInitializer()){ Obj*o=findObj(gaddr[&g]); if(o&&o->size) initMem(o,gaddr[&g]-o->base,g.getInitializer()); }
      for(auto&g:M->globals()) if(g.isConstant()&&g.hasInitializer()){ Obj*o=findObj(gaddr[&g]); if(o) o->ro=true; }
      if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*arr=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<u64,Function*>> cs; for(auto&op:arr->operands()){ auto*s=cast<ConstantStruct>(op); if(auto*fn=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),fn}); } std::stable_sort(cs.begin(),cs.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&c:cs){ std::vector<BV> a; BV r; callF(c.second,a,r,nullptr); } }
      Function*F=M->getFunction(entry); if(!F) unsup("no entry "+entry); std::vector<BV> a; BV r; RK k=callF(F,a,r,nullptr); finishAndExit(k==Dead?"dead":"ok",""); }
    catch(...) { handleEnd(); }
    _exit(0); }
  int s=0; waitpid(p,&s,0); if(!WIFEXITED(s)||WEXITSTATUS(s)>1){ ATOMADD(errors,1); appendLine("{\"event\":\"error\",\"why\":\"engine process died (status "+std::to_string(s)+")\"}"); }
  // function names executed
  { FILE*ff=fopen((g_out+"/fnnames.txt").c_str(),"r"); FILE*fo=fopen((g_out+"/functions.txt").c_str(),"w"); if(ff&&fo){ char line[8192]; u64 k=1; while(fgets(line,sizeof line,ff)){ line[strcspn(line,"\n")]=0; if(k<(1<<16)&&SH->fn[k]) fprintf(fo,"%s\n",demangle(line).c_str()); k++; } } if(ff) fclose(ff); if(fo) fclose(fo); }
  FILE*o=fopen((g_out+"/summary.json").c_str(),"w"); fprintf(o,"{\"paths\":%llu,\"dead_paths\":%llu,\"obligations\":%llu,\"structural\":%llu,\"decided\":%llu,\"undecided\":%llu,\"violations\":%llu,\"errors\":%llu,\"instrs\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"sim_witness\":%llu,\"sweep_merges\":%llu,\"sweep_queries\":%llu,\"kissat_runs\":%llu,\"max_cnf_vars\":%llu,\"max_nodes\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"reach\":{",
    (unsigned long long)SH->paths,(unsigned long long)SH->deadPaths,(unsigned long long)SH->obl,(unsigned long long)SH->structural,(unsigned long long)SH->decided,(unsigned long long)SH->undecided,(unsigned long long)SH->violations,(unsigned long long)SH->errors,(unsigned long long)SH->instrs,(unsigned long long)SH->queries,(unsigned long long)SH->satQ,(unsigned long long)SH->unsatQ,(unsigned long long)SH->unkQ,(unsigned long long)SH->simSat,(unsigned long long)SH->sweepMerges,(unsigned long long)SH->sweepQueries,(unsigned long long)SH->kissatRuns,(unsigned long long)SH->maxVars,(unsigned long long)SH->maxNodes,(double)SH->solveTime,now()-t0);
  for(u64 i=0;i<SH->reachN&&i<256;i++) fprintf(o,"%s\"%s\":%llu",i?",":"",SH->reachLbl[i],(unsigned long long)SH->reachHit[i]); fprintf(o,"}}\n"); fclose(o);
  return 0; }
