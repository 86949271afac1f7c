// Models: harness API, C runtime, LLVM and x86 intrinsics.
#pragma once
static bool allowExit=false;
static std::string cstr(u64 a){ std::string s; Obj*o=findObj(a); if(!o) return "?"; for(u64 k=a-o->base;k<o->size;k++){ if(o->st[k]!=0) { s+='?'; continue; } if(!o->val[k]) break; s+=(char)o->val[k]; } return s; }
static u64 conc(const BV&v,const char*why){ return v.sym? concretize(v,why): (u64)v.c; }
static void copyBytes(const BV&d,const BV&s,u64 n){ if(!n) return; if(d.sym||s.sym){ if(n>256){ BV dd=d,ss=s; if(d.sym) dd=C(64,conc(d,"memcpy destination")); if(s.sym) ss=C(64,conc(s,"memcpy source")); copyBytes(dd,ss,n); return; } storeBits(d,loadBits(s,n)); return; }
  Obj*so=objFor((u64)s.c,n,"read"),*dO=objFor((u64)d.c,n,"write"); if(dO->ro) die("write to read-only object","memory"); u64 so_=(u64)s.c-so->base,do_=(u64)d.c-dO->base; if(so==dO&&so_==do_) return;
  if(so==dO&&so_<do_) for(u64 i=n;i-->0;) putSB(dO,do_+i,getSB(so,so_+i)); else for(u64 i=0;i<n;i++) putSB(dO,do_+i,getSB(so,so_+i)); }
static void setBytes(const BV&d,const BV&v,u64 n){ if(!n) return; BV b=slice(v,0,8); u64 a=conc(d,"memset destination"); Obj*o=objFor(a,n,"write"); if(o->ro) die("write to read-only object","memory"); for(u64 i=0;i<n;i++) writeC(o,a-o->base+i,b); }
static BV cmpBytes(const BV&x,const BV&y,u64 n){ BV r=C(32,0); if(!n) return r; u64 a=conc(x,"memcmp"),b=conc(y,"memcmp"); Obj*oa=objFor(a,n,"read"),*ob=objFor(b,n,"read"); for(u64 i=n;i-->0;){ BV p=readC(oa,a-oa->base+i,1),q=readC(ob,b-ob->base+i,1); Lit e=bEq(p,q),lt=bUlt(p,q); r=bMux(e,r,bMux(lt,C(32,~(u128)0),C(32,1))); } return r; }
static BV allocBytes(u64 n,u64 al,const char*tag){ return C(64,newObj(n,al,2,tag)->base); }
static RK freePtr(const BV&p){ u64 a=conc(p,"free"); if(!a) return Returned; Obj*o=findObj(a); if(!o||o->base!=a||o->kind!=2) return fault("free of a pointer that was not allocated","memory"); if(o->alive==0) return fault("double free","memory"); if(o->alive!=1){ if(satPC(NOT(o->alive),nullptr)!=UNSAT) { oblige(o->alive,"double free","memory"); assume(o->alive);} } setAlive(o,0); return Returned; }
static u64 reachId(const std::string&l){ for(u64 i=0;i<SH->reachN&&i<256;i++) if(l==SH->reachLbl[i]) return i; u64 i=ATOMADD(reachN,1); if(i<256) snprintf(SH->reachLbl[i],96,"%s",l.c_str()); return i; }
static BV aesRound(const BV&s,const BV&k,bool dec,bool last){ BV t=aesByteTab(dec?1:0,aesPerm(s,dec)); if(!last) t=aesMix(t,dec); return bXor(t,k); }
static BV clmul64(const BV&a,const BV&b){ if(!a.sym&&!b.sym){ u128 r=0; for(int i=0;i<64;i++) if((b.c>>i)&1) r^=a.c<<i; return C(128,r); } LV l(128,0); std::vector<std::vector<Lit>> t(128); for(int i=0;i<64;i++) for(int j=0;j<64;j++){ Lit x=G.And(bit(a,i),bit(b,j)); if(x) t[i+j].push_back(x); }
  for(int k=0;k<128;k++){ std::vector<Lit>&v=t[k]; while(v.size()>1){ std::vector<Lit> n; for(size_t i=0;i+1<v.size();i+=2) n.push_back(G.xorPlain(v[i],v[i+1])); if(v.size()&1) n.push_back(v.back()); v.swap(n); } l[k]=v.empty()?0:v[0]; } return fromLits(std::move(l)); }
typedef std::function<RK(Function*,std::vector<BV>&,BV&,CallBase*)> MF;
static std::unordered_map<std::string,MF> MT;
static u64 g_clock=1000;
static void initModels(){
  #define DEF(nm) MT[nm]=[](Function*F,std::vector<BV>&a,BV&ret,CallBase*cb)->RK
  #define END ;
  DEF("sym_make"){ u64 p=conc(a[0],"sym"),n=conc(a[1],"sym"); std::string nm=cstr((u64)a[2].c); Obj*o=objFor(p,n,"write"); SymIn s; s.name=nm; s.occ=symOcc[nm]++; for(u64 i=0;i<n;i++){ SB b; b.st=1; for(int j=0;j<8;j++){ b.l[j]=G.newInput(nm); s.l.push_back(b.l[j]); } putSB(o,p-o->base+i,b); } symIns.push_back(s); return Returned; } END
  DEF("sym_bools"){ u64 p=conc(a[0],"sym"),n=conc(a[1],"sym"); std::string nm=cstr((u64)a[2].c); Obj*o=objFor(p,n,"write"); SymIn s; s.name=nm; s.occ=symOcc[nm]++; for(u64 i=0;i<n;i++){ SB b; b.st=1; b.l[0]=G.newInput(nm); s.l.push_back(b.l[0]); for(int j=1;j<8;j++){ b.l[j]=0; s.l.push_back(0);} putSB(o,p-o->base+i,b); } symIns.push_back(s); return Returned; } END
  DEF("sym_choose"){ u64 lo=conc(a[0],"c"),hi=conc(a[1],"c"); std::string nm=cstr((u64)a[2].c); std::vector<u64> v; for(u64 x=lo;x<=hi;x++) v.push_back(x); ret=C(64,chooseFork(v,nm)); return Returned; } END
  DEF("sym_concrete"){ ret=C(64,conc(a[0],"sym_concrete")); return Returned; } END
  DEF("sym_assume"){ Lit c=NOT(bEq(a[0],C(a[0].w,0))); if(!feasible(c)) return Dead; assume(c); return Returned; } END
  DEF("sym_assert"){ Lit c=NOT(bEq(a[0],C(a[0].w,0))); oblige(c,cstr((u64)a[1].c),"assert"); return Returned; } END
  DEF("sym_assert_eq"){ u64 p=conc(a[0],"eq"),q=conc(a[1],"eq"),n=conc(a[2],"eq"); if(!n) return Returned; Obj*o=objFor(p,n,"read"),*r=objFor(q,n,"read"); std::string lb=cstr((u64)a[3].c); for(u64 i=0;i<n;i++){ BV x=readC(o,p-o->base+i,1),y=readC(r,q-r->base+i,1); if(!x.sym&&!y.sym){ oblige(x.c==y.c,lb,"assert"); continue; } for(int j=0;j<8;j++){ Lit d=G.Xor(bit(x,j),bit(y,j)); if(d==0){ nStructural++; continue; } oblige(NOT(d),lb,"assert"); } } return Returned; } END
  DEF("sym_reach"){ std::string l=cstr((u64)a[0].c); u64 i=reachId(l); if(i<256&&!SH->reachHit[i]){ if(satPC(1,nullptr)==SAT) ATOMADD(reachHit[i],1); } else if(i<256) ATOMADD(reachHit[i],1); return Returned; } END
  DEF("sym_uf"){ std::string nm=cstr((u64)a[0].c); u64 ni=conc(a[2],"uf"),no=conc(a[4],"uf"); BV in=ni?loadBits(a[1],ni):C(0,0); LV l; for(u64 i=0;i<8*no;i++) l.push_back(G.newInput("uf:"+nm)); BV out=fromLits(std::move(l)); for(auto&u:ufs) if(u.name==nm&&u.in.w==in.w&&u.out.w==out.w){ Lit e= in.w? bEq(u.in,in):1; if(e==1){ out=u.out; break; } if(e!=0) out=bMux(e,u.out,out); } ufs.push_back({nm,in,out}); storeBits(a[3],out); return Returned; } END
  DEF("sym_config"){ std::string k=cstr((u64)a[0].c); u64 v=(u64)a[1].c; if(k=="xorcap") G.xorcap=(uint32_t)std::min<u64>(v,4000); else if(k=="nodes") fprintf(stderr,"nodes %zu\n",G.n.size()); else if(k=="allowexit") allowExit=v; else if(k=="qtime") g_qtime=(double)v; return Returned; } END
  DEF("sym_thread"){ u64 fa=conc(a[0],"thread"); auto it=faddr.find(fa); if(it==faddr.end()) unsup("thread entry"); ret=C(32,coNew(it->second,a[1])); return Returned; } END
  DEF("sym_switch"){ coSwitch((int)conc(a[0],"switch")); return Returned; } END
  DEF("sym_engine"){ ret=C(32,1); return Returned; } END
  DEF("sym_time_left"){ double d=g_deadline-now(); ret=C(64,d<0?0:(u64)d); return Returned; } END
  DEF("sym_is_const"){ ret=C(32,a[0].sym?0:1); return Returned; } END
  DEF("sym_trace"){ std::string s=cstr((u64)a[0].c); fprintf(stderr,"[trace] %s = ",s.c_str()); if(a[1].sym){ for(int i=(int)a[1].w-1;i>=0;i--){ Lit l=bit(a[1],i); if(l<=1) fprintf(stderr,"%u",l); else fprintf(stderr,"[%u]",l); } fprintf(stderr,"\n"); } else fprintf(stderr,"%llx\n",(unsigned long long)(u64)a[1].c); return Returned; } END
  // allocation
  for(const char*n:{"malloc","_Znwm","_Znam","valloc"}) DEF(n){ ret=allocBytes(conc(a[0],"allocation size"),16,F->getName()=="malloc"?"malloc":"new"); return Returned; } END
  for(const char*n:{"_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"}) DEF(n){ ret=allocBytes(conc(a[0],"allocation size"),16,"new"); return Returned; } END
  for(const char*n:{"_ZnwmSt11align_val_t","_ZnamSt11align_val_t"}) DEF(n){ ret=allocBytes(conc(a[0],"allocation size"),conc(a[1],"align"),"new"); return Returned; } END
  for(const char*n:{"aligned_alloc","memalign","_mm_malloc_"}) DEF(n){ ret=allocBytes(conc(a[1],"allocation size"),conc(a[0],"align"),"aligned_alloc"); return Returned; } END
  DEF("posix_memalign"){ BV p=allocBytes(conc(a[2],"allocation size"),conc(a[1],"align"),"aligned"); storeBits(a[0],p); ret=C(32,0); return Returned; } END
  DEF("calloc"){ u64 n=conc(a[0],"calloc")*conc(a[1],"calloc"); Obj*o=newObj(n,16,2,"calloc"); for(u64 i=0;i<n;i++){ SB s; s.st=0; s.val=0; putSB(o,i,s);} ret=C(64,o->base); return Returned; } END
  DEF("realloc"){ u64 p=conc(a[0],"realloc"),n=conc(a[1],"realloc"); Obj*o=newObj(n,16,2,"realloc"); if(p){ Obj*q=findObj(p); if(!q||q->base!=p||q->kind!=2||q->alive==0) return fault("realloc of invalid pointer","memory"); for(u64 i=0;i<n&&i<q->size;i++) putSB(o,i,getSB(q,i)); setAlive(q,0);} ret=C(64,o->base); return Returned; } END
  for(const char*n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvmSt11align_val_t","cfree","_ZdlPvRKSt9nothrow_t","_ZdaPvRKSt9nothrow_t"}) DEF(n){ return freePtr(a[0]); } END
  for(const char*n:{"memcpy","memmove","__memcpy_chk","__memmove_chk"}) DEF(n){ copyBytes(a[0],a[1],conc(a[2],"memcpy size")); ret=a[0]; return Returned; } END
  for(const char*n:{"memset","__memset_chk"}) DEF(n){ setBytes(a[0],a[1],conc(a[2],"memset size")); ret=a[0]; return Returned; } END
  for(const char*n:{"memcmp","bcmp"}) DEF(n){ ret=cmpBytes(a[0],a[1],conc(a[2],"memcmp size")); return Returned; } END
  DEF("strlen"){ if(a[0].sym){ BV v=a[0]; std::vector<u64> vals; Lit excl=1; while(vals.size()<=16){ Model md; Res q=satPC(excl,&md); if(q!=SAT) break; u64 x=modelVal(v,md); vals.push_back(x); excl=G.And(excl,NOT(bEq(v,C(v.w,x)))); } if(vals.size()>=1&&vals.size()<=16){ ret=C(64,cstr(vals[0]).size()); for(u64 x:vals) ret=bMux(bEq(v,C(v.w,x)),C(64,cstr(x).size()),ret); return Returned; } } u64 p=conc(a[0],"strlen"); ret=C(64,cstr(p).size()); return Returned; } END
  DEF("strcmp"){ int r=cstr(conc(a[0],"strcmp")).compare(cstr(conc(a[1],"strcmp"))); ret=C(32,(u128)(i128)(r<0?-1:r>0)); return Returned; } END
  DEF("memchr"){ u64 p=conc(a[0],"memchr"),n=conc(a[2],"memchr"); ret=C(64,0); for(u64 i=0;i<n;i++){ BV b=loadBits(C(64,p+i),1); if(b.sym||a[1].sym) unsup("memchr symbolic"); if((uint8_t)b.c==(uint8_t)a[1].c){ ret=C(64,p+i); break; } } return Returned; } END
  // termination
  for(const char*n:{"exit","_exit","quick_exit","_Exit"}) DEF(n){ if(allowExit) return Dead; return fault("process exit called","abort"); } END
  for(const char*n:{"abort","_ZSt9terminatev","__cxa_pure_virtual","__stack_chk_fail","__cxa_rethrow","__cxa_bad_cast","__clang_call_terminate"}) DEF(n){ if(allowExit) return Dead; return fault("abnormal termination: "+F->getName().str(),"abort"); } END
  DEF("__assert_fail"){ if(allowExit) return Dead; return fault("assertion failed: "+cstr((u64)a[0].c),"abort"); } END
  DEF("__cxa_throw"){ if(allowExit) return Dead; return fault("exception thrown","abort"); } END
  DEF("__cxa_allocate_exception"){ ret=allocBytes(conc(a[0],"exc")+128,16,"exception"); return Returned; } END
  DEF("__cxa_guard_acquire"){ BV g=loadBits(a[0],1); ret=bZext(L1(bEq(g,C(8,0))),32); return Returned; } END
  DEF("__cxa_guard_release"){ storeBits(a[0],C(8,1)); return Returned; } END
  for(const char*n:{"__cxa_atexit","atexit","__cxa_guard_abort","__cxa_free_exception","__cxa_thread_atexit","__cxa_begin_catch","__cxa_end_catch","printf","fprintf","puts","putchar","perror","usleep","fputs","fputc","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_init","pthread_mutex_destroy","sched_yield","vprintf","vfprintf","__printf_chk","__fprintf_chk","mlock","munlock","_ZNSt12__basic_fileIcEC1EP15pthread_mutex_t"}) DEF(n){ if(!F->getReturnType()->isVoidTy()) ret=C(vw(F->getReturnType()),0); return Returned; } END
  for(const char*n:{"_ZNSt6chrono3_V212system_clock3nowEv","_ZNSt6chrono3_V212steady_clock3nowEv","clock","time"}) DEF(n){ ret=C(64,g_clock+=1000); return Returned; } END
  for(const char*n:{"getenv","secure_getenv"}) DEF(n){ ret=C(64,0); return Returned; } END
  for(auto&p:std::map<std::string,double(*)(double)>{{"log2",log2},{"ceil",ceil},{"floor",floor},{"sqrt",sqrt},{"log",log},{"exp",exp},{"sin",sin},{"cos",cos},{"fabs",fabs},{"round",round},{"trunc",trunc},{"log10",log10},{"exp2",exp2}}){ auto fn=p.second; MT[p.first]=[fn](Function*,std::vector<BV>&a,BV&ret,CallBase*){ ret=fromD(fn(asD(a[0])),64); return Returned; }; MT[p.first+"f"]=[fn](Function*,std::vector<BV>&a,BV&ret,CallBase*){ ret=fromD(fn(asD(a[0])),32); return Returned; }; }
  DEF("pow"){ ret=fromD(pow(asD(a[0]),asD(a[1])),64); return Returned; } END
  DEF("powf"){ ret=fromD(powf(asD(a[0]),asD(a[1])),32); return Returned; } END
  DEF("sym_draws"){ u64 n=0,cap=conc(a[1],"draws"); for(auto&x:symIns) if(x.name=="random_device"){ if(n<cap){ LV l=x.l; storeBits(bAdd(a[0],C(64,4*n)),fromLits(std::move(l))); } n++; } ret=C(64,n); return Returned; } END
  // randomness: every word from the operating system is a fresh unconstrained value
  DEF("_ZNSt13random_device9_M_getvalEv"){ SymIn s; s.name="random_device"; s.occ=symOcc[s.name]++; LV l; for(int i=0;i<32;i++) l.push_back(G.newInput("random_device")); s.l=l; symIns.push_back(s); ret=fromLits(std::move(l)); return Returned; } END
  for(const char*n:{"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt13random_device7_M_finiEv"}) DEF(n){ return Returned; } END
}
static RK model(const std::string&name,Function*F,std::vector<BV>&a,BV&ret,bool&handled,CallBase*cb){
  auto it=MT.find(name); if(it!=MT.end()){ handled=true; return it->second(F,a,ret,cb); }
  if(name.compare(0,11,"_ZSt")==0||name.compare(0,4,"_ZSt")==0){ if(name.find("__throw_")!=std::string::npos){ handled=true; if(allowExit) return Dead; return fault("library exception "+name,"abort"); } }
  if(name.compare(0,5,"_ZNSt")==0&&(name.find("_errorC1E")!=std::string::npos||name.find("_errorC2E")!=std::string::npos||name.find("_argumentC1E")!=std::string::npos||name.find("out_of_rangeC1E")!=std::string::npos)){ handled=true; return Returned; } // exception objects carry no state here
  handled=false; return Returned; }

static BV intrinsic(Frame&f,Ins&x,RK&rk){
  #define A(i) val(f,x.a[i])
  auto*cb=cast<CallBase>(x.I); Type*t=cb->getType(); StringRef nm=x.callee->getName();
  switch(x.iid){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::sideeffect: case Intrinsic::assume: return BV();
    case Intrinsic::stacksave: return C(64,0);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return A(0);
    case Intrinsic::threadlocal_address: return A(0);
    case Intrinsic::is_constant: return C(1,0);
    case Intrinsic::objectsize: return C(vw(t),~(u128)0);
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(A(0),A(1),conc(A(2),"memcpy size")); return BV();
    case Intrinsic::memset: case Intrinsic::memset_inline: setBytes(A(0),A(1),conc(A(2),"memset size")); return BV();
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: rk=fault("trap","abort"); return BV();
    case Intrinsic::vastart:{ BV p=A(0); Obj*ov=newObj(f.va.size()*8+16,16,1,"varargs"); f.allocas.push_back(ov); for(size_t i=0;i<f.va.size();i++) writeC(ov,8*i,bZext(f.va[i],64)); storeBits(p,C(32,48)); storeBits(bAdd(p,C(64,4)),C(32,304)); storeBits(bAdd(p,C(64,8)),C(64,ov->base)); storeBits(bAdd(p,C(64,16)),C(64,ov->base)); return BV(); }
    case Intrinsic::ctpop: { BV v=A(0); return vecLanes(t,[&](unsigned i){ return bPopcount(lane(v,t,i)); }); }
    case Intrinsic::ctlz: { BV v=A(0); return vecLanes(t,[&](unsigned i){ return bClz(lane(v,t,i)); }); }
    case Intrinsic::cttz: { BV v=A(0); return vecLanes(t,[&](unsigned i){ return bCtz(lane(v,t,i)); }); }
    case Intrinsic::bswap: { BV v=A(0); return vecLanes(t,[&](unsigned i){ BV l=lane(v,t,i); std::vector<BV> p; for(int k=l.w/8-1;k>=0;k--) p.push_back(slice(l,8*k,8)); return concat(p); }); }
    case Intrinsic::bitreverse: { BV v=A(0); return vecLanes(t,[&](unsigned i){ LV l=lits(lane(v,t,i)); std::reverse(l.begin(),l.end()); return fromLits(std::move(l)); }); }
    case Intrinsic::fshl: case Intrinsic::fshr: { BV a=A(0),b=A(1),s=A(2); bool L=x.iid==Intrinsic::fshl; return vecLanes(t,[&](unsigned i){ BV p=lane(a,t,i),q=lane(b,t,i),k=lane(s,t,i); uint32_t w=p.w; BV cat=concat({q,p}); 
        auto at=[&](uint32_t m){ return L? slice(cat,w-m,w): slice(cat,m,w); };
        if(!k.sym) return at((uint32_t)(k.c%w)); BV r=at(0); uint32_t nb=0; while((1u<<nb)<w) nb++; if((1u<<nb)!=w) unsup("funnel shift width"); BV kk=slice(k,0,nb); for(uint32_t m=1;m<w;m++) r=bMux(bEq(kk,C(nb,m)),at(m),r); return r; }); }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { BV a=A(0),b=A(1); auto id=x.iid; return vecLanes(t,[&](unsigned i){ BV p=lane(a,t,i),q=lane(b,t,i); Lit lt= (id==Intrinsic::umin||id==Intrinsic::umax)? bUlt(p,q): bSlt(p,q); return (id==Intrinsic::umin||id==Intrinsic::smin)? bMux(lt,p,q): bMux(lt,q,p); }); }
    case Intrinsic::abs: { BV a=A(0); return vecLanes(t,[&](unsigned i){ BV p=lane(a,t,i); return bMux(bit(p,p.w-1),bNeg(p),p); }); }
    case Intrinsic::uadd_with_overflow: { BV a=A(0),b=A(1); Lit c; BV r=addc(a,b,false,0,&c); return concat({r,L1(c)}); }
    case Intrinsic::usub_with_overflow: { BV a=A(0),b=A(1); BV r=bSub(a,b); return concat({r,L1(bUlt(a,b))}); }
    case Intrinsic::sadd_with_overflow: { BV a=bSext(A(0),A(0).w+1),b=bSext(A(1),A(1).w+1); BV r=bAdd(a,b); return concat({slice(r,0,a.w-1),L1(G.Xor(bit(r,a.w-1),bit(r,a.w-2)))}); }
    case Intrinsic::ssub_with_overflow: { BV a=bSext(A(0),A(0).w+1),b=bSext(A(1),A(1).w+1); BV r=bSub(a,b); return concat({slice(r,0,a.w-1),L1(G.Xor(bit(r,a.w-1),bit(r,a.w-2)))}); }
    case Intrinsic::umul_with_overflow: { uint32_t w=A(0).w; BV a=bZext(A(0),2*w),b=bZext(A(1),2*w); BV r=bMul(a,b); return concat({slice(r,0,w),L1(NOT(bEq(slice(r,w,w),C(w,0))))}); }
    case Intrinsic::smul_with_overflow: { uint32_t w=A(0).w; BV a=bSext(A(0),2*w),b=bSext(A(1),2*w); BV r=bMul(a,b); return concat({slice(r,0,w),L1(NOT(bEq(r,bSext(slice(r,0,w),2*w))))}); }
    case Intrinsic::uadd_sat: { BV a=A(0),b=A(1); return vecLanes(t,[&](unsigned i){ Lit c; BV r=addc(lane(a,t,i),lane(b,t,i),false,0,&c); return bMux(c,C(r.w,~(u128)0),r); }); }
    case Intrinsic::usub_sat: { BV a=A(0),b=A(1); return vecLanes(t,[&](unsigned i){ BV p=lane(a,t,i),q=lane(b,t,i); return bMux(bUlt(p,q),C(p.w,0),bSub(p,q)); }); }
    case Intrinsic::ceil: return fromD(ceil(asD(A(0))),vw(t)); case Intrinsic::floor: return fromD(floor(asD(A(0))),vw(t)); case Intrinsic::log2: return fromD(log2(asD(A(0))),vw(t)); case Intrinsic::fabs:{ BV v=A(0); if(!v.sym) return fromD(fabs(asD(v)),vw(t)); return bZext(slice(v,0,v.w-1),v.w); } case Intrinsic::sqrt: return fromD(sqrt(asD(A(0))),vw(t)); case Intrinsic::pow: return fromD(pow(asD(A(0)),asD(A(1))),vw(t)); case Intrinsic::log: return fromD(log(asD(A(0))),vw(t)); case Intrinsic::exp: return fromD(exp(asD(A(0))),vw(t)); case Intrinsic::sin: return fromD(sin(asD(A(0))),vw(t)); case Intrinsic::cos: return fromD(cos(asD(A(0))),vw(t)); case Intrinsic::fmuladd: case Intrinsic::fma: return fromD(asD(A(0))*asD(A(1))+asD(A(2)),vw(t));
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { Type*vt=cb->getArgOperand(0)->getType(); BV v=A(0); unsigned n=cast<FixedVectorType>(vt)->getNumElements(); BV r=lane(v,vt,0); for(unsigned i=1;i<n;i++){ BV l=lane(v,vt,i); r= x.iid==Intrinsic::vector_reduce_add? bAdd(r,l): x.iid==Intrinsic::vector_reduce_and? bAnd(r,l): x.iid==Intrinsic::vector_reduce_or? bOr(r,l): bXor(r,l); } return r; }
    default: break; }
  std::string s=nm.str();
  auto starts=[&](const char*p){ return s.compare(0,strlen(p),p)==0; };
  if(s=="llvm.x86.aesni.aesenc") return aesRound(A(0),A(1),false,false); if(s=="llvm.x86.aesni.aesenclast") return aesRound(A(0),A(1),false,true);
  if(s=="llvm.x86.aesni.aesdec") return aesRound(A(0),A(1),true,false); if(s=="llvm.x86.aesni.aesdeclast") return aesRound(A(0),A(1),true,true);
  if(s=="llvm.x86.aesni.aesimc") return aesMix(A(0),true);
  if(s=="llvm.x86.aesni.aeskeygenassist"){ BV v=A(0); uint32_t rc=(uint32_t)A(1).c; BV s1=aesByteTab(0,slice(v,32,32)),s3=aesByteTab(0,slice(v,96,32)); auto rot=[&](const BV&q){ return bXor(concat({slice(q,8,24),slice(q,0,8)}),C(32,rc)); }; return concat({s1,rot(s1),s3,rot(s3)}); }
  if(s=="llvm.x86.pclmulqdq"){ uint32_t im=(uint32_t)A(2).c; return clmul64(slice(A(0),(im&1)?64:0,64),slice(A(1),(im&16)?64:0,64)); }
  if(s=="llvm.x86.ssse3.pshuf.b.128"||s=="llvm.x86.avx2.pshuf.b"){ BV v=A(0),m=A(1); uint32_t n=v.w/8; std::vector<BV> p; for(uint32_t i=0;i<n;i++){ BV k=slice(m,8*i,8); uint32_t bs=i/16*16; if(!k.sym) p.push_back((k.c&0x80)?C(8,0):slice(v,8*(bs+(uint32_t)(k.c&15)),8)); else { BV r=slice(v,8*bs,8); for(int q=1;q<16;q++) r=bMux(bEq(slice(k,0,4),C(4,q)),slice(v,8*(bs+q),8),r); p.push_back(bMux(bit(k,7),C(8,0),r)); } } return concat(p); }
  if(s.find(".psrli.")!=std::string::npos||s.find(".pslli.")!=std::string::npos||s.find(".psrai.")!=std::string::npos||s.find(".psrl.")!=std::string::npos||s.find(".psll.")!=std::string::npos||s.find(".psra.")!=std::string::npos){
    BV v=A(0),k=A(1); if(k.w>64) k=slice(k,0,64); u64 n=k.sym? concretize(k,"vector shift"): (u64)k.c; int op= s.find(".psll")!=std::string::npos?0: s.find(".psra")!=std::string::npos?2:1; return vecLanes(t,[&](unsigned i){ BV l=lane(v,t,i); if(n>=l.w){ if(op==2) return ashrC(l,l.w-1); return C(l.w,0);} return op==0?shlC(l,(uint32_t)n):op==1?lshrC(l,(uint32_t)n):ashrC(l,(uint32_t)n); }); }
  if(s.find("pmovmskb")!=std::string::npos){ BV v=A(0); LV l; for(uint32_t i=0;i<v.w/8;i++) l.push_back(bit(v,8*i+7)); return bZext(fromLits(std::move(l)),32); }
  if(s.find("movmsk.pd")!=std::string::npos||s.find("movmsk.ps")!=std::string::npos){ BV v=A(0); uint32_t e=s.find(".pd")!=std::string::npos?64:32; LV l; for(uint32_t i=0;i<v.w/e;i++) l.push_back(bit(v,e*i+e-1)); return bZext(fromLits(std::move(l)),32); }
  if(s.find("ptestz")!=std::string::npos){ BV v=bAnd(A(0),A(1)); return bZext(L1(bEq(v,C(v.w,0))),32); }
  if(s.find("ptestc")!=std::string::npos){ BV v=bAnd(bNot(A(0)),A(1)); return bZext(L1(bEq(v,C(v.w,0))),32); }
  if(s.find("ptestnzc")!=std::string::npos){ BV v=bAnd(bNot(A(0)),A(1)),z=bAnd(A(0),A(1)); return bZext(L1(G.And(NOT(bEq(v,C(v.w,0))),NOT(bEq(z,C(z.w,0))))),32); }
  if(starts("llvm.x86.bmi.pext")){ BV v=A(0),m=A(1); if(m.sym) unsup("pext mask"); LV l; for(uint32_t i=0;i<v.w;i++) if((m.c>>i)&1) l.push_back(bit(v,i)); l.resize(v.w,0); return fromLits(std::move(l)); }
  if(starts("llvm.x86.bmi.pdep")){ BV v=A(0),m=A(1); if(m.sym) unsup("pdep mask"); LV l(v.w,0); uint32_t k=0; for(uint32_t i=0;i<v.w;i++) if((m.c>>i)&1) l[i]=bit(v,k++); return fromLits(std::move(l)); }
  if(starts("llvm.x86.sse2.pause")||starts("llvm.x86.sse2.mfence")||starts("llvm.x86.sse2.lfence")) return BV();
  if(starts("llvm.x86.rdtsc")) return C(64,g_clock+=1000);
  unsup("intrinsic "+s);
  #undef A
}
