// C31: the thread pool under every schedule within a preemption bound. The pool's code is the real one; the standard threading classes are
// the stand-ins of threadinc/, whose scheduler is here.
#include "sym.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include "emp-tool/utils/ThreadPool.h"
namespace mt { St t[MAXT]; int n=1,cur=0,budget=0,spurious=0; struct Th { void(*fn)(void*); void*arg; int id; };
void fail(const char*w){ sym_assert(0,w); exit(7); }
bool is_done(void*p){ return t[(intptr_t)p].done; }
static int picks=1<<30; // after this many free choices of the next thread the lowest numbered one runs
static int pick(int*o,int m){ if(m==1||picks<=0) return o[0]; picks--; return o[sym_choose(0,(uint64_t)(m-1),"next")]; }
static bool runnable(int k){ return t[k].used&&!t[k].done&&(!t[k].ready||t[k].ready(t[k].arg)); }
void run(int k){ cur=k; sym_switch(t[k].sid); }
void point(){ if(budget<=0) return; int o[MAXT],m=0; for(int i=0;i<n;i++) if(i!=cur&&runnable(i)) o[m++]=i; if(!m) return; uint64_t c=sym_choose(0,(uint64_t)m,"preempt"); if(!c) return; budget--; int me=cur; run(o[c-1]); cur=me; }
void block(bool(*ready)(void*),void*a,const char*what){ int me=cur; while(!ready(a)){ t[me].ready=ready; t[me].arg=a; int o[MAXT],m=0; for(int i=0;i<n;i++) if(i!=me&&runnable(i)) o[m++]=i; if(!m) fail(what); run(pick(o,m)); cur=me; t[me].ready=nullptr; } }
static void body(void*p){ Th*h=(Th*)p; h->fn(h->arg); int me=h->id; t[me].done=true; for(;;){ int o[MAXT],m=0; for(int i=0;i<n;i++) if(runnable(i)) o[m++]=i; if(!m) fail("all threads wait forever"); run(pick(o,m)); } }
int spawn(void(*fn)(void*),void*arg){ if(n>=MAXT) fail("more threads than expected"); int id=n++; t[id].used=true; t[id].done=false; t[id].ready=nullptr; t[id].sid=sym_thread(body,new Th{fn,arg,id}); return id; } }
#define MT 48
static int ran[MT]; static uint32_t val[MT],got[MT]; static bool accepted[MT];
static uint32_t work(int i,uint32_t v){ mt::point(); ran[i]++; got[i]=v; mt::point(); return v*3+(uint32_t)i; }
struct Fn { int i; uint32_t operator()() const { return work(i,val[i]); } };
static void done(int n){ for(int i=0;i<n;i++) if(accepted[i]){ sym_assert(ran[i]==1,"an accepted task has run exactly once when the pool is gone"); sym_assert(got[i]==val[i],"a task gets its own arguments"); } for(int i=1;i<mt::n;i++) sym_assert(mt::t[i].done,"no worker outlives the pool"); }
extern "C" void harness(){ mt::t[0].used=true; for(int i=0;i<MT;i++) val[i]=sym_u32("arg"); int workers=(int)sym_choose(1,TIER(2,3),"workers");
#if PART==0 // one submitter, results taken or not before the pool goes away
  int tasks=(int)sym_choose(0,TASKS,"tasks"); int take=(int)sym_choose(0,tasks>0?1:0,"take"); mt::budget=(int)TIER(BUD,BUD+1); mt::spurious=1; ThreadPool*p=new ThreadPool((size_t)workers); sym_assert(p->size()==workers,"size is the number of workers"); std::future<uint32_t> f[4];
  for(int i=0;i<tasks;i++){ if(i%2==0) f[i]=p->enqueue(work,i,val[i]); else f[i]=p->enqueue(Fn{i}); accepted[i]=true; }
  if(take) for(int i=tasks-1;i>=0;i--) sym_assert(f[i].get()==val[i]*3+(uint32_t)i,"the future delivers the task's result");
  delete p; done(tasks); if(!take) for(int i=0;i<tasks;i++) sym_assert(f[i].get()==val[i]*3+(uint32_t)i,"the future delivers the result after the pool is gone");
#elif PART==1 // two submitting threads
  mt::budget=TIER(BUD,BUD+1); ThreadPool*p=new ThreadPool((size_t)workers); uint32_t r1=0; std::thread s([&]{ std::future<uint32_t> f=p->enqueue(work,1,val[1]); accepted[1]=true; r1=f.get(); }); std::future<void> f0=p->enqueue([](int i){ work(i,val[i]); },0); accepted[0]=true; f0.get(); sym_assert(ran[0]==1,"a task has run when its future is ready"); s.join(); sym_assert(r1==val[1]*3+1,"the second submitter gets its result"); delete p; done(2);
#elif PART==3 // a long queue: most tasks are still waiting when results are taken or the pool goes away
  size_t L[]={3,5,8,16,MT}; int tasks=(int)L[sym_choose(0,MANY,"tasks")]; int take=(int)sym_choose(0,2,"take"); mt::budget=(int)TIER(BUD,BUD+1); mt::picks=TIER(PK,PK+2); workers+=(int)sym_choose(0,1,"more")*2; ThreadPool*p=new ThreadPool((size_t)workers); std::future<uint32_t> f[MT]; for(int i=0;i<tasks;i++){ if(i%2==0) f[i]=p->enqueue(work,i,val[i]); else f[i]=p->enqueue(Fn{i}); accepted[i]=true; if(take==1&&i==2) sym_assert(f[2].get()==val[2]*3+2,"the future delivers the task's result"); }
  if(take==2) sym_assert(f[tasks-1].get()==val[tasks-1]*3+(uint32_t)(tasks-1),"the future delivers the task's result"); delete p; done(tasks); for(int i=0;i<tasks;i++) if(!(take==1&&i==2)&&!(take==2&&i==tasks-1)) sym_assert(f[i].get()==val[i]*3+(uint32_t)i,"the future delivers the result after the pool is gone");
#else // a task submits another one; at shutdown that may be refused, but never accepted and lost
  sym_config("allowexit",1); mt::budget=TIER(BUD,BUD+1); ThreadPool*p=new ThreadPool((size_t)workers); std::future<uint32_t> inner; bool waitfirst=sym_choose(0,1,"wait"); std::future<uint32_t> f=p->enqueue([&]{ inner=p->enqueue(work,1,val[1]); accepted[1]=true; return work(0,val[0]); }); accepted[0]=true; if(waitfirst) sym_assert(f.get()==val[0]*3,"outer result"); delete p; done(2); if(accepted[1]) sym_assert(inner.get()==val[1]*3+1,"inner result");
#endif
  sym_reach("end"); }
