// Stand-ins for <thread>, <mutex>, <condition_variable> and <future>: threads are cooperative, and every synchronisation
// operation is a point where the harness's scheduler may run any other runnable thread.
#pragma once
#include "sym.h"
#include <functional>
#include <memory>
#include <chrono>
#include <tuple>
#include <type_traits>
#include <utility>
#include <stdlib.h>
namespace mt { const int MAXT=12; struct St { bool used,done; bool(*ready)(void*); void*arg; int sid; }; extern St t[MAXT]; extern int n,cur,budget,spurious;
void run(int k); void point(); void block(bool(*ready)(void*),void*a,const char*what); void fail(const char*what); int spawn(void(*fn)(void*),void*arg); bool is_done(void*); }
namespace std {
struct defer_lock_t{}; struct try_to_lock_t{}; struct adopt_lock_t{}; static const defer_lock_t defer_lock{}; static const try_to_lock_t try_to_lock{}; static const adopt_lock_t adopt_lock{};
class mutex { public: int owner=-1; mutex(){} mutex(const mutex&)=delete; ~mutex(){ if(owner!=-1) mt::fail("a locked mutex is destroyed"); owner=-2; }
  static bool free_(void*p){ return ((mutex*)p)->owner==-1; } void check(){ if(owner==-2) mt::fail("a destroyed mutex is used"); }
  void lock(){ check(); if(owner==mt::cur) mt::fail("a thread locks a mutex it holds"); mt::point(); mt::block(free_,this,"waiting for a mutex forever"); check(); owner=mt::cur; } bool try_lock(){ check(); mt::point(); if(owner!=-1) return false; owner=mt::cur; return true; }
  void unlock(){ check(); if(owner!=mt::cur) mt::fail("a thread unlocks a mutex it does not hold"); owner=-1; mt::point(); } typedef void*native_handle_type; };
class recursive_mutex { mutex m; int d=0; public: void lock(){ if(m.owner==mt::cur){ d++; return; } m.lock(); d=1; } void unlock(){ if(--d==0) m.unlock(); } };
template<class M> class lock_guard { M&m; public: typedef M mutex_type; explicit lock_guard(M&x):m(x){ m.lock(); } lock_guard(M&x,adopt_lock_t):m(x){} lock_guard(const lock_guard&)=delete; ~lock_guard(){ m.unlock(); } };
template<class M> class unique_lock { M*m; bool o; public: typedef M mutex_type; unique_lock():m(nullptr),o(false){} explicit unique_lock(M&x):m(&x),o(false){ lock(); } unique_lock(M&x,defer_lock_t):m(&x),o(false){} unique_lock(M&x,adopt_lock_t):m(&x),o(true){} unique_lock(M&x,try_to_lock_t):m(&x),o(x.try_lock()){} unique_lock(const unique_lock&)=delete; unique_lock(unique_lock&&x):m(x.m),o(x.o){ x.m=nullptr; x.o=false; } unique_lock&operator=(unique_lock&&x){ if(o) unlock(); m=x.m; o=x.o; x.m=nullptr; x.o=false; return *this; } ~unique_lock(){ if(o) unlock(); }
  void lock(){ m->lock(); o=true; } bool try_lock(){ return o=m->try_lock(); } void unlock(){ if(!o) mt::fail("unlock of a lock not held"); o=false; m->unlock(); } bool owns_lock()const{ return o; } explicit operator bool()const{ return o; } M*mutex_()const{ return m; } M*mutex()const{ return m; } M*release(){ M*r=m; m=nullptr; o=false; return r; } };
enum class cv_status { no_timeout, timeout };
class condition_variable { public: bool waiting[mt::MAXT]; bool alive=true; condition_variable(){ for(int i=0;i<mt::MAXT;i++) waiting[i]=false; } condition_variable(const condition_variable&)=delete; ~condition_variable(){ for(int i=0;i<mt::MAXT;i++) if(waiting[i]) mt::fail("a condition variable is destroyed while a thread waits on it"); alive=false; }
  void check(){ if(!alive) mt::fail("a destroyed condition variable is used"); }
  void notify_all() noexcept { check(); mt::point(); for(int i=0;i<mt::MAXT;i++) waiting[i]=false; mt::point(); }
  void notify_one() noexcept { check(); mt::point(); int w[mt::MAXT],k=0; for(int i=0;i<mt::MAXT;i++) if(waiting[i]) w[k++]=i; if(k) waiting[k==1? w[0]: w[sym_choose(0,(uint64_t)(k-1),"wakes")]]=false; mt::point(); }
  struct W { condition_variable*c; int t; }; static bool woken(void*p){ W*w=(W*)p; return !w->c->waiting[w->t]; }
  template<class L> void wait_(L&l){ check(); mt::point(); int me=mt::cur; waiting[me]=true; if(mt::spurious>0&&sym_choose(0,1,"spurious")){ mt::spurious--; waiting[me]=false; } l.unlock(); W w{this,me}; mt::block(woken,&w,"waiting to be notified forever"); l.lock(); }
  void wait(unique_lock<mutex>&l){ wait_(l); } template<class P> void wait(unique_lock<mutex>&l,P p){ while(!p()) wait_(l); }
  template<class R,class Q> cv_status wait_for(unique_lock<mutex>&l,const chrono::duration<R,Q>&){ l.unlock(); mt::point(); l.lock(); return cv_status::timeout; } template<class R,class Q,class P> bool wait_for(unique_lock<mutex>&l,const chrono::duration<R,Q>&,P p){ if(p()) return true; l.unlock(); mt::point(); l.lock(); return p(); } };
typedef condition_variable condition_variable_any;
class thread { int id_=-1; struct Box { function<void()> f; }; static void main_(void*p){ Box*b=(Box*)p; b->f(); delete b; } public: class id { public: int v; id(int x=-1):v(x){} bool operator==(const id&o)const{ return v==o.v; } bool operator!=(const id&o)const{ return v!=o.v; } bool operator<(const id&o)const{ return v<o.v; } };
  thread() noexcept {} template<class F,class...A,class=typename enable_if<!is_same<typename decay<F>::type,thread>::value>::type> explicit thread(F&&f,A&&...a){ Box*b=new Box{function<void()>(bind(forward<F>(f),forward<A>(a)...))}; id_=mt::spawn(main_,b); mt::point(); } thread(const thread&)=delete; thread(thread&&o) noexcept :id_(o.id_){ o.id_=-1; } thread&operator=(thread&&o) noexcept { if(id_!=-1) mt::fail("a joinable thread is overwritten"); id_=o.id_; o.id_=-1; return *this; } ~thread(){ if(id_!=-1) mt::fail("a joinable thread is destroyed"); }
  bool joinable()const noexcept { return id_!=-1; } void join(){ if(id_<0) mt::fail("join of a thread that is not joinable"); mt::point(); mt::block(mt::is_done,(void*)(intptr_t)id_,"joining a thread that never ends"); id_=-1; } void detach(){ id_=-1; } id get_id()const{ return id(id_); } static unsigned hardware_concurrency() noexcept { return 2; } void swap(thread&o){ int x=id_; id_=o.id_; o.id_=x; } };
namespace this_thread { inline thread::id get_id(){ return thread::id(mt::cur); } inline void yield(){ mt::point(); } template<class R,class Q> void sleep_for(const chrono::duration<R,Q>&){ mt::point(); } }
struct once_flag { bool d=false; }; template<class F,class...A> void call_once(once_flag&o,F&&f,A&&...a){ if(!o.d){ o.d=true; f(forward<A>(a)...); } }
// futures
enum class future_status { ready, timeout, deferred }; enum class launch { async=1, deferred=2 };
template<class R> struct fstate_ { bool ready=false; int sets=0; typename aligned_storage<sizeof(R),alignof(R)>::type v; template<class X> void set(X&&x){ if(ready) mt::fail("a result is delivered twice"); new(&v) R(forward<X>(x)); ready=true; mt::point(); } R take(){ return std::move(*(R*)&v); } static bool is(void*p){ return ((fstate_*)p)->ready; } };
template<> struct fstate_<void> { bool ready=false; void set(){ if(ready) mt::fail("a result is delivered twice"); ready=true; mt::point(); } void take(){} static bool is(void*p){ return ((fstate_*)p)->ready; } };
template<class R> class shared_future;
template<class R> class future { public: shared_ptr<fstate_<R>> s; future() noexcept {} future(future&&o) noexcept :s(std::move(o.s)){} future(const future&)=delete; future&operator=(future&&o) noexcept { s=std::move(o.s); return *this; } bool valid()const noexcept { return (bool)s; } void wait()const{ mt::point(); mt::block(fstate_<R>::is,s.get(),"waiting for a result that is never delivered"); } R get(){ wait(); shared_ptr<fstate_<R>> k=std::move(s); return k->take(); } template<class A,class B> future_status wait_for(const chrono::duration<A,B>&)const{ mt::point(); return s->ready? future_status::ready: future_status::timeout; } };
template<class R> class promise { shared_ptr<fstate_<R>> s; public: promise():s(make_shared<fstate_<R>>()){} promise(promise&&)=default; future<R> get_future(){ future<R> f; f.s=s; return f; } template<class X> void set_value(X&&x){ s->set(forward<X>(x)); } };
template<> class promise<void> { shared_ptr<fstate_<void>> s; public: promise():s(make_shared<fstate_<void>>()){} promise(promise&&)=default; future<void> get_future(){ future<void> f; f.s=s; return f; } void set_value(){ s->set(); } };
template<class S> class packaged_task; template<class R,class...A> struct call_ { template<class F> static void go(fstate_<R>&s,F&f,A...a){ s.set(f(forward<A>(a)...)); } }; template<class...A> struct call_<void,A...> { template<class F> static void go(fstate_<void>&s,F&f,A...a){ f(forward<A>(a)...); s.set(); } };
template<class R,class...A> class packaged_task<R(A...)> { struct base { virtual void go(fstate_<R>&,A...)=0; virtual ~base(){} }; template<class F> struct impl: base { F f; impl(F&&x):f(std::move(x)){} impl(const F&x):f(x){} void go(fstate_<R>&s,A...a) override { call_<R,A...>::go(s,f,forward<A>(a)...); } }; unique_ptr<base> b; shared_ptr<fstate_<R>> s; public: packaged_task() noexcept {} template<class F,class=typename enable_if<!is_same<typename decay<F>::type,packaged_task>::value>::type> explicit packaged_task(F&&f):b(new impl<typename decay<F>::type>(forward<F>(f))),s(make_shared<fstate_<R>>()){} packaged_task(packaged_task&&)=default; packaged_task&operator=(packaged_task&&)=default; bool valid()const noexcept { return (bool)b; } future<R> get_future(){ future<R> f; f.s=s; return f; } void operator()(A...a){ if(!b) mt::fail("an empty task is run"); if(s->ready) mt::fail("a task is run twice"); b->go(*s,forward<A>(a)...); } };
}
