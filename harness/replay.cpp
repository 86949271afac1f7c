// Native runtime: runs the same harness on the concrete values of a counterexample.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include <random>
typedef std::vector<unsigned char> V;
static std::map<std::pair<std::string,int>,V> syms; static std::map<std::string,std::vector<unsigned long long>> chs; static std::map<std::string,size_t> chi;
static std::map<std::string,std::map<V,V>> ufs; static std::map<std::string,int> occ; static bool fuzz=false,done=false; static unsigned long long rs=1;
static unsigned long long rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1DULL; }
static V unhex(const char*h){ V v; if(*h=='-') return v; for(;h[0]&&h[1];h+=2){ char b[3]={h[0],h[1],0}; v.push_back((unsigned char)strtol(b,0,16)); } return v; }
extern "C" {
static void sfill(void*p,size_t n,const char*name){ std::string s(name); int k=occ[s]++; auto it=syms.find({s,k}); unsigned char*q=(unsigned char*)p; if(it==syms.end()){ for(size_t i=0;i<n;i++) q[i]= fuzz? (unsigned char)(rnd()>>24):0; return; } for(size_t i=0;i<n;i++) q[i]= i<it->second.size()? it->second[i]:0; }
void sym_make(void*p,size_t n,const char*name){ sfill(p,n,name); }
void sym_bools(void*p,size_t n,const char*name){ sfill(p,n,name); for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]&=1; }
uint64_t sym_choose(uint64_t lo,uint64_t hi,const char*name){ auto&v=chs[name]; size_t k=chi[name]++; if(k<v.size()) return v[k]; return fuzz? lo+rnd()%(hi-lo+1): lo; }
uint64_t sym_concrete(uint64_t v){ return v; }
void sym_assume(int c){ if(!c){ if(!fuzz) printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
void sym_assert(int c,const char*l){ if(!c){ printf("REPLAY-VIOLATION %s\n",l); fflush(stdout); _exit(42); } }
void sym_assert_eq(const void*a,const void*b,size_t n,const char*l){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]){ printf("REPLAY-VIOLATION %s (byte %zu: %02x vs %02x)\n",l,i,x[i],y[i]); fflush(stdout); _exit(42); } }
void sym_reach(const char*){}
void sym_uf(const char*name,const void*in,size_t nin,void*out,size_t nout){ V a((const unsigned char*)in,(const unsigned char*)in+nin); auto&m=ufs[name]; auto it=m.find(a); if(it==m.end()){ V o(nout); unsigned long long h=1469598103934665603ULL; for(auto c:a) h=(h^c)*1099511628211ULL; for(size_t i=0;i<nout;i++){ h=(h^i)*1099511628211ULL; o[i]=(unsigned char)(h>>32); } m[a]=o; it=m.find(a); } for(size_t i=0;i<nout;i++) ((unsigned char*)out)[i]= i<it->second.size()? it->second[i]:0; }
void sym_config(const char*,uint64_t){}
int sym_engine(void){ return 0; }
uint64_t sym_time_left(void){ return 600; }
int sym_is_const(uint64_t){ return 1; }
void sym_trace(const char*s,uint64_t v){ printf("[trace] %s = %llx\n",s,(unsigned long long)v); }
}
// cooperative threads: real threads passing a baton
#include <pthread.h>
static pthread_mutex_t bm=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bc=PTHREAD_COND_INITIALIZER; static int bcur=0,bn=1; struct BT { int id; void(*fn)(void*); void*arg; };
static void bwait(int me){ while(bcur!=me) pthread_cond_wait(&bc,&bm); }
static void*bmain(void*p){ BT*t=(BT*)p; pthread_mutex_lock(&bm); bwait(t->id); pthread_mutex_unlock(&bm); t->fn(t->arg); printf("REPLAY thread returned\n"); fflush(stdout); _exit(3); }
extern "C" int sym_thread(void(*fn)(void*),void*arg){ BT*t=new BT{bn++,fn,arg}; pthread_t h; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,64u<<20); pthread_create(&h,&at,bmain,t); return t->id; }
extern "C" void sym_switch(int id){ pthread_mutex_lock(&bm); int me=bcur; if(id!=me){ bcur=id; pthread_cond_broadcast(&bc); bwait(me); } pthread_mutex_unlock(&bm); }
static std::vector<uint32_t> draws;
unsigned int std::random_device::_M_getval(){ unsigned int v; sfill(&v,4,"random_device"); draws.push_back(v); return v; }
extern "C" size_t sym_draws(uint32_t*o,size_t cap){ for(size_t i=0;i<cap&&i<draws.size();i++) o[i]=draws[i]; return draws.size(); }
static void atex(){ if(!done){ printf("REPLAY-VIOLATION process exit before the end of the scenario\n"); fflush(stdout); _exit(42); } }
int main(int argc,char**argv){
  atexit(atex);
  if(argc>1&&!strcmp(argv[1],"--fuzz")){ fuzz=true; rs=strtoull(argv[2],0,10)*0x9E3779B97F4A7C15ULL+1; for(int i=0;i<8;i++) rnd(); }
  else if(argc>1){ FILE*f=fopen(argv[1],"r"); if(!f) return 9; static char k[64],n[4096],a[1<<22],b[1<<22]; while(fscanf(f,"%63s",k)==1){ if(!strcmp(k,"choose")){ unsigned long long v; if(fscanf(f,"%4095s %llu",n,&v)!=2) break; chs[n].push_back(v); } else if(!strcmp(k,"sym")){ int o; if(fscanf(f,"%4095s %d %4194303s",n,&o,a)!=3) break; syms[{n,o}]=unhex(a); } else if(!strcmp(k,"uf")){ if(fscanf(f,"%4095s %4194303s %4194303s",n,a,b)!=3) break; ufs[n][unhex(a)]=unhex(b); } } fclose(f); }
  harness(); done=true; printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
