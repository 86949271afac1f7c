// C13, larger circuits: the shape (sizes, gates, wire numbering, spacing) comes from a generator, the inputs are free, and fresh at each evaluation; every way the
// input and output arrays may lie relative to each other.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include "blockcirc.h"
#include <stdio.h>
using namespace emp;
struct G { int op,a,b,o; };
static const char*ON[3]={"AND","XOR","INV"};
#ifdef WIDE // many inputs and outputs
enum { MG=2600,MW=5200,MI=2700,MO=1700,CAP=3000,NT=120000 };
#else
enum { MG=500,MW=600,MI=32,MO=32,CAP=64,NT=40000 };
#endif
static unsigned char T[NT];
extern "C" void harness(){ vb_setup(); 
#ifdef WIDE
  uint64_t rs=77+sym_choose(0,TIER(3,11),"seed");
#else
  uint64_t rs=1234+sym_choose(0,TIER(23,119),"seed");
#endif
   auto rnd=[&](int m){ rs=rs*6364136223846793005ull+1442695040888963407ull; return (int)((rs>>33)%(uint64_t)m); };
  int n1=1+rnd(9),n2=rnd(4)==0? n1: rnd(9),ni=n1+n2; int ng=8+rnd(rnd(3)==0?400:90),nw=ni+ng; int no=1+rnd(ng<20?ng:20); if(rnd(4)==0&&n1<=ng) no=n1;
#ifdef WIDE
  { static const int A[]={300,1024,65,1300},B[]={257,0,1024,1300},O[]={600,1600,513,1025}; int k=(int)(rs>>20)&3; k=(int)((rs>>33)%4); n1=A[k]; n2=B[k]; ni=n1+n2; no=O[(k+rnd(2))%4]; ng=no+400+rnd(600); nw=ni+ng; }
#endif
  static G g[MG]; static int nr[MW]; for(int i=0;i<nw;i++) nr[i]=i; if(rnd(2)) for(int i=nw-1;i>ni;i--){ int j=ni+rnd(i-ni+1); int t=nr[i]; nr[i]=nr[j]; nr[j]=t; } // numbering of the gate outputs
  static bool w[MW],in[MI]; for(int i=0;i<ni;i++) w[i]=in[i]=sym_bool("in"); auto ev=[&](bool*x){ for(int i=0;i<ng;i++) x[g[i].o]= g[i].op==0? (x[g[i].a]&&x[g[i].b]): g[i].op==1? (x[g[i].a]!=x[g[i].b]): !x[g[i].a]; };
  for(int i=0;i<ng;i++){ int lim=ni+i; g[i].op=rnd(5)==0?2:rnd(2); g[i].a=nr[rnd(2)? rnd(lim): lim-1-rnd(lim<8?lim:8)]; g[i].b=nr[rnd(lim)]; if(rnd(17)==0) g[i].b=g[i].a; g[i].o=nr[lim]; } ev(w); static bool want[MO]; for(int i=0;i<no;i++) want[i]=w[nw-no+i];
  size_t n=0; auto sp=[&]{ T[n++]=' '; if(rnd(5)==0) T[n++]=' '; }; n=bc_num(T,n,ng); sp(); n=bc_num(T,n,nw); T[n++]='\n';
#if FASHION
  int ins= rnd(3); if(ins==0){ n=bc_str(T,n,"1 "); n=bc_num(T,n,ni); } else if(ins==1){ n=bc_str(T,n,"2 "); n=bc_num(T,n,n1); sp(); n=bc_num(T,n,n2); } else { n=bc_num(T,n,ni); for(int i=0;i<ni;i++) n=bc_str(T,n," 1"); } T[n++]='\n'; if(rnd(2)){ n=bc_num(T,n,no); for(int i=0;i<no;i++) n=bc_str(T,n," 1"); } else { n=bc_str(T,n,"1 "); n=bc_num(T,n,no); } T[n++]='\n';
#else
  n=bc_num(T,n,n1); sp(); n=bc_num(T,n,n2); sp(); n=bc_num(T,n,no); T[n++]='\n';
#endif
  if(rnd(2)) T[n++]='\n'; for(int i=0;i<ng;i++){ n=bc_str(T,n,g[i].op==2?"1 1 ":"2 1 "); n=bc_num(T,n,g[i].a); sp(); if(g[i].op!=2){ n=bc_num(T,n,g[i].b); sp(); } n=bc_num(T,n,g[i].o); sp(); n=bc_str(T,n,ON[g[i].op]); T[n++]='\n'; if(rnd(40)==0) T[n++]='\n'; } sym_assert(n<sizeof T,"harness text");
  const int cap=CAP; block*buf=new block[3*cap]; auto fill=[&](block*p,const bool*v,int k){ for(int i=0;i<k;i++) p[i]=vb_mk(v[i]); }; auto ok=[&](block*p,const bool*e,const char*what){ for(int i=0;i<no;i++) sym_assert(vb_val(p[i])==e[i],what); };
#if FASHION
  FILE*f=fmemopen(T,n,"r"); BristolFashion c(f); fclose(f); sym_assert(c.num_gate==ng&&c.num_wire==nw&&c.num_input==ni&&c.num_output==no,"header"); if(c.num_gate!=ng||c.num_wire!=nw||c.num_input!=ni||c.num_output!=no) return;
  for(int pat=0;pat<4;pat++){ for(int i=0;i<ni;i++) w[i]=in[i]=sym_bool("next"); ev(w); for(int i=0;i<no;i++) want[i]=w[nw-no+i]; for(int i=0;i<3*cap;i++) buf[i]=vb_mk(1); block*I=buf,*O= pat==0? buf+cap: pat==1? buf: pat==2? buf+1: buf+ni; if(pat==2){ I=buf+cap; O=I-1; } fill(I,in,ni); c.compute(O,I); ok(O,want,"value of every output, whichever way the arrays overlap"); sym_assert(vb_val(O[no])==(uint64_t)(O+no>=I&&O+no<I+ni? in[O+no-I]:1),"only the outputs are written"); }
  { static bool z[MW]; for(int i=0;i<ni;i++) z[i]=!in[i]; ev(z); static bool wz[MO]; for(int i=0;i<no;i++) wz[i]=z[nw-no+i]; static bool nin[MI]; for(int i=0;i<ni;i++) nin[i]=!in[i]; fill(buf,nin,ni); c.compute(buf+cap,buf); ok(buf+cap,wz,"evaluating other inputs afterwards"); }
#else
  BristolFormat*c; int how=rnd(2); int*arr=new int[4*ng]; for(int i=0;i<ng;i++){ arr[4*i]=g[i].a; arr[4*i+1]=g[i].b; arr[4*i+2]=g[i].o; arr[4*i+3]=g[i].op; } if(how==0){ FILE*f=fmemopen(T,n,"r"); c=new BristolFormat(f); fclose(f); } else c=new BristolFormat(ng,nw,n1,n2,no,arr);
  bool hd=c->num_gate==ng&&c->num_wire==nw&&c->n1==n1&&c->n2==n2&&c->n3==no; sym_assert(hd,"header"); if(!hd) return;
  for(int pat=0;pat<7;pat++){ for(int i=0;i<ni;i++) w[i]=in[i]=sym_bool("next"); ev(w); for(int i=0;i<no;i++) want[i]=w[nw-no+i]; for(int i=0;i<3*cap;i++) buf[i]=vb_mk(1); block*I1=buf,*I2=buf+cap,*O=buf+2*cap; switch(pat){ case 1: I2=I1+n1; break; case 2: O=I1; break; case 3: O=I2; break; case 4: I2=I1+n1; O=I1; break; case 5: I1=buf+cap; I2=buf; break; case 6: I2=I1+n1; O=I1+1; break; } fill(I1,in,n1); fill(I2,in+n1,n2); c->compute(O,I1,I2); ok(O,want,"value of every output, whichever way the arrays lie"); sym_assert(vb_val(O[no])==(uint64_t)(O+no>=I1&&O+no<I1+n1? in[O+no-I1]: O+no>=I2&&O+no<I2+n2? in[n1+(O+no-I2)]: 1),"only the outputs are written"); }
  if(n1==n2){ static bool z[MW]; for(int i=0;i<ni;i++) z[i]=in[i%n1]; ev(z); static bool wz[MO]; for(int i=0;i<no;i++) wz[i]=z[nw-no+i]; fill(buf,in,n1); c->compute(buf+2*cap,buf,buf); ok(buf+2*cap,wz,"both inputs from the same array"); fill(buf,in,n1); c->compute(buf,buf,buf); ok(buf,wz,"both inputs and the output in the same array"); }
  delete c; delete[] arr;
#endif
  delete[] buf; sym_reach("end"); }
