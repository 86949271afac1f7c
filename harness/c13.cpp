// C13: circuits in both text formats, built case by case, loaded and evaluated by the library on all inputs.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include "blockcirc.h"
#include <stdio.h>
using namespace emp;
static const char*FN="c13_circuit.txt";
struct G { int op,a,b,o; };
static const char*ON[3]={"AND","XOR","INV"};
static size_t sepr(unsigned char*t,size_t n,int sp){ if(sp==2) n=bc_str(t,n,"  "); else t[n++]=' '; return n; }
static size_t text(unsigned char*t,int fashion,int split,int sp,int ng,const G*g,int nw,int ni1,int ni2,int no){ size_t n=0; if(sp==2) n=bc_str(t,n,"          \n"); n=bc_num(t,n,ng); n=sepr(t,n,sp); n=bc_num(t,n,nw); if(sp==2) t[n++]=' '; t[n++]='\n';
  if(!fashion){ n=bc_num(t,n,ni1); n=sepr(t,n,sp); n=bc_num(t,n,ni2); n=sepr(t,n,sp); n=bc_num(t,n,no); }
  else { if(split==0){ n=bc_str(t,n,"2 "); n=bc_num(t,n,ni1); n=sepr(t,n,sp); n=bc_num(t,n,ni2); } else { n=bc_str(t,n,"1 "); n=bc_num(t,n,ni1+ni2); } t[n++]='\n'; if(no==2&&split==1) n=bc_str(t,n,"2 1 1"); else { n=bc_str(t,n,"1 "); n=bc_num(t,n,no); } }
  n=bc_str(t,n, sp==1? "\n":"\n\n"); for(int i=0;i<ng;i++){ n=bc_str(t,n, g[i].op==2?"1 1 ":"2 1 "); n=bc_num(t,n,g[i].a); n=sepr(t,n,sp); if(g[i].op!=2){ n=bc_num(t,n,g[i].b); n=sepr(t,n,sp); } n=bc_num(t,n,g[i].o); n=sepr(t,n,sp); n=bc_str(t,n,ON[g[i].op]); if(i<ng-1||sp!=1) t[n++]='\n'; } t[n]=0; return n; }
static void put(const unsigned char*t,size_t n){ FILE*f=fopen(FN,"w"); sym_assert(f!=0,"harness file"); fwrite(t,1,n,f); fclose(f); }
static int64_t num(const unsigned char*t,size_t&p,size_t n){ while(p<n&&!(t[p]>='0'&&t[p]<='9')) p++; if(p>=n) return -1; int64_t v=0; while(p<n&&t[p]>='0'&&t[p]<='9') v=v*10+(t[p++]-'0'); return v; }
static int64_t after(const unsigned char*t,size_t n,const char*key,size_t&pos){ size_t k=strlen(key); for(size_t p=0;p+k<=n;p++){ size_t j=0; while(j<k&&t[p+j]==(unsigned char)key[j]) j++; if(j==k){ pos=p+k; return num(t,pos,n); } } return -1; }
extern "C" void harness(){ vb_setup(); const int ni1=1,ni2=TIER(1,1),ni=ni1+ni2; int ng=(int)sym_choose(1,NG,"gates"); G g[4]; int nw=ni+ng; int perm= ng>=2? (int)sym_choose(0,1,"numbering"):0; int o_[4]; for(int i=0;i<ng;i++) o_[i]= perm? nw-1-i: ni+i; int defd[8]; int nd=0; for(int i=0;i<ni;i++) defd[nd++]=i;
  bool in[4],w[8]; for(int i=0;i<ni;i++){ in[i]=sym_bool("in"); w[i]=in[i]; }
#if PART==2
  const int NOPS=3;
#else
  const int NOPS=2;
#endif
  for(int i=0;i<ng;i++){ g[i].op=(int)sym_choose(0,NOPS,"op"); g[i].a=defd[sym_choose(0,nd-1,"a")]; g[i].b= g[i].op==2?0: i==2? defd[nd-1]: defd[sym_choose(0,nd-1,"b")]; g[i].o=o_[i]; bool a=w[g[i].a],b=w[g[i].b]; w[g[i].o]= g[i].op==0? (a&&b): g[i].op==1? (a!=b): g[i].op==2? !a: (a||b); defd[nd++]=g[i].o; }
#if PART==2
  { // flat gate arrays
    block wr[8]; for(int i=0;i<nw;i++) wr[i]=vb_mk(i<ni?in[i]:1); if(sym_choose(0,1,"width")){ uint64_t a[16]; for(int i=0;i<ng;i++){ a[4*i]=g[i].a; a[4*i+1]=g[i].b; a[4*i+2]=g[i].o; a[4*i+3]=g[i].op; } execute_circuit(wr,a,(size_t)ng); } else { int a[16]; for(int i=0;i<ng;i++){ a[4*i]=g[i].a; a[4*i+1]=g[i].b; a[4*i+2]=g[i].o; a[4*i+3]=g[i].op; } execute_circuit(wr,a,(size_t)ng); } for(int i=0;i<nw;i++) sym_assert(vb_val(wr[i])==w[i],"wire value"); sym_reach("end"); return; }
#else
  int no=(int)sym_choose(1,2,"outputs"); int sp=(int)sym_choose(0,2,"spacing"); unsigned char t[600]; const int fashion=PART; int split= fashion? (int)sym_choose(0,1,"split"):0; size_t n=text(t,fashion,split,sp,ng,g,nw,ni1,ni2,no); int from=(int)sym_choose(0,1,"from"); if(ng==NG&&sp!=0&&from==1){ sym_reach("end"); return; }
  FILE*f=0; if(from==0) put(t,n); else f=fmemopen(t,n,"r"); block a[4],o[4]; bool want[4]; for(int i=0;i<no;i++) want[i]=w[nw-no+i];
#if PART==0
  BristolFormat*c= f? new BristolFormat(f): new BristolFormat(FN); if(f) fclose(f); sym_assert(c->num_gate==ng&&c->num_wire==nw&&c->n1==ni1&&c->n2==ni2&&c->n3==no,"header"); if(!(c->num_gate==ng&&c->num_wire==nw&&c->n1==ni1&&c->n2==ni2&&c->n3==no)) return;
#define RUN(O,I) c->compute(O,I,I+ni1)
#else
  BristolFashion*c= f? new BristolFashion(f): new BristolFashion(FN); if(f) fclose(f); sym_assert(c->num_gate==ng&&c->num_wire==nw&&c->num_input==ni&&c->num_output==no,"header"); if(!(c->num_gate==ng&&c->num_wire==nw&&c->num_input==ni&&c->num_output==no)) return;
#define RUN(O,I) c->compute(O,I)
#endif
  for(int rep=0;rep<2;rep++){ for(int i=0;i<4;i++){ a[i]=vb_mk(i<ni?in[i]:1); o[i]=vb_mk(1); } RUN(o,a); for(int i=0;i<no;i++) sym_assert(vb_val(o[i])==want[i],rep?"evaluating again":"value of every output"); for(int i=no;i<4;i++) sym_assert(vb_val(o[i])==1,"only the outputs are written"); for(int i=0;i<ni;i++) sym_assert(vb_val(a[i])==in[i],"inputs unchanged"); }
  RUN(a,a); for(int i=0;i<no;i++) sym_assert(vb_val(a[i])==want[i],"output over the input array");
  { Bit bi[4],bo[4]; for(int i=0;i<ni;i++) bi[i]=Bit(in[i],ALICE); RUN(bo,bi); for(int i=0;i<no;i++) sym_assert(bo[i].reveal<bool>()==want[i],"Bit arrays"); }
  { // other inputs do not see the previous evaluation
    for(int i=0;i<ni;i++) a[i]=vb_mk(0); bool z[8]; for(int i=0;i<ni;i++) z[i]=0; for(int i=0;i<ng;i++) z[g[i].o]= g[i].op==0? (z[g[i].a]&&z[g[i].b]): g[i].op==1? (z[g[i].a]!=z[g[i].b]): !z[g[i].a]; RUN(o,a); for(int i=0;i<no;i++) sym_assert(vb_val(o[i])==z[nw-no+i],"evaluating other inputs afterwards"); }
#if PART==0
  { c->to_file("c13_inc.h","pre"); FILE*q=fopen("c13_inc.h","r"); static unsigned char b[4096]; size_t k=fread(b,1,4095,q); fclose(q); size_t p; sym_assert(after(b,k,"pre_num_gate = ",p)==ng&&after(b,k,"pre_num_wire = ",p)==nw&&after(b,k,"pre_n1 = ",p)==ni1&&after(b,k,"pre_n2 = ",p)==ni2&&after(b,k,"pre_n3 = ",p)==no,"include file states the sizes"); sym_assert(after(b,k,"pre_gate_arr [",p)==4*ng,"include file array size"); int arr[16]; for(int i=0;i<4*ng;i++) arr[i]=(int)num(b,p,k); bool same=true; for(int i=0;i<ng;i++) same=same&&arr[4*i]==g[i].a&&(g[i].op==2||arr[4*i+1]==g[i].b)&&arr[4*i+2]==g[i].o&&arr[4*i+3]==g[i].op; sym_assert(same,"include file reproduces the gates"); sym_assert(num(b,p,k)==-1,"no further gates");
    if(same){ BristolFormat c2(ng,nw,ni1,ni2,no,arr); for(int i=0;i<ni;i++) a[i]=vb_mk(in[i]); c2.compute(o,a,a+ni1); for(int i=0;i<no;i++) sym_assert(vb_val(o[i])==want[i],"circuit from a gate array"); } }
#endif
  { // loading again into the same object
    put(t,n); c->from_file(FN); for(int i=0;i<ni;i++) a[i]=vb_mk(in[i]); for(int i=0;i<4;i++) o[i]=vb_mk(1);
#if PART==1
    bool ok=c->num_input==ni&&c->num_output==no; sym_assert(ok,"header after loading again"); if(!ok) return;
#endif
    RUN(o,a); for(int i=0;i<no;i++) sym_assert(vb_val(o[i])==want[i],"loading again into the same object"); }
  if(ng<NG||perm){ PlainCircExec pc(false,""); CircuitExecution*old=CircuitExecution::circ_exec; CircuitExecution::circ_exec=&pc; for(int i=0;i<ni;i++) a[i]= i==0? pc.private_label(in[i]): pc.public_label(in[i]); RUN(o,a); for(int i=0;i<no;i++) sym_assert(pc.get_value(o[i])==want[i],"plaintext backend"); CircuitExecution::circ_exec=old; }
  delete c; sym_reach("end");
#endif
}
