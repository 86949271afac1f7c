#include "netsim.h"
#if HS
#include "emp-tool/io/highspeed_net_io_channel.h"
typedef emp::HighSpeedNetIO IO;
#else
#include "emp-tool/io/net_io_channel.h"
typedef emp::NetIO IO;
#endif
using namespace emp;
#ifdef REALSIZE
#define MAXM 3
#else
#define MAXM 8
#endif
struct Op { int kind,m; }; // kind 0 send, 1 receive, 2 flush, 3 sync
static Op prg[2][32]; static int np[2]; 
#ifndef MSGCAP
#define MSGCAP 64
#endif
static unsigned char msg[MAXM][MSGCAP]; static size_t len[MAXM]; static IO*io[2]; static uint64_t sent[2]; static int passed[2];
static void prog(int me){
#if HS
  io[me]=new IO(me==0?nullptr:"127.0.0.1",1001,1002,true);
#else
  io[me]=new IO(me==0?nullptr:"127.0.0.1",1001,true);
#endif
  IO*c=io[me];
  for(int i=0;i<np[me];i++){ Op o=prg[me][i]; size_t n= o.kind<2? len[o.m]:0;
    if(o.kind==0){ unsigned char*t=(unsigned char*)malloc(n?n:1); memcpy(t,msg[o.m],n); c->send_data(t,n); memset(t,0xEE,n); free(t); sent[me]+=n; sym_assert(c->counter==sent[me],"the counter equals the bytes sent"); }
    else if(o.kind==1){ unsigned char*t=(unsigned char*)malloc(n?n:1); c->recv_data(t,n); sym_assert_eq(t,msg[o.m],n,"the bytes received are the bytes sent, in order"); free(t); sym_assert(c->counter==sent[me],"receiving does not change the counter"); }
    else if(o.kind==2){ c->flush(); sym_assert(ns_out[me]>=sent[me],"a flush hands over everything sent before it"); }
    else { c->sync(); sym_assert(ns_out[me]>=sent[me],"a sync hands over everything sent before it"); passed[me]++; while(passed[1-me]<passed[me]) ns_wait("the other end cannot finish its sync although this end has returned from it"); ns_moved(); } }
  delete c; }
static const size_t L[]={SIZES};
static void add(int e,int k,int m){ prg[e][np[e]].kind=k; prg[e][np[e]].m=m; np[e]++; }
extern "C" void harness(){
  int K=TIER(QK,TK), NL=sizeof(L)/sizeof(L[0]); int extra=(int)sym_choose(0,EXTRA,"extra"); int at= extra? (int)sym_choose(0,K,"at"):-1; // one flush or sync somewhere (extra: 1 flush on both, 2 sync on both, 3 exchange at endpoint 0, 4 exchange at endpoint 1)
  ns_partial= extra? 0: (int)sym_choose(0,2,"partial"); ns_arrive=(int)sym_choose(0,2,"arrive"); int first= (extra||ns_partial)? 1: (int)sym_choose(0,1,"first"); int lo= extra? 1:0; if((extra||ns_partial)&&NL>4) NL=4; if(ns_partial) lo=1;
#ifdef REALSIZE
  lo=0; NL=sizeof(L)/sizeof(L[0]); sym_assume(ns_partial==0&&ns_arrive!=2); first=1;
#endif
  for(int i=0;i<=K;i++){ if(at==i&&extra==1){ add(0,2,0); add(1,2,0); } if(at==i&&extra==2){ add(0,3,0); add(1,3,0); }
    if(i==K) break; int dir=(int)sym_choose(0,1,"from"); len[i]=L[sym_choose(lo,NL-1,"size")]; if(len[i]>80000){ for(size_t b=0;b<len[i];b++) msg[i][b]=(unsigned char)(b*131+i*7+(b>>8)*29); static const size_t at_[]={0,65530,1048560}; for(size_t q:at_) if(q+32<=len[i]) sym_make(msg[i]+q,32,"bytes"); sym_make(msg[i]+len[i]-16,16,"bytes"); } else if(len[i]) sym_make(msg[i],len[i],"bytes"); add(dir,0,i); add(1-dir,1,i); }
  if(extra>=3){ int e=extra-3; bool did=false; int seen=0; for(int i=0;i+1<np[e];i++) if(prg[e][i].kind==1&&prg[e][i+1].kind==0){ if(seen++==at){ Op t=prg[e][i]; prg[e][i]=prg[e][i+1]; prg[e][i+1]=t; did=true; break; } } sym_assume(did); }
  ns_run(prog,first);
  sym_reach("end"); }
