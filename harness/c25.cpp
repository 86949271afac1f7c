#include "filesim.h"
#include "emp-tool/io/mem_io_channel.h"
using namespace emp;
#ifndef RCAP
#define RCAP 512
#endif
static unsigned char ref[RCAP]; static size_t rh=0,rt=0; // bytes in flight
template<typename T> static void snd(T*c,size_t n){ unsigned char*t=(unsigned char*)malloc(n?n:1); if(n>50000){ for(size_t b=0;b<n;b++) t[b]=(unsigned char)(b*131+(b>>8)*29+rt); sym_make(t,32,"bytes"); sym_make(t+n/2,32,"bytes"); sym_make(t+n-32,32,"bytes"); } else if(n) sym_make(t,n,"bytes"); memcpy(ref+rt,t,n); rt+=n; uint64_t k=c->counter; c->send_data(t,n); sym_assert(c->counter==k+n,"the counter counts the bytes sent"); memset(t,0xEE,n); free(t); }
template<typename T> static void rcv(T*c,size_t n){ unsigned char*t=(unsigned char*)malloc(n?n:1); uint64_t k=c->counter; c->recv_data(t,n); sym_assert_eq(t,ref+rh,n,"the bytes received are the bytes sent, in order"); sym_assert(c->counter==k,"receiving does not change the counter"); rh+=n; free(t); }
extern "C" void harness(){
#if PART==0 // memory channel: every sequence of operations
  size_t caps[]={0,1,5,64}; size_t ci=sym_choose(0,3,"cap"); MemIO*c=new MemIO((int64_t)caps[ci]); size_t L[]={0,1,4,5,11};
  for(int i=0;i<TIER(4,5);i++){ int op=(int)sym_choose(0,2,"op"); if(op==0) snd(c,L[sym_choose(0,4,"n")]); else if(op==1){ size_t av=rt-rh; int how=(int)sym_choose(0,3,"n"); rcv(c, how==0? 0: how==1? (av?1:0): how==2? av: av/2); } else { c->clear(); rh=rt=0; } }
  { int over=(int)sym_choose(0,2,"over"); if(over){ size_t n= over==1? rt-rh+1: 600; unsigned char*t=(unsigned char*)malloc(n); memset(t,0,n); sym_config("allowexit",1); c->recv_data(t,n); sym_config("allowexit",0); free(t); sym_reach("end"); return; } } // asking for more than was sent must not touch memory outside the buffers
  rcv(c,rt-rh); snd(c,3); rcv(c,3); sym_assert(c->size>=0&&(uint64_t)c->size<=512,"the size is what was sent"); delete c;
#elif PART==1 // default capacity and growth beyond it
  MemIO*c=new MemIO(); if(sym_choose(0,1,"n")){ snd(c,100); rcv(c,40); snd(c,30); rcv(c,90);} else { block b[3],d[3]; sym_make(b,48,"b"); c->send_block(b,3); c->recv_block(d,2); c->recv_block(d+2,1); sym_assert_eq(b,d,48,"blocks arrive in order"); } delete c;
#elif PART==2 // file channel
  ff_partial=(int)sym_choose(0,2,"partial"); int how=(int)sym_choose(0,3,"how"); size_t L[]={0,1,7,8,9,20}; FileIO*c=new FileIO("f.bin",false); size_t tot=0; int k=(int)sym_choose(1,TIER(3,4),"pieces"); for(int i=0;i<k;i++){ size_t n=L[sym_choose(0,5,"n")]; snd(c,n); tot+=n; if(how==3&&i==0) c->flush(); }
  if(how==0){ c->reset(); } else if(how==1){ delete c; c=new FileIO("f.bin",true); } else if(how==2){ c->flush(); FileIO*d=new FileIO("f.bin",true); size_t h=rh; rcv(d,tot); rh=h; delete d; d=new FileIO("f.bin",true); delete c; c=d; } else { c->flush(); c->reset(); }
  int sp=(int)sym_choose(0,3,"split"); if(sp==0) rcv(c,tot); else if(sp==1){ rcv(c,tot/2); rcv(c,tot-tot/2); } else if(sp==2){ for(size_t i=0;i<tot;i++) rcv(c,1); } else { rcv(c,tot); c->reset(); rh=0; rcv(c,tot/3); rcv(c,tot-tot/3); }
  delete c; { FileIO r("f.bin",true); rh=0; rcv(&r,tot); }
  sym_assert(ff_f[0].n==tot,"the file holds exactly the bytes sent"); sym_assert_eq(ff_f[0].d,ref,tot,"the file holds exactly the bytes sent, in order");
#elif PART==4 // memory channel: large messages, beyond the default capacity
  MemIO*c= sym_choose(0,1,"cap")? new MemIO(): new MemIO(100); size_t L[]={3000,70000,600000,1048576}; for(int i=0;i<2;i++){ snd(c,L[sym_choose(0,3,"n")]); int h=(int)sym_choose(0,2,"take"); rcv(c, h==0? 0: h==1? (rt-rh)/2: rt-rh); } rcv(c,rt-rh); delete c;
#elif PART==5 // file channel with the real buffer
  size_t L[]={100,16384,16385,40000}; FileIO*c=new FileIO("f.bin",false); size_t tot=0; for(int i=0;i<2;i++){ size_t n=L[sym_choose(0,3,"n")]; snd(c,n); tot+=n; } if(sym_choose(0,1,"how")){ c->reset(); } else { delete c; c=new FileIO("f.bin",true); } rcv(c,tot/2); rcv(c,tot-tot/2); delete c; sym_assert(ff_f[0].n==tot,"the file holds exactly the bytes sent");
  { FileIO f("f.bin",true); MemIO m; m.load_from_file(&f,(int64_t)tot); rh=0; rt=tot; rcv(&m,tot); }
#else // memory channel loaded from a file
  ff_partial=(int)sym_choose(0,2,"partial"); size_t n=sym_choose(1,TIER(12,20),"n"),pre=sym_choose(0,2,"before"); FileIO*f=new FileIO("g.bin",false); snd(f,n); f->reset(); MemIO*c=new MemIO(8); if(pre){ unsigned char x[4]; sym_make(x,4,"junk"); c->send_data(x,4); if(pre==2) c->recv_data(x,3); } size_t m=sym_choose(1,n,"load"); c->load_from_file(f,(int64_t)m); rt=m; rcv(c,m/2); snd(c,5); rcv(c,m-m/2+5); c->clear(); rh=rt=0; snd(c,2); rcv(c,2); delete c; delete f;
#endif
  sym_reach("end"); }
