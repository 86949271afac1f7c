// A small network and buffered-stream simulator used in place of sockets and stdio for the channel
// classes. Two endpoints run as cooperative threads; a read that finds nothing lets the other run.
#pragma once
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <iostream>
#include <memory>
#include <vector>
#include <functional>
#include <unistd.h>
#include <arpa/inet.h>
#include <sys/types.h>
#include <netinet/tcp.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <errno.h>
#ifndef WIRECAP
#define WIRECAP 512
#endif
struct Wire { unsigned char d[WIRECAP]; size_t n,r; bool closed; };
struct Sock { int kind; int port; bool listening,accepted; Wire*in,*out; int refs; int back; }; // kind 0 free, 1 plain, 2 listening, 3 connected
struct SFile { int fd; bool open,rd,wr; char*buf; size_t cap; size_t rpos,rend,wn; char own[64]; };
static Sock ns_s[16]; 
#ifndef NWIRE
#define NWIRE 8
#endif
static Wire ns_w[NWIRE]; static int ns_nw=0; static SFile ns_f[16]; static int ns_fdmap[32]; static int ns_nfd=3,ns_nf=0;
// endpoints
static int ns_cur=-1,ns_tid[2]; static bool ns_done[2]; static int ns_stall=0; static int ns_partial=0,ns_arrive=0; static bool ns_active=false;
static uint64_t ns_progress=0,ns_seen[2],ns_out[2];
// let the other endpoint run; if neither endpoint made progress since both last waited, nobody ever will
static void ns_yield(){ if(!ns_active) return; int o=1-ns_cur; ns_seen[ns_cur]=ns_progress; if(ns_done[o]){ sym_switch(0); return; } ns_cur=o; sym_switch(ns_tid[o]); }
static void ns_wait(const char*what){ if(!ns_active){ sym_assert(0,what); exit(7); } if(ns_done[1-ns_cur]||(ns_stall>=4)){ sym_assert(0,what); exit(7); } ns_stall++; ns_yield(); }
static void ns_moved(){ ns_progress++; ns_stall=0; }
static Sock&ns_sock(int fd){ sym_assert(fd>=0&&fd<32&&ns_fdmap[fd]>0,"operation on a valid socket"); return ns_s[ns_fdmap[fd]-1]; }
static int ns_newfd(int s){ int fd=ns_nfd++; ns_fdmap[fd]=s+1; ns_s[s].refs++; return fd; }
extern "C" {
static int sim_socket(int,int,int){ for(int i=0;i<16;i++) if(!ns_s[i].kind){ memset(&ns_s[i],0,sizeof(Sock)); ns_s[i].kind=1; return ns_newfd(i); } return -1; }
static int sim_setsockopt(int fd,int,int,const void*,socklen_t){ ns_sock(fd); return 0; }
static int sim_bind(int fd,const struct sockaddr*a,socklen_t){ sym_assert(a->sa_family==AF_INET,"an IPv4 address is bound"); ns_sock(fd).port=((const struct sockaddr_in*)a)->sin_port; return 0; }
static int sim_listen(int fd,int){ Sock&s=ns_sock(fd); s.kind=2; s.listening=true; s.back=-1; ns_moved(); return 0; }
static int sim_accept(int fd,struct sockaddr*,socklen_t*){ Sock&s=ns_sock(fd); while(s.back<0) ns_wait("accepting: nobody ever connects"); int k=s.back; s.back=-1; ns_moved(); return ns_newfd(k); }
static int sim_connect(int fd,const struct sockaddr*a,socklen_t){ sym_assert(a->sa_family==AF_INET&&((const struct sockaddr_in*)a)->sin_addr.s_addr==htonl(INADDR_LOOPBACK),"the given address is dialled"); int p=((const struct sockaddr_in*)a)->sin_port; for(int i=0;i<16;i++) if(ns_s[i].kind==2&&ns_s[i].port==p&&ns_s[i].back<0){ int j=0; while(j<16&&ns_s[j].kind) j++; Sock&n=ns_s[j]; memset(&n,0,sizeof n); n.kind=3; Sock&c=ns_sock(fd); c.kind=3; n.in=c.out=&ns_w[ns_nw++]; n.out=c.in=&ns_w[ns_nw++]; ns_s[i].back=j; ns_moved(); return 0; } return -1; }
static int sim_close(int fd){ if(fd<0||fd>=32||ns_fdmap[fd]<=0) return -1; Sock&s=ns_sock(fd); ns_fdmap[fd]=-1; if(--s.refs==0){ if(s.out) s.out->closed=true; s.kind= s.kind==3?4:0; ns_moved(); } return 0; }
static int sim_dup(int fd){ Sock&s=ns_sock(fd); return ns_newfd((int)(&s-ns_s)); }
static int sim_shutdown(int fd,int how){ Sock&s=ns_sock(fd); if(how!=SHUT_RD&&s.out) s.out->closed=true; return 0; }
static int sim_usleep(unsigned){ if(ns_active){ if(ns_stall>=8){ sym_assert(0,"polling forever"); exit(7); } ns_stall++; ns_yield(); } return 0; }
static ssize_t sim_write(int fd,const void*d,size_t n){ Sock&s=ns_sock(fd); sym_assert(s.out!=0,"write to a connected socket"); Wire*w=s.out; sym_assert(w->n+n<=WIRECAP,"no more is transmitted than was sent"); memcpy(w->d+w->n,d,n); w->n+=n; if(ns_active) ns_out[ns_cur]+=n; if(n) ns_moved(); return (ssize_t)n; }
// an underlying read: blocks until something is there, then hands over part or all of it
static ssize_t sim_read(int fd,void*d,size_t n){ Sock&s=ns_sock(fd); sym_assert(s.in!=0,"read from a connected socket"); Wire*w=s.in; if(ns_arrive==1&&ns_active&&!ns_done[1-ns_cur]) ns_yield(); while(w->r==w->n){ if(w->closed) return 0; ns_wait("an endpoint waits for bytes that never come"); } size_t av=w->n-w->r; if(n>av) n=av; if(ns_arrive==2&&n>1) n=1; memcpy(d,w->d+w->r,n); w->r+=n; if(n) ns_moved(); return (ssize_t)n; }
static ssize_t sim_send(int fd,const void*d,size_t n,int){ if(ns_partial==1&&n>1) n=1; return sim_write(fd,d,n); }
static ssize_t sim_recv(int fd,void*d,size_t n,int){ return sim_read(fd,d,n); }
static FILE* sim_fdopen(int fd,const char*m){ ns_sock(fd); SFile*f=&ns_f[ns_nf++]; memset(f,0,sizeof*f); f->fd=fd; f->open=true; bool plus=strchr(m,'+')!=0; f->rd=m[0]=='r'||plus; f->wr=m[0]=='w'||m[0]=='a'||plus; f->buf=f->own; f->cap=sizeof f->own; return (FILE*)f; }
static SFile*ns_file(FILE*p){ SFile*f=(SFile*)p; sym_assert(f>=ns_f&&f<ns_f+16&&f->open,"operation on an open stream"); return f; }
static int sim_setvbuf(FILE*p,char*b,int mode,size_t n){ SFile*f=ns_file(p); if(mode==_IONBF){ f->cap=0; return 0; } if(b){ f->buf=b; f->cap=n; } return 0; }
static int sim_fflush(FILE*p){ if(!p) return 0; SFile*f=ns_file(p); if(f->wn){ size_t n=f->wn; f->wn=0; sim_write(f->fd,f->buf,n); } return 0; }
static int sim_fclose(FILE*p){ SFile*f=ns_file(p); sim_fflush(p); f->open=false; return sim_close(f->fd); }
static size_t sim_fwrite(const void*d,size_t k,size_t n,FILE*p){ SFile*f=ns_file(p); sym_assert(f->wr,"write to a stream opened for writing"); sym_assert(f->rpos==f->rend,"sending keeps bytes that were received but not yet read"); f->rpos=f->rend=0; if(k==0||n==0) return 0; if(ns_partial==1&&n>1) n=1; else if(ns_partial==2&&n>1) n=(n+1)/2; size_t t=k*n; const unsigned char*q=(const unsigned char*)d; if(f->cap==0||t>f->cap){ sim_fflush(p); sim_write(f->fd,q,t); return n; } if(f->wn+t>f->cap) sim_fflush(p); memcpy(f->buf+f->wn,q,t); f->wn+=t; return n; }
static size_t sim_fread(void*d,size_t k,size_t n,FILE*p){ SFile*f=ns_file(p); sym_assert(f->rd,"read from a stream opened for reading"); sym_assert(f->wn==0,"everything sent is handed to the network before waiting to receive on the same stream"); size_t t=k*n,got=0; if(!t) return 0; if(ns_partial==1&&n>1) t=k; else if(ns_partial==2&&n>1) t=k*((n+1)/2); unsigned char*q=(unsigned char*)d; while(got<t){ if(f->rpos<f->rend){ size_t c=f->rend-f->rpos; if(c>t-got) c=t-got; memcpy(q+got,f->buf+f->rpos,c); f->rpos+=c; got+=c; continue; } f->rpos=f->rend=0; ssize_t r; if(t-got>=f->cap){ r=sim_read(f->fd,q+got,t-got); if(r<=0) break; got+=(size_t)r; } else { r=sim_read(f->fd,f->buf,f->cap); if(r<=0) break; f->rend=(size_t)r; } } return got/k; }
}
static in_addr_t sim_inet_addr(const char*){ return htonl(0x7f000001); } static int sim_inet_pton(int,const char*,void*o){ *(in_addr_t*)o=htonl(0x7f000001); return 1; }
#define inet_addr sim_inet_addr
#define inet_pton sim_inet_pton
#define socket sim_socket
#define setsockopt sim_setsockopt
#define bind sim_bind
#define listen sim_listen
#define accept sim_accept
#define connect sim_connect
#define close sim_close
#define dup sim_dup
#define shutdown sim_shutdown
#define usleep sim_usleep
#define fdopen sim_fdopen
#define setvbuf sim_setvbuf
#define fflush sim_fflush
#define fclose sim_fclose
#define fwrite sim_fwrite
#define fread sim_fread
static void(*ns_prog)(int);
static void ns_main(void*a){ int me=(int)(size_t)a; ns_prog(me); ns_done[me]=true; ns_moved(); for(;;){ if(!ns_done[1-me]){ ns_cur=1-me; sym_switch(ns_tid[1-me]); } else sym_switch(0); } }
// runs both endpoints to completion
static void ns_run(void(*prog)(int),int first){ ns_prog=prog; ns_tid[0]=sym_thread(ns_main,(void*)0); ns_tid[1]=sym_thread(ns_main,(void*)1); ns_active=true; ns_cur=first; sym_switch(ns_tid[first]); sym_assert(ns_done[0]&&ns_done[1],"both endpoints finish"); ns_active=false; }
