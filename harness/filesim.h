// Buffered files in memory in place of stdio, with piecemeal transfers.
#pragma once
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <iostream>
#include <memory>
#ifndef FCAP
#define FCAP 256
#endif
struct FFile { char name[32]; bool used; unsigned char d[FCAP]; size_t n; };
struct FS { FFile*f; bool open,rd,wr; char*buf; size_t cap,pos,wn,wpos; bool bufset; char own[64]; int last; };
static FFile ff_f[4]; static FS ff_s[12]; static int ff_n=0; static int ff_partial=0;
static FS*ff_st(FILE*p){ FS*s=(FS*)p; sym_assert(s>=ff_s&&s<ff_s+12&&s->open,"operation on an open file"); return s; }
static void ff_put(FS*s){ if(!s->wn) return; sym_assert(s->wpos+s->wn<=FCAP,"no more is written than was sent"); memcpy(s->f->d+s->wpos,s->buf,s->wn); if(s->wpos+s->wn>s->f->n) s->f->n=s->wpos+s->wn; s->wn=0; }
extern "C" {
static FILE*fsim_fopen(const char*n,const char*m){ int k=-1; for(int i=0;i<4;i++) if(ff_f[i].used&&!strcmp(ff_f[i].name,n)) k=i; if(k<0){ if(m[0]=='r') return 0; for(int i=0;i<4&&k<0;i++) if(!ff_f[i].used) k=i; strcpy(ff_f[k].name,n); ff_f[k].used=true; } if(m[0]=='w') ff_f[k].n=0; FS*s=&ff_s[ff_n++]; memset(s,0,sizeof*s); s->f=&ff_f[k]; s->open=true; bool plus=strchr(m,'+')!=0; s->rd=m[0]=='r'||plus; s->wr=m[0]!='r'||plus; s->buf=s->own; s->cap=sizeof s->own; if(m[0]=='a') s->pos=s->f->n; return (FILE*)s; }
static int fsim_setvbuf(FILE*p,char*b,int,size_t n){ FS*s=ff_st(p); if(b){ s->buf=b; s->cap=n; } return 0; }
static int fsim_fflush(FILE*p){ if(!p) return 0; FS*s=ff_st(p); ff_put(s); s->last=0; return 0; }
static int fsim_fclose(FILE*p){ FS*s=ff_st(p); ff_put(s); s->open=false; return 0; }
static void fsim_rewind(FILE*p){ FS*s=ff_st(p); ff_put(s); s->pos=0; s->last=0; }
static int fsim_fseek(FILE*p,long o,int w){ FS*s=ff_st(p); ff_put(s); s->pos=(size_t)(o+(w==0?0:w==1?(long)s->pos:(long)s->f->n)); s->last=0; return 0; }
static long fsim_ftell(FILE*p){ return (long)ff_st(p)->pos; }
static size_t fsim_fwrite(const void*d,size_t k,size_t n,FILE*p){ FS*s=ff_st(p); sym_assert(s->wr,"write to a file opened for writing"); if(!k||!n) return 0; if(ff_partial==1&&n>1) n=1; else if(ff_partial==2&&n>1) n=(n+1)/2; size_t t=k*n; const char*q=(const char*)d; for(size_t i=0;i<t;){ if(s->wn==s->cap) ff_put(s); if(!s->wn) s->wpos=s->pos; size_t c=s->cap-s->wn; if(c>t-i) c=t-i; memcpy(s->buf+s->wn,q+i,c); s->wn+=c; s->pos+=c; i+=c; } s->last=2; return n; }
static size_t fsim_fread(void*d,size_t k,size_t n,FILE*p){ FS*s=ff_st(p); sym_assert(s->rd,"read from a file opened for reading"); ff_put(s); if(!k||!n) return 0; if(ff_partial==1&&n>1) n=1; else if(ff_partial==2&&n>1) n=(n+1)/2; size_t t=k*n,av=s->pos<s->f->n? s->f->n-s->pos:0; if(!av){ sym_assert(0,"reads stop at the end of what was written"); exit(7); } if(t>av) t=av-av%k; memcpy(d,s->f->d+s->pos,t); s->pos+=t; s->last=1; return t/k; }
}
#define fopen fsim_fopen
#define setvbuf fsim_setvbuf
#define fflush fsim_fflush
#define fclose fsim_fclose
#define rewind fsim_rewind
#define fseek fsim_fseek
#define ftell fsim_ftell
#define fwrite fsim_fwrite
#define fread fsim_fread
