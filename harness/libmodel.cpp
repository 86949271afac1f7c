// Models of the C library's files for symbolic execution: a small virtual file system. Linked only
// into the symbolic build; native replay uses the real C library.
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <stdint.h>
#include "sym.h"
extern "C" {
// only "%f": an injective rendering of the number's bits
int vsnprintf(char*o,unsigned long n,const char*f,__builtin_va_list ap){ if(f[0]!='%'||f[1]!='f'||f[2]) __builtin_trap(); double d=__builtin_va_arg(ap,double); unsigned long v; __builtin_memcpy(&v,&d,8); char t[18]; t[0]='#'; for(int i=0;i<16;i++) t[1+i]=(char)('a'+((v>>(4*i))&15)); t[17]=0; for(unsigned long i=0;i<18&&i<n;i++) o[i]=t[i]; return 17; }

char*m_strchr(const char*s,int c) asm("strchr"); char*m_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char*m_strrchr(const char*s,int c) asm("strrchr"); char*m_strrchr(const char*s,int c){ char*r=0; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
int strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ if(a[i]!=b[i]) return (unsigned char)a[i]<(unsigned char)b[i]?-1:1; if(!a[i]) return 0; } return 0; }
char*strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
void*malloc(size_t); void free(void*);
struct VF { char name[64]; unsigned char*d; size_t n,cap; int used; }; static VF F[16]; struct VS { VF*f; size_t pos; int open,app; int err,eof; unsigned char*mem; }; static VS S[64]; static int nS=0;
static VF*look(const char*n,int create){ for(int i=0;i<16;i++) if(F[i].used&&strcmp(F[i].name,n)==0) return &F[i]; if(!create) return 0; for(int i=0;i<16;i++) if(!F[i].used){ size_t k=0; while(n[k]&&k<63){ F[i].name[k]=n[k]; k++; } F[i].name[k]=0; F[i].used=1; F[i].n=0; return &F[i]; } return 0; }
static void grow(VF*f,size_t n){ if(n<=f->cap) return; size_t c=f->cap?f->cap:256; while(c<n) c*=2; unsigned char*q=(unsigned char*)malloc(c); if(f->n) memcpy(q,f->d,f->n); if(f->d) free(f->d); f->d=q; f->cap=c; }
int vfs_open(const char*n,int create,int trunc){ if(!n[0]) return -1; VF*f=look(n,create); if(!f) return -1; if(trunc) f->n=0; VS*s=&S[nS]; s->f=f; s->pos=0; s->open=1; s->app=0; s->err=s->eof=0; s->mem=0; return nS++; }
void vfs_write(int fd,const char*d,unsigned long n){ VS*s=&S[fd]; grow(s->f,s->pos+n); if(s->pos>s->f->n) memset(s->f->d+s->f->n,0,s->pos-s->f->n); memcpy(s->f->d+s->pos,d,n); s->pos+=n; if(s->pos>s->f->n) s->f->n=s->pos; }
void vfs_seek(int fd,unsigned long p){ S[fd].pos=p; }
long vfs_size(int fd){ return (long)S[fd].f->n; }
void vfs_read(int fd,char*d,unsigned long n){ VS*s=&S[fd]; memcpy(d,s->f->d+s->pos,n); s->pos+=n; }
void*fopen(const char*n,const char*m){ int plus=0; for(const char*p=m;*p;p++) if(*p=='+') plus=1; int w=m[0]=='w',a=m[0]=='a'; int fd=vfs_open(n,w||a,w); if(fd<0) return 0; if(a){ S[fd].pos=S[fd].f->n; S[fd].app=1; } (void)plus; return &S[fd]; }
void*fopen64(const char*n,const char*m){ return fopen(n,m); }
void*fmemopen(void*b,size_t n,const char*m){ VS*s=&S[nS++]; VF*f=(VF*)malloc(sizeof(VF)); f->d=(unsigned char*)b; f->n=n; f->cap=n; f->used=1; f->name[0]=0; s->f=f; s->pos=0; s->open=1; s->err=s->eof=0; s->app=0; s->mem=(unsigned char*)b; return s; }
int fclose(void*p){ VS*s=(VS*)p; sym_assert(s!=0&&s->open,"fclose of an open stream"); s->open=0; return 0; }
int fflush(void*p){ if(p) sym_assert(((VS*)p)->open,"fflush of an open stream"); return 0; }
int setvbuf(void*p,char*b,int m,size_t n){ return 0; }
void rewind(void*p){ ((VS*)p)->pos=0; ((VS*)p)->eof=0; }
int fseek(void*p,long o,int w){ VS*s=(VS*)p; s->pos=(size_t)((w==0?0:w==1?(long)s->pos:(long)s->f->n)+o); s->eof=0; return 0; }
long ftell(void*p){ return (long)((VS*)p)->pos; }
int feof(void*p){ return ((VS*)p)->eof; } int ferror(void*p){ return 0; } void clearerr(void*p){ ((VS*)p)->eof=0; }
size_t fread(void*d,size_t k,size_t n,void*p){ VS*s=(VS*)p; sym_assert(s->open,"fread from an open stream"); size_t av=s->pos<s->f->n? s->f->n-s->pos:0; size_t want=k*n; if(want>av){ want=av; s->eof=1; } if(k==0) return 0; want-=want%k; if(want) memcpy(d,s->f->d+s->pos,want); s->pos+=want; return want/k; }
size_t fwrite(const void*d,size_t k,size_t n,void*p){ VS*s=(VS*)p; sym_assert(s->open,"fwrite to an open stream"); if(s->app) s->pos=s->f->n; vfs_write((int)(s-S),(const char*)d,k*n); return n; }
static int gc(VS*s){ if(s->pos>=s->f->n){ s->eof=1; return -1; } return s->f->d[s->pos++]; }
int fgetc(void*p){ return gc((VS*)p); } int getc(void*p){ return gc((VS*)p); }
char*fgets(char*b,int n,void*p){ VS*s=(VS*)p; int i=0; while(i<n-1){ int c=gc(s); if(c<0) break; b[i++]=(char)c; if(c=='\n') break; } if(!i) return 0; b[i]=0; return b; }
int fputc(int c,void*p){ unsigned char b=(unsigned char)c; fwrite(&b,1,1,p); return c; }
static int sp(int c){ return c==' '||c=='\n'||c=='\t'||c=='\r'; }
static int scan(VS*s,const char*f,va_list ap){ int got=0; const unsigned char*d=s->f->d; const size_t n=s->f->n; size_t q=s->pos;
#define SKIPSP while(q<n&&sp(d[q])) q++
  for(;*f;f++){ if(sp(*f)){ SKIPSP; continue; } if(*f!='%'){ if(q>=n||d[q]!=(unsigned char)*f) goto bad; q++; continue; }
    { f++; int sup=0; if(*f=='*'){ sup=1; f++; } int wid=0; while(*f>='0'&&*f<='9'){ wid=wid*10+(*f-'0'); f++; } int l=0; while(*f=='l'){ l++; f++; } if(*f=='z'){ l=1; f++; }
    if(*f=='d'||*f=='u'||*f=='i'){ SKIPSP; int neg=0; if(q<n&&(d[q]=='-'||d[q]=='+')){ neg=d[q]=='-'; q++; } unsigned long v=0; int any=0; while(q<n){ unsigned c=(unsigned)d[q]-48; if(c>9) break; v=v*10+c; q++; any=1; } if(!any) goto bad; if(neg) v=0-v; if(!sup){ if(l) *va_arg(ap,long*)=(long)v; else *va_arg(ap,int*)=(int)v; got++; } }
    else if(*f=='s'){ SKIPSP; char*o= sup?0:va_arg(ap,char*); int k=0; while(q<n&&!sp(d[q])&&(!wid||k<wid)){ if(o) o[k]=(char)d[q]; k++; q++; } if(!k) goto bad; if(o){ o[k]=0; got++; } }
    else if(*f=='c'){ if(q>=n) goto bad; char*o= sup?0:va_arg(ap,char*); if(o){ *o=(char)d[q]; got++; } q++; }
    else { s->pos=q; return got; } } }
  s->pos=q; return got;
bad: s->pos=q; if(q>=n) s->eof=1; return got?got:-1; }
int fscanf(void*p,const char*f,...){ va_list ap; va_start(ap,f); int r=scan((VS*)p,f,ap); va_end(ap); return r; }
int __isoc99_fscanf(void*p,const char*f,...){ va_list ap; va_start(ap,f); int r=scan((VS*)p,f,ap); va_end(ap); return r; }
int __isoc23_fscanf(void*p,const char*f,...){ va_list ap; va_start(ap,f); int r=scan((VS*)p,f,ap); va_end(ap); return r; }
}
