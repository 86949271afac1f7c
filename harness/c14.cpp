// C14: the shipped circuit files, loaded by the library from their current text and evaluated on symbolic inputs.
// CK: 0 adder_32bit, 1 AES-non-expanded, 2 aes_128 (fashion), 3 aes_192, 4 aes_256, 5 sha-1, 6 sha-256 (format), 7 sha256 (fashion)
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include "aesref.h"
#include <stdio.h>
#include "blob.h"
using namespace emp;
// FIPS-197 for key lengths of 16, 24 or 32 bytes
static void aes_any(const unsigned char*key,int kl,const unsigned char*in,unsigned char*out){ int nr=kl/4+6; unsigned char rk[240]; memcpy(rk,key,kl); unsigned char rc=1; for(int i=kl;i<16*(nr+1);i+=4){ unsigned char t[4]; memcpy(t,rk+i-4,4); if(i%kl==0){ unsigned char a=t[0]; t[0]=AR_S[t[1]]^rc; t[1]=AR_S[t[2]]; t[2]=AR_S[t[3]]; t[3]=AR_S[a]; rc=ar_x2(rc); } else if(kl==32&&i%kl==16) for(int k=0;k<4;k++) t[k]=AR_S[t[k]]; for(int k=0;k<4;k++) rk[i+k]=rk[i-kl+k]^t[k]; }
  unsigned char s[16],t[16]; for(int i=0;i<16;i++) s[i]=in[i]^rk[i]; for(int r=1;r<=nr;r++){ for(int c=0;c<4;c++) for(int w=0;w<4;w++) t[4*c+w]=AR_S[s[4*((c+w)&3)+w]];
    if(r<nr) for(int c=0;c<4;c++){ unsigned char a=t[4*c],b=t[4*c+1],d=t[4*c+2],e=t[4*c+3]; s[4*c]=ar_x2(a)^ar_x2(b)^b^d^e; s[4*c+1]=a^ar_x2(b)^ar_x2(d)^d^e; s[4*c+2]=a^b^ar_x2(d)^ar_x2(e)^e; s[4*c+3]=ar_x2(a)^a^b^d^ar_x2(e); } else memcpy(s,t,16);
    for(int i=0;i<16;i++) s[i]^=rk[16*r+i]; } memcpy(out,s,16); }
static uint32_t rr(uint32_t x,int k){ return (x>>k)|(x<<(32-k)); }
// ripple-carry addition bit by bit (the same function as +; keeps the shape of the sum as written)
#if CK==5
static uint32_t add(uint32_t a,uint32_t b){ return a+b; }
#else
static uint32_t add(uint32_t a,uint32_t b){ uint32_t r=0,c=0; for(int i=0;i<32;i++){ uint32_t x=(a>>i)&1,y=(b>>i)&1; r|=(x^y^c)<<i; c=((x^c)&(y^c))^c; } return r; }
#endif
static uint32_t be(const unsigned char*p){ return (uint32_t)p[0]<<24|(uint32_t)p[1]<<16|(uint32_t)p[2]<<8|p[3]; }
static void ube(unsigned char*p,uint32_t v){ p[0]=v>>24; p[1]=v>>16; p[2]=v>>8; p[3]=v; }
static const uint32_t K256[64]={0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
// FIPS 180-4; the order of additions is the one that keeps the solver's work small (addition is associative modulo 2^32)
static void sha256c(const unsigned char*blk,uint32_t*st){ uint32_t w[64]; for(int i=0;i<16;i++) w[i]=be(blk+4*i); for(int i=16;i<64;i++){ uint32_t s0=rr(w[i-15],7)^rr(w[i-15],18)^(w[i-15]>>3),s1=rr(w[i-2],17)^rr(w[i-2],19)^(w[i-2]>>10); w[i]=add(add(w[i-16],s0),add(w[i-7],s1)); }
  uint32_t a=st[0],b=st[1],c=st[2],d=st[3],e=st[4],f=st[5],g=st[6],h=st[7]; for(int i=0;i<64;i++){ uint32_t S1=rr(e,6)^rr(e,11)^rr(e,25),ch=(e&f)^(~e&g),S0=rr(a,2)^rr(a,13)^rr(a,22),mj=(a&b)^(a&c)^(b&c);
#if CK==6
    uint32_t t1=add(add(add(h,S1),add(ch,K256[i])),w[i]);
#else
    uint32_t t1=add(add(add(h,w[i]),add(S1,ch)),K256[i]);
#endif
    uint32_t t2=add(S0,mj); h=g; g=f; f=e; e=add(d,t1); d=c; c=b; b=a; a=add(t1,t2); }
  uint32_t z[8]={a,b,c,d,e,f,g,h}; for(int i=0;i<8;i++) st[i]=add(st[i],z[i]); }
static void sha1c(const unsigned char*blk,uint32_t*st){ uint32_t w[80]; for(int i=0;i<16;i++) w[i]=be(blk+4*i); for(int i=16;i<80;i++) w[i]=rr(w[i-3]^w[i-8]^w[i-14]^w[i-16],31); uint32_t a=st[0],b=st[1],c=st[2],d=st[3],e=st[4];
  for(int i=0;i<80;i++){ uint32_t f,k; if(i<20){ f=(b&c)^(~b&d); k=0x5A827999; } else if(i<40){ f=b^c^d; k=0x6ED9EBA1; } else if(i<60){ f=(b&c)^(b&d)^(c&d); k=0x8F1BBCDC; } else { f=b^c^d; k=0xCA62C1D6; } uint32_t t=add(add(add(add(rr(a,27),f),e),k),w[i]); e=d; d=c; c=rr(b,2); b=a; a=t; }
  uint32_t z[5]={a,b,c,d,e}; for(int i=0;i<5;i++) st[i]=add(st[i],z[i]); }
// bits of a byte string, most significant first; REV: the whole string reversed
static void tobits(const unsigned char*p,int n,bool rev,block*o){ for(int i=0;i<8*n;i++) o[rev? 8*n-1-i: i]=vb_mk(p[i/8]>>(7-i%8)); }
static void cmp(const unsigned char*want,int n,bool rev,const block*o,const char*l){ static char lb[64]; for(int i=0;i<8*n;i++) sym_assert(vb_val(o[rev? 8*n-1-i: i])==((want[i/8]>>(7-i%8))&1),l); (void)lb; }
#ifndef XC
#define XC 2
#endif
extern "C" void harness(){ sym_config("xorcap",XC); vb_setup(); static block in[1024],out[512]; static unsigned char a[64],b[64],w[64]; FILE*f=fmemopen((void*)BLOB,BLOB_LEN,"r");
#if CK==0||CK==1||CK==5||CK==6
  BristolFormat*c=new BristolFormat(f); fclose(f);
  const int N1= CK==0? 32: CK==1? 128: 512, N2= CK==0? 32: CK==1? 128: 0, N3= CK==0? 33: CK==1? 128: CK==5? 160: 256; bool hd=c->n1==N1&&c->n2==N2&&c->n3==N3; sym_assert(hd,"numbers of inputs and outputs"); if(!hd) return;
#if CK==0
  uint32_t x=sym_u32("a"),y=sym_u32("b"); for(int i=0;i<32;i++){ in[i]=vb_mk(x>>i); in[32+i]=vb_mk(y>>i); } c->compute(out,in,in+32); uint64_t s=(uint64_t)x+y; for(int i=0;i<33;i++) sym_assert(vb_val(out[i])==((s>>i)&1),"sum of two 32-bit numbers with carry");
#elif CK==1
  sym_make(a,16,"message"); sym_make(b,16,"key"); tobits(a,16,false,in); tobits(b,16,false,in+128); c->compute(out,in,in+128); aes_any(b,16,a,w); cmp(w,16,false,out,"AES-128 encryption");
#elif CK==5
  sym_make(a,64,"block"); tobits(a,64,false,in); c->compute(out,in,in+512); uint32_t st[5]={0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0}; sha1c(a,st); for(int i=0;i<5;i++) ube(w+4*i,st[i]); cmp(w,20,false,out,"SHA-1 of one block");
#else
  sym_make(a,64,"block"); tobits(a,64,false,in); c->compute(out,in,in+512); uint32_t st[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; sha256c(a,st); for(int i=0;i<8;i++) ube(w+4*i,st[i]); cmp(w,32,false,out,"SHA-256 of one block");
#endif
#else
  BristolFashion*c=new BristolFashion(f); fclose(f); const int KL= CK==2? 16: CK==3? 24: 32,NI= CK==7? 768: 8*KL+128,NO= CK==7? 256: 128; bool hd=c->num_input==NI&&c->num_output==NO; sym_assert(hd,"numbers of inputs and outputs"); if(!hd) return;
#if CK<7
  sym_make(a,16,"message"); sym_make(b,KL,"key"); tobits(b,KL,true,in); tobits(a,16,true,in+8*KL); c->compute(out,in); aes_any(b,KL,a,w); cmp(w,16,true,out,"AES encryption");
#else
  sym_make(a,64,"block"); uint32_t st[8]; sym_make(st,32,"state"); for(int i=0;i<8;i++) ube(b+4*i,st[i]); tobits(a,64,true,in); tobits(b,32,true,in+512); c->compute(out,in); sha256c(a,st); for(int i=0;i<8;i++) ube(w+4*i,st[i]); cmp(w,32,true,out,"SHA-256 compression");
#endif
#endif
  delete c; sym_reach("end"); }
