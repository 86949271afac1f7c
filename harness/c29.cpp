// C29: AES counter mode in and out of circuit. The block cipher is a stand-in with the wire order of the shipped AES circuit
// (C14 decides the shipped circuit itself), used both as the circuit text and behind the OpenSSL calls.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include "blockcirc.h"
unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[16384]; unsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len;
#include "emp-tool/circuits/aes_128_ctr.h"
using namespace emp;
// bit i of the circuit's 128-bit numbers is bit i%8 of byte 15-i/8
static void cipher(unsigned char*out,const unsigned char*key,const unsigned char*ctr){ bool in[256],o[128]; for(int i=0;i<128;i++){ in[i]=(key[15-i/8]>>(i%8))&1; in[128+i]=(ctr[15-i/8]>>(i%8))&1; } bc_eval(o,in,256,128); memset(out,0,16); for(int i=0;i<128;i++) out[15-i/8]|=(unsigned char)(o[i]<<(i%8)); }
static int live=0;
struct evp_cipher_ctx_st { unsigned char key[16],ctr[16],ks[16]; int used,init; };
static void binc(unsigned char*c,uint64_t d){ unsigned carry=0; for(int i=0;i<16;i++){ unsigned s=c[15-i]+(unsigned)(i<8? (d>>(8*i))&255:0)+carry; c[15-i]=(unsigned char)s; carry=s>>8; } }
extern "C" {
EVP_CIPHER_CTX*EVP_CIPHER_CTX_new(void){ live++; EVP_CIPHER_CTX*c=(EVP_CIPHER_CTX*)malloc(sizeof(*c)); c->init=0; return c; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX*c){ if(c){ live--; free(c); } }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX*c){ c->init=0; return 1; }
int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX*,int){ return 1; }
static int the_cipher; const EVP_CIPHER*EVP_aes_128_ctr(void){ return (const EVP_CIPHER*)&the_cipher; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX*c,const EVP_CIPHER*t,ENGINE*,const unsigned char*k,const unsigned char*iv){ if(t&&t!=EVP_aes_128_ctr()) return 0; if(k) memcpy(c->key,k,16); if(iv) memcpy(c->ctr,iv,16); c->used=16; c->init=1; return 1; }
int EVP_EncryptUpdate(EVP_CIPHER_CTX*c,unsigned char*o,int*l,const unsigned char*in,int n){ if(!c->init) return 0; for(int i=0;i<n;i++){ if(c->used==16){ cipher(c->ks,c->key,c->ctr); binc(c->ctr,1); c->used=0; } o[i]=in[i]^c->ks[c->used++]; } *l=n; return 1; }
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX*,unsigned char*,int*l){ *l=0; return 1; }
}
static const int MAXB=64;
static bool guardbit(int i){ return (i*7+3)%5<2; }
extern "C" void harness(){ sym_config("xorcap",16); vb_setup(); unsigned char K[16],IV[16]; sym_make(K,16,"key"); 
#ifdef LONG // longer messages: a few fixed initial vectors and starting chunks around the carries
  { int k=(int)sym_choose(0,3,"ivkind"); memset(IV,k==0?0:0xff,16); if(k==2) memset(IV,0x12,8); if(k==3){ memset(IV,0x34,16); IV[15]=0xfd; IV[14]=0xff; } }
#else
  sym_make(IV,16,"iv");
#endif
 
  // chunk indices are 64-bit numbers: the last one must not wrap
  uint64_t start=0;
#ifdef LONG
  static const uint64_t ST[]={0,1,253,0xfffffffeull,~(uint64_t)0-100}; start=ST[TIER(2*sym_choose(0,2,"startkind"),sym_choose(0,4,"startkind"))];
#else
  if(sym_choose(0,1,"startkind")){ start=sym_u64("start"); sym_assume(start!=0); } 
#endif
  sym_assume(start<=~(uint64_t)0-70);
  static unsigned char ks[16*MAXB]; auto mkks=[&](size_t bytes){ for(int b=0;b<MAXB&&(size_t)b*16<bytes+16;b++){ unsigned char c[16]; memcpy(c,IV,16); binc(c,start); binc(c,(uint64_t)b); cipher(ks+16*b,K,c); } };
  __m128i key,iv; memcpy(&key,K,16); memcpy(&iv,IV,16);
#if PART==0
  { static const int LS[]={1,2,5,15,16,17,31,32,33,48,63,64,100,128,255,256,512,1000}; int form=(int)sym_choose(0,4,"form"); 
#ifdef LONG
  size_t n=(size_t)LS[TIER(10+2*sym_choose(0,3,"length"),sym_choose(10,17,"length"))];
#else
  size_t n=(size_t)LS[sym_choose(0,9,"length")];
#endif
  mkks(n); const size_t T=1008; unsigned char m[T],o[T]; memset(m,0,T); sym_make(m,n,"msg"); unsigned char m0[T]; memcpy(m0,m,T); memset(o,0xA5,T); int r;
    if(form==0) r=aes_128_ctr(key,iv,m,o,n,start); else if(form==1){ r=aes_128_ctr(key,iv,m,(uint8_t*)nullptr,n,start); memcpy(o,m,T); for(size_t i=n;i<T;i++){ sym_assert(m[i]==m0[i],"bytes beyond the message are untouched"); } }
    else if(form==2){ r=aes_128_ctr(key,iv,(uint8_t*)nullptr,o,n,start); memset(m0,0,T); }
    else if(form==3){ n=n/4; uint32_t w[T/4]; memcpy(w,m,T); r=aes_128_ctr(key,iv,w,o,n,start); n*=4; } else { uint8_t*np=nullptr; r=aes_128_ctr(key,iv,np,(uint8_t*)nullptr,n,start); sym_assert(r!=0,"both null is refused"); sym_reach("end"); return; }
    sym_assert(r==0,"succeeds"); sym_assert(live==0,"contexts released"); for(size_t i=0;i<n;i++) sym_assert(o[i]==(m0[i]^ks[i]),"message xor keystream"); if(form!=1) for(size_t i=n;i<T;i++) sym_assert(o[i]==0xA5,"output beyond the message is untouched"); }
#else
  emp_tool_circuits_files_bristol_fashion_aes_128_txt_len=(unsigned)bc_text(emp_tool_circuits_files_bristol_fashion_aes_128_txt,256,128,128,128);
  AES_128_CTR_Calculator*calc=new AES_128_CTR_Calculator(); block kb[128],ib[128]; for(int i=0;i<128;i++){ kb[i]=vb_mk(K[i/8]>>(i%8)); ib[i]=vb_mk(IV[i/8]>>(i%8)); }
  static const int LS[]={1,7,8,64,127,128,129,200,255,256,257,300,384,385,512,600,1024,1025,640,1281,2048,2050}; const int over=PART-1; 
#ifdef LONG
  size_t n=(size_t)LS[TIER(13+2*sym_choose(0,2,"length"),sym_choose(12,21,"length"))];
#else
  size_t n=(size_t)LS[sym_choose(0,TIER(10,15),"length")];
#endif
  mkks((n+7)/8); int form=(int)sym_choose(0,2,"form"); int party= sym_choose(0,1,"party")? ALICE:PUBLIC; const int CAP=(int)((n+127)/128*128)+128+8; block*in=new block[CAP],*out=new block[CAP]; bool*mv=new bool[CAP];
  for(int i=0;i<CAP;i++){ mv[i]=0; in[i]=vb_mk(0); out[i]=vb_mk(guardbit(i)); } { unsigned char m[16*MAXB]; sym_make(m,(n+7)/8,"msg"); for(size_t i=0;i<n;i++) mv[i]=(m[i/8]>>(i%8))&1; } for(int i=0;i<CAP;i++){ if(i>=(int)n) mv[i]=guardbit(i+1); in[i]=vb_mk(mv[i]); }
  { // an earlier use with other values must not matter
    block k2[128],i2[128],m2[300]; for(int i=0;i<128;i++){ k2[i]=vb_mk(i%3==0); i2[i]=vb_mk(i%5==1); } for(int i=0;i<300;i++) m2[i]=vb_mk(i%7==2); __m128i kk2=_mm_set1_epi8(0x5a),iv2=_mm_set1_epi8(0x3c); if(over==0) calc->aes_128_ctr(k2,i2,m2,nullptr,300,party,5); else if(over==1) calc->aes_128_ctr(k2,iv2,m2,nullptr,300,party,5); else calc->aes_128_ctr(kk2,iv2,m2,nullptr,300,party,5); }
  block*pi= form==2? nullptr:in; block*po= form==1? nullptr:out; int r= over==0? calc->aes_128_ctr(kb,ib,pi,po,n,party,start): over==1? calc->aes_128_ctr(kb,iv,pi,po,n,party,start): calc->aes_128_ctr(key,iv,pi,po,n,party,start);
  sym_assert(r==0,"succeeds"); block*res= form==1? in:out;
  for(int i=0;i<CAP;i++){ bool k= i<(int)n? (ks[i/8]>>(i%8))&1:0; if(i<(int)n) sym_assert(vb_val(res[i])==(uint64_t)(form==2? k: (mv[i]!=k)),"message xor keystream, bit by bit"); else sym_assert(vb_val(res[i])==(uint64_t)(form==1? mv[i]:guardbit(i)),"nothing beyond the message is written"); if(form==0) sym_assert(vb_val(in[i])==mv[i],"message array unchanged when a separate output is given"); }
  for(int i=0;i<128;i++){ sym_assert(vb_val(kb[i])==(uint64_t)((K[i/8]>>(i%8))&1)&&vb_val(ib[i])==(uint64_t)((IV[i/8]>>(i%8))&1),"key and initial vector wires unchanged"); }
  sym_assert(live==0,"contexts released"); sym_assert(calc->aes_128_ctr(kb,ib,nullptr,nullptr,n,party,start)!=0&&calc->aes_128_ctr(kb,iv,nullptr,nullptr,n,party,start)!=0,"both null is refused");
  delete calc; delete[] in; delete[] out; delete[] mv;
#endif
  sym_reach("end"); }
