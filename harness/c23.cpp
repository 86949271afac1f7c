#include "ecstub.h"
struct evp_md_ctx_st { unsigned char*d; size_t n; int init; }; struct evp_md_st { int x; }; static struct evp_md_st md256;
#ifndef CAP
#define CAP 512
#endif
static unsigned char last[CAP]; static size_t lastn=0; static unsigned char lastd[32]; static int finals=0;
extern "C" {
const EVP_MD*EVP_sha256(void){ return &md256; }
EVP_MD_CTX*EVP_MD_CTX_new(void){ EVP_MD_CTX*c=(EVP_MD_CTX*)malloc(sizeof(EVP_MD_CTX)); c->d=(unsigned char*)malloc(CAP); c->n=0; c->init=0; return c; } void EVP_MD_CTX_free(EVP_MD_CTX*c){ if(c){ free(c->d); free(c); } } int EVP_MD_CTX_reset(EVP_MD_CTX*c){ c->n=0; c->init=0; return 1; }
int EVP_DigestInit_ex(EVP_MD_CTX*c,const EVP_MD*t,ENGINE*){ sym_assert(t==&md256||(t==0&&c->init),"the hash is SHA-256"); c->n=0; c->init=1; return 1; } int EVP_DigestInit(EVP_MD_CTX*c,const EVP_MD*t){ return EVP_DigestInit_ex(c,t,0); }
int EVP_DigestUpdate(EVP_MD_CTX*c,const void*p,size_t n){ sym_assert(c->init==1,"update of an initialised context"); sym_assert(c->n+n<=CAP,"only what was put is hashed"); memcpy(c->d+c->n,p,n); c->n+=n; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX*c,unsigned char*o,unsigned*l){ sym_assert(c->init==1,"final of an initialised context"); lastn=c->n; memcpy(last,c->d,c->n); finals++; c->init=2; sym_make(o,32,"digest"); memcpy(lastd,o,32); if(l)*l=32; return 1; } int EVP_DigestFinal(EVP_MD_CTX*c,unsigned char*o,unsigned*l){ return EVP_DigestFinal_ex(c,o,l); }
}
#include "emp-tool/utils/hash.h"
using namespace emp;
static unsigned char ref[CAP]; static size_t rn=0;
static void dig(Hash&h){ unsigned char o[34]; o[32]=o[33]=0x5a; int f=finals; h.digest(o); sym_assert(finals==f+1,"a digest finalises once"); sym_assert(lastn==rn,"the digest covers exactly the bytes put"); if(lastn==rn) sym_assert_eq(last,ref,rn,"the digest is of the concatenation of all pieces in order"); sym_assert_eq(o,lastd,32,"the digest is returned"); sym_assert(o[32]==0x5a&&o[33]==0x5a,"32 bytes are written"); rn=0; }
static void put(Hash&h,size_t n,bool blk){ void*p=aligned_alloc(16,n?n:16); if(n<=64) { if(n) sym_make(p,n,"data"); } else { for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=(unsigned char)(i*7+rn); sym_make(p,4,"data"); sym_make((char*)p+n-4,4,"data"); } if(blk) h.put_block((block*)p,(int)(n/16)); else h.put(p,(int)n); memcpy(ref+rn,p,n); rn+=n; memset(p,0xEE,n); free(p); }
extern "C" void harness(){
#if PART==0 // buffer size scaled down to 16: all splits
  Hash*h=new Hash(); int k=(int)sym_choose(1,TIER(3,4),"pieces"); int rs=(int)sym_choose(0,2,"mid"); for(int i=0;i<k;i++){ put(*h,(size_t)sym_choose(0,TIER(20,34),"len"),false); if(i==0&&rs==1){ h->reset(); rn=0; } if(i==0&&rs==2) dig(*h); } dig(*h); put(*h,3,false); dig(*h); delete h;
#elif PART==1 // real buffer size
  Hash*h=new Hash(); size_t L[]={0,1,16,4096,8175,8176,8191,8192,8193,16384,20000}; for(int i=0;i<TIER(3,4);i++) put(*h,L[sym_choose(0,10,"len")],false); dig(*h); delete h;
#elif PART==2
  int op=(int)sym_choose(0,3,"op"); if(op==0){ Hash*h=new Hash(); for(int i=0;i<3;i++) put(*h,16*sym_choose(0,TIER(3,5),"blocks"),true); block one; sym_make(&one,16,"one"); h->put_block(&one); memcpy(ref+rn,&one,16); rn+=16; dig(*h); delete h; }
  else if(op==1){ size_t n=sym_choose(0,TIER(40,64),"n"); unsigned char*p=(unsigned char*)malloc(n?n:1); if(n) sym_make(p,n,"data"); unsigned char o[33]; o[32]=7; Hash::hash_once(o,p,(int)n); sym_assert(lastn==n,"one-shot covers exactly the data"); sym_assert_eq(last,p,n,"one-shot hashes the data"); sym_assert_eq(o,lastd,32,"one-shot returns the digest"); sym_assert(o[32]==7,"one-shot writes 32 bytes"); free(p); }
  else if(op==2){ size_t n=sym_choose(0,TIER(40,64),"n"); unsigned char*p=(unsigned char*)malloc(n?n:1); if(n) sym_make(p,n,"data"); block b=Hash::hash_for_block(p,(int)n); sym_assert(lastn==n,"block form covers exactly the data"); sym_assert_eq(last,p,n,"block form hashes the data"); sym_assert_eq(&b,lastd,16,"block form returns the first 16 digest bytes"); free(p); }
  else { size_t L[]={1,33,65,247,248,249,256,300}; es_len=L[sym_choose(0,7,"len")]; Group*g=new Group(); { Point p(g); p.point->v=sym_bits(es_len==1?8:16,"point"); uint64_t v=p.point->v,id=sym_u64("id"); bool dflt=sym_choose(0,1,"default"); if(dflt) id=1; block b= dflt? Hash::KDF(p): Hash::KDF(p,id); sym_assert_eq(&b,lastd,16,"key derivation returns the first 16 digest bytes"); sym_assert(lastn==es_len+8,"key derivation hashes encoding and identifier"); bool ok=true; for(size_t i=0;i<es_len;i++) ok&=last[i]==es_byte(v,i); uint64_t e; memcpy(&e,last+es_len,8); sym_assert(ok&&e==id,"key derivation hashes the point's encoding followed by the identifier"); sym_assert(p.point->v==v,"the point is unchanged"); } delete g; }
#else // the returned block is the first half of the digest: same data, both forms, digest as a function of the data
#endif
  sym_reach("end"); }
