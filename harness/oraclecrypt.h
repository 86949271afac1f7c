// Stand-ins for the block cipher (a random permutation per key, sampled as it is asked) and for the random generator (draws chosen by the
// harness), used where the question is what can be learned from what is sent, not what the cipher computes.
#pragma once
#include "sym.h"
#define EMP_AES_H
#define EMP_AES_OPT_KS_H__
#define EMP_PRG_H__
#include "emp-tool/utils/block.h"
#include "emp-tool/utils/utils.h"
#include "emp-tool/utils/constants.h"
#include <climits>
#include <memory>
#include <random>
#include <assert.h>
namespace emp {
struct OrcQ { block key,x,y; bool open; };
static OrcQ oq[256]; static int noq; static bool orc_active; // queries so far; while active, new answers are what the evaluator knows
static bool orc_same(const block&a,const block&b){ unsigned char d=0; for(int i=0;i<16;i++) d|=((const unsigned char*)&a)[i]^((const unsigned char*)&b)[i]; bool e= d==0; if(sym_is_const(e)) return e; sym_assume(!e); return false; } // unrelated values do not collide
static block orc_ask(const block&key,const block&x){ for(int i=0;i<noq;i++) if(orc_same(oq[i].key,key)&&orc_same(oq[i].x,x)) return oq[i].y; sym_assert(noq<256,"harness capacity"); OrcQ&q=oq[noq++]; q.key=key; q.x=x; q.open=!orc_active; if(orc_active) sym_make(&q.y,16,"known"); else q.y=zero_block; return q.y; }
typedef struct { block rd_key[11]; unsigned int rounds; } AES_KEY;
inline void AES_set_encrypt_key(const block k,AES_KEY*a){ for(int i=0;i<11;i++) a->rd_key[i]=k; a->rounds=10; }
inline void AES_ecb_encrypt_blks(block*b,unsigned n,const AES_KEY*k){ for(unsigned i=0;i<n;i++) b[i]=orc_ask(k->rd_key[0],b[i]); }
template<int N> inline void AES_ecb_encrypt_blks(block*b,const AES_KEY*k){ AES_ecb_encrypt_blks(b,N,k); }
template<int N> inline void AES_opt_key_schedule(block*u,AES_KEY*k){ for(int i=0;i<N;i++) AES_set_encrypt_key(u[i],k+i); }
template<int K,int H> inline void ParaEnc(block*b,AES_KEY*k){ for(int i=0;i<K;i++) for(int j=0;j<H;j++) b[i*H+j]=orc_ask(k[i].rd_key[0],b[i*H+j]); }
template<int K,int H> inline void ParaEnc(block*b,const AES_KEY*k){ for(int i=0;i<K;i++) for(int j=0;j<H;j++) b[i*H+j]=orc_ask(k[i].rd_key[0],b[i*H+j]); }
static block draws[16]; static int ndraw; // the random blocks drawn, in order
class PRG { public: PRG(const void* =nullptr,int=0){} void reseed(const block*,uint64_t=0){} void random_block(block*p,int n=1){ for(int i=0;i<n;i++){ sym_assert(ndraw<16,"harness capacity"); p[i]=draws[ndraw++]; } }
  void random_data(void*p,int n){ unsigned char*c=(unsigned char*)p; while(n>0){ block b; random_block(&b,1); int k=n<16?n:16; memcpy(c,&b,k); c+=k; n-=k; } } void random_data_unaligned(void*p,int n){ random_data(p,n); } void random_bool(bool*p,int n){ for(int i=0;i<n;i++){ unsigned char c; random_data(&c,1); p[i]=c&1; } } };
}
