#include "aesref.h"
#include "emp-tool/utils/aes.h"
#include "emp-tool/utils/aes_opt.h"
using namespace emp;
static void fresh(block*b,int n,const char*nm){ if(n) sym_make(b,16*(size_t)n,nm); }
static block*buf(int n){ return (block*)aligned_alloc(16,n?16*(size_t)n:16); } // exact size: any access beyond is caught
template<int N> static void fixedN(const AES_KEY*k,const AesRef&r){ block*b=buf(N),*c=buf(N); fresh(b,N,"x"); memcpy(c,b,16*N); AES_ecb_encrypt_blks<N>(b,k); for(int i=0;i<N;i++){ block e; r.enc(&c[i],&e); sym_assert_eq(&b[i],&e,16,"fixed-count encryption is AES-128"); } free(b); free(c); }
template<int K> static void sched(){ block ks[K+1],k0[K+1]; fresh(ks,K+1,"key"); memcpy(k0,ks,sizeof ks); AES_KEY*sk=(AES_KEY*)aligned_alloc(16,sizeof(AES_KEY)*K); AES_opt_key_schedule<K>(ks,sk); sym_assert_eq(ks,k0,16*(K+1),"user keys unchanged");
  for(int i=0;i<K;i++){ AesOf r(&k0[i]); sym_assert_eq(sk[i].rd_key,r.rk,176,"batched key schedule matches FIPS-197"); sym_assert(sk[i].rounds==10,"round count"); AES_KEY s1; AES_set_encrypt_key(k0[i],&s1); sym_assert_eq(s1.rd_key,sk[i].rd_key,176,"batched schedule equals single schedule"); } free(sk); }
template<int K,int H> static void para(){ block ks[K]; fresh(ks,K,"key"); AES_KEY*sk=(AES_KEY*)aligned_alloc(16,sizeof(AES_KEY)*K); AES_opt_key_schedule<K>(ks,sk); block*b=buf(K*H),*c=buf(K*H); fresh(b,K*H,"x"); memcpy(c,b,16*K*H); ParaEnc<K,H>(b,sk);
  for(int i=0;i<K;i++){ AesOf r(&ks[i]); for(int j=0;j<H;j++){ block e; r.enc(&c[i*H+j],&e); sym_assert_eq(&b[i*H+j],&e,16,"multi-key encryption is AES-128 under each key"); } } free(b); free(c); free(sk); }
extern "C" void harness(){ sym_config("xorcap",400);
#if PART==0
  block key; fresh(&key,1,"key"); AesOf r(&key); AES_KEY k; AES_set_encrypt_key(_mm_set1_epi8(0x5a),&k); AES_set_encrypt_key(key,&k); sym_assert_eq(k.rd_key,r.rk,176,"key schedule matches FIPS-197"); sym_assert(k.rounds==10,"round count");
  
#ifdef LONG
  static const int big[]={24,31,32,33,63,64,65,100,127,128,129,200,256,257}; int n=big[sym_choose(0,13,"n")];
#else
  int n=(int)sym_choose(0,TIER(17,40),"n");
#endif
  block*b=buf(n),*c=buf(n); fresh(b,n,"x"); memcpy(c,b,16*(size_t)n); AES_ecb_encrypt_blks(b,n,&k);
  for(int i=0;i<n;i++){ block e; r.enc(&c[i],&e); sym_assert_eq(&b[i],&e,16,"encryption is AES-128"); }
  AES_KEY d; AES_set_decrypt_key(_mm_set1_epi8(0x33),&d); AES_set_decrypt_key(key,&d); AES_ecb_decrypt_blks(b,n,&d); sym_assert_eq(b,c,16*(size_t)n,"decryption inverts encryption");
  AES_KEY d2; AES_set_decrypt_key_fast(&d2,&k); AES_ecb_encrypt_blks(b,n,&k); AES_ecb_decrypt_blks(b,n,&d2); sym_assert_eq(b,c,16*(size_t)n,"decryption with derived key inverts encryption"); sym_assert_eq(k.rd_key,r.rk,176,"encryption key unchanged"); free(b); free(c);
  if(n==0){ fixedN<1>(&k,r); fixedN<2>(&k,r); fixedN<3>(&k,r); fixedN<5>(&k,r); fixedN<8>(&k,r); fixedN<16>(&k,r); fixedN<0>(&k,r); }
#else
  switch(sym_choose(0,TIER(22,25),"shape")){ case 0: sched<1>(); break; case 1: sched<2>(); break; case 2: sched<3>(); break; case 3: sched<4>(); break; case 4: sched<8>(); break;
    case 5: para<1,1>(); break; case 6: para<1,2>(); break; case 7: para<2,1>(); break; case 8: para<2,2>(); break; case 9: para<4,1>(); break; case 10: para<4,2>(); break; case 11: para<8,1>(); break; case 12: para<8,2>(); break; case 13: para<3,3>(); break;
    case 14: para<8,4>(); break; case 15: para<4,4>(); break; case 16: para<2,8>(); break; case 17: para<1,8>(); break; case 18: sched<16>(); break; case 19: para<8,8>(); break; case 20: para<5,3>(); break; case 21: para<1,17>(); break; case 22: para<2,16>(); break; case 23: para<16,2>(); break; case 24: sched<32>(); break; case 25: para<8,16>(); break; }
#endif
  sym_reach("end"); }
