// Exhaustive accuracy of the recorded reference gate lists (harness/golden): every one of the 2^32 operands of each function.
// g++ -O3 -march=native -pthread tools/accuracy.cpp -o /tmp/acc && /tmp/acc K   (about five minutes per function on eight cores)
#include "../harness/facc.h"
#include "../harness/golden.h"
#include <immintrin.h>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <atomic>
typedef __m256i V;
int main(int c,char**v){ int K=atoi(v[1]),step=c>2?atoi(v[2]):1; int ng=gold_n(K),no= K==2||K==3? 31: 32; std::atomic<long> bad(0),n(0); std::vector<std::thread> th;
  for(int t=0;t<8;t++) th.emplace_back([&,t]{ V*W=(V*)aligned_alloc(32,(ng+33)*32); V one=_mm256_set1_epi8(-1);
    for(int b=t;b<512;b+=8) for(uint32_t m=0;m<(1u<<23);m+=256*step){ uint32_t base=((uint32_t)b<<23)|m; for(int i=0;i<8;i++){ uint8_t q[32]; for(int k=0;k<32;k++){ uint8_t z=0; for(int l=0;l<8;l++) z|=(((k*8+l)>>i)&1)<<l; q[k]=z; } W[i]=_mm256_loadu_si256((V*)q); } for(int i=8;i<32;i++) W[i]=((base>>i)&1)?one:_mm256_setzero_si256();
      const gold_t*g=gold_g(K); for(int k=0;k<ng;k++){ int a=g[k].a/3,ty=g[k].a%3; W[32+k]= ty==0? _mm256_and_si256(W[a],W[g[k].b]): ty==1? _mm256_xor_si256(W[a],W[g[k].b]): _mm256_xor_si256(W[a],one); }
      uint8_t o[32][32]; memset(o,0,sizeof o); for(int i=0;i<no;i++) _mm256_storeu_si256((V*)o[i],W[32+ng-no+i]);
      for(int k=0;k<256;k++){ uint32_t r=0; for(int i=0;i<32;i++) r|=(uint32_t)((o[i][k>>3]>>(k&7))&1)<<i; n++; if(!fa_ok(K,base|k,r)&&bad++<20) printf("K=%d in=%08x out=%08x\n",K,base|k,r); } } });
  for(auto&t:th) t.join(); printf("K=%d operands=%ld inaccurate=%ld\n",K,(long)n,(long)bad); return bad!=0; }
