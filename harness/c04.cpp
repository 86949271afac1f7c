#include "ints.h"
#include "emp-tool/circuits/swappable.h"
#ifdef THOROUGH
static const int ws[]={1,2,3,4,5,6,7,8,9,11,15,16,17,24,31,32,33,63,64};
#else
static const int ws[]={1,2,3,4,5,7,8,9,16,17,32,33,64};
#endif
static int pop(uint64_t v){ int t[64]; int n=64; for(int i=0;i<64;i++) t[i]=(v>>i)&1; while(n>1){ for(int i=0;i<n/2;i++) t[i]=t[2*i]+t[2*i+1]; n/=2; } return t[0]; }
extern "C" void harness(){ vb_setup();
  int w=ws[sym_choose(0,sizeof(ws)/sizeof(ws[0])-1,"w")]; uint64_t m=msk(w); int part=(int)sym_choose(0,4,"part");
  // an earlier use with other values must not matter
  { Integer U=mkI(w,0x5a96c3f00d1e2b47ull),V=mkI(w,0xc13579bdf02468afull),R; R=U<<1; R=U>>1; R=U<<mkI(5,1); R=U>>mkI(5,1); R=(U&V)|(U^V); R=U.select(Bit(true,ALICE),V); R=U.hamming_weight(); R=U.leading_zeros(); R=U; R.resize(w+3); R=mkI(w+1,3).hamming_weight(); }
  uint64_t a,b; Integer A=symI(w,"a",a),B=symI(w,"b",b);
  if(part==0){ for(int s=0;s<=w+3;s++){ Integer L=A<<(size_t)s,R=A>>(size_t)s; uint64_t el= s>=64?0:(a<<s)&m, er= s>=64?0:(s>=w?0:a>>s); sym_assert(L.size()==(size_t)w&&val(L)==el,"public left shift"); sym_assert(R.size()==(size_t)w&&val(R)==er,"public right shift"); } 
    static const size_t big[]={100,1000,65536}; for(size_t s:big){ sym_assert(val(A<<s)==0&&val(A>>s)==0,"shift by more than the width"); } }
  if(part==1){ static const int sw_[]={2,3,4,5,7,8,16,32}; for(int sw:sw_){ uint64_t s; Integer S=symI(sw,"s",s); if(sw<=6&&(1<<(sw-1))<w) { s&=msk(sw-1); S=mkI(sw,s); } uint64_t ss=s; bool ok=ss<(uint64_t)w; uint64_t el=0,er=0; 
      el=(a<<(ss&63))&m; er=a>>(ss&63); // only amounts below the width are constrained
      bool sgn=(s>>(sw-1))&1; ok=ok&&!sgn; // amounts are nonnegative signed integers
      Integer L=A<<S,R=A>>S; sym_assert(!ok||(L.size()==(size_t)w&&val(L)==el),"secret left shift"); sym_assert(!ok||(R.size()==(size_t)w&&val(R)==er),"secret right shift"); sym_assert(val(S)==s,"shift amount unchanged"); } }
  if(part==2){ sym_assert(val(A&B)==(a&b)&&val(A|B)==(a|b)&&val(A^B)==(a^b),"bitwise operators"); sym_assert((A&B).size()==(size_t)w&&(A|B).size()==(size_t)w&&(A^B).size()==(size_t)w,"bitwise width"); { Integer X=A; X^=B; sym_assert(val(X)==(a^b),"in-place xor"); }
    bool c=sym_bool("c"); Bit S(c,ALICE); sym_assert(val(A.select(S,B))==(c?b:a),"select"); sym_assert(val(If(S,A,B))==(c?a:b),"If"); sym_assert(val(A.If(S,B))==(c?b:a),"member If"); { Integer X=A,Y=B; emp::swap(S,X,Y); sym_assert(val(X)==(c?b:a)&&val(Y)==(c?a:b),"conditional swap"); }
    for(int i=0;i<w;i++) sym_assert(vb_val(A[i].bit)==((a>>i)&1),"bit access"); static const int past[]={0,1,2,100}; for(int k:past){ const Integer&CA=A; sym_assert(vb_val(CA[w+k].bit)==((a>>(w-1))&1)&&vb_val(A[w+k].bit)==((a>>(w-1))&1),"an index past the width reads the top bit"); } }
  if(part==3){ Integer hw=A.hamming_weight(); uint64_t h=val(hw); sym_assert(hw.size()<=64&&h==(uint64_t)pop(a),"population count"); int lz=w; for(int i=0;i<w;i++) lz= ((a>>i)&1)? w-1-i: lz; Integer L=A.leading_zeros(); sym_assert(val(L)==(uint64_t)lz,"leading zeros"); }
  if(part==4){ static const int ls[]={1,2,3,5,8,16,31,32,33,64}; for(int l:ls){ Integer X=A; Integer&r=X.resize(l,true); sym_assert(&r==&X&&X.size()==(size_t)l,"resize length"); sym_assert(val(X)==((uint64_t)sx(w,a)&msk(l)),"sign extension or truncation"); Integer Y=A; Y.resize(l,false); sym_assert(Y.size()==(size_t)l&&val(Y)==(a&msk(l)),"zero extension or truncation"); Integer Z=A; Z.resize(l); sym_assert(val(Z)==((uint64_t)sx(w,a)&msk(l)),"default is sign extension"); } }
  sym_assert(val(A)==a&&val(B)==b,"operands unchanged"); sym_reach("end"); }
