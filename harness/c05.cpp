#include "ints.h"
#ifndef PART
#define PART 0
#endif
struct Odd { unsigned char d[5]; };
template<typename T> static void ptr_in(int len){ // memory -> integer through a pointer
  size_t nb=(len+7)/8; unsigned char*p=new unsigned char[nb]; sym_make(p,nb,"mem"); unsigned char*q=new unsigned char[nb]; memcpy(q,p,nb);
  VInput vi; Integer A(len,(T*)p,ALICE); vi.check(ALICE,len); bool ok=A.size()==(size_t)len; for(int i=0;i<len;i++) ok&=vb_val(A.bits[i].bit)==((p[i/8]>>(i%8))&1); sym_assert(ok,"integer from memory"); sym_assert_eq(p,q,nb,"source memory unchanged");
  unsigned char*o=new unsigned char[nb]; sym_make(o,nb,"old"); unsigned char*o2=new unsigned char[nb]; memcpy(o2,o,nb); A.template reveal<T>((T*)o,PUBLIC);
  for(int i=0;i<(int)nb*8;i++){ int e= i<len? (p[i/8]>>(i%8))&1: (o2[i/8]>>(i%8))&1; sym_assert(((o[i/8]>>(i%8))&1)==e,"reveal to memory writes exactly the requested bits"); }
  delete[] p; delete[] q; delete[] o; delete[] o2; }
template<typename T> static void conv(int len,bool rev){ // to_bool / from_bool
  size_t nb=(len+7)/8; unsigned char*p=new unsigned char[nb]; sym_make(p,nb,"mem"); bool*d=new bool[len]; to_bool<T>(d,(const T*)p,len,rev);
  for(int i=0;i<len;i++){ int k=rev?len-1-i:i; sym_assert(d[k]==(bool)((p[i/8]>>(i%8))&1),rev?"to_bool reversed":"to_bool"); }
  unsigned char*o=new unsigned char[nb]; sym_make(o,nb,"old"); unsigned char*o2=new unsigned char[nb]; memcpy(o2,o,nb); from_bool<T>(d,(T*)o,len,rev);
  for(int i=0;i<(int)nb*8;i++){ int e= i<len? (p[i/8]>>(i%8))&1: (o2[i/8]>>(i%8))&1; sym_assert(((o[i/8]>>(i%8))&1)==e,rev?"from_bool inverts to_bool, reversed":"from_bool inverts to_bool"); }
  delete[] p; delete[] d; delete[] o; delete[] o2; }
template<typename T> static void ints(){ T v; sym_make(&v,sizeof v,"v"); const int n=8*sizeof(T); bool*d=new bool[n]; int_to_bool<T>(d,v,n); for(int i=0;i<n;i++) sym_assert(d[i]==(bool)((v>>i)&1),"int_to_bool"); T w=bool_to_int<T>(d); sym_assert(w==v,"bool_to_int inverts int_to_bool"); delete[] d;
  for(int len=1;len<=n;len++){ bool*e=new bool[len]; int_to_bool<T>(e,v,len); bool ok=true; for(int i=0;i<len;i++) ok&=e[i]==(bool)((v>>i)&1); sym_assert(ok,"int_to_bool of a prefix"); delete[] e; } }
static int length(int lo){ static const int big[]={63,64,65,71,72,100,127,128,129,200,255,256,257,512,513,1000,1024,1025}; int small=TIER(41,73),n=(int)sym_choose((uint64_t)lo,(uint64_t)small+17,"len"); return n<small? n: big[n-small]; }
extern "C" void harness(){ vb_setup();
#if PART==0
  static const int big[]={95,96,97,127,128,129,192,255,256,257,512}; int small=TIER(71,131),w=(int)sym_choose(1,(uint64_t)small+10,"w"); if(w>=small) w=big[w-small]; uint64_t u=sym_u64("v"); int64_t v=(int64_t)u; int pk=(int)sym_choose(0,2,"party"); int party= pk==0?PUBLIC:pk==1?ALICE:BOB; VInput vi; Integer A(w,v,party); vi.check(party,w);
  sym_assert(A.size()==(size_t)w,"width"); bool ok=true; for(int i=0;i<w;i++) ok&=vb_val(A.bits[i].bit)==(uint64_t)((i<64? (v>>i): (v>>63))&1); sym_assert(ok,"integer from value: low bits, sign extended");
  sym_assert(A.reveal<uint64_t>()==(u&msk(w)),"reveal as 64-bit unsigned"); sym_assert(A.reveal<uint32_t>()==(uint32_t)(u&msk(w)),"reveal as 32-bit unsigned"); sym_assert((uint64_t)A.reveal<int64_t>()==(u&msk(w)),"reveal as 64-bit signed"); sym_assert((uint32_t)A.reveal<int32_t>()==(uint32_t)(u&msk(w)),"reveal as 32-bit signed");
  { string s=A.reveal<string>(); bool o=s.size()==(size_t)w; for(int i=0;i<w&&i<(int)s.size();i++) o&=(s[i]==(((i<64?(v>>i):(v>>63))&1)?'1':'0')); sym_assert(o,"reveal as string, least significant first"); }
  { bool*b=new bool[w]; A.revealBools(b); bool o=true; for(int i=0;i<w;i++) o&=b[i]==(bool)((i<64?(v>>i):(v>>63))&1); sym_assert(o,"reveal as booleans"); Integer B; VInput vj; B.init(b,w,party); vj.check(party,w); sym_assert(val(B)==val(A)&&B.size()==(size_t)w,"init from booleans"); delete[] b; }
  if(party!=PUBLIC) sym_assert(g_vp.lastFeed==party,"fed by the given party"); A.reveal<uint64_t>(BOB); sym_assert(g_vp.lastReveal==BOB,"revealed to the given party"); A.reveal<string>(ALICE); sym_assert(g_vp.lastReveal==ALICE,"string revealed to the given party"); { int32_t t=A.reveal<int32_t>(XOR); (void)t; sym_assert(g_vp.lastReveal==XOR,"int revealed to the given party"); }
#elif PART==1
  int len=length(1); int t=(int)sym_choose(0,2,"type"); if(t==0) ptr_in<uint8_t>(len); else if(t==1) ptr_in<uint32_t>(len); else ptr_in<Odd>(len);
#elif PART==2
  int len=length(0); int rev=(int)sym_choose(0,1,"reverse"); int t=(int)sym_choose(0,2,"type"); if(t==0) conv<uint8_t>(len,rev); else if(t==1) conv<uint64_t>(len,rev); else conv<Odd>(len,rev);
#else
  int t=(int)sym_choose(0,4,"type"); if(t==0) ints<uint8_t>(); else if(t==1) ints<uint16_t>(); else if(t==2) ints<uint32_t>(); else if(t==3) ints<uint64_t>();
  else { block b; sym_make(&b,16,"b"); bool*d=new bool[128]; block_to_bool(d,b); unsigned char*p=(unsigned char*)&b; for(int i=0;i<128;i++) sym_assert(d[i]==(bool)((p[i/8]>>(i%8))&1),"block_to_bool"); block c=bool_to_block(d); sym_assert_eq(&c,&b,16,"bool_to_block inverts block_to_bool"); delete[] d;
    { uint64_t v; sym_make(&v,8,"v"); Integer A(&v,ALICE); sym_assert(A.size()==64&&val(A)==v,"integer from a whole object"); uint16_t h; sym_make(&h,2,"h"); Integer B(&h,ALICE); sym_assert(B.size()==16&&val(B)==h,"integer from a 16-bit object"); VInput vi; Integer Cc(&b,BOB); vi.check(BOB,128); bool ok=Cc.size()==128; for(int i=0;i<128;i++) ok&=vb_val(Cc.bits[i].bit)==(uint64_t)((p[i/8]>>(i%8))&1); sym_assert(ok,"integer from a block"); block o; Cc.reveal<block>(&o,PUBLIC); sym_assert_eq(&o,&b,16,"integer to a block"); } }
#endif
  sym_reach("end"); }
