// C32: what is asked of the backend never depends on what is in the wires. Every operation is run twice, the second time with
// arbitrary contents in every wire the backend hands out (and arbitrary plain values of private inputs); the two sequences of requests, with the
// numbers of the wires they join, must be the same, on every path the second run can take.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "blockcirc.h"
#if PART==3
unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[20000]; unsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len;
#include "emp-tool/circuits/aes_128_ctr.h"
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[300000]; unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
#include "emp-tool/circuits/sha3_256.h"
#endif
using namespace emp;
static const int CAP=400000; struct E { uint32_t op,a,b; }; static E tr[2][CAP]; static uint32_t nt[2]; static int cur; static uint32_t nid; static uint64_t pool[2][61]; static uint64_t nrev,nfeed;
static block wire(){ uint32_t k=++nid; return makeBlock(0x5742000000000000ull|k,pool[cur][k%61]^((uint64_t)k*0x9E3779B97F4A7C15ull<<8)); }
static uint32_t id(const block&b){ uint64_t w[2]; memcpy(w,&b,16); if(__builtin_expect((w[1]>>48)!=0x5742,0)) sym_assert(false,"a wire that the backend made"); return (uint32_t)w[1]; }
static void rec(uint32_t op,uint32_t a,uint32_t b){ sym_assert(nt[cur]<CAP,"harness capacity"); E&e=tr[cur][nt[cur]++]; e.op=op; e.a=a; e.b=b; }
struct OC: public CircuitExecution { block and_gate(const block&a,const block&b) override { rec(1,id(a),id(b)); return wire(); } block xor_gate(const block&a,const block&b) override { rec(2,id(a),id(b)); return wire(); } block not_gate(const block&a) override { rec(3,id(a),0); return wire(); } block public_label(bool b) override { rec(4,b,0); return wire(); } uint64_t num_and() override { return 0; } };
struct OP_: public ProtocolExecution { void feed(block*l,int party,const bool*,int n) override { nfeed++; rec(5,(uint32_t)party,(uint32_t)n); for(int i=0;i<n;i++) l[i]=wire(); } void reveal(bool*o,int party,const block*l,int n) override { nrev++; rec(6,(uint32_t)party,(uint32_t)n); for(int i=0;i<n;i++){ rec(7,id(l[i]),0); o[i]=cur==0? i%2==0: sym_bool("revealed"); } } };
static OC oc; static OP_ op;
template<class F> static void twice(F f,bool io=false){ cur=0; nid=900000; nt[0]=0; f(); /* whatever is set up at the first use */ for(cur=0;cur<2;cur++){ nid=0; nt[cur]=0; nrev=nfeed=0; f(); if(!io) sym_assert(nrev==0&&nfeed==0,"an operation neither reveals nor asks for inputs"); } cur=0;
  sym_assert(nt[0]==nt[1],"the same number of requests whatever the wires contain"); if(nt[0]!=nt[1]) return; uint32_t d=0; for(uint32_t i=0;i<nt[0];i++) d|=(tr[0][i].op^tr[1][i].op)|(tr[0][i].a^tr[1][i].a)|(tr[0][i].b^tr[1][i].b); sym_assert(d==0,"the same requests on the same wires whatever the wires contain"); }
static Bit wb(){ return Bit(wire()); } static Integer wi(int w){ Integer r; r.bits.resize(w,Bit(wire())); for(int i=0;i<w;i++) r.bits[i].bit=wire(); return r; } static Float wf(){ Float f; for(int i=0;i<32;i++) f.value[i].bit=wire(); return f; }
extern "C" void harness(){ CircuitExecution::circ_exec=&oc; ProtocolExecution::prot_exec=&op; for(int i=0;i<61;i++) pool[0][i]=(uint64_t)i*0xD1B54A32D192ED03ull; sym_make(pool[1],sizeof pool[1],"contents");
#if PART==0
  static const int WS[]={1,2,3,4,5,7,8,16,31,32,33,64,65,300,1030,100,128}; int w=WS[sym_choose(0,TIER(14,16),"width")]; int k=(int)sym_choose(0,13,"op"); if(w>=300) sym_assume(k!=3&&k!=4&&k!=5&&k!=8);
  twice([&]{ Integer A=wi(w),B=wi(w),R; Bit S=wb(),T=wb(),U; switch(k){
    case 0: U=S&T; U=S|T; U=S^T; U=!S; U=S==T; U=S!=T; U=S.select(T,U); U^=S; U=S.If(T,U); swap(S,T,U); U=If(S,T,U); break;
    case 1: R=A+B; R=A-B; R=-A; R=A.abs(); break; case 2: U=A>=B; U=A>B; U=A<=B; U=A<B; U=A==B; U=A!=B; U=A.geq(B); U=A.equal(B); break; case 3: R=A*B; break; case 4: if(w<=65) R=A/B; break; case 5: if(w<=65) R=A%B; break; case 6: R=A&B; R=A|B; R=A^B; R^=B; break;
    case 7: for(int s=0;s<w+2;s+= w>=300? 97: w>9? 5: 1){ R=A<<s; R=A>>s; } break; case 8: { Integer C=wi(6); R=A<<C; R=A>>C; R=A<<B; R=A>>B; break; } case 9: R=A.select(S,B); R=A.If(S,B); R=If(S,A,B); swap(S,A,B); break; case 10: R=A.hamming_weight(); R=A.leading_zeros(); break; case 11: if(w>=300){ R=A; R.resize(w+9,true); R=A; R.resize(w+9,false); } for(int l=1;l<=70;l+=7){ R=A; R.resize(l,true); R=A; R.resize(l,false); } break; case 12: if(w<=8) R=A.modExp(wi(3),B); break; default: for(int i=0;i<w;i++) U=A[i]&B[i]; U=A[w+1]; } });
#elif PART==1
  int k=(int)sym_choose(0,1,"kind"); if(k==0){ static const int NS[]={0,1,2,3,4,5,6,7,8,9,12,15,16,17,31,32,33,64}; int n=NS[sym_choose(0,17,"n")],m=(int)sym_choose(0,4,"mode"); twice([&]{ Integer*K=new Integer[n+1],*D=new Integer[n+1]; Bit*DB=new Bit[n+1]; for(int i=0;i<n;i++){ K[i]=wi(4); D[i]=wi(5); DB[i]=wb(); } if(m==0) sort(K,n); else if(m==1) sort(K,n,(Bit*)nullptr,Bit(false)); else if(m==2) sort(K,n,D); else if(m==3) sort(K,n,D,wb()); else sort(K,n,DB); delete[] K; delete[] D; delete[] DB; }); }
  else { // inputs and outputs: who gives and who receives how many bits, in which order
    static const int WS[]={1,5,8,32,33,64,70}; int w=WS[sym_choose(0,6,"width")]; int party=(int)sym_choose(1,2,"party"),to=(int)sym_choose(0,3,"to"); int rp= to==3? XOR: (int)to; int64_t v=(int64_t)sym_u64("value"); uint32_t fb=sym_u32("float"); bool bv=sym_bool("bit"); static const bool F=false; unsigned char mem[16]; sym_make(mem,16,"memory"); (void)F;
    twice([&]{ int64_t x=cur? v: 5; int32_t y=(int32_t)x; uint32_t g=cur? fb: 0x3f800000u; float f; memcpy(&f,&g,4); bool b=cur? bv: true; unsigned char m[16]; memset(m,1,16); if(cur) memcpy(m,mem,16); Integer A(w,x,party),B(w,y,party),C(w,m,party); Bit D(b,party); Float G(f,party); if(w<=64){ (void)A.reveal<int64_t>(rp); (void)B.reveal<uint32_t>(rp); } (void)A.reveal<std::string>(rp); (void)D.reveal<bool>(rp); (void)D.reveal<std::string>(rp); (void)G.reveal<double>(rp); unsigned char o[16]; C.reveal(o,rp); }, true); }
#elif PART==2
  int k=(int)sym_choose(0,17,"op"); twice([&]{ Float x=wf(),y=wf(),z; Bit s=wb(),u; switch(k){ case 0: z=x+y; break; case 1: z=x-y; break; case 2: z=x*y; break; case 3: z=x/y; break; case 4: z=x.sqr(); break; case 5: z=x.sqrt(); break; case 6: z=x.sin(); break; case 7: z=x.cos(); break; case 8: z=x.exp(); break; case 9: z=x.exp2(); break; case 10: z=x.ln(); break; case 11: z=x.log2(); break; case 12: u=x.equal(y); break; case 13: u=x.less_than(y); break; case 14: u=x.less_equal(y); break; case 15: z=x.abs(); z=-x; break; case 16: z=x.If(s,y); swap(s,x,y); break; default: z=x^y; z=x&y; z^=x; } });
#else
  int k=(int)sym_choose(0,3,"what");
  if(k<2){ static unsigned char T[20000]; size_t n=bc_text(T,256,128,k==0?256:128,k==0?0:128); if(k==0){ twice([&]{ FILE*f=fmemopen(T,n,"r"); BristolFashion c(f); fclose(f); block in[256],out[128]; for(int i=0;i<256;i++) in[i]=wire(); c.compute(out,in); for(int i=0;i<128;i++) (void)id(out[i]); c.compute(in,in); }); }
    else { static int arr[4*400]; int ng=300; for(int i=0;i<ng;i++){ arr[4*i]=(i*7)%(20+i); arr[4*i+1]=(i*5+3)%(20+i); arr[4*i+2]=20+i; arr[4*i+3]= i%3==0? AND_GATE: i%3==1? XOR_GATE: NOT_GATE; } twice([&]{ BristolFormat c(ng,320,12,8,10,arr); block in[20],out[10]; for(int i=0;i<20;i++) in[i]=wire(); c.compute(out,in,in+12); for(int i=0;i<10;i++) (void)id(out[i]); }); } }
  else if(k==2){ emp_tool_circuits_files_bristol_fashion_aes_128_txt_len=(unsigned)bc_text(emp_tool_circuits_files_bristol_fashion_aes_128_txt,256,128,128,128); static const int LS[]={1,8,127,128,129,300}; int n=LS[sym_choose(0,5,"length")]; uint64_t st=sym_choose(0,1,"start")*7; twice([&]{ AES_128_CTR_Calculator c; block*k=new block[128],*iv=new block[128],*m=new block[400],*o=new block[400]; for(int i=0;i<128;i++){ k[i]=wire(); iv[i]=wire(); } for(int i=0;i<400;i++){ m[i]=wire(); o[i]=wire(); } c.aes_128_ctr(k,iv,m,o,n,ALICE,st); c.aes_128_ctr(k,_mm_set1_epi8(3),m,o,n,ALICE,st); for(int i=0;i<n;i++) (void)id(o[i]); delete[] k; delete[] iv; delete[] m; delete[] o; },true); }
  else { emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len=(unsigned)bc_text(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt,1600,1600,1600,0); static const int LS[]={0,8,1080,1088,1096,2500}; int n=LS[sym_choose(0,5,"length")]; twice([&]{ SHA3_256_Calculator*c=new SHA3_256_Calculator(); block*m=new block[n+1],o[256]; for(int i=0;i<n;i++) m[i]=wire(); c->sha3_256(o,m,(size_t)n); for(int i=0;i<256;i++) (void)id(o[i]); delete c; delete[] m; }); }
#endif
  sym_reach("end"); }
