// C30: the SHA3-256 sponge around the permutation. The permutation circuit (not shipped in this tree) is a stand-in with the
// wire order the calculator documents: wire 8*(199-i/8)+i%8 is bit i of the FIPS-202 state string.
#include "sym.h"
#include "emp-tool/emp-tool.h"
#include "vback.h"
#include "blockcirc.h"
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[300000]; unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
#include "emp-tool/circuits/sha3_256.h"
using namespace emp;
static int tr(int i){ return 8*(199-i/8)+i%8; }
static void perm(bool*s){ static bool w[1600],o[1600]; for(int i=0;i<1600;i++) w[tr(i)]=s[i]; bc_eval(o,w,1600,1600); for(int i=0;i<1600;i++) s[i]=o[tr(i)]; }
static void ref(bool*out,const bool*m,size_t n){ static bool s[1600]; for(int i=0;i<1600;i++) s[i]=0; size_t pos=0; for(size_t i=0;i<n;i++){ s[pos]=s[pos]!=m[i]; if(++pos==1088){ perm(s); pos=0; } }
  // domain bits 01, then pad10*1
  s[pos]=s[pos]!=0; pos++; s[pos]=s[pos]!=1; pos++; if(pos==1088){ perm(s); pos=0; } s[pos]=s[pos]!=1; pos++; if(pos==1088){ perm(s); pos=0; } s[1087]=s[1087]!=1; perm(s); for(int i=0;i<256;i++) out[i]=s[i]; }
#if PART==1
static unsigned char seen[1024]; static size_t nseen; static int live; static int the_md; struct evp_md_ctx_st { int st; };
extern "C" {
#undef EVP_MD_size
#undef EVP_MD_CTX_create
#undef EVP_MD_CTX_destroy
EVP_MD_CTX*EVP_MD_CTX_new(void){ live++; EVP_MD_CTX*c=(EVP_MD_CTX*)malloc(sizeof(*c)); c->st=0; return c; } void EVP_MD_CTX_free(EVP_MD_CTX*c){ if(c){ live--; free(c); } }
const EVP_MD*EVP_sha3_256(void){ return (const EVP_MD*)&the_md; } int EVP_MD_get_size(const EVP_MD*){ return 32; } int EVP_MD_size(const EVP_MD*){ return 32; }
int EVP_DigestInit_ex(EVP_MD_CTX*c,const EVP_MD*t,ENGINE*){ if(t!=EVP_sha3_256()) return 0; c->st=1; nseen=0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX*c,const void*d,size_t n){ if(c->st!=1||nseen+n>1024) return 0; memcpy(seen+nseen,d,n); nseen+=n; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX*c,unsigned char*o,unsigned*l){ if(c->st!=1) return 0; c->st=2; static bool m[8200]; for(size_t i=0;i<8*nseen;i++) m[i]=(seen[i/8]>>(i%8))&1; bool h[256]; ref(h,m,8*nseen); memset(o,0,32); for(int i=0;i<256;i++) o[i/8]|=(unsigned char)(h[i]<<(i%8)); if(l) *l=32; return 1; }
}
#endif
static const int LS[]={0,1,2,31,64,134,135,136,137,200,271,272,400,600,273,300,407,408,409,545,680,700};
extern "C" void harness(){ sym_config("xorcap",16); vb_setup(); size_t nb=(size_t)LS[sym_choose(0,TIER(13,21),"length")]; static unsigned char msg[800]; if(nb) sym_make(msg,nb,"msg"); size_t n=8*nb; static bool m[6400]; for(size_t i=0;i<n;i++) m[i]=(msg[i/8]>>(i%8))&1; bool want[256]; ref(want,m,n);
#if PART==1
  { unsigned char o[40]; memset(o,0x5A,40); int k=(int)sym_choose(0,1,"element"); int r; if(k==0) r=sha3_256<uint8_t>(o,msg,nb); else { if(nb%8) nb=0; n=8*nb; ref(want,m,n); uint64_t w[100]; memcpy(w,msg,800); r=sha3_256<uint64_t>(o,w,nb/8); }
    sym_assert(r==0,"succeeds"); for(int i=0;i<256;i++) sym_assert(((o[i/8]>>(i%8))&1)==want[i],"digest of the whole message"); for(int i=32;i<40;i++) sym_assert(o[i]==0x5A,"32 bytes written"); sym_assert(live==0,"context released"); sym_reach("end"); return; }
#else
  emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len=(unsigned)bc_text(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt,1600,1600,1600,0);
  SHA3_256_Calculator*calc=new SHA3_256_Calculator(); block*in=new block[n+1]; for(size_t i=0;i<n;i++) in[i]=vb_mk(m[i]); block out[260]; for(int i=0;i<260;i++) out[i]=vb_mk(i%3==0); Integer io;
  // cut points of the message into up to three pieces
  static const int CUT[]={0,1,7,8,543,1087,1088,1089,2000,4700}; size_t c1=(size_t)CUT[sym_choose(0,9,"cut")]; if(c1>n){ if(c1==4700){ sym_reach("end"); return; } c1=n; } size_t c2= n-c1>5? c1+(n-c1)/2+1: c1; int form=(int)sym_choose(0,5,"form");
  const block*ps[3]={in,in+c1,in+c2}; size_t sz[3]={c1,c2-c1,n-c2}; Integer is[3]; for(int k=0;k<3;k++) for(size_t i=0;i<sz[k];i++){ Bit b; b.bit=ps[k][i]; is[k].bits.push_back(b); }
  if((form==2||form==4)&&c1!=0){ sym_reach("end"); return; } // unsplit forms once
  int reps=(int)sym_choose(1,2,"calls"); if(reps==2&&c1!=8){ sym_reach("end"); return; }
  if(reps==2||form==c1%6){ /* an earlier use with another message must not matter */ int on=form%2? 1100: 24; block*other=new block[on]; for(int i=0;i<on;i++) other[i]=vb_mk(i%3==1); const block*op[2]={other,other+10}; size_t osz[2]={10,(size_t)on-10}; calc->sha3_256(out,op,osz,2); for(int i=0;i<260;i++) out[i]=vb_mk(i%3==0); delete[] other; }
  bool ok=true; for(int rep=0;rep<reps;rep++) switch(form){ case 0: calc->sha3_256(out,ps,sz,3); break; case 1: calc->sha3_256(out,is,3); break; case 2: calc->sha3_256(out,in,n); break; case 3: calc->sha3_256(&io,ps,sz,3); break; case 4: calc->sha3_256(&io,in,n); break; default: calc->sha3_256(&io,is,3); }
  if(form>=3){ sym_assert(io.size()==256,"256 output bits"); for(int i=0;i<256;i++) out[i]=io.bits[i].bit; }
  (void)ok; for(int i=0;i<256;i++) sym_assert(vb_val(out[i])==want[i],"sponge output"); for(int i=256;i<260;i++) sym_assert(vb_val(out[i])==(uint64_t)(i%3==0),"exactly 256 outputs written"); for(size_t i=0;i<n;i++) sym_assert(vb_val(in[i])==m[i],"message wires unchanged");
  delete calc; delete[] in;
#endif
  sym_reach("end"); }
