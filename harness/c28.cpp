// Boolean arrays over a recording channel: any length, any alignment of the two buffers.
#include "sym.h"
#include "emp-tool/io/io_channel.h"
using namespace emp;
#define WCAP 70000
struct RIO: public IOChannel<RIO> { unsigned char w[WCAP]; size_t n=0,r=0; void send_data_internal(const void*d,size_t k){ sym_assert(n+k<=sizeof w,"bounded transmission"); memcpy(w+n,d,k); n+=k; } void recv_data_internal(void*d,size_t k){ sym_assert(r+k<=n,"the receiver expects exactly the bytes that were sent"); if(r+k>n) exit(7); memcpy(d,w+r,k); r+=k; } };
static bool*mk(size_t n,size_t off,unsigned char**base){ unsigned char*p=(unsigned char*)aligned_alloc(16,((n+off)/16+1)*16); /* end the object exactly at the array's end */ free(p); p=(unsigned char*)malloc(n+off?n+off:1); memset(p,0x5a,n+off); *base=p; return (bool*)(p+off); }
extern "C" void harness(){
  static const size_t big[]={47,48,49,63,64,65,71,72,100,127,128,129,192,200,255,256,257,384,512,513,640,1000,1024,1025,2047,2048,2049,4096,4103,8192,66003,262151,524293};
  size_t small=TIER(41,81),n=sym_choose(0,small+sizeof big/8-1,"n"); if(n>=small) n=big[n-small]; size_t so,ro; if(n>9000){ so=sym_choose(0,1,"soff")*3; ro=so; } else if(n<130){ so=sym_choose(0,7,"soff"); ro=sym_choose(0,7,"roff"); } else { so=sym_choose(0,2,"soff")*3; ro=sym_choose(0,2,"roff")*3; } int form=(int)sym_choose(0,1,"form"); unsigned char*sb,*rb; bool*s=mk(n,so,&sb),*r=mk(n,ro,&rb); RIO&io=*new RIO;
  static unsigned char v[530000]; if(n<=8192){ if(n) sym_bools(v,n,"bit"); } else { for(size_t i=0;i<n;i++) v[i]=((i*0x9E3779B1u)>>13)&1; static const size_t at[]={0,8000,131072,262136,262144}; for(size_t q:at) if(q+64<=n) sym_bools(v+q,64,"bit"); sym_bools(v+n-40,40,"bit"); } if(n) memcpy(s,v,n); size_t tail=3; unsigned char tb[3]; sym_make(tb,3,"tail");
  if(form==0) io.send_bool(s,n); else io.send_bool_aligned(s,n); sym_assert(n==0||memcmp(s,v,n)==0,"the sender's array is unchanged"); io.send_data(tb,tail);
  sym_assert(io.counter==io.n,"the counter equals the bytes sent");
  if(form==0) io.recv_bool(r,n); else io.recv_bool_aligned(r,n); if(n) sym_assert_eq(r,v,n,"the array received is the array sent"); for(size_t i=0;i<ro;i++) sym_assert(rb[i]==0x5a,"nothing before the array is written");
  unsigned char tr[3]; io.recv_data(tr,3); sym_assert_eq(tr,tb,3,"what follows the array is received intact"); sym_assert(io.r==io.n,"sender and receiver agree on the number of bytes"); free(sb); free(rb);
  sym_reach("end"); }
