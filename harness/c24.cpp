#include "ecstub.h"
#include "gcio.h"
#include "emp-tool/utils/group.h"
#include <vector>
using namespace emp;
struct H { Group*g; Point p[3]; BigInt n[2]; uint64_t pv[3],nv[2]; };
static void check(H&h){ for(int i=0;i<3;i++){ sym_assert(h.p[i].group==h.g,"points keep their group"); sym_assert(h.p[i].point->v==h.pv[i],"point values are those of independent values"); for(int j=0;j<i;j++) sym_assert(h.p[i].point!=h.p[j].point,"points do not share storage"); } for(int i=0;i<2;i++) sym_assert(h.n[i].n->v==h.nv[i],"big integer values are those of independent values"); sym_assert(h.n[0].n!=h.n[1].n,"big integers do not share storage"); }
static Point byval(Point x,Point y){ x=y; return x; }
extern "C" void harness(){
#if PART==0
  int live0=es_live; H*h=new H(); h->g=new Group(); for(int i=0;i<3;i++){ h->p[i]=Point(h->g); h->pv[i]=h->p[i].point->v=sym_bits(16,"point"); } for(int i=0;i<2;i++) h->nv[i]=h->n[i].n->v=sym_bits(8,"int"); 
  for(int s=0;s<TIER(2,3);s++){ int op=(int)sym_choose(0,16,"op"); int i=(int)sym_choose(0,TIER(1,2),"i"),j=(int)sym_choose(0,TIER(1,2),"j"); int k= s==0? 1: 0; uint64_t Q=ES_Q; BN_CTX*cx=h->g->bn_ctx; uint64_t*nv=h->nv;
    switch(op){
    case 0: h->p[i]=h->p[j]; h->pv[i]=h->pv[j]; break;
    case 1: { h->p[i]=h->p[j].add(h->p[k]); h->pv[i]=(h->pv[j]+h->pv[k])&Q; break; }
    case 2: h->p[i]=h->p[j].mul(h->n[k]); h->pv[i]=(h->pv[j]*nv[k])&Q; break;
    case 3: h->p[i]=h->p[j].inv(); h->pv[i]=(0-h->pv[j])&Q; break;
    case 4: h->p[i]=h->g->mul_gen(h->n[k]); h->pv[i]=(7*nv[k])&Q; break;
    case 5: h->p[i]=h->g->get_generator(); h->pv[i]=7; break;
    case 6: { Point t(h->p[j]); h->p[i]=byval(t,h->p[k]); sym_assert(t.point->v==h->pv[j],"arguments are copies"); h->pv[i]=h->pv[k]; break; }
    case 7: { bool e=h->p[i]==h->p[j]; sym_assert(e==(h->pv[i]==h->pv[j]),"point equality"); break; }
    case 8: { size_t n=h->p[j].size(); unsigned char*b=new unsigned char[n]; h->p[j].to_bin(b,n); h->p[i].from_bin(h->g,b,n); h->pv[i]=h->pv[j]; Point t; t.from_bin(h->g,b,n); sym_assert(t.point->v==h->pv[j]&&t.group==h->g,"decoding into an empty point"); delete[] b; break; }
    case 9: { Point e,f(e); f=e; e=h->p[j]; sym_assert(e.point->v==h->pv[j],"assignment to an empty point"); Point q=e.add(h->p[k]).mul(h->n[0]).inv(); sym_assert(q.point->v==((0-((h->pv[j]+h->pv[k])*nv[0]))&Q),"temporaries chain"); e=Point(); break; }
    case 10: { std::vector<Point> v; v.push_back(h->p[i]); v.push_back(h->p[j]); v.push_back(v[0]); v[1]=v[2]; sym_assert(v[0].point->v==h->pv[i]&&v[1].point->v==h->pv[i]&&v[2].point->v==h->pv[i],"points in containers"); break; }
    case 11: h->n[i&1]=h->n[j&1]; nv[i&1]=nv[j&1]; break;
    case 12: { h->n[i&1]=h->n[j&1].add(h->n[k]); nv[i&1]=nv[j&1]+nv[k]; break; }
    case 13: { h->n[i&1]=h->n[j&1].mul(h->n[k],cx); nv[i&1]=nv[j&1]*nv[k]; break; }
    case 14: { BigInt m; m.n->v=1+sym_bits(6,"mod"); uint64_t mv=m.n->v; uint64_t a=nv[j&1],b=nv[k]; if(s>0) break; BigInt r=h->n[j&1].mod(m,cx),r2=h->n[j&1].add_mod(h->n[k],m,cx),r3=h->n[j&1].mul_mod(h->n[k],m,cx); sym_assert(r.n->v==a%mv,"remainder"); sym_assert(r2.n->v==(a+b)%mv,"modular sum"); sym_assert(r3.n->v==(a*b)%mv,"modular product"); sym_assert(m.n->v==mv,"modulus unchanged"); break; }
    case 15: { int z=(int)sym_choose(0,3,"bytes"); BigInt x; x.n->v= z==0?0: z==1? 1+sym_bits(7,"b1"): z==2? 256+sym_bits(15,"b2"): (1ULL<<56)+sym_bits(55,"b8"); uint64_t xv=x.n->v; int n=(int)sym_concrete((uint64_t)x.size()); unsigned char*b=new unsigned char[n]; x.to_bin(b); BigInt y; y.n->v=99; y.from_bin(b,n); sym_assert(y.n->v==xv&&x.n->v==xv,"big integer encoding round trip"); sym_assert(y.n!=x.n,"decoded integer is separate"); delete[] b; break; }
    case 16: { h->g->get_rand_bn(h->n[i&1]); nv[i&1]=h->n[i&1].n->v; sym_assert(es_order==ES_Q+1,"random integers are drawn below the group order"); break; } }
    check(*h); }
  Group*g=h->g; delete h; delete g; sym_assert(es_live==live0,"nothing leaks");
#else // any number of points with any encoded lengths
  Group*g=new Group(),*g2=new Group(); RecIO*io=new RecIO(); int n=(int)sym_choose(0,TIER(3,5)+3,"n"); int pat=0; if(n>TIER(3,5)){ pat=n-TIER(3,5); n= pat==1?8: pat==2?17: 40; } size_t L[]={1,2,33,65,255,256,257,600}; Point*a=new Point[n?n:1],*b=new Point[n?n:1]; uint64_t v[48]; size_t tot=0; for(int i=0;i<n;i++){ a[i]=Point(g); size_t l=L[pat? (size_t)(pat==1?(7-i)%8:pat==2? i*3%8: i%7): sym_choose(0,TIER(6,7),"len")]; v[i]=sym_bits(l==1?8:16,"point"); a[i].point->v=v[i]; a[i].point->len=l; tot+=4+l; }
  int held=(int)sym_choose(0,1,"holding_values"); if(held) for(int i=0;i<n;i++){ b[i]=Point(g2); b[i].point->v=v[i]^(uint64_t)(i+1); b[i].point->len=1+(size_t)i; } int mode=(int)sym_choose(0,1,"one_by_one"); if(mode) for(int i=0;i<n;i++) io->send_pt(a+i); else io->send_pt(a,n); sym_assert(io->n==tot&&io->counter==tot,"exactly the encodings are sent"); io->recv_pt(g2,b,n); for(int i=0;i<n;i++){ sym_assert(b[i].point->v==v[i]&&a[i].point->v==v[i],"received points equal the sent ones"); sym_assert(b[i].group==g2,"received into the given group"); } sym_assert(io->r==io->n,"sender and receiver agree on the number of bytes"); delete[] a; delete[] b; delete g; delete g2;
#endif
  sym_reach("end"); }
