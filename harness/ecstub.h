// Stand-ins for the OpenSSL calls the library makes: exact integers (up to 64 bits) for BIGNUM and the cyclic
// group Z_65536 for the curve. Point encodings have a per-point length; memory is really allocated and freed so
// that double frees and uses after free are seen.
#pragma once
#include "sym.h"
#include <stdlib.h>
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
struct bignum_st { uint64_t v; }; struct ec_point_st { uint64_t v; size_t len; }; struct ec_group_st { int nid; EC_POINT gen; }; struct bignum_ctx { int x; };
static int es_live=0; static const uint64_t ES_Q=0xffff; static size_t es_len=65; static uint64_t es_order=0;
static unsigned char es_byte(uint64_t v,size_t i){ return i<2? (unsigned char)(v>>(8*i)): (unsigned char)((v>>((i*3)%9))+i*29); }
extern "C" {
BIGNUM*BN_new(void){ es_live++; BIGNUM*b=(BIGNUM*)malloc(sizeof(BIGNUM)); b->v=0; return b; }
void BN_free(BIGNUM*b){ if(b){ es_live--; free(b); } } void BN_clear_free(BIGNUM*b){ BN_free(b); } void BN_clear(BIGNUM*b){ b->v=0; }
BIGNUM*BN_copy(BIGNUM*a,const BIGNUM*b){ a->v=b->v; return a; } BIGNUM*BN_dup(const BIGNUM*b){ if(!b) return 0; BIGNUM*a=BN_new(); a->v=b->v; return a; } void BN_swap(BIGNUM*a,BIGNUM*b){ uint64_t t=a->v; a->v=b->v; b->v=t; }
int BN_num_bits(const BIGNUM*b){ int n=0; for(int i=0;i<64;i++) if((b->v>>i)&1) n=i+1; return n; }
int BN_bn2bin(const BIGNUM*b,unsigned char*o){ int n=(int)sym_concrete((uint64_t)((BN_num_bits(b)+7)/8)); for(int i=0;i<n;i++) o[i]=(unsigned char)(b->v>>(8*(n-1-i))); return n; }
BIGNUM*BN_bin2bn(const unsigned char*s,int n,BIGNUM*r){ if(!r) r=BN_new(); r->v=0; for(int i=0;i<n;i++) r->v=(r->v<<8)|s[i]; return r; }
int BN_add(BIGNUM*r,const BIGNUM*a,const BIGNUM*b){ r->v=a->v+b->v; return 1; } int BN_sub(BIGNUM*r,const BIGNUM*a,const BIGNUM*b){ r->v=a->v-b->v; return 1; }
int BN_mul(BIGNUM*r,const BIGNUM*a,const BIGNUM*b,BN_CTX*){ r->v=a->v*b->v; return 1; }
int BN_div(BIGNUM*q,BIGNUM*r,const BIGNUM*a,const BIGNUM*b,BN_CTX*){ uint64_t x=a->v,y=b->v; if(q) q->v=x/y; if(r) r->v=x%y; return 1; } int BN_nnmod(BIGNUM*r,const BIGNUM*a,const BIGNUM*b,BN_CTX*c){ return BN_div(0,r,a,b,c); }
int BN_mod_add(BIGNUM*r,const BIGNUM*a,const BIGNUM*b,const BIGNUM*m,BN_CTX*){ r->v=(a->v+b->v)%m->v; return 1; } int BN_mod_mul(BIGNUM*r,const BIGNUM*a,const BIGNUM*b,const BIGNUM*m,BN_CTX*){ r->v=(a->v*b->v)%m->v; return 1; }
int BN_cmp(const BIGNUM*a,const BIGNUM*b){ return a->v<b->v?-1:a->v>b->v; } int BN_is_zero(const BIGNUM*a){ return a->v==0; } int BN_set_word(BIGNUM*a,unsigned long w){ a->v=w; return 1; }
int BN_rand_range(BIGNUM*r,const BIGNUM*m){ es_order=m->v; r->v=sym_bits(16,"rand"); sym_assume(r->v<m->v); return 1; } int BN_priv_rand_range(BIGNUM*r,const BIGNUM*m){ return BN_rand_range(r,m); }
BN_CTX*BN_CTX_new(void){ es_live++; return (BN_CTX*)malloc(sizeof(BN_CTX)); } void BN_CTX_free(BN_CTX*c){ if(c){ es_live--; free(c); } }
EC_GROUP*EC_GROUP_new_by_curve_name(int nid){ es_live++; EC_GROUP*g=(EC_GROUP*)malloc(sizeof(EC_GROUP)); g->nid=nid; g->gen.v=7; g->gen.len=es_len; return g; } void EC_GROUP_free(EC_GROUP*g){ if(g){ es_live--; free(g); } }
int EC_GROUP_get_order(const EC_GROUP*,BIGNUM*o,BN_CTX*){ o->v=ES_Q+1; return 1; } const EC_POINT*EC_GROUP_get0_generator(const EC_GROUP*g){ return &g->gen; }
EC_POINT*EC_POINT_new(const EC_GROUP*g){ sym_assert(g!=0&&g->nid==NID_X9_62_prime256v1,"points belong to the group"); es_live++; EC_POINT*p=(EC_POINT*)malloc(sizeof(EC_POINT)); p->v=0; p->len=es_len; return p; } void EC_POINT_free(EC_POINT*p){ if(p){ es_live--; free(p); } } void EC_POINT_clear_free(EC_POINT*p){ EC_POINT_free(p); }
int EC_POINT_copy(EC_POINT*a,const EC_POINT*b){ a->v=b->v; a->len=b->len; return 1; } EC_POINT*EC_POINT_dup(const EC_POINT*b,const EC_GROUP*g){ if(!b) return 0; EC_POINT*a=EC_POINT_new(g); EC_POINT_copy(a,b); return a; }
int EC_POINT_add(const EC_GROUP*,EC_POINT*r,const EC_POINT*a,const EC_POINT*b,BN_CTX*){ r->v=(a->v+b->v)&ES_Q; return 1; } int EC_POINT_dbl(const EC_GROUP*,EC_POINT*r,const EC_POINT*a,BN_CTX*){ r->v=(2*a->v)&ES_Q; return 1; }
int EC_POINT_mul(const EC_GROUP*g,EC_POINT*r,const BIGNUM*n,const EC_POINT*q,const BIGNUM*m,BN_CTX*){ uint64_t v=0; if(n) v+=n->v*g->gen.v; if(q&&m) v+=q->v*m->v; r->v=v&ES_Q; return 1; }
int EC_POINT_invert(const EC_GROUP*,EC_POINT*a,BN_CTX*){ a->v=(0-a->v)&ES_Q; return 1; } int EC_POINT_cmp(const EC_GROUP*,const EC_POINT*a,const EC_POINT*b,BN_CTX*){ return a->v!=b->v; } int EC_POINT_set_to_infinity(const EC_GROUP*,EC_POINT*p){ p->v=0; return 1; } int EC_POINT_is_at_infinity(const EC_GROUP*,const EC_POINT*p){ return p->v==0; }
size_t EC_POINT_point2oct(const EC_GROUP*,const EC_POINT*p,point_conversion_form_t f,unsigned char*b,size_t n,BN_CTX*){ sym_assert(f==POINT_CONVERSION_UNCOMPRESSED||f==POINT_CONVERSION_COMPRESSED||f==POINT_CONVERSION_HYBRID,"valid encoding form"); if(!b) return p->len; if(n<p->len) return 0; for(size_t i=0;i<p->len;i++) b[i]=es_byte(p->v,i); return p->len; }
int EC_POINT_oct2point(const EC_GROUP*,EC_POINT*p,const unsigned char*b,size_t n,BN_CTX*){ uint64_t v=0; for(size_t i=0;i<n&&i<2;i++) v|=(uint64_t)b[i]<<(8*i); for(size_t i=0;i<n;i++) sym_assert(b[i]==es_byte(v,i),"the decoded bytes are the encoded ones"); p->v=v; p->len=n; return 1; }
}
