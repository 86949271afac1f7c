// Small circuits with the shape of the shipped ones, standing for "any block function": output bit i mixes the
// inputs around position i with one AND and two XORs, so that every input and output position matters.
#pragma once
#include "sym.h"
static size_t bc_num(unsigned char*o,size_t n,unsigned v){ char t[12]; int k=0; do{ t[k++]=(char)('0'+v%10); v/=10; }while(v); while(k) o[n++]=(unsigned char)t[--k]; return n; }
static size_t bc_str(unsigned char*o,size_t n,const char*s){ while(*s) o[n++]=(unsigned char)*s++; return n; }
static size_t bc_gate(unsigned char*o,size_t n,unsigned a,unsigned b,unsigned c,const char*op){ n=bc_str(o,n,"2 1 "); n=bc_num(o,n,a); o[n++]=' '; n=bc_num(o,n,b); o[n++]=' '; n=bc_num(o,n,c); o[n++]=' '; n=bc_str(o,n,op); o[n++]='\n'; return n; }
// out_i = in_{a(i)} ^ in_{b(i)} ^ (in_{c(i)} & in_{d(i)})
static inline unsigned bc_a(unsigned i,unsigned ni){ return (i*37+5)%ni; }
static inline unsigned bc_b(unsigned i,unsigned ni){ return (i+ni/2)%ni; }
static inline unsigned bc_c(unsigned i,unsigned ni){ return (i*29+7)%ni; }
static inline unsigned bc_d(unsigned i,unsigned ni){ return (i*11+ni/2+3)%ni; }
// and, so that every input reaches some output whatever the others are, one more exclusive-or: of in_i for small circuits, and for the
// 1600-bit permutation of u_{i mod 256} = xor of in_{i mod 256 + 256k} for k=0..6 (any 256 neighbouring outputs see the whole state)
static size_t bc_text(unsigned char*o,unsigned ni,unsigned no,unsigned in1,unsigned in2){ size_t n=0; bool big=ni>256; unsigned ng= big? 4*no+6*256: 4*no; n=bc_num(o,n,ng); o[n++]=' '; n=bc_num(o,n,ni+ng); o[n++]='\n'; if(in2){ n=bc_str(o,n,"2 "); n=bc_num(o,n,in1); o[n++]=' '; n=bc_num(o,n,in2); } else { n=bc_str(o,n,"1 "); n=bc_num(o,n,in1); } n=bc_str(o,n,"\n1 "); n=bc_num(o,n,no); n=bc_str(o,n,"\n\n");
  for(unsigned i=0;i<no;i++){ n=bc_gate(o,n,bc_c(i,ni),bc_d(i,ni),ni+i,"AND"); n=bc_gate(o,n,bc_a(i,ni),bc_b(i,ni),ni+no+i,"XOR"); }
  unsigned w=ni+2*no,u=w; if(big){ for(unsigned j=0;j<256;j++) for(unsigned k=1;k<=6;k++){ n=bc_gate(o,n,k==1? j: w-1,(j+256*k)%ni,w,"XOR"); w++; } }
  for(unsigned i=0;i<no;i++) n=bc_gate(o,n,ni+i,big? u+6*(i%256)+5: i,w+i,"XOR");
  for(unsigned i=0;i<no;i++) n=bc_gate(o,n,w+i,ni+no+i,w+no+i,"XOR");
  return n; }
static void bc_eval(bool*out,const bool*in,unsigned ni,unsigned no){ bool u[256]; if(ni>256) for(unsigned j=0;j<256;j++){ u[j]=in[j]; for(unsigned k=1;k<=6;k++) u[j]=u[j]!=in[(j+256*k)%ni]; } for(unsigned i=0;i<no;i++) out[i]=((in[bc_c(i,ni)]&&in[bc_d(i,ni)])!=(ni>256? u[i%256]: in[i]))!=(in[bc_a(i,ni)]!=in[bc_b(i,ni)]); }
