// FIPS-197 AES-128 reference, byte oriented, written from the standard.
#pragma once
#include "sym.h"
static const unsigned char AR_S[256]={
 99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
 183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
 9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
 208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
 205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
 224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
 186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
 225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22,
};
static inline unsigned char ar_x2(unsigned char a){ return (unsigned char)((a<<1)^((a>>7)*0x1b)); }
struct AesRef { unsigned char rk[176];
  void set(const void*key){ memcpy(rk,key,16); unsigned char rc=1; for(int i=16;i<176;i+=4){ unsigned char t[4]; memcpy(t,rk+i-4,4); if(i%16==0){ unsigned char a=t[0]; t[0]=AR_S[t[1]]^rc; t[1]=AR_S[t[2]]; t[2]=AR_S[t[3]]; t[3]=AR_S[a]; rc=ar_x2(rc); } for(int j=0;j<4;j++) rk[i+j]=rk[i-16+j]^t[j]; } }
  void enc(const void*in,void*out) const { unsigned char s[16],t[16]; memcpy(s,in,16); for(int i=0;i<16;i++) s[i]^=rk[i];
    for(int r=1;r<=10;r++){ for(int c=0;c<4;c++) for(int w=0;w<4;w++) t[4*c+w]=AR_S[s[4*((c+w)&3)+w]];
      if(r<10) for(int c=0;c<4;c++){ unsigned char a=t[4*c],b=t[4*c+1],d=t[4*c+2],e=t[4*c+3]; s[4*c]=ar_x2(a)^ar_x2(b)^b^d^e; s[4*c+1]=a^ar_x2(b)^ar_x2(d)^d^e; s[4*c+2]=a^b^ar_x2(d)^ar_x2(e)^e; s[4*c+3]=ar_x2(a)^a^b^d^ar_x2(e); } else memcpy(s,t,16);
      for(int i=0;i<16;i++) s[i]^=rk[16*r+i]; }
    memcpy(out,s,16); } };
struct AesOf: AesRef { AesOf(const void*k){ set(k); } };
