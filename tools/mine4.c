/* addresses (argument 0) and WIF keys (argument 1) whose whole checksum is zero or ff: gcc -O3 -march=native mine4.c; ./a.out 0|1 SEED; lines go into corpus/mined.json with tools/mine2.py --merge FILE */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static const uint32_t K[64]={0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
typedef uint32_t V __attribute__((vector_size(32)));
#define R(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void comp(V*h,V*w){V a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],q=h[7];
 for(int i=0;i<64;i++){V x; if(i<16)x=w[i]; else {V s0=w[(i-15)&15],s1=w[(i-2)&15]; s0=R(s0,7)^R(s0,18)^(s0>>3); s1=R(s1,17)^R(s1,19)^(s1>>10); x=w[i&15]=w[i&15]+s0+w[(i-7)&15]+s1;}
  V t1=q+(R(e,6)^R(e,11)^R(e,25))+((e&f)^(~e&g))+K[i]+x; V t2=(R(a,2)^R(a,13)^R(a,22))+((a&b)^(a&c)^(b&c));
  q=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;}
 h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=q;}
static const uint32_t I[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
int main(int c,char**v){int wif=atoi(v[1]);uint32_t seed=atoi(v[2]);
 // message: address 0x17 + 20 bytes; wif 0x80 + 32 + 0x01 (34 bytes)
 unsigned char m[64];memset(m,0,64);int len=wif?34:21; m[0]=wif?0x80:0x17;
 srand(seed*2+wif);for(int i=1;i<len;i++)m[i]=rand()>>7; if(wif)m[33]=1; if(wif)m[1]=0x11; m[len]=0x80;m[62]=(len*8)>>8;m[63]=len*8;
 uint32_t b[16];for(int i=0;i<16;i++)b[i]=m[4*i]<<24|m[4*i+1]<<16|m[4*i+2]<<8|m[4*i+3];
 int found=0;
 for(uint32_t hi=0;;hi++){b[3]=hi+seed*1000;for(uint64_t lo=0;lo<(1ULL<<28);lo+=8){
  V h[8],w[16];for(int i=0;i<16;i++)w[i]=(V){}+b[i];
  w[2]=(V){}+(uint32_t)lo+(V){0,1,2,3,4,5,6,7};
  for(int i=0;i<8;i++)h[i]=(V){}+I[i];comp(h,w);
  for(int i=0;i<8;i++)w[i]=h[i];w[8]=(V){}+0x80000000u;for(int i=9;i<15;i++)w[i]=(V){};w[15]=(V){}+256u;
  V g[8];for(int i=0;i<8;i++)g[i]=(V){}+I[i];comp(g,w);
  for(int i=0;i<8;i++)if(g[0][i]==0||g[0][i]==0xffffffffu){uint32_t x[16];memcpy(x,b,64);x[2]=(uint32_t)lo+i;unsigned char o[64];for(int j=0;j<16;j++){o[4*j]=x[j]>>24;o[4*j+1]=x[j]>>16;o[4*j+2]=x[j]>>8;o[4*j+3]=x[j];}
   printf("%s %s ",wif?"wif":"address",g[0][i]?"fflead:4":"zerolead:4");for(int j=1;j<(wif?33:21);j++)printf("%02x",o[j]);puts("");fflush(stdout);}
 }}}
