/* Reference implementations, written from the published specifications
   (FIPS 46-3, 180-4, 197, 202; RFC 1320/1321, 7693, 8439; SP 800-38D;
   the RIPEMD-160, SipHash and BLAKE3 papers).  They favour directness over
   speed, share no code with the library under test, and are validated at the
   start of every check against published vectors (see selftest.ml).
   One-shot interfaces only: no buffering logic to get wrong. */

#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/fail.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
#define ROL32(x,n) ((u32)(((x) << (n)) | ((x) >> (32-(n)))))
#define ROR32(x,n) ((u32)(((x) >> (n)) | ((x) << (32-(n)))))
#define ROL64(x,n) ((u64)((n) == 0 ? (x) : (((x) << (n)) | ((x) >> (64-(n))))))
#define ROR64(x,n) ((u64)(((x) >> (n)) | ((x) << (64-(n)))))

static u32 le32(const u8 *p){return p[0]|(u32)p[1]<<8|(u32)p[2]<<16|(u32)p[3]<<24;}
static u64 le64(const u8 *p){return le32(p)|(u64)le32(p+4)<<32;}
static u32 be32(const u8 *p){return p[3]|(u32)p[2]<<8|(u32)p[1]<<16|(u32)p[0]<<24;}
static u64 be64(const u8 *p){return be32(p+4)|(u64)be32(p)<<32;}
static void ple32(u8*p,u32 v){int i;for(i=0;i<4;i++)p[i]=v>>(8*i);}
static void ple64(u8*p,u64 v){int i;for(i=0;i<8;i++)p[i]=v>>(8*i);}
static void pbe32(u8*p,u32 v){int i;for(i=0;i<4;i++)p[3-i]=v>>(8*i);}
static void pbe64(u8*p,u64 v){int i;for(i=0;i<8;i++)p[7-i]=v>>(8*i);}

/* Message source: either a plain buffer or a (seed) virtual stream, so that
   multi-gigabyte messages need not be materialised.  The virtual stream is
   the pattern byte i = pat[i % plen]. */
typedef struct { const u8 *pat; u64 plen; u64 total; } src_t;
static void src_read(const src_t *s, u64 off, u8 *dst, u64 n)
{
  if (s->plen == s->total) { memcpy(dst, s->pat + off, n); return; }
  while (n > 0) {
    u64 o = off % s->plen, k = s->plen - o;
    if (k > n) k = n;
    memcpy(dst, s->pat + o, k); dst += k; off += k; n -= k;
  }
}

/* Merkle-Damgaard driver: block size bs, length field lf bytes, big endian? */
static void md_run(const src_t *s, int bs, int lf, int be,
                   void (*comp)(void *, const u8 *), void *st)
{
  u8 b[256]; u64 off = 0, rem; int i;
  for (; s->total - off >= (u64) bs; off += bs) { src_read(s, off, b, bs); comp(st, b); }
  rem = s->total - off;
  memset(b, 0, sizeof b);
  src_read(s, off, b, rem);
  b[rem] = 0x80;
  if ((int) rem + 1 > bs - lf) { comp(st, b); memset(b, 0, sizeof b); }
  {
    /* total*8 as a 128-bit number */
    u64 lo = s->total << 3, hi = s->total >> 61;
    if (be) { pbe64(b + bs - 8, lo); if (lf == 16) pbe64(b + bs - 16, hi); }
    else ple64(b + bs - 8, lo);
  }
  comp(st, b);
  (void) i;
}

/* ---------------- MD5 ---------------- */
#include <math.h>
static u32 md5_k[64]; static int md5_ready;
static void md5_comp(void *v, const u8 *b)
{
  static const int S[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
  u32 *h = v, A=h[0],B=h[1],C=h[2],D=h[3]; int i;
  if (!md5_ready) { for (i=0;i<64;i++) md5_k[i]=(u32)(long long)floor(fabs(sin(i+1.0))*4294967296.0); md5_ready=1; }
  for (i = 0; i < 64; i++) {
    u32 F; int g;
    if (i<16){F=(B&C)|(~B&D);g=i;} else if(i<32){F=(D&B)|(~D&C);g=(5*i+1)%16;}
    else if(i<48){F=B^C^D;g=(3*i+5)%16;} else {F=C^(B|~D);g=(7*i)%16;}
    F = F + A + md5_k[i] + le32(b+4*g);
    A=D; D=C; C=B; B = B + ROL32(F, S[i/16][i%4]);
  }
  h[0]+=A;h[1]+=B;h[2]+=C;h[3]+=D;
}
/* ---------------- SHA-1 ---------------- */
static void sha1_comp(void *v, const u8 *b)
{
  u32 *h=v,w[80],a=h[0],bb=h[1],c=h[2],d=h[3],e=h[4]; int t;
  for(t=0;t<16;t++)w[t]=be32(b+4*t);
  for(;t<80;t++)w[t]=ROL32(w[t-3]^w[t-8]^w[t-14]^w[t-16],1);
  for(t=0;t<80;t++){
    u32 f,k,T;
    if(t<20){f=(bb&c)|(~bb&d);k=0x5a827999;}
    else if(t<40){f=bb^c^d;k=0x6ed9eba1;}
    else if(t<60){f=(bb&c)|(bb&d)|(c&d);k=0x8f1bbcdc;}
    else{f=bb^c^d;k=0xca62c1d6;}
    T=ROL32(a,5)+f+e+k+w[t]; e=d;d=c;c=ROL32(bb,30);bb=a;a=T;
  }
  h[0]+=a;h[1]+=bb;h[2]+=c;h[3]+=d;h[4]+=e;
}
/* ---------------- SHA-2: constants derived from primes ---------------- */
static u64 k512[80]; static u32 k256[64]; static int sha2_ready;
/* floor(frac(p^(1/3)) * 2^64) by integer bisection on 256-bit-ish arithmetic:
   find the largest x with x^3 <= p * 2^192.  x < 8*2^64, so x^3 < 2^201+. */
static int cube_le(unsigned __int128 x, u32 p)
{
  /* compare x^3 with p*2^192 using 32-bit limbs */
  u32 X[3] = {(u32)x,(u32)(x>>32),(u32)(x>>64)}; u64 r2[7]={0}, r3[10]={0}; int i,j;
  u32 R2[7]={0};
  for(i=0;i<3;i++){u64 c=0;for(j=0;j<3;j++){u64 t=(u64)X[i]*X[j]+R2[i+j]+c;R2[i+j]=(u32)t;c=t>>32;}R2[i+3]+=(u32)c;}
  u32 R3[10]={0};
  for(i=0;i<6;i++){u64 c=0;for(j=0;j<3;j++){u64 t=(u64)R2[i]*X[j]+R3[i+j]+c;R3[i+j]=(u32)t;c=t>>32;}
    for(j=i+3;c&&j<10;j++){u64 t=(u64)R3[j]+c;R3[j]=(u32)t;c=t>>32;}}
  (void)r2;(void)r3;
  for(i=9;i>=7;i--)if(R3[i])return 0;
  if(R3[6]<p)return 1; if(R3[6]>p)return 0;
  for(i=5;i>=0;i--)if(R3[i])return 0;
  return 1;
}
static void sha2_init_tables(void)
{
  int n=0; u32 p;
  if(sha2_ready)return;
  for(p=2;n<80;p++){
    u32 q;int prime=1; for(q=2;q*q<=p;q++)if(p%q==0)prime=0;
    if(!prime)continue;
    unsigned __int128 x=0; int b;
    for(b=67;b>=0;b--){unsigned __int128 y=x|((unsigned __int128)1<<b); if(cube_le(y,p))x=y;}
    k512[n]=(u64)x; if(n<64)k256[n]=(u32)((u64)x>>32); n++;
  }
  sha2_ready=1;
}
static void sha256_comp(void *v,const u8*b)
{
  u32*h=v,w[64],s[8];int t;
  for(t=0;t<16;t++)w[t]=be32(b+4*t);
  for(;t<64;t++){u32 x=w[t-15],y=w[t-2];
    w[t]=(ROR32(y,17)^ROR32(y,19)^(y>>10))+w[t-7]+(ROR32(x,7)^ROR32(x,18)^(x>>3))+w[t-16];}
  memcpy(s,h,32);
  for(t=0;t<64;t++){
    u32 T1=s[7]+(ROR32(s[4],6)^ROR32(s[4],11)^ROR32(s[4],25))+((s[4]&s[5])^(~s[4]&s[6]))+k256[t]+w[t];
    u32 T2=(ROR32(s[0],2)^ROR32(s[0],13)^ROR32(s[0],22))+((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
    s[7]=s[6];s[6]=s[5];s[5]=s[4];s[4]=s[3]+T1;s[3]=s[2];s[2]=s[1];s[1]=s[0];s[0]=T1+T2;
  }
  for(t=0;t<8;t++)h[t]+=s[t];
}
static void sha512_comp(void *v,const u8*b)
{
  u64*h=v,w[80],s[8];int t;
  for(t=0;t<16;t++)w[t]=be64(b+8*t);
  for(;t<80;t++){u64 x=w[t-15],y=w[t-2];
    w[t]=(ROR64(y,19)^ROR64(y,61)^(y>>6))+w[t-7]+(ROR64(x,1)^ROR64(x,8)^(x>>7))+w[t-16];}
  memcpy(s,h,64);
  for(t=0;t<80;t++){
    u64 T1=s[7]+(ROR64(s[4],14)^ROR64(s[4],18)^ROR64(s[4],41))+((s[4]&s[5])^(~s[4]&s[6]))+k512[t]+w[t];
    u64 T2=(ROR64(s[0],28)^ROR64(s[0],34)^ROR64(s[0],39))+((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
    s[7]=s[6];s[6]=s[5];s[5]=s[4];s[4]=s[3]+T1;s[3]=s[2];s[2]=s[1];s[1]=s[0];s[0]=T1+T2;
  }
  for(t=0;t<8;t++)h[t]+=s[t];
}
/* ---------------- RIPEMD-160 ---------------- */
static void rmd_comp(void *v,const u8*b)
{
  static const u8 rho[16]={7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8};
  static const u8 sh[5][16]={{11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8},
    {12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7},{13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9},
    {14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6},{15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5}};
  static const u32 K[5]={0,0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xa953fd4e};
  static const u32 KK[5]={0x50a28be6,0x5c4dd124,0x6d703ef3,0x7a6d76e9,0};
  u32*h=v,x[16],L[5],R[5];u8 rl[16],rr[16],t2[16];int i,j,side;
  for(i=0;i<16;i++)x[i]=le32(b+4*i);
  memcpy(L,h,20);memcpy(R,h,20);
  for(i=0;i<16;i++){rl[i]=i;rr[i]=(9*i+5)%16;}
  for(j=0;j<5;j++){
    for(side=0;side<2;side++){
      u32*A=side?R:L;u8*r=side?rr:rl;int f=side?4-j:j;u32 k=side?KK[j]:K[j];
      for(i=0;i<16;i++){
        u32 B=A[1],C=A[2],D=A[3],F,T;
        switch(f){case 0:F=B^C^D;break;case 1:F=(B&C)|(~B&D);break;case 2:F=(B|~C)^D;break;
          case 3:F=(B&D)|(C&~D);break;default:F=B^(C|~D);}
        T=A[0]+F+x[r[i]]+k; T=ROL32(T,sh[j][r[i]])+A[4];
        A[0]=A[4];A[4]=A[3];A[3]=ROL32(A[2],10);A[2]=A[1];A[1]=T;
      }
    }
    for(i=0;i<16;i++)t2[i]=rho[rl[i]];
    memcpy(rl,t2,16);
    for(i=0;i<16;i++)t2[i]=rho[rr[i]];
    memcpy(rr,t2,16);
  }
  {u32 T=h[1]+L[2]+R[3];h[1]=h[2]+L[3]+R[4];h[2]=h[3]+L[4]+R[0];h[3]=h[4]+L[0]+R[1];h[4]=h[0]+L[1]+R[2];h[0]=T;}
}
/* ---------------- Keccak ---------------- */
static void keccakf(u64 A[25])
{
  /* round constants and rotation offsets computed from their definitions */
  int r; u8 lf=1;
  for(r=0;r<24;r++){
    u64 C[5],D[5],B[25];int x,y,t;
    for(x=0;x<5;x++)C[x]=A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20];
    for(x=0;x<5;x++)D[x]=C[(x+4)%5]^ROL64(C[(x+1)%5],1);
    for(x=0;x<25;x++)A[x]^=D[x%5];
    memset(B,0,sizeof B); B[0]=A[0];
    x=1;y=0;
    for(t=0;t<24;t++){int ny=(2*x+3*y)%5,nx=y;B[nx+5*ny]=ROL64(A[x+5*y],((t+1)*(t+2)/2)%64);x=nx;y=ny;}
    for(y=0;y<5;y++)for(x=0;x<5;x++)A[x+5*y]=B[x+5*y]^(~B[(x+1)%5+5*y]&B[(x+2)%5+5*y]);
    for(t=0;t<7;t++){ if(lf&1)A[0]^=(u64)1<<((1<<t)-1); lf=(lf<<1)^((lf&0x80)?0x71:0); }
  }
}
static void keccak_run(const src_t*s,int outlen,u8 dom,u8*out)
{
  u64 A[25]={0};int rate=200-2*outlen,i;u64 off=0,rem;u8 b[200];
  for(;s->total-off>=(u64)rate;off+=rate){src_read(s,off,b,rate);for(i=0;i<rate/8;i++)A[i]^=le64(b+8*i);keccakf(A);}
  rem=s->total-off;memset(b,0,sizeof b);src_read(s,off,b,rem);b[rem]^=dom;b[rate-1]^=0x80;
  for(i=0;i<rate/8;i++)A[i]^=le64(b+8*i);
  keccakf(A);
  for(i=0;i<outlen;i++)out[i]=A[i/8]>>(8*(i%8));
}
/* ---------------- BLAKE2 ---------------- */
static const u8 sigma[10][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},
{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static const u64 iv512[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,
0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static void b2b_comp(u64 h[8],const u8*b,u64 t,int last)
{
  u64 v[16],m[16];int i,r;
  for(i=0;i<16;i++)m[i]=le64(b+8*i);
  for(i=0;i<8;i++){v[i]=h[i];v[i+8]=iv512[i];}
  v[12]^=t; if(last)v[14]=~v[14];
#define G2(a,bq,c,d,x,y) {v[a]+=v[bq]+x;v[d]=ROR64(v[d]^v[a],32);v[c]+=v[d];v[bq]=ROR64(v[bq]^v[c],24);\
  v[a]+=v[bq]+y;v[d]=ROR64(v[d]^v[a],16);v[c]+=v[d];v[bq]=ROR64(v[bq]^v[c],63);}
  for(r=0;r<12;r++){const u8*s=sigma[r%10];
    G2(0,4,8,12,m[s[0]],m[s[1]])G2(1,5,9,13,m[s[2]],m[s[3]])G2(2,6,10,14,m[s[4]],m[s[5]])G2(3,7,11,15,m[s[6]],m[s[7]])
    G2(0,5,10,15,m[s[8]],m[s[9]])G2(1,6,11,12,m[s[10]],m[s[11]])G2(2,7,8,13,m[s[12]],m[s[13]])G2(3,4,9,14,m[s[14]],m[s[15]])}
  for(i=0;i<8;i++)h[i]^=v[i]^v[i+8];
}
static void b2s_comp(u32 h[8],const u8*b,u64 t,int last)
{
  u32 v[16],m[16];int i,r;
  for(i=0;i<16;i++)m[i]=le32(b+4*i);
  for(i=0;i<8;i++){v[i]=h[i];v[i+8]=(u32)(iv512[i]>>32);}
  v[12]^=(u32)t;v[13]^=(u32)(t>>32); if(last)v[14]=~v[14];
#define G1(a,bq,c,d,x,y) {v[a]+=v[bq]+x;v[d]=ROR32(v[d]^v[a],16);v[c]+=v[d];v[bq]=ROR32(v[bq]^v[c],12);\
  v[a]+=v[bq]+y;v[d]=ROR32(v[d]^v[a],8);v[c]+=v[d];v[bq]=ROR32(v[bq]^v[c],7);}
  for(r=0;r<10;r++){const u8*s=sigma[r];
    G1(0,4,8,12,m[s[0]],m[s[1]])G1(1,5,9,13,m[s[2]],m[s[3]])G1(2,6,10,14,m[s[4]],m[s[5]])G1(3,7,11,15,m[s[6]],m[s[7]])
    G1(0,5,10,15,m[s[8]],m[s[9]])G1(1,6,11,12,m[s[10]],m[s[11]])G1(2,7,8,13,m[s[12]],m[s[13]])G1(3,4,9,14,m[s[14]],m[s[15]])}
  for(i=0;i<8;i++)h[i]^=v[i]^v[i+8];
}
static void blake2_run(int big,const src_t*s,const u8*key,int kl,int outlen,u8*out)
{
  int bs=big?128:64,i;u64 h64[8];u32 h32[8];u8 b[128];u64 t=0,off=0;
  for(i=0;i<8;i++){h64[i]=iv512[i];h32[i]=(u32)(iv512[i]>>32);}
  h64[0]^=0x01010000^((u64)kl<<8)^outlen; h32[0]^=0x01010000^((u32)kl<<8)^outlen;
#define COMP(last) do{if(big)b2b_comp(h64,b,t,last);else b2s_comp(h32,b,t,last);}while(0)
  if(kl>0){memset(b,0,sizeof b);memcpy(b,key,kl);t+=bs;COMP(s->total==0);}
  if(kl==0||s->total>0){
    while(s->total-off>(u64)bs){src_read(s,off,b,bs);off+=bs;t+=bs;COMP(0);}
    memset(b,0,sizeof b);src_read(s,off,b,s->total-off);t+=s->total-off;COMP(1);
  }
  for(i=0;i<outlen;i++)out[i]=big?(u8)(h64[i/8]>>(8*(i%8))):(u8)(h32[i/4]>>(8*(i%4)));
}
/* ---------------- BLAKE3 ---------------- */
static void b3_comp(const u32 cv[8],const u8 blk[64],u32 bl,u64 ctr,u32 fl,u32 out[16])
{
  static const u8 perm[16]={2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
  u32 v[16],m[16],m2[16];int i,r;
  for(i=0;i<16;i++)m[i]=le32(blk+4*i);
  for(i=0;i<8;i++)v[i]=cv[i];
  for(i=0;i<4;i++)v[8+i]=(u32)(iv512[i]>>32);
  v[12]=(u32)ctr;v[13]=(u32)(ctr>>32);v[14]=bl;v[15]=fl;
  for(r=0;r<7;r++){
    G1(0,4,8,12,m[0],m[1])G1(1,5,9,13,m[2],m[3])G1(2,6,10,14,m[4],m[5])G1(3,7,11,15,m[6],m[7])
    G1(0,5,10,15,m[8],m[9])G1(1,6,11,12,m[10],m[11])G1(2,7,8,13,m[12],m[13])G1(3,4,9,14,m[14],m[15])
    for(i=0;i<16;i++)m2[i]=m[perm[i]];
    memcpy(m,m2,sizeof m);
  }
  for(i=0;i<8;i++){out[i]=v[i]^v[i+8];out[i+8]=v[i+8]^cv[i];}
}
typedef struct {u32 cv[8];u8 blk[64];u32 bl;u64 ctr;u32 fl;} b3node;
static b3node b3_subtree(const src_t*s,u64 off,u64 len,const u32 key[8],u32 base)
{
  b3node n;u32 out[16];int i;
  if(len<=1024){
    u64 pos=0;u32 cv[8];memcpy(cv,key,32);
    for(;;){
      u64 k=len-pos>64?64:len-pos; u32 fl=base|(pos==0?1:0);
      memset(n.blk,0,64);src_read(s,off+pos,n.blk,k);
      if(pos+k==len){memcpy(n.cv,cv,32);n.bl=k;n.ctr=off/1024;n.fl=fl|2;return n;}
      b3_comp(cv,n.blk,64,off/1024,fl,out);memcpy(cv,out,32);pos+=k;
    }
  } else {
    u64 left=1024; b3node l,r;
    while(left*2<len)left*=2;
    l=b3_subtree(s,off,left,key,base);r=b3_subtree(s,off+left,len-left,key,base);
    b3_comp(l.cv,l.blk,l.bl,l.ctr,l.fl,out);for(i=0;i<8;i++)ple32(n.blk+4*i,out[i]);
    b3_comp(r.cv,r.blk,r.bl,r.ctr,r.fl,out);for(i=0;i<8;i++)ple32(n.blk+32+4*i,out[i]);
    memcpy(n.cv,key,32);n.bl=64;n.ctr=0;n.fl=base|4;return n;
  }
}
static void blake3_run(const src_t*s,const u8*key,int kl,int outlen,u8*out)
{
  u32 k[8],o[16];int i;u32 base=0;b3node n;u64 c=0;
  for(i=0;i<8;i++)k[i]=(u32)(iv512[i]>>32);
  if(kl==32){base=16;for(i=0;i<8;i++)k[i]=le32(key+4*i);}
  n=b3_subtree(s,0,s->total,k,base);
  while(outlen>0){
    b3_comp(n.cv,n.blk,n.bl,c++,n.fl|8,o);
    for(i=0;i<64&&outlen>0;i++,outlen--)*out++=o[i/4]>>(8*(i%4));
  }
}
/* ---------------- SipHash-2-4 ---------------- */
static void siphash_run(const src_t*s,const u8*key,int outlen,u8*out)
{
  u64 k0=le64(key),k1=le64(key+8),v0=k0^0x736f6d6570736575ULL,v1=k1^0x646f72616e646f6dULL,
      v2=k0^0x6c7967656e657261ULL,v3=k1^0x7465646279746573ULL,off,m;u8 b[8];int i,j;
  if(outlen==16)v1^=0xee;
#define SR {v0+=v1;v1=ROL64(v1,13);v1^=v0;v0=ROL64(v0,32);v2+=v3;v3=ROL64(v3,16);v3^=v2;\
  v0+=v3;v3=ROL64(v3,21);v3^=v0;v2+=v1;v1=ROL64(v1,17);v1^=v2;v2=ROL64(v2,32);}
  for(off=0;s->total-off>=8;off+=8){src_read(s,off,b,8);m=le64(b);v3^=m;SR SR v0^=m;}
  memset(b,0,8);src_read(s,off,b,s->total-off);b[7]=(u8)s->total;
  m=le64(b);v3^=m;SR SR v0^=m;
  for(i=0;i<outlen/8;i++){
    if(i==0)v2^=(outlen==16?0xee:0xff);else v1^=0xdd;
    for(j=0;j<4;j++)SR
    ple64(out+8*i,v0^v1^v2^v3);
  }
}
/* ---------------- dispatch ---------------- */
static int run_hash(int alg,int outlen,const u8*key,int kl,const src_t*s,u8*out)
{
  int i;
  switch(alg){
  case 0:{u32 h[4]={0x67452301,0xefcdab89,0x98badcfe,0x10325476};md_run(s,64,8,0,md5_comp,h);for(i=0;i<4;i++)ple32(out+4*i,h[i]);return 16;}
  case 1:{u32 h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};md_run(s,64,8,1,sha1_comp,h);for(i=0;i<5;i++)pbe32(out+4*i,h[i]);return 20;}
  case 2:{u32 h[8]={0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
    sha2_init_tables();md_run(s,64,8,1,sha256_comp,h);for(i=0;i<7;i++)pbe32(out+4*i,h[i]);return 28;}
  case 3:{u32 h[8];for(i=0;i<8;i++)h[i]=(u32)(iv512[i]>>32);sha2_init_tables();md_run(s,64,8,1,sha256_comp,h);for(i=0;i<8;i++)pbe32(out+4*i,h[i]);return 32;}
  case 4:{u64 h[8]={0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
    sha2_init_tables();md_run(s,128,16,1,sha512_comp,h);for(i=0;i<6;i++)pbe64(out+8*i,h[i]);return 48;}
  case 5:{u64 h[8];memcpy(h,iv512,64);sha2_init_tables();md_run(s,128,16,1,sha512_comp,h);for(i=0;i<8;i++)pbe64(out+8*i,h[i]);return 64;}
  case 6:{u32 h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};md_run(s,64,8,0,rmd_comp,h);for(i=0;i<5;i++)ple32(out+4*i,h[i]);return 20;}
  case 7:keccak_run(s,outlen,0x06,out);return outlen;
  case 8:keccak_run(s,outlen,0x01,out);return outlen;
  case 9:blake2_run(1,s,key,kl,outlen,out);return outlen;
  case 10:blake2_run(0,s,key,kl,outlen,out);return outlen;
  case 11:blake3_run(s,key,kl,outlen,out);return outlen;
  case 12:siphash_run(s,key,outlen,out);return outlen;
  }
  return 0;
}
CAMLprim value vref_hash(value alg,value outlen,value key,value msg)
{
  CAMLparam2(key,msg);CAMLlocal1(res);
  int ol=Int_val(outlen);u8*tmp=malloc(ol+256);src_t s;int n;
  s.pat=(const u8*)String_val(msg);s.plen=s.total=caml_string_length(msg);
  n=run_hash(Int_val(alg),ol,(const u8*)String_val(key),caml_string_length(key),&s,tmp);
  res=caml_alloc_initialized_string(n,(char*)tmp);free(tmp);CAMLreturn(res);
}
/* hash of the first [total] bytes of pat repeated */
CAMLprim value vref_hash_rep(value alg,value outlen,value key,value pat,value total)
{
  CAMLparam2(key,pat);CAMLlocal1(res);
  int ol=Int_val(outlen);u8*tmp=malloc(ol+256);src_t s;int n;
  s.pat=(const u8*)String_val(pat);s.plen=caml_string_length(pat);s.total=Long_val(total);
  n=run_hash(Int_val(alg),ol,(const u8*)String_val(key),caml_string_length(key),&s,tmp);
  res=caml_alloc_initialized_string(n,(char*)tmp);free(tmp);CAMLreturn(res);
}

/* ---------------- AES ---------------- */
static u8 SB[256],ISB[256];static int aes_ready;
static u8 gmul(u8 a,u8 b){u8 r=0;while(b){if(b&1)r^=a;a=(a<<1)^((a&0x80)?0x1b:0);b>>=1;}return r;}
static u8 M9[256],M11[256],M13[256],M14[256],M2[256],M3[256];
static void aes_tables(void)
{
  int i,j;if(aes_ready)return;
  for(i=0;i<256;i++){
    u8 inv=0,x;if(i)for(j=1;j<256;j++)if(gmul(i,j)==1){inv=j;break;}
    x=inv;for(j=1;j<5;j++)x^=(u8)((inv<<j)|(inv>>(8-j)));
    SB[i]=x^0x63;ISB[SB[i]]=i;
    M2[i]=gmul(i,2);M3[i]=gmul(i,3);M9[i]=gmul(i,9);M11[i]=gmul(i,11);M13[i]=gmul(i,13);M14[i]=gmul(i,14);
  }
  aes_ready=1;
}
static int aes_expand(const u8*key,int kl,u8 w[240])
{
  int nk=kl/4,nr=nk+6,i,j;u8 rcon=1;
  aes_tables();memcpy(w,key,kl);
  for(i=nk;i<4*(nr+1);i++){
    u8 t[4];memcpy(t,w+4*(i-1),4);
    if(i%nk==0){u8 q=t[0];t[0]=SB[t[1]]^rcon;t[1]=SB[t[2]];t[2]=SB[t[3]];t[3]=SB[q];rcon=gmul(rcon,2);}
    else if(nk>6&&i%nk==4)for(j=0;j<4;j++)t[j]=SB[t[j]];
    for(j=0;j<4;j++)w[4*i+j]=w[4*(i-nk)+j]^t[j];
  }
  return nr;
}
static void aes_enc(const u8*w,int nr,const u8*in,u8*out)
{
  u8 s[16],t[16];int r,i,c;
  for(i=0;i<16;i++)s[i]=in[i]^w[i];
  for(r=1;r<=nr;r++){
    for(c=0;c<4;c++)for(i=0;i<4;i++)t[4*c+i]=SB[s[4*((c+i)%4)+i]];
    if(r<nr)for(c=0;c<4;c++){u8*a=t+4*c;
      s[4*c]=M2[a[0]]^M3[a[1]]^a[2]^a[3];s[4*c+1]=a[0]^M2[a[1]]^M3[a[2]]^a[3];
      s[4*c+2]=a[0]^a[1]^M2[a[2]]^M3[a[3]];s[4*c+3]=M3[a[0]]^a[1]^a[2]^M2[a[3]];}
    else memcpy(s,t,16);
    for(i=0;i<16;i++)s[i]^=w[16*r+i];
  }
  memcpy(out,s,16);
}
static void aes_dec(const u8*w,int nr,const u8*in,u8*out)
{
  u8 s[16],t[16];int r,i,c;
  for(i=0;i<16;i++)s[i]=in[i]^w[16*nr+i];
  for(r=nr-1;r>=0;r--){
    for(c=0;c<4;c++)for(i=0;i<4;i++)t[4*((c+i)%4)+i]=ISB[s[4*c+i]];
    for(i=0;i<16;i++)t[i]^=w[16*r+i];
    if(r>0)for(c=0;c<4;c++){u8*a=t+4*c;
      s[4*c]=M14[a[0]]^M11[a[1]]^M13[a[2]]^M9[a[3]];s[4*c+1]=M9[a[0]]^M14[a[1]]^M11[a[2]]^M13[a[3]];
      s[4*c+2]=M13[a[0]]^M9[a[1]]^M14[a[2]]^M11[a[3]];s[4*c+3]=M11[a[0]]^M13[a[1]]^M9[a[2]]^M14[a[3]];}
    else memcpy(s,t,16);
  }
  memcpy(out,s,16);
}
/* encrypts/decrypts every 16-byte block of src (ECB) */
CAMLprim value vref_aes(value key,value dec,value src)
{
  CAMLparam2(key,src);CAMLlocal1(res);
  u8 w[240];int nr=aes_expand((const u8*)String_val(key),caml_string_length(key),w);
  mlsize_t i,n=caml_string_length(src);
  res=caml_alloc_string(n);
  for(i=0;i+16<=n;i+=16)
    (Bool_val(dec)?aes_dec:aes_enc)(w,nr,(const u8*)String_val(src)+i,(u8*)Bytes_val(res)+i);
  CAMLreturn(res);
}
/* ---------------- DES ---------------- */
static const u8 IPt[64]={58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const u8 Et[48]={32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
static const u8 Pt[32]={16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const u8 PC1[56]={57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const u8 PC2[48]={14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const u8 SBX[8][64]={
{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static u64 permute(u64 x,int inbits,const u8*t,int n){u64 r=0;int i;for(i=0;i<n;i++)r=(r<<1)|((x>>(inbits-t[i]))&1);return r;}
static void des_subkeys(const u8*key,u64 ks[16])
{
  u64 cd=permute(be64(key),64,PC1,56);u32 c=cd>>28,d=cd&0xfffffff;int i;
  for(i=0;i<16;i++){int s=(i==0||i==1||i==8||i==15)?1:2;
    c=((c<<s)|(c>>(28-s)))&0xfffffff;d=((d<<s)|(d>>(28-s)))&0xfffffff;
    ks[i]=permute(((u64)c<<28)|d,56,PC2,48);}
}
static u64 des_block(const u64 ks[16],int dec,u64 x)
{
  u64 p=permute(x,64,IPt,64);u32 l=p>>32,r=(u32)p;int i,j;u8 fp[64];u64 o;
  for(i=0;i<16;i++){
    u64 e=permute(r,32,Et,48)^ks[dec?15-i:i];u32 f=0,t;
    for(j=0;j<8;j++){int b=(e>>(42-6*j))&63;int row=((b>>4)&2)|(b&1),col=(b>>1)&15;f=(f<<4)|SBX[j][16*row+col];}
    f=(u32)permute(f,32,Pt,32);t=l^f;l=r;r=t;
  }
  o=((u64)r<<32)|l;
  for(i=0;i<64;i++)fp[IPt[i]-1]=i+1;
  return permute(o,64,fp,64);
}
CAMLprim value vref_des(value key,value dec,value src)
{
  CAMLparam2(key,src);CAMLlocal1(res);u64 ks[16];mlsize_t i,n=caml_string_length(src);
  des_subkeys((const u8*)String_val(key),ks);res=caml_alloc_string(n);
  for(i=0;i+8<=n;i+=8)pbe64((u8*)Bytes_val(res)+i,des_block(ks,Bool_val(dec),be64((const u8*)String_val(src)+i)));
  CAMLreturn(res);
}
/* ---------------- Chacha20 block stream ----------------
   state words 12..15 given by the caller through iv & counter */
CAMLprim value vref_chacha(value key,value iv,value ctr64,value nblocks)
{
  CAMLparam3(key,iv,ctr64);CAMLlocal1(res);
  u32 st[16];int kl=caml_string_length(key),il=caml_string_length(iv),i,n=Int_val(nblocks),b;
  u64 c=Int64_val(ctr64);const u8*k=(const u8*)String_val(key),*v=(const u8*)String_val(iv);
  const char*cst=kl==32?"expand 32-byte k":"expand 16-byte k";
  for(i=0;i<4;i++)st[i]=le32((const u8*)cst+4*i);
  for(i=0;i<8;i++)st[4+i]=le32(k+(4*i)%kl);
  st[12]=(u32)c;
  if(il==8){st[13]=(u32)(c>>32);st[14]=le32(v);st[15]=le32(v+4);}
  else{st[13]=le32(v);st[14]=le32(v+4);st[15]=le32(v+8);}
  res=caml_alloc_string(64*(mlsize_t)n);
  for(b=0;b<n;b++){
    u32 x[16];memcpy(x,st,64);
#define QR(a,bq,c2,d) x[a]+=x[bq];x[d]=ROL32(x[d]^x[a],16);x[c2]+=x[d];x[bq]=ROL32(x[bq]^x[c2],12);x[a]+=x[bq];x[d]=ROL32(x[d]^x[a],8);x[c2]+=x[d];x[bq]=ROL32(x[bq]^x[c2],7);
    for(i=0;i<10;i++){QR(0,4,8,12)QR(1,5,9,13)QR(2,6,10,14)QR(3,7,11,15)QR(0,5,10,15)QR(1,6,11,12)QR(2,7,8,13)QR(3,4,9,14)}
    for(i=0;i<16;i++)ple32((u8*)Bytes_val(res)+64*b+4*i,x[i]+st[i]);
    if(++st[12]==0&&il==8)st[13]++;
  }
  CAMLreturn(res);
}
/* ---------------- GHASH: bitwise multiplication ---------------- */
CAMLprim value vref_ghash(value h,value data)   /* data: multiple of 16 */
{
  CAMLparam2(h,data);CAMLlocal1(res);
  u64 h0=be64((const u8*)String_val(h)),h1=be64((const u8*)String_val(h)+8),y0=0,y1=0;
  mlsize_t i,n=caml_string_length(data);int b;
  for(i=0;i+16<=n;i+=16){
    u64 x0=y0^be64((const u8*)String_val(data)+i),x1=y1^be64((const u8*)String_val(data)+i+8),v0=h0,v1=h1,z0=0,z1=0;
    for(b=0;b<128;b++){
      u64 bit=b<64?(x0>>(63-b))&1:(x1>>(127-b))&1,lsb=v1&1;
      if(bit){z0^=v0;z1^=v1;}
      v1=(v1>>1)|(v0<<63);v0>>=1;if(lsb)v0^=0xe100000000000000ULL;
    }
    y0=z0;y1=z1;
  }
  res=caml_alloc_string(16);pbe64((u8*)Bytes_val(res),y0);pbe64((u8*)Bytes_val(res)+8,y1);
  CAMLreturn(res);
}

/* ARCfour keystream bytes pos .. pos+n-1 */
CAMLprim value vref_rc4_at(value key,value vpos,value vn)
{
  u8 s[256];int i,j,kl=caml_string_length(key);long p,pos=Long_val(vpos),n=Long_val(vn);
  for(i=0;i<256;i++)s[i]=i;
  for(i=j=0;i<256;i++){u8 t;j=(j+s[i]+Byte_u(key,i%kl))&255;t=s[i];s[i]=s[j];s[j]=t;}
  value r=caml_alloc_string(n);
  i=j=0;
  for(p=0;p<pos+n;p++){u8 t;i=(i+1)&255;j=(j+s[i])&255;t=s[i];s[i]=s[j];s[j]=t;if(p>=pos)Byte_u(r,p-pos)=s[(s[i]+s[j])&255];}
  return r;
}
