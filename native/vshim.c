/* Native stand-ins for the third-party native code keripy needs and this
 * sandbox lacks: blake3 (hash + XOF), argon2id (libsodium crypto_pwhash),
 * xsalsa20poly1305 (libsodium crypto_box core).  Written from the public
 * specifications.  Validated by the vectors in shims/selftest.py and by the
 * digests/ciphertexts/salts hard-coded in keripy's own tests. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

/* ---------------- BLAKE3 ---------------- */
static const uint32_t B3IV[8]={0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const uint8_t B3P[16]={2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
#define R32(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void b3g(uint32_t*s,int a,int b,int c,int d,uint32_t x,uint32_t y){
 s[a]+=s[b]+x;s[d]=R32(s[d]^s[a],16);s[c]+=s[d];s[b]=R32(s[b]^s[c],12);
 s[a]+=s[b]+y;s[d]=R32(s[d]^s[a],8);s[c]+=s[d];s[b]=R32(s[b]^s[c],7);}
static void b3compress(const uint32_t cv[8],const uint32_t blk[16],uint64_t ctr,uint32_t len,uint32_t flags,uint32_t out[16]){
 uint32_t s[16],m[16],t[16];memcpy(m,blk,64);memcpy(s,cv,32);memcpy(s+8,B3IV,16);
 s[12]=(uint32_t)ctr;s[13]=(uint32_t)(ctr>>32);s[14]=len;s[15]=flags;
 for(int r=0;r<7;r++){
  b3g(s,0,4,8,12,m[0],m[1]);b3g(s,1,5,9,13,m[2],m[3]);b3g(s,2,6,10,14,m[4],m[5]);b3g(s,3,7,11,15,m[6],m[7]);
  b3g(s,0,5,10,15,m[8],m[9]);b3g(s,1,6,11,12,m[10],m[11]);b3g(s,2,7,8,13,m[12],m[13]);b3g(s,3,4,9,14,m[14],m[15]);
  for(int i=0;i<16;i++)t[i]=m[B3P[i]];memcpy(m,t,64);}
 for(int i=0;i<8;i++){out[i]=s[i]^s[i+8];out[i+8]=s[i+8]^cv[i];}}
enum{CS=1,CE=2,PARENT=4,ROOT=8};
typedef struct{uint32_t cv[8],blk[16];uint64_t ctr;uint32_t len,flags;}b3out;
static void ldblk(uint32_t*w,const uint8_t*p,size_t n){uint8_t b[64]={0};memcpy(b,p,n);for(int i=0;i<16;i++)w[i]=b[4*i]|(b[4*i+1]<<8)|(b[4*i+2]<<16)|((uint32_t)b[4*i+3]<<24);}
static void chunk(const uint8_t*p,size_t n,uint64_t ctr,b3out*o){
 uint32_t cv[8],w[16],out[16];memcpy(cv,B3IV,32);uint32_t fl=CS;
 while(n>64){ldblk(w,p,64);b3compress(cv,w,ctr,64,fl,out);memcpy(cv,out,32);fl=0;p+=64;n-=64;}
 ldblk(o->blk,p,n);memcpy(o->cv,cv,32);o->ctr=ctr;o->len=(uint32_t)n;o->flags=fl|CE;}
static void cvof(b3out*o,uint32_t*cv){uint32_t out[16];b3compress(o->cv,o->blk,o->ctr,o->len,o->flags,out);memcpy(cv,out,32);}
static void subtree(const uint8_t*p,size_t n,uint64_t ctr,b3out*o){
 if(n<=1024){chunk(p,n,ctr,o);return;}
 size_t full=(n-1)/1024,pw=1;while(pw*2<=full)pw*=2;size_t l=pw*1024;
 b3out a,b;subtree(p,l,ctr,&a);subtree(p+l,n-l,ctr+pw,&b);
 memcpy(o->cv,B3IV,32);cvof(&a,o->blk);cvof(&b,o->blk+8);o->ctr=0;o->len=64;o->flags=PARENT;}
void vs_blake3(const uint8_t*in,size_t n,uint8_t*out,size_t outlen){
 b3out o;subtree(in,n,0,&o);uint64_t c=0;
 while(outlen){uint32_t w[16];b3compress(o.cv,o.blk,c++,o.len,o.flags|ROOT,w);
  for(int i=0;i<64&&outlen;i++,outlen--)*out++=(uint8_t)(w[i/4]>>(8*(i%4)));}}

/* ---------------- BLAKE2b ---------------- */
static const uint64_t B2IV[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const uint8_t B2S[12][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
#define R64(x,n) (((x)>>(n))|((x)<<(64-(n))))
typedef struct{uint64_t h[8],t;uint8_t b[128];size_t n;size_t ol;}b2;
static void b2comp(b2*S,int last){uint64_t v[16],m[16];memcpy(v,S->h,64);memcpy(v+8,B2IV,64);v[12]^=S->t;if(last)v[14]=~v[14];memcpy(m,S->b,128);
#define G2(a,b,c,d,x,y) v[a]+=v[b]+x;v[d]=R64(v[d]^v[a],32);v[c]+=v[d];v[b]=R64(v[b]^v[c],24);v[a]+=v[b]+y;v[d]=R64(v[d]^v[a],16);v[c]+=v[d];v[b]=R64(v[b]^v[c],63);
 for(int r=0;r<12;r++){const uint8_t*s=B2S[r];G2(0,4,8,12,m[s[0]],m[s[1]])G2(1,5,9,13,m[s[2]],m[s[3]])G2(2,6,10,14,m[s[4]],m[s[5]])G2(3,7,11,15,m[s[6]],m[s[7]])G2(0,5,10,15,m[s[8]],m[s[9]])G2(1,6,11,12,m[s[10]],m[s[11]])G2(2,7,8,13,m[s[12]],m[s[13]])G2(3,4,9,14,m[s[14]],m[s[15]])}
 for(int i=0;i<8;i++)S->h[i]^=v[i]^v[i+8];}
static void b2init(b2*S,size_t ol){memset(S,0,sizeof*S);memcpy(S->h,B2IV,64);S->h[0]^=0x01010000^ol;S->ol=ol;}
static void b2up(b2*S,const void*p_,size_t n){const uint8_t*p=p_;while(n){if(S->n==128){S->t+=128;b2comp(S,0);S->n=0;}size_t k=128-S->n;if(k>n)k=n;memcpy(S->b+S->n,p,k);S->n+=k;p+=k;n-=k;}}
static void b2fin(b2*S,uint8_t*o){S->t+=S->n;memset(S->b+S->n,0,128-S->n);b2comp(S,1);memcpy(o,S->h,S->ol);}
static void b2hash(uint8_t*o,size_t ol,const void*p,size_t n){b2 S;b2init(&S,ol);b2up(&S,p,n);b2fin(&S,o);}

/* ---------------- Argon2id v1.3, lanes=1 ---------------- */
static void hprime(uint8_t*out,uint32_t ol,const uint8_t*in,size_t n){
 uint8_t L[4]={ol,ol>>8,ol>>16,ol>>24};b2 S;
 if(ol<=64){b2init(&S,ol);b2up(&S,L,4);b2up(&S,in,n);b2fin(&S,out);return;}
 uint8_t v[64],w[64];b2init(&S,64);b2up(&S,L,4);b2up(&S,in,n);b2fin(&S,v);memcpy(out,v,32);out+=32;uint32_t rem=ol-32;
 while(rem>64){b2hash(w,64,v,64);memcpy(v,w,64);memcpy(out,v,32);out+=32;rem-=32;}
 b2hash(w,rem,v,64);memcpy(out,w,rem);}
typedef struct{uint64_t v[128];}blkt;
#define FB(x,y) ((x)+(y)+2*(uint64_t)(uint32_t)(x)*(uint64_t)(uint32_t)(y))
#define GB(a,b,c,d) a=FB(a,b);d=R64(d^a,32);c=FB(c,d);b=R64(b^c,24);a=FB(a,b);d=R64(d^a,16);c=FB(c,d);b=R64(b^c,63);
#define RND(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p) GB(a,e,i,m)GB(b,f,j,n)GB(c,g,k,o)GB(d,h,l,p)GB(a,f,k,p)GB(b,g,l,m)GB(c,h,i,n)GB(d,e,j,o)
static void fillb(const blkt*X,const blkt*Y,blkt*O,int xr){blkt R,Z;for(int i=0;i<128;i++)R.v[i]=X->v[i]^Y->v[i];Z=R;if(xr)for(int i=0;i<128;i++)Z.v[i]^=O->v[i];uint64_t*v=R.v;
 for(int i=0;i<8;i++){uint64_t*q=v+16*i;RND(q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],q[9],q[10],q[11],q[12],q[13],q[14],q[15])}
 for(int i=0;i<8;i++){uint64_t*q=v+2*i;RND(q[0],q[1],q[16],q[17],q[32],q[33],q[48],q[49],q[64],q[65],q[80],q[81],q[96],q[97],q[112],q[113])}
 for(int i=0;i<128;i++)O->v[i]=Z.v[i]^R.v[i];}
int vs_argon2id(uint8_t*out,uint32_t ol,const uint8_t*pw,uint32_t pl,const uint8_t*salt,uint32_t sl,uint32_t t,uint32_t mk){
 uint32_t m=mk<8?8:mk,q=m/4;m=q*4;blkt*B=calloc(m,sizeof(blkt));if(!B)return -1;
 uint8_t H[72];b2 S;b2init(&S,64);
#define U32(x) {uint32_t x_=(x);b2up(&S,&x_,4);}
 U32(1)U32(ol)U32(mk)U32(t)U32(0x13)U32(2)U32(pl)b2up(&S,pw,pl);U32(sl)b2up(&S,salt,sl);U32(0)U32(0)
 b2fin(&S,H);
 for(uint32_t i=0;i<2;i++){uint32_t z=i;memcpy(H+64,&z,4);z=0;memcpy(H+68,&z,4);hprime((uint8_t*)B[i].v,1024,H,72);}
 for(uint32_t pass=0;pass<t;pass++)for(uint32_t sl_=0;sl_<4;sl_++){
  int indep=(pass==0&&sl_<2);blkt in,ad,zero;memset(&zero,0,sizeof zero);memset(&in,0,sizeof in);
  in.v[0]=pass;in.v[1]=0;in.v[2]=sl_;in.v[3]=m;in.v[4]=t;in.v[5]=2;
  uint32_t st=(pass==0&&sl_==0)?2:0;
  if(indep&&st){in.v[6]++;blkt tmp;memset(&tmp,0,sizeof tmp);fillb(&zero,&in,&tmp,0);memset(&ad,0,sizeof ad);fillb(&zero,&tmp,&ad,0);}
  for(uint32_t i=st;i<q;i++){
   uint32_t cur=sl_*q+i,prev=cur?cur-1:m-1;uint64_t pr;
   if(indep){if(i%128==0){in.v[6]++;blkt tmp;memset(&tmp,0,sizeof tmp);fillb(&zero,&in,&tmp,0);memset(&ad,0,sizeof ad);fillb(&zero,&tmp,&ad,0);}pr=ad.v[i%128];}
   else pr=B[prev].v[0];
   uint32_t area=pass==0?(sl_==0?i-1:sl_*q+i-1):m-q+i-1;
   uint64_t x=(uint32_t)pr;x=(x*x)>>32;uint32_t rel=area-1-(uint32_t)(((uint64_t)area*x)>>32);
   uint32_t start=0;if(pass)start=(sl_==3)?0:(sl_+1)*q;
   uint32_t ref=(start+rel)%m;
   fillb(&B[prev],&B[ref],&B[cur],pass>0);}
 }
 hprime(out,ol,(uint8_t*)B[m-1].v,1024);free(B);return 0;}

/* ---------------- Salsa20 / Poly1305 ---------------- */
static uint32_t L32(const uint8_t*p){return p[0]|(p[1]<<8)|(p[2]<<16)|((uint32_t)p[3]<<24);}
static void S32(uint8_t*p,uint32_t v){p[0]=v;p[1]=v>>8;p[2]=v>>16;p[3]=v>>24;}
#define RL(x,n) (((x)<<(n))|((x)>>(32-(n))))
static void salsa(uint8_t*out,const uint8_t in[16],const uint8_t k[32],int h){
 uint32_t x[16],o[16];static const uint8_t c[]="expand 32-byte k";
 x[0]=L32(c);x[5]=L32(c+4);x[10]=L32(c+8);x[15]=L32(c+12);
 for(int i=0;i<4;i++){x[1+i]=L32(k+4*i);x[11+i]=L32(k+16+4*i);x[6+i]=L32(in+4*i);}
 memcpy(o,x,64);
#define QR(a,b,c,d) b^=RL(a+d,7);c^=RL(b+a,9);d^=RL(c+b,13);a^=RL(d+c,18);
 for(int i=0;i<10;i++){QR(x[0],x[4],x[8],x[12])QR(x[5],x[9],x[13],x[1])QR(x[10],x[14],x[2],x[6])QR(x[15],x[3],x[7],x[11])
  QR(x[0],x[1],x[2],x[3])QR(x[5],x[6],x[7],x[4])QR(x[10],x[11],x[8],x[9])QR(x[15],x[12],x[13],x[14])}
 if(h){int ix[8]={0,5,10,15,6,7,8,9};for(int i=0;i<8;i++)S32(out+4*i,x[ix[i]]);}
 else for(int i=0;i<16;i++)S32(out+4*i,x[i]+o[i]);}
void vs_hsalsa20(uint8_t out[32],const uint8_t in[16],const uint8_t k[32]){salsa(out,in,k,1);}
void vs_xsalsa20_xor(uint8_t*buf,size_t n,const uint8_t nonce[24],const uint8_t k[32]){
 uint8_t sk[32],in[16]={0},ks[64];salsa(sk,nonce,k,1);memcpy(in,nonce+16,8);uint64_t ctr=0;
 for(size_t i=0;i<n;i++){if(i%64==0){for(int j=0;j<8;j++)in[8+j]=(uint8_t)(ctr>>(8*j));ctr++;salsa(ks,in,sk,0);}buf[i]^=ks[i%64];}}
typedef unsigned __int128 u128;
void vs_poly1305(uint8_t tag[16],const uint8_t*m,size_t n,const uint8_t key[32]){
 /* 26-bit limbs, straightforward */
 uint32_t r0=L32(key)&0x3ffffff,r1=(L32(key+3)>>2)&0x3ffff03,r2=(L32(key+6)>>4)&0x3ffc0ff,r3=(L32(key+9)>>6)&0x3f03fff,r4=(L32(key+12)>>8)&0x00fffff;
 uint32_t s1=r1*5,s2=r2*5,s3=r3*5,s4=r4*5,h0=0,h1=0,h2=0,h3=0,h4=0;
 while(n){uint8_t b[17]={0};size_t k=n<16?n:16;memcpy(b,m,k);b[k]=1;m+=k;n-=k;
  h0+=L32(b)&0x3ffffff;h1+=(L32(b+3)>>2)&0x3ffffff;h2+=(L32(b+6)>>4)&0x3ffffff;h3+=(L32(b+9)>>6);h4+=(L32(b+12)>>8)|((uint32_t)b[16]<<24);
  h3&=0x3ffffff;
  uint64_t d0=(uint64_t)h0*r0+(uint64_t)h1*s4+(uint64_t)h2*s3+(uint64_t)h3*s2+(uint64_t)h4*s1,
  d1=(uint64_t)h0*r1+(uint64_t)h1*r0+(uint64_t)h2*s4+(uint64_t)h3*s3+(uint64_t)h4*s2,
  d2=(uint64_t)h0*r2+(uint64_t)h1*r1+(uint64_t)h2*r0+(uint64_t)h3*s4+(uint64_t)h4*s3,
  d3=(uint64_t)h0*r3+(uint64_t)h1*r2+(uint64_t)h2*r1+(uint64_t)h3*r0+(uint64_t)h4*s4,
  d4=(uint64_t)h0*r4+(uint64_t)h1*r3+(uint64_t)h2*r2+(uint64_t)h3*r1+(uint64_t)h4*r0,c;
  c=d0>>26;h0=d0&0x3ffffff;d1+=c;c=d1>>26;h1=d1&0x3ffffff;d2+=c;c=d2>>26;h2=d2&0x3ffffff;d3+=c;c=d3>>26;h3=d3&0x3ffffff;d4+=c;c=d4>>26;h4=d4&0x3ffffff;h0+=c*5;c=h0>>26;h0&=0x3ffffff;h1+=c;}
 uint32_t c;c=h1>>26;h1&=0x3ffffff;h2+=c;c=h2>>26;h2&=0x3ffffff;h3+=c;c=h3>>26;h3&=0x3ffffff;h4+=c;c=h4>>26;h4&=0x3ffffff;h0+=c*5;c=h0>>26;h0&=0x3ffffff;h1+=c;
 uint32_t g0=h0+5;c=g0>>26;g0&=0x3ffffff;uint32_t g1=h1+c;c=g1>>26;g1&=0x3ffffff;uint32_t g2=h2+c;c=g2>>26;g2&=0x3ffffff;uint32_t g3=h3+c;c=g3>>26;g3&=0x3ffffff;uint32_t g4=h4+c-(1u<<26);
 if(!(g4>>31)){h0=g0;h1=g1;h2=g2;h3=g3;h4=g4&0x3ffffff;}
 uint32_t f[4]={h0|(h1<<26),(h1>>6)|(h2<<20),(h2>>12)|(h3<<14),(h3>>18)|(h4<<8)};uint64_t a=0;
 for(int i=0;i<4;i++){a+=(uint64_t)f[i]+L32(key+16+4*i);S32(tag+4*i,(uint32_t)a);a>>=32;}}
