#include "ref.h"
#include <cstdlib>
namespace ref {
struct SboxRow{const char*name;const char*row[8];}; 
#define TABLES_WANT_CIPHER
#include "tables.h"
const CurveRow*curve_rows(size_t&n){n=sizeof CURVES/sizeof*CURVES;return CURVES;}
std::string tohex(const uint8_t*p,size_t n){static const char*d="0123456789abcdef";std::string s;for(size_t i=0;i<n;i++){s+=d[p[i]>>4];s+=d[p[i]&15];}return s;}
std::string tohex(const Bytes&b){return tohex(b.data(),b.size());}
static int hv(char c){return c<='9'?c-'0':(c|32)-'a'+10;}
Bytes unhex(const std::string&s){Bytes r;for(size_t i=0;i+1<s.size();i+=2)r.push_back(hv(s[i])*16+hv(s[i+1]));return r;}
Bytes cat(const Bytes&a,const Bytes&b){Bytes r(a);r.insert(r.end(),b.begin(),b.end());return r;}
Bytes sub(const Bytes&a,size_t off,size_t n){if(off>a.size())off=a.size();if(n>a.size()-off)n=a.size()-off;return Bytes(a.begin()+off,a.begin()+off+n);}
void secure_be_inc(uint8_t*p,size_t n){while(n--)if(++p[n])break;}
static uint32_t ld32(const uint8_t*p){return p[0]|p[1]<<8|p[2]<<16|(uint32_t)p[3]<<24;}
static void st32(uint8_t*p,uint32_t v){p[0]=v;p[1]=v>>8;p[2]=v>>16;p[3]=v>>24;}
static uint32_t lb32(const uint8_t*p){return p[3]|p[2]<<8|p[1]<<16|(uint32_t)p[0]<<24;}
static void sb32(uint8_t*p,uint32_t v){p[3]=v;p[2]=v>>8;p[1]=v>>16;p[0]=v>>24;}
// ---------------- GOST 28147-89
int sbox_count(){return sizeof(SBOXES)/sizeof(SBOXES[0]);} const char*sbox_name(int i){return SBOXES[i].name;}
int sbox_by_name(const char*n){for(int i=0;i<sbox_count();i++)if(!strcmp(n,SBOXES[i].name))return i;abort();}
void sbox_row(int s,int k,uint8_t o[16]){for(int i=0;i<16;i++)o[i]=hv(SBOXES[s].row[k-1][i]);}
Gost89::Gost89(int s,bool b):be(b){ uint8_t r[8][16];for(int k=0;k<8;k++)sbox_row(s,k+1,r[k]);
 for(int j=0;j<4;j++)for(int x=0;x<256;x++){uint32_t v=(uint32_t)(r[2*j][x&15]|r[2*j+1][x>>4]<<4)<<(8*j);T[j][x]=v<<11|v>>21;} memset(K,0,sizeof K);}
void Gost89::key(const uint8_t k[32]){for(int i=0;i<8;i++)K[i]=be?lb32(k+4*i):ld32(k+4*i);}
void Gost89::keybytes(uint8_t k[32]) const{for(int i=0;i<8;i++)be?sb32(k+4*i,K[i]):st32(k+4*i,K[i]);}
#define GF(x) (T[0][(x)&255]^T[1][((x)>>8)&255]^T[2][((x)>>16)&255]^T[3][(x)>>24])
void Gost89::enc(const uint8_t*in,uint8_t*out) const{
 uint32_t a,b; if(be){a=lb32(in+4);b=lb32(in);}else{a=ld32(in);b=ld32(in+4);}
 for(int i=0;i<32;i++){uint32_t k=i<24?K[i&7]:K[7-(i&7)],t=a+k;t=b^GF(t);b=a;a=t;}
 if(be){sb32(out,a);sb32(out+4,b);}else{st32(out,b);st32(out+4,a);} }
void Gost89::dec(const uint8_t*in,uint8_t*out) const{
 uint32_t a,b; if(be){a=lb32(in+4);b=lb32(in);}else{a=ld32(in);b=ld32(in+4);}
 for(int i=0;i<32;i++){uint32_t k=i<8?K[i&7]:K[7-(i&7)],t=a+k;t=b^GF(t);b=a;a=t;}
 if(be){sb32(out,a);sb32(out+4,b);}else{st32(out,b);st32(out+4,a);} }
void Gost89::mac16(uint8_t st[8],const uint8_t blk[8]) const{
 uint32_t a=ld32(st)^ld32(blk),b=ld32(st+4)^ld32(blk+4);
 for(int i=0;i<16;i++){uint32_t t=a+K[i&7];t=b^GF(t);b=a;a=t;}
 st32(st,a);st32(st+4,b); }
// ---------------- Kuznyechik
static uint8_t gmul(uint8_t a,uint8_t b){unsigned r=0,x=a;while(b){if(b&1)r^=x;x<<=1;if(x&256)x^=0x1c3;b>>=1;}return r;}
static void kR(uint8_t*a){uint8_t x=0;for(int i=0;i<16;i++)x^=gmul(a[i],LVEC[i]);memmove(a+1,a,15);a[0]=x;}
static void kRi(uint8_t*a){uint8_t first=a[0];memmove(a,a+1,15);a[15]=first;uint8_t x=0;for(int i=0;i<16;i++)x^=gmul(a[i],LVEC[i]);a[15]=x;}
struct KTab{uint8_t L[16][256][16],Li[16][256][16],iPI[256];KTab(){for(int i=0;i<256;i++)iPI[PI[i]]=i;
 for(int p=0;p<16;p++)for(int v=0;v<256;v++){uint8_t t[16]={0};t[p]=v;for(int i=0;i<16;i++)kR(t);memcpy(L[p][v],t,16);memset(t,0,16);t[p]=v;for(int i=0;i<16;i++)kRi(t);memcpy(Li[p][v],t,16);}}};
static const KTab&kt(){static KTab t;return t;}
static inline void x16(uint8_t*a,const uint8_t*b){uint64_t x[2],y[2];memcpy(x,a,16);memcpy(y,b,16);x[0]^=y[0];x[1]^=y[1];memcpy(a,x,16);}
static void kLS(uint8_t*a){const KTab&t=kt();uint8_t r[16]={0};for(int i=0;i<16;i++)x16(r,t.L[i][PI[a[i]]]);memcpy(a,r,16);}
void Kuzn::key(const uint8_t k[32]){uint8_t a[16],b[16];memcpy(a,k,16);memcpy(b,k+16,16);memcpy(rk[0],a,16);memcpy(rk[1],b,16);
 for(int i=0;i<4;i++){for(int j=0;j<8;j++){uint8_t c[16]={0};c[15]=8*i+j+1;const KTab&t=kt();uint8_t C[16];memcpy(C,t.L[15][c[15]],16);
  uint8_t n[16];memcpy(n,a,16);x16(n,C);kLS(n);x16(n,b);memcpy(b,a,16);memcpy(a,n,16);}memcpy(rk[2*i+2],a,16);memcpy(rk[2*i+3],b,16);}}
void Kuzn::enc(const uint8_t*in,uint8_t*out) const{uint8_t a[16];memcpy(a,in,16);for(int i=0;i<9;i++){x16(a,rk[i]);kLS(a);}x16(a,rk[9]);memcpy(out,a,16);}
void Kuzn::dec(const uint8_t*in,uint8_t*out) const{const KTab&t=kt();uint8_t a[16];memcpy(a,in,16);for(int i=9;i>0;i--){x16(a,rk[i]);uint8_t r[16]={0};for(int j=0;j<16;j++)x16(r,t.Li[j][a[j]]);for(int j=0;j<16;j++)a[j]=t.iPI[r[j]];}x16(a,rk[0]);memcpy(out,a,16);}
std::unique_ptr<BlockCipher> make_magma(){return std::unique_ptr<BlockCipher>(new Magma);} std::unique_ptr<BlockCipher> make_kuzn(){return std::unique_ptr<BlockCipher>(new Kuzn);}
std::unique_ptr<BlockCipher> make_bc(bool k){return k?make_kuzn():make_magma();}
// ---------------- RFC 4357 modes
void cp_mesh(Gost89&c,uint8_t*iv){uint8_t nk[32];for(int i=0;i<4;i++)c.dec(MESHKEY+8*i,nk+8*i);c.key(nk);if(iv){uint8_t t[8];c.enc(iv,t);memcpy(iv,t,8);}}
Bytes gost89_cfb(int sb,bool mesh,const uint8_t*key,const uint8_t*iv0,const Bytes&in,bool enc){
 Gost89 c(sb);c.key(key);uint8_t iv[8];memcpy(iv,iv0,8);Bytes out(in.size());uint8_t g[8];
 for(size_t i=0;i<in.size();i++){ if(i%8==0){ if(mesh&&i&&i%1024==0)cp_mesh(c,iv); c.enc(iv,g);} out[i]=in[i]^g[i%8]; iv[i%8]=enc?out[i]:in[i]; }
 return out; }
static void cntnext(const Gost89&c,uint8_t st[8],uint8_t g[8]){ uint32_t a=ld32(st),b=ld32(st+4); a+=0x01010101u; uint64_t s=(uint64_t)b+0x01010104u; b=(uint32_t)s; if(s>>32)b+=1; // mod 2^32-1
 st32(st,a);st32(st+4,b);c.enc(st,g);}
Bytes gost89_cnt(int sb,bool mesh,const uint8_t*key,const uint8_t*iv0,const Bytes&in){
 Gost89 c(sb);c.key(key);uint8_t st[8],g[8];c.enc(iv0,st);Bytes out(in.size());
 for(size_t i=0;i<in.size();i++){ if(i%8==0){ if(mesh&&i&&i%1024==0){ cp_mesh(c,st); } cntnext(c,st,g);} out[i]=in[i]^g[i%8]; }
 return out; }
void gost89_cnt_iv_for(int sb,const uint8_t*key,uint32_t n1,uint32_t n2,uint8_t iv[8]){Gost89 c(sb);c.key(key);uint8_t s[8];st32(s,n1);st32(s+4,n2);c.dec(s,iv);}
Bytes gost89_cbc_raw(int sb,bool mesh,const uint8_t*key,const uint8_t*iv0,const Bytes&in,bool enc){
 Gost89 c(sb);c.key(key);uint8_t iv[8];memcpy(iv,iv0,8);Bytes out(in.size());
 for(size_t i=0;i+8<=in.size();i+=8){ if(mesh&&i&&i%1024==0)cp_mesh(c,iv);
  uint8_t t[8]; if(enc){for(int j=0;j<8;j++)t[j]=in[i+j]^iv[j];c.enc(t,&out[i]);memcpy(iv,&out[i],8);} else {c.dec(&in[i],t);for(int j=0;j<8;j++)out[i+j]=t[j]^iv[j];memcpy(iv,&in[i],8);} }
 return out; }
Bytes gost89_mac(int sb,bool mesh,const uint8_t*key,const uint8_t*iv,const Bytes&m,size_t size){
 Gost89 c(sb);c.key(key);uint8_t st[8]={0};if(iv)memcpy(st,iv,8);
 Bytes p(m); if(p.size()%8)p.resize((p.size()+7)/8*8); if(!m.empty()&&p.size()==8)p.resize(16); // at least two blocks
 for(size_t i=0;i<p.size();i+=8){ if(mesh&&i&&i%1024==0)cp_mesh(c,nullptr); c.mac16(st,&p[i]); }
 return Bytes(st,st+size); }
// ---------------- GOST R 34.13
Bytes pkcs7(const Bytes&m,size_t bs){Bytes r(m);size_t n=bs-m.size()%bs;r.insert(r.end(),n,(uint8_t)n);return r;}
Bytes ecb(const BlockCipher&c,const Bytes&in,bool enc){Bytes o(in.size());for(size_t i=0;i+c.bs()<=in.size();i+=c.bs())enc?c.enc(&in[i],&o[i]):c.dec(&in[i],&o[i]);return o;}
Bytes cbc(const BlockCipher&c,const uint8_t*iv0,const Bytes&in,bool enc){size_t b=c.bs();Bytes o(in.size()),iv(iv0,iv0+b);uint8_t t[16];
 for(size_t i=0;i+b<=in.size();i+=b){if(enc){for(size_t j=0;j<b;j++)t[j]=in[i+j]^iv[j];c.enc(t,&o[i]);iv.assign(&o[i],&o[i]+b);}else{c.dec(&in[i],t);for(size_t j=0;j<b;j++)o[i+j]=t[j]^iv[j];iv.assign(&in[i],&in[i]+b);}}return o;}
Bytes cfb(const BlockCipher&c,const uint8_t*iv0,const Bytes&in,bool enc){size_t b=c.bs();Bytes o(in.size()),iv(iv0,iv0+b);uint8_t g[16];
 for(size_t i=0;i<in.size();i++){if(i%b==0)c.enc(iv.data(),g);o[i]=in[i]^g[i%b];iv[i%b]=enc?o[i]:in[i];}return o;}
Bytes ofb(const BlockCipher&c,const uint8_t*iv0,const Bytes&in){size_t b=c.bs();Bytes o(in.size());uint8_t g[16];memcpy(g,iv0,b);
 for(size_t i=0;i<in.size();i++){if(i%b==0){uint8_t t[16];c.enc(g,t);memcpy(g,t,b);}o[i]=in[i]^g[i%b];}return o;}
Bytes ctr(const BlockCipher&c,const uint8_t*c0,const Bytes&in){size_t b=c.bs();Bytes o(in.size());uint8_t k[16],g[16];memcpy(k,c0,b);
 for(size_t i=0;i<in.size();i++){if(i%b==0){c.enc(k,g);secure_be_inc(k,b);}o[i]=in[i]^g[i%b];}return o;}
void acpkm_next(BlockCipher&c,uint8_t key[32]){uint8_t d[32],n[32];for(int i=0;i<32;i++)d[i]=0x80+i;for(size_t i=0;i<32;i+=c.bs())c.enc(d+i,n+i);memcpy(key,n,32);c.key(key);}
Bytes ctr_acpkm(bool kz,const uint8_t*key0,const uint8_t*c0,size_t sec,const Bytes&in){auto c=make_bc(kz);size_t b=c->bs();uint8_t key[32];memcpy(key,key0,32);c->key(key);
 Bytes o(in.size());uint8_t k[16],g[16];memcpy(k,c0,b);
 for(size_t i=0;i<in.size();i++){if(sec&&i&&i%sec==0)acpkm_next(*c,key);if(i%b==0){c->enc(k,g);secure_be_inc(k,b);}o[i]=in[i]^g[i%b];}return o;}
static void dbl(uint8_t*p,size_t b){int c=p[0]>>7;for(size_t i=0;i<b;i++)p[i]=p[i]<<1|(i+1<b?p[i+1]>>7:0);if(c)p[b-1]^=b==8?0x1b:0x87;}
static Bytes omac_last(const BlockCipher&c,Bytes st,const Bytes&last,const Bytes*given){size_t b=c.bs();Bytes k(b,0);if(given)k=*given;else{c.enc(k.data(),k.data());dbl(k.data(),b);}
 Bytes l(last);if(l.size()<b){l.push_back(0x80);l.resize(b,0);dbl(k.data(),b);}
 for(size_t i=0;i<b;i++)st[i]^=l[i]^k[i];c.enc(st.data(),st.data());return st;}
Bytes omac(const BlockCipher&c,const Bytes&m){size_t b=c.bs();size_t full=m.empty()?0:(m.size()-1)/b;Bytes st(b,0);
 for(size_t i=0;i<full;i++){for(size_t j=0;j<b;j++)st[j]^=m[i*b+j];c.enc(st.data(),st.data());}
 return omac_last(c,st,sub(m,full*b,b),nullptr);}
Bytes acpkm_master(const uint8_t*key,size_t tstar,size_t len){uint8_t c0[16];memset(c0,0,16);memset(c0,0xff,8);return ctr_acpkm(true,key,c0,tstar,Bytes(len,0));}
Bytes omac_acpkm(const uint8_t*key,size_t N,size_t T,const Bytes&m){const size_t b=16;size_t nb=m.empty()?1:(m.size()+b-1)/b;
 size_t secblocks=N/b;size_t l=(nb+secblocks-1)/secblocks;Bytes km=acpkm_master(key,T,l*48);
 Bytes st(b,0);Kuzn c;
 for(size_t i=0;i<nb;i++){size_t s=i/secblocks;if(i%secblocks==0)c.key(&km[s*48]);
  if(i+1<nb){for(size_t j=0;j<b;j++)st[j]^=m[i*b+j];c.enc(st.data(),st.data());}
  else{Bytes K1=sub(km,s*48+32,16);return omac_last(c,st,sub(m,i*b,b),&K1);}}
 abort();}
// ---------------- MGM, RFC 9058
static void gfmul(const uint8_t*x,const uint8_t*y,uint8_t*z,size_t b){uint8_t r[16]={0},a[16];memcpy(a,x,b); // polynomial basis, MSB first
 for(size_t i=0;i<8*b;i++){ // bit i of y counted from least significant
  size_t byte=b-1-i/8;if(y[byte]>>(i%8)&1)for(size_t j=0;j<b;j++)r[j]^=a[j];dbl(a,b);}memcpy(z,r,b);}
void gf_mul(const uint8_t*x,const uint8_t*y,uint8_t*z,size_t b){gfmul(x,y,z,b);}
MgmOut mgm(const BlockCipher&c,const Bytes&nonce,const Bytes&aad,const Bytes&in,bool enc){size_t b=c.bs(),h=b/2;MgmOut o;o.ct.resize(in.size());
 Bytes n(nonce);n[0]&=0x7f;Bytes Y(b),Z(b),zn(n);zn[0]|=0x80;c.enc(n.data(),Y.data());c.enc(zn.data(),Z.data());uint8_t g[16];
 for(size_t i=0;i<in.size();i++){if(i%b==0){c.enc(Y.data(),g);secure_be_inc(Y.data()+h,h);}o.ct[i]=in[i]^g[i%b];}
 const Bytes&C=enc?o.ct:in;Bytes sum(b,0);
 auto absorb=[&](const uint8_t*p,size_t len){uint8_t blk[16]={0};memcpy(blk,p,len);uint8_t H[16],t[16];c.enc(Z.data(),H);gfmul(H,blk,t,b);for(size_t j=0;j<b;j++)sum[j]^=t[j];secure_be_inc(Z.data(),h);};
 for(size_t i=0;i<aad.size();i+=b)absorb(&aad[i],aad.size()-i<b?aad.size()-i:b);
 for(size_t i=0;i<C.size();i+=b)absorb(&C[i],C.size()-i<b?C.size()-i:b);
 uint8_t len[16]={0};uint64_t la=aad.size()*8ull,lc=C.size()*8ull;for(size_t i=0;i<h;i++){len[h-1-i]=i<8?la>>(8*i):0;len[b-1-i]=i<8?lc>>(8*i):0;}
 absorb(len,b);o.tag.resize(b);c.enc(sum.data(),o.tag.data());return o;}
// ---------------- Streebog
static uint64_t SL[8][256];static bool slok=false;
static void slinit(){if(slok)return;for(int i=0;i<8;i++)for(int v=0;v<256;v++){uint64_t r=0;for(int b=0;b<8;b++)if(PI[v]>>b&1)r^=STREEBOG_A[i*8+7-b];SL[i][v]=r;}slok=true;}
struct W512{uint64_t w[8];};
static W512 xorw(const W512&a,const W512&b){W512 r;for(int i=0;i<8;i++)r.w[i]=a.w[i]^b.w[i];return r;}
static W512 LPS(const W512&a){W512 r;for(int i=0;i<8;i++){uint64_t v=0;for(int j=0;j<8;j++)v^=SL[j][a.w[j]>>(8*i)&255];r.w[i]=v;}return r;}
static void addw(W512&a,const W512&b){unsigned __int128 c=0;for(int i=0;i<8;i++){c+=(unsigned __int128)a.w[i]+b.w[i];a.w[i]=(uint64_t)c;c>>=64;}}
static W512 gN(const W512&h,const W512&m,const W512&N){W512 K=LPS(xorw(h,N)),s=m;for(int i=0;i<12;i++){s=LPS(xorw(s,K));W512 c;memcpy(c.w,STREEBOG_C[i],64);K=LPS(xorw(K,c));}s=xorw(s,K);return xorw(xorw(s,h),m);}
struct Streebog:Hash{int bits;W512 h,N,S;uint8_t buf[64];size_t n=0;
 Streebog(int b):bits(b){slinit();memset(&h,b==256?1:0,64);memset(&N,0,64);memset(&S,0,64);}
 static W512 ld(const uint8_t*p){W512 r;for(int i=0;i<8;i++){uint64_t v=0;for(int j=7;j>=0;j--)v=v<<8|p[8*i+j];r.w[i]=v;}return r;}
 void blk(const uint8_t*p,unsigned nb){W512 m=ld(p);h=gN(h,m,N);W512 l={{nb}};addw(N,l);addw(S,m);}
 void upd(const uint8_t*p,size_t len)override{while(len){if(n==64){blk(buf,512);n=0;}size_t k=64-n<len?64-n:len;memcpy(buf+n,p,k);n+=k;p+=k;len-=k;} if(n==64){blk(buf,512);n=0;}}
 Bytes fin()override{uint8_t l[64]={0};memcpy(l,buf,n);l[n]=1;blk(l,n*8);W512 z={{0}};h=gN(h,N,z);h=gN(h,S,z);Bytes o(64);for(int i=0;i<64;i++)o[i]=h.w[i/8]>>(8*(i%8));return bits==512?o:sub(o,32,32);}
 size_t size()const override{return bits/8;} size_t block()const override{return 64;} std::unique_ptr<Hash> clone()const override{return std::unique_ptr<Hash>(new Streebog(*this));}};
std::unique_ptr<Hash> streebog(int b){return std::unique_ptr<Hash>(new Streebog(b));}
// ---------------- GOST R 34.11-94 (RFC 5831)
struct Gost94:Hash{int sb;Gost89 ciph;uint8_t H[32],S[32],buf[32];size_t n=0;unsigned __int128 bits=0;
 Gost94(int s):sb(s),ciph(s){memset(H,0,32);memset(S,0,32);}
 static void A(uint8_t*y){uint8_t t[8];for(int i=0;i<8;i++)t[i]=y[i]^y[8+i];memmove(y,y+8,24);memcpy(y+24,t,8);} // y1||y2||.. little endian: (y1^y2)|y4|y3|y2
 static void P(const uint8_t*w,uint8_t*k){for(int i=0;i<4;i++)for(int j=0;j<8;j++)k[i+4*j]=w[8*i+j];}
 static void psi(uint8_t*y){uint8_t a=y[0]^y[2]^y[4]^y[6]^y[24]^y[30],b=y[1]^y[3]^y[5]^y[7]^y[25]^y[31];memmove(y,y+2,30);y[30]=a;y[31]=b;}
 void step(const uint8_t*m){static const uint8_t C3[32]={0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff};
  uint8_t U[32],V[32],W[32],K[32],s[32];memcpy(U,H,32);memcpy(V,m,32);
  for(int i=0;i<4;i++){ if(i){A(U);if(i==2)for(int j=0;j<32;j++)U[j]^=C3[j];A(V);A(V);} for(int j=0;j<32;j++)W[j]=U[j]^V[j];P(W,K);ciph.key(K);ciph.enc(H+8*i,s+8*i);}
  for(int i=0;i<12;i++)psi(s);for(int j=0;j<32;j++)s[j]^=m[j];psi(s);for(int j=0;j<32;j++)s[j]^=H[j];for(int i=0;i<61;i++)psi(s);memcpy(H,s,32);}
 void add(const uint8_t*m){unsigned c=0;for(int i=0;i<32;i++){c+=S[i]+m[i];S[i]=c;c>>=8;}}
 void upd(const uint8_t*p,size_t len)override{bits+=(unsigned __int128)len*8;while(len){size_t k=32-n<len?32-n:len;memcpy(buf+n,p,k);n+=k;p+=k;len-=k;if(n==32){step(buf);add(buf);n=0;}}}
 Bytes fin()override{if(n||!bits){memset(buf+n,0,32-n);step(buf);add(buf);}uint8_t L[32]={0};for(int i=0;i<16;i++)L[i]=(uint8_t)(bits>>(8*i));step(L);step(S);return Bytes(H,H+32);}
 size_t size()const override{return 32;} size_t block()const override{return 32;} std::unique_ptr<Hash> clone()const override{return std::unique_ptr<Hash>(new Gost94(*this));}};
std::unique_ptr<Hash> gost94(int s){return std::unique_ptr<Hash>(new Gost94(s));}
std::unique_ptr<Hash> mkhash(HashId i){switch(i){case H_94:return gost94(sbox_by_name("GostR3411_94_CryptoPro"));case H_94TEST:return gost94(sbox_by_name("GostR3411_94_Test"));case H_12_256:return streebog(256);default:return streebog(512);}}
Bytes hash(HashId i,const Bytes&m){auto h=mkhash(i);h->upd(m.data(),m.size());return h->fin();}
Bytes hmac(HashId id,const Bytes&key,const Bytes&msg){auto h=mkhash(id);size_t B=h->block();Bytes k(key);if(k.size()>B)k=hash(id,k);k.resize(B,0);Bytes i(k),o(k);for(auto&x:i)x^=0x36;for(auto&x:o)x^=0x5c;return hash(id,cat(o,hash(id,cat(i,msg))));}
Bytes pbkdf2(HashId id,const Bytes&pw,const Bytes&salt,unsigned it,size_t len){Bytes out;for(uint32_t i=1;out.size()<len;i++){Bytes s(salt);for(int j=3;j>=0;j--)s.push_back(i>>(8*j));Bytes u=hmac(id,pw,s),t=u;for(unsigned k=1;k<it;k++){u=hmac(id,pw,u);for(size_t j=0;j<t.size();j++)t[j]^=u[j];}out=cat(out,t);}out.resize(len);return out;}
// ---------------- key management
Bytes kdf_tree(const Bytes&key,const Bytes&label,const Bytes&seed,size_t outlen,unsigned R){Bytes out;uint64_t L=outlen*8;Bytes Lb;for(int i=7;i>=0;i--){uint8_t v=L>>(8*i);if(v||!Lb.empty())Lb.push_back(v);}
 for(uint32_t i=1;out.size()<outlen;i++){Bytes m;for(int j=R-1;j>=0;j--)m.push_back(j<4?i>>(8*j):0);m=cat(m,label);m.push_back(0);m=cat(m,seed);m=cat(m,Lb);out=cat(out,hmac(H_12_256,key,m));}out.resize(outlen);return out;}
Bytes tlstree(bool kz,const uint8_t key[32],uint64_t seq){uint64_t C[3];if(kz){C[0]=0xFFFFFFFF00000000ull;C[1]=0xFFFFFFFFFFF80000ull;C[2]=0xFFFFFFFFFFFFFFC0ull;}else{C[0]=0xFFFFFFC000000000ull;C[1]=0xFFFFFFFFFE000000ull;C[2]=0xFFFFFFFFFFFFF000ull;}
 Bytes k(key,key+32);const char*lab[3]={"level1","level2","level3"};for(int i=0;i<3;i++){uint64_t s=seq&C[i];Bytes sd;for(int j=7;j>=0;j--)sd.push_back(s>>(8*j));Bytes l((const uint8_t*)lab[i],(const uint8_t*)lab[i]+6);k=kdf_tree(k,l,sd,32,1);}return k;}
Bytes kexp15(bool kz,const uint8_t ck[32],const uint8_t mk[32],const Bytes&iv,const Bytes&key){auto c=make_bc(kz);size_t b=c->bs();c->key(mk);Bytes mac=omac(*c,cat(iv,key));c->key(ck);Bytes c0(iv);c0.resize(b,0);return ctr(*c,c0.data(),cat(key,mac));}
void cp_diversify(int sb,const uint8_t kek[32],const uint8_t ukm[8],uint8_t out[32]){Bytes k(kek,kek+32);for(int i=0;i<8;i++){uint32_t s1=0,s2=0;for(int j=0;j<8;j++){uint32_t w=ld32(&k[4*j]);if(ukm[i]>>j&1)s1+=w;else s2+=w;}uint8_t iv[8];st32(iv,s1);st32(iv+4,s2);k=gost89_cfb(sb,false,k.data(),iv,k,true);}memcpy(out,k.data(),32);}
Bytes cp_wrap(int sb,bool div,const uint8_t kek[32],const uint8_t ukm[8],const uint8_t sk[32]){uint8_t k[32];if(div)cp_diversify(sb,kek,ukm,k);else memcpy(k,kek,32);Gost89 c(sb);c.key(k);Bytes o(ukm,ukm+8);o.resize(44);for(int i=0;i<4;i++)c.enc(sk+8*i,&o[8+8*i]);Bytes m=gost89_mac(sb,false,k,ukm,Bytes(sk,sk+32),4);memcpy(&o[40],m.data(),4);return o;}
// ---------------- DER
Bytes der(uint8_t tag,const Bytes&c){Bytes r{tag};size_t n=c.size();if(n<128)r.push_back(n);else if(n<256){r.push_back(0x81);r.push_back(n);}else if(n<65536){r.push_back(0x82);r.push_back(n>>8);r.push_back(n);}else{r.push_back(0x83);r.push_back(n>>16);r.push_back(n>>8);r.push_back(n);}return cat(r,c);}
Bytes der_seq(std::initializer_list<Bytes> l){Bytes c;for(auto&x:l)c=cat(c,x);return der(0x30,c);}
Bytes der_int(const Bytes&be){Bytes b(be);while(b.size()>1&&b[0]==0)b.erase(b.begin());if(b.empty())b.push_back(0);if(b[0]&0x80)b.insert(b.begin(),0);return der(2,b);}
Bytes der_oid(const std::string&s){std::vector<uint64_t> v;uint64_t a=0;for(char ch:s+"."){if(ch=='.'){v.push_back(a);a=0;}else a=a*10+ch-'0';}Bytes c;auto put=[&](uint64_t x){Bytes t;do{t.insert(t.begin(),(x&127)|(t.empty()?0:128));x>>=7;}while(x);c=cat(c,t);};put(v[0]*40+v[1]);for(size_t i=2;i<v.size();i++)put(v[i]);return der(6,c);}
Bytes der_octet(const Bytes&b){return der(4,b);} Bytes der_bits(const Bytes&b){return der(3,cat(Bytes{0},b));}
}
