// H01 Streebog, H02 GOST R 34.11-94, H03 digest contexts / HMAC / PBKDF2
#include "env.h"
#include "wide.h"
#include <openssl/hmac.h>
#include <openssl/kdf.h>
extern "C" {
#include "gosthash.h"
#include "gosthash2012.h"
struct pv { void*(*mk)(unsigned); void (*upd)(void*,const unsigned char*,size_t); void (*fin)(void*,unsigned char*); };
extern struct pv pv_portable, pv_noaddcarry, pv_plain;
}
using namespace ref;
static pbt::Rule r1("H01","message and partition drawn from the choice sequence (lengths biased to 0..70 and around multiples of 64; blocks crafted so the 512-bit checksum carries); non-trivial: longer than one block, or more than one update call, or crafted carry");
static pbt::Rule r2("H02","as H01 with 32-byte blocks, both S-box sets; non-trivial: longer than one block, several updates, or crafted 256-bit control-sum carry");
static pbt::Rule r3("H03","sequences of init/update/copy/final/reset over four contexts against per-context reference hashes; HMAC and PBKDF2 inputs; non-trivial: a context continued after a copy, a reused context, or an HMAC key longer than zero");
static const int NID_H[4]={NID_id_GostR3411_94,NID_undef,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512};
static Bytes evp_digest(const EVP_MD*md,const Bytes&m,const std::vector<size_t>&parts,size_t mis){
 EVP_MD_CTX*c=EVP_MD_CTX_new();REQUIRE(EVP_DigestInit_ex(c,md,eng())==1,"DigestInit failed %s",errs().c_str());size_t o=0;
 for(size_t p:parts){In in(sub(m,o,p),mis);REQUIRE(EVP_DigestUpdate(c,in.p,p)==1,"DigestUpdate failed");o+=p;}
 Buf out(EVP_MD_size(md));unsigned n=0;REQUIRE(EVP_DigestFinal_ex(c,out.p,&n)==1,"DigestFinal failed");REQUIRE(n==out.n,"digest length %u",n);Bytes r(out.p,out.p+n);EVP_MD_CTX_free(c);return r;}
// a message of 64-byte (or 32) blocks whose running little-endian word sums hit carry chains
static Bytes carry_msg(Src&s,size_t B){size_t W=B/8;std::vector<uint64_t> sum(W,0);Bytes m;size_t nb=2+s.draw(4);
 for(size_t b=0;b<nb;b++){std::vector<uint64_t> t(W),blk(W);
  for(size_t i=0;i<W;i++)switch(s.draw(6)){case 0:t[i]=~0ull;break;case 1:t[i]=0;break;case 2:t[i]=~0ull-1;break;case 3:t[i]=1;break;case 4:t[i]=0xffffffffull<<32;break;default:t[i]=s.draw(0);}
  if(s.draw(3)==0){for(size_t i=0;i<W;i++)blk[i]=t[i];} // block itself patterned: sum carries where previous sum is all ones
  else{unsigned br=0;for(size_t i=0;i<W;i++){unsigned __int128 d=(unsigned __int128)t[i]-sum[i]-br;blk[i]=(uint64_t)d;br=(d>>64)?1:0;}}
  unsigned __int128 c=0;for(size_t i=0;i<W;i++){c+=(unsigned __int128)sum[i]+blk[i];sum[i]=(uint64_t)c;c>>=64;}
  for(size_t i=0;i<W;i++)for(int j=0;j<8;j++)m.push_back(blk[i]>>(8*j));}
 if(s.flip()){Bytes tail=s.bytes(s.draw(B));m=cat(m,tail);} return m;}
static void cmp(const Bytes&got,const Bytes&exp,const char*what,const Bytes&m){if(got!=exp)pbt::fail("%s: got %s expected %s for message of %zu bytes %s",what,hex(got,64).c_str(),hex(exp,64).c_str(),m.size(),hex(m,96).c_str());}

// ---- H01
SUB("H01",stream,16000,400000,256){ int bits=s.flip()?512:256;size_t max=s.chance(1,40)?200000:s.chance(1,8)?5000:700;Bytes m=s.bytes(s.len(max,{64,64,512,4096}));auto parts=s.split(m.size(),{64,64,63,65,128});size_t mis=s.draw(16);
 note("streebog-%d len=%zu updates=%zu misalign=%zu",bits,m.size(),parts.size(),mis);if(m.size()>64||parts.size()>1)nontrivial();label(m.size()%64==0?"len%64=0":m.size()%64>=56?"len%64>=56":"len other");label(parts.size()>1?"split":"single");
 HashId id=bits==512?H_12_512:H_12_256;cmp(evp_digest(digest(NID_H[id]),m,parts,mis),hash(id,m),"streebog",m);}
SUB("H01",carry,12000,300000,256){ int bits=s.flip()?512:256;Bytes m=carry_msg(s,64);auto parts=s.split(m.size(),{64,64,32,128});note("carry blocks=%zu msg=%s",m.size()/64,hex(m,200).c_str());nontrivial();
 HashId id=bits==512?H_12_512:H_12_256;cmp(evp_digest(digest(NID_H[id]),m,parts,s.draw(16)),hash(id,m),"streebog carry",m);}
SUB("H01",portable,9000,200000,256){ // portable / reference code paths of the same source
 unsigned bits=s.flip()?512:256;const char*nm;struct pv*v;switch(s.draw(3)){case 0:v=&pv_portable;nm="no-sse2";break;case 1:v=&pv_noaddcarry;nm="sse2,no-addcarry";break;default:v=&pv_plain;nm="no-sse2,no-addcarry";}
 bool carry=s.flip();Bytes m=carry?carry_msg(s,64):s.bytes(s.len(600,{64}));auto parts=s.split(m.size(),{64,63,128});note("%s %u len=%zu updates=%zu%s",nm,bits,m.size(),parts.size(),carry?" carry":"");if(m.size()>64||parts.size()>1)nontrivial();label(nm);
 void*c=v->mk(bits);size_t o=0;size_t mis=s.draw(9);for(size_t p:parts){In in(sub(m,o,p),mis);v->upd(c,in.p,p);o+=p;}Buf out(bits/8);v->fin(c,out.p);free(c);
 cmp(Bytes(out.p,out.p+bits/8),hash(bits==512?H_12_512:H_12_256,m),nm,m);}
SUB("H01",rawapi,6000,100000,256){ // library entry points, context memory reused without clearing
 static gost2012_hash_ctx*c=nullptr;if(!c){c=(gost2012_hash_ctx*)aligned_alloc(64,(sizeof(*c)+63)/64*64);memset(c,0xa7,sizeof *c);}
 size_t rounds=1+s.draw(3);for(size_t r=0;r<rounds;r++){unsigned bits=s.flip()?512:256;Bytes m=s.bytes(s.len(400,{64}));auto parts=s.split(m.size(),{64,63});init_gost2012_hash_ctx(c,bits);bool abandon=r+1<rounds&&s.chance(1,4);size_t o=0;
  for(size_t p:parts){In in(sub(m,o,p),s.draw(8));gost2012_hash_block(c,in.p,p);o+=p;}note("len=%zu/%zu%s",m.size(),parts.size(),abandon?" abandoned":"");if(abandon)continue;Buf out(bits/8);gost2012_finish_hash(c,out.p);cmp(Bytes(out.p,out.p+bits/8),hash(bits==512?H_12_512:H_12_256,m),"raw streebog",m);}
 if(rounds>1)nontrivial();}
static Bytes longblock(){Bytes b(1<<20);pbt::expand(0x1234567,b.data(),b.size());return b;}
SUB("H01",beyond_2_32_bits,1,4,1,300){ // bit counter beyond 2^32 (and all smaller powers): 512 MiB + tail. Reference digest computed once with ref/ (see DESIGN.md)
 uint64_t k=s.draw(4);Bytes b=longblock();EVP_MD_CTX*c=EVP_MD_CTX_new();bool five=k&1;EVP_DigestInit_ex(c,digest(five?NID_id_GostR3411_2012_512:NID_id_GostR3411_2012_256),eng());for(int i=0;i<513;i++)REQUIRE(EVP_DigestUpdate(c,b.data(),b.size())==1,"update");EVP_DigestUpdate(c,b.data(),77);uint8_t o[64];unsigned n;EVP_DigestFinal_ex(c,o,&n);EVP_MD_CTX_free(c);
 nontrivial();note("513 MiB + 77 bytes streebog-%s",five?"512":"256");std::string exp=five?"5531b9314894e12a7d95b7f9a37ff7fb6933c525adeb71c6c5510024a267a114faafc5ab0f13cdd8ed015a9626e6c2ac7b5d775fe99d5c371274933b893e3430":"5bf27e18b3acca5164999c875e45824e1039c4070d567aa9b66336f93798e3d1";REQUIRE(ref::tohex(o,n)==exp,"513 MiB message: got %s expected %s",ref::tohex(o,n).c_str(),exp.c_str());}
static void wide_digest(Src&s,const EVP_MD*md){ size_t n=wide_len(s);Bytes pre=s.bytes(s.draw(70));note("%zu bytes after %zu",n,pre.size());nontrivial();
 wide_update(n,pbt::thorough()?240:2,[&](const uint8_t*d,size_t n,size_t chunk){EVP_MD_CTX*c=EVP_MD_CTX_new();if(EVP_DigestInit_ex(c,md,eng())!=1||EVP_DigestUpdate(c,pre.data(),pre.size())!=1)throw 1;for(size_t o=0;o<n;o+=chunk)if(EVP_DigestUpdate(c,d+o,std::min(chunk,n-o))!=1)throw 1;Bytes r(EVP_MD_size(md));unsigned l=0;if(EVP_DigestFinal_ex(c,r.data(),&l)!=1)throw 1;EVP_MD_CTX_free(c);return r;}); }
SUB("H01",wide_update,12,16,1,900){ wide_digest(s,digest(NID_H[2+s.draw(2)])); }
SUB("H02",wide_update94,12,16,1,900){ wide_digest(s,digest(NID_H[0])); }
// ---- H02
static Bytes raw94(const Bytes&m,const std::vector<size_t>&parts,bool test,size_t mis){gost_hash_ctx c;memset(&c,0xa7,sizeof c);REQUIRE(init_gost_hash_ctx(&c,test?&GostR3411_94_TestParamSet:&GostR3411_94_CryptoProParamSet),"init");start_hash(&c);size_t o=0;for(size_t p:parts){In in(sub(m,o,p),mis);REQUIRE(hash_block(&c,in.p,p)==1,"hash_block");o+=p;}Buf out(32);REQUIRE(finish_hash(&c,out.p)==1,"finish");Bytes r(out.p,out.p+32);done_gost_hash_ctx(&c);return r;}
static void h94(Src&s,const Bytes&m,bool carry){auto parts=s.split(m.size(),{32,32,31,33,64});size_t mis=s.draw(9);unsigned how=s.draw(3);note("%s len=%zu updates=%zu%s",how==0?"evp":how==1?"raw-cryptopro":"raw-test",m.size(),parts.size(),carry?" carry":"");if(m.size()>32||parts.size()>1)nontrivial();label(m.size()%32==0?"len%32=0":"partial");
 Bytes got=how==0?evp_digest(digest(NID_id_GostR3411_94),m,parts,mis):raw94(m,parts,how==2,mis);cmp(got,hash(how==2?H_94TEST:H_94,m),"gost94",m);}
SUB("H02",stream94,16000,300000,256){size_t max=s.chance(1,60)?60000:s.chance(1,8)?3000:300;h94(s,s.bytes(s.len(max,{32,32,256,1024})),false);}
SUB("H02",carry94,10000,200000,256){h94(s,carry_msg(s,32),true);}
SUB("H02",len16,60,600,4){ // lengths around 2^16 bits / bytes and 2^24 bits
 static const size_t base[]={8191,65535,2097151};size_t L=base[s.draw(3)]-20+s.draw(45);if(L>100000&&!s.chance(1,4))L=65535-20+s.draw(45);h94(s,s.rnd(L),false);}
SUB("H02",beyond_2_32_bits94,1,1,1,600){ // uninstrumented helper (speed): 513 MiB + 77 bytes, reference digest computed once with ref/
 const char*p=getenv("PROG_long94");REQUIRE(p,"helper missing");FILE*f=popen(p,"r");char b[100]="";if(!fgets(b,100,f))b[0]=0;pclose(f);b[strcspn(b,"\n")]=0;nontrivial();note("513 MiB + 77 bytes gost94");
 REQUIRE(!strcmp(b,"4e441aff8f5b5b459da2ac1f3366318e93521969057ab49d0c814a8cb6e4f8fb"),"513 MiB message: got %s",b);}
// ---- H03
SUB("H03",histories,120000,2000000,512){
 struct C{EVP_MD_CTX*c=nullptr;std::unique_ptr<Hash> h;int id=-1;bool shared=false,reused=false;};C cs[4];for(auto&c:cs)c.c=EVP_MD_CTX_new();static const int ids[3]={H_12_256,H_12_512,H_94};
 size_t n=3+s.draw(28);bool nt=false;
 for(size_t k=0;k<n;k++){unsigned i=s.draw(4),op=s.weighted({6,12,5,6,1,1,1});C&c=cs[i];
  switch(op){
  case 0:{int id=ids[s.draw(3)];bool noimpl=c.id==id&&s.chance(1,4);if(c.h||c.reused)c.reused=true;note("init%u:%d%s",i,id,noimpl?"(null)":"");int r=noimpl?EVP_DigestInit_ex(c.c,NULL,NULL):s.flip()?EVP_DigestInit_ex(c.c,digest(NID_H[id]),eng()):EVP_DigestInit_ex(c.c,EVP_get_digestbynid(NID_H[id]),NULL);REQUIRE(r==1,"init failed %s",errs().c_str());c.h=mkhash((HashId)id);c.id=id;break;}
  case 1:{if(!c.h)break;Bytes d=s.bytes(s.len(300,{32,64}));note("upd%u:%zu",i,d.size());In in(d);REQUIRE(EVP_DigestUpdate(c.c,in.p,d.size())==1,"update");c.h->upd(d.data(),d.size());if(c.shared||c.reused)nt=true;break;}
  case 2:{unsigned j=s.draw(4);if(j==i||!c.h)break;note("copy%u->%u",i,j);REQUIRE((s.flip()?EVP_MD_CTX_copy_ex(cs[j].c,c.c):EVP_MD_CTX_copy(cs[j].c,c.c))==1,"copy %s",errs().c_str());cs[j].h=c.h->clone();cs[j].id=c.id;cs[j].shared=c.shared=true;break;}
  case 3:{if(!c.h)break;note("fin%u",i);Buf o(EVP_MD_CTX_size(c.c));unsigned l=0;REQUIRE((s.flip()?EVP_DigestFinal_ex(c.c,o.p,&l):EVP_DigestFinal(c.c,o.p,&l))==1,"final");Bytes e=c.h->fin();REQUIRE(l==e.size()&&!memcmp(o.p,e.data(),l),"context %u digest %s expected %s",i,hex(o.p,l,64).c_str(),hex(e,64).c_str());c.h.reset();if(EVP_MD_CTX_md(c.c)==NULL)c.id=-1;c.shared=false;c.reused=true;break;}
  case 4:note("reset%u",i);EVP_MD_CTX_reset(c.c);c.h.reset();c.id=-1;c.shared=false;break;
  case 5:note("free%u",i);EVP_MD_CTX_free(c.c);c.c=EVP_MD_CTX_new();c.h.reset();c.id=-1;c.shared=c.reused=false;break;
  case 6:{unsigned j=s.draw(4);if(j==i||!c.h)break;note("dupfree%u->%u",i,j); // move semantics: copy then free the original
    REQUIRE(EVP_MD_CTX_copy_ex(cs[j].c,c.c)==1,"copy");EVP_MD_CTX_free(c.c);c.c=EVP_MD_CTX_new();cs[j].h=std::move(c.h);cs[j].id=c.id;cs[j].shared=true;c.id=-1;c.shared=false;break;}
  }}
 for(unsigned i=0;i<4;i++){C&c=cs[i];if(c.h){uint8_t o[64];unsigned l=0;REQUIRE(EVP_DigestFinal_ex(c.c,o,&l)==1,"final");Bytes e=c.h->fin();REQUIRE(l==e.size()&&!memcmp(o,e.data(),l),"context %u final digest %s expected %s",i,hex(o,l,64).c_str(),hex(e,64).c_str());}EVP_MD_CTX_free(c.c);}
 if(nt)nontrivial();}
SUB("H03",hmac,40000,600000,256){static const int ids[3]={H_12_256,H_12_512,H_94};int id=ids[s.draw(3)];Bytes k=s.bytes(s.len(200,{32,64})),m=s.bytes(s.len(400,{32,64}));auto parts=s.split(m.size(),{64});note("hmac %d key=%zu msg=%zu",id,k.size(),m.size());if(k.size())nontrivial();label(k.size()>64?"key>block":k.size()==64||k.size()==32?"key=32/64":"key short");
 Bytes e=ref::hmac((HashId)id,k,m);uint8_t o[64];unsigned l=0;const EVP_MD*md=digest(NID_H[id]);In kin(k);
 if(s.flip()){HMAC_CTX*h=HMAC_CTX_new();REQUIRE(HMAC_Init_ex(h,kin.p,k.size(),md,eng())==1,"hmac init %s",errs().c_str());bool again=s.chance(1,3);if(again){HMAC_Update(h,(const uint8_t*)"junk",s.draw(5));if(s.flip())HMAC_Final(h,o,&l);REQUIRE(HMAC_Init_ex(h,NULL,0,NULL,NULL)==1,"hmac reinit");}
  size_t off=0;HMAC_CTX*h2=NULL;size_t cut=s.draw(parts.size()+1);for(size_t i=0;i<parts.size();i++){if(i==cut&&s.flip()){h2=HMAC_CTX_new();REQUIRE(HMAC_CTX_copy(h2,h)==1,"hmac copy");HMAC_CTX_free(h);h=h2;}In in(sub(m,off,parts[i]));HMAC_Update(h,in.p,parts[i]);off+=parts[i];}
  REQUIRE(HMAC_Final(h,o,&l)==1,"hmac final");HMAC_CTX_free(h);}
 else REQUIRE(HMAC(md,kin.p,k.size(),m.data(),m.size(),o,&l)!=NULL,"HMAC failed");
 REQUIRE(l==e.size()&&!memcmp(o,e.data(),l),"hmac got %s expected %s",hex(o,l,64).c_str(),hex(e,64).c_str());}
SUB("H03",pbkdf2,4000,60000,64){static const int ids[3]={H_12_256,H_12_512,H_94};int id=ids[s.draw(3)];Bytes p=s.bytes(1+s.len(90,{32,64})),salt=s.bytes(s.len(40,{8}));unsigned it=1+s.draw(4);size_t ol=1+s.len(150,{32,64});if(ol>160)ol=160;note("pbkdf2 %d pw=%zu salt=%zu it=%u out=%zu",id,p.size(),salt.size(),it,ol);nontrivial();
 Bytes e=ref::pbkdf2((HashId)id,p,salt,it,ol);Buf o(ol);REQUIRE(PKCS5_PBKDF2_HMAC((char*)p.data(),p.size(),salt.data(),salt.size(),it,digest(NID_H[id]),ol,o.p)==1,"PBKDF2 failed %s",errs().c_str());REQUIRE(!memcmp(o.p,e.data(),ol),"pbkdf2 differs: got %s expected %s",hex(o.p,ol).c_str(),hex(e).c_str());}
SUB("H03",sizes,3,3,1){static const int ids[3]={H_12_256,H_12_512,H_94};int id=ids[s.draw(3)];const EVP_MD*md=digest(NID_H[id]);auto h=mkhash((HashId)id);REQUIRE((size_t)EVP_MD_size(md)==h->size()&&(size_t)EVP_MD_block_size(md)==h->block(),"size/block");nontrivial();note("sizes %d",id);}
int main(int c,char**v){return pbt::run(c,v,env_setup);}
