// K01 CryptoPro key wrap, K02 KExp15/KImp15 and the wrap ciphers, K03 KDF_TREE and TLSTREE
#include "ciphers.h"
extern "C" {
#include "gost89.h"
#include "gost_keywrap.h"
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace cm;
static pbt::Rule r1("K01","KEK, UKM (biased to 0/ff bytes), session key, S-box set drawn; every case non-trivial");
static pbt::Rule r2("K02","shared key of drawn length, keys, IV, both ciphers; alterations by flips, truncation, extension, other keys and IVs; every case non-trivial");
static pbt::Rule r3("K03","key/label/seed lengths, output length, counter width; sequence numbers around every tree mask; non-trivial: output over one block, or sequence number above the lowest mask");
static gost_subst_block*boxes(int set){ static std::map<std::string,gost_subst_block*> m={{"GostR3411_94_Test",&GostR3411_94_TestParamSet},{"GostR3411_94_CryptoPro",&GostR3411_94_CryptoProParamSet},{"Gost28147_Test",&Gost28147_TestParamSet},{"CryptoPro_A",&Gost28147_CryptoProParamSetA},{"CryptoPro_B",&Gost28147_CryptoProParamSetB},{"CryptoPro_C",&Gost28147_CryptoProParamSetC},{"CryptoPro_D",&Gost28147_CryptoProParamSetD},{"TC26_Z",&Gost28147_TC26ParamSetZ}}; return m.at(sbox_name(set)); }
static void eq(const uint8_t*p,const Bytes&e,const char*w){if(memcmp(p,e.data(),e.size()))pbt::fail("%s: got %s expected %s",w,hex(p,e.size(),64).c_str(),hex(e,64).c_str());}
static void gctx(gost_ctx&c,int set,Src&s){gost_init(&c,boxes(set));if(s.flip()){Bytes k=s.bytes(32);gost_key(&c,k.data());}} // earlier use of the context must not matter
SUB("K01",wrap,30000,500000,512){ int set=s.draw(sbox_count());Bytes kek=s.bytes(32),ukm=s.bytes(8),sk=s.bytes(32);note("%s kek=%s ukm=%s",sbox_name(set),hex(kek).c_str(),hex(ukm).c_str());nontrivial();label(sbox_name(set));
 gost_ctx c;gctx(c,set,s);In ik(kek,s.draw(4)),iu(ukm,s.draw(4)),is(sk,s.draw(4));Buf d(32);keyDiversifyCryptoPro(&c,ik.p,iu.p,d.p);Bytes ed(32);cp_diversify(set,kek.data(),ukm.data(),ed.data());eq(d.p,ed,"diversified key");
 Buf w(44);REQUIRE(keyWrapCryptoPro(&c,ik.p,iu.p,is.p,w.p)==1,"wrap failed");Bytes e=cp_wrap(set,true,kek.data(),ukm.data(),sk.data());eq(w.p,e,"wrapped key");
 if(s.flip())gctx(c,set,s);Buf o(32);In iw(e,s.draw(4));REQUIRE(keyUnwrapCryptoPro(&c,ik.p,iw.p,o.p)==1,"unwrap of an unmodified blob failed");eq(o.p,sk,"unwrapped key"); }
SUB("K01",altered,20000,400000,512){ int set=s.draw(sbox_count());Bytes kek=s.rnd(32),ukm=s.rnd(8),sk=s.rnd(32);Bytes e=cp_wrap(set,true,kek.data(),ukm.data(),sk.data());nontrivial();
 int what=s.draw(3);if(what==0){size_t bit=s.draw(36*8);e[8+bit/8]^=1<<bit%8;note("flip bit %zu of key|mac",bit);}else if(what==1){size_t bit=s.draw(64);e[bit/8]^=1<<bit%8;note("flip bit %zu of UKM",bit);}else{size_t bit=s.draw(256);kek[bit/8]^=1<<bit%8;note("flip bit %zu of KEK",bit);}
 gost_ctx c;gctx(c,set,s);Buf o(32);REQUIRE(keyUnwrapCryptoPro(&c,kek.data(),e.data(),o.p)==0,"altered blob accepted"); }
// ---- K02
struct KE{bool z;Bytes ck,mk,iv,sk;int cn()const{return z?NID_grasshopper_ctr:NID_magma_ctr;}int mn()const{return z?NID_grasshopper_mac:NID_magma_mac;}size_t ml()const{return z?16:8;}Bytes ex()const{return kexp15(z,ck.data(),mk.data(),iv,sk);}};
static KE gen(Src&s,bool var){KE k;k.z=s.flip();k.ck=s.bytes(32);k.mk=s.bytes(32);k.iv=s.bytes(k.z?8:4);k.sk=s.bytes(var?1+s.draw(100):32);return k;}
SUB("K02",kexp15,16000,250000,256){ KE k=gen(s,s.flip());Bytes e=k.ex();nontrivial();note("%s shared=%zu",k.z?"kuznyechik":"magma",k.sk.size());label(k.z?"kuznyechik":"magma");
 size_t extra=s.flip()?0:s.draw(20);int ol=e.size()+extra;Buf o(e.size()+extra);In ic(k.ck),im(k.mk),iv(k.iv,s.draw(3)),is(k.sk,s.draw(3));
 REQUIRE(gost_kexp15(is.p,is.n,k.cn(),ic.p,k.mn(),im.p,iv.p,iv.n,o.p,&ol)==1,"kexp15: %s",errs().c_str());REQUIRE((size_t)ol==e.size(),"export length %d, expected %zu",ol,e.size());eq(o.p,e,"exported key");for(size_t i=e.size();i<o.n;i++)REQUIRE(o.p[i]==0xa5,"kexp15 wrote past the export");
 if(k.sk.size()==32){Buf q(32);In ie(e,s.draw(3));REQUIRE(gost_kimp15(ie.p,ie.n,k.cn(),ic.p,k.mn(),im.p,iv.p,iv.n,q.p)==1,"kimp15 of an export: %s",errs().c_str());eq(q.p,k.sk,"imported key");}
 if(s.chance(1,4)){int small=s.draw(e.size());Buf t(small);int l=small;REQUIRE(gost_kexp15(is.p,is.n,k.cn(),ic.p,k.mn(),im.p,iv.p,iv.n,t.p,&l)<=0,"kexp15 into %d bytes accepted",small);ERR_clear_error();}
 if(s.chance(1,6)){Bytes liv=s.bytes(17+s.draw(8));Buf t(e.size());int l=e.size();REQUIRE(gost_kexp15(is.p,is.n,k.cn(),ic.p,k.mn(),im.p,liv.data(),liv.size(),t.p,&l)<=0,"kexp15 accepted an IV of %zu bytes",liv.size());ERR_clear_error();}
 if(s.chance(1,8)){Buf t(80);int l=80;REQUIRE(gost_kexp15(is.p,is.n,s.pick({NID_grasshopper_cbc,NID_magma_cbc,NID_aes_256_ctr,0}),ic.p,k.mn(),im.p,iv.p,iv.n,t.p,&l)<=0,"unsupported cipher accepted");ERR_clear_error();} }
static std::string mutate(Src&s,KE&k,Bytes&e){ switch(s.weighted({4,2,2,1,1,1})){
 case 0:{size_t b=s.draw(e.size()*8);e[b/8]^=1<<b%8;return "bit flip";}
 case 1:{size_t n=s.draw(e.size());if(s.flip())n=e.size()-1-s.draw(4);e.resize(n);return "truncated to "+std::to_string(n);}
 case 2:{size_t n=1+s.draw(s.flip()?4:60);for(size_t i=0;i<n;i++)e.push_back(s.draw(3)?s.draw(256):0);return "extended by "+std::to_string(n);}
 case 3:{size_t b=s.draw(256);k.ck[b/8]^=1<<b%8;return "other cipher key";}
 case 4:{size_t b=s.draw(256);k.mk[b/8]^=1<<b%8;return "other mac key";}
 default:{size_t b=s.draw(k.iv.size()*8);k.iv[b/8]^=1<<b%8;return "other iv";}} }
SUB("K02",import_altered,16000,250000,256){ KE k=gen(s,false);Bytes e=k.ex();std::string m=mutate(s,k,e);note("%s %s",k.z?"kuznyechik":"magma",m.c_str());label(m.substr(0,5));nontrivial();Buf q(32);In ie(e);
 REQUIRE(gost_kimp15(ie.p,ie.n,k.cn(),k.ck.data(),k.mn(),k.mk.data(),k.iv.data(),k.iv.size(),q.p)<=0,"kimp15 accepted an export: %s",m.c_str());for(size_t i=0;i<32;i++)REQUIRE(q.p[i]==0xa5,"kimp15 returned key material it refused");ERR_clear_error(); }
SUB("K02",wrap_cipher,16000,250000,256){ // the EVP ciphers built on KImp15
 Ctx c;size_t rounds=1+s.draw(3);KE k=gen(s,false);bool first=true;nontrivial();
 for(size_t r=0;r<rounds;r++){ KE q=gen(s,false);bool rekey=first||q.z!=k.z||s.flip();if(rekey)k=q;else{k.iv=q.iv;k.sk=q.sk;if(k.z!=q.z)k.iv.resize(k.z?8:4);}first=false;
  Bytes e=k.ex();Bytes key=cat(k.mk,k.ck);KE was=k;std::string m;bool bad=s.chance(1,3);if(bad){KE t=k;Bytes e2=e;m=mutate(s,t,e2);if(t.ck!=k.ck||t.mk!=k.mk||t.iv!=k.iv){e=t.ex();m="export under "+m;}else e=e2;}
  note("%s %s%s",k.z?"kuznyechik":"magma",rekey?"key+iv ":"iv ",m.c_str());label(bad?"altered":"valid");
  if(rekey&&s.flip()){REQUIRE(EVP_DecryptInit_ex(c,cipher(k.z?NID_kuznyechik_kexp15:NID_magma_kexp15),eng(),key.data(),NULL)==1,"init key: %s",errs().c_str());REQUIRE(EVP_DecryptInit_ex(c,NULL,NULL,NULL,k.iv.data())==1,"init iv");}
  else REQUIRE(EVP_DecryptInit_ex(c,rekey?cipher(k.z?NID_kuznyechik_kexp15:NID_magma_kexp15):NULL,rekey?eng():NULL,rekey?key.data():NULL,k.iv.data())==1,"init: %s",errs().c_str());
  size_t full=32+k.ml();auto parts=s.split(e.size(),{8,16});size_t off=0,got=0;bool ok=true;Ctx d;EVP_CIPHER_CTX*w=c;
  Buf o(32+1);for(size_t n:parts){if(!n)continue;if(s.chance(1,8)&&w==(EVP_CIPHER_CTX*)c){REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"copy");w=d;}In in(sub(e,off,n));int ol=0;int rr=EVP_DecryptUpdate(w,o.p,&ol,in.p,n);off+=n;if(rr!=1){ok=false;ERR_clear_error();break;}REQUIRE(ol==0||ol==32,"update reported %d bytes",ol);if(ol){REQUIRE(off>=full,"key returned after only %zu of %zu bytes",off,full);got+=ol;}}
  if(ok){Buf f(0);int ol=0;if(EVP_DecryptFinal_ex(w,f.p,&ol)!=1){ok=false;ERR_clear_error();}else REQUIRE(ol==0,"final reported %d more bytes",ol);}
  if(bad)REQUIRE(!ok,"wrap cipher reported success for: %s",m.c_str());
  else{REQUIRE(ok&&got==32,"wrap cipher: unwrap failed or returned %zu bytes: %s",got,errs().c_str());eq(o.p,k.sk,"unwrapped key");} } }
// ---- K03
SUB("K03",kdf_tree,8000,150000,128){ Bytes key=s.bytes(s.flip()?32:s.draw(130)),label_=s.bytes(s.draw(20)),seed=s.bytes(s.draw(40));unsigned repr=1+s.draw(4);size_t n=32*(1+s.draw(s.chance(1,10)?255:12));if(s.chance(1,8)&&repr>1)n=32*(250+s.draw(10));note("key=%zu label=%zu seed=%zu out=%zu R=%u",key.size(),label_.size(),seed.size(),n,repr);if(n>32)nontrivial();label("R="+std::to_string(repr));
 In k(key),l(label_),sd(seed);Buf o(n);REQUIRE(gost_kdftree2012_256(o.p,n,k.p,k.n,l.p,l.n,sd.p,sd.n,repr)==1,"kdftree: %s",errs().c_str());eq(o.p,kdf_tree(key,label_,seed,n,repr),"KDF_TREE");
 if(s.chance(1,4)){size_t b=s.flip()?0:1+s.draw(31)+32*s.draw(3);if(b%32==0)b=0;Buf t(b);long a=live_allocs();REQUIRE(gost_kdftree2012_256(t.p,b,k.p,k.n,l.p,l.n,sd.p,sd.n,repr)==0,"output length %zu accepted",b);ERR_clear_error();long z=live_allocs();REQUIRE(gost_kdftree2012_256(t.p,b,k.p,k.n,l.p,l.n,sd.p,sd.n,repr)==0,"output length %zu accepted",b);ERR_clear_error();long y=live_allocs();REQUIRE(y<=z,"refused derivation leaks %ld allocations",y-z);(void)a;} }
static uint64_t gen_seq(Src&s){ switch(s.draw(4)){case 0:return s.draw(70);case 1:{uint64_t b=1ull<<s.draw(64);return b-s.draw(3);}case 2:{static const int p[]={6,12,19,30,38,32,16,24,58,35,42};uint64_t b=(s.draw(0)>>s.draw(40))<<p[s.draw(11)];return b-s.draw(2);}default:return s.draw(0);} }
static Bytes be8(uint64_t v){Bytes q(8);for(int i=0;i<8;i++)q[i]=v>>(56-8*i);return q;}
SUB("K03",tlstree,12000,200000,256){ bool z=s.flip();Bytes key=s.bytes(32);uint64_t q=gen_seq(s);Bytes b=be8(q);note("%s seq=%llx",z?"kuznyechik":"magma",(unsigned long long)q);if(q>4095)nontrivial();In k(key),sq(b);Buf o(32);
 REQUIRE(gost_tlstree(z?NID_grasshopper_cbc:NID_magma_cbc,k.p,o.p,sq.p)==1,"tlstree: %s",errs().c_str());eq(o.p,tlstree(z,key.data(),q),"TLSTREE key");
 if(s.chance(1,10))REQUIRE(gost_tlstree(s.pick({NID_aes_256_cbc,NID_grasshopper_ctr,0}),k.p,o.p,sq.p)<=0,"unsupported cipher accepted"); }
SUB("K03",records,6000,100000,128){ // records encrypted under TLSTREE keys selected through the cipher control, in any order
 bool z=s.flip();int kind=z?(s.flip()?Z_ACPKM:Z_CTR):(s.flip()?M_ACPKM:M_CTR);Spec p=gen_spec(s,kind);p.enc=s.flip();Ctx c,d;EVP_CIPHER_CTX*w=c;init(c,p);size_t h=z?8:4;Bytes iv0=p.iv;nontrivial();std::string hist;
 size_t n=1+s.draw(5);for(size_t i=0;i<n;i++){ 
  if(s.chance(1,6)&&w==(EVP_CIPHER_CTX*)c){REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"copy");w=d;}
  if(s.chance(1,6)){iv0=s.bytes(h);REQUIRE(EVP_CipherInit_ex(w,NULL,NULL,NULL,iv0.data(),-1)==1,"set iv");}
  uint64_t q=gen_seq(s);int dec=s.draw(2);Bytes b=be8(q+dec);note("%s rec seq=%llx arg=%d",info(kind).name,(unsigned long long)q,dec);REQUIRE(EVP_CIPHER_CTX_ctrl(w,EVP_CTRL_TLSTREE,dec,b.data())==1,"TLSTREE: %s",errs().c_str());
  REQUIRE(be8(q+dec)==b,"TLSTREE changed the caller's sequence number");
  Spec r=p;r.key=tlstree(z,p.key.data(),q);uint64_t iv=0;for(size_t j=0;j<h;j++)iv=iv<<8|iv0[j];iv+=q;r.iv.resize(h);for(size_t j=0;j<h;j++)r.iv[j]=iv>>(8*(h-1-j));
  Model m(r);size_t l=gen_len(s,kind);Bytes in=s.bytes(l);size_t o=0;for(size_t x:s.split(l,{z?16u:8u})){step(w,m,sub(in,o,x),s.flip(),0,"record");o+=x;} } }
SUB("K03",mac_records,5000,80000,128){ // records authenticated under TLSTREE keys selected through the MAC control, in any order
 bool z=s.flip();Bytes key=s.bytes(32);EVP_MD_CTX*c=EVP_MD_CTX_new(),*d=EVP_MD_CTX_new();struct F{EVP_MD_CTX*a,*b;~F(){EVP_MD_CTX_free(a);EVP_MD_CTX_free(b);}}f{c,d};EVP_MD_CTX*w=c;const EVP_MD*md=digest(nid_of(z?"kuznyechik-mac":"magma-mac"));REQUIRE(EVP_DigestInit_ex(c,md,eng())==1&&EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_ALG_CTRL+4,32,key.data())==1,"init: %s",errs().c_str());nontrivial();note("%s",z?"kuznyechik":"magma");size_t mx=z?16:8;
 size_t n=1+s.draw(6);for(size_t i=0;i<n;i++){
  if(s.chance(1,6)){EVP_MD_CTX*o=w==c?d:c;REQUIRE(EVP_MD_CTX_copy_ex(o,w)==1,"copy");w=o;}
  if(s.chance(1,5)){Bytes junk=s.bytes(s.draw(40));REQUIRE(EVP_DigestUpdate(w,junk.data(),junk.size())==1,"update");} // an unfinished record
  uint64_t q=gen_seq(s);int arg=s.draw(2);Bytes b=be8(q);note("seq=%llx arg=%d",(unsigned long long)q,arg);In in(b);REQUIRE(EVP_MD_CTX_ctrl(w,EVP_MD_CTRL_TLSTREE,arg,in.p)==1,"TLSTREE: %s",errs().c_str());REQUIRE(!memcmp(in.p,b.data(),8),"TLSTREE changed the caller's sequence number");
  if(s.chance(1,6)){EVP_MD_CTX*o=w==c?d:c;REQUIRE(EVP_MD_CTX_copy_ex(o,w)==1,"copy");w=o;}
  Bytes m=s.bytes(s.draw(60)),k=tlstree(z,key.data(),q);size_t o=0;for(size_t x:s.split(m.size(),{8,16})){REQUIRE(EVP_DigestUpdate(w,m.data()+o,x)==1,"update");o+=x;}
  EVP_MD_CTX*t=EVP_MD_CTX_new();F g{t,nullptr};REQUIRE(EVP_MD_CTX_copy_ex(t,w)==1,"copy");Buf out(mx);unsigned l=0;REQUIRE(EVP_DigestFinal_ex(t,out.p,&l)==1&&l==mx,"final: %s",errs().c_str());auto bc=make_bc(z);bc->key(k.data());eq(out.p,omac(*bc,m),"record MAC"); } }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
