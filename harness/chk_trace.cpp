// Q01 secrets do not decide what the engine executes: traces of runs that differ only in secrets are the same
#include "kx.h"
#include "ciphers.h"
#include <openssl/x509.h>
#include <dlfcn.h>
#include <algorithm>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
#include "gost_gost2015.h"
#include "gost_keywrap.h"
}
using namespace ref; using namespace ec;
static pbt::Rule r1("Q01","an operation with drawn public inputs is run several times with drawn secrets and the basic blocks executed in the engine (for the curves with code of their own also every address read or written) are recorded; non-trivial: the secrets differ and the trace is not empty");
// --- recording
extern "C" char __executable_start,_end;
static std::vector<uint64_t>base; static bool rec,cmp,mem; static size_t pos; static bool differs; static uint64_t want,got; static size_t events;
static inline void ev(uint64_t x){ events++;if(!cmp){if(base.size()<40000000)base.push_back(x);return;}if(differs)return;uint64_t b=pos<base.size()?base[pos]:0;if(b!=x){differs=true;want=b;got=x;}pos++; }
static inline void ad(void*a,uint64_t pc,int k){ if(!rec||!mem)return;char*p=(char*)a;uint64_t sp=(uint64_t)__builtin_frame_address(0);if((p>=&__executable_start&&p<&_end))ev(((uint64_t)a<<8|k)^1ull<<63);else if((uint64_t)a-sp<(1<<20)||sp-(uint64_t)a<4096)ev(((uint64_t)a<<8|k)^1ull<<63);else ev(pc<<8|k|1ull<<62); }
#define RA (uint64_t)__builtin_return_address(0)
extern "C" {
void __sanitizer_cov_trace_pc(void){if(rec)ev(RA);}
void __sanitizer_cov_load1(void*a){ad(a,RA,1);} void __sanitizer_cov_load2(void*a){ad(a,RA,2);} void __sanitizer_cov_load4(void*a){ad(a,RA,4);} void __sanitizer_cov_load8(void*a){ad(a,RA,8);} void __sanitizer_cov_load16(void*a){ad(a,RA,16);}
void __sanitizer_cov_store1(void*a){ad(a,RA,17);} void __sanitizer_cov_store2(void*a){ad(a,RA,18);} void __sanitizer_cov_store4(void*a){ad(a,RA,20);} void __sanitizer_cov_store8(void*a){ad(a,RA,24);} void __sanitizer_cov_store16(void*a){ad(a,RA,32);}
// memcmp stops at the first difference
int traced_memcmp(const void*a,const void*b,size_t n){ size_t i=0;while(i<n&&((uint8_t*)a)[i]==((uint8_t*)b)[i])i++;if(rec){ev(RA);ev(i);}return i<n?((uint8_t*)a)[i]-((uint8_t*)b)[i]:0; }
void*traced_memcpy(void*d,const void*a,size_t n){ ad((void*)a,RA,64);ad(d,RA,65);if(rec&&mem)ev(n);return memcpy(d,a,n); }
}
static std::string where(uint64_t x){ if(!x)return "the end";char b[200];const char*k=x>>63?"address ":x>>62&1?"access at ":"";uint64_t a=x>>62?(x&~(3ull<<62))>>8:x;Dl_info d;if(dladdr((void*)a,&d)&&d.dli_sname)snprintf(b,sizeof b,"%s%s+0x%lx",k,d.dli_sname,(unsigned long)(a-(uint64_t)d.dli_saddr));else snprintf(b,sizeof b,"%s0x%lx",k,(unsigned long)(a-(uint64_t)&__executable_start));return b; }
template<class F> __attribute__((noinline)) static void traced(F f){ rec=true;f();rec=false; }
// run(i) for i=0: warms up and is the base; the others are compared with it
template<class F> static void same(int n,bool m,const char*what,F run){ mem=m;cmp=false;rec=false;base.clear();events=0; for(int i=-1;i<n;i++){ cmp=i>0;pos=0;differs=false;if(i<=0)base.clear();run(i<0?0:i);if(cmp&&!differs&&pos!=base.size()){differs=true;want=base[pos];got=0;}if(differs){std::string w=where(want),g=where(got);rec=false;pbt::fail("%s: run %d leaves the path of the first at event %zu of %zu: %s, not %s",what,i,pos,base.size(),g.c_str(),w.c_str());}}if(base.size()>3)nontrivial();rec=false; }
static Bytes sr(Src&s,size_t n){ switch(s.draw(4)){case 0:return s.rnd(n);case 1:{Bytes b(n,0);b[s.draw(n)]=1<<s.draw(8);return b;}case 2:{Bytes b(n,0xff);b[s.draw(n)]^=1<<s.draw(8);return b;}default:{Bytes b=s.bytes(n);return b;}} }
// scalars of all shapes below the order, never zero
static N sc(Src&s,const Curve&c){ N d=mod(le(sr(s,c.hl)),c.q);if(s.chance(1,6))d=c.q-N(1+s.draw(1000));if(s.chance(1,6))d=N(1+s.draw(100000));if(d.zero())d=N(1);return d; }
static N bigsc(Src&s,const Curve&c){ N d=s.flip()?sc(s,c):gen_scalar(s,c,false);return d; }
SUB("Q01",multiplication,700,12000,8){ const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;bool g=s.flip();label(std::string(c.sn())+(g?" base":" point"));note("%s %s",p.sn.c_str(),g?"base point":"other point");EC_KEY*ek=engine_ec(p.nid);const EC_GROUP*gr=EC_KEY_get0_group(ek);Pt P=mul(c,gen(c),bigsc(s,c));EC_POINT*q=to(gr,P),*r=EC_POINT_new(gr);int n=3;std::vector<N>k;for(int i=0;i<n;i++){N v=bigsc(s,c);for(;;){/* a coordinate of zero is told apart from infinity on the way out */Pt R=mul(c,g?gen(c):P,v);if(!R.inf&&!R.x.zero()&&!R.y.zero())break;v=mod(v+N(5),c.q);}k.push_back(v);note("k=%s",k[i].str().c_str());}
 struct D{EC_KEY*e;EC_POINT*a,*b;~D(){EC_POINT_free(a);EC_POINT_free(b);EC_KEY_free(e);}}dd{ek,q,r};
 same(n,true,"multiplication",[&](int i){ BN_CTX*x=BN_CTX_new();int ok=0;traced([&]{ok=g?gost_ec_point_mul(gr,r,k[i],NULL,NULL,x):gost_ec_point_mul(gr,r,NULL,q,k[i],x);});BN_CTX_free(x);REQUIRE(ok==1,"multiplication failed: %s",errs().c_str()); }); }
SUB("Q01",signing,300,6000,8){ const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;int t=gen_type(s,p);label(OBJ_nid2sn(t));note("%s %s",OBJ_nid2sn(t),p.sn.c_str());Bytes dg=s.bytes(c.hl);int n=3;std::vector<PK>keys;std::vector<Bytes>rn;for(int i=0;i<n;i++){N d=sc(s,c);keys.push_back(PK(mk_key(t,p.nid,&d)));Bytes r=s.rnd(c.hl);r[0]&=0x1f;r[s.draw(c.hl)]|=1;rn.push_back(r);}
 same(n,true,"signing",[&](int i){ EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(keys[i],eng());Buf o(128);size_t l=128;int ok=EVP_PKEY_sign_init(x);rand_script(rn[i]);traced([&]{ok=ok==1?EVP_PKEY_sign(x,o.p,&l,dg.data(),dg.size()):0;});EVP_PKEY_CTX_free(x);REQUIRE(ok==1,"signing failed: %s",errs().c_str()); }); }
SUB("Q01",key_generation,200,4000,8){ const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;int t=gen_type(s,p);label(OBJ_nid2sn(t));note("%s %s",OBJ_nid2sn(t),p.sn.c_str());int n=3;std::vector<Bytes>rn;for(int i=0;i<n;i++){Bytes r=s.rnd(c.hl);r[0]&=0x1f;r[s.draw(c.hl)]|=1;rn.push_back(r);}
 same(n,true,"key generation",[&](int i){ EVP_PKEY_CTX*x=EVP_PKEY_CTX_new_id(t,eng());EVP_PKEY*k=NULL;EVP_PKEY_keygen_init(x);EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_GOST_PARAMSET,p.nid,NULL);rand_script(rn[i]);int ok=0;traced([&]{ok=EVP_PKEY_keygen(x,&k);});EVP_PKEY_CTX_free(x);EVP_PKEY_free(k);REQUIRE(ok==1,"key generation failed: %s",errs().c_str()); }); }
SUB("Q01",agreement,300,6000,8){ const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;int t=gen_type(s,p);label(OBJ_nid2sn(t));note("%s %s",OBJ_nid2sn(t),p.sn.c_str());N e=sc(s,c);Pt E=mul(c,gen(c),e);PK peer(mk_key(t,p.nid,nullptr,&E));Bytes ukm=s.rnd(8);ukm[0]|=1;int n=3;std::vector<PK>keys;for(int i=0;i<n;i++){N d=sc(s,c);keys.push_back(PK(mk_key(t,p.nid,&d)));}
 same(n,false,"key agreement",[&](int i){ EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(keys[i],eng());EVP_PKEY_derive_init(x);EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,8,ukm.data());EVP_PKEY_derive_set_peer(x,peer);Buf o(200);size_t l=200;int ok=0;traced([&]{ok=EVP_PKEY_derive(x,o.p,&l);});EVP_PKEY_CTX_free(x);REQUIRE(ok==1,"derive: %s",errs().c_str()); }); }
static const char*CN[]={"gost89","gost89-cbc","gost89-cnt","gost89-cnt-12","magma-ecb","magma-cbc","magma-ctr","magma-ctr-acpkm","magma-ctr-acpkm-omac","magma-mgm","kuznyechik-ecb","kuznyechik-cbc","kuznyechik-cfb","kuznyechik-ofb","kuznyechik-ctr","kuznyechik-ctr-acpkm","kuznyechik-ctr-acpkm-omac","kuznyechik-mgm"};
static bool has(const char*n,const char*x){return strstr(n,x)!=NULL;}
SUB("Q01",ciphers,2500,50000,32){ const char*nm=CN[s.draw(18)];label(nm);bool mgm=has(nm,"mgm"),enc=s.flip();size_t total=s.pick<size_t>({16,32,64,200,1024,1100,4200});total-=total%(has(nm,"ecb")||has(nm,"cbc")?16:1);Bytes iv=s.rnd(16),aad=mgm?s.rnd(s.draw(40)):Bytes(),seed=s.rnd(8);iv[0]&=0x7f;auto parts=s.split(total,{1,8,16});note("%s %zu bytes %s",nm,total,enc?"enc":"dec");int n=3;std::vector<Bytes>key,pt;for(int i=0;i<n;i++){key.push_back(sr(s,32));pt.push_back(sr(s,total));}
 same(n,false,nm,[&](int i){ EVP_CIPHER_CTX*x=EVP_CIPHER_CTX_new();Buf o(total+64);int l=0;rand_script(seed);traced([&]{EVP_CipherInit_ex(x,cipher(nid_of(nm)),eng(),key[i].data(),iv.data(),enc);if(!enc||has(nm,"ecb")||has(nm,"cbc"))EVP_CIPHER_CTX_set_padding(x,0);if(aad.size())EVP_CipherUpdate(x,NULL,&l,aad.data(),aad.size());size_t at=0;for(size_t z:parts){EVP_CipherUpdate(x,o.p,&l,pt[i].data()+at,z);at+=z;}if(mgm&&enc){EVP_CipherFinal_ex(x,o.p,&l);EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_GET_TAG,has(nm,"kuz")?16:8,o.p);}else if(!mgm)EVP_CipherFinal_ex(x,o.p,&l);});EVP_CIPHER_CTX_free(x);ERR_clear_error(); }); }
static const char*MN[]={"gost-mac","gost-mac-12","magma-mac","kuznyechik-mac","magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac"};
SUB("Q01",macs,1500,30000,32){ const char*nm=MN[s.draw(6)];const EVP_MD*md=ENGINE_get_digest(eng(),OBJ_sn2nid(nm));ERR_clear_error();if(!md)return;label(nm);size_t total=s.pick<size_t>({0,5,8,16,32,64,200,1024,1100,4200});auto parts=s.split(total,{1,8,16});note("%s %zu",nm,total);int n=3;std::vector<Bytes>key,pt;for(int i=0;i<n;i++){key.push_back(sr(s,32));pt.push_back(total?sr(s,total):Bytes());}
 same(n,false,nm,[&](int i){ EVP_MD_CTX*x=EVP_MD_CTX_new();Buf o(64);unsigned l;traced([&]{EVP_DigestInit_ex(x,md,eng());EVP_MD_meth_get_ctrl(md)(x,EVP_MD_CTRL_SET_KEY,32,key[i].data());size_t at=0;for(size_t z:parts){EVP_DigestUpdate(x,pt[i].data()+at,z);at+=z;}EVP_DigestFinal_ex(x,o.p,&l);});EVP_MD_CTX_free(x);ERR_clear_error(); }); }
SUB("Q01",hashes,1000,20000,32){ int nid=s.pick({NID_id_GostR3411_94,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512});label(OBJ_nid2sn(nid));size_t total=s.pick<size_t>({5,8,16,32,64,65,200,1024});auto parts=s.split(total,{1,32,64});note("%s %zu",OBJ_nid2sn(nid),total);int n=3;std::vector<Bytes>pt;for(int i=0;i<n;i++)pt.push_back(sr(s,total));
 same(n,false,OBJ_nid2sn(nid),[&](int i){ EVP_MD_CTX*x=EVP_MD_CTX_new();Buf o(64);unsigned l;traced([&]{EVP_DigestInit_ex(x,digest(nid),eng());size_t at=0;for(size_t z:parts){EVP_DigestUpdate(x,pt[i].data()+at,z);at+=z;}EVP_DigestFinal_ex(x,o.p,&l);});EVP_MD_CTX_free(x); }); }
// forgeries of one value, wrong at different places
static Bytes forge(Src&s,const Bytes&t){ Bytes f=t;switch(s.draw(3)){case 0:f[s.draw(f.size())]^=1<<s.draw(8);break;case 1:f=s.rnd(f.size());if(f==t)f[0]^=1;break;default:{size_t k=s.draw(f.size());for(size_t i=k;i<f.size();i++)f[i]^=1+s.draw(255);}}return f; }
SUB("Q01",forgeries,1500,30000,32){ int kind=s.draw(4),n=3;Bytes key=s.rnd(32),iv=s.rnd(16),pt=s.rnd(1+s.draw(100)),ukm=s.rnd(8);iv[0]&=0x7f;std::vector<Bytes>f;
 if(kind==0||kind==1){ bool kz=s.flip();bool mgm=kind==0;const char*nm=mgm?(kz?"kuznyechik-mgm":"magma-mgm"):(kz?"kuznyechik-ctr-acpkm-omac":"magma-ctr-acpkm-omac");label(nm);note("%s",nm);size_t tl=kz?16:8;Bytes seed=s.rnd(8);Buf o(pt.size()+64),tag(16);int l;EVP_CIPHER_CTX*x=EVP_CIPHER_CTX_new();rand_script(seed);REQUIRE(EVP_EncryptInit_ex(x,cipher(nid_of(nm)),eng(),key.data(),iv.data())==1,"init %s",errs().c_str());EVP_EncryptUpdate(x,o.p,&l,pt.data(),pt.size());Bytes ct(o.p,o.p+l);ASN1_TYPE*at=NULL;if(mgm){EVP_EncryptFinal_ex(x,o.p,&l);EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_GET_TAG,tl,tag.p);}else{EVP_EncryptFinal_ex(x,o.p,&l);}
  EVP_CIPHER_CTX_free(x);ERR_clear_error();Bytes good(tag.p,tag.p+tl);if(!mgm){good=s.rnd(tl);}for(int i=0;i<n;i++)f.push_back(forge(s,good));
  if(!mgm){Bytes par=der_seq({der_octet(cat(sub(iv,0,kz?8:4),seed))});same(n,false,nm,[&](int i){ EVP_CIPHER_CTX*y=EVP_CIPHER_CTX_new();const uint8_t*pp=par.data();ASN1_TYPE*pt1=d2i_ASN1_TYPE(NULL,&pp,par.size());STACK_OF(X509_ATTRIBUTE)*a=NULL;ASN1_OBJECT*ob=OBJ_txt2obj("1.2.643.7.1.0.6.1.1",1);X509at_add1_attr_by_OBJ(&a,ob,V_ASN1_OCTET_STRING,f[i].data(),f[i].size());ASN1_OBJECT_free(ob);int r=1,st=0;traced([&]{EVP_DecryptInit_ex(y,cipher(nid_of(nm)),eng(),NULL,NULL);st=EVP_CIPHER_asn1_to_param(y,pt1)>0;st=st&&EVP_DecryptInit_ex(y,NULL,NULL,key.data(),NULL)==1;st=st&&EVP_CIPHER_CTX_ctrl(y,EVP_CTRL_PROCESS_UNPROTECTED,0,a)>0;EVP_DecryptUpdate(y,o.p,&l,ct.data(),ct.size());r=EVP_DecryptFinal_ex(y,o.p,&l);});EVP_CIPHER_CTX_free(y);ASN1_TYPE_free(pt1);sk_X509_ATTRIBUTE_pop_free(a,X509_ATTRIBUTE_free);std::string e=errs();REQUIRE(st&&r<=0,st?"forgery accepted":"set-up failed: %s",e.c_str()); });}
  if(mgm)same(n,false,nm,[&](int i){ EVP_CIPHER_CTX*y=EVP_CIPHER_CTX_new();int r=1;traced([&]{EVP_DecryptInit_ex(y,cipher(nid_of(nm)),eng(),key.data(),iv.data());EVP_CIPHER_CTX_ctrl(y,EVP_CTRL_AEAD_SET_TAG,tl,f[i].data());EVP_DecryptUpdate(y,o.p,&l,ct.data(),ct.size());r=EVP_DecryptFinal_ex(y,o.p,&l);});EVP_CIPHER_CTX_free(y);ERR_clear_error();REQUIRE(r<=0,"forgery accepted"); });
  ASN1_TYPE_free(at);return; }
 if(kind==2){ label("CryptoPro unwrap");note("unwrap");Bytes w=cp_wrap(sbox_by_name("CryptoPro_A"),true,key.data(),ukm.data(),s.rnd(32).data());Bytes mac=sub(w,40,4);for(int i=0;i<n;i++)f.push_back(forge(s,mac));gost_ctx c;gost_init(&c,&Gost28147_CryptoProParamSetA);
  same(n,false,"key unwrap",[&](int i){ Bytes v=w;std::copy(f[i].begin(),f[i].end(),v.begin()+40);Buf o(32);int r=1;traced([&]{r=keyUnwrapCryptoPro(&c,key.data(),v.data(),o.p);});ERR_clear_error();REQUIRE(r<=0,"forgery accepted"); });return; }
 bool kz=s.flip();label(kz?"KImp15 kuznyechik":"KImp15 magma");note("kimp15");Bytes k2=s.rnd(32),sk=s.rnd(32);Bytes iv2=s.rnd(kz?8:4);Buf e(64);int el=64;REQUIRE(gost_kexp15(sk.data(),32,kz?NID_kuznyechik_ctr:NID_magma_ctr,key.data(),kz?NID_kuznyechik_mac:NID_magma_mac,k2.data(),iv2.data(),kz?8:4,e.p,&el)>0,"kexp15: %s",errs().c_str());size_t tl=kz?16:8;Bytes good(e.p+32,e.p+32+tl);for(int i=0;i<n;i++)f.push_back(forge(s,good));
 same(n,false,"key import",[&](int i){ Bytes v(e.p,e.p+el);std::copy(f[i].begin(),f[i].end(),v.begin()+32);Buf o(32);int r=1;traced([&]{r=gost_kimp15(v.data(),el,kz?NID_kuznyechik_ctr:NID_magma_ctr,key.data(),kz?NID_kuznyechik_mac:NID_magma_mac,k2.data(),iv2.data(),kz?8:4,o.p);});ERR_clear_error();REQUIRE(r<=0,"forgery accepted"); }); }
SUB("Q01",transport,300,6000,8){ bool nw=s.flip(),kz=s.flip(),enc=s.flip();const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;int t=gen_type(s,p);if(nw&&c.hl==32)t=NID_id_GostR3410_2012_256;label(std::string(nw?"2018 ":"CryptoPro ")+(enc?"wrap":"unwrap"));note("%s %s %s %s",OBJ_nid2sn(t),p.sn.c_str(),nw?kz?"2018 kuznyechik":"2018 magma":"CryptoPro",enc?"wrap":"unwrap");N d=sc(s,c);Pt Q=mul(c,gen(c),d);Bytes ukm=s.rnd(nw?32:8);ukm[0]|=1;int n=3;int cn=kz?NID_kuznyechik_ctr:NID_magma_ctr;std::vector<Bytes>sk,rn;for(int i=0;i<n;i++){sk.push_back(sr(s,32));Bytes r=s.rnd(c.hl);r[0]&=0x1f;r[s.draw(c.hl)]|=1;rn.push_back(r);}
 PK pub(mk_key(t,p.nid,nullptr,&Q)),prv(mk_key(t,p.nid,&d));auto ctx=[&](EVP_PKEY*k,bool e){EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(k,eng());int ok=e?EVP_PKEY_encrypt_init(x):EVP_PKEY_decrypt_init(x);if(nw)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL);if(e)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),ukm.data());REQUIRE(ok==1,"init");return x;};
 std::vector<Bytes>blob;if(!enc)for(int i=0;i<n;i++){EVP_PKEY_CTX*x=ctx(pub,true);Buf o(1500);size_t l=1500;rand_script(rn[0]);int r=EVP_PKEY_encrypt(x,o.p,&l,sk[i].data(),32);EVP_PKEY_CTX_free(x);REQUIRE(r==1,"wrap: %s",errs().c_str());blob.push_back(Bytes(o.p,o.p+l));}
 same(n,false,"transport",[&](int i){ EVP_PKEY_CTX*x=ctx(enc?pub:prv,enc);Buf o(1500);size_t l=1500;int r=0;rand_script(rn[i]);traced([&]{r=enc?EVP_PKEY_encrypt(x,o.p,&l,sk[i].data(),32):EVP_PKEY_decrypt(x,o.p,&l,blob[i].data(),blob[i].size());});EVP_PKEY_CTX_free(x);REQUIRE(r==1,"transport: %s",errs().c_str());if(!enc)REQUIRE(l==32&&!memcmp(o.p,sk[i].data(),32),"another key"); }); }
SUB("Q01",derivations,800,16000,32){ int kind=s.draw(3),n=3;std::vector<Bytes>k,x;for(int i=0;i<n;i++){k.push_back(sr(s,32));x.push_back(sr(s,32));}Bytes seed=s.rnd(8),u=s.rnd(8);bool kz=s.flip();note("kind %d",kind);label(kind==0?"tree":kind==1?"TLS tree":"wrap");size_t rl=s.pick<size_t>({32,64,96});
 same(n,false,"derivation",[&](int i){ Buf o(128);gost_ctx c;gost_init(&c,&Gost28147_CryptoProParamSetA);traced([&]{if(kind==0)gost_kdftree2012_256(o.p,rl,k[i].data(),32,(const unsigned char*)"kdf tree",8,seed.data(),8,1);else if(kind==1)gost_tlstree(kz?NID_kuznyechik_cbc:NID_magma_cbc,k[i].data(),o.p,seed.data());else keyWrapCryptoPro(&c,k[i].data(),u.data(),x[i].data(),o.p);});gost_destroy(&c); }); }
SUB("Q01",key_encodings,300,6000,8){ const Ps&p=params()[s.draw(params().size())];const Curve&c=*p.c;int t=gen_type(s,p);bool in=s.flip();label(in?"decoding":"encoding");note("%s %s %s",OBJ_nid2sn(t),p.sn.c_str(),in?"decoding":"encoding");int n=3;std::vector<PK>keys;std::vector<PKCS8_PRIV_KEY_INFO*>enc;for(int i=0;i<n;i++){N d=sc(s,c);for(;;){Pt R=mul(c,gen(c),d);if(!R.x.zero()&&!R.y.zero())break;d=d+N(5);}/* DER integers have no leading zeros; the forms made here are of fixed size */keys.push_back(PK(mk_key(t,p.nid,&d)));PKCS8_PRIV_KEY_INFO*q=EVP_PKEY2PKCS8(keys[i]);REQUIRE(q,"encode: %s",errs().c_str());enc.push_back(q);}
 struct D{std::vector<PKCS8_PRIV_KEY_INFO*>&e;~D(){for(auto q:e)PKCS8_PRIV_KEY_INFO_free(q);}}dd{enc};
 same(n,false,"key encoding",[&](int i){ bool ok=false;if(in){EVP_PKEY*k=NULL;traced([&]{k=EVP_PKCS82PKEY(enc[i]);});ok=k;EVP_PKEY_free(k);}else{PKCS8_PRIV_KEY_INFO*q=NULL;traced([&]{q=EVP_PKEY2PKCS8(keys[i]);});ok=q;PKCS8_PRIV_KEY_INFO_free(q);}REQUIRE(ok,"failed: %s",errs().c_str()); }); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
