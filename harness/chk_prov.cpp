// P01 the OpenSSL 3 provider (built as a module) against the references the engine is checked with
#include "ciphers.h"
#include <openssl/provider.h>
#include <openssl/core.h>
#include <openssl/core_dispatch.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <openssl/x509.h>
#include <dlfcn.h>
#include <memory>
using namespace ref;
static pbt::Rule r1("P01","algorithm, keys, IVs, data, partitions, in-place use, context histories (re-initialisation, duplication) and parameters drawn; the provider module is compared with the reference models that the engine is checked against; non-trivial: data processed in more than one call, a duplication or a re-initialisation");
static pbt::Assume a1("P01","libprov (an absent submodule) is replaced by prov/prov/err.h, which only carries error reports");
static OSSL_PROVIDER*gp,*dp;
static std::string modpath(){const char*m=getenv("PROG_gostprov");if(!m)abort();return m;}
static void setup(){ std::string m=modpath();size_t sl=m.rfind('/');std::string dir=m.substr(0,sl),n=m.substr(sl+1);n=n.substr(0,n.size()-3);OSSL_PROVIDER_set_default_search_path(NULL,dir.c_str());dp=OSSL_PROVIDER_load(NULL,"default");gp=OSSL_PROVIDER_load(NULL,n.c_str());if(!gp||!dp){fprintf(stderr,"provider does not load: %s\n",errs().c_str());exit(2);} }
// what the provider offers: fetched once per process
template<class T>struct Cache{std::map<std::string,T*> m;};
#include <map>
static EVP_CIPHER*pc(const std::string&n){static std::map<std::string,EVP_CIPHER*> m;auto&x=m[n];if(!x){x=EVP_CIPHER_fetch(NULL,n.c_str(),NULL);REQUIRE(x,"cipher %s not offered: %s",n.c_str(),errs().c_str());REQUIRE(EVP_CIPHER_get0_provider(x)==gp,"cipher %s comes from another provider",n.c_str());}return x;}
static EVP_MD*pd(const std::string&n){static std::map<std::string,EVP_MD*> m;auto&x=m[n];if(!x){x=EVP_MD_fetch(NULL,n.c_str(),NULL);REQUIRE(x&&EVP_MD_get0_provider(x)==gp,"digest %s not offered: %s",n.c_str(),errs().c_str());}return x;}
static EVP_MAC*pm(const std::string&n){static std::map<std::string,EVP_MAC*> m;auto&x=m[n];if(!x){x=EVP_MAC_fetch(NULL,n.c_str(),NULL);REQUIRE(x&&EVP_MAC_get0_provider(x)==gp,"MAC %s not offered: %s",n.c_str(),errs().c_str());}return x;}
static const int OFF[]={cm::G_CFB,cm::G_CBC,cm::G_CNT,cm::G_CNT12,cm::M_CBC,cm::M_CTR,cm::M_ACPKM,cm::Z_ECB,cm::Z_CBC,cm::Z_CFB,cm::Z_OFB,cm::Z_CTR,cm::Z_ACPKM};
static std::string cname(Src&s,int k){switch(k){case cm::G_CFB:return s.pick<std::string>({"gost89","1.2.643.2.2.21","GOST 28147-89"});case cm::M_ACPKM:return s.pick<std::string>({"magma-ctr-acpkm","1.2.643.7.1.1.5.1.1"});case cm::Z_ACPKM:return s.pick<std::string>({"kuznyechik-ctr-acpkm","1.2.643.7.1.1.5.2.1"});default:return cm::info(k).name;}}
static void pinit(Src&s,EVP_CIPHER_CTX*c,cm::Spec&p){ auto&i=cm::info(p.k);EVP_CIPHER*e=pc(cname(s,p.k));uint8_t*iv=i.ivlen?p.iv.data():NULL;
 if(s.flip())REQUIRE(EVP_CipherInit_ex(c,e,NULL,p.key.data(),iv,p.enc)==1,"%s init: %s",i.name,errs().c_str());
 else{REQUIRE(EVP_CipherInit_ex(c,e,NULL,NULL,NULL,p.enc)==1,"%s init without key: %s",i.name,errs().c_str());if(s.flip()&&iv){REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,NULL,iv,-1)==1,"%s init IV: %s",i.name,errs().c_str());iv=NULL;}REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,p.key.data(),iv,-1)==1,"%s init key: %s",i.name,errs().c_str());}
 REQUIRE(EVP_CIPHER_CTX_set_padding(c,p.pad)==1,"set_padding");
 p.mesh=true;p.section=0;if((cm::acpkm(p.k)||p.k==cm::G_CFB||p.k==cm::G_CNT||p.k==cm::G_CNT12)&&s.chance(1,3)){size_t v;if(cm::acpkm(p.k)){v=cm::real_bs(p.k)*(1+s.draw(6));p.section=v;}else{p.mesh=s.flip();v=p.mesh?1:0;}OSSL_PARAM q[2]={OSSL_PARAM_construct_size_t("key-mesh",&v),OSSL_PARAM_construct_end()};REQUIRE(EVP_CIPHER_CTX_set_params(c,q)==1,"%s key-mesh %zu refused: %s",i.name,v,errs().c_str());label("key-mesh");} }
SUB("P01",cipher,5000,90000,64){ struct Slot{EVP_CIPHER_CTX*c=nullptr;cm::Model m;bool live=false;}; Slot sl[3];struct F{Slot*x;~F(){for(int i=0;i<3;i++)EVP_CIPHER_CTX_free(x[i].c);}}f{sl};for(auto&x:sl)x.c=EVP_CIPHER_CTX_new();
 size_t n=3+s.draw(8);bool hist=false;for(size_t i=0;i<n;i++){int a=s.draw(3);Slot&x=sl[a];int op=x.live?s.draw(9):0;switch(op){
  case 0:{cm::Spec p=cm::gen_spec(s,OFF[s.draw(13)]);p.enc=s.flip();note("init %d %s %s",a,cm::info(p.k).name,p.enc?"enc":"dec");pinit(s,x.c,p);x.m=cm::Model(p);hist|=x.live;x.live=true;label(cm::info(p.k).name);break;}
  case 1:{ if(!cm::info(x.m.sp.k).ivlen)break;x.m.sp.iv=cm::gen_iv(s,x.m.sp);note("iv %d",a);REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,NULL,x.m.sp.iv.data(),-1)==1,"IV only init: %s",errs().c_str());x.m.sp.mesh=x.m.sp.mesh;
    // the engine keeps the key that meshing has derived: only a full key makes the next message defined
    REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,x.m.sp.key.data(),x.m.sp.iv.data(),-1)==1,"key and IV init: %s",errs().c_str());x.m.restart();hist=true;break;}
  case 2:{int b=s.draw(3);if(b==a)break;note("copy %d to %d",a,b);EVP_CIPHER_CTX*d=s.flip()?sl[b].c:nullptr;if(!d){EVP_CIPHER_CTX_free(sl[b].c);sl[b].c=d=EVP_CIPHER_CTX_new();}REQUIRE(EVP_CIPHER_CTX_copy(d,x.c)==1,"copy: %s",errs().c_str());sl[b].m=x.m;sl[b].live=true;hist=true;label("duplicated");break;}
  case 3:{note("final %d",a);cm::finish(x.c,x.m,"provider");x.live=false;break;}
  default:{Bytes d=s.bytes(cm::gen_len(s,x.m.sp.k));bool ip=s.chance(1,4);note("update %d %zu%s",a,d.size(),ip?" in place":"");cm::step(x.c,x.m,d,ip,s.draw(4),"provider");if(x.m.in.size()>d.size())hist=true;break;}}}
 if(hist)nontrivial(); }
SUB("P01",mgm,4000,80000,64){ bool z=s.flip();size_t b=z?16:8;const char*nm=z?"kuznyechik-mgm":"magma-mgm";Bytes key=s.bytes(32),nonce=s.bytes(b),aad=s.bytes(s.len(80,{b})),pt=s.bytes(s.len(120,{b}));if(aad.empty()&&pt.empty())pt=s.bytes(1);auto bc=make_bc(z);bc->key(key.data());MgmOut e=mgm(*bc,nonce,aad,pt,true);note("%s aad %zu text %zu",nm,aad.size(),pt.size());label(nm);nontrivial();
 bool enc=s.flip();EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new(),*d=nullptr;struct F{EVP_CIPHER_CTX*&a,*&b;~F(){EVP_CIPHER_CTX_free(a);EVP_CIPHER_CTX_free(b);}}f{c,d};
 if(s.chance(1,3)){ // an earlier message on the same context
  Bytes k2=s.bytes(32),n2=s.bytes(b);REQUIRE(EVP_CipherInit_ex(c,pc(nm),NULL,k2.data(),n2.data(),s.flip())==1,"init: %s",errs().c_str());Bytes junk=s.bytes(1+s.draw(40)),o(junk.size()+32);int l;EVP_CipherUpdate(c,s.flip()?NULL:o.data(),&l,junk.data(),junk.size());if(s.flip()){EVP_CipherFinal_ex(c,o.data(),&l);ERR_clear_error();}label("context reused");}
 if(s.flip())REQUIRE(EVP_CipherInit_ex(c,pc(nm),NULL,key.data(),nonce.data(),enc)==1,"init: %s",errs().c_str());else{REQUIRE(EVP_CipherInit_ex(c,pc(nm),NULL,NULL,NULL,enc)==1,"init: %s",errs().c_str());if(s.flip())REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_IVLEN,b,NULL)==1,"nonce length: %s",errs().c_str());REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,key.data(),nonce.data(),enc)==1,"init: %s",errs().c_str());}
 const Bytes&in=enc?pt:e.ct;Bytes tag=e.tag;size_t alt=!enc&&s.chance(1,3)?1+s.draw(b*8):0;if(alt)tag[(alt-1)/8]^=1<<((alt-1)%8);bool before=s.flip();auto set=[&]{In t(tag);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t.p)==1,"SET_TAG: %s",errs().c_str());};if(!enc&&before)set();
 Bytes out;size_t total=aad.size()+in.size(),dupat=s.chance(1,3)?s.draw(total+1):total+1,done=0;bool dup=false;
 auto maybe=[&]{if(!dup&&done>=dupat){dup=true;label("duplicated");d=EVP_CIPHER_CTX_new();REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"copy: %s",errs().c_str());std::swap(c,d);if(s.flip()){uint8_t x[40];int l;Bytes j=s.bytes(20);EVP_CipherUpdate(d,x,&l,j.data(),20);}}};
 for(size_t k:s.split(aad.size(),{b})){In i(sub(aad,done,k));int l=-1;REQUIRE(EVP_CipherUpdate(c,NULL,&l,i.p,k)==1,"AAD: %s",errs().c_str());done+=k;maybe();}
 size_t o=0;for(size_t k:s.split(in.size(),{b})){In i(sub(in,o,k));Buf u(k);int l=-1;REQUIRE(EVP_CipherUpdate(c,u.p,&l,i.p,k)==1&&(size_t)l==k,"text: %s",errs().c_str());out.insert(out.end(),u.p,u.p+k);o+=k;done+=k;maybe();}
 if(!enc&&!before)set();uint8_t fb[32];int fl=-1;int r=EVP_CipherFinal_ex(c,fb,&fl);if(alt){REQUIRE(r<=0,"altered tag accepted");ERR_clear_error();return;}REQUIRE(r==1&&fl==0,"final: %d %s",r,errs().c_str());REQUIRE(out==(enc?e.ct:pt),"%s output differs",nm);
 if(enc){size_t tl=s.flip()?b:1+s.draw(b);Buf t(tl);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,tl,t.p)==1,"GET_TAG %zu: %s",tl,errs().c_str());REQUIRE(!memcmp(t.p,e.tag.data(),tl),"tag %s expected %s",hex(t.p,tl).c_str(),hex(e.tag).c_str());} }
SUB("P01",params,1500,20000,64){ // constants and AlgorithmIdentifier parameters
 int k=OFF[s.draw(13)];auto&i=cm::info(k);EVP_CIPHER*e=pc(cname(s,k));note("%s",i.name);label(i.name);REQUIRE(EVP_CIPHER_get_key_length(e)==32&&EVP_CIPHER_get_iv_length(e)==(int)i.ivlen&&EVP_CIPHER_get_block_size(e)==(int)i.bs,"key %d, IV %d, block %d; engine: 32, %zu, %zu",EVP_CIPHER_get_key_length(e),EVP_CIPHER_get_iv_length(e),EVP_CIPHER_get_block_size(e),i.ivlen,i.bs);
 const EVP_CIPHER*le=nullptr;{extern const EVP_CIPHER*engine_cipher(int);le=engine_cipher(i.nid);}REQUIRE(EVP_CIPHER_get_mode(e)==EVP_CIPHER_get_mode(le),"mode %d, the engine's is %d",EVP_CIPHER_get_mode(e),EVP_CIPHER_get_mode(le));
 if(!i.params)return;nontrivial();cm::Spec p=cm::gen_spec(s,k);EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new(),*d=EVP_CIPHER_CTX_new(),*l=EVP_CIPHER_CTX_new();struct F{EVP_CIPHER_CTX*c[3];~F(){for(auto x:c)EVP_CIPHER_CTX_free(x);}}f{{c,d,l}};
 REQUIRE(EVP_CipherInit_ex(c,e,NULL,p.key.data(),p.iv.data(),1)==1,"init: %s",errs().c_str());
 // what the engine encodes for the same IV
 REQUIRE(EVP_CipherInit_ex(l,le,NULL,p.key.data(),p.iv.data(),1)==1,"engine init: %s",errs().c_str());ASN1_TYPE*t=ASN1_TYPE_new();int rc=EVP_CIPHER_param_to_asn1(l,t);uint8_t*w=nullptr;int wl=rc>0?i2d_ASN1_TYPE(t,&w):-1;Bytes want(w,w+(wl>0?wl:0));OPENSSL_free(w);ASN1_TYPE_free(t);REQUIRE(wl>0,"engine: no parameters");
 uint8_t buf[256];memset(buf,0xa5,256);OSSL_PARAM g[2]={OSSL_PARAM_construct_octet_string("alg_id_param",buf,sizeof buf),OSSL_PARAM_construct_end()};REQUIRE(EVP_CIPHER_CTX_get_params(c,g)==1,"alg_id_param: %s",errs().c_str());size_t fixed=want.size();if(!cm::g89(k))fixed-=8; /* the seed is random */
 REQUIRE(OSSL_PARAM_modified(g)&&g[0].return_size==want.size()&&!memcmp(buf,want.data(),fixed)," alg_id_param is %s (%zu), the engine encodes %s",hex(buf,std::min<size_t>(g[0].return_size,64)).c_str(),g[0].return_size,hex(want,64).c_str());
 OSSL_PARAM q[2]={OSSL_PARAM_construct_octet_string("alg_id_param",want.data(),want.size()),OSSL_PARAM_construct_end()};
 cm::Spec r=p;REQUIRE(EVP_CipherInit_ex(d,e,NULL,NULL,NULL,0)==1,"init: %s",errs().c_str());REQUIRE(EVP_CIPHER_CTX_set_params(d,q)==1,"alg_id_param not accepted: %s",errs().c_str());REQUIRE(EVP_CipherInit_ex(d,NULL,NULL,p.key.data(),NULL,0)==1,"init key: %s",errs().c_str());
 REQUIRE(EVP_CipherInit_ex(l,le,NULL,NULL,NULL,0)==1,"x");{const uint8_t*pp=want.data();ASN1_TYPE*a=d2i_ASN1_TYPE(NULL,&pp,want.size());int ok=EVP_CIPHER_asn1_to_param(l,a);ASN1_TYPE_free(a);REQUIRE(ok>0,"engine refuses its own parameters");}REQUIRE(EVP_CipherInit_ex(l,NULL,NULL,p.key.data(),NULL,0)==1,"x");
 Bytes ct=s.bytes(1+s.draw(300)),o1(ct.size()+32),o2(ct.size()+32);int n1=0,n2=0;REQUIRE(EVP_CipherUpdate(d,o1.data(),&n1,ct.data(),ct.size())==1&&EVP_CipherUpdate(l,o2.data(),&n2,ct.data(),ct.size())==1,"update: %s",errs().c_str());REQUIRE(n1==n2&&o1==o2,"decryption after reading the parameters differs from the engine's");
 // malformed parameters
 Bytes bad=want;size_t cut=s.draw(bad.size());if(s.flip())bad.resize(cut);else bad[cut]^=1<<s.draw(8);In bi(bad);OSSL_PARAM qb[2]={OSSL_PARAM_construct_octet_string("alg_id_param",bi.p,bad.size()),OSSL_PARAM_construct_end()};EVP_CIPHER_CTX_set_params(d,qb);ERR_clear_error(); }
struct DG{HashId h;std::vector<std::string> n;size_t size,block;};
static const DG DGS[]={{H_94,{"md_gost94","id-GostR3411-94","1.2.643.2.2.9"},32,32},{H_12_256,{"md_gost12_256","id-tc26-gost3411-12-256","1.2.643.7.1.1.2.2"},32,64},{H_12_512,{"md_gost12_512","id-tc26-gost3411-12-512","1.2.643.7.1.1.2.3"},64,64}};
SUB("P01",digest,3000,50000,64){ struct Slot{EVP_MD_CTX*c;int d=-1;Bytes m;bool live=false;};Slot sl[3];struct F{Slot*x;~F(){for(int i=0;i<3;i++)EVP_MD_CTX_free(x[i].c);}}f{sl};for(auto&x:sl)x.c=EVP_MD_CTX_new();bool hist=false;size_t n=3+s.draw(9);
 for(size_t i=0;i<n;i++){int a=s.draw(3);Slot&x=sl[a];int op=x.live?s.draw(7):0;switch(op){
  case 0:{x.d=s.draw(3);auto&g=DGS[x.d];std::string nm=g.n[s.draw(3)];EVP_MD*md=pd(nm);REQUIRE(EVP_MD_get_size(md)==(int)g.size&&EVP_MD_get_block_size(md)==(int)g.block,"%s: size %d block %d",nm.c_str(),EVP_MD_get_size(md),EVP_MD_get_block_size(md));REQUIRE(EVP_DigestInit_ex(x.c,md,NULL)==1,"init: %s",errs().c_str());x.m.clear();hist|=x.live;x.live=true;note("init %d %s",a,nm.c_str());label(g.n[0]);break;}
  case 1:{int b=s.draw(3);if(a==b)break;note("copy %d to %d",a,b);REQUIRE(EVP_MD_CTX_copy_ex(sl[b].c,x.c)==1,"copy: %s",errs().c_str());sl[b].d=x.d;sl[b].m=x.m;sl[b].live=true;hist=true;label("duplicated");break;}
  case 2:{Bytes e=hash(DGS[x.d].h,x.m);Buf o(e.size());unsigned l=0;note("final %d",a);REQUIRE(EVP_DigestFinal_ex(x.c,o.p,&l)==1&&l==e.size()&&!memcmp(o.p,e.data(),l),"%s of %zu bytes: %s expected %s",DGS[x.d].n[0].c_str(),x.m.size(),hex(o.p,e.size()).c_str(),hex(e).c_str());x.live=false;break;}
  default:{Bytes d=s.bytes(s.len(s.chance(1,10)?2000:200,{DGS[x.d].block}));In in(d,s.draw(3));note("update %d %zu",a,d.size());REQUIRE(EVP_DigestUpdate(x.c,in.p,d.size())==1,"update: %s",errs().c_str());x.m=cat(x.m,d);if(x.m.size()>d.size())hist=true;}}}
 if(hist)nontrivial(); }
struct MC{const char*n;int kind;size_t def,max;}; // kind 0: 28147, 1: magma, 2: kuznyechik, 3: OMAC-ACPKM
static const MC MCS[]={{"gost-mac",0,4,8},{"gost-mac-12",0,4,8},{"magma-mac",1,8,8},{"kuznyechik-mac",2,16,16},{"kuznyechik-ctr-acpkm-omac",3,16,16}};
struct MS{EVP_MAC_CTX*c=nullptr;int k=-1;Bytes key,m;size_t size=0,sec=4096,T=0;bool live=false,keyed=false;};
static Bytes mac_ref(const MS&x){switch(MCS[x.k].kind){case 0:return gost89_mac(sbox_by_name(x.k==0?"CryptoPro_A":"TC26_Z"),true,x.key.data(),NULL,x.m,8);case 3:return omac_acpkm(x.key.data(),x.sec,x.T?x.T:4096,x.m);default:{auto c=make_bc(MCS[x.k].kind==2);c->key(x.key.data());return omac(*c,x.m);}}}
SUB("P01",mac,4500,80000,64){ MS sl[3];struct F{MS*x;~F(){for(int i=0;i<3;i++)EVP_MAC_CTX_free(x[i].c);}}f{sl};bool hist=false;size_t n=3+s.draw(9);
 for(size_t i=0;i<n;i++){int a=s.draw(3);MS&x=sl[a];int op=!x.c||!x.live?s.draw(x.c?3:1):s.draw(9);if(!x.live&&op==2)op=9;switch(op){
  case 0:{EVP_MAC_CTX_free(x.c);x=MS();x.k=s.draw(5);x.c=EVP_MAC_CTX_new(pm(MCS[x.k].n));REQUIRE(x.c,"MAC context: %s",errs().c_str());x.size=MCS[x.k].def;label(MCS[x.k].n);} // fall through
  case 1:{ // (re)initialise: a key, or the same key again
   size_t sz=x.size,mesh=0,cm=0;OSSL_PARAM q[5];int nq=0;bool own=!x.keyed||!s.chance(1,4);if(own)x.key=s.bytes(32);bool asparam=own&&s.chance(1,4);
   if(s.chance(1,3)){sz=1+s.draw(MCS[x.k].max);q[nq++]=OSSL_PARAM_construct_size_t("size",&sz);}
   if(asparam)q[nq++]=OSSL_PARAM_construct_octet_string("key",x.key.data(),32);
   bool meshed=MCS[x.k].kind==3&&s.chance(1,3);if(MCS[x.k].kind==3&&!meshed&&x.keyed){mesh=4096;cm=4096;q[nq++]=OSSL_PARAM_construct_size_t("key-mesh",&mesh);q[nq++]=OSSL_PARAM_construct_size_t("cipher-key-mesh",&cm);x.sec=4096;x.T=4096;}
   if(meshed){mesh=16*(1+s.draw(8));cm=16*(3+s.draw(20));q[nq++]=OSSL_PARAM_construct_size_t("key-mesh",&mesh);q[nq++]=OSSL_PARAM_construct_size_t("cipher-key-mesh",&cm);label("key-mesh");}
   q[nq]=OSSL_PARAM_construct_end();note("init %d %s%s%s mesh %zu/%zu",a,MCS[x.k].n,own?"":" same key",asparam?" key as parameter":"",mesh,cm);
   REQUIRE(EVP_MAC_init(x.c,own&&!asparam?x.key.data():NULL,own&&!asparam?32:0,q)==1,"MAC init: %s",errs().c_str());if(meshed){x.sec=mesh;x.T=cm;}x.size=sz;x.m.clear();hist|=x.keyed;x.keyed=x.live=true;if(!own)label("same key again");break;}
  case 9:{ // a finished MAC: no more results, sizes may be set
   note("finished %d",a);uint8_t o[64];size_t l=0;switch(s.draw(3)){case 0:REQUIRE(EVP_MAC_final(x.c,o,&l,64)!=1,"a second MAC from a finished context");break;case 1:REQUIRE(EVP_MAC_update(x.c,o,3)!=1,"data added to a finished MAC");break;default:{size_t sz=1+s.draw(20);OSSL_PARAM q[2]={OSSL_PARAM_construct_size_t("size",&sz),OSSL_PARAM_construct_end()};if(EVP_MAC_CTX_set_params(x.c,q)==1){REQUIRE(sz<=MCS[x.k].max,"size %zu accepted",sz);x.size=sz;}}}ERR_clear_error();label("finished MAC");break;}
  case 2:{int b=s.draw(3);if(a==b)break;note("dup %d to %d",a,b);EVP_MAC_CTX*d=EVP_MAC_CTX_dup(x.c);REQUIRE(d,"dup: %s",errs().c_str());EVP_MAC_CTX_free(sl[b].c);sl[b]=x;sl[b].c=d;hist=true;label("duplicated");break;}
  case 3:{Bytes e=sub(mac_ref(x),0,x.size);REQUIRE(EVP_MAC_CTX_get_mac_size(x.c)==x.size,"MAC size %zu expected %zu",EVP_MAC_CTX_get_mac_size(x.c),x.size);Buf o(x.size);size_t l=0;note("final %d (%zu bytes, %zu)",a,x.m.size(),x.size);REQUIRE(EVP_MAC_final(x.c,o.p,&l,x.size)==1,"final: %s",errs().c_str());REQUIRE(l==e.size()&&!memcmp(o.p,e.data(),l),"%s of %zu bytes, size %zu: %s expected %s",MCS[x.k].n,x.m.size(),x.size,hex(o.p,x.size).c_str(),hex(e).c_str());x.live=false;break;}
  default:{Bytes d=s.bytes(s.len(s.chance(1,12)?2500:120,{16,8}));In in(d,s.draw(3));note("update %d %zu",a,d.size());REQUIRE(EVP_MAC_update(x.c,in.p,d.size())==1,"update: %s",errs().c_str());x.m=cat(x.m,d);if(x.m.size()>d.size())hist=true;}}}
 if(hist)nontrivial(); }
SUB("P01",mac_sizes,600,6000,64){ auto&m=MCS[s.draw(5)];EVP_MAC_CTX*c=EVP_MAC_CTX_new(pm(m.n));struct F{EVP_MAC_CTX*c;~F(){EVP_MAC_CTX_free(c);}}f{c};Bytes key=s.bytes(s.chance(1,4)?s.draw(70):32);size_t sz=s.pick<size_t>({0,1,4,7,8,9,15,16,17,20,64,1000});OSSL_PARAM q[2]={OSSL_PARAM_construct_size_t("size",&sz),OSSL_PARAM_construct_end()};note("%s key %zu size %zu",m.n,key.size(),sz);nontrivial();In k(key);
 int r=EVP_MAC_init(c,k.p,key.size(),q);if(sz<1||sz>m.max||key.size()!=32){REQUIRE(r!=1,"%s accepts a key of %zu bytes and a MAC of %zu bytes",m.n,key.size(),sz);ERR_clear_error();label("refused");return;}REQUIRE(r==1,"%s refuses size %zu: %s",m.n,sz,errs().c_str());MS x;x.k=&m-MCS;x.key=key;x.m=s.bytes(40);Bytes e=sub(mac_ref(x),0,sz);REQUIRE(EVP_MAC_update(c,x.m.data(),40)==1,"update");Buf o(sz);size_t l;REQUIRE(EVP_MAC_final(c,o.p,&l,sz)==1&&l==sz&&!memcmp(o.p,e.data(),sz),"MAC of size %zu differs",sz); }
// dispatch tables are walked to their end marker (the module is instrumented)
SUB("P01",tables,40,40,8){ nontrivial();void*h=dlopen(modpath().c_str(),RTLD_NOW);REQUIRE(h,"dlopen");auto init=(OSSL_provider_init_fn*)dlsym(h,"OSSL_provider_init");REQUIRE(init,"no OSSL_provider_init");static const OSSL_DISPATCH none[]={{0,NULL}};const OSSL_DISPATCH*out=nullptr;void*ctx=nullptr;REQUIRE(init((const OSSL_CORE_HANDLE*)1,none,&out,&ctx)==1&&out,"init");OSSL_FUNC_provider_query_operation_fn*q=nullptr;OSSL_FUNC_provider_teardown_fn*td=nullptr;for(auto*d=out;d->function_id;d++){if(d->function_id==OSSL_FUNC_PROVIDER_QUERY_OPERATION)q=OSSL_FUNC_provider_query_operation(d);if(d->function_id==OSSL_FUNC_PROVIDER_TEARDOWN)td=OSSL_FUNC_provider_teardown(d);}REQUIRE(q&&td,"no query operation or teardown");
 size_t total=0;for(int op:{OSSL_OP_CIPHER,OSSL_OP_DIGEST,OSSL_OP_MAC}){int nc=0;const OSSL_ALGORITHM*a=q(ctx,op,&nc);REQUIRE(a,"no algorithms for operation %d",op);for(;a->algorithm_names;a++){size_t n=0;for(auto*d=a->implementation;d->function_id;d++){REQUIRE(++n<64,"%s: dispatch table has no end",a->algorithm_names);REQUIRE(d->function,"%s: null function",a->algorithm_names);}total++;REQUIRE(n>4,"%s: %zu functions",a->algorithm_names,n);}}
 REQUIRE(total==25,"%zu algorithms",total);note("%zu algorithms",total);(void)td; }
// the engine's own cipher object, without loading the engine
#include <openssl/engine.h>
extern "C"{
#define template template_
#include "gost_lcl.h"
#undef template
}
const EVP_CIPHER*engine_cipher(int nid){static std::map<int,EVP_CIPHER*> m;GOST_cipher*all[]={&Gost28147_89_cipher,&Gost28147_89_cbc_cipher,&Gost28147_89_cnt_cipher,&Gost28147_89_cnt_12_cipher,&magma_cbc_cipher,&magma_ctr_cipher,&magma_ctr_acpkm_cipher,&grasshopper_ecb_cipher,&grasshopper_cbc_cipher,&grasshopper_cfb_cipher,&grasshopper_ofb_cipher,&grasshopper_ctr_cipher,&grasshopper_ctr_acpkm_cipher};if(!m[nid]){for(auto g:all)if(g->nid==nid)m[nid]=GOST_init_cipher(g);if(!m[nid])pbt::fail("no engine cipher");}return m[nid];}
int main(int c,char**v){return pbt::run(c,v,setup);}
