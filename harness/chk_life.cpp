// G01 loading, sharing, releasing and reloading: the engine module through ENGINE, the provider module through OSSL_PROVIDER.
// Nothing of the engine is linked into this program: every case is a process that starts without OpenSSL state.
#include "ciphers.h"
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/x509.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <unistd.h>
#include <execinfo.h>
#include <memory>
using namespace ref;
static pbt::Rule r1("G01","histories of loading (listed or not, repeated while loaded), taking and dropping references, making default, registering and unregistering, using digests, ciphers, MACs and keys in contexts that outlive the caller's references, settings, releasing and loading again, and library clean-up in any state; provider: several library contexts loading and unloading the module in any order; scarce: loads and first uses with failing allocations; non-trivial: a failed load, two generations of the engine, or two library contexts at once");
static pbt::Assume a1("G01","an application unregisters the engine before it drops its last reference (OpenSSL's method tables hold engines without references until they are used)");
static pbt::Assume a3("G01","allocations fail only while the module is on the stack, and not inside OBJ_add_object (OpenSSL does not notice every failure there)");
static pbt::Assume a2("G01","libprov (an absent submodule) is replaced by prov/prov/err.h for the provider part");
struct Mute{int o;Mute(){fflush(stdout);o=dup(1);int n=open("/dev/null",O_WRONLY);dup2(n,1);close(n);}~Mute(){fflush(stdout);dup2(o,1);close(o);}};
static std::string env(const char*n){const char*m=getenv(n);if(!m)abort();return m;}
static void clean(const char*what){ OPENSSL_cleanup();long l=live_allocs();if(l)live_dump(what);REQUIRE(l==0,"%s: %ld allocations are left after the library's clean-up",what,l); }
// ---- digests and ciphers with their models
struct DG{const char*n;int sn;HashId h;}; static const DG DGS[]={{"md_gost94",0,H_94},{"md_gost12_256",0,H_12_256},{"md_gost12_512",0,H_12_512}};
struct Hs{EVP_MD_CTX*c=nullptr;int k=0;Bytes m;~Hs(){EVP_MD_CTX_free(c);}}; struct Cs{EVP_CIPHER_CTX*c=nullptr;cm::Model m;~Cs(){EVP_CIPHER_CTX_free(c);}};
static void hfin(Hs&h){uint8_t o[64];unsigned l=0;Bytes e=hash(DGS[h.k].h,h.m);REQUIRE(EVP_DigestFinal_ex(h.c,o,&l)==1,"%s final: %s",DGS[h.k].n,errs().c_str());REQUIRE(Bytes(o,o+l)==e,"%s of %zu bytes: %s expected %s",DGS[h.k].n,h.m.size(),hex(o,l).c_str(),hex(e).c_str());}
static void hupd(Src&s,Hs&h){Bytes d=s.bytes(s.len(90,{32,64}));REQUIRE(EVP_DigestUpdate(h.c,d.data(),d.size())==1,"update: %s",errs().c_str());h.m=cat(h.m,d);}
// ---- engine
static const char*EMPTY="/nonexistent";
static ENGINE*dynload(bool list,bool twice){ ENGINE*d=ENGINE_by_id("dynamic");REQUIRE(d,"no dynamic engine");std::string so=env("PROG_gost");
 bool ok=ENGINE_ctrl_cmd_string(d,"SO_PATH",so.c_str(),0)&&ENGINE_ctrl_cmd_string(d,"ID","gost",0)&&(!list||ENGINE_ctrl_cmd_string(d,"LIST_ADD","1",0));REQUIRE(ok,"dynamic engine: %s",errs().c_str());int r;{Mute m;r=ENGINE_ctrl_cmd_string(d,"LOAD",NULL,0);}
 if(twice){REQUIRE(!r,"a second copy loads beside the first");ERR_clear_error();ENGINE_free(d);return nullptr;}
 REQUIRE(r,"the engine does not load: %s",errs().c_str());REQUIRE(!strcmp(ENGINE_get_id(d),"gost"),"id %s",ENGINE_get_id(d));return d; }
struct World{ ENGINE*e=nullptr; int refs=0,fins=0; bool listed=false,asn=false,reg=false; int sbox=-1,prf=-1; bool wrap=false; std::vector<std::unique_ptr<Hs>> hs; std::vector<std::unique_ptr<Cs>> cs; std::vector<EVP_PKEY*> ks; };
static const char*CN[]={"gost89","gost89-cbc","gost89-cnt-12","kuznyechik-ctr","magma-cbc","kuznyechik-ctr-acpkm","magma-ctr-acpkm"}; static const int CK[]={cm::G_CFB,cm::G_CBC,cm::G_CNT12,cm::Z_CTR,cm::M_CBC,cm::Z_ACPKM,cm::M_ACPKM};
static void names(bool there){ static const char*D[]={"md_gost94","md_gost12_256","md_gost12_512","gost-mac","gost-mac-12","magma-mac","kuznyechik-mac","GOST R 34.11-94","GOST R 34.11-2012 with 256 bit hash","streebog256","streebog512","GOST 28147-89 MAC"};static const char*C[]={"gost89","gost89-cbc","gost89-cnt","gost89-cnt-12","magma-cbc","magma-ctr","magma-ctr-acpkm","kuznyechik-ecb","kuznyechik-cbc","kuznyechik-cfb","kuznyechik-ofb","kuznyechik-ctr","kuznyechik-ctr-acpkm","GOST 28147-89","magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac","magma-mgm","kuznyechik-mgm"};
 for(auto n:D){const EVP_MD*m=EVP_get_digestbyname(n);REQUIRE((m!=NULL)==there,"digest %s is %s",n,there?"not offered while the engine is loaded":"still offered after the engine is gone");if(m){uint8_t o[64];REQUIRE(EVP_MD_get_size(m)>0,"%s",n);}}
 for(auto n:C){const EVP_CIPHER*m=EVP_get_cipherbyname(n);REQUIRE((m!=NULL)==there,"cipher %s is %s",n,there?"not offered while the engine is loaded":"still offered after the engine is gone");if(m)REQUIRE(EVP_CIPHER_get_key_length(m)==32,"%s",n);} }
static void sign_with(Src&s,EVP_PKEY*k){ Bytes h=s.rnd(EVP_PKEY_get_bits(k)>256?64:32);h.back()|=1;EVP_PKEY_CTX*c=EVP_PKEY_CTX_new(k,NULL);REQUIRE(c,"context for a key: %s",errs().c_str());struct F{EVP_PKEY_CTX*c;~F(){EVP_PKEY_CTX_free(c);}}f{c};uint8_t sig[200];size_t l=sizeof sig;REQUIRE(EVP_PKEY_sign_init(c)==1&&EVP_PKEY_sign(c,sig,&l,h.data(),h.size())==1,"sign: %s",errs().c_str());REQUIRE(EVP_PKEY_verify_init(c)==1&&EVP_PKEY_verify(c,sig,l,h.data(),h.size())==1,"verify: %s",errs().c_str());h[s.draw(h.size())]^=1<<s.draw(8);REQUIRE(EVP_PKEY_verify(c,sig,l,h.data(),h.size())!=1,"verify accepts another digest");ERR_clear_error(); }
static void unregister(ENGINE*e,int w){ if(w&1)ENGINE_unregister_ciphers(e);if(w&2)ENGINE_unregister_digests(e);if(w&4)ENGINE_unregister_pkey_meths(e);if(w&8)ENGINE_unregister_pkey_asn1_meths(e); }
static void new_hash(Src&s,World&w){ auto h=std::make_unique<Hs>();h->k=s.draw(3);h->c=EVP_MD_CTX_new();const EVP_MD*m=s.flip()?EVP_get_digestbyname(DGS[h->k].n):ENGINE_get_digest(w.e,OBJ_sn2nid(DGS[h->k].n));REQUIRE(m,"no %s: %s",DGS[h->k].n,errs().c_str());REQUIRE(EVP_DigestInit_ex(h->c,m,w.e)==1,"init: %s",errs().c_str());hupd(s,*h);w.hs.push_back(std::move(h)); }
static void new_cipher(Src&s,World&w){ auto x=std::make_unique<Cs>();int i=s.draw(7);x->c=EVP_CIPHER_CTX_new();cm::Spec p=cm::gen_spec(s,CK[i]);if(p.k==cm::G_CFB||p.k==cm::G_CBC)p.sbox=w.sbox;p.enc=s.flip();const EVP_CIPHER*m=s.flip()?EVP_get_cipherbyname(CN[i]):ENGINE_get_cipher(w.e,OBJ_sn2nid(CN[i]));REQUIRE(m,"no %s: %s",CN[i],errs().c_str());
 REQUIRE(EVP_CipherInit_ex(x->c,m,w.e,p.key.data(),cm::info(p.k).ivlen?p.iv.data():NULL,p.enc)==1,"%s init: %s",CN[i],errs().c_str());EVP_CIPHER_CTX_set_padding(x->c,p.pad);x->m=cm::Model(p);w.cs.push_back(std::move(x)); }
static void use_some(Src&s,World&w,const char*who){ if(w.hs.size()&&s.flip())hupd(s,*w.hs[s.draw(w.hs.size())]);if(w.cs.size()&&s.flip()){auto&c=*w.cs[s.draw(w.cs.size())];cm::step(c.c,c.m,s.bytes(cm::gen_len(s,c.m.sp.k)),false,0,who);}if(w.asn&&w.ks.size()&&s.chance(1,4))sign_with(s,w.ks[s.draw(w.ks.size())]); }
static void release(Src&s,World&w){ // everything, in any order; contexts keep working as long as they exist
 int todo[5]={1,1,1,1,1};bool had=w.hs.size()+w.cs.size()+w.ks.size();int mask=0;
 for(;;){ int left=0;for(int i=0;i<5;i++)left+=todo[i];if(!left)break;int k=s.draw(left),op=0;while(!todo[op]||k-->0)op++;
  // unregistering comes before the last reference goes
  if(op==1&&todo[0])op=0;if((op==2||op==3||op==4)&&todo[0]&&!w.refs&&!w.fins)op=0;
  todo[op]=0;
  switch(op){
   case 0:note("unregister");unregister(w.e,15);w.asn=w.reg=false;break;
   case 1:note("drop %d references, %d functional",w.refs,w.fins);if(w.listed){REQUIRE(ENGINE_remove(w.e),"remove: %s",errs().c_str());w.listed=false;}{bool fin1=s.flip();if(fin1){for(;w.fins;w.fins--)REQUIRE(ENGINE_finish(w.e),"finish");}for(;w.refs;w.refs--)REQUIRE(ENGINE_free(w.e),"free");for(;w.fins;w.fins--)REQUIRE(ENGINE_finish(w.e),"finish");}if(w.hs.size()+w.cs.size()+w.ks.size())label("contexts outlive the caller's references");break;
   case 2:use_some(s,w,"release");for(auto&h:w.hs)if(s.flip())hfin(*h);w.hs.clear();break;
   case 3:use_some(s,w,"release");for(auto&c:w.cs)if(s.flip())cm::finish(c->c,c->m,"release");w.cs.clear();break;
   case 4:for(auto k:w.ks){if(w.asn&&s.chance(1,3))sign_with(s,k);EVP_PKEY_free(k);}w.ks.clear();break;} }
 note("released");w.e=nullptr;w.sbox=w.prf=-1;w.wrap=false;w.asn=w.reg=false; }
static void settings(Src&s,World&w){ // what the settings in force do
 EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new();Bytes key=s.rnd(32),iv=s.rnd(8);int nid=0,want[]={NID_id_tc26_hmac_gost_3411_2012_256,NID_id_tc26_hmac_gost_3411_2012_512,NID_id_HMACGostR3411_94};int r=EVP_CipherInit_ex(c,EVP_get_cipherbyname("gost89"),w.e,key.data(),iv.data(),1)==1&&EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,&nid)==1;EVP_CIPHER_CTX_free(c);REQUIRE(r,"PRF of gost89: %s",errs().c_str());REQUIRE(nid==want[w.prf<0?1:w.prf],"PRF %s, setting %d",OBJ_nid2sn(nid),w.prf);
 if(w.asn&&w.ks.size()){ EVP_PKEY*k=w.ks[s.draw(w.ks.size())];PKCS8_PRIV_KEY_INFO*p=EVP_PKEY2PKCS8(k);REQUIRE(p,"PKCS8: %s",errs().c_str());const uint8_t*d=nullptr;int l=0;PKCS8_pkey_get0(NULL,&d,&l,NULL,p);int kl=EVP_PKEY_get_bits(k)>256?64:32;bool wr=l==kl+2&&d[0]==4&&d[1]==kl,raw=l==kl;PKCS8_PRIV_KEY_INFO_free(p);REQUIRE(w.wrap?wr:raw,"private key of %d octets, wrapped by the setting: %d",l,w.wrap);label("key format"); } }
static EVP_PKEY*new_key(Src&s){ static const struct{const char*t,*p;}T[]={{"gost2012_256","TCA"},{"gost2012_256","A"},{"gost2012_512","A"},{"gost2001","XA"},{"gost2001","B"}};auto&t=T[s.draw(5)];int nid=!strcmp(t.t,"gost2012_256")?NID_id_GostR3410_2012_256:!strcmp(t.t,"gost2012_512")?NID_id_GostR3410_2012_512:NID_id_GostR3410_2001;
 EVP_PKEY_CTX*c=EVP_PKEY_CTX_new_id(nid,NULL);REQUIRE(c,"key context: %s",errs().c_str());struct F{EVP_PKEY_CTX*c;~F(){EVP_PKEY_CTX_free(c);}}f{c};EVP_PKEY*k=nullptr;REQUIRE(EVP_PKEY_keygen_init(c)==1&&EVP_PKEY_CTX_ctrl_str(c,"paramset",t.p)==1&&EVP_PKEY_keygen(c,&k)==1,"keygen %s:%s: %s",t.t,t.p,errs().c_str());return k; }
static void fresh(){ setenv("OPENSSL_ENGINES",EMPTY,1);env_bare(); }
SUB("G01",engine,4000,60000,1){ fresh();if(s.chance(1,3)){REQUIRE(dlopen(env("PROG_gost").c_str(),RTLD_NOW|RTLD_LOCAL),"dlopen: %s",dlerror());label("module stays mapped");}World w;int gens=0;size_t n=4+s.draw(24);bool early=s.chance(1,4); // early: the library has been used before the first load
 if(early){label("library used before");const EVP_MD*m=EVP_get_digestbyname("md_gost12_256");REQUIRE(!m,"an engine digest before loading");EVP_MD*f=EVP_MD_fetch(NULL,"SHA256",NULL);EVP_MD_free(f);}
 for(size_t i=0;i<n;i++){
  if(!w.e){ if(gens&&s.chance(1,8)){names(false);continue;} bool list=s.flip();note("load%s",list?" listed":"");w.e=dynload(list,false);w.listed=list;w.refs=1;w.reg=true;gens++;if(s.chance(1,3))names(true);continue; }
  switch(s.draw(16)){
   case 0:note("second load");dynload(s.flip(),true);break;
   case 1:if(w.refs<6){ if(w.listed&&s.flip()){ENGINE*x=ENGINE_by_id("gost");REQUIRE(x==w.e,"ENGINE_by_id gives another engine");}else ENGINE_up_ref(w.e);w.refs++;}break;
   case 2:if(w.refs>1){ENGINE_free(w.e);w.refs--;}break;
   case 3:if(w.fins<5){REQUIRE(ENGINE_init(w.e)==1,"init: %s",errs().c_str());w.fins++;}break;
   case 4:if(w.fins){ENGINE_finish(w.e);w.fins--;}break;
   case 5:note("default");if(s.flip())REQUIRE(ENGINE_set_default(w.e,ENGINE_METHOD_ALL),"set_default: %s",errs().c_str());else REQUIRE(ENGINE_set_default_string(w.e,"ALL")&&ENGINE_register_complete(w.e),"set_default_string: %s",errs().c_str());w.asn=w.reg=true;break;
   case 6:{int m=s.draw(16);note("unregister %d",m);unregister(w.e,m);if(m&4)w.reg=false;if(m&8)w.asn=false;break;}
   case 7:{auto&d=DGS[s.draw(3)];Bytes m=s.bytes(s.len(100,{32,64}));const EVP_MD*md=EVP_get_digestbyname(d.n);REQUIRE(md,"no %s",d.n);uint8_t o[64];unsigned l;REQUIRE(EVP_Digest(m.data(),m.size(),o,&l,md,s.flip()?w.e:NULL)==1,"%s: %s",d.n,errs().c_str());REQUIRE(Bytes(o,o+l)==hash(d.h,m),"%s of %zu bytes differs",d.n,m.size());break;}
   case 8:if(w.hs.size()<3)new_hash(s,w);break;
   case 9:if(w.cs.size()<3)new_cipher(s,w);break;
   case 10:use_some(s,w,"engine");break;
   case 11:if(w.asn&&w.reg&&w.ks.size()<2){note("key");w.ks.push_back(new_key(s));label("key");}break;
   case 12:{static const char*P[]={"id-Gost28147-89-CryptoPro-A-ParamSet","id-Gost28147-89-CryptoPro-B-ParamSet","id-Gost28147-89-CryptoPro-D-ParamSet"};static const char*S[]={"CryptoPro_A","CryptoPro_B","CryptoPro_D"};int k=s.draw(3);int what=s.draw(4);if(what==1){static const char*H[]={"md_gost12_256","md_gost12_512","md_gost94"};note("PBE_PARAMS %s",H[k]);REQUIRE(ENGINE_ctrl_cmd_string(w.e,"PBE_PARAMS",H[k],0)==1,"PBE_PARAMS: %s",errs().c_str());w.prf=k;break;}if(what==2){note("GOST_PK_FORMAT %d",k);REQUIRE(ENGINE_ctrl_cmd_string(w.e,"GOST_PK_FORMAT",k?"LEGACY_PK_WRAP":"RAW",0)==1,"GOST_PK_FORMAT: %s",errs().c_str());w.wrap=k;break;}if(what==3){settings(s,w);break;}note("CRYPT_PARAMS %s",S[k]);REQUIRE(ENGINE_ctrl_cmd_string(w.e,"CRYPT_PARAMS",P[k],0)==1,"CRYPT_PARAMS: %s",errs().c_str());w.sbox=sbox_by_name(S[k]);break;}
   case 13:if(s.flip()){ // a MAC key type and a MAC
     if(!(w.asn&&w.reg))break;Bytes key=s.rnd(32),m=s.bytes(s.len(60,{8,16}));EVP_PKEY*k=EVP_PKEY_new_mac_key(NID_grasshopper_mac,NULL,key.data(),32);REQUIRE(k,"MAC key: %s",errs().c_str());EVP_MD_CTX*c=EVP_MD_CTX_new();uint8_t o[64];size_t l=16;int r=EVP_DigestSignInit(c,NULL,EVP_get_digestbyname("kuznyechik-mac"),NULL,k)==1&&EVP_DigestSignUpdate(c,m.data(),m.size())==1&&EVP_DigestSignFinal(c,o,&l)==1;std::string er=r?"":errs();EVP_MD_CTX_free(c);EVP_PKEY_free(k);REQUIRE(r,"MAC: %s",er.c_str());auto bc=make_bc(true);bc->key(key.data());Bytes e=omac(*bc,m);e.resize(std::min<size_t>(l,16));REQUIRE(l>=8&&Bytes(o,o+l)==e,"kuznyechik-mac differs");label("MAC");}
     else{settings(s,w);}break;
   case 14:names(true);break;
   default:{release(s,w);names(false);{ENGINE*x=ENGINE_by_id("gost");REQUIRE(!x,"the engine is still listed");}ERR_clear_error();break;} } }
 if(gens>1){nontrivial();label("generations "+std::to_string(std::min(gens,4)));}
 if(w.e){ bool full=s.flip();if(full){release(s,w);names(false);label("released before clean-up");}
  else{ note("clean-up while loaded");label("clean-up while loaded");w.hs.clear();w.cs.clear();for(auto k:w.ks)EVP_PKEY_free(k);for(;w.fins;w.fins--)ENGINE_finish(w.e);bool keep=!w.listed;if(keep)label("only registered");for(;w.refs>(keep?1:0);w.refs--)ENGINE_free(w.e);if(keep){unregister(w.e,15);ENGINE_free(w.e);} } }
 clean("engine"); }
// ---- loading, and first uses, while memory runs out: allocations made while the module is on the stack fail
static struct{int kind=0;long j=0,n=0,hit=0;bool on=false;std::string so;}F;
static bool adeny(const char*f){ if(!F.on)return false;F.on=false;void*a[64];int n=backtrace(a,64);bool in=false,obj=false;for(int i=0;i<n&&!in;i++){Dl_info d;if(dladdr(a[i],&d)&&d.dli_fname){in=!strcmp(d.dli_fname,F.so.c_str());obj|=d.dli_sname&&!strcmp(d.dli_sname,"OBJ_add_object");}}F.on=true;if(!in||obj)return false;long i=F.n++;bool x=F.kind==1?i==F.j:i>=F.j;if(x){F.hit++;if(getenv("VERIF_LEAKS")){F.on=false;fprintf(stderr,"DENY %s\n",f?f:"");void*b[40];backtrace_symbols_fd(b,backtrace(b,40),2);F.on=true;}}return x; }
static bool rdeny(){return false;}
struct Under{Under(Src&s,long most){F.kind=s.flip()?2:1;F.j=s.draw(most);F.n=F.hit=0;F.on=true;}~Under(){F.on=false;F.kind=0;}};
SUB("G01",scarce,1500,20000,1){ fresh();deny_hooks(adeny,rdeny);bool stays=s.chance(1,2)||getenv("VERIF_LEAKS");if(stays)REQUIRE(dlopen(env("PROG_gost").c_str(),RTLD_NOW|RTLD_LOCAL),"dlopen: %s",dlerror());World w;int rounds=1+s.draw(3);names(false);/* the library has its own tables and locks */std::string so=F.so=env("PROG_gost");
 for(int r=0;r<rounds;r++){ int tries=s.draw(3);
  for(int i=0;i<tries&&!w.e;i++){ ENGINE*d=ENGINE_by_id("dynamic");REQUIRE(d,"no dynamic engine");bool list=s.flip();REQUIRE(ENGINE_ctrl_cmd_string(d,"SO_PATH",so.c_str(),0)&&ENGINE_ctrl_cmd_string(d,"ID","gost",0)&&(!list||ENGINE_ctrl_cmd_string(d,"LIST_ADD","1",0)),"dynamic engine: %s",errs().c_str());
   int ok;{Mute m;Under u(s,s.pick({10,100,900}));ok=ENGINE_ctrl_cmd_string(d,"LOAD",NULL,0);}std::string er=errs();note("load under a fault (%ld of %ld allocations failed): %d",F.hit,F.n,ok);
   if(ok){w.e=d;w.listed=list;w.refs=1;w.reg=true;label(F.hit?"loaded in spite of a fault":"loaded without a fault");}else{REQUIRE(F.hit,"the engine does not load (no allocation failed): %s",er.c_str());ENGINE_free(d);nontrivial();label("load failed");names(false);ENGINE*x=ENGINE_by_id("gost");REQUIRE(!x,"an engine that did not load is listed");ERR_clear_error();} }
  if(!w.e){w.e=dynload(s.flip(),false);w.refs=1;w.reg=true;w.listed=false;{ENGINE*x=ENGINE_by_id("gost");ERR_clear_error();if(x){w.listed=true;ENGINE_free(x);}}}
  names(true);
  for(int k:{NID_id_GostR3410_2001,NID_id_GostR3410_2001DH,NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512,NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac}){REQUIRE(ENGINE_get_pkey_meth(w.e,k),"the engine loaded without the operations of %s",OBJ_nid2sn(k));REQUIRE(ENGINE_get_pkey_asn1_meth(w.e,k),"the engine loaded without the encodings of %s",OBJ_nid2sn(k));}
  // first uses with a fault, then without
  bool asn=s.flip();if(asn){REQUIRE(ENGINE_set_default(w.e,ENGINE_METHOD_ALL),"set_default: %s",errs().c_str());w.asn=true;}
  for(int i=s.draw(4);i>0;i--){ int what=s.draw(4);label("first use");
   switch(what){
    case 0:if(w.asn){EVP_PKEY_CTX*c=EVP_PKEY_CTX_new_id(NID_id_GostR3410_2012_256,NULL);REQUIRE(c,"key context");EVP_PKEY*k=NULL;{Under u(s,s.pick({2,10,60}));if(EVP_PKEY_keygen_init(c)==1&&EVP_PKEY_CTX_ctrl_str(c,"paramset","A")==1)EVP_PKEY_keygen(c,&k);}ERR_clear_error();if(k)w.ks.push_back(k);EVP_PKEY_CTX_free(c);k=new_key(s);sign_with(s,k);w.ks.push_back(k);}break;
    case 1:{int r;{Under u(s,3);r=ENGINE_ctrl_cmd_string(w.e,"CRYPT_PARAMS","id-Gost28147-89-CryptoPro-B-ParamSet",0);}ERR_clear_error();note("control under a fault: %d",r);REQUIRE(ENGINE_ctrl_cmd_string(w.e,"CRYPT_PARAMS","id-Gost28147-89-CryptoPro-A-ParamSet",0)==1,"a control after one that met a fault: %s",errs().c_str());w.sbox=sbox_by_name("CryptoPro_A");break;}
    case 2:{auto c=EVP_CIPHER_CTX_new();Bytes key=s.rnd(32),iv=s.rnd(16);{Under u(s,4);EVP_CipherInit_ex(c,EVP_get_cipherbyname(s.pick({"gost89","kuznyechik-ctr-acpkm-omac","magma-mgm"})),w.e,key.data(),iv.data(),1);}ERR_clear_error();EVP_CIPHER_CTX_free(c);new_cipher(s,w);break;}
    default:{auto c=EVP_MD_CTX_new();uint8_t o[64];unsigned l;{Under u(s,4);if(EVP_DigestInit_ex(c,EVP_get_digestbyname(DGS[s.draw(3)].n),w.e)==1)EVP_DigestFinal_ex(c,o,&l);}ERR_clear_error();EVP_MD_CTX_free(c);new_hash(s,w);break;} }
   use_some(s,w,"engine"); }
  release(s,w);names(false); }
 clean("engine that met faults"); }
// ---- provider
struct MC{const char*n;int kind;size_t def;}; static const MC MCS[]={{"gost-mac",0,4},{"gost-mac-12",0,4},{"magma-mac",1,8},{"kuznyechik-mac",2,16},{"kuznyechik-ctr-acpkm-omac",3,16}};
struct Ms{EVP_MAC_CTX*c=nullptr;int k=0;Bytes key,m;~Ms(){EVP_MAC_CTX_free(c);}};
static const int ALL[]={cm::G_CFB,cm::G_CBC,cm::G_CNT,cm::G_CNT12,cm::M_CBC,cm::M_CTR,cm::M_ACPKM,cm::Z_ECB,cm::Z_CBC,cm::Z_CFB,cm::Z_OFB,cm::Z_CTR,cm::Z_ACPKM};
static void mgm_once(Src&s,OSSL_LIB_CTX*l){ bool z=s.flip();size_t b=z?16:8;Bytes key=s.rnd(32),nonce=s.rnd(b),aad=s.bytes(s.draw(40)),pt=s.bytes(1+s.draw(60));nonce[0]&=0x7f;auto bc=make_bc(z);bc->key(key.data());MgmOut e=mgm(*bc,nonce,aad,pt,true);EVP_CIPHER*d=EVP_CIPHER_fetch(l,z?"kuznyechik-mgm":"magma-mgm",NULL);REQUIRE(d,"fetch MGM: %s",errs().c_str());EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new();Bytes o(pt.size()+32);uint8_t t[16];int n=0,m=0;
 int r=EVP_CipherInit_ex2(c,d,key.data(),nonce.data(),1,NULL)==1&&(aad.empty()||EVP_CipherUpdate(c,NULL,&n,aad.data(),aad.size())==1)&&EVP_CipherUpdate(c,o.data(),&n,pt.data(),pt.size())==1&&EVP_CipherFinal_ex(c,t,&m)==1&&EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,b,t)==1;std::string er=r?"":errs();EVP_CIPHER_CTX_free(c);EVP_CIPHER_free(d);REQUIRE(r,"MGM: %s",er.c_str());o.resize(n);REQUIRE(o==e.ct&&!memcmp(t,e.tag.data(),b),"MGM output or tag differs"); }
struct Lib{ OSSL_LIB_CTX*l=nullptr;bool there=false;OSSL_PROVIDER*p=nullptr;std::vector<std::unique_ptr<Hs>> hs;std::vector<std::unique_ptr<Cs>> cs;std::vector<std::unique_ptr<Ms>> ms; };
static bool offered(OSSL_LIB_CTX*l){ EVP_MD*m=EVP_MD_fetch(l,"md_gost12_256",NULL);EVP_CIPHER*c=EVP_CIPHER_fetch(l,"kuznyechik-ctr",NULL);EVP_MAC*a=EVP_MAC_fetch(l,"kuznyechik-mac",NULL);bool x=m,y=c,z=a;EVP_MD_free(m);EVP_CIPHER_free(c);EVP_MAC_free(a);ERR_clear_error();REQUIRE(x==y&&y==z,"digest %s, cipher %s, MAC %s offered",x?"":"not",y?"":"not",z?"":"not");return x; }
static void mfin(Ms&x){ auto&k=MCS[x.k];Bytes e;switch(k.kind){case 0:e=gost89_mac(sbox_by_name(x.k==0?"CryptoPro_A":"TC26_Z"),true,x.key.data(),NULL,x.m,8);break;case 3:e=omac_acpkm(x.key.data(),4096,4096,x.m);break;default:{auto c=make_bc(k.kind==2);c->key(x.key.data());e=omac(*c,x.m);}}
 uint8_t o[32];size_t l=0;REQUIRE(EVP_MAC_final(x.c,o,&l,32)==1,"%s final: %s",k.n,errs().c_str());REQUIRE(l==k.def&&!memcmp(o,e.data(),l),"%s of %zu bytes: %s expected %s",k.n,x.m.size(),hex(o,l).c_str(),hex(e).c_str()); }
static void puse(Src&s,Lib&b){ switch(s.draw(6)){
 case 0:if(b.hs.size())hupd(s,*b.hs[s.draw(b.hs.size())]);break;
 case 1:if(b.cs.size()){auto&c=*b.cs[s.draw(b.cs.size())];cm::step(c.c,c.m,s.bytes(cm::gen_len(s,c.m.sp.k)),false,0,"provider");}break;
 case 2:if(b.ms.size()){auto&x=*b.ms[s.draw(b.ms.size())];Bytes d=s.bytes(s.len(60,{16}));REQUIRE(EVP_MAC_update(x.c,d.data(),d.size())==1,"MAC update: %s",errs().c_str());x.m=cat(x.m,d);}break;
 case 3:if(b.hs.size()){hfin(*b.hs.back());b.hs.pop_back();}break;
 case 4:if(b.cs.size()){cm::finish(b.cs.back()->c,b.cs.back()->m,"provider");b.cs.pop_back();}break;
 default:if(b.ms.size()){mfin(*b.ms.back());b.ms.pop_back();}break;} }
static bool busy(Lib&b){return b.hs.size()+b.cs.size()+b.ms.size();}
static void drop(Src&s,Lib&b){ for(auto&h:b.hs)if(s.flip())hfin(*h);for(auto&c:b.cs)if(s.flip())cm::finish(c->c,c->m,"provider");for(auto&m:b.ms)if(s.flip())mfin(*m);b.hs.clear();b.cs.clear();b.ms.clear(); }
SUB("G01",provider,2500,40000,1){ fresh();std::string m=env("PROG_gostprov");size_t sl=m.rfind('/');std::string dir=m.substr(0,sl),nm=m.substr(sl+1);nm=nm.substr(0,nm.size()-3);Lib L[3];L[0].there=true;int loads=0,most=0;
 auto load=[&](Lib&b){OSSL_PROVIDER_set_default_search_path(b.l,dir.c_str());b.p=OSSL_PROVIDER_load(b.l,nm.c_str());REQUIRE(b.p,"the provider does not load: %s",errs().c_str());loads++;int now=0;for(auto&x:L)now+=x.p!=nullptr;most=std::max(most,now);};
 size_t n=5+s.draw(30);for(size_t i=0;i<n;i++){ int k=s.draw(3);Lib&b=L[k];
  if(!b.there){note("library context %d",k);b.l=OSSL_LIB_CTX_new();REQUIRE(b.l,"OSSL_LIB_CTX_new");b.there=true;continue;}
  if(!b.p){ if(!busy(b)&&s.chance(1,4))REQUIRE(!offered(b.l),"algorithms offered without the provider");if(busy(b)&&s.flip()){puse(s,b);continue;}note("load %d",k);load(b);REQUIRE(offered(b.l),"algorithms of the provider are not offered: %s",errs().c_str());continue;}
  switch(s.draw(11)){
   case 0:note("unload %d%s",k,busy(b)?" with contexts":"");if(busy(b))label("contexts outlive the unload");REQUIRE(OSSL_PROVIDER_unload(b.p)==1,"unload");b.p=nullptr;if(!busy(b))REQUIRE(!offered(b.l),"algorithms offered after the provider is gone");break;
   case 1:if(b.hs.size()<2){auto h=std::make_unique<Hs>();h->k=s.draw(3);EVP_MD*d=EVP_MD_fetch(b.l,DGS[h->k].n,NULL);REQUIRE(d,"fetch: %s",errs().c_str());h->c=EVP_MD_CTX_new();int r=EVP_DigestInit_ex2(h->c,d,NULL);EVP_MD_free(d);REQUIRE(r==1,"init: %s",errs().c_str());hupd(s,*h);b.hs.push_back(std::move(h));}break;
   case 2:if(b.cs.size()<2){auto x=std::make_unique<Cs>();const auto&in=cm::info(ALL[s.draw(13)]);cm::Spec p=cm::gen_spec(s,&in-&cm::info(0));p.enc=s.flip();EVP_CIPHER*d=EVP_CIPHER_fetch(b.l,in.name,NULL);REQUIRE(d,"fetch %s: %s",in.name,errs().c_str());x->c=EVP_CIPHER_CTX_new();int r=EVP_CipherInit_ex2(x->c,d,p.key.data(),cm::info(p.k).ivlen?p.iv.data():NULL,p.enc,NULL);EVP_CIPHER_free(d);REQUIRE(r==1,"init %s: %s",in.name,errs().c_str());EVP_CIPHER_CTX_set_padding(x->c,p.pad);x->m=cm::Model(p);b.cs.push_back(std::move(x));}break;
   case 3:if(b.ms.size()<2){auto x=std::make_unique<Ms>();x->k=s.draw(5);x->key=s.rnd(32);EVP_MAC*d=EVP_MAC_fetch(b.l,MCS[x->k].n,NULL);REQUIRE(d,"fetch MAC: %s",errs().c_str());x->c=EVP_MAC_CTX_new(d);EVP_MAC_free(d);REQUIRE(EVP_MAC_init(x->c,x->key.data(),32,NULL)==1,"%s init: %s",MCS[x->k].n,errs().c_str());b.ms.push_back(std::move(x));}break;
   case 7:{ // duplicates
     int w=s.draw(4);if(w==0&&b.hs.size()==1){auto h=std::make_unique<Hs>();h->k=b.hs[0]->k;h->m=b.hs[0]->m;h->c=EVP_MD_CTX_new();REQUIRE(EVP_MD_CTX_copy_ex(h->c,b.hs[0]->c)==1,"copy: %s",errs().c_str());b.hs.push_back(std::move(h));}
     if(w==1&&b.cs.size()==1){auto x=std::make_unique<Cs>();x->m=b.cs[0]->m;x->c=EVP_CIPHER_CTX_new();REQUIRE(EVP_CIPHER_CTX_copy(x->c,b.cs[0]->c)==1,"copy: %s",errs().c_str());b.cs.push_back(std::move(x));}
     if(w==2&&b.ms.size()==1){auto x=std::make_unique<Ms>();x->k=b.ms[0]->k;x->key=b.ms[0]->key;x->m=b.ms[0]->m;x->c=EVP_MAC_CTX_dup(b.ms[0]->c);REQUIRE(x->c,"dup: %s",errs().c_str());b.ms.push_back(std::move(x));}
     if(w==3)mgm_once(s,b.l);break;}
   case 4:if(s.chance(1,3)){note("drop contexts %d",k);drop(s,b);}break;
   case 5:{ // a failure that the provider reports
     EVP_MAC*d=EVP_MAC_fetch(b.l,"gost-mac",NULL);REQUIRE(d,"fetch MAC: %s",errs().c_str());EVP_MAC_CTX*c=EVP_MAC_CTX_new(d);EVP_MAC_free(d);uint8_t key[16]={1};int r=EVP_MAC_init(c,key,16,NULL);EVP_MAC_CTX_free(c);REQUIRE(r!=1,"a short key is accepted");errs();label("error reported");break;}
   case 6:if(k&&s.flip()){ // the library context goes, with everything of it
     note("free library context %d",k);drop(s,b);OSSL_PROVIDER_unload(b.p);OSSL_LIB_CTX_free(b.l);b.l=nullptr;b.p=nullptr;b.there=false;label("library context freed");}break;
   default:puse(s,b);} }
 if(most>1){nontrivial();label("loaded "+std::to_string(most)+" times at once");}if(loads>1)label("loaded again");
 for(int k=2;k>=0;k--)drop(s,L[k]);for(int k=2;k>=0;k--){Lib&b=L[k];if(b.p)OSSL_PROVIDER_unload(b.p);if(k&&b.there)OSSL_LIB_CTX_free(b.l);}
 clean("provider"); }
SUB("G01",both,500,5000,1){ // the engine and the provider in one process do not take anything from each other
 fresh();std::string m=env("PROG_gostprov");size_t sl=m.rfind('/');std::string dir=m.substr(0,sl),nm=m.substr(sl+1);nm=nm.substr(0,nm.size()-3);World w;OSSL_LIB_CTX*l=s.flip()?OSSL_LIB_CTX_new():NULL;OSSL_PROVIDER_set_default_search_path(l,dir.c_str());OSSL_PROVIDER*p=nullptr;int both=0;std::vector<std::unique_ptr<Ms>> ms;
 size_t n=4+s.draw(14);for(size_t i=0;i<n;i++){ switch(s.draw(8)){
  case 0:case 1:if(!w.e){if(ms.size())break; /* may still hold the engine released before */note("load engine");w.e=dynload(false,false);w.refs=1;w.reg=true;}else if(s.flip()){note("release engine");release(s,w);if(ms.empty())names(false);else label("MAC of the provider holds the engine");}break;
  case 2:case 3:if(!p){note("load provider");p=OSSL_PROVIDER_load(l,nm.c_str());REQUIRE(p,"the provider does not load: %s",errs().c_str());REQUIRE(offered(l),"not offered");}else if(s.flip()){ms.clear();note("unload provider");OSSL_PROVIDER_unload(p);p=nullptr;REQUIRE(!offered(l),"algorithms offered after the provider is gone");}break;
  case 4:if(w.e){if(w.hs.size()<2)new_hash(s,w);if(w.cs.size()<2)new_cipher(s,w);}break;
  case 5:if(w.e)use_some(s,w,"engine");break;
  case 6:if(p&&s.flip()){auto&d=DGS[s.draw(3)];EVP_MD*m=EVP_MD_fetch(l,d.n,NULL);REQUIRE(m,"fetch %s: %s",d.n,errs().c_str());Bytes x=s.bytes(s.draw(80));uint8_t o[64];unsigned k=0;int r=EVP_Digest(x.data(),x.size(),o,&k,m,NULL);EVP_MD_free(m);REQUIRE(r==1&&Bytes(o,o+k)==hash(d.h,x),"%s of %zu bytes differs",d.n,x.size());note("digest %s",d.n);}
   else if(p){ if(ms.size()<2){auto x=std::make_unique<Ms>();x->k=s.draw(5);x->key=s.rnd(32);EVP_MAC*d=EVP_MAC_fetch(l,MCS[x->k].n,NULL);REQUIRE(d,"fetch MAC: %s",errs().c_str());x->c=EVP_MAC_CTX_new(d);EVP_MAC_free(d);REQUIRE(EVP_MAC_init(x->c,x->key.data(),32,NULL)==1,"%s init: %s",MCS[x->k].n,errs().c_str());ms.push_back(std::move(x));}else{auto&x=*ms.back();Bytes d=s.bytes(s.len(60,{16}));REQUIRE(EVP_MAC_update(x.c,d.data(),d.size())==1,"MAC update: %s",errs().c_str());x.m=cat(x.m,d);mfin(x);ms.pop_back();}}break;
  default:if(w.e||ms.empty())names(w.e!=nullptr);if(w.e){for(auto a:{std::make_pair("streebog256",H_12_256),std::make_pair("streebog512",H_12_512)}){uint8_t o[64];unsigned k=0;Bytes x=s.bytes(s.draw(40));REQUIRE(EVP_Digest(x.data(),x.size(),o,&k,EVP_get_digestbyname(a.first),NULL)==1,"%s: %s",a.first,errs().c_str());REQUIRE(Bytes(o,o+k)==hash(a.second,x),"%s differs",a.first);}}break;}
  if(w.e&&p)both=1; }
 if(both)nontrivial();if(w.e)release(s,w);ms.clear();if(p)OSSL_PROVIDER_unload(p);if(l)OSSL_LIB_CTX_free(l);clean("engine and provider"); }
int main(int c,char**v){return pbt::run(c,v,nullptr);}
