// F01 faults: an operation that meets a failing allocation or random source fails or gives the right result, and leaves later operations as they were
#include "kx.h"
#include "ciphers.h"
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/cms.h>
#include <openssl/hmac.h>
#include <openssl/provider.h>
#include <functional>
#include <memory>
#include <dlfcn.h>
#include <execinfo.h>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace ec;
static pbt::Rule r1("F01","points: one operation (19 families over all key types, parameter sets, ciphers, digests, MACs, certificates, messages and settings) run without faults for its expected outcome, then with one allocation, every allocation from one on, or the random source from one call on failing while engine code runs: it must fail or give the expected outcome, and the same operation on the same objects (also on the context that met the fault, set up afresh) must then give the expected outcome; repeated three times, a run with one fault leaves no more behind each time; cold runs drop the cached groups first; provider: the same for the provider's ciphers, digests and MACs, with duplicated contexts, and for faults while it is loaded or first used, the engine's results being expected; non-trivial: at least one fault was met and the operation failed for it");
static pbt::Assume a1("F01","allocations are those made through OpenSSL's allocator while a function of the engine is on the stack (in the engine and in OpenSSL functions it calls)");
static pbt::Assume a2("F01","OpenSSL's EVP_MD_CTX_copy_ex releases the state of the source when the signing context of a MAC cannot be duplicated; the allocations of that duplication do not fail");
// --- faults, delivered only while engine code is on the stack (the library is compiled with -finstrument-functions)
static thread_local int depth; extern "C" void __cyg_profile_func_enter(void*,void*){depth++;} extern "C" void __cyg_profile_func_exit(void*,void*){depth--;}
static struct{int kind=0;long j=0,n=0,rn=0,hit=0;bool on=false;}F; // kind 1: allocation j fails, 2: all from j on, 3: random calls from j on
static bool in_md_copy(){ void*a[64];int n=backtrace(a,64);bool c=false,k=false;for(int i=0;i<n;i++){Dl_info d;if(dladdr(a[i],&d)&&d.dli_sname){c|=!strcmp(d.dli_sname,"EVP_MD_CTX_copy_ex");k|=!strcmp(d.dli_sname,"EVP_PKEY_CTX_dup");}}return c&&k; }
static bool adeny(const char*f){ if(!F.on||depth<=0)return false;long i=F.n++;bool d=F.kind==1?i==F.j:F.kind==2?i>=F.j:false;if(!d)return false;(void)f;F.on=false;bool x=in_md_copy();F.on=true;if(x)return false;F.hit++;if(getenv("VERIF_LEAKS")){F.on=false;fprintf(stderr,"DENY %s\n",f?f:"");void*b[40];backtrace_symbols_fd(b,backtrace(b,40),2);F.on=true;}return true; }
static bool rdeny(){ if(!F.on)return false;long i=F.rn++;if(F.kind==3&&i>=F.j){F.hit++;return true;}return false; }
struct On{On(){F.on=true;}~On(){F.on=false;}}; struct Off{bool o;Off():o(F.on){F.on=false;}~Off(){F.on=o;}};
// --- operations
struct Out{bool ok=false;Bytes v;}; struct Sc{std::string name;bool want=true;std::function<Out()>op;std::shared_ptr<Out>known=std::make_shared<Out>();int prime=0;};
static Out no(){return Out();} static Out yes(const Bytes&v=Bytes()){Out o;o.ok=true;o.v=v;return o;}
static Out after(const Sc&c,const Out&o,const std::function<Out()>&again){ if(!o.ok&&F.kind&&F.hit){ERR_clear_error();rand_seed(7);Out r=again();REQUIRE(r.ok==c.want&&(!r.ok||r.v==c.known->v),"%s: after a fault (kind %d, %ld of %ld), the same context set up again %s",c.name.c_str(),F.kind,F.j,F.n,r.ok?("gives another result: "+tohex(r.v).substr(0,300)+", expected "+tohex(c.known->v).substr(0,300)).c_str():(c.want?"fails":"succeeds"));} return o; }
static const char*CN[]={"gost89","gost89-cbc","gost89-cnt","gost89-cnt-12","magma-ecb","magma-cbc","magma-ctr","magma-ctr-acpkm","magma-ctr-acpkm-omac","magma-mgm","kuznyechik-ecb","kuznyechik-cbc","kuznyechik-cfb","kuznyechik-ofb","kuznyechik-ctr","kuznyechik-ctr-acpkm","kuznyechik-ctr-acpkm-omac","kuznyechik-mgm"};
static const int HN[]={NID_id_GostR3411_94,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512};
static int mac_nid(Src&s){ static std::vector<int>v;if(v.empty()){v={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac};for(const char*n:{"magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac"}){int i=OBJ_sn2nid(n);if(i&&ENGINE_get_digest(eng(),i))v.push_back(i);}ERR_clear_error();}return v[s.draw(v.size())]; }
typedef std::shared_ptr<EVP_PKEY> Key; static Key own(EVP_PKEY*k){return Key(k,EVP_PKEY_free);}
typedef std::shared_ptr<EVP_CIPHER_CTX> CC; static CC cc(){return CC(EVP_CIPHER_CTX_new(),EVP_CIPHER_CTX_free);}
typedef std::shared_ptr<EVP_MD_CTX> MC; static MC mc(){return MC(EVP_MD_CTX_new(),EVP_MD_CTX_free);}
static Bytes keyval(EVP_PKEY*k){ Off f;const EC_KEY*e=(const EC_KEY*)EVP_PKEY_get0(k);Bytes r;if(!e||!EC_KEY_get0_group(e))return cat(r,Bytes(1,9));const EC_GROUP*g=EC_KEY_get0_group(e);int n=EC_GROUP_get_curve_name(g);r={(uint8_t)(n>>8),(uint8_t)n};const BIGNUM*d=EC_KEY_get0_private_key(e);if(d)r=cat(r,tobe(N(d),64));const EC_POINT*q=EC_KEY_get0_public_key(e);if(q){Pt P=from(g,q);if(P.inf)r.push_back(7);else{r=cat(r,tobe(P.x,64));r=cat(r,tobe(P.y,64));}}return r; }
static Bytes text(BIO*b){Off f;char*p;long n=BIO_get_mem_data(b,&p);return Bytes(p,p+n);}
struct Mem{BIO*b;Mem(){Off f;b=BIO_new(BIO_s_mem());}~Mem(){BIO_free(b);}operator BIO*(){return b;}};
struct Ob{Buf b;size_t n;Ob(size_t k):b(k),n(k){}};
enum{SIGN=1,VERIFY,ENC,DEC,DERIVE};
static int opinit(EVP_PKEY_CTX*x,int op){return op==SIGN?EVP_PKEY_sign_init(x):op==VERIFY?EVP_PKEY_verify_init(x):op==ENC?EVP_PKEY_encrypt_init(x):op==DEC?EVP_PKEY_decrypt_init(x):EVP_PKEY_derive_init(x);}
// a key-operation context made once and used through `once`; after a fault the same context is used again
static Out with_ctx(const Sc&c,EVP_PKEY*k,const std::function<Out(EVP_PKEY_CTX*)>&once){ EVP_PKEY_CTX*x;Out o;{On g;x=EVP_PKEY_CTX_new(k,eng());if(x)o=once(x);}PC own_(x);if(!x)return no();return after(c,o,[&]{return once(x);}); }
static void flipbit(Src&s,Bytes&b,size_t lo,size_t hi){size_t i=s.range(lo*8,hi*8-1);b[i/8]^=1<<i%8;}
struct KeySet{const Ps*p;const Curve*c;int t;N d,e;Key k,kp,pe,pep;};
static std::shared_ptr<KeySet> keys(Src&s,Sc&c){ auto r=std::make_shared<KeySet>();r->p=&params()[s.draw(params().size())];r->c=r->p->c;r->t=gen_type(s,*r->p);r->d=gen_scalar(s,*r->c,false);r->e=gen_scalar(s,*r->c,false);Pt Q=mul(*r->c,gen(*r->c),r->d),E=mul(*r->c,gen(*r->c),r->e);r->k=own(mk_key(r->t,r->p->nid,&r->d));r->kp=own(mk_key(r->t,r->p->nid,nullptr,&Q));r->pe=own(mk_key(r->t,r->p->nid,&r->e));r->pep=own(mk_key(r->t,r->p->nid,nullptr,&E));label(r->c->sn());c.prime=r->p->nid==NID_id_GostR3410_2001_TestParamSet?NID_id_tc26_gost_3410_2012_512_paramSetC:NID_id_GostR3410_2001_TestParamSet;note("%s %s",OBJ_nid2sn(r->t),r->p->sn.c_str());return r; }
static int mdnid(int t){return t==NID_id_GostR3410_2012_512?NID_id_GostR3411_2012_512:t==NID_id_GostR3410_2012_256?NID_id_GostR3411_2012_256:NID_id_GostR3411_94;}
static void sc_keygen(Src&s,Sc&c){ auto K=keys(s,c);int how=s.draw(3);
 if(how==0){c.name="key generation";c.op=[=]{return with_ctx(c,K->pep.get(),[=](EVP_PKEY_CTX*x){EVP_PKEY*q=NULL;if(EVP_PKEY_keygen_init(x)<=0||EVP_PKEY_keygen(x,&q)<=0){EVP_PKEY_free(q);return no();}auto k=own(q);return yes(keyval(q));});};return;}
 bool pg=how==2;c.name=pg?"parameter generation":"key generation with a named set";std::string ps=K->c->hl==64?s.pick<std::string>({"A","B","C"}):s.pick<std::string>({"A","B","C","TCA","TCB","TCC","TCD","XA","XB","0"});int t=K->t;bool tc=K->c->hl==64||t==NID_id_GostR3410_2012_256;if(ps[0]=='T'&&!tc)ps="A";note("%s",ps.c_str());
 c.op=[=]{EVP_PKEY_CTX*x;Out o;auto once=[=](EVP_PKEY_CTX*x){EVP_PKEY*q=NULL;if((pg?EVP_PKEY_paramgen_init(x):EVP_PKEY_keygen_init(x))<=0||EVP_PKEY_CTX_ctrl_str(x,"paramset",ps.c_str())<=0||(pg?EVP_PKEY_paramgen(x,&q):EVP_PKEY_keygen(x,&q))<=0){EVP_PKEY_free(q);return no();}auto k=own(q);return yes(keyval(q));};{On g;x=EVP_PKEY_CTX_new_id(t,eng());if(x)o=once(x);}PC w(x);if(!x)return no();return after(c,o,[&]{return once(x);});}; }
static Out osign(EVP_PKEY_CTX*x,const Bytes&dg){ Buf o(128);size_t l=128;if(EVP_PKEY_sign_init(x)<=0||EVP_PKEY_sign(x,o.p,&l,dg.data(),dg.size())<=0)return no();return yes(Bytes(o.p,o.p+l)); }
static void sc_sign(Src&s,Sc&c){ auto K=keys(s,c);Bytes dg=s.rnd(K->c->hl);c.name="signing";c.op=[=]{return with_ctx(c,K->k.get(),[=](EVP_PKEY_CTX*x){return osign(x,dg);});}; }
static void sc_verify(Src&s,Sc&c){ auto K=keys(s,c);Bytes dg=s.rnd(K->c->hl);bool ok=false;Bytes sig;while(!ok)sig=signature(*K->c,K->d,gen_scalar(s,*K->c,false),dg,ok);bool bad=s.flip();if(bad){if(s.flip())flipbit(s,sig,0,sig.size());else if(s.flip())dg=s.rnd(dg.size());else{int w=s.draw(3);if(w!=1)std::fill(sig.begin(),sig.begin()+sig.size()/2,0);if(w)std::fill(sig.begin()+sig.size()/2,sig.end(),0);}}c.want=verify(*K->c,mul(*K->c,gen(*K->c),K->d),dg,sig);c.name=c.want?"verification of a good signature":"verification of a bad signature";
 c.op=[=]{return with_ctx(c,K->kp.get(),[=](EVP_PKEY_CTX*x){if(EVP_PKEY_verify_init(x)<=0)return no();return EVP_PKEY_verify(x,sig.data(),sig.size(),dg.data(),dg.size())==1?yes():no();});}; }
static void sc_mdsign(Src&s,Sc&c){ auto K=keys(s,c);if(K->t==NID_id_GostR3410_2001DH)return sc_keygen(s,c);const EVP_MD*md=digest(mdnid(K->t));Bytes m=s.rnd(s.draw(300));int how=s.draw(3);Bytes sig;
 auto sg=[=](EVP_MD_CTX*x){Buf o(128);size_t l=128;if(EVP_DigestSignInit(x,NULL,md,eng(),K->k.get())<=0||EVP_DigestSignUpdate(x,m.data(),m.size())<=0||EVP_DigestSignFinal(x,o.p,&l)<=0)return no();return yes(Bytes(o.p,o.p+l));};
 if(how){auto x=mc();Out o=sg(x.get());REQUIRE(o.ok,"cannot sign: %s",errs().c_str());sig=o.v;if(how==2)flipbit(s,sig,0,sig.size());c.want=how==1;}
 c.name=how==0?"signing a message":how==1?"verifying a signed message":"verifying an altered signature of a message";auto vf=[=](EVP_MD_CTX*x){if(EVP_DigestVerifyInit(x,NULL,md,eng(),K->kp.get())<=0||EVP_DigestVerifyUpdate(x,m.data(),m.size())<=0)return no();return EVP_DigestVerifyFinal(x,sig.data(),sig.size())==1?yes():no();};
 c.op=[=]{auto x=mc();Out o;{On g;o=how?vf(x.get()):sg(x.get());}return after(c,o,[&]{EVP_MD_CTX_reset(x.get());return how?vf(x.get()):sg(x.get());});}; }
struct Kx{std::shared_ptr<KeySet>K;int cn=0;Bytes ukm,sk;bool sender=false;};
static Kx gkx(Src&s,Sc&c){ Kx x;x.K=keys(s,c);int t=x.K->t;bool neu=(x.K->c->hl==64||t==NID_id_GostR3410_2012_256)&&s.flip();if(neu)x.cn=s.pick({NID_magma_ctr,NID_kuznyechik_ctr,NID_kuznyechik_ctr_acpkm_omac,NID_magma_ctr_acpkm});if(s.flip()){x.ukm=s.bytes(neu?32:8);x.ukm[0]|=1;}x.sk=s.bytes(32);x.sender=s.chance(1,3);if(x.cn)note("%s",OBJ_nid2sn(x.cn));return x; }
static Out enc(const Kx&k,EVP_PKEY_CTX*x){ Buf o(1000);size_t l=1000;if(EVP_PKEY_encrypt_init(x)<=0||(k.cn&&EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,k.cn,NULL)<=0)||(k.sender&&EVP_PKEY_derive_set_peer(x,k.K->pe.get())<=0)||(k.ukm.size()&&EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,k.ukm.size(),(void*)k.ukm.data())<=0)||EVP_PKEY_encrypt(x,o.p,&l,k.sk.data(),32)<=0)return no();return yes(Bytes(o.p,o.p+l)); }
static void sc_enc(Src&s,Sc&c){ Kx k=gkx(s,c);c.name=k.cn?"key export":"key wrapping";if(!k.ukm.size()){/* a UKM made by the context stays with it */c.op=[=]{EVP_PKEY_CTX*x;Out o;{On g;x=EVP_PKEY_CTX_new(k.K->kp.get(),eng());if(x)o=enc(k,x);}PC w(x);return o;};}else c.op=[=]{return with_ctx(c,k.K->kp.get(),[=](EVP_PKEY_CTX*x){return enc(k,x);});}; }
static void sc_dec(Src&s,Sc&c){ Kx k=gkx(s,c);Out b;{PC x(EVP_PKEY_CTX_new(k.K->kp.get(),eng()));rand_seed(s.draw(0));b=enc(k,x);REQUIRE(b.ok,"cannot encrypt: %s",errs().c_str());}Bytes der=b.v;bool bad=s.flip();if(bad){ // the encrypted key or its check value altered
   kx::Tlv a,t;REQUIRE(kx::tlv(der,0,a)&&kx::tlv(a.val,0,t),"blob");size_t o=a.hdr+t.hdr;flipbit(s,der,o+(k.cn?0:2),o+(k.cn?t.val.size():34));}
 c.want=!bad;c.name=std::string(k.cn?"key import":"key unwrapping")+(bad?" of an altered blob":"");
 c.op=[=]{return with_ctx(c,k.K->k.get(),[=](EVP_PKEY_CTX*x){Buf o(32);size_t l=32;if(EVP_PKEY_decrypt_init(x)<=0||(k.cn&&EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,k.cn,NULL)<=0)||(k.sender&&EVP_PKEY_derive_set_peer(x,k.K->pep.get())<=0)||EVP_PKEY_decrypt(x,o.p,&l,der.data(),der.size())<=0)return no();return yes(Bytes(o.p,o.p+l));});}; }
static void sc_derive(Src&s,Sc&c){ auto K=keys(s,c);bool big=K->c->hl==64;bool dgst=s.flip();Bytes u=s.bytes(K->t==NID_id_GostR3410_2012_256||big?s.pick({8,32}):8);u[0]|=1;int vko=(K->t==NID_id_GostR3410_2012_256||big)&&dgst?s.pick({NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512}):0;c.name="key agreement";
 c.op=[=]{return with_ctx(c,K->k.get(),[=](EVP_PKEY_CTX*x){Buf o(64);size_t l=64;if(EVP_PKEY_derive_init(x)<=0||EVP_PKEY_derive_set_peer(x,K->pep.get())<=0||EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,u.size(),(void*)u.data())<=0||(vko&&EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,vko,NULL)<=0)||EVP_PKEY_derive(x,o.p,&l)<=0)return no();return yes(Bytes(o.p,o.p+l));});}; }
static Bytes p8(int type,const Ps&p,const Bytes&key){return der_seq({der_int(Bytes(1,0)),kx::algid(type,p),der_octet(key)});}
static void sc_encode(Src&s,Sc&c){ auto K=keys(s,c);size_t hl=K->c->hl;int how=s.draw(8);if(K->t!=NID_id_GostR3410_2001&&K->t!=NID_id_GostR3410_2001DH&&(how==2||how==5))how-=2;static const char*W[]={"reading a private key","reading a public key","reading parameters","writing a private key","writing a public key","writing parameters","copying parameters","comparing keys"};c.name=W[how];
 Bytes kb=tole(K->d,hl);switch(s.draw(4)){case 1:kb=der_octet(kb);break;case 2:kb=cat(tole(mulmod(K->d,N(3),K->c->q),hl),tole(N(3),hl));break;case 3:kb=der_seq({der_octet(kb),der_octet(kx::point_le(*K->c,gen(*K->c)))});}Bytes in=how==0?p8(K->t,*K->p,kb):how==1?kx::spki(K->t,*K->p,mul(*K->c,gen(*K->c),K->d)):kx::oid(K->p->nid);int t=K->t;bool same=s.flip(),wrap=s.flip();if(how==7)c.want=same;
 c.op=[=]{Out o;Bytes b;auto once=[=]()->Out{
  switch(how){case 0:{PKCS8_PRIV_KEY_INFO*f;{Off g;const uint8_t*q=in.data();f=d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.size());}EVP_PKEY*k=f?EVP_PKCS82PKEY(f):NULL;PKCS8_PRIV_KEY_INFO_free(f);if(!k)return no();auto w=own(k);return yes(keyval(k));}
  case 1:{const uint8_t*q=in.data();EVP_PKEY*k=d2i_PUBKEY(NULL,&q,in.size());if(!k)return no();auto w=own(k);return yes(keyval(k));}
  case 2:{const uint8_t*q=in.data();EVP_PKEY*k=d2i_KeyParams(t,NULL,&q,in.size());if(!k)return no();auto w=own(k);return yes(keyval(k));}
  case 3:{PKCS8_PRIV_KEY_INFO*f;{Off g;if(wrap)ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","LEGACY_PK_WRAP",0);}f=EVP_PKEY2PKCS8(K->k.get());{Off g;ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","RAW",0);}if(!f)return no();Off g;uint8_t*u=NULL;int n=i2d_PKCS8_PRIV_KEY_INFO(f,&u);Bytes r(u,u+(n>0?n:0));OPENSSL_free(u);PKCS8_PRIV_KEY_INFO_free(f);return yes(r);}
  case 4:case 5:{uint8_t*u=NULL;int n=how==4?i2d_PUBKEY(K->kp.get(),&u):i2d_KeyParams(K->kp.get(),&u);if(n<=0)return no();Bytes r(u,u+n);OPENSSL_free(u);return yes(r);}
  case 6:{Key z;{Off g;z=own(EVP_PKEY_new());EVP_PKEY_set_type(z.get(),t);}if(EVP_PKEY_copy_parameters(z.get(),K->k.get())<=0)return no();return yes(keyval(z.get()));}
  default:return EVP_PKEY_eq(K->k.get(),same?K->kp.get():K->pep.get())==1?yes():no();}};
  {On g;o=once();}return o;}; if(how==7&&K->d==K->e)c.want=true; }
static void sc_print(Src&s,Sc&c){ auto K=keys(s,c);int w=s.draw(3),ind=0;/* OpenSSL's prefix filter loses an indentation it cannot write */c.name="printing a key";c.op=[=]{Out o;Mem m;{On g;int r=w==0?EVP_PKEY_print_private(m,K->k.get(),ind,NULL):w==1?EVP_PKEY_print_public(m,K->kp.get(),ind,NULL):EVP_PKEY_print_params(m,K->kp.get(),ind,NULL);if(r<=0)return no();}return yes(text(m));}; }
// a cipher over a message in pieces; how the tag goes: 0 none, 1 AEAD tag, 2 unprotected attributes
static int tagkind(int k){return k==9||k==17?1:k==8||k==16?2:0;}
struct Cs{int k;bool encr;Bytes key,iv,aad,in,tag;std::shared_ptr<ASN1_TYPE>par;std::vector<size_t>parts;bool two;};
static Out cstream(const Cs&q,EVP_CIPHER_CTX*x){ const EVP_CIPHER*ci=cipher(nid_of(CN[q.k]));int tk=tagkind(q.k),l=0;Buf o(q.in.size()+64);Bytes r;
 STACK_OF(X509_ATTRIBUTE)*at=NULL;auto done=[&](bool ok){Off f;sk_X509_ATTRIBUTE_pop_free(at,X509_ATTRIBUTE_free);return ok;};
 if(q.par&&!q.encr){if(EVP_CipherInit_ex(x,ci,eng(),NULL,NULL,0)<=0||EVP_CIPHER_asn1_to_param(x,q.par.get())<=0||EVP_CipherInit_ex(x,NULL,NULL,q.key.data(),NULL,0)<=0)return no();}
 else if(q.two){if(EVP_CipherInit_ex(x,ci,eng(),NULL,NULL,q.encr)<=0||EVP_CipherInit_ex(x,NULL,NULL,q.key.data(),q.iv.data(),-1)<=0)return no();}else if(EVP_CipherInit_ex(x,ci,eng(),q.key.data(),q.iv.data(),q.encr)<=0)return no();
 if(q.par&&q.encr&&EVP_CIPHER_param_to_asn1(x,q.par.get())<=0)return no();
 if(tk==2&&!q.encr){{Off f;at=NULL;ASN1_OBJECT*ob=OBJ_txt2obj("1.2.643.7.1.0.6.1.1",1);X509at_add1_attr_by_OBJ(&at,ob,V_ASN1_OCTET_STRING,q.tag.data(),q.tag.size());ASN1_OBJECT_free(ob);}if(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_PROCESS_UNPROTECTED,0,at)<=0){done(0);return no();}}
 if(tk==1&&!q.encr&&EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_SET_TAG,q.tag.size(),(void*)q.tag.data())<=0)return no();
 if(tk==1&&q.aad.size()&&EVP_CipherUpdate(x,NULL,&l,q.aad.data(),q.aad.size())<=0)return no();
 size_t p=0;for(size_t n:q.parts){if(EVP_CipherUpdate(x,o.p,&l,q.in.data()+p,n)<=0){done(0);return no();}r.insert(r.end(),o.p,o.p+l);p+=n;}
 l=0;if(EVP_CipherFinal_ex(x,o.p,&l)<=0){done(0);return no();}r.insert(r.end(),o.p,o.p+l);
 if(tk==1&&q.encr){uint8_t t[16];size_t n=q.k==9?8:16;if(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_GET_TAG,n,t)<=0)return no();r.insert(r.end(),t,t+n);}
 if(tk==2&&q.encr){{Off f;at=sk_X509_ATTRIBUTE_new_null();}if(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_PROCESS_UNPROTECTED,1,at)<=0){done(0);return no();}Off f;ASN1_OBJECT*ob=OBJ_txt2obj("1.2.643.7.1.0.6.1.1",1);ASN1_OCTET_STRING*os=(ASN1_OCTET_STRING*)X509at_get0_data_by_OBJ(at,ob,-3,V_ASN1_OCTET_STRING);ASN1_OBJECT_free(ob);if(!os){done(0);return yes(Bytes());}r.insert(r.end(),os->data,os->data+os->length);}
 done(1);return yes(r); }
static size_t tagsize(int k){return k==9||k==8?8:k==17||k==16?16:0;}
static Cs gcs(Src&s,bool encr){ Cs q;q.k=s.draw(18);q.encr=true;q.key=s.bytes(32);q.iv=s.bytes(16);q.iv[0]&=0x7f;int tk=tagkind(q.k);q.two=s.flip()&&tk!=2;/* the first of two steps would consume randomness in a new context only */size_t n=s.flip()?s.draw(120):s.pick({16,64,1024,2500,4100});if(!n)n=1;q.in=s.rnd(n);if(tk==1)q.aad=s.bytes(s.draw(40));q.parts=s.split(n);
 if(!encr){if(tk==2)q.par.reset(ASN1_TYPE_new(),ASN1_TYPE_free);auto x=cc();Out o=cstream(q,x.get());REQUIRE(o.ok,"%s: cannot encrypt: %s",CN[q.k],errs().c_str());size_t ts=tagsize(q.k);if(ts){q.tag=Bytes(o.v.end()-ts,o.v.end());o.v.resize(o.v.size()-ts);}q.in=o.v;q.encr=false;q.parts=s.split(q.in.size());}
 label(CN[q.k]);note("%s %s %zu bytes",CN[q.k],encr?"encrypt":"decrypt",q.in.size());return q; }
static void sc_cipher(Src&s,Sc&c){ bool e=s.flip();rand_seed(7);Cs q=gcs(s,e);c.name=std::string(e?"encryption with ":"decryption with ")+CN[q.k];
 if(!e&&tagkind(q.k)){if(s.flip()){c.want=false;c.name+=" of an altered message";if(s.flip())flipbit(s,q.tag,0,q.tag.size());else flipbit(s,q.in,0,q.in.size());}}
 // decryption of the MAC variants needs the key-derivation seed, which is part of the vector the encryption used
 c.op=[=]{auto x=cc();Out o;{On g;o=cstream(q,x.get());}return after(c,o,[&]{return cstream(q,x.get());});}; }
static void sc_ccopy(Src&s,Sc&c){ rand_seed(7);Cs q=gcs(s,true);c.name=std::string("copying a context of ")+CN[q.k];size_t cut=s.draw(q.in.size()+1);bool warm=s.flip();
 c.op=[=]{auto x=cc(),y=cc();int l;Buf o(q.in.size()+64);REQUIRE(EVP_CipherInit_ex(x.get(),cipher(nid_of(CN[q.k])),eng(),q.key.data(),q.iv.data(),1)>0,"init");if(tagkind(q.k)==1&&q.aad.size())REQUIRE(EVP_CipherUpdate(x.get(),NULL,&l,q.aad.data(),q.aad.size())>0,"aad");Bytes head;if(cut){REQUIRE(EVP_CipherUpdate(x.get(),o.p,&l,q.in.data(),cut)>0,"update");head.assign(o.p,o.p+l);}
  if(warm){int m;REQUIRE(EVP_CipherInit_ex(y.get(),cipher(nid_of(CN[q.k])),eng(),q.key.data(),q.iv.data(),1)>0&&EVP_CipherUpdate(y.get(),o.p,&m,q.in.data(),cut)>0,"init");}
  bool r;{On g;r=EVP_CIPHER_CTX_copy(y.get(),x.get())>0;}
  auto rest=[&](EVP_CIPHER_CTX*z){Bytes v=head;int n;REQUIRE(EVP_CipherUpdate(z,o.p,&n,q.in.data()+cut,q.in.size()-cut)>0,"%s: update after a copy: %s",CN[q.k],errs().c_str());v.insert(v.end(),o.p,o.p+n);REQUIRE(EVP_CipherFinal_ex(z,o.p,&n)>0,"%s: final after a copy: %s",CN[q.k],errs().c_str());v.insert(v.end(),o.p,o.p+n);if(tagkind(q.k)==1){uint8_t t[16];REQUIRE(EVP_CIPHER_CTX_ctrl(z,EVP_CTRL_AEAD_GET_TAG,8,t)>0,"tag");v.insert(v.end(),t,t+8);}else if(tagkind(q.k)==2){STACK_OF(X509_ATTRIBUTE)*at=sk_X509_ATTRIBUTE_new_null();REQUIRE(EVP_CIPHER_CTX_ctrl(z,EVP_CTRL_PROCESS_UNPROTECTED,1,at)>0,"tag");ASN1_OBJECT*ob=OBJ_txt2obj("1.2.643.7.1.0.6.1.1",1);ASN1_OCTET_STRING*os=(ASN1_OCTET_STRING*)X509at_get0_data_by_OBJ(at,ob,-3,V_ASN1_OCTET_STRING);ASN1_OBJECT_free(ob);v.insert(v.end(),os->data,os->data+os->length);sk_X509_ATTRIBUTE_pop_free(at,X509_ATTRIBUTE_free);}return v;};
  Bytes a=rest(x.get());if(r){Bytes b=rest(y.get());REQUIRE(a==b,"%s: the copy continues otherwise than its source",CN[q.k]);}if(c.known->ok)REQUIRE(a==c.known->v,"%s: after a failed copy the source continues otherwise",CN[q.k]);if(!r){ERR_clear_error();auto z=cc();}return r?yes(a):no();}; }
static void sc_casn1(Src&s,Sc&c){ static const char*A[]={"gost89","gost89-cnt","gost89-cnt-12","gost89-cbc","magma-ctr-acpkm","kuznyechik-ctr-acpkm","magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac"};const char*n=A[s.draw(8)];Bytes key=s.bytes(32),iv=s.bytes(16),m=s.rnd(100);bool rd=s.flip();label(n);c.name=std::string(rd?"reading":"writing")+" cipher parameters of "+n;rand_seed(s.draw(0));
 auto put=[=](EVP_CIPHER_CTX*x,ASN1_TYPE*t){return EVP_CIPHER_param_to_asn1(x,t)>0;};auto mk=[=](const Bytes&k,const Bytes&v){auto x=cc();REQUIRE(EVP_CipherInit_ex(x.get(),cipher(nid_of(n)),eng(),k.data(),v.data(),1)>0,"init");return x;};
 std::shared_ptr<ASN1_TYPE> src(ASN1_TYPE_new(),ASN1_TYPE_free);if(rd){auto x=mk(key,iv);REQUIRE(put(x.get(),src.get()),"%s: parameters: %s",n,errs().c_str());}
 c.op=[=]{auto der=[](ASN1_TYPE*t){uint8_t*u=NULL;int k=i2d_ASN1_TYPE(t,&u);Bytes r(u,u+(k>0?k:0));OPENSSL_free(u);return r;};std::shared_ptr<ASN1_TYPE>t(ASN1_TYPE_new(),ASN1_TYPE_free);
  if(!rd){auto x=mk(key,iv);bool r;{On g;r=put(x.get(),t.get());}if(!r){if(F.kind){ERR_clear_error();}return no();}return yes(der(t.get()));}
  auto x=cc();REQUIRE(EVP_CipherInit_ex(x.get(),cipher(nid_of(n)),eng(),NULL,NULL,0)>0,"init");bool r;{On g;r=EVP_CIPHER_asn1_to_param(x.get(),src.get())>0&&EVP_CipherInit_ex(x.get(),NULL,NULL,key.data(),NULL,0)>0;}if(!r)return no();int l;Buf o(140);REQUIRE(EVP_CipherUpdate(x.get(),o.p,&l,m.data(),m.size())>0,"update");return yes(Bytes(o.p,o.p+l));}; }
// digests and MACs
static Out dstream(EVP_MD_CTX*x,int nid,const Bytes&key,int how,const Bytes&m,const std::vector<size_t>&parts){ const EVP_MD*md=digest(nid);if(EVP_DigestInit_ex(x,md,eng())<=0)return no();
 if(key.size()){if(how){gost_mac_key mk;memset(&mk,0,sizeof mk);memcpy(mk.key,key.data(),32);if(EVP_MD_meth_get_ctrl(md)(x,EVP_MD_CTRL_SET_KEY,0,&mk)<=0)return no();}else if(EVP_MD_meth_get_ctrl(md)(x,EVP_MD_CTRL_SET_KEY,32,(void*)key.data())<=0)return no();}
 size_t p=0;for(size_t n:parts){if(EVP_DigestUpdate(x,m.data()+p,n)<=0)return no();p+=n;}Buf o(64);unsigned l=0;if(EVP_DigestFinal_ex(x,o.p,&l)<=0)return no();return yes(Bytes(o.p,o.p+l)); }
struct Ds{int nid;Bytes key,m;std::vector<size_t>parts;int how;};
static Ds gds(Src&s){ Ds d;d.how=s.draw(2);if(s.flip())d.nid=HN[s.draw(3)];else{d.nid=mac_nid(s);d.key=s.bytes(32);if(d.nid!=NID_id_Gost28147_89_MAC&&d.nid!=NID_gost_mac_12&&d.nid!=NID_magma_mac&&d.nid!=NID_grasshopper_mac)d.how=0;}d.m=s.rnd(s.flip()?s.draw(200):s.pick({1024,1030,2500,4096,4100}));d.parts=s.split(d.m.size());label(OBJ_nid2sn(d.nid));note("%s %zu bytes",OBJ_nid2sn(d.nid),d.m.size());return d; }
static void sc_digest(Src&s,Sc&c){ Ds d=gds(s);c.name=std::string(d.key.size()?"MAC ":"digest ")+OBJ_nid2sn(d.nid);c.op=[=]{auto x=mc();Out o;{On g;o=dstream(x.get(),d.nid,d.key,d.how,d.m,d.parts);}return after(c,o,[&]{return dstream(x.get(),d.nid,d.key,d.how,d.m,d.parts);});}; }
static void sc_dcopy(Src&s,Sc&c){ Ds d=gds(s);c.name=std::string("copying a context of ")+OBJ_nid2sn(d.nid);size_t cut=s.draw(d.m.size()+1);bool warm=s.flip();
 c.op=[=]{auto x=mc(),y=mc();const EVP_MD*md=digest(d.nid);auto init=[&](EVP_MD_CTX*z){REQUIRE(EVP_DigestInit_ex(z,md,eng())>0,"init");if(d.key.size())REQUIRE(EVP_MD_meth_get_ctrl(md)(z,EVP_MD_CTRL_SET_KEY,32,(void*)d.key.data())>0,"key");};init(x.get());REQUIRE(EVP_DigestUpdate(x.get(),d.m.data(),cut)>0,"update");if(warm){init(y.get());EVP_DigestUpdate(y.get(),d.m.data(),cut/2);}
  bool r;{On g;r=EVP_MD_CTX_copy_ex(y.get(),x.get())>0;}auto rest=[&](EVP_MD_CTX*z){Buf o(64);unsigned l=0;REQUIRE(EVP_DigestUpdate(z,d.m.data()+cut,d.m.size()-cut)>0,"%s: update after a copy: %s",OBJ_nid2sn(d.nid),errs().c_str());REQUIRE(EVP_DigestFinal_ex(z,o.p,&l)>0,"%s: final after a copy: %s",OBJ_nid2sn(d.nid),errs().c_str());return Bytes(o.p,o.p+l);};
  Bytes a=rest(x.get());if(r){Bytes b=rest(y.get());REQUIRE(a==b,"%s: the copy gives another value than its source",OBJ_nid2sn(d.nid));}if(c.known->ok)REQUIRE(a==c.known->v,"%s: after a failed copy the source gives another value",OBJ_nid2sn(d.nid));return r?yes(a):no();}; }
// MAC keys through EVP_PKEY
static void sc_macsign(Src&s,Sc&c){ int n=s.pick({NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac});Bytes key=s.bytes(32),m=s.rnd(s.draw(100));int how=s.draw(4);std::string sz=s.pick<std::string>({"","4","8","1"});bool ps=(n==NID_id_Gost28147_89_MAC||n==NID_gost_mac_12)&&s.flip();c.name=std::string("keyed MAC ")+OBJ_nid2sn(n);label(OBJ_nid2sn(n));for(auto&b:key)if(how==1)b=1+(b&0x7e);
 c.op=[=]{Out o;auto x=mc();auto once=[=](EVP_MD_CTX*mx){EVP_PKEY*k=NULL;
   if(how==0)k=EVP_PKEY_new_mac_key(n,eng(),key.data(),32);else{EVP_PKEY_CTX*p=EVP_PKEY_CTX_new_id(n,eng());if(!p)return no();PC w(p);std::string ks(key.begin(),key.end());if(EVP_PKEY_keygen_init(p)<=0)return no();int r=how==1?EVP_PKEY_CTX_ctrl_str(p,"key",ks.c_str()):how==2?EVP_PKEY_CTX_ctrl_str(p,"hexkey",tohex(key).c_str()):EVP_PKEY_CTX_ctrl(p,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,32,(void*)key.data());if(r<=0)return no();if(ps&&EVP_PKEY_CTX_ctrl_str(p,"paramset","id-Gost28147-89-CryptoPro-B-ParamSet")<=0)return no();if(sz.size()&&EVP_PKEY_CTX_ctrl_str(p,"size",sz.c_str())<=0)return no();if(EVP_PKEY_keygen(p,&k)<=0){EVP_PKEY_free(k);return no();}}
   if(!k)return no();auto kk=own(k);Buf ob(64);size_t l=64;if(EVP_DigestSignInit(mx,NULL,digest(n),eng(),k)<=0||EVP_DigestSignUpdate(mx,m.data(),m.size())<=0||EVP_DigestSignFinal(mx,ob.p,&l)<=0)return no();return yes(Bytes(ob.p,ob.p+l));};
  {On g;o=once(x.get());}return after(c,o,[&]{EVP_MD_CTX_reset(x.get());return once(x.get());});}; }
static void sc_kdf(Src&s,Sc&c){ int w=s.draw(5);static const char*W[]={"KExp15","KImp15","KDF_TREE","TLSTREE","PBKDF2"};c.name=W[w];Bytes k=s.bytes(32),k1=s.bytes(32),k2=s.bytes(32),iv=s.bytes(8),l=s.bytes(1+s.draw(10)),sd=s.bytes(1+s.draw(10));int nid=s.pick({NID_magma_ctr,NID_kuznyechik_ctr}),mac=nid==NID_magma_ctr?NID_magma_mac:NID_grasshopper_mac,ivl=nid==NID_magma_ctr?4:8;Bytes e;int h=HN[s.draw(3)];
 if(w==1){Buf o(64);int ol=64;REQUIRE(gost_kexp15(k.data(),32,nid,k1.data(),mac,(uint8_t*)k2.data(),iv.data(),ivl,o.p,&ol)>0,"kexp15");e=Bytes(o.p,o.p+ol);if(s.flip()){flipbit(s,e,0,e.size());c.want=false;c.name="KImp15 of an altered blob";}}
 c.op=[=]{On g;Buf o(96);switch(w){case 0:{int ol=64;if(gost_kexp15(k.data(),32,nid,k1.data(),mac,(uint8_t*)k2.data(),iv.data(),ivl,o.p,&ol)<=0)return no();return yes(Bytes(o.p,o.p+ol));}case 1:if(gost_kimp15(e.data(),e.size(),nid,k1.data(),mac,(uint8_t*)k2.data(),iv.data(),ivl,o.p)<=0)return no();return yes(Bytes(o.p,o.p+32));case 2:if(gost_kdftree2012_256(o.p,96,k.data(),32,l.data(),l.size(),sd.data(),sd.size(),1)<=0)return no();return yes(Bytes(o.p,o.p+96));case 3:if(gost_tlstree(nid==NID_magma_ctr?NID_magma_cbc:NID_grasshopper_cbc,k.data(),o.p,iv.data())<=0)return no();return yes(Bytes(o.p,o.p+32));default:if(PKCS5_PBKDF2_HMAC((const char*)k.data(),20,sd.data(),sd.size(),3,digest(h),50,o.p)<=0)return no();return yes(Bytes(o.p,o.p+50));}}; }
// certificates and messages
static X509*cert(EVP_PKEY*k){ X509*x=X509_new();X509_NAME*n=X509_NAME_new();X509_NAME_add_entry_by_txt(n,"CN",MBSTRING_ASC,(const uint8_t*)"a",1,-1,0);X509_set_version(x,2);X509_set_subject_name(x,n);X509_set_issuer_name(x,n);X509_NAME_free(n);ASN1_INTEGER_set(X509_get_serialNumber(x),5);ASN1_TIME_set(X509_getm_notBefore(x),1600000000);ASN1_TIME_set(X509_getm_notAfter(x),2500000000);X509_set_pubkey(x,k);return x; }
static Bytes der(X509*x){uint8_t*p=NULL;int n=i2d_X509(x,&p);Bytes r(p,p+(n>0?n:0));OPENSSL_free(p);return r;}
static void sc_x509(Src&s,Sc&c){ auto K=keys(s,c);if(K->t==NID_id_GostR3410_2001DH)return sc_keygen(s,c);const EVP_MD*md=digest(mdnid(K->t));int how=s.draw(4);static const char*W[]={"signing a certificate","checking a certificate","checking a certificate with another key","putting a key into a certificate"};c.name=W[how];if(how==2)c.want=K->d==K->e;std::shared_ptr<X509>x(cert(K->k.get()),X509_free);if(how)REQUIRE(X509_sign(x.get(),K->k.get(),md)>0,"sign: %s",errs().c_str());
 c.op=[=]{if(how==0){std::shared_ptr<X509>y(cert(K->k.get()),X509_free);{On g;if(X509_sign(y.get(),K->k.get(),md)<=0)return no();}return yes(der(y.get()));}if(how==3){std::shared_ptr<X509>y(X509_dup(x.get()),X509_free);{On g;if(X509_set_pubkey(y.get(),K->pep.get())<=0)return no();}EVP_PKEY*p=X509_get0_pubkey(y.get());return yes(p?keyval(p):Bytes());}On g;return X509_verify(x.get(),how==1?K->kp.get():K->pep.get())==1?yes():no();}; }
static void sc_cms(Src&s,Sc&c){ auto K=keys(s,c);if(K->t==NID_id_GostR3410_2001DH)return sc_keygen(s,c);const EVP_MD*md=digest(mdnid(K->t));std::shared_ptr<X509>x(cert(K->k.get()),X509_free);REQUIRE(X509_sign(x.get(),K->k.get(),md)>0,"sign: %s",errs().c_str());int how=s.draw(4);static const char*W[]={"making a signed message","checking a signed message","making an enveloped message","opening an enveloped message"};c.name=W[how];Bytes m=s.bytes(1+s.draw(100));const EVP_CIPHER*ci=cipher(nid_of(s.pick({"gost89","kuznyechik-ctr-acpkm","magma-ctr-acpkm","kuznyechik-ctr-acpkm-omac","magma-ctr-acpkm-omac"})));bool auth=strstr(EVP_CIPHER_get0_name(ci),"omac");
 typedef std::shared_ptr<CMS_ContentInfo>CI;auto fr=[](CMS_ContentInfo*p){CMS_ContentInfo_free(p);};auto mem=[](const Bytes&b){return BIO_new_mem_buf(b.data(),b.size());};
 auto sgn=[=](bool f)->CI{BIO*b=mem(m);CMS_ContentInfo*q;{if(f)F.on=true;q=CMS_sign(x.get(),K->k.get(),NULL,b,CMS_BINARY|CMS_NOATTR);F.on=false;}BIO_free(b);return CI(q,fr);};
 auto env=[=](bool f)->CI{BIO*b=mem(m);STACK_OF(X509)*st=sk_X509_new_null();sk_X509_push(st,x.get());CMS_ContentInfo*q;{if(f)F.on=true;q=CMS_encrypt(st,b,ci,CMS_BINARY|CMS_KEY_PARAM);F.on=false;}sk_X509_free(st);BIO_free(b);return CI(q,fr);};
 auto open=[=](CMS_ContentInfo*q)->Out{Mem b;if(CMS_decrypt(q,K->k.get(),x.get(),NULL,b,0)<=0)return no();Bytes r=text(b);if(!auth&&r!=m)return no();/* OpenSSL decrypts with a random key when the right one is not to be had */return yes(r);};
 auto check=[=](CMS_ContentInfo*q)->bool{Mem b;return CMS_verify(q,NULL,NULL,NULL,b,CMS_NO_SIGNER_CERT_VERIFY)==1&&text(b)==m;};
 auto bytes=[](CMS_ContentInfo*q){uint8_t*u=NULL;int n=i2d_CMS_ContentInfo(q,&u);Bytes r(u,u+(n>0?n:0));OPENSSL_free(u);return r;};
 auto read=[=](const Bytes&b){const uint8_t*p=b.data();return CI(d2i_CMS_ContentInfo(NULL,&p,b.size()),fr);};
 Bytes saved;if(how==1||how==3){rand_seed(7);CI q=how==1?sgn(false):env(false);REQUIRE(q,"%s: %s",c.name.c_str(),errs().c_str());saved=bytes(q.get());}
 c.op=[=]{switch(how){case 0:{CI q=sgn(true);if(!q)return no();REQUIRE(check(read(bytes(q.get())).get()),"signed message does not verify");return yes();}
  case 2:{CI q=env(true);if(!q)return no();Out o=open(read(bytes(q.get())).get());REQUIRE(o.ok&&o.v==m,"enveloped message does not open: %s",errs().c_str());return yes();}
  case 1:{CI q=read(saved);On g;return check(q.get())?yes():no();}
  default:{CI q=read(saved);On g;return open(q.get());}}}; }
static void sc_ctl(Src&s,Sc&c){ static const char*V[]={"id-Gost28147-89-CryptoPro-A-ParamSet","id-Gost28147-89-CryptoPro-B-ParamSet","id-tc26-gost-28147-param-Z","id-Gost28147-89-TestParamSet"};std::string v=V[s.draw(4)],u=V[s.draw(4)];Bytes key=s.bytes(32),iv=s.bytes(8),m=s.rnd(40);c.name="setting an engine parameter";
 auto look=[=]{auto x=cc();int l;Buf o(60);REQUIRE(EVP_CipherInit_ex(x.get(),cipher(NID_id_Gost28147_89),eng(),key.data(),iv.data(),1)>0&&EVP_CipherUpdate(x.get(),o.p,&l,m.data(),m.size())>0,"gost89");return Bytes(o.p,o.p+l);};
 struct Reset{~Reset(){ENGINE_ctrl_cmd_string(eng(),"CRYPT_PARAMS","id-tc26-gost-28147-param-Z",0);}};
 c.op=[=]{Reset z;REQUIRE(ENGINE_ctrl_cmd_string(eng(),"CRYPT_PARAMS",u.c_str(),0)>0,"control");Bytes before=look();bool r;{On g;r=ENGINE_ctrl_cmd_string(eng(),"CRYPT_PARAMS",v.c_str(),0)>0;}Bytes now=look();if(!r){REQUIRE(now==before,"a failed control changed the setting");return no();}return yes(now);}; }
typedef void(*Mk)(Src&,Sc&);
static const Mk SC[]={sc_keygen,sc_sign,sc_verify,sc_mdsign,sc_enc,sc_dec,sc_derive,sc_encode,sc_print,sc_cipher,sc_ccopy,sc_casn1,sc_digest,sc_dcopy,sc_macsign,sc_kdf,sc_x509,sc_cms,sc_ctl};
static const char*FAM[]={"keygen","sign","verify","message signature","transport","receive","agreement","encodings","print","cipher","cipher copy","cipher parameters","digest","digest copy","MAC key","kdf","certificate","cms","control"};
static Out run1(const Sc&c,int kind,long j,bool cold){ if(cold&&c.prime){free_cached_groups();EC_KEY*e=EC_KEY_new();fill_GOST_EC_params(e,c.prime);EC_KEY_free(e);}F.kind=kind;F.j=j;F.n=F.rn=F.hit=0;F.on=false;rand_seed(7);Out o=c.op();F.on=false;F.kind=0;ERR_clear_error();return o; }
static long live(){OPENSSL_thread_stop();ERR_clear_error();return live_allocs();}
SUB("F01",points,2200,60000,16){ depth=0;F.kind=0;F.on=false;deny_hooks(adeny,rdeny);size_t f=s.draw(sizeof SC/sizeof*SC);if(getenv("VERIF_FAM"))f=atoi(getenv("VERIF_FAM"));label(FAM[f]);Sc c;SC[f](s,c);note("%s",c.name.c_str());bool cold=c.prime&&s.chance(1,3);
 Out e=run1(c,0,0,false);REQUIRE(e.ok==c.want,"%s without faults %s: %s",c.name.c_str(),e.ok?"succeeds":"fails",errs().c_str());*c.known=e;Out e2=run1(c,0,0,cold);REQUIRE(e2.ok==e.ok&&e2.v==e.v,"%s gives another result the second time",c.name.c_str());long n=F.n,rn=F.rn;label(n==0?"no allocation":n<4?"1-3 allocations":n<20?"4-19 allocations":n<100?"20-99 allocations":"100+ allocations");
 size_t k=pbt::thorough()?24:8,failed=0;if(!n&&!rn)return;
 for(size_t i=0;i<k;i++){ int kind=!n?3:rn&&s.chance(1,5)?3:s.flip()?2:1;long j=s.draw(kind==3?rn:(i&1)?n:std::min(n,12l));Out o=run1(c,kind,j,cold);long hit=F.hit;static const char*W[]={"","allocation %ld of %ld fails","allocations from %ld of %ld on fail","random calls from %ld of %ld on fail"};char w[100];snprintf(w,sizeof w,W[kind],j,kind==3?rn:n);
  if(hit&&!o.ok&&c.want)failed++;REQUIRE(!o.ok||c.want,"%s succeeds when %s",c.name.c_str(),w);REQUIRE(!o.ok||o.v==e.v,"%s gives another result when %s: %s, expected %s",c.name.c_str(),w,hex(o.v,300).c_str(),hex(e.v,300).c_str());
  Out g=run1(c,0,0,false);REQUIRE(g.ok==e.ok&&g.v==e.v,"%s %s after a run in which %s",c.name.c_str(),g.ok==e.ok?"gives another result":g.ok?"succeeds":"fails",w); }
 if(s.chance(1,2)){ int kind=n?s.flip()?2:1:3;long j=s.draw(kind==3?rn:n),l0,l1,l2;run1(c,kind,j,cold);l0=live();live_dump("first");run1(c,kind,j,cold);l1=live();live_dump("second");run1(c,kind,j,cold);l2=live();live_dump("third");label("repeated");REQUIRE(!(l1>l0&&l2>l1),"%s: each run in which %s %ld%s leaves %ld allocations behind",c.name.c_str(),kind==3?"random calls fail from":kind==2?"allocations fail from":"allocation fails:",j,kind==1?" alone":" on",l2-l1); }
 if(failed)nontrivial();label(failed?"failed for a fault":"no fault changed the outcome"); }
// --- the provider: loading it, and what it computes (the engine's results are what is expected)
static std::string moddir,modname;
struct Prov{OSSL_LIB_CTX*lc=nullptr;OSSL_PROVIDER*p=nullptr;bool load(){ {Off f;lc=OSSL_LIB_CTX_new();OSSL_PROVIDER_set_default_search_path(lc,moddir.c_str());}p=OSSL_PROVIDER_load(lc,modname.c_str());return p; } ~Prov(){F.on=false;if(p)OSSL_PROVIDER_unload(p);OSSL_LIB_CTX_free(lc);}};
static const int PC_[]={0,1,2,3,5,6,7,9,10,11,12,13,14,15,17};
struct PMac{const char*n;int nid;size_t size;}; static const PMac PM[]={{"gost-mac",NID_id_Gost28147_89_MAC,4},{"gost-mac-12",NID_gost_mac_12,4},{"magma-mac",NID_magma_mac,8},{"kuznyechik-mac",NID_grasshopper_mac,16}};
static const char*PD[]={"md_gost94","md_gost12_256","md_gost12_512"};
// what is done with a loaded provider; dup: in the middle of the data the context is duplicated and the duplicate goes on
struct Pq{int what,k;bool dup,mid;Cs c;Ds d;size_t cut;std::vector<size_t>parts;};
static Out pcipher(OSSL_LIB_CTX*lc,const Pq&q,EVP_CIPHER_CTX**px){ EVP_CIPHER*ci;{Off f;ci=EVP_CIPHER_fetch(lc,CN[q.c.k],NULL);}if(!ci)return no();std::shared_ptr<EVP_CIPHER>w(ci,EVP_CIPHER_free);EVP_CIPHER_CTX*&x=*px;int l;size_t p=0;Bytes r;Buf o(q.c.in.size()+64);int tk=tagkind(q.c.k);
 if(EVP_CipherInit_ex(x,ci,NULL,q.c.key.data(),q.c.iv.data(),q.c.encr)<=0)return no();
 if(tk==1&&!q.c.encr&&EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_SET_TAG,q.c.tag.size(),(void*)q.c.tag.data())<=0)return no();if(tk==1&&q.c.aad.size()&&EVP_CipherUpdate(x,NULL,&l,q.c.aad.data(),q.c.aad.size())<=0)return no();
 for(size_t n:q.parts){if(q.dup&&p>=q.cut){EVP_CIPHER_CTX*y;{Off f;y=EVP_CIPHER_CTX_new();}bool ok=EVP_CIPHER_CTX_copy(y,x)>0;{Off f;EVP_CIPHER_CTX_free(ok?x:y);}if(ok)x=y;else if(!q.mid)return no();/* else the context that could not be duplicated goes on */}
  if(EVP_CipherUpdate(x,o.p,&l,q.c.in.data()+p,n)<=0)return no();r.insert(r.end(),o.p,o.p+l);p+=n;}
 l=0;if(EVP_CipherFinal_ex(x,o.p,&l)<=0)return no();r.insert(r.end(),o.p,o.p+l);if(tk==1&&q.c.encr){size_t n=q.c.k==9?8:16;uint8_t t[16];if(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_GET_TAG,n,t)<=0)return no();r.insert(r.end(),t,t+n);}return yes(r); }
static Out pdigest(OSSL_LIB_CTX*lc,const Pq&q,EVP_MD_CTX**px){ EVP_MD*md;{Off f;md=EVP_MD_fetch(lc,PD[q.k],NULL);}if(!md)return no();std::shared_ptr<EVP_MD>w(md,EVP_MD_free);EVP_MD_CTX*&x=*px;size_t p=0;if(EVP_DigestInit_ex(x,md,NULL)<=0)return no();
 for(size_t n:q.parts){if(q.dup&&p>=q.cut){EVP_MD_CTX*y;{Off f;y=EVP_MD_CTX_new();}bool ok=EVP_MD_CTX_copy_ex(y,x)>0;{Off f;EVP_MD_CTX_free(ok?x:y);}if(ok)x=y;else if(!q.mid)return no();}if(EVP_DigestUpdate(x,q.d.m.data()+p,n)<=0)return no();p+=n;}Buf o(64);unsigned l=0;if(EVP_DigestFinal_ex(x,o.p,&l)<=0)return no();return yes(Bytes(o.p,o.p+l)); }
static Out pmac(OSSL_LIB_CTX*lc,const Pq&q,EVP_MAC_CTX**px){ EVP_MAC_CTX*&x=*px;if(!x){EVP_MAC*m;{Off f;m=EVP_MAC_fetch(lc,PM[q.k].n,NULL);}if(!m)return no();x=EVP_MAC_CTX_new(m);{Off f;EVP_MAC_free(m);}if(!x)return no();}size_t p=0;if(EVP_MAC_init(x,q.d.key.data(),32,NULL)<=0)return no();
 for(size_t n:q.parts){if(q.dup&&p>=q.cut){EVP_MAC_CTX*y=EVP_MAC_CTX_dup(x);if(y){Off f;EVP_MAC_CTX_free(x);x=y;}else if(!q.mid)return no();}if(EVP_MAC_update(x,q.d.m.data()+p,n)<=0)return no();p+=n;}Buf o(64);size_t l=0;if(EVP_MAC_final(x,o.p,&l,64)<=0)return no();return yes(Bytes(o.p,o.p+l)); }
static Out pdo(const Sc&c,OSSL_LIB_CTX*lc,const Pq&q){ if(q.what==0){EVP_CIPHER_CTX*x;{Off f;x=EVP_CIPHER_CTX_new();}struct Z{EVP_CIPHER_CTX*&x;~Z(){Off f;EVP_CIPHER_CTX_free(x);}}z{x};Out o=pcipher(lc,q,&x);Off f;return after(c,o,[&]{return pcipher(lc,q,&x);});}
 if(q.what==1){EVP_MD_CTX*x;{Off f;x=EVP_MD_CTX_new();}struct Z{EVP_MD_CTX*&x;~Z(){Off f;EVP_MD_CTX_free(x);}}z{x};Out o=pdigest(lc,q,&x);Off f;return after(c,o,[&]{return pdigest(lc,q,&x);});}
 EVP_MAC_CTX*x=nullptr;struct Z{EVP_MAC_CTX*&x;~Z(){Off f;EVP_MAC_CTX_free(x);}}z{x};Out o=pmac(lc,q,&x);Off f;return after(c,o,[&]{return pmac(lc,q,&x);}); }
SUB("F01",provider,500,12000,1){ depth=0;F.kind=0;F.on=false;deny_hooks(adeny,rdeny);if(moddir.empty()){std::string m=getenv("PROG_gostprov");size_t i=m.rfind('/');moddir=m.substr(0,i);modname=m.substr(i+1,m.size()-i-4);}
 Pq q;q.what=s.draw(3);q.dup=s.flip();q.mid=s.flip();q.k=0;Sc c;size_t n;if(q.what==0){do{q.c=gcs(s,s.flip());}while(tagkind(q.c.k)==2||q.c.k==4||(q.c.k==8));q.c.two=false;n=q.c.in.size();c.name=std::string(q.c.encr?"encryption with ":"decryption with ")+CN[q.c.k];Out o;auto x=cc();o=cstream(q.c,x.get());REQUIRE(o.ok,"engine: %s",errs().c_str());*c.known=o;
  if(!q.c.encr&&tagkind(q.c.k)==1&&s.flip()){flipbit(s,q.c.tag,0,q.c.tag.size());c.want=false;}}
 else{q.k=s.draw(q.what==1?3:4);q.d.how=0;q.d.nid=q.what==1?HN[q.k]:PM[q.k].nid;if(q.what==2)q.d.key=s.bytes(32);q.d.m=s.rnd(s.flip()?s.draw(200):s.pick({1024,1030,2500}));q.d.parts={q.d.m.size()};n=q.d.m.size();c.name=q.what==1?PD[q.k]:PM[q.k].n;auto x=mc();Out o=dstream(x.get(),q.d.nid,q.d.key,0,q.d.m,q.d.parts);REQUIRE(o.ok,"engine: %s",errs().c_str());if(q.what==2)o.v.resize(PM[q.k].size);*c.known=o;}
 q.parts=s.split(n);q.cut=s.draw(n+1);c.name="provider: "+c.name+(q.dup?" with a duplicated context":"");note("%s",c.name.c_str());label(q.what==0?"cipher":q.what==1?"digest":"MAC");
 auto judge=[&](const Out&o,const char*w){REQUIRE(!o.ok||c.want,"%s succeeds %s",c.name.c_str(),w);REQUIRE(!o.ok||o.v==c.known->v,"%s gives another result %s: %s, expected %s",c.name.c_str(),w,hex(o.v,200).c_str(),hex(c.known->v,200).c_str());};
 auto good=[&](const Out&o,const char*w){judge(o,w);REQUIRE(o.ok==c.want,"%s %s %s: %s",c.name.c_str(),o.ok?"succeeds":"fails",w,errs().c_str());};
 // a first use of the module, when nothing is initialised yet, with a fault while it is loaded or used
 bool first=s.flip();F.n=F.rn=F.hit=0;if(first){ F.kind=s.flip()?2:1;F.j=s.draw(s.flip()?8:60);bool loading=s.flip();label(loading?"fault while the provider is loaded":"fault at the first use");Prov p;if(loading){F.on=true;bool ok=p.load();F.on=false;if(ok){F.kind=0;good(pdo(c,p.lc,q),"in a provider loaded while memory ran out");}else if(F.hit)nontrivial();}
   else{int k=F.kind;F.kind=0;REQUIRE(p.load(),"provider does not load: %s",errs().c_str());F.kind=k;F.n=F.hit=0;F.on=true;Out o=pdo(c,p.lc,q);F.on=false;if(F.hit&&!o.ok)nontrivial();judge(o,"when its first use meets a fault");F.kind=0;ERR_clear_error();good(pdo(c,p.lc,q),"after a first use that met a fault");} F.kind=0;ERR_clear_error(); }
 Prov p;REQUIRE(p.load(),"provider does not load%s: %s",first?" after one that met a fault":"",errs().c_str());good(pdo(c,p.lc,q),first?"in a provider loaded after one that met a fault":"without faults");
 F.n=F.rn=0;F.on=true;pdo(c,p.lc,q);F.on=false;long na=F.n;label(na<4?"0-3 allocations":na<20?"4-19 allocations":"20+ allocations");if(!na)return;
 for(int i=0;i<6;i++){ F.kind=s.flip()?2:1;F.j=s.draw(i&1?na:std::min(na,8l));F.n=F.hit=0;rand_seed(7);F.on=true;Out o=pdo(c,p.lc,q);F.on=false;if(F.hit&&!o.ok)nontrivial();char w[80];snprintf(w,80,"when allocation %ld of %ld%s fails",F.j,na,F.kind==2?" and every later one":"");judge(o,w);F.kind=0;ERR_clear_error();good(pdo(c,p.lc,q),"after a run with a fault"); }
 {F.kind=s.flip()?2:1;int k=F.kind;long j=s.draw(na),l[3];for(int i=0;i<3;i++){F.kind=k;F.j=j;F.n=F.hit=0;F.on=true;pdo(c,p.lc,q);F.on=false;F.kind=0;ERR_clear_error();l[i]=live();live_dump(i==0?"first":i==1?"second":"third");}REQUIRE(!(l[1]>l[0]&&l[2]>l[1]),"%s: each run in which allocation %ld%s fails leaves %ld allocations behind",c.name.c_str(),j,k==2?" and every later one":"",l[2]-l[1]);} }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
