// L01 threads: each thread works on objects of its own, under drawn schedules, and must get the results it gets alone
#include "kx.h"
#include "ciphers.h"
#include "dsched.h"
#include <openssl/x509.h>
#include <memory>
#include <openssl/pem.h>
#include <openssl/crypto.h>
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
using namespace ref; using namespace ec;
static pbt::Rule r1("L01","two to four threads, each with its own keys and contexts and a drawn list of operations (key decoding and encoding on parameter sets that share tables, generation, signing, verification, agreement, key transport, ciphers, MGM, hashes, MACs, settings from the environment), run one at a time under a drawn schedule that switches at basic blocks of the engine, at allocations and at locks; every result is compared with the reference, computed beforehand; non-trivial: at least two switches happened while both threads were inside an operation");
static pbt::Assume a1("L01","threads share no context and no random stream, and keys only in the sub shared_key, where nobody changes them; engine settings are not changed while threads run; switches happen between basic blocks of the engine, at OpenSSL allocations and at lock operations, under sequential consistency");
typedef std::function<void()> F;
struct Op{std::string name;F run;F after;}; // after: what needs the reference curve arithmetic, once the threads are done
static Bytes p8(int type,const Ps&p,const Bytes&key){return der_seq({der_int(Bytes(1,0)),kx::algid(type,p),der_octet(key)});}
static EVP_PKEY*read_p8(const Bytes&b){In in(b);const uint8_t*q=in.p;PKCS8_PRIV_KEY_INFO*i=d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.n);EVP_PKEY*k=i?EVP_PKCS82PKEY(i):NULL;PKCS8_PRIV_KEY_INFO_free(i);REQUIRE(k,"private key not decoded: %s",errs().c_str());return k;}
static EVP_PKEY*read_pub(const Bytes&b){In in(b);const uint8_t*q=in.p;EVP_PKEY*k=d2i_PUBKEY(NULL,&q,in.n);REQUIRE(k,"public key not decoded: %s",errs().c_str());return k;}
static Bytes pub_der(EVP_PKEY*k){uint8_t*o=nullptr;int n=i2d_PUBKEY(k,&o);REQUIRE(n>0,"public key not encoded: %s",errs().c_str());Bytes r(o,o+n);OPENSSL_free(o);return r;}
static Bytes p8_der(EVP_PKEY*k){uint8_t*o=nullptr;PKCS8_PRIV_KEY_INFO*i=EVP_PKEY2PKCS8(k);REQUIRE(i,"private key not encoded: %s",errs().c_str());int n=i2d_PKCS8_PRIV_KEY_INFO(i,&o);PKCS8_PRIV_KEY_INFO_free(i);Bytes r(o,o+(n>0?n:0));OPENSSL_free(o);return r;}
static void same(const Bytes&g,const Bytes&e,const char*w){if(g!=e)pbt::fail("%s: got %s, expected %s",w,hex(g,300).c_str(),hex(e,300).c_str());}
static void on_set(EVP_PKEY*k,const Ps&p){ const EC_KEY*e=(const EC_KEY*)EVP_PKEY_get0(k);int n=e&&EC_KEY_get0_group(e)?EC_GROUP_get_curve_name(EC_KEY_get0_group(e)):-1;REQUIRE(n==p.nid,"the key is on %s, expected %s",n>0?OBJ_nid2sn(n):"(none)",p.sn.c_str());
 if(!EC_KEY_get0_public_key(e))return;BIO*b=BIO_new(BIO_s_mem());int r=EVP_PKEY_print_public(b,k,0,NULL);char*t;long l=BIO_get_mem_data(b,&t);std::string s(t,l>0?l:0);BIO_free(b);REQUIRE(r>0&&s.find(std::string("Parameter set: ")+OBJ_nid2ln(p.nid)+"\n")!=std::string::npos,"printed key: %s, expected %s",s.c_str(),p.sn.c_str()); }
struct Env{std::string crypt,prf,fmt;bool hot=false;}; // settings from the environment
struct Who{int type;const Ps*p;N d;Pt Q;};
static std::vector<const Ps*> family(Src&s){ std::vector<const Ps*>v;static const char*G[][2]={{"id-GostR3410-2001-CryptoPro-A-ParamSet","id-tc26-gost-3410-2012-256-paramSetB"},{"id-GostR3410-2001-CryptoPro-B-ParamSet","id-tc26-gost-3410-2012-256-paramSetC"},{"id-GostR3410-2001-CryptoPro-C-ParamSet","id-tc26-gost-3410-2012-256-paramSetD"}};
 unsigned k=s.draw(5);if(k<3){for(auto n:G[k])v.push_back(&param_by_nid(nid_of(n)));}else if(k==3){for(auto&p:params())v.push_back(&p);}else v.push_back(&params()[s.draw(params().size())]);return v; }
static Who gen_who(Src&s,const std::vector<const Ps*>&f){Who w;w.p=f[s.draw(f.size())];w.type=gen_type(s,*w.p);w.d=s.flip()?N(1+s.draw(40)):gen_scalar(s,*w.p->c,false);w.Q=mul(*w.p->c,gen(*w.p->c),w.d);return w;}
static Bytes priv(const Who&w){return p8(w.type,*w.p,tole(w.d,w.p->c->hl));}
static const char*HN[]={"md_gost94","md_gost12_256","md_gost12_512"}; static const int HI[]={H_94,H_12_256,H_12_512},HD[]={NID_id_GostR3411_94,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512};
static Op gen_op(Src&s,const std::vector<const Ps*>&f,const Env&e,bool light,int only=-1){ Op o; switch(only>=0?only:light?s.weighted({8,6,3,1,3,3,2,2}):s.weighted({6,3,3,2,2,2,2,2,3,3,2,2,1})){
 case 0:{Who w=gen_who(s,f);Bytes x=kx::spki(w.type,*w.p,w.Q);unsigned n=1+s.draw(3);o.name="spki "+w.p->sn;o.run=[=]{for(unsigned i=0;i<n;i++){PK k(read_pub(x));on_set(k,*w.p);same(pub_der(k),x,"re-encoded public key");PK j(read_pub(x));REQUIRE(EVP_PKEY_eq(k,j)==1,"two copies of a key compare unequal");}};return o;}
 case 1:{const Ps*p=f[s.draw(f.size())];int t=p->c->hl==64?NID_id_GostR3410_2012_512:NID_id_GostR3410_2012_256;unsigned n=1+s.draw(4);o.name="paramset "+p->sn;o.run=[=]{for(unsigned i=0;i<n;i++){PC x(EVP_PKEY_CTX_new_id(t,eng()));EVP_PKEY*g=NULL;REQUIRE(x.c&&EVP_PKEY_paramgen_init(x)==1&&EVP_PKEY_CTX_ctrl_str(x,"paramset",OBJ_nid2sn(p->nid))==1&&EVP_PKEY_paramgen(x,&g)==1,"parameters not generated: %s",errs().c_str());PK k(g);on_set(k,*p);PK c(EVP_PKEY_new());REQUIRE(EVP_PKEY_set_type(c,t)==1&&EVP_PKEY_copy_parameters(c,k)==1,"parameters not copied: %s",errs().c_str());on_set(c,*p);REQUIRE(EVP_PKEY_parameters_eq(c,k)==1,"copied parameters differ");}};return o;}
 case 2:{Who w=gen_who(s,f);Bytes x=priv(w),u=kx::spki(w.type,*w.p,w.Q),out=x;if(e.fmt=="LEGACY_PK_WRAP")out=p8(w.type,*w.p,der_octet(tole(w.d,w.p->c->hl)));o.name="p8 "+w.p->sn;o.run=[=]{PK k(read_p8(x));on_set(k,*w.p);same(pub_der(k),u,"public key of a private key");same(p8_der(k),out,"re-encoded private key");};return o;}
 case 3:{const Ps*p=f[s.draw(f.size())];int t=gen_type(s,*p);if(t==NID_id_GostR3410_2001DH)t=NID_id_GostR3410_2001;auto g=std::make_shared<std::pair<Bytes,Bytes>>();o.name="keygen "+p->sn;o.run=[=]{PC x(EVP_PKEY_CTX_new_id(t,eng()));EVP_PKEY*q=NULL;REQUIRE(x.c&&EVP_PKEY_keygen_init(x)==1&&EVP_PKEY_CTX_ctrl_str(x,"paramset",OBJ_nid2sn(p->nid))==1&&EVP_PKEY_keygen(x,&q)==1,"key not generated: %s",errs().c_str());PK k(q);on_set(k,*p);g->first=pub_der(k);g->second=p8_der(k);};
  o.after=[=]{size_t hl=p->c->hl;REQUIRE(g->second.size()>hl,"generated key encoding");N d=le(sub(g->second,g->second.size()-hl,hl));REQUIRE(!d.zero()&&d<p->c->q,"generated key out of range");same(g->first,kx::spki(t,*p,mul(*p->c,gen(*p->c),d)),"public key of a generated key");};return o;}
 // symmetric operations
 case 4:case 8:{ // ciphers, GOST 28147-89 with the parameter set of the environment
  bool envd=s.chance(only==4?2:1,3);int k=envd?s.pick({(int)cm::G_CFB,(int)cm::G_CBC}):(int)s.draw(cm::NK);cm::Spec p=cm::gen_spec(s,k);p.enc=s.flip();p.pad=false;if(k==cm::G_CFB||k==cm::G_CBC){if(!e.crypt.empty())p.sbox=kx::legacy_set(e.crypt.c_str());}size_t bs=cm::info(k).bs,n=s.flip()?s.draw(80):s.draw(1200);n-=n%bs;Bytes d=s.rnd(n);auto parts=s.split(n,{8,16});Bytes x=cm::raw(p,d);unsigned rep=1+s.draw(2);o.name=cm::info(k).name;
  o.run=[=]{for(unsigned i=0;i<rep;i++){cm::Ctx c;cm::init(c,p);Bytes out;size_t a=0;for(size_t q:parts){In in(sub(d,a,q));Buf b(q+16);int l=0;REQUIRE(EVP_CipherUpdate(c,b.p,&l,in.p,q)==1,"%s: %s",cm::info(p.k).name,errs().c_str());out.insert(out.end(),b.p,b.p+l);a+=q;}same(out,x,cm::info(p.k).name);}};return o;}
 case 5:case 9:{int h=s.draw(3);Bytes d=s.rnd(s.flip()?s.draw(70):s.draw(700));auto parts=s.split(d.size(),{32,64});Bytes x=hash((HashId)HI[h],d);o.name=HN[h];o.run=[=]{EVP_MD_CTX*c=EVP_MD_CTX_new(),*c2=EVP_MD_CTX_new();uint8_t b[64];unsigned l=0;bool ok=EVP_DigestInit_ex(c,digest(HD[h]),eng())==1;size_t a=0;for(size_t q:parts){ok=ok&&EVP_DigestUpdate(c,d.data()+a,q)==1;a+=q;}ok=ok&&EVP_MD_CTX_copy_ex(c2,c)==1&&EVP_DigestFinal_ex(c,b,&l)==1;Bytes r(b,b+l);ok=ok&&EVP_DigestFinal_ex(c2,b,&l)==1;Bytes r2(b,b+l);EVP_MD_CTX_free(c);EVP_MD_CTX_free(c2);REQUIRE(ok,"%s: %s",HN[h],errs().c_str());same(r,x,HN[h]);same(r2,x,"copied digest");};return o;}
 case 6:case 10:{int k=s.draw(4);static const int MN[]={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac};Bytes key=s.bytes(32),d=s.rnd(1+s.draw(200)),x;if(k<2)x=gost89_mac(sbox_by_name(k?"TC26_Z":"CryptoPro_A"),true,key.data(),NULL,d,4);else{auto c=make_bc(k==3);c->key(key.data());x=omac(*c,d);}auto parts=s.split(d.size(),{8,16});bool viakey=s.flip();o.name=OBJ_nid2sn(MN[k]);
  o.run=[=]{EVP_MD_CTX*c=EVP_MD_CTX_new();uint8_t b[64];Bytes r;bool ok;if(viakey){PK m(EVP_PKEY_new_mac_key(MN[k],eng(),key.data(),32));ok=m.p&&EVP_DigestSignInit(c,NULL,digest(MN[k]),eng(),m)==1;}else ok=EVP_DigestInit_ex(c,digest(MN[k]),eng())==1&&EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_ALG_CTRL+4,32,(void*)key.data())>0;size_t a=0;for(size_t q:parts){ok=ok&&(viakey?EVP_DigestSignUpdate(c,d.data()+a,q):EVP_DigestUpdate(c,d.data()+a,q))==1;a+=q;}
   if(ok){if(viakey){size_t l=64;ok=EVP_DigestSignFinal(c,b,&l)==1;r=Bytes(b,b+l);}else{unsigned l=0;ok=EVP_DigestFinal_ex(c,b,&l)==1;r=Bytes(b,b+l);}}EVP_MD_CTX_free(c);REQUIRE(ok,"%s: %s",OBJ_nid2sn(MN[k]),errs().c_str());same(r,x,OBJ_nid2sn(MN[k]));};return o;}
 case 7:case 11:{ // settings, MGM
  if(s.flip()||only==7){int want=e.prf=="md_gost12_256"?NID_id_tc26_hmac_gost_3411_2012_256:e.prf=="md_gost94"?NID_id_HMACGostR3411_94:NID_id_tc26_hmac_gost_3411_2012_512;o.name="prf";o.run=[=]{cm::Ctx c;uint8_t k[32]={1},iv[8]={2};REQUIRE(EVP_CipherInit_ex(c,cipher(NID_gost89_cnt),eng(),k,iv,1)==1,"init: %s",errs().c_str());int got=-1;REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,&got)==1&&got==want,"PRF %s, expected %s",OBJ_nid2sn(got),OBJ_nid2sn(want));};return o;}
  bool z=s.flip();Bytes key=s.bytes(32),nonce=s.bytes(z?16:8),aad=s.rnd(1+s.draw(60)),pt=s.rnd(s.draw(100));nonce[0]&=0x7f;auto bc=make_bc(z);bc->key(key.data());MgmOut m=mgm(*bc,nonce,aad,pt,true);o.name=z?"kuznyechik-mgm":"magma-mgm";
  o.run=[=]{cm::Ctx c;int l=0;Buf b(pt.size()+1),t(nonce.size());int ok=EVP_CipherInit_ex(c,cipher(nid_of(z?"kuznyechik-mgm":"magma-mgm")),eng(),key.data(),nonce.data(),1)==1&&EVP_CipherUpdate(c,NULL,&l,aad.data(),aad.size())==1&&(l=0,pt.empty()||EVP_CipherUpdate(c,b.p,&l,pt.data(),pt.size())==1);Bytes ct(b.p,b.p+(ok?l:0));ok=ok&&EVP_CipherFinal_ex(c,b.p,&l)==1&&EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,t.n,t.p)==1;REQUIRE(ok,"MGM: %s",errs().c_str());same(ct,m.ct,"MGM text");same(Bytes(t.p,t.p+t.n),m.tag,"MGM tag");};return o;}
 default:break;}
 // operations with a private key
 Who w=gen_who(s,f);const Curve&c=*w.p->c;Bytes x=priv(w);switch(s.draw(4)){
 case 0:{Bytes dg=s.rnd(c.hl);auto sig=std::make_shared<Bytes>();o.name="sign "+w.p->sn;o.run=[=]{PK k(read_p8(x));PC y(EVP_PKEY_CTX_new(k,eng()));size_t l=128;Buf b(128);REQUIRE(y.c&&EVP_PKEY_sign_init(y)==1&&EVP_PKEY_sign(y,b.p,&l,dg.data(),dg.size())==1,"sign: %s",errs().c_str());*sig=Bytes(b.p,b.p+l);};o.after=[=]{REQUIRE(verify(*w.p->c,w.Q,dg,*sig),"signature %s does not verify",hex(*sig,128).c_str());};return o;}
 case 1:{Bytes dg=s.rnd(c.hl);bool ok=false;Bytes sig;for(int i=0;i<20&&!ok;i++)sig=signature(c,w.d,gen_scalar(s,c,false),dg,ok);if(!ok)sig=Bytes(2*c.hl,1);if(s.chance(1,3))sig[s.draw(sig.size())]^=1<<s.draw(8);bool want=verify(c,w.Q,dg,sig);Bytes u=kx::spki(w.type,*w.p,w.Q);o.name="verify "+w.p->sn;o.run=[=]{PK k(read_pub(u));PC y(EVP_PKEY_CTX_new(k,eng()));REQUIRE(y.c&&EVP_PKEY_verify_init(y)==1,"verify init");int r=EVP_PKEY_verify(y,sig.data(),sig.size(),dg.data(),dg.size());REQUIRE((r==1)==want,"signature %s",want?"refused":"accepted");ERR_clear_error();};return o;}
 case 2:{N b=gen_scalar(s,c,false);Pt B=mul(c,gen(c),b);bool big=s.flip()&&w.type!=NID_id_GostR3410_2001&&w.type!=NID_id_GostR3410_2001DH;Bytes ukm=s.rnd(big?32:8);ukm[0]|=1;if(mod(le(ukm),c.q).zero())ukm[0]^=2;bool ok;Bytes want=big?keg(c,w.d,B,ukm,c.hl==64,ok):vko(c,w.d,B,ukm,kx::legacy_hash(w.type),ok);if(!ok)break;Bytes u=kx::spki(w.type,*w.p,B);o.name=(big?"keg ":"vko ")+w.p->sn;
  o.run=[=]{PK k(read_p8(x)),p(read_pub(u));PC y(EVP_PKEY_CTX_new(k,eng()));Buf o(64);size_t l=64;REQUIRE(y.c&&EVP_PKEY_derive_init(y)==1&&EVP_PKEY_derive_set_peer(y,p)==1&&EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),(void*)ukm.data())==1&&EVP_PKEY_derive(y,o.p,&l)==1,"derive: %s",errs().c_str());same(Bytes(o.p,o.p+l),want,"shared key");};return o;}
 default:break;}
 {Bytes sk=s.rnd(32),u=kx::spki(w.type,*w.p,w.Q);int kind=w.type==NID_id_GostR3410_2001||w.type==NID_id_GostR3410_2001DH?0:s.draw(3);int cn=kind==0?0:kind==1?NID_magma_ctr:NID_kuznyechik_ctr;o.name="transport "+w.p->sn;
  o.run=[=]{PK p(read_pub(u)),k(read_p8(x));PC a(EVP_PKEY_CTX_new(p,eng())),b(EVP_PKEY_CTX_new(k,eng()));Buf o(700),r(64);size_t l=700,m=64;auto cc=[&](EVP_PKEY_CTX*y){return !cn||EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL)==1;};REQUIRE(a.c&&b.c&&EVP_PKEY_encrypt_init(a)==1&&cc(a)&&EVP_PKEY_encrypt(a,o.p,&l,sk.data(),32)==1,"encrypt: %s",errs().c_str());REQUIRE(EVP_PKEY_decrypt_init(b)==1&&cc(b)&&EVP_PKEY_decrypt(b,r.p,&m,o.p,l)==1,"decrypt: %s",errs().c_str());same(Bytes(r.p,r.p+m),sk,"session key");};return o;} }
static std::vector<sched::Switch> gen_plan(Src&s){ std::vector<sched::Switch>v;if(s.chance(1,3)){unsigned top=2+s.draw(6);for(uint8_t b:s.rnd(s.pick({600,2500,6000})))v.push_back({1u+b%top,(unsigned)(b>>6)});return v;} /* nearly in step */size_t n=s.pick({2,4,10,40,120,300});unsigned mode=s.draw(4);for(size_t i=0;i<n;i++){unsigned m=mode==3?s.draw(3):mode;uint64_t top=m==0?30:m==1?1000:60000;v.push_back({1+s.draw(top),(unsigned)s.draw(4)});}return v; }
static void round(Src&s,const Env&e,bool light){ auto f=family(s);size_t nt=2+(s.chance(1,3)?1+s.draw(2):0);std::vector<std::vector<Op>> ops(nt);int only=s.chance(1,3)?s.pick({0,1,2,4,7,7,4}):-1;for(size_t t=0;t<nt;t++){size_t n=1+s.draw(light?4:3);for(size_t i=0;i<n;i++)ops[t].push_back(gen_op(s,f,e,light,only));}auto plan=gen_plan(s);uint64_t fair=s.pick({200000,2000,50000});
 std::string tx;for(size_t t=0;t<nt;t++){tx+="T"+std::to_string(t)+":";for(auto&o:ops[t])tx+=" "+o.name+",";}note("%s %zu switches",tx.substr(0,400).c_str(),plan.size());
 std::vector<std::string> bad(nt);std::vector<F> bodies;for(size_t t=0;t<nt;t++)bodies.push_back([&,t]{rand_seed(pbt::mix(77+t));for(auto&o:ops[t])try{o.run();}catch(pbt::Failure&x){bad[t]=o.name+": "+x.msg;break;}ERR_clear_error();});
 ERR_clear_error();on_alloc(sched::point);sched::Stat st=sched::run(bodies,plan,fair);on_alloc(nullptr);note("%u switches made, %llu points, %u waits",st.switches,(unsigned long long)st.points,st.blocked);
 for(size_t t=0;t<nt;t++)REQUIRE(bad[t].empty(),"thread %zu: %s",t,bad[t].c_str());for(auto&v:ops)for(auto&o:v)if(o.after)o.after();for(auto&v:ops)for(auto&o:v)label(o.name.substr(0,o.name.find(' ')));if(st.switches>=nt+1)nontrivial();if(st.blocked)label("waited for a lock"); }
// nothing has used the engine before in this process: its caches are filled by whichever thread comes first
SUB("L01",cold,3600,100000,1){ Env e;static const char*CP[]={"id-Gost28147-89-CryptoPro-A-ParamSet","id-Gost28147-89-CryptoPro-B-ParamSet","id-Gost28147-89-CryptoPro-C-ParamSet","id-Gost28147-89-CryptoPro-D-ParamSet","id-tc26-gost-28147-param-Z"};
 if(s.chance(2,3)){e.crypt=CP[s.draw(5)];setenv("CRYPT_PARAMS",e.crypt.c_str(),1);}if(s.chance(2,3)){e.prf=s.pick<std::string>({"md_gost12_256","md_gost94","md_gost12_512"});setenv("GOST_PBE_HMAC",e.prf.c_str(),1);}if(s.chance(2,3)){e.fmt="LEGACY_PK_WRAP";setenv("GOST_PK_FORMAT","LEGACY_PK_WRAP",1);}
 round(s,e,s.chance(2,3)); }
// the first reads of the settings from the environment, by threads nearly in step
SUB("L01",settings,1200,60000,1){ std::string prf=s.pick<std::string>({"md_gost12_256","md_gost94","md_gost12_512"}),set=s.pick<std::string>({"id-Gost28147-89-CryptoPro-B-ParamSet","id-Gost28147-89-CryptoPro-D-ParamSet","id-tc26-gost-28147-param-Z"});setenv("GOST_PBE_HMAC",prf.c_str(),1);setenv("CRYPT_PARAMS",set.c_str(),1);setenv("GOST_PK_FORMAT","LEGACY_PK_WRAP",1);
 int want=prf=="md_gost12_256"?NID_id_tc26_hmac_gost_3411_2012_256:prf=="md_gost94"?NID_id_HMACGostR3411_94:NID_id_tc26_hmac_gost_3411_2012_512;const Ps&p=param_by_nid(nid_of("id-GostR3410-2001-CryptoPro-A-ParamSet"));
 size_t nt=2+s.draw(3);int same_op=s.chance(2,3)?(int)s.draw(3):-1;std::vector<std::unique_ptr<cm::Ctx>> cs;std::vector<std::unique_ptr<PK>> ks;std::vector<std::string> bad(nt);std::vector<F> bodies;std::string tx;
 cm::Spec q{};q.k=cm::G_CFB;q.key=Bytes(32,3);q.iv=Bytes(8,4);q.sbox=kx::legacy_set(set.c_str());q.mesh=true;q.enc=true;Bytes txt(40,5);{cm::Spec g=cm::gen_spec(s,cm::G_CFB);g.sbox=q.sbox;g.enc=true;g.pad=false;q=g;}Bytes enc=cm::raw(q,txt);
 Bytes x=p8(NID_id_GostR3410_2001,p,tole(N(7),32)),wrapped=p8(NID_id_GostR3410_2001,p,der_octet(tole(N(7),32)));
 for(size_t t=0;t<nt;t++){int op=same_op>=0?same_op:(int)s.draw(3);F f;
  if(op==0){cs.emplace_back(new cm::Ctx);EVP_CIPHER_CTX*c=*cs.back();uint8_t k[32]={1},iv[8]={2};REQUIRE(EVP_CipherInit_ex(c,cipher(NID_gost89_cnt),eng(),k,iv,1)==1,"init: %s",errs().c_str());tx+=" prf";f=[=]{int got=-1;REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,&got)==1&&got==want,"PRF %s, expected %s",OBJ_nid2sn(got),OBJ_nid2sn(want));};}
  else if(op==1){tx+=" cfb";f=[=]{cm::Ctx c;cm::init(c,q);Buf b(64);int l=0;REQUIRE(EVP_CipherUpdate(c,b.p,&l,txt.data(),txt.size())==1,"cfb: %s",errs().c_str());same(Bytes(b.p,b.p+l),enc,"gost89");};}
  else{ks.emplace_back(new PK(read_p8(x)));EVP_PKEY*k=*ks.back();tx+=" p8";f=[=]{same(p8_der(k),wrapped,"private key");};}
  bodies.push_back([&bad,t,f]{try{f();}catch(pbt::Failure&e){bad[t]=e.msg;}ERR_clear_error();});}
 std::vector<sched::Switch> plan;unsigned top=s.pick({4,8,16,40}),n=1+s.draw(12);for(unsigned i=0;i<n;i++)plan.push_back({1u+s.draw(top),(unsigned)s.draw(4)});note("%s, %u switches",tx.c_str(),n);
 ERR_clear_error();on_alloc(sched::point);sched::Stat st=sched::run(bodies,plan,200000);on_alloc(nullptr);note("%u switches made",st.switches);for(size_t t=0;t<nt;t++)REQUIRE(bad[t].empty(),"thread %zu: %s",t,bad[t].c_str());if(st.switches>=nt+1)nontrivial(); }
SUB("L01",warm,2600,70000,16){ round(s,Env(),s.chance(1,2)); }
// several threads using one key, each through contexts of its own
SUB("L01",shared_key,900,25000,16){ auto f=family(s);Who w=gen_who(s,f),w2;w2.p=w.p;w2.type=w.type;w2.d=gen_scalar(s,*w.p->c,false);w2.Q=mul(*w.p->c,gen(*w.p->c),w2.d);const Curve&c=*w.p->c;bool dh=w.type==NID_id_GostR3410_2001||w.type==NID_id_GostR3410_2001DH;auto key=std::make_shared<PK>(read_p8(priv(w))),pub=std::make_shared<PK>(read_pub(kx::spki(w.type,*w.p,w.Q))),peer=std::make_shared<PK>(read_pub(kx::spki(w2.type,*w2.p,w2.Q)));
 int mk=s.draw(4);static const int MN[]={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac};Bytes mkey=s.bytes(32);auto mac=std::make_shared<PK>(EVP_PKEY_new_mac_key(MN[mk],eng(),mkey.data(),32));REQUIRE(mac->p,"MAC key: %s",errs().c_str());
 size_t nt=2+s.draw(3);std::vector<std::vector<Op>> ops(nt);std::string tx;int only=s.flip()?(int)s.draw(7):-1;
 for(size_t t=0;t<nt;t++){tx+="T"+std::to_string(t)+":";size_t n=1+s.draw(3);for(size_t i=0;i<n;i++){Op o;switch(only>=0?only:(int)s.draw(7)){
  case 0:{Bytes dg=s.rnd(c.hl);auto sig=std::make_shared<Bytes>();o.name="sign";o.run=[=]{PC y(EVP_PKEY_CTX_new(*key,eng()));size_t l=128;Buf b(128);REQUIRE(y.c&&EVP_PKEY_sign_init(y)==1&&EVP_PKEY_sign(y,b.p,&l,dg.data(),dg.size())==1,"sign: %s",errs().c_str());*sig=Bytes(b.p,b.p+l);};Who v=w;o.after=[=]{REQUIRE(verify(*v.p->c,v.Q,dg,*sig),"signature %s does not verify",hex(*sig,128).c_str());};break;}
  case 1:{Bytes dg=s.rnd(c.hl);bool ok=false;Bytes sig;for(int j=0;j<20&&!ok;j++)sig=signature(c,w.d,gen_scalar(s,c,false),dg,ok);if(!ok)sig=Bytes(2*c.hl,1);if(s.chance(1,3))sig[s.draw(sig.size())]^=1<<s.draw(8);bool want=verify(c,w.Q,dg,sig);o.name="verify";bool viaprv=s.flip();o.run=[=]{PC y(EVP_PKEY_CTX_new(viaprv?*key:*pub,eng()));REQUIRE(y.c&&EVP_PKEY_verify_init(y)==1,"verify init");int r=EVP_PKEY_verify(y,sig.data(),sig.size(),dg.data(),dg.size());REQUIRE((r==1)==want,"signature %s",want?"refused":"accepted");ERR_clear_error();};break;}
  case 2:{Bytes ukm=s.rnd(8);ukm[0]|=1;bool ok;Bytes want=vko(c,w.d,w2.Q,ukm,kx::legacy_hash(w.type),ok);if(!ok)continue;o.name="derive";o.run=[=]{PC y(EVP_PKEY_CTX_new(*key,eng()));Buf b(64);size_t l=64;REQUIRE(y.c&&EVP_PKEY_derive_init(y)==1&&EVP_PKEY_derive_set_peer(y,*peer)==1&&EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_SET_IV,8,(void*)ukm.data())==1&&EVP_PKEY_derive(y,b.p,&l)==1,"derive: %s",errs().c_str());same(Bytes(b.p,b.p+l),want,"shared key");};break;}
  case 3:{Bytes sk=s.rnd(32);int cn=dh?0:s.pick({0,(int)NID_magma_ctr,(int)NID_kuznyechik_ctr});o.name="transport";o.run=[=]{PC a(EVP_PKEY_CTX_new(*pub,eng())),b(EVP_PKEY_CTX_new(*key,eng()));Buf o(700),r(64);size_t l=700,m=64;auto cc=[&](EVP_PKEY_CTX*y){return !cn||EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL)==1;};REQUIRE(a.c&&b.c&&EVP_PKEY_encrypt_init(a)==1&&cc(a)&&EVP_PKEY_encrypt(a,o.p,&l,sk.data(),32)==1,"encrypt: %s",errs().c_str());REQUIRE(EVP_PKEY_decrypt_init(b)==1&&cc(b)&&EVP_PKEY_decrypt(b,r.p,&m,o.p,l)==1,"decrypt: %s",errs().c_str());same(Bytes(r.p,r.p+m),sk,"session key");};break;}
  case 4:{Bytes a=priv(w),b=kx::spki(w.type,*w.p,w.Q);Who v=w;o.name="encode";o.run=[=]{same(p8_der(*key),a,"private key");same(pub_der(*key),b,"public key");same(pub_der(*pub),b,"public key");on_set(*pub,*v.p);};break;}
  case 5:{o.name="compare";int e2=w.Q.x==w2.Q.x&&w.Q.y==w2.Q.y;o.run=[=]{REQUIRE(EVP_PKEY_eq(*key,*pub)==1&&EVP_PKEY_eq(*pub,*peer)==e2&&EVP_PKEY_parameters_eq(*key,*peer)==1,"comparison");PK k(EVP_PKEY_dup(*pub));ERR_clear_error();PK e(EVP_PKEY_new());REQUIRE(EVP_PKEY_copy_parameters(e,*key)==1,"parameters not copied: %s",errs().c_str());};break;}
  default:{Bytes d=s.rnd(1+s.draw(60)),x;if(mk<2)x=gost89_mac(sbox_by_name(mk?"TC26_Z":"CryptoPro_A"),true,mkey.data(),NULL,d,4);else{auto bc=make_bc(mk==3);bc->key(mkey.data());x=omac(*bc,d);}int nid=MN[mk];o.name="mac";o.run=[=]{EVP_MD_CTX*m=EVP_MD_CTX_new();uint8_t b[64];size_t l=64;bool ok=EVP_DigestSignInit(m,NULL,digest(nid),eng(),*mac)==1&&EVP_DigestSignUpdate(m,d.data(),d.size())==1&&EVP_DigestSignFinal(m,b,&l)==1;EVP_MD_CTX_free(m);REQUIRE(ok,"MAC: %s",errs().c_str());same(Bytes(b,b+l),x,"MAC");};break;} }
  tx+=" "+o.name;ops[t].push_back(o);}tx+=" "; }
 auto plan=gen_plan(s);note("%s: %s%zu switches",w.p->sn.c_str(),tx.c_str(),plan.size());std::vector<std::string> bad(nt);std::vector<F> bodies;for(size_t t=0;t<nt;t++)bodies.push_back([&,t]{rand_seed(pbt::mix(177+t));for(auto&o:ops[t])try{o.run();}catch(pbt::Failure&x){bad[t]=o.name+": "+x.msg;break;}ERR_clear_error();});
 ERR_clear_error();on_alloc(sched::point);sched::Stat st=sched::run(bodies,plan,50000);on_alloc(nullptr);note("%u switches made",st.switches);for(size_t t=0;t<nt;t++)REQUIRE(bad[t].empty(),"thread %zu: %s",t,bad[t].c_str());for(auto&v:ops)for(auto&o:v){if(o.after)o.after();label("shared "+o.name);}if(st.switches>=nt+1)nontrivial(); }
// the provider: its methods are made at their first use, by whichever thread comes first
struct Libs{ std::vector<OSSL_LIB_CTX*> x;std::vector<OSSL_PROVIDER*> p;~Libs(){for(size_t i=p.size();i-->0;)OSSL_PROVIDER_unload(p[i]);for(auto l:x)OSSL_LIB_CTX_free(l);} };
static std::string mod_name(OSSL_LIB_CTX*l){std::string m=getenv("PROG_gostprov")?getenv("PROG_gostprov"):"";size_t sl=m.rfind('/');OSSL_PROVIDER_set_default_search_path(l,m.substr(0,sl).c_str());m=m.substr(sl+1);return m.substr(0,m.size()-3);}
static OSSL_PROVIDER*load_prov(OSSL_LIB_CTX*l){OSSL_PROVIDER*p=OSSL_PROVIDER_load(l,mod_name(l).c_str());REQUIRE(p,"provider does not load: %s",errs().c_str());return p;}
typedef std::function<void(OSSL_LIB_CTX*)> FP; struct POp{std::string name;FP run;};
static const int PK_[]={cm::G_CFB,cm::G_CBC,cm::G_CNT,cm::G_CNT12,cm::M_CBC,cm::M_CTR,cm::M_ACPKM,cm::Z_ECB,cm::Z_CBC,cm::Z_CFB,cm::Z_OFB,cm::Z_CTR,cm::Z_ACPKM};
static POp gen_pop(Src&s,int only){ POp o;switch(only>=0?only:(int)s.draw(5)){
 case 0:{cm::Spec p=cm::gen_spec(s,PK_[s.draw(13)]);p.enc=s.flip();p.pad=false;p.mesh=true;p.section=0;size_t bs=cm::info(p.k).bs,n=s.draw(100);n-=n%bs;Bytes d=s.rnd(n),x=cm::raw(p,d);o.name=cm::info(p.k).name;
  o.run=[=](OSSL_LIB_CTX*l){EVP_CIPHER*e=EVP_CIPHER_fetch(l,cm::info(p.k).name,NULL);REQUIRE(e,"%s not fetched: %s",cm::info(p.k).name,errs().c_str());EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new();Buf b(n+32);int k=0,k2=0;bool ok=EVP_CIPHER_get_key_length(e)==32&&EVP_CipherInit_ex(c,e,NULL,p.key.data(),cm::info(p.k).ivlen?p.iv.data():NULL,p.enc)==1&&EVP_CIPHER_CTX_set_padding(c,0)==1&&(n==0||EVP_CipherUpdate(c,b.p,&k,d.data(),n)==1)&&EVP_CipherFinal_ex(c,b.p+k,&k2)==1;EVP_CIPHER_CTX_free(c);EVP_CIPHER_free(e);REQUIRE(ok,"%s: %s",cm::info(p.k).name,errs().c_str());same(Bytes(b.p,b.p+k+k2),x,cm::info(p.k).name);};return o;}
 case 1:{int h=s.draw(3);Bytes d=s.rnd(s.draw(100)),x=hash((HashId)HI[h],d);o.name=HN[h];o.run=[=](OSSL_LIB_CTX*l){EVP_MD*m=EVP_MD_fetch(l,HN[h],NULL);REQUIRE(m,"%s not fetched: %s",HN[h],errs().c_str());EVP_MD_CTX*c=EVP_MD_CTX_new();uint8_t b[64];unsigned n=0;bool ok=EVP_DigestInit_ex(c,m,NULL)==1&&EVP_DigestUpdate(c,d.data(),d.size())==1&&EVP_DigestFinal_ex(c,b,&n)==1;EVP_MD_CTX_free(c);EVP_MD_free(m);REQUIRE(ok,"%s: %s",HN[h],errs().c_str());same(Bytes(b,b+n),x,HN[h]);};return o;}
 case 2:{int k=s.draw(4);static const char*MN[]={"gost-mac","gost-mac-12","magma-mac","kuznyechik-mac"};const char*nm=MN[k];Bytes key=s.bytes(32),d=s.rnd(1+s.draw(60)),x;if(k<2)x=gost89_mac(sbox_by_name(k?"TC26_Z":"CryptoPro_A"),true,key.data(),NULL,d,4);else{auto c=make_bc(k==3);c->key(key.data());x=omac(*c,d);}o.name=nm;
  o.run=[=](OSSL_LIB_CTX*l){EVP_MAC*m=EVP_MAC_fetch(l,nm,NULL);REQUIRE(m,"%s not fetched: %s",nm,errs().c_str());EVP_MAC_CTX*c=EVP_MAC_CTX_new(m);uint8_t b[64];size_t n=0;bool ok=c&&EVP_MAC_init(c,key.data(),32,NULL)==1&&EVP_MAC_update(c,d.data(),d.size())==1&&EVP_MAC_final(c,b,&n,64)==1;EVP_MAC_CTX_free(c);EVP_MAC_free(m);REQUIRE(ok,"%s: %s",nm,errs().c_str());same(Bytes(b,b+n),x,nm);};return o;}
 case 3:{bool z=s.flip();Bytes key=s.bytes(32),nonce=s.bytes(z?16:8),aad=s.rnd(1+s.draw(30)),pt=s.rnd(1+s.draw(50));nonce[0]&=0x7f;auto bc=make_bc(z);bc->key(key.data());MgmOut m=mgm(*bc,nonce,aad,pt,true);o.name=z?"kuznyechik-mgm":"magma-mgm";std::string nm=o.name;
  o.run=[=](OSSL_LIB_CTX*l){EVP_CIPHER*e=EVP_CIPHER_fetch(l,nm.c_str(),NULL);REQUIRE(e,"MGM not fetched: %s",errs().c_str());EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new();Buf b(pt.size()),t(nonce.size());int k=0;bool ok=EVP_EncryptInit_ex(c,e,NULL,key.data(),nonce.data())==1&&EVP_EncryptUpdate(c,NULL,&k,aad.data(),aad.size())==1&&EVP_EncryptUpdate(c,b.p,&k,pt.data(),pt.size())==1;uint8_t f[32];ok=ok&&EVP_EncryptFinal_ex(c,f,&k)==1&&EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,t.n,t.p)==1;EVP_CIPHER_CTX_free(c);EVP_CIPHER_free(e);REQUIRE(ok,"MGM: %s",errs().c_str());same(Bytes(b.p,b.p+b.n),m.ct,"MGM text");same(Bytes(t.p,t.p+t.n),m.tag,"MGM tag");};return o;}
 default:o.name="load";o.run=[](OSSL_LIB_CTX*){OSSL_LIB_CTX*l=OSSL_LIB_CTX_new();OSSL_PROVIDER*p=OSSL_PROVIDER_load(l,mod_name(l).c_str());int r=p!=NULL;EVP_MD*m=r?EVP_MD_fetch(l,"md_gost12_256",NULL):NULL;EVP_MD_free(m);if(p)OSSL_PROVIDER_unload(p);OSSL_LIB_CTX_free(l);REQUIRE(r&&m,"provider not loaded: %s",errs().c_str());};return o;} }
static int prov_round(std::vector<std::vector<POp>>&ops,bool own,std::vector<std::string>&bad,const std::vector<sched::Switch>*plan,sched::Stat&st){ size_t nt=ops.size();{Libs L;L.x.push_back(OSSL_LIB_CTX_new());L.p.push_back(load_prov(L.x[0]));std::vector<OSSL_LIB_CTX*> l(nt,L.x[0]);/* the module is left, and what it made released, with the last library context */if(own)for(size_t t=0;t<nt;t++){L.x.push_back(l[t]=OSSL_LIB_CTX_new());L.p.push_back(load_prov(l[t]));}
 auto body=[&](size_t t){for(auto&o:ops[t])try{o.run(l[t]);}catch(pbt::Failure&x){bad[t]=o.name+": "+x.msg;break;}ERR_clear_error();};
 {std::vector<F> b;for(size_t t=0;t<nt;t++)b.push_back([&,t]{body(t);});ERR_clear_error();on_alloc(sched::point);st=sched::run(b,*plan,plan->empty()?1ull<<60:50000);on_alloc(nullptr);}
 }ERR_clear_error();return live_allocs(); }
SUB("L01",provider,1200,30000,1){ size_t nt=2+s.draw(3);int only=s.chance(1,2)?(int)s.draw(4):-1;bool own=s.chance(1,3);std::vector<std::vector<POp>> ops(nt);std::string tx;POp first=gen_pop(s,only);bool like=s.chance(2,3);for(size_t t=0;t<nt;t++){size_t n=1+s.draw(3);tx+="T"+std::to_string(t)+":";for(size_t i=0;i<n;i++){ops[t].push_back(i==0&&like?first:gen_pop(s,only));tx+=" "+ops[t].back().name;}tx+=" ";}
 std::vector<sched::Switch> plan;if(s.flip())plan=gen_plan(s);else{unsigned top=s.pick({4,20,100,400}),n=1+s.draw(30);for(unsigned i=0;i<n;i++)plan.push_back({1u+s.draw(top),(unsigned)s.draw(4)});}note("%s%s, %zu switches",tx.c_str(),own?", a library context each":"",plan.size());
 std::vector<std::string> bad(nt);std::vector<sched::Switch> none;sched::Stat st;int z=0;for(int i=0;i<2;i++)z=prov_round(ops,own,bad,&none,st);for(size_t t=0;t<nt;t++)REQUIRE(bad[t].empty(),"alone, %zu: %s",t,bad[t].c_str());
 int a=prov_round(ops,own,bad,&none,st),b=prov_round(ops,own,bad,&plan,st);note("%u switches made, %llu points",st.switches,(unsigned long long)st.points);for(size_t t=0;t<nt;t++)REQUIRE(bad[t].empty(),"thread %zu: %s",t,bad[t].c_str());for(auto&v:ops)for(auto&o:v)label("provider "+o.name);
 REQUIRE(b-a<=a-z/* every load makes new objects of the MGM names */,"%d allocations more are left after the threads than after the same operations one after another",b-a-(a-z));if(st.switches>=nt+1)nontrivial(); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
