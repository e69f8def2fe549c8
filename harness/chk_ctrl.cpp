// N01 controls: parameter-set names, key-agreement controls, engine settings, cipher controls
#include "ec.h"
#include "ciphers.h"
#include "kx.h"
#include <openssl/x509.h>
#include <optional>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ec; using namespace cm;
static pbt::Rule r1("N01","histories of valid and invalid controls (names, identifiers, numbers, lengths, null values, duplicated contexts, environment settings) before key generation, key agreement, encryption and encoding, compared with a model of the settings in force; non-trivial: at least one refused control and one accepted one, or an effect that differs from the default");
static const Ps&any_ps(Src&s){return params()[s.draw(params().size())];}
static const Ps&ps_of(Src&s,bool big){static std::vector<const Ps*>v[2];if(v[0].empty())for(auto&p:params())v[p.c->hl==64].push_back(&p);return *v[big][s.draw(v[big].size())];}
static const int TYPES[]={NID_id_GostR3410_2001,NID_id_GostR3410_2001DH,NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512};
static std::string dotted(int nid){char b[120];OBJ_obj2txt(b,sizeof b,OBJ_nid2obj(nid),1);return b;}
static std::string mixed(Src&s,std::string v){for(auto&c:v)if(s.flip())c=tolower(c);return v;}
static std::string name_of(Src&s,const Ps&p){ static const struct{const char*n;int nid;}A[]={{"A",NID_id_GostR3410_2001_CryptoPro_A_ParamSet},{"B",NID_id_GostR3410_2001_CryptoPro_B_ParamSet},{"C",NID_id_GostR3410_2001_CryptoPro_C_ParamSet},{"0",NID_id_GostR3410_2001_TestParamSet},{"XA",NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet},{"XB",NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet},{"TCA",NID_id_tc26_gost_3410_2012_256_paramSetA},{"TCB",NID_id_tc26_gost_3410_2012_256_paramSetB},{"TCC",NID_id_tc26_gost_3410_2012_256_paramSetC},{"TCD",NID_id_tc26_gost_3410_2012_256_paramSetD},{"A",NID_id_tc26_gost_3410_2012_512_paramSetA},{"B",NID_id_tc26_gost_3410_2012_512_paramSetB},{"C",NID_id_tc26_gost_3410_2012_512_paramSetC}};
 if(s.flip())for(auto&a:A)if(a.nid==p.nid)return mixed(s,a.n); switch(s.draw(3)){case 0:return OBJ_nid2sn(p.nid);case 1:return OBJ_nid2ln(p.nid);default:return dotted(p.nid);} }
static std::string bad_name(Src&s,size_t hl){ switch(s.draw(6)){
 case 0:{const Ps&p=ps_of(s,hl!=64);return s.draw(3)==0?OBJ_nid2ln(p.nid):s.flip()?OBJ_nid2sn(p.nid):dotted(p.nid);}
 case 1:return hl==32?s.pick({"D","E","1","XC","XX","X0","TCE","TC0","TCX","AA","TC","A ","TXA"}):s.pick({"D","0","XA","TCA","TCD","X","AB","AA"});
 case 2:return OBJ_nid2sn(s.pick({NID_id_Gost28147_89_CryptoPro_A_ParamSet,NID_id_GostR3411_94_CryptoProParamSet,NID_id_GostR3411_94,NID_X9_62_prime256v1,NID_id_tc26_gost_28147_param_Z,NID_secp256k1,NID_id_GostR3410_2012_256}));
 case 3:return "";case 4:{std::string r;size_t n=1+s.draw(40);for(size_t i=0;i<n;i++)r+=(char)s.range(1,255);return r.size()<4?"?"+r+"????":r;}
 default:return s.pick({"1.2.3","1.2.643.2.2.35.","1.2.643.2.2.35.9","2.5.4.3","..","1","0.","id-GostR3410-2001-CryptoPro-A-ParamSe"});} }
SUB("N01",paramset,9000,120000,64){ int t=TYPES[s.draw(4)];size_t hl=t==NID_id_GostR3410_2012_512?64:32;auto right=[&]()->const Ps&{return ps_of(s,hl==64);};int cur=0;bool pg=s.flip();PC x(nullptr);std::string log;
 if(s.chance(1,3)){const Ps&p=right();PK k(mk_key(t,p.nid,nullptr));cur=p.nid;x.c=EVP_PKEY_CTX_new(k,eng());note("%s from key on %s",OBJ_nid2sn(t),p.sn.c_str());}else{x.c=EVP_PKEY_CTX_new_id(t,eng());note("%s",OBJ_nid2sn(t));}
 REQUIRE(x.c,"no context: %s",errs().c_str());bool inited=false;auto start=[&]{if(!inited)REQUIRE((pg?EVP_PKEY_paramgen_init(x):EVP_PKEY_keygen_init(x))==1,"init: %s",errs().c_str());inited=true;};if(!s.chance(1,3))start();size_t n=s.draw(6);bool ok=false,bad=false;label(OBJ_nid2sn(t));
 for(size_t g=0;g<1+(size_t)s.chance(1,4);g++){
 for(size_t i=0;i<n;i++){int r;switch(s.weighted({4,4,2,2,1,1})){
  case 0:{const Ps&p=right();std::string v=name_of(s,p);note("=%s",v.c_str());r=EVP_PKEY_CTX_ctrl_str(x,"paramset",v.c_str());REQUIRE(r==1,"parameter set \"%s\" refused for %s: %s",v.c_str(),OBJ_nid2sn(t),errs().c_str());cur=p.nid;ok=true;break;}
  case 1:{std::string v=bad_name(s,hl);note("!%s",v.c_str());In iv(Bytes(v.c_str(),v.c_str()+strlen(v.c_str())+1));r=EVP_PKEY_CTX_ctrl_str(x,"paramset",(char*)iv.p);REQUIRE(r<=0,"parameter set \"%s\" accepted for %s",v.c_str(),OBJ_nid2sn(t));bad=true;break;}
  case 2:{start();const Ps&p=right();note("=%d",p.nid);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_GOST_PARAMSET,p.nid,NULL);REQUIRE(r==1,"parameter set %s refused: %s",p.sn.c_str(),errs().c_str());cur=p.nid;ok=true;break;}
  case 3:{start();int nid=s.pick({0,-1,NID_X9_62_prime256v1,NID_id_Gost28147_89_CryptoPro_A_ParamSet,99999999});if(s.flip())nid=ps_of(s,hl!=64).nid;note("!%d",nid);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_GOST_PARAMSET,nid,NULL);REQUIRE(r<=0,"parameter set number %d (%s) accepted for %s",nid,nid>0&&nid<5000?OBJ_nid2sn(nid):"?",OBJ_nid2sn(t));bad=true;break;}
  case 4:{start();bool mac=s.chance(1,4);note("null digest");if(mac){PC y(EVP_PKEY_CTX_new_id(s.pick({NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac}),eng()));REQUIRE(EVP_PKEY_keygen_init(y)==1,"init");r=EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_MD,0,NULL);}else r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_MD,0,s.flip()?NULL:(void*)EVP_sha256());REQUIRE(r<=0,"no digest, or a foreign one, accepted");bad=true;break;}
  default:{if(!inited){note("dup");EVP_PKEY_CTX*d=EVP_PKEY_CTX_dup(x);REQUIRE(d,"dup: %s",errs().c_str());EVP_PKEY_CTX_free(x.c);x.c=d;}if(inited||s.chance(1,3)){const char*un=s.pick({"Paramset","paramsets","","curve","key","size","hexkey"});REQUIRE(EVP_PKEY_CTX_ctrl_str(x,un,"A")<=0,"unknown control \"%s\" accepted",un);bad=true;}break;}}
  ERR_clear_error();}
 start();EVP_PKEY*out=NULL;int r=pg?EVP_PKEY_paramgen(x,&out):EVP_PKEY_keygen(x,&out);std::string er=errs();PK k(out);
 if(!cur){REQUIRE(r<=0,"generated without a parameter set");REQUIRE(!out,"a key was left behind");}
 else{REQUIRE(r==1,"generation failed on %s: %s",OBJ_nid2sn(cur),er.c_str());int bid=EVP_PKEY_base_id(out);REQUIRE(bid==t||(t==NID_id_GostR3410_2001DH&&bid==NID_id_GostR3410_2001),"generated a %s for %s",OBJ_nid2sn(bid),OBJ_nid2sn(t));const EC_GROUP*gr=EC_KEY_get0_group((EC_KEY*)EVP_PKEY_get0(out));REQUIRE(gr&&EC_GROUP_get_curve_name(gr)==cur,"generated on %s, %s was in force",gr?OBJ_nid2sn(EC_GROUP_get_curve_name(gr)):"nothing",OBJ_nid2sn(cur));const Curve&c=*param_by_nid(cur).c;N q(EC_GROUP_get0_order(gr));REQUIRE(q==c.q,"order of another curve");REQUIRE(EC_POINT_cmp(c.g,EC_GROUP_get0_generator(gr),EC_GROUP_get0_generator(c.g),bctx())==0,"another base point");
  if(!pg){const BIGNUM*d=EC_KEY_get0_private_key((EC_KEY*)EVP_PKEY_get0(out));REQUIRE(d&&!BN_is_zero(d)&&BN_cmp(d,c.q)<0,"private key out of range");}
  else REQUIRE(!EC_KEY_get0_private_key((EC_KEY*)EVP_PKEY_get0(out)),"parameter generation made a key");}
 }
 if(ok&&bad)nontrivial();else if(cur&&cur!=NID_id_GostR3410_2001_CryptoPro_A_ParamSet)nontrivial(); }
// ---- key agreement controls
static std::string hexof(Src&s,const Bytes&b){ std::string h=ref::tohex(b);if(s.flip())for(auto&c:h)c=toupper(c);if(s.chance(1,4)){std::string r;for(size_t i=0;i<h.size();i+=2){if(i)r+=':';r+=h.substr(i,2);}return r;}return h; }
SUB("N01",agreement,6000,80000,32){ const Ps&p=any_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);bool old=t==NID_id_GostR3410_2001||t==NID_id_GostR3410_2001DH;N a=gen_scalar(s,c,false),b=gen_scalar(s,c,false);Pt B=mul(c,gen(c),b);PK ka(mk_key(t,p.nid,&a)),pb(mk_key(t,p.nid,nullptr,&B));note("%s %s",OBJ_nid2sn(t),p.sn.c_str());
 PC x(EVP_PKEY_CTX_new(ka,eng()));REQUIRE(EVP_PKEY_derive_init(x)==1&&EVP_PKEY_derive_set_peer(x,pb)==1,"init: %s",errs().c_str());Bytes ukm;int vko=0;bool ok1=false,bad1=false;
 size_t rounds=1+s.chance(1,3);for(size_t g=0;g<rounds;g++){size_t n=1+s.draw(6);
 for(size_t i=0;i<n;i++){int r;switch(s.weighted({4,3,4,2,3,2,1})){
  case 0:{Bytes u=s.bytes(s.flip()?s.pick({8,32}):1+s.draw(32));note("ukmhex=%s",hex(u).c_str());r=EVP_PKEY_CTX_ctrl_str(x,"ukmhex",hexof(s,u).c_str());REQUIRE(r==1,"UKM refused: %s",errs().c_str());ukm=u;ok1=true;break;}
  case 1:{std::string v;switch(s.draw(5)){case 0:v=ref::tohex(s.bytes(33+s.draw(200)));break;case 1:v=ref::tohex(s.bytes(s.draw(31)))+"a";break;case 2:v=ref::tohex(s.bytes(1+s.draw(8)))+s.pick({"gg","0x","--"," 1","\xff\xff"})+ref::tohex(s.bytes(s.draw(8)));break;case 3:v=ref::tohex(s.bytes(32))+":00";break;default:v=std::string(1+s.draw(3)*5,':')+"a";}
   note("ukmhex!%s",v.substr(0,80).c_str());In iv(Bytes(v.c_str(),v.c_str()+v.size()+1));r=EVP_PKEY_CTX_ctrl_str(x,"ukmhex",(char*)iv.p);REQUIRE(r<=0,"UKM \"%s\" accepted",v.c_str());bad1=true;break;}
  case 2:{int v=s.pick({0,256,512});note("vko=%d",v);if(s.flip())r=EVP_PKEY_CTX_ctrl_str(x,"vko",std::to_string(v).c_str());else r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,v==0?0:v==256?NID_id_GostR3411_2012_256:NID_id_GostR3411_2012_512,NULL);REQUIRE(r==1,"vko %d refused: %s",v,errs().c_str());vko=v;ok1=true;break;}
  case 3:{if(s.flip()){const char*v=s.pick({"","257","25","2560","-256","256 ","256x","md_gost12_256","abc","99999999999999999999","512;","0x100"});note("vko!%s",v);r=EVP_PKEY_CTX_ctrl_str(x,"vko",v);REQUIRE(r<=0,"vko \"%s\" accepted",v);}else{int v=s.pick({256,512,-1,NID_id_GostR3411_94,NID_sha256,NID_id_tc26_hmac_gost_3411_2012_256,1});note("vko!#%d",v);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,v,NULL);REQUIRE(r<=0,"vko digest %d accepted",v);}bad1=true;break;}
  case 4:{Bytes u=s.bytes(s.flip()?s.pick({8,32,0}):s.draw(33));In in(u);note("iv=%zu",u.size());r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,u.size(),in.p);REQUIRE(r==1,"UKM of %zu bytes refused: %s",u.size(),errs().c_str());ukm=u;ok1=true;break;}
  case 5:{int l=s.pick({33,64,-1,-32,INT_MAX,INT_MIN,100000});Bytes u(32,7);In in(u);bool nul=s.chance(1,3);if(nul)l=s.pick({8,32,33});note("iv!%d%s",l,nul?" null":"");r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,l,nul?NULL:in.p);REQUIRE(r<=0,"UKM of %d bytes accepted",l);bad1=true;break;}
  default:{if(s.flip()){note("dup");EVP_PKEY_CTX*d=EVP_PKEY_CTX_dup(x);REQUIRE(d,"dup: %s",errs().c_str());EVP_PKEY_CTX_free(x.c);x.c=d;}else{const char*nm=s.pick({"ukm","UKMHEX","vko ","hexkey","size","key",""}),*v=s.pick({"0102030405060708","256","A"});note("%s?",nm);REQUIRE(EVP_PKEY_CTX_ctrl_str(x,nm,v)<=0,"unknown control \"%s\" accepted",nm);REQUIRE(EVP_PKEY_CTX_ctrl_str(x,"paramset","TCZ")<=0,"paramset TCZ");bad1=true;}}}
  ERR_clear_error();}
 bool ok=true;Bytes e;if(ukm.empty())ok=false;else if(vko)e=ec::vko(c,a,B,ukm,vko==256?ref::H_12_256:ref::H_12_512,ok);else if(ukm.size()==8)e=ec::vko(c,a,B,ukm,old?ref::H_94:ref::H_12_256,ok);else if(ukm.size()==32&&!old)e=keg(c,a,B,ukm,c.hl==64,ok);else ok=false;
 label(ok?vko?"vko":ukm.size()==8?"8-byte UKM":"KEG":"refused");size_t ol=0;Bytes got;int r=EVP_PKEY_derive(x,NULL,&ol);if(r==1){REQUIRE(ol<=64,"announced %zu",ol);Buf o(ol);size_t l=ol;r=EVP_PKEY_derive(x,o.p,&l);if(r==1){REQUIRE(l==ol,"announced %zu bytes, derived %zu",ol,l);got.assign(o.p,o.p+l);}}std::string er=errs();
 REQUIRE((r==1)==ok,"vko=%d, UKM of %zu bytes: derivation returned %d (%s), expected %d",vko,ukm.size(),r,er.c_str(),ok);if(ok)REQUIRE(got==e,"vko=%d ukm=%s: derived %s, expected %s",vko,hex(ukm).c_str(),hex(got,64).c_str(),hex(e,64).c_str()); }
 if(ok1&&bad1)nontrivial(); }
SUB("N01",transport_ukm,2500,30000,64){ // the CryptoPro key transport uses exactly the first 8 bytes of the UKM, or refuses it
 const Ps&p=any_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false);PK k(mk_key(t,p.nid,&d));PC x(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_encrypt_init(x)==1,"init");Bytes ukm;size_t n=1+s.draw(3);for(size_t i=0;i<n;i++){Bytes u=s.bytes(s.flip()?8:s.draw(33));if(u.size()>=8)u[0]|=1;In in(u);REQUIRE(EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,u.size(),in.p)==1,"UKM");ukm=u;note("ukm %zu",u.size());}
 nontrivial();Bytes sk=s.bytes(32);In in(sk);Buf o(600);size_t ol=600;int r=EVP_PKEY_encrypt(x,o.p,&ol,in.p,32);std::string er=errs();if(!ukm.empty()&&ukm.size()<8){REQUIRE(r<=0,"UKM of %zu bytes used for key transport",ukm.size());return;}
 REQUIRE(r==1,"key transport failed: %s",er.c_str());if(ukm.size()>=8){Bytes want=ref::der_octet(ref::sub(ukm,0,8)),out(o.p,o.p+ol);REQUIRE(out.size()>10&&ref::sub(out,out.size()-10,10)==want,"the blob does not carry the UKM that was set: %s",hex(out,600).c_str());}
 PC y(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_decrypt_init(y)==1,"init");Buf q(32);size_t ql=32;In bi(Bytes(o.p,o.p+ol));REQUIRE(EVP_PKEY_decrypt(y,q.p,&ql,bi.p,bi.n)==1,"decrypt: %s",errs().c_str());REQUIRE(ql==32&&!memcmp(q.p,sk.data(),32),"another key came out"); }
// ---- engine settings
static const char*CMD[]={"CRYPT_PARAMS","PBE_PARAMS","GOST_PK_FORMAT"},*ENV[]={"CRYPT_PARAMS","GOST_PBE_HMAC","GOST_PK_FORMAT"};
static const struct{int nid;const char*sbox;}SB[]={{NID_id_Gost28147_89_CryptoPro_A_ParamSet,"CryptoPro_A"},{NID_id_Gost28147_89_CryptoPro_B_ParamSet,"CryptoPro_B"},{NID_id_Gost28147_89_CryptoPro_C_ParamSet,"CryptoPro_C"},{NID_id_Gost28147_89_CryptoPro_D_ParamSet,"CryptoPro_D"},{NID_id_tc26_gost_28147_param_Z,"TC26_Z"},{NID_id_Gost28147_89_TestParamSet,"Gost28147_Test"}};
static std::string gen_setting(Src&s,int w){ if(w==0){if(s.chance(2,3)){int nid=SB[s.draw(6)].nid;switch(s.draw(3)){case 0:return OBJ_nid2sn(nid);case 1:return OBJ_nid2ln(nid);default:return dotted(nid);}}return s.pick({"garbage","","1.2.3.4","md_gost94","id-GostR3410-2001-CryptoPro-A-ParamSet","CryptoPro-A","id-GostR3411-94-CryptoProParamSet"});}
 if(w==1)return s.pick({"md_gost12_256","md_gost12_512","md_gost94","md_gost12_256","md_gost94","","sha256","md_gost12_25","md_gost12_2566","MD_GOST94"});return s.pick({"LEGACY_PK_WRAP","LEGACY_PK_WRAP","","raw","LEGACY_PK_WRA","LEGACY_PK_WRAPX","legacy_pk_wrap"}); }
SUB("N01",engine_params,4000,50000,64){ struct Cl{~Cl(){for(auto e:ENV)unsetenv(e);gost_param_free();}}cl;for(auto e:ENV)unsetenv(e);gost_param_free();std::optional<std::string> val[3],env[3];bool refused=false,eff=false;
 auto get=[&](int w){if(!val[w]&&env[w])val[w]=env[w];return val[w];};size_t n=2+s.draw(9);
 for(size_t i=0;i<n;i++)switch(s.weighted({5,1,2,1,2,4,2,2})){
  case 0:{int w=s.draw(3);std::string v=gen_setting(s,w);note("%s=%s",CMD[w],v.c_str());In iv(Bytes(v.c_str(),v.c_str()+v.size()+1));REQUIRE(ENGINE_ctrl_cmd_string(eng(),CMD[w],(char*)iv.p,0)==1,"engine command: %s",errs().c_str());val[w]=env[w]?env[w]:std::optional<std::string>(v);break;}
  case 1:{int w=s.draw(3);note("%s reset",CMD[w]);REQUIRE(ENGINE_ctrl(eng(),ENGINE_CMD_BASE+w,0,NULL,NULL)==1,"reset: %s",errs().c_str());val[w]=env[w];break;}
  case 2:{int w=s.draw(3);std::string v=gen_setting(s,w);note("env %s=%s",ENV[w],v.c_str());setenv(ENV[w],v.c_str(),1);env[w]=v;break;}
  case 3:{int w=s.draw(3);note("env -%s",ENV[w]);unsetenv(ENV[w]);env[w]={};break;}
  case 4:{note("bad command");if(s.flip())REQUIRE(ENGINE_ctrl_cmd_string(eng(),s.pick({"CRYPT_PARAM","","crypt_params","RNG","SO_PATHS"}),"x",0)<=0,"unknown engine command accepted");else REQUIRE(ENGINE_ctrl(eng(),ENGINE_CMD_BASE+s.pick({3,4,100,-1,1000000}),0,(void*)"garbage",NULL)<=0,"engine command out of range accepted");if(s.flip())REQUIRE(ENGINE_ctrl_cmd_string(eng(),CMD[s.draw(3)],NULL,0)<=0,"engine command without a value accepted");ERR_clear_error();refused=true;break;}
  case 5:{Spec p=gen_spec(s,s.pick({G_CFB,G_CBC,G_CNT,G_CNT12}));p.pad=info(p.k).bs==1;std::optional<std::string>v;if(p.k==G_CFB||p.k==G_CBC)v=get(0);bool ok=true;if(v&&!v->empty()){ok=false;int nid=OBJ_txt2nid(v->c_str());for(auto&b:SB)if(b.nid==nid){ok=true;p.sbox=ref::sbox_by_name(b.sbox);eff=true;}}note("%s",info(p.k).name);Ctx c;
    if(!ok){refused=true;label("unusable CRYPT_PARAMS");REQUIRE(EVP_CipherInit_ex(c,cipher(info(p.k).nid),eng(),p.key.data(),p.iv.data(),1)<=0,"%s started with CRYPT_PARAMS=%s",info(p.k).name,v->c_str());ERR_clear_error();break;}
    init(c,p);Model m(p);step(c,m,s.bytes(info(p.k).bs==1?s.draw(60):8*s.draw(6)),false,0,"setting");ERR_clear_error();break;}
  case 6:{int k=s.pick({G_CFB,G_CNT,G_CNT12,G_CBC});auto cr=val[0]?val[0]:env[0];if(cr&&!cr->empty()&&(k==G_CFB||k==G_CBC))k=G_CNT;if(k==G_CFB||k==G_CBC)get(0);Spec p=gen_spec(s,k);Ctx c;init(c,p);auto v=get(1);int want=NID_id_tc26_hmac_gost_3411_2012_512;if(v){if(*v=="md_gost12_256")want=NID_id_tc26_hmac_gost_3411_2012_256;else if(*v=="md_gost94")want=NID_id_HMACGostR3411_94;}if(want!=NID_id_tc26_hmac_gost_3411_2012_512)eff=true;int got=-1;note("prf");REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,&got)==1,"PRF query: %s",errs().c_str());REQUIRE(got==want,"PRF %s with PBE_PARAMS=%s, expected %s",OBJ_nid2sn(got),v?v->c_str():"(none)",OBJ_nid2sn(want));REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,NULL)<=0,"PRF query without a place");ERR_clear_error();break;}
  default:{const Ps&p=any_ps(s);int t=gen_type(s,p);N d=gen_scalar(s,*p.c,false);if(s.flip())d=N(1+s.draw(100));PK k(mk_key(t,p.nid,&d));auto v=get(2);bool wrap=v&&*v=="LEGACY_PK_WRAP";if(wrap)eff=true;note("encode");PKCS8_PRIV_KEY_INFO*i8=EVP_PKEY2PKCS8(k);REQUIRE(i8,"encode: %s",errs().c_str());const uint8_t*pk;int pl;PKCS8_pkey_get0(NULL,&pk,&pl,NULL,i8);Bytes got(pk,pk+pl),want=tole(d,p.c->hl);PKCS8_PRIV_KEY_INFO_free(i8);if(wrap)want=ref::der_octet(want);REQUIRE(got==want,"private key %s with GOST_PK_FORMAT=%s, expected %s",hex(got,80).c_str(),v?v->c_str():"(none)",hex(want,80).c_str());}}
 if(eff||refused)nontrivial(); }
// ---- cipher controls
SUB("N01",cipher_controls,16000,200000,128){ Spec p=gen_spec(s);bool g=g89(p.k);p.enc=s.flip();Ctx c;init(c,p);Model m(p);note("%s %s",info(p.k).name,p.enc?"enc":"dec");label(info(p.k).name);size_t n=2+s.draw(8);bool bad=false;
 for(size_t i=0;i<n;i++){int r=0;bool must_refuse=true;switch(s.weighted({5,2,3,3,2,3,2,1})){
  case 0:{Bytes d=s.bytes(gen_len(s,p.k)%400);note("upd %zu",d.size());step(c,m,d,s.chance(1,4),0,"ctrl");continue;}
  case 1:{bool f=s.chance(1,3);Buf k(32);Bytes w=s.rnd(32);bool fl=EVP_CIPHER_flags(EVP_CIPHER_CTX_get0_cipher(c))&EVP_CIPH_RAND_KEY;if(f)rand_fail(0);else rand_script(w);note("rand key%s",f?" (source fails)":"");r=fl?EVP_CIPHER_CTX_rand_key(c,k.p):EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_RAND_KEY,0,k.p);rand_fail(-1);std::string er=errs();if(f){REQUIRE(r<=0,"random key without a random source");bad=true;}else{REQUIRE(r==1,"random key: %s",er.c_str());REQUIRE(!memcmp(k.p,w.data(),32),"key is not the output of the random source");}rand_script({});continue;}
  case 2:{bool nul=s.chance(1,4);std::string v=s.pick({"garbage","","1.2.3","id-GostR3411-94-CryptoProParamSet","id-GostR3410-2001-CryptoPro-A-ParamSet","AES-128-CBC","CryptoPro_A"});bool empty=m.in.empty();if(!nul&&g&&s.chance(1,2)){int j=s.draw(6);v=OBJ_nid2sn(SB[j].nid);if(empty){must_refuse=false;m.sp.sbox=p.sbox=ref::sbox_by_name(SB[j].sbox);}else if(m.in.size()>=1016||p.k==G_CBC)continue;}else if(!g&&!nul&&s.flip())v="id-tc26-gost-28147-param-Z";note("sbox %s",nul?"null":v.c_str());In iv(Bytes(v.c_str(),v.c_str()+v.size()+1));r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_SET_SBOX,0,nul?NULL:iv.p);break;}
  case 3:{int a;bool empty=m.in.empty();if(g){a=s.draw(2);if(p.k==G_CBC)continue;if(empty){must_refuse=false;m.sp.mesh=p.mesh=a;}else if(m.in.size()>=1016)continue;}
    else if(acpkm(p.k)){int b=real_bs(p.k);if(s.flip()&&empty){a=b*(1+s.draw(20));must_refuse=false;m.sp.section=a;}else a=s.pick({-1,1,b-1,b+1,-b,INT_MAX,INT_MIN+1,7});}
    else if(p.k==M_CTR||p.k==M_CBC||p.k==M_ECB)a=s.pick({-8,-1,1,7,9,INT_MAX,15});else a=s.pick({0,16,1024,4096,-16,1});
    note("mesh %d",a);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,a,NULL);break;}
  case 4:{int nid=-7;note("prf");r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PBE_PRF_NID,0,&nid);if(g){must_refuse=false;REQUIRE(nid==NID_id_tc26_hmac_gost_3411_2012_512,"PRF %d",nid);}break;}
  case 5:{Bytes seq=s.bytes(8);In in(seq);bool ctr=p.k==M_CTR||p.k==Z_CTR||acpkm(p.k);int a=ctr?s.pick({2,-1,100,INT_MAX,INT_MIN}):s.pick({0,1,2});note("tlstree %d",a);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_TLSTREE,a,in.p);break;}
  case 6:{int t=s.pick({EVP_CTRL_AEAD_SET_TAG,EVP_CTRL_AEAD_GET_TAG,EVP_CTRL_AEAD_SET_IVLEN,EVP_CTRL_AEAD_TLS1_AAD,EVP_CTRL_AEAD_SET_MAC_KEY,EVP_CTRL_GCM_IV_GEN,EVP_CTRL_SET_RC2_KEY_BITS,EVP_CTRL_TLS1_1_MULTIBLOCK_ENCRYPT,0x7fff,0x100,-5,EVP_CTRL_SET_PIPELINE_OUTPUT_BUFS,EVP_CTRL_PROCESS_UNPROTECTED});Buf b(64);note("ctrl %d",t);r=EVP_CIPHER_CTX_ctrl(c,t,s.pick({0,8,16,-1,4}),b.p);break;}
  default:{int l=s.pick({0,1,16,31,33,64,-32});note("key length %d",l);r=EVP_CIPHER_CTX_set_key_length(c,l);}}
  std::string er=errs();if(must_refuse){bad=true;REQUIRE(r<=0,"%s accepted the control after %zu bytes",info(p.k).name,m.in.size());}else REQUIRE(r==1,"%s refused the control after %zu bytes: %s",info(p.k).name,m.in.size(),er.c_str());}
 if(bad)nontrivial();Bytes d=s.bytes(1+s.draw(50));step(c,m,d,false,0,"after");finish(c,m,"after"); }
SUB("N01",sign_md,3000,40000,64){ // the digest of a signing context: the one of the key type, or refused
 const Ps&p=any_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false);PK k(mk_key(t,p.nid,&d));int right=t==NID_id_GostR3410_2012_512?NID_id_GostR3411_2012_512:t==NID_id_GostR3410_2012_256?NID_id_GostR3411_2012_256:NID_id_GostR3411_94;PC x(EVP_PKEY_CTX_new(k,eng()));bool sg=s.flip();REQUIRE((sg?EVP_PKEY_sign_init(x):EVP_PKEY_verify_init(x))==1,"init");bool set=false,bad=false;note("%s %s",OBJ_nid2sn(t),sg?"sign":"verify");label(OBJ_nid2sn(t));
 size_t n=1+s.draw(5);for(size_t i=0;i<n;i++){int m=s.pick({NID_id_GostR3411_94,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512,NID_sha256,NID_sha512,NID_id_Gost28147_89_MAC,NID_magma_mac});const EVP_MD*md=m==NID_sha256?EVP_sha256():m==NID_sha512?EVP_sha512():digest(m);int r=EVP_PKEY_CTX_set_signature_md(x,md);ERR_clear_error();note("%s",OBJ_nid2sn(m));REQUIRE((r==1)==(m==right),"digest %s %s for %s",OBJ_nid2sn(m),r==1?"accepted":"refused",OBJ_nid2sn(t));if(r==1)set=true;else bad=true;
  const EVP_MD*g=NULL;r=EVP_PKEY_CTX_get_signature_md(x,&g);REQUIRE(r==1,"digest not reported: %s",errs().c_str());REQUIRE(set?g&&EVP_MD_type(g)==right:!g,"digest reported: %s",g?EVP_MD_name(g):"none");
  if(s.chance(1,3)){EVP_PKEY_CTX*y=EVP_PKEY_CTX_dup(x);REQUIRE(y,"dup: %s",errs().c_str());r=EVP_PKEY_CTX_get_signature_md(y,&g);REQUIRE(r==1&&(set?g&&EVP_MD_type(g)==right:!g),"digest reported by a duplicate: %s",g?EVP_MD_name(g):"none");EVP_PKEY_CTX_free(y);}}
 int dn=-1;REQUIRE(EVP_PKEY_get_default_digest_nid(k,&dn)==2&&dn==right,"the digest is %s, or not mandatory",OBJ_nid2sn(dn));if(bad)nontrivial(); }
// ---- MAC controls
struct MacK{int nid;const char*n;size_t max,def;int ps;};
static const MacK&mac_kind(Src&s){static const MacK T[]={{NID_id_Gost28147_89_MAC,"gost-mac",8,4,0},{NID_gost_mac_12,"gost-mac-12",8,4,4},{NID_magma_mac,"magma-mac",8,8,-1},{NID_grasshopper_mac,"kuznyechik-mac",16,16,-1},{NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac,"kuznyechik-ctr-acpkm-omac",16,16,-1}};return T[s.draw(5)];}
static Bytes mac_ref(const MacK&k,const Bytes&key,int ps,const Bytes&m){ if(k.ps>=0)return ref::gost89_mac(ref::sbox_by_name(SB[ps].sbox),true,key.data(),NULL,m,8);if(k.nid==NID_magma_mac||k.nid==NID_grasshopper_mac){auto c=ref::make_bc(k.nid==NID_grasshopper_mac);c->key(key.data());return ref::omac(*c,m);}return ref::omac_acpkm(key.data(),4096,4096,m);}
static std::string bad_size(Src&s,size_t max){return s.pick<std::string>({"0","-1","",std::to_string(max+1),"17","99","4x","x"," ","4 ","4.0","0x4","4294967300","18446744073709551620","-4294967292","2147483648"});}
SUB("N01",mac_controls,9000,120000,128){ const MacK&k=mac_kind(s);bool imit=k.ps>=0;note("%s",k.n);label(k.n);PC x(EVP_PKEY_CTX_new_id(k.nid,eng()));REQUIRE(x.c&&EVP_PKEY_keygen_init(x)==1,"init: %s",errs().c_str());Bytes key;size_t size=k.def;int ps=k.ps;bool ok=false,bad=false;size_t n=1+s.draw(8);
 for(size_t i=0;i<n;i++){int r;switch(s.weighted({4,3,3,3,2,2,1})){
  case 0:{Bytes b=s.bytes(32);switch(s.draw(3)){case 0:{In in(b);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,32,in.p);note("key");break;}case 1:{for(auto&c:b)if(!c)c=1;std::string v(b.begin(),b.end());note("key string");r=EVP_PKEY_CTX_ctrl_str(x,"key",v.c_str());break;}default:{std::string h=hexof(s,b);note("hexkey %s",h.c_str());r=EVP_PKEY_CTX_ctrl_str(x,"hexkey",h.c_str());}}REQUIRE(r==1,"key refused: %s",errs().c_str());key=b;ok=true;break;}
  case 1:{Bytes b=s.bytes(64);for(auto&c:b)if(!c)c=1;size_t l=s.pick({0,1,16,31,33,64});switch(s.draw(3)){case 0:{int m=s.pick({0,31,33,-1,64,INT_MAX});In in(b);note("key!%d",m);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,m,in.p);break;}case 1:{Bytes v=ref::sub(b,0,l);v.push_back(0);In in(v);note("key!string %zu",l);r=EVP_PKEY_CTX_ctrl_str(x,"key",(char*)in.p);break;}
    default:{std::string h=ref::tohex(ref::sub(b,0,32));switch(s.draw(4)){case 0:h=ref::tohex(ref::sub(b,0,l));break;case 1:h.pop_back();break;case 2:h[s.draw(64)]=s.pick({'g','-',' ','/','`','@','G','\x80'});break;default:h+="0";}note("hexkey!%s",h.c_str());In in(Bytes(h.c_str(),h.c_str()+h.size()+1));r=EVP_PKEY_CTX_ctrl_str(x,"hexkey",(char*)in.p);}}REQUIRE(r<=0,"invalid key accepted");bad=true;break;}
  case 2:{size_t v=1+s.draw(k.max);note("size=%zu",v);r=s.flip()?EVP_PKEY_CTX_ctrl_str(x,"size",std::to_string(v).c_str()):EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_MAC_LEN,v,NULL);REQUIRE(r==1,"size %zu refused: %s",v,errs().c_str());size=v;ok=true;break;}
  case 3:{if(s.flip()){std::string v=bad_size(s,k.max);note("size!%s",v.c_str());r=EVP_PKEY_CTX_ctrl_str(x,"size",v.c_str());}else{int v=s.pick({0,-1,(int)k.max+1,17,INT_MAX,INT_MIN,256,264});note("size!%d",v);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_MAC_LEN,v,NULL);}REQUIRE(r<=0,"invalid MAC size accepted");bad=true;break;}
  case 4:{if(!imit){const char*v=s.pick({"id-tc26-gost-28147-param-Z","A",""});note("paramset?%s",v);REQUIRE(EVP_PKEY_CTX_ctrl_str(x,"paramset",v)<=0,"%s accepted a parameter set",k.n);bad=true;break;}int j=s.draw(6);std::string v;switch(s.draw(3)){case 0:v=OBJ_nid2sn(SB[j].nid);break;case 1:v=OBJ_nid2ln(SB[j].nid);break;default:v=dotted(SB[j].nid);}note("paramset=%s",v.c_str());r=EVP_PKEY_CTX_ctrl_str(x,"paramset",v.c_str());REQUIRE(r==1,"parameter set %s refused: %s",v.c_str(),errs().c_str());ps=j;ok=true;break;}
  case 5:{if(!imit)break;const char*v=s.pick({"","A","garbage","1.2.3","1.2.643.2.2.31.9","id-GostR3410-2001-CryptoPro-A-ParamSet","id-GostR3411-94-CryptoProParamSet","id-Gost28147-89-CryptoPro-KeyMeshing"});note("paramset!%s",v);REQUIRE(EVP_PKEY_CTX_ctrl_str(x,"paramset",v)<=0,"parameter set \"%s\" accepted",v);bad=true;break;}
  default:{const char*nm=s.pick({"","Key","hexKey","sizes","ukmhex","vko","iv"});note("%s?",nm);REQUIRE(EVP_PKEY_CTX_ctrl_str(x,nm,"1")<=0,"unknown control \"%s\" accepted",nm);bad=true;}}
  ERR_clear_error();}
 EVP_PKEY*o=NULL;int r=EVP_PKEY_keygen(x,&o);std::string er=errs();PK mk(o);if(key.empty()){REQUIRE(r<=0&&!o,"a MAC key was made of no key");if(bad)nontrivial();return;}REQUIRE(r==1,"keygen: %s",er.c_str());
 EVP_MD_CTX*c=EVP_MD_CTX_new();struct F{EVP_MD_CTX*c;~F(){EVP_MD_CTX_free(c);}}f{c};EVP_PKEY_CTX*sc=NULL;REQUIRE(EVP_DigestSignInit(c,&sc,digest(k.nid),eng(),o)==1,"sign init: %s",errs().c_str());
 {const EVP_MD*gm=NULL;REQUIRE(EVP_PKEY_CTX_get_signature_md(sc,&gm)==1&&gm&&EVP_MD_type(gm)==k.nid,"the digest in use is not reported");unsigned kl=0;REQUIRE(EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_ALG_CTRL+3,0,&kl)==1&&kl==32,"MAC key length %u",kl);}
 size_t m=s.draw(3);for(size_t i=0;i<m;i++){ // the signing context takes sizes too
  if(s.flip()){size_t v=1+s.draw(k.max);note("then size=%zu",v);REQUIRE((s.flip()?EVP_PKEY_CTX_ctrl(sc,-1,-1,EVP_PKEY_CTRL_MAC_LEN,v,NULL):EVP_PKEY_CTX_ctrl_str(sc,"size",std::to_string(v).c_str()))==1,"size %zu refused: %s",v,errs().c_str());size=v;}
  else{int v=s.pick({0,-1,(int)k.max+1,64});note("then size!%d",v);REQUIRE(EVP_PKEY_CTX_ctrl(sc,-1,-1,EVP_PKEY_CTRL_MAC_LEN,v,NULL)<=0,"MAC size %d accepted",v);bad=true;}ERR_clear_error();}
 Bytes d=s.bytes(s.draw(60));if(d.size())REQUIRE(EVP_DigestSignUpdate(c,d.data(),d.size())==1,"update");size_t q=0;REQUIRE(EVP_DigestSignFinal(c,NULL,&q)==1&&q==size,"announced %zu bytes, %zu are set",q,size);Buf b(size);q=size;REQUIRE(EVP_DigestSignFinal(c,b.p,&q)==1&&q==size,"MAC of %zu bytes: %s",q,errs().c_str());Bytes e=ref::sub(mac_ref(k,key,ps<0?0:ps,d),0,size),g(b.p,b.p+q);REQUIRE(g==e,"MAC %s, expected %s",hex(g).c_str(),hex(e).c_str());if(ok&&bad)nontrivial(); }
SUB("N01",mac_digest,3000,40000,128){ // a MAC key used with another MAC's digest: refused, or exactly the announced number of octets of that MAC
 const MacK&k=mac_kind(s),&g=mac_kind(s);Bytes key=s.bytes(32);EVP_PKEY_CTX*kc=EVP_PKEY_CTX_new_id(k.nid,eng());PC kx(kc);REQUIRE(EVP_PKEY_keygen_init(kx)==1&&EVP_PKEY_CTX_ctrl(kx,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,32,key.data())==1,"key: %s",errs().c_str());size_t size=k.def;if(s.flip()){size=1+s.draw(k.max);REQUIRE(EVP_PKEY_CTX_ctrl(kx,-1,-1,EVP_PKEY_CTRL_MAC_LEN,size,NULL)==1,"size");}EVP_PKEY*o=NULL;REQUIRE(EVP_PKEY_keygen(kx,&o)==1,"keygen");PK mk(o);note("%s key of size %zu, %s digest",k.n,size,g.n);if(k.nid!=g.nid)nontrivial();
 EVP_MD_CTX*c=EVP_MD_CTX_new();struct F{EVP_MD_CTX*c;~F(){EVP_MD_CTX_free(c);}}f{c};Bytes d=s.bytes(s.draw(60));int r=EVP_DigestSignInit(c,NULL,digest(g.nid),eng(),o);if(r==1&&d.size())r=EVP_DigestSignUpdate(c,d.data(),d.size());size_t q=0;Buf b(16);if(r==1){r=EVP_DigestSignFinal(c,NULL,&q);if(r==1){REQUIRE(q==size,"announced %zu bytes",q);q=16;r=EVP_DigestSignFinal(c,b.p,&q);}}
 std::string er=errs();label(r==1?"computed":"refused");if(r!=1){REQUIRE(k.nid!=g.nid,"refused: %s",er.c_str());return;}
 REQUIRE(q==size&&q<=g.max,"%zu bytes of a MAC that has %zu",q,g.max);Bytes e=ref::sub(mac_ref(g,key,g.ps<0?0:g.ps,d),0,size),h(b.p,b.p+q);REQUIRE(h==e,"MAC %s, expected %s",hex(h).c_str(),hex(e).c_str()); }
// ---- MGM controls
SUB("N01",mgm_controls,6000,80000,128){ bool z=s.flip();size_t bs=z?16:8;Bytes key=s.bytes(32),nonce=s.bytes(bs),aad=s.bytes(s.draw(40)),pt=s.bytes(1+s.draw(60));nonce[0]&=0x7f;auto bc=ref::make_bc(z);bc->key(key.data());auto e=ref::mgm(*bc,nonce,aad,pt,true);bool enc=s.flip();const EVP_CIPHER*ci=cipher(nid_of(z?"kuznyechik-mgm":"magma-mgm"));Ctx c;bool bad=false,tag_set=false,tag_ok=false;note("%s %s",z?"kuznyechik":"magma",enc?"enc":"dec");label(z?"kuznyechik-mgm":"magma-mgm");
 int stage=0;auto ctl=[&]{ size_t n=s.draw(3);for(size_t i=0;i<n;i++){int r;switch(s.draw(7)){
  case 0:{int l=s.pick({0,-1,(int)bs-1,(int)bs+1,4,12,24-(int)bs,64,1000});note("ivlen!%d",l);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_IVLEN,l,NULL);REQUIRE(r<=0,"nonce length %d accepted",l);bad=true;break;}
  case 1:note("ivlen");REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_IVLEN,bs,NULL)==1,"nonce length refused");break;
  case 2:{int l=s.pick({0,-1,(int)bs-1,(int)bs+1,4,24-(int)bs,64});Buf b(64);note("settag!%d",l);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,l,b.p);REQUIRE(r<=0,"tag of %d bytes accepted",l);bad=true;break;}
  case 3:{if(stage>2)break;Bytes t=e.tag;bool good=s.chance(2,3);if(!good)t[s.draw(bs)]^=1<<s.draw(8);In in(t);note("settag %d",good);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,bs,in.p);if(enc){REQUIRE(r<=0,"tag set while encrypting");bad=true;}else{REQUIRE(r==1,"tag refused: %s",errs().c_str());tag_set=true;tag_ok=good;}break;}
  case 4:{Buf b(64);int l=s.pick({0,-1,(int)bs+1,64,(int)bs,1});if(enc&&stage==3&&l>0&&l<=(int)bs)break;note("gettag!%d",l);r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,l,b.p);REQUIRE(r<=0,"a tag of %d bytes was delivered",l);bad=true;break;}
  case 5:{int t=s.pick({EVP_CTRL_SET_SBOX,EVP_CTRL_KEY_MESH,EVP_CTRL_TLSTREE,EVP_CTRL_PBE_PRF_NID,EVP_CTRL_PROCESS_UNPROTECTED,EVP_CTRL_AEAD_TLS1_AAD,EVP_CTRL_AEAD_SET_IV_FIXED,0x7ffe,0x100});Buf b(64);memset(b.p,0,64);note("ctrl!%d",t);REQUIRE(EVP_CIPHER_CTX_ctrl(c,t,s.pick({0,1,8,16}),b.p)<=0,"control %d accepted",t);bad=true;break;}
  default:{int l=s.pick({0,16,31,33});note("keylen!%d",l);REQUIRE(EVP_CIPHER_CTX_set_key_length(c,l)<=0,"key length %d accepted",l);bad=true;int gl=-1;REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_GET_IVLEN,0,&gl)==1&&gl==(int)bs,"nonce length %d",gl);REQUIRE(EVP_CIPHER_CTX_get_iv_length(c)==(int)bs,"nonce length %d",EVP_CIPHER_CTX_get_iv_length(c));}}
  ERR_clear_error();}};
 REQUIRE(EVP_CipherInit_ex(c,ci,eng(),NULL,NULL,enc)==1,"init");ctl();REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,key.data(),nonce.data(),enc)==1,"key: %s",errs().c_str());stage=1;ctl();
 int l;Bytes in=enc?pt:e.ct;auto feed=[&](const Bytes&d,Bytes*out){size_t o=0;for(size_t x:s.split(d.size(),{bs})){In i(ref::sub(d,o,x));Buf b(x);REQUIRE(EVP_CipherUpdate(c,out?b.p:NULL,&l,i.p,x)==1&&(size_t)l==x,"update: %s",errs().c_str());if(out)out->insert(out->end(),b.p,b.p+x);o+=x;if(s.chance(1,3)){ctl();}}};
 Bytes out;if(aad.size())feed(aad,NULL);stage=2;ctl();feed(in,&out);REQUIRE(out==(enc?e.ct:pt),"text %s, expected %s",hex(out).c_str(),hex(enc?e.ct:pt).c_str());
 if(!enc&&!tag_set&&s.chance(3,4)){In t(e.tag);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,bs,t.p)==1,"tag: %s",errs().c_str());tag_set=tag_ok=true;}
 Buf fb(16);int r=EVP_CipherFinal_ex(c,fb.p,&l);ERR_clear_error();stage=3;if(enc){REQUIRE(r==1,"final");ctl();size_t n=1+s.draw(bs);Buf t(n);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,n,t.p)==1,"no tag: %s",errs().c_str());REQUIRE(Bytes(t.p,t.p+n)==ref::sub(e.tag,0,n),"tag %s, expected %s",hex(t.p,n).c_str(),hex(e.tag).c_str());}
 else REQUIRE((r==1)==(tag_set&&tag_ok),"decryption %s (tag %s)",r==1?"accepted":"refused",!tag_set?"not set":tag_ok?"right":"wrong");if(bad)nontrivial(); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
