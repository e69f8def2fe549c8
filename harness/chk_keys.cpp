// S01 key encodings, S02 hostile key encodings
#include "kx.h"
#include <openssl/x509.h>
#include <openssl/pem.h>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace ec;
static pbt::Rule r1("S01","key type, parameter set and key drawn (incl. short values and coordinates with leading zero bytes), encoded by the reference in every accepted format and by the engine in every output format; every case non-trivial");
static pbt::Rule r2("S02","valid encodings with fields of wrong length, type, sign, curve or presence, byte-level edits, arbitrary bytes; non-trivial: differs from a valid encoding by a few edits");
static pbt::Assume a1("S01","INTEGER-format keys whose DER encoding happens to be exactly as long as a raw key (value of key length - 2 bytes) are ambiguous in the format and left out");
static const Ps&gen_ps(Src&s){return params()[s.draw(params().size())];}
static Bytes p8(int type,const Ps&p,const Bytes&key,const Bytes&alg=Bytes()){return der_seq({der_int(Bytes(1,0)),alg.empty()?kx::algid(type,p):alg,der_octet(key)});}
static Bytes rev(Bytes b){std::reverse(b.begin(),b.end());return b;}
struct P8{PKCS8_PRIV_KEY_INFO*p;P8(PKCS8_PRIV_KEY_INFO*p):p(p){}~P8(){PKCS8_PRIV_KEY_INFO_free(p);}P8(const P8&)=delete;};
static EVP_PKEY*read_p8(const Bytes&b){In in(b);const uint8_t*q=in.p;P8 i(d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.n));if(!i.p)return nullptr;return EVP_PKCS82PKEY(i.p);}
static Bytes write_p8(EVP_PKEY*k,bool&ok){P8 i(EVP_PKEY2PKCS8(k));ok=i.p!=nullptr;if(!ok)return{};uint8_t*o=nullptr;int n=i2d_PKCS8_PRIV_KEY_INFO(i.p,&o);ok=n>0;Bytes r(o,o+(n>0?n:0));OPENSSL_free(o);return r;}
static EVP_PKEY*read_pub(const Bytes&b){In in(b);const uint8_t*q=in.p;return d2i_PUBKEY(NULL,&q,in.n);}
static Bytes write_pub(EVP_PKEY*k,bool&ok){uint8_t*o=nullptr;int n=i2d_PUBKEY(k,&o);ok=n>0;Bytes r(o,o+(n>0?n:0));OPENSSL_free(o);return r;}
static void format(const char*f){REQUIRE(ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT",f,0)==1,"GOST_PK_FORMAT refused");}
struct Fmt{bool wrap;Fmt(bool w):wrap(w){format(w?"LEGACY_PK_WRAP":"RAW");}~Fmt(){if(wrap)format("RAW");}};
static void same(EVP_PKEY*k,int type,const Ps&p,const N*d,const Pt&Q,const char*what){ REQUIRE(k!=nullptr,"%s not decoded: %s",what,errs().c_str());REQUIRE(EVP_PKEY_id(k)==type,"%s: type %s",what,OBJ_nid2sn(EVP_PKEY_id(k)));const EC_KEY*e=(const EC_KEY*)EVP_PKEY_get0(k);REQUIRE(e&&EC_KEY_get0_group(e),"%s: no group",what);
 REQUIRE(EC_GROUP_get_curve_name(EC_KEY_get0_group(e))==p.nid,"%s: parameter set %s",what,OBJ_nid2sn(EC_GROUP_get_curve_name(EC_KEY_get0_group(e))));const EC_POINT*q=EC_KEY_get0_public_key(e);REQUIRE(q,"%s: no public key",what);Pt R=from(EC_KEY_get0_group(e),q);REQUIRE(R==Q,"%s: public key %s, expected %s",what,R.str().c_str(),Q.str().c_str());
 const BIGNUM*x=EC_KEY_get0_private_key(e);REQUIRE((x!=nullptr)==(d!=nullptr),"%s: private part %s",what,x?"present":"missing");if(d)REQUIRE(N(x)==*d,"%s: private key %s, expected %s",what,N(x).str().c_str(),d->str().c_str());REQUIRE(EVP_PKEY_bits(k)==(int)p.c->hl*8,"%s: %d bits",what,EVP_PKEY_bits(k));REQUIRE(EVP_PKEY_size(k)==(int)p.c->hl*2,"%s: signature size %d",what,EVP_PKEY_size(k));REQUIRE(EVP_PKEY_security_bits(k)>=(int)p.c->hl*4,"%s: %d bits of security",what,EVP_PKEY_security_bits(k)); }
static std::string text(EVP_PKEY*k,int what,int ind){BIO*b=BIO_new(BIO_s_mem());int r=what==0?EVP_PKEY_print_private(b,k,ind,NULL):what==1?EVP_PKEY_print_public(b,k,ind,NULL):EVP_PKEY_print_params(b,k,ind,NULL);char*p;long n=BIO_get_mem_data(b,&p);std::string t=r>0?std::string(p,n):std::string("<none>");BIO_free(b);return t;}
static bool shows(const std::string&t,const char*name,const N&v){size_t i=t.find(name);if(i==std::string::npos)return false;i+=strlen(name);size_t j=t.find('\n',i);BIGNUM*b=nullptr;std::string h=t.substr(i,j-i);bool ok=!h.empty()&&h.find_first_not_of("0123456789ABCDEFabcdef")==std::string::npos&&BN_hex2bn(&b,h.c_str())>0&&BN_cmp(b,v)==0;BN_free(b);return ok;}
static void lab(int t,const Ps&p){label(OBJ_nid2sn(t));label(p.sn);}
SUB("S01",priv,9000,120000,32){ const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false);if(s.chance(1,4)){d=le(s.rnd(1+s.draw(c.hl)));d=mod(d,c.q);if(d.zero())d=N(7);}Pt Q=mul(c,gen(c),d);nontrivial();lab(t,p);
 Bytes raw=tole(d,c.hl),k;int f=s.draw(5);size_t nm=s.pick({0,1,2,3,7});auto masked=[&]{N v=d;Bytes ms;for(size_t i=0;i<nm;i++){N m=gen_scalar(s,c,false);v=mulmod(v,inv(m,c.q),c.q);ms=cat(ms,tole(m,c.hl));}return cat(tole(v,c.hl),ms);};
 static const char*FN[]={"raw","octet string","integer","masked","masked sequence"};
 switch(f){case 0:k=raw;break;case 1:k=der_octet(raw);break;case 2:{N x=d;Bytes b=tobe(x,std::max<size_t>(1,BN_num_bytes(x)));k=der_int(b);if(k.size()%c.hl==0){k=der_octet(raw);f=1;}break;}case 3:k=masked();break;default:k=der_seq({der_octet(masked()),der_octet(s.flip()?kx::point_le(c,Q):Bytes(2*c.hl,0))});}
 Bytes alg=kx::algid(t,p);if(s.chance(1,4))alg=der_seq({kx::oid(t),der_seq({kx::oid(p.nid)})});else if(s.chance(1,4))alg=der_seq({kx::oid(t),der_seq({kx::oid(p.nid),kx::oid(c.hl==64?NID_id_GostR3411_2012_512:s.flip()?NID_id_GostR3411_2012_256:NID_id_GostR3411_94_CryptoProParamSet)})});
 note("%s %s %s masks=%zu d=%s",OBJ_nid2sn(t),p.sn.c_str(),FN[f],nm,d.str().c_str());label(FN[f]);
 PK a(read_p8(p8(t,p,k,alg)));same(a,t,p,&d,Q,FN[f]);
 bool w=s.flip(),ok;{Fmt fm(w);Bytes e=write_p8(a,ok);REQUIRE(ok,"private key not encoded: %s",errs().c_str());Bytes x=p8(t,p,w?der_octet(raw):raw);REQUIRE(e==x,"private key encoding %s, expected %s",hex(e,400).c_str(),hex(x,400).c_str());PK b(read_p8(e));same(b,t,p,&d,Q,"re-read key");REQUIRE(EVP_PKEY_eq(a,b)==1,"re-read key compares unequal");}
 Bytes e=write_pub(a,ok),x=kx::spki(t,p,Q);REQUIRE(ok&&e==x,"public key encoding %s, expected %s",hex(e,400).c_str(),hex(x,400).c_str());
 if(s.chance(1,3)){std::string tx=text(a,0,s.draw(5));REQUIRE(shows(tx,"Private key: ",d)&&shows(tx,"X:",Q.x)&&shows(tx,"Y:",Q.y)&&tx.find(std::string("Parameter set: ")+OBJ_nid2ln(p.nid)+"\n")!=std::string::npos,"printed key: %s",tx.c_str());}
 if(s.chance(1,6)){ // the PEM forms, plain and with a password
  BIO*m=BIO_new(BIO_s_mem());struct F{BIO*m;~F(){BIO_free(m);}}fm{m};bool enc=s.flip();char pw[]="secret";REQUIRE(PEM_write_bio_PKCS8PrivateKey(m,a,enc?EVP_aes_256_cbc():NULL,enc?pw:NULL,enc?6:0,NULL,NULL)==1,"PEM write: %s",errs().c_str());PK b(PEM_read_bio_PrivateKey(m,NULL,NULL,enc?pw:NULL));same(b,t,p,&d,Q,"PEM key");label(enc?"encrypted PEM":"PEM");} }
SUB("S01",pub,6000,80000,32){ const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);std::string how;Pt Q=gen_point(s,c,how);if(Q.inf)Q=gen(c);nontrivial();lab(t,p);label(how);note("%s %s %s %s",OBJ_nid2sn(t),p.sn.c_str(),how.c_str(),Q.str().c_str());
 Bytes x=kx::spki(t,p,Q);PK a(mk_key(t,p.nid,nullptr,&Q));bool ok;Bytes e=write_pub(a,ok);REQUIRE(ok&&e==x,"public key encoding %s, expected %s",hex(e,400).c_str(),hex(x,400).c_str());
 Bytes in=x;if(s.chance(1,4))in=kx::spki_raw(der_seq({kx::oid(t),der_seq({kx::oid(p.nid)})}),kx::point_le(c,Q));else if(s.chance(1,5))in=kx::spki_raw(der_seq({kx::oid(t),der_seq({kx::oid(p.nid),kx::oid(NID_id_GostR3411_94_CryptoProParamSet),kx::oid(NID_id_Gost28147_89_CryptoPro_A_ParamSet)})}),kx::point_le(c,Q));
 PK b(read_pub(in));same(b,t,p,nullptr,Q,"public key");REQUIRE(EVP_PKEY_eq(a,b)==1,"decoded key compares unequal");
 std::string tx=text(b,1,0);REQUIRE(shows(tx,"X:",Q.x)&&shows(tx,"Y:",Q.y),"printed key: %s",tx.c_str());
 if(s.flip()){Pt R=s.flip()?neg(c,Q):mul(c,Q,N(2));if(!R.inf&&!(R==Q)){PK d(mk_key(t,p.nid,nullptr,&R));REQUIRE(EVP_PKEY_eq(a,d)!=1,"different public keys compare equal");}} 
 if(s.flip()){const Ps&p2=gen_ps(s);if(p2.nid!=p.nid&&p2.c->hl==c.hl){Pt R=gen(*p2.c);PK d(mk_key(t,p2.nid,nullptr,&R));REQUIRE(EVP_PKEY_parameters_eq(a,d)!=1,"different parameter sets compare equal");REQUIRE(EVP_PKEY_eq(a,d)!=1,"keys on different sets compare equal");ERR_clear_error();}} }
SUB("S01",params,2000,20000,64){ const Ps&p=gen_ps(s);int t=s.pick({NID_id_GostR3410_2001,NID_id_GostR3410_2001DH});if(p.c->hl==64)return;nontrivial();lab(t,p);note("%s %s",OBJ_nid2sn(t),p.sn.c_str());PK a(mk_key(t,p.nid,nullptr));
 uint8_t*o=nullptr;int n=i2d_KeyParams(a,&o);REQUIRE(n>0,"parameters not encoded: %s",errs().c_str());Bytes e(o,o+n);OPENSSL_free(o);Bytes x=kx::oid(p.nid);REQUIRE(e==x,"parameter encoding %s, expected %s",hex(e).c_str(),hex(x).c_str());
 In in(e);const uint8_t*q=in.p;PK b(d2i_KeyParams(t,NULL,&q,in.n));REQUIRE(b.p,"parameters not decoded: %s",errs().c_str());REQUIRE(EVP_PKEY_id(b)==t,"decoded parameters have type %s, expected %s",OBJ_nid2sn(EVP_PKEY_id(b)),OBJ_nid2sn(t));REQUIRE(EVP_PKEY_parameters_eq(a,b)==1,"decoded parameters differ");
 std::string tx=text(b,2,0);REQUIRE(tx.find(OBJ_nid2ln(p.nid))!=std::string::npos,"printed parameters: %s",tx.c_str());
 PK k(EVP_PKEY_new());N d=gen_scalar(s,*p.c,false);PK full(mk_key(t,p.nid,&d));REQUIRE(EVP_PKEY_set_type(k,t)==1&&EVP_PKEY_copy_parameters(k,full)==1,"copy parameters: %s",errs().c_str());REQUIRE(EVP_PKEY_parameters_eq(k,full)==1&&EVP_PKEY_missing_parameters(k)==0,"copied parameters differ"); }
// ---- S02
static void edit(Src&s,Bytes&b){ size_t n=1+s.draw(4);for(size_t i=0;i<n&&!b.empty();i++)switch(s.draw(5)){case 0:b[s.draw(b.size())]^=1<<s.draw(8);break;case 1:b[s.draw(b.size())]=s.pick({0,1,2,4,6,0x30,0x80,0x82,0xa0,0xff,0x7f});break;case 2:b.erase(b.begin()+s.draw(b.size()));break;case 3:b.insert(b.begin()+s.draw(b.size()+1),(uint8_t)s.draw(256));break;default:b.resize(s.draw(b.size()+1));} }
static Bytes odd_alg(Src&s,int t,const Ps&p,std::string&w){ const Ps&p2=gen_ps(s);int t2=s.pick({NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512,NID_id_GostR3410_2001,NID_id_GostR3410_2001DH,NID_id_GostR3410_94,NID_id_Gost28147_89_MAC,NID_magma_mac,NID_X9_62_id_ecPublicKey,NID_id_GostR3411_94});
 switch(s.draw(7)){case 0:w+="type and set mismatch;";return der_seq({kx::oid(t),der_seq({kx::oid(p2.nid)})});case 1:w+="other type;";return der_seq({kx::oid(t2),kx::params_der(t,p)});case 2:w+="null parameters;";return der_seq({kx::oid(t),der(5,{})});case 3:w+="no parameters;";return der_seq({kx::oid(t)});
 case 4:w+="foreign set;";return der_seq({kx::oid(t),der_seq({kx::oid(s.pick({NID_X9_62_prime256v1,NID_id_GostR3411_94_CryptoProParamSet,NID_id_Gost28147_89_CryptoPro_A_ParamSet,NID_id_tc26_gost_3410_2012_256_constants,NID_sm2}))})});case 5:w+="odd sequence;";return der_seq({kx::oid(t),der_seq({s.bytes(s.draw(12))})});default:w+="set as bare OID;";return der_seq({kx::oid(t),kx::oid(p.nid)});} }
static Bytes odd_len(Src&s,const Bytes&v){ Bytes b=v;switch(s.draw(6)){case 0:return{};case 1:if(!b.empty())b.pop_back();return b;case 2:b.push_back(s.draw(256));return b;case 3:b.resize(s.draw(b.size()+1));return b;case 4:b.resize(b.size()+s.draw(200));return b;default:return s.bytes(s.draw(300));} }
// everything a program may do with a key it was given
static void exercise(EVP_PKEY*k,bool priv,Src&s){ int t=EVP_PKEY_id(k);const EC_KEY*e=(const EC_KEY*)EVP_PKEY_get0(k);bool ours=t==NID_id_GostR3410_2001||t==NID_id_GostR3410_2001DH||t==NID_id_GostR3410_2012_256||t==NID_id_GostR3410_2012_512;
 for(int i=0;i<3;i++)text(k,i,s.draw(4));ERR_clear_error();if(!ours){label("accepted as another type");return;}
 REQUIRE(e&&EC_KEY_get0_group(e),"accepted key has no parameters");const EC_GROUP*g=EC_KEY_get0_group(e);const Ps&p=param_by_nid(EC_GROUP_get_curve_name(g));const Curve&c=*p.c;REQUIRE((int)c.hl*8==EVP_PKEY_bits(k),"a key of type %s accepted on %s",OBJ_nid2sn(t),p.sn.c_str());
 const EC_POINT*q=EC_KEY_get0_public_key(e);REQUIRE(q,"accepted key has no public point");Pt Q=from(g,q);REQUIRE(!Q.inf,"accepted key has the public point at infinity");REQUIRE(on(c,Q),"accepted public key is not on the curve");
 if(priv){const BIGNUM*d=EC_KEY_get0_private_key(e);REQUIRE(d&&!BN_is_zero(d)&&!BN_is_negative(d)&&BN_num_bytes(d)<=(int)c.hl,"accepted private key out of range");REQUIRE(Q==mul(c,gen(c),N(d)),"public point does not belong to the private key");}
 bool ok;Bytes b=write_pub(k,ok);REQUIRE(ok,"accepted key cannot be encoded: %s",errs().c_str());PK r(read_pub(b));REQUIRE(r.p&&EVP_PKEY_eq(r,k)==1,"re-encoded public key differs: %s",errs().c_str());REQUIRE(EVP_PKEY_parameters_eq(k,k)==1,"parameters differ from themselves");
 Bytes dg=s.rnd(c.hl);
 if(priv){ Fmt f(s.flip());Bytes x=write_p8(k,ok);REQUIRE(ok,"accepted private key cannot be encoded: %s",errs().c_str());PK r2(read_p8(x));REQUIRE(r2.p&&EVP_PKEY_eq(r2,k)==1,"re-encoded private key differs: %s",errs().c_str());REQUIRE(BN_cmp(EC_KEY_get0_private_key((const EC_KEY*)EVP_PKEY_get0(r2)),EC_KEY_get0_private_key(e))==0,"re-encoded private key has another value");
  Buf sg(2*c.hl);size_t sl=2*c.hl;PC x1(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_sign_init(x1)==1&&EVP_PKEY_sign(x1,sg.p,&sl,dg.data(),dg.size())==1,"signing with an accepted key failed: %s",errs().c_str());PC x2(EVP_PKEY_CTX_new(r,eng()));REQUIRE(EVP_PKEY_verify_init(x2)==1&&EVP_PKEY_verify(x2,sg.p,sl,dg.data(),dg.size())==1,"signature of an accepted key does not verify");
  PC x3(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_derive_init(x3)==1&&EVP_PKEY_derive_set_peer(x3,r)==1,"derive");EVP_PKEY_CTX_ctrl(x3,-1,-1,EVP_PKEY_CTRL_SET_IV,8,(void*)"abcdefgh");Buf o(64);size_t ol=64;EVP_PKEY_derive(x3,o.p,&ol);ERR_clear_error(); }
 else{ Bytes sig=s.rnd(2*c.hl);PC x2(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_verify_init(x2)==1,"init");REQUIRE(EVP_PKEY_verify(x2,sig.data(),sig.size(),dg.data(),dg.size())!=1,"arbitrary bytes verify");ERR_clear_error();PC x3(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_encrypt_init(x3)==1,"init");Buf o(2000);size_t ol=2000;EVP_PKEY_encrypt(x3,o.p,&ol,Bytes(32,1).data(),32);EVP_PKEY_CTX*x4=EVP_PKEY_CTX_new(k,eng());PC y(x4);EVP_PKEY_sign_init(y);size_t sl=2*c.hl;EVP_PKEY_sign(y,o.p,&sl,dg.data(),dg.size());write_p8(k,ok);ERR_clear_error(); } }
static void steady(Src&s,const Bytes&in,EVP_PKEY*(*rd)(const Bytes&)){ if(!s.chance(1,5))return;long a=0,z=0;for(int i=0;i<3;i++){{PK k(rd(in));}ERR_clear_error();a=z;z=live_allocs();}REQUIRE(z<=a,"each decoding leaves %ld allocations behind",z-a); }
SUB("S02",hostile_priv,9000,200000,64){ const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false);Bytes raw=tole(d,c.hl),k;std::string w;
 switch(s.draw(13)){case 0:k=raw;w="raw;";break;case 1:k=odd_len(s,raw);w="raw of odd length;";break;case 2:k=der_octet(odd_len(s,raw));w="octet string of odd length;";break;case 3:k=der_octet(tole(d,c.hl==64?64:32));w="octet string;";break;case 4:k=der_octet(c.hl==64?s.rnd(32):s.rnd(64));w="octet string of the other size;";break;
 case 5:{Bytes b=s.pick<int>({0,1})?tobe(c.q,c.hl):Bytes(1,0);k=s.flip()?der_int(b):rev(Bytes(c.hl,0));w="zero or q;";if(s.flip()){k=tole(c.q,c.hl);}break;}
 case 6:{Bytes b=s.rnd(1+s.draw(70));b[0]|=0x80;k=der(2,b);w="negative integer;";break;}
 case 7:k=der_int(s.rnd(c.hl+1+s.draw(20)));w="oversized integer;";break;
 case 8:{k=cat(raw,s.flip()?Bytes(c.hl,0):tole(c.q,c.hl));w="zero mask;";break;}
 case 9:k=der_seq({der_octet(odd_len(s,cat(raw,tole(N(3),c.hl)))),der_octet(s.bytes(s.draw(130)))});w="masked sequence;";break;
 case 10:k=Bytes();w="empty;";break;
 case 11:k=s.bytes(s.draw(200));w="arbitrary key;";break;
 default:k=der_seq({der_octet(raw),der(s.pick({4,3,2,5}),s.bytes(s.draw(70)))});w="sequence;";}
 Bytes alg=s.chance(1,3)?odd_alg(s,t,p,w):kx::algid(t,p);Bytes in=p8(t,p,k,alg);if(s.chance(1,4)){edit(s,in);w+="edited;";}nontrivial();lab(t,p);label(w.substr(0,w.find(';')));note("%s %s %s",OBJ_nid2sn(t),p.sn.c_str(),w.c_str());
 PK a(read_p8(in));ERR_clear_error();label(a.p?"accepted":"refused");if(a.p)exercise(a,true,s);steady(s,in,read_p8); }
SUB("S02",hostile_pub,9000,200000,64){ const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);Pt Q=mul(c,gen(c),gen_scalar(s,c,false));Bytes o=kx::point_le(c,Q);std::string w;bool wrap=true;
 switch(s.draw(9)){case 0:w="valid;";break;case 1:o=odd_len(s,o);w="octets of odd length;";break;case 2:o=s.rnd(2*c.hl);w="random point;";break;case 3:o=Bytes(s.pick({2*c.hl,(size_t)0,(size_t)1,(size_t)2,(size_t)64,(size_t)128}),0);w="zero point;";break;case 4:{N x=Q.x+c.p;if(BN_num_bytes(x)<=(int)c.hl)o=cat(tole(x,c.hl),tole(Q.y,c.hl));w="coordinate plus p;";break;}
 case 5:{/* same numbers, other width */size_t h=s.pick({c.hl+1,c.hl+8,c.hl*2});o=cat(tole(Q.x,h),tole(Q.y,h));w="wider coordinates;";break;}case 6:wrap=false;o=s.flip()?o:cat(Bytes(1,4),o);w="not wrapped;";break;case 7:o=cat(rev(sub(o,0,c.hl)),rev(sub(o,c.hl,c.hl)));w="big-endian;";break;default:{bool ok;N x=mod(le(s.rnd(c.hl)),c.p);Pt R=with_x(c,x,s.flip(),ok);if(ok)o=kx::point_le(c,R);w="any curve point;";}}
 Bytes alg=s.chance(1,3)?odd_alg(s,t,p,w):kx::algid(t,p);Bytes in=kx::spki_raw(alg,o,wrap);if(s.chance(1,4)){edit(s,in);w+="edited;";}if(s.chance(1,20)){in=s.bytes(s.draw(200));w="arbitrary;";}nontrivial();lab(t,p);label(w.substr(0,w.find(';')));note("%s %s %s",OBJ_nid2sn(t),p.sn.c_str(),w.c_str());
 PK a(read_pub(in));ERR_clear_error();label(a.p?"accepted":"refused");if(w=="valid;")REQUIRE(a.p,"valid key refused");if(w=="wider coordinates;"||w=="octets of odd length;")REQUIRE(!a.p||o.size()==2*c.hl,"key of %zu octets accepted",o.size());if(a.p)exercise(a,false,s);steady(s,in,read_pub); }
SUB("S02",hostile_params,3000,60000,128){ int t=s.pick({NID_id_GostR3410_2001,NID_id_GostR3410_2001DH,NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512});const Ps&p=gen_ps(s);Bytes in=s.flip()?kx::oid(p.nid):s.flip()?kx::oid(s.pick({NID_X9_62_prime256v1,NID_id_GostR3411_94_CryptoProParamSet,NID_sm2,NID_id_GostR3410_2001})):s.bytes(s.draw(20));if(s.chance(1,3))edit(s,in);nontrivial();note("%s params %s",OBJ_nid2sn(t),hex(in).c_str());
 In b(in);const uint8_t*q=b.p;PK k(d2i_KeyParams(t,NULL,&q,b.n));ERR_clear_error();label(k.p?"accepted":"refused");if(!k.p)return;for(int i=0;i<3;i++)text(k,i,0);const EC_KEY*e=(const EC_KEY*)EVP_PKEY_get0(k);REQUIRE(e&&EC_KEY_get0_group(e),"accepted parameters are empty");const Ps&r=param_by_nid(EC_GROUP_get_curve_name(EC_KEY_get0_group(e)));REQUIRE((int)r.c->hl*8==EVP_PKEY_bits(k),"parameters %s accepted for a key of type %s",r.sn.c_str(),OBJ_nid2sn(EVP_PKEY_id(k)));
 PC c(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_keygen_init(c)==1,"init");EVP_PKEY*n=nullptr;REQUIRE(EVP_PKEY_keygen(c,&n)==1,"key generation with accepted parameters failed: %s",errs().c_str());PK nn(n);bool ok;write_p8(n,ok);REQUIRE(ok,"generated key cannot be encoded");write_pub(n,ok);REQUIRE(ok,"generated key cannot be encoded");ERR_clear_error(); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
