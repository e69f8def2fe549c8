// R01 memory: histories over every kind of object leave nothing allocated
#include "kx.h"
#include "ciphers.h"
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <functional>
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <openssl/crypto.h>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace ec;
static pbt::Rule r1("R01","a drawn history of operations on pools of cipher, digest, MAC, key and key-operation contexts, valid and failing (random-source failure, allocation failure inside the engine, hostile encodings, wrong keys, abandoned contexts), run three times with the same choices: the number of live allocations must not grow from the first to the second and from the second to the third run; non-trivial: at least one operation failed and at least one succeeded");
static pbt::Assume a1("R01","allocations are those made through OpenSSL's allocator, which is the only one the engine uses; a history whose first run fills a one-time cache is judged on the later runs");
static int okc,badc; static std::string lastop;
static bool R(int r){ if(r>0)okc++;else{badc++;} return r>0; }
static const Ps&any_ps(Src&s){return params()[s.draw(params().size())];}
static const char*CN[]={"gost89","gost89-cbc","gost89-cnt","gost89-cnt-12","magma-ecb","magma-cbc","magma-ctr","magma-ctr-acpkm","magma-ctr-acpkm-omac","magma-mgm","kuznyechik-ecb","kuznyechik-cbc","kuznyechik-cfb","kuznyechik-ofb","kuznyechik-ctr","kuznyechik-ctr-acpkm","kuznyechik-ctr-acpkm-omac","kuznyechik-mgm"};
static const int HN[]={NID_id_GostR3411_94,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512};
static const int MN[]={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac,NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac,NID_id_tc26_cipher_gostr3412_2015_magma_ctracpkm_omac};
static int mac_nid(Src&s){ static std::vector<int>v;if(v.empty()){v={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac};for(const char*n:{"magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac"}){int i=OBJ_sn2nid(n);if(i&&ENGINE_get_digest(eng(),i))v.push_back(i);}ERR_clear_error();}return v[s.draw(v.size())]; }
static int keytype(Src&s){return s.pick({NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512,NID_id_GostR3410_2001,NID_id_GostR3410_2001DH,NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac});}
static Bytes p8(int type,const Ps&p,const Bytes&key){return der_seq({der_int(Bytes(1,0)),kx::algid(type,p),der_octet(key)});}
static void edit(Src&s,Bytes&b){ size_t n=s.draw(4);for(size_t i=0;i<n&&!b.empty();i++)switch(s.draw(5)){case 0:b[s.draw(b.size())]^=1<<s.draw(8);break;case 1:b[s.draw(b.size())]=s.pick({0,1,2,4,6,0x30,0x80,0x82,0xa0,0xff,0x7f});break;case 2:b.erase(b.begin()+s.draw(b.size()));break;case 3:b.insert(b.begin()+s.draw(b.size()+1),(uint8_t)s.draw(256));break;default:b.resize(s.draw(b.size()+1));} }
struct CC{EVP_CIPHER_CTX*c=nullptr;bool live=false;int id=0;}; struct MC{EVP_MD_CTX*c=nullptr;int mode=0,id=0;}; /* a context is reset before it changes to another digest or signing: OpenSSL leaves the old one's flags on it */ struct KC{EVP_PKEY_CTX*c=nullptr;int op=0;};
struct World{ CC c[3];MC m[3];EVP_PKEY*k[4]={};KC x[3];Bytes blob,sig;
 ~World(){for(auto&e:c)EVP_CIPHER_CTX_free(e.c);for(auto&e:m)EVP_MD_CTX_free(e.c);for(auto&e:x)EVP_PKEY_CTX_free(e.c);for(auto e:k)EVP_PKEY_free(e);} };
static bool isec(EVP_PKEY*k){int t=k?EVP_PKEY_id(k):0;return t==NID_id_GostR3410_2001||t==NID_id_GostR3410_2001DH||t==NID_id_GostR3410_2012_256||t==NID_id_GostR3410_2012_512;}
static bool ismac(EVP_PKEY*k){int t=k?EVP_PKEY_id(k):0;return t==NID_id_Gost28147_89_MAC||t==NID_gost_mac_12||t==NID_magma_mac||t==NID_grasshopper_mac||t==NID_magma_mac;}
static void setk(World&w,size_t i,EVP_PKEY*k){EVP_PKEY_free(w.k[i]);w.k[i]=k;}
static std::string txt;
#define N_(...) do{ char b_[200];snprintf(b_,sizeof b_,__VA_ARGS__);txt+=b_;txt+=(char)32;if(getenv("MEMDBG"))fprintf(stderr,"%s\n",b_); }while(0)
static void cipher_op(Src&s,World&w){ CC&c=w.c[s.draw(3)];size_t ci=&c-w.c;if(!c.c)c.c=EVP_CIPHER_CTX_new();Buf o(4200);int l=0;
 switch(s.weighted({4,4,2,1,2,3,2,1})){
 case 0:{int k=s.draw(18);Bytes key=s.bytes(32),iv=s.bytes(16);iv[0]&=0x7f;bool first=c.id!=k+1;int how=first?s.draw(2):s.draw(4);N_("c%zu:%s%s",ci,CN[k],how==1?"(nokey)":"");const EVP_CIPHER*ec=(first||s.flip())?cipher(nid_of(CN[k])):NULL;c.live=R(EVP_CipherInit_ex(c.c,ec,eng(),how==1||how==2?NULL:key.data(),how==1||how==3?NULL:iv.data(),s.pick({1,0,-1})));c.id=c.live?k+1:0;if(how==1&&c.live)c.live=R(EVP_CipherInit_ex(c.c,NULL,NULL,key.data(),iv.data(),-1));break;}
 case 1:{if(!c.live)break;size_t n=s.flip()?s.draw(100):s.pick({16,64,1024,4000});Bytes d=s.rnd(n);N_("c%zu:upd%zu",ci,n);R(EVP_CipherUpdate(c.c,(c.id==10||c.id==18)&&s.flip()?NULL:o.p,&l,d.data(),n));break;}
 case 2:if(!c.live)break;N_("c%zu:fin",ci);R(EVP_CipherFinal_ex(c.c,o.p,&l));break;
 case 3:N_("c%zu:reset",ci);EVP_CIPHER_CTX_reset(c.c);c.live=false;c.id=0;break;
 case 4:{CC&d=w.c[s.draw(3)];if(&d==&c||!c.id)break;if(!d.c||s.flip()){EVP_CIPHER_CTX_free(d.c);d.c=EVP_CIPHER_CTX_new();}N_("c%zu->c%zu",ci,(size_t)(&d-w.c));bool r=R(EVP_CIPHER_CTX_copy(d.c,c.c));if(r){d.live=c.live;d.id=c.id;}else{d.live=false;d.id=0;EVP_CIPHER_CTX_free(d.c);d.c=NULL;}break;}
 case 5:{if(!c.id)break;int t=s.pick({EVP_CTRL_SET_SBOX,EVP_CTRL_KEY_MESH,EVP_CTRL_TLSTREE,EVP_CTRL_PBE_PRF_NID,EVP_CTRL_AEAD_SET_IVLEN,EVP_CTRL_AEAD_SET_TAG,EVP_CTRL_AEAD_GET_TAG,EVP_CTRL_RAND_KEY,EVP_CTRL_INIT,0x7ffe});memset(o.p,1,64);int a=s.pick({0,1,8,16,32,1024,NID_id_Gost28147_89_CryptoPro_A_ParamSet});if(t==EVP_CTRL_INIT)t=EVP_CTRL_KEY_MESH;if(t==EVP_CTRL_AEAD_GET_TAG||t==EVP_CTRL_AEAD_SET_TAG)a=s.pick({8,16,0,-1});N_("c%zu:ctl%d",ci,t);R(EVP_CIPHER_CTX_ctrl(c.c,t,a,o.p));break;}
 case 6:{if(!c.id)break;ASN1_TYPE*t=ASN1_TYPE_new();bool ok=s.flip()?R(EVP_CIPHER_param_to_asn1(c.c,t)):false;if(!ok){Bytes v=s.flip()?cat(der_octet(s.bytes(s.pick({8,7,16}))),kx::oid(s.pick({NID_id_Gost28147_89_CryptoPro_A_ParamSet,NID_id_tc26_gost_28147_param_Z,NID_sm2}))):der_octet(s.bytes(s.pick({16,12,8,24,0})));if(s.chance(1,3))edit(s,v);Bytes q=der(0x30,v);ASN1_STRING*st=ASN1_STRING_type_new(V_ASN1_SEQUENCE);ASN1_STRING_set(st,q.data(),q.size());ASN1_TYPE_set(t,V_ASN1_SEQUENCE,st);}N_("c%zu:asn1",ci);CC&d=w.c[s.draw(3)];if(d.id)R(EVP_CIPHER_asn1_to_param(d.c,t));ASN1_TYPE_free(t);break;}
 default:N_("c%zu:free",ci);EVP_CIPHER_CTX_free(c.c);c.c=NULL;c.live=false;c.id=0;} }
static void md_op(Src&s,World&w){ MC&m=w.m[s.draw(3)];size_t mi=&m-w.m;if(!m.c)m.c=EVP_MD_CTX_new();Buf o(200);unsigned l=0;
 switch(s.weighted({3,3,4,3,2,1,2,1})){
 case 0:{int n=HN[s.draw(3)];N_("m%zu:%s",mi,OBJ_nid2sn(n));if(m.id!=n){EVP_MD_CTX_reset(m.c);m.id=n;}m.mode=R(EVP_DigestInit_ex(m.c,digest(n),eng()));break;}
 case 1:{int n=mac_nid(s);N_("m%zu:%s",mi,OBJ_nid2sn(n));if(m.id!=n){EVP_MD_CTX_reset(m.c);m.id=n;}m.mode=R(EVP_DigestInit_ex(m.c,digest(n),eng()));if(m.mode&&s.chance(4,5)){gost_mac_key mk;memset(&mk,0,sizeof mk);Bytes key=s.bytes(32);memcpy(mk.key,key.data(),32);mk.mac_param_nid=s.flip()?NID_undef:NID_id_tc26_gost_28147_param_Z;mk.mac_size=s.draw(9);if(s.flip())R(EVP_MD_meth_get_ctrl(digest(n))(m.c,EVP_MD_CTRL_SET_KEY,0,&mk));else R(EVP_MD_meth_get_ctrl(digest(n))(m.c,EVP_MD_CTRL_SET_KEY,s.pick({32,32,31}),key.data()));}break;}
 case 2:{if(!m.mode)break;Bytes d=s.rnd(s.flip()?s.draw(100):s.pick({8,32,1024,2100}));N_("m%zu:upd%zu",mi,d.size());R(EVP_DigestUpdate(m.c,d.data(),d.size()));break;}
 case 3:{if(m.mode==1){N_("m%zu:fin",mi);R(EVP_DigestFinal_ex(m.c,o.p,&l));m.mode=0;}else if(m.mode==2){size_t q=s.pick({200,200,3});N_("m%zu:signfin",mi);if(s.flip()){if(R(EVP_DigestSignFinal(m.c,o.p,&q)))w.sig=Bytes(o.p,o.p+q);}else R(EVP_DigestSignFinal(m.c,NULL,&q));}else if(m.mode==3){Bytes g=w.sig;if(s.chance(1,3)||g.empty())g=s.bytes(s.pick({64,128,63,0}));N_("m%zu:verfin",mi);R(EVP_DigestVerifyFinal(m.c,g.data(),g.size()));}break;}
 case 4:{MC&d=w.m[s.draw(3)];if(&d==&m||!m.mode)break;if(!d.c)d.c=EVP_MD_CTX_new();N_("m%zu->m%zu",mi,(size_t)(&d-w.m));if(R(EVP_MD_CTX_copy_ex(d.c,m.c))){d.mode=m.mode;d.id=m.id;}else{EVP_MD_CTX_free(d.c);d.c=NULL;d.mode=d.id=0;}break;}
 case 5:N_("m%zu:reset",mi);EVP_MD_CTX_reset(m.c);m.mode=0;break;
 case 6:{EVP_PKEY*k=w.k[s.draw(4)];if(!k||(!isec(k)&&!ismac(k)))break;bool ver=isec(k)&&s.flip();int n=isec(k)?HN[s.draw(3)]:s.chance(3,4)?EVP_PKEY_id(k):HN[1];N_("m%zu:%s(%s,%s)",mi,ver?"verinit":"siginit",OBJ_nid2sn(EVP_PKEY_id(k)),OBJ_nid2sn(n));EVP_MD_CTX_reset(m.c);m.id=-1;EVP_PKEY_CTX*px=NULL;const EVP_MD*md=s.chance(1,6)?NULL:ENGINE_get_digest(eng(),n);int r=ver?EVP_DigestVerifyInit(m.c,&px,md,eng(),k):EVP_DigestSignInit(m.c,&px,md,eng(),k);m.mode=R(r)?ver?3:2:0;if(m.mode&&ismac(k)&&s.flip()){Bytes key=s.bytes(32);R(EVP_PKEY_CTX_ctrl_str(px,s.pick({"key","hexkey","size","bogus"}),s.flip()?"8":tohex(key).c_str()));}if(!m.mode)EVP_MD_CTX_reset(m.c);break;}
 default:N_("m%zu:free",mi);EVP_MD_CTX_free(m.c);m.c=NULL;m.mode=0;} }
static void key_op(Src&s,World&w){ size_t i=s.draw(4);const Ps&p=any_ps(s);int t=gen_type(s,p);const Curve&c=*p.c;
 switch(s.weighted({4,3,3,3,2,2,1,1,1})){
 case 0:{rand_fail(-1);alloc_fail(NULL,0);N d=gen_scalar(s,c,false);N_("k%zu=%s/%s",i,OBJ_nid2sn(t),p.sn.c_str());if(s.flip()){Pt Q=mul(c,gen(c),d);setk(w,i,mk_key(t,p.nid,nullptr,&Q));}else setk(w,i,mk_key(t,p.nid,s.chance(1,8)?nullptr:&d));okc++;break;}
 case 1:{N d=gen_scalar(s,c,false);Bytes k=tole(d,c.hl);switch(s.draw(6)){case 0:break;case 1:k=der_octet(k);break;case 2:k=der_int(tobe(d,c.hl));break;case 3:k=cat(k,tole(N(3),c.hl));break;case 4:k=der_seq({der_octet(cat(k,tole(N(5),c.hl))),der_octet(s.bytes(s.draw(130)))});break;default:k=Bytes(s.draw(80),0);}Bytes b=p8(t,p,k);edit(s,b);N_("k%zu=p8[%zu]",i,b.size());In in(b);const uint8_t*q=in.p;PKCS8_PRIV_KEY_INFO*f=d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.n);EVP_PKEY*k2=f?EVP_PKCS82PKEY(f):NULL;PKCS8_PRIV_KEY_INFO_free(f);R(k2!=NULL);if(k2)setk(w,i,k2);break;}
 case 2:{Pt Q=mul(c,gen(c),gen_scalar(s,c,false));Bytes o=kx::point_le(c,Q);if(s.chance(1,4))o=s.rnd(o.size());if(s.chance(1,6))o.resize(s.draw(200));Bytes b=kx::spki_raw(kx::algid(t,p),o,!s.chance(1,8));edit(s,b);N_("k%zu=spki[%zu]",i,b.size());In in(b);const uint8_t*q=in.p;EVP_PKEY*k=d2i_PUBKEY(NULL,&q,in.n);R(k!=NULL);if(k)setk(w,i,k);break;}
 case 3:{int kt=keytype(s);EVP_PKEY_CTX*x=EVP_PKEY_CTX_new_id(kt,eng());bool pg=s.chance(1,4);EVP_PKEY*o=NULL;N_("k%zu=%s %s",i,pg?"paramgen":"keygen",OBJ_nid2sn(kt));if(R(x&&(pg?EVP_PKEY_paramgen_init(x):EVP_PKEY_keygen_init(x))>0)){size_t n=s.draw(3);for(size_t j=0;j<n+(s.flip()?1:0);j++){if(s.flip())R(EVP_PKEY_CTX_ctrl_str(x,"paramset",s.pick({"A","B","TCA","TCB","0","XA","C","bogus","id-Gost28147-89-CryptoPro-A-ParamSet"})));else switch(s.draw(4)){case 0:R(EVP_PKEY_CTX_ctrl_str(x,"key","0123456789abcdef0123456789abcdef"));break;case 1:R(EVP_PKEY_CTX_ctrl_str(x,"hexkey",s.flip()?"00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff":"0011"));break;case 2:R(EVP_PKEY_CTX_ctrl_str(x,"size",s.pick({"4","8","16","99"})));break;default:{Bytes k=s.bytes(32);R(EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,s.pick({32,31,0}),k.data()));}}}
   R(pg?EVP_PKEY_paramgen(x,&o):EVP_PKEY_keygen(x,&o));}EVP_PKEY_CTX_free(x);if(o)setk(w,i,o);break;}
 case 4:{Bytes k=s.bytes(s.pick({32,32,31,0,33}));In in(k);int n=s.pick({NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac});N_("k%zu=mackey %s[%zu]",i,OBJ_nid2sn(n),k.size());EVP_PKEY*e=EVP_PKEY_new_mac_key(n,eng(),in.p,in.n);R(e!=NULL);if(e)setk(w,i,e);break;}
 case 5:{EVP_PKEY*k=w.k[i];if(!k)break;int what=s.draw(7);N_("k%zu:out%d",i,what);BIO*b=BIO_new(BIO_s_mem());uint8_t*o=NULL;switch(what){case 0:R(EVP_PKEY_print_private(b,k,s.draw(3),NULL));break;case 1:R(EVP_PKEY_print_public(b,k,0,NULL));break;case 2:R(EVP_PKEY_print_params(b,k,0,NULL));break;case 3:R(i2d_PUBKEY(k,&o));break;case 4:{bool lw=s.flip();if(lw)ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","LEGACY_PK_WRAP",0);PKCS8_PRIV_KEY_INFO*f=EVP_PKEY2PKCS8(k);if(R(f!=NULL))i2d_PKCS8_PRIV_KEY_INFO(f,&o);PKCS8_PRIV_KEY_INFO_free(f);if(lw)ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","RAW",0);break;}case 5:R(isec(k)?i2d_KeyParams(k,&o):0);break;default:{char pw[]="x";R(isec(k)&&PEM_write_bio_PKCS8PrivateKey(b,k,NULL,NULL,0,NULL,NULL));EVP_PKEY*r=PEM_read_bio_PrivateKey(b,NULL,NULL,pw);R(r!=NULL);if(r)setk(w,s.draw(4),r);}}OPENSSL_free(o);BIO_free(b);break;}
 case 6:{EVP_PKEY*k=w.k[i],*j=w.k[s.draw(4)];if(!k||!j)break;N_("k%zu:cmp",i);R(EVP_PKEY_eq(k,j));R(EVP_PKEY_parameters_eq(k,j));if(s.flip()&&k!=j)R(EVP_PKEY_copy_parameters(k,j));R(EVP_PKEY_get_size(k));if(s.chance(1,4)){EVP_PKEY*n=EVP_PKEY_new();if(R(EVP_PKEY_set_type(n,EVP_PKEY_id(j))))R(EVP_PKEY_copy_parameters(n,j));setk(w,s.draw(4),n);}break;}
 case 7:{Bytes b=s.flip()?kx::oid(p.nid):kx::params_der(t,p);edit(s,b);N_("k%zu=params",i);In in(b);const uint8_t*q=in.p;EVP_PKEY*k=d2i_KeyParams(t,NULL,&q,in.n);R(k!=NULL);if(k)setk(w,i,k);break;}
 default:N_("k%zu:free",i);setk(w,i,NULL);} }
enum{SIGN=1,VERIFY,ENC,DEC,DERIVE,KEYGEN};
static void ctx_op(Src&s,World&w){ size_t xi=s.draw(3);KC&x=w.x[xi];Buf o(1200);size_t ol=1200;
 if(!x.c||s.chance(1,3)){EVP_PKEY*k=w.k[s.draw(4)];if(!k)return;EVP_PKEY_CTX_free(x.c);x.op=0;x.c=EVP_PKEY_CTX_new(k,eng());if(!R(x.c!=NULL))return;int op=1+s.draw(6);int r=op==SIGN?EVP_PKEY_sign_init(x.c):op==VERIFY?EVP_PKEY_verify_init(x.c):op==ENC?EVP_PKEY_encrypt_init(x.c):op==DEC?EVP_PKEY_decrypt_init(x.c):op==DERIVE?EVP_PKEY_derive_init(x.c):EVP_PKEY_keygen_init(x.c);N_("x%zu:op%d",xi,op);if(R(r))x.op=op;return;}
 switch(s.weighted({6,2,2,2,1,1})){
 case 0:{Bytes d=s.rnd(s.chance(4,5)?EVP_PKEY_CTX_get0_pkey(x.c)&&EVP_PKEY_bits(EVP_PKEY_CTX_get0_pkey(x.c))>300?64:32:s.draw(70));N_("x%zu:do%d",xi,x.op);switch(x.op){
   case SIGN:if(EVP_PKEY_CTX_get0_pkey(x.c)&&ismac(EVP_PKEY_CTX_get0_pkey(x.c)))break;if(s.chance(1,6))R(EVP_PKEY_sign(x.c,NULL,&ol,d.data(),d.size()));else if(R(EVP_PKEY_sign(x.c,o.p,&ol,d.data(),d.size())))w.sig=Bytes(o.p,o.p+ol);break;
   case VERIFY:{Bytes g=w.sig;if(g.empty()||s.chance(1,3))g=s.bytes(s.pick({64,128,63,0}));R(EVP_PKEY_verify(x.c,g.data(),g.size(),d.data(),d.size()));break;}
   case ENC:{Bytes k=s.bytes(s.chance(1,6)?s.draw(40):32);if(s.chance(1,6))R(EVP_PKEY_encrypt(x.c,NULL,&ol,k.data(),k.size()));else if(R(EVP_PKEY_encrypt(x.c,o.p,&ol,k.data(),k.size())))w.blob=Bytes(o.p,o.p+ol);break;}
   case DEC:{Bytes b=w.blob;if(s.chance(1,3))edit(s,b);if(s.chance(1,10))b=s.bytes(s.draw(100));In in(b);if(s.chance(1,6))R(EVP_PKEY_decrypt(x.c,NULL,&ol,in.p,in.n));else R(EVP_PKEY_decrypt(x.c,o.p,&ol,in.p,in.n));break;}
   case DERIVE:if(s.chance(1,6))R(EVP_PKEY_derive(x.c,NULL,&ol));else R(EVP_PKEY_derive(x.c,o.p,&ol));break;
   case KEYGEN:{EVP_PKEY*k=NULL;R(EVP_PKEY_keygen(x.c,&k));if(k)setk(w,s.draw(4),k);break;}}break;}
 case 1:{EVP_PKEY*k=w.k[s.draw(4)];if(!k)break;N_("x%zu:peer",xi);R(EVP_PKEY_derive_set_peer(x.c,k));break;}
 case 2:{Bytes u=s.bytes(s.pick({8,32,32,8,0,5,33}));N_("x%zu:ukm%zu",xi,u.size());In in(u);R(EVP_PKEY_CTX_ctrl(x.c,-1,-1,EVP_PKEY_CTRL_SET_IV,u.size(),in.p));break;}
 case 3:{N_("x%zu:ctl",xi);if(!x.op)break;switch(s.draw(5)){case 0:R(EVP_PKEY_CTX_ctrl_str(x.c,s.pick({"ukmhex","vko","paramset","hexkey","key","size","zzz"}),s.pick({"0102030405060708","256","A","512","xyz","","8"})));break;case 1:R(EVP_PKEY_CTX_ctrl(x.c,-1,-1,EVP_PKEY_CTRL_MD,0,(void*)digest(HN[s.draw(3)])));break;case 2:R(EVP_PKEY_CTX_ctrl(x.c,-1,-1,EVP_PKEY_CTRL_CIPHER,s.pick({NID_magma_ctr,NID_kuznyechik_ctr,NID_id_Gost28147_89,NID_kuznyechik_ctr_acpkm,NID_magma_ctr_acpkm_omac,NID_aes_128_cbc}),NULL));break;case 3:R(EVP_PKEY_CTX_ctrl(x.c,-1,-1,EVP_PKEY_CTRL_SET_VKO,s.pick({0,NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512,5}),NULL));break;default:{Bytes k=s.bytes(32);R(EVP_PKEY_CTX_ctrl(x.c,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,s.pick({32,31}),k.data()));}}break;}
 case 4:{N_("x%zu:dup",xi);KC&y=w.x[s.draw(3)];if(&y==&x)break;EVP_PKEY_CTX*d=EVP_PKEY_CTX_dup(x.c);R(d!=NULL);if(d){EVP_PKEY_CTX_free(y.c);y.c=d;y.op=x.op;}break;}
 default:N_("x%zu:free",xi);EVP_PKEY_CTX_free(x.c);x.c=NULL;x.op=0;} }
static void misc_op(Src&s,World&w){ switch(s.draw(4)){
 case 0:{int kn=s.draw(3);int nid=s.pick({NID_magma_ctr,NID_kuznyechik_ctr}),mac=s.pick({NID_magma_mac,NID_grasshopper_mac});Bytes k1=s.bytes(32),k2=s.bytes(32),iv=s.bytes(8),k=s.bytes(32);Buf o(64);int ol=s.pick({40,48,64,3});N_("kexp%d",kn);R(gost_kexp15(k.data(),32,nid,k1.data(),mac,k2.data(),iv.data(),nid==NID_magma_ctr?4:8,o.p,&ol));size_t el=s.pick({40,48,0,39});Buf r(32);R(gost_kimp15(o.p,el,nid,k1.data(),mac,k2.data(),iv.data(),nid==NID_magma_ctr?4:8,r.p));break;}
 case 1:{Bytes k=s.bytes(32),l=s.bytes(s.draw(20)),sd=s.bytes(s.draw(40));size_t n=32*(1+s.draw(3));Buf o(n);N_("kdf");R(gost_kdftree2012_256(o.p,n,k.data(),32,l.data(),l.size(),sd.data(),sd.size(),s.range(1,4)));break;}
 case 2:{EVP_PKEY*k=w.k[s.draw(4)];if(!k||!isec(k))break;N_("cert");X509*x=X509_new();X509_NAME*n=X509_NAME_new();X509_NAME_add_entry_by_txt(n,"CN",MBSTRING_ASC,(const uint8_t*)"a",1,-1,0);X509_set_subject_name(x,n);X509_set_issuer_name(x,n);X509_NAME_free(n);ASN1_INTEGER_set(X509_get_serialNumber(x),5);ASN1_TIME_set(X509_getm_notBefore(x),1600000000);ASN1_TIME_set(X509_getm_notAfter(x),2500000000);
   if(R(X509_set_pubkey(x,k))){R(X509_sign(x,k,digest(HN[s.draw(3)]))>0);R(X509_verify(x,k));
    if(s.flip()){Bytes d=s.bytes(s.draw(200));BIO*b=BIO_new_mem_buf(d.data(),d.size());STACK_OF(X509)*st=sk_X509_new_null();sk_X509_push(st,x);bool sig=s.flip();CMS_ContentInfo*c=sig?CMS_sign(x,k,NULL,b,CMS_BINARY):CMS_encrypt(st,b,cipher(nid_of(s.pick({"gost89","kuznyechik-ctr-acpkm","magma-ctr-acpkm-omac"}))),CMS_BINARY|CMS_PARTIAL|(s.flip()?CMS_KEY_PARAM:0));N_("cms");R(c!=NULL);if(c&&!sig){if(R(CMS_final(c,b,NULL,CMS_BINARY))){ /* decrypting an object whose encryption failed leaks inside OpenSSL */BIO*o=BIO_new(BIO_s_mem());R(CMS_decrypt(c,k,x,NULL,o,0));BIO_free(o);}}else if(c){R(CMS_verify(c,NULL,NULL,NULL,NULL,CMS_NO_SIGNER_CERT_VERIFY));}CMS_ContentInfo_free(c);sk_X509_free(st);BIO_free(b);}}X509_free(x);break;}
 default:{EVP_PKEY*k=w.k[s.draw(4)];if(!k)break;N_("up");EVP_PKEY_up_ref(k);setk(w,s.draw(4),k);}} }
// OpenSSL's EVP_MD_CTX_copy_ex frees the source's MAC state when the signing context cannot be duplicated (its cleanup sees a bytewise copy), so
// the allocation of MAC signing contexts fails only in operations that copy no MAC
static void op(Src&s,World&w,int fa){ int c=s.weighted({5,4,4,5,1});if(fa>=0){const char*f=c<2?s.pick({"gost_crypt","gost_omac","gost_ec","gost_ameth"}):s.pick({"gost","gost_pmeth","gost_ec","gost_ameth"});alloc_fail(f,fa);N_("[allocation %d of %s fails]",fa,f);} switch(c){case 0:cipher_op(s,w);break;case 1:md_op(s,w);break;case 2:key_op(s,w);break;case 3:ctx_op(s,w);break;default:misc_op(s,w);}ERR_clear_error(); }
static void body(Src&s,bool faults){ okc=badc=0;txt.clear();rand_fail(-1);rand_script(s.rnd(64));{World w;size_t n=3+s.draw(s.chance(1,4)?60:18);for(size_t i=0;i<n;i++){int fa=-1;if(faults&&s.chance(1,4)){if(s.flip()){int a=s.draw(4);rand_fail(a);N_("[random fails after %d]",a);}else{int a=s.draw(3);fa=a;}}op(s,w,fa);rand_fail(-1);alloc_fail(NULL,0);}}
 rand_script(Bytes());EVP_PKEY_free(NULL);ERR_clear_error(); }
static long live(){OPENSSL_thread_stop();return live_allocs();}
static void steady(Src&s,bool faults){ long l0,l1,l2;{Src a=s;body(a,faults);}l0=live();live_dump("first run");{Src b=s;body(b,faults);}l1=live();live_dump("second run");body(s,faults);l2=live();live_dump("third run");note("%s",txt.c_str());if(okc&&badc)nontrivial();label(badc?"with failures":"all succeed");REQUIRE(!(l1>l0&&l2>l1),"each run leaves %ld allocations behind",l2-l1); }
SUB("R01",history,9000,120000,64){steady(s,false);}
SUB("R01",faults,6000,80000,64){steady(s,true);}
// every fault point of one operation: the random source, then each engine allocation, fails at the 1st, 2nd, ... call until the operation no longer meets it
static const char*SC[]={"keygen","encrypt","encrypt with sender key","decrypt","sign","derive","PKCS#8","SPKI","MAC key","DigestSign","X509","envelope","signed message","cipher","copies","parameters"};
static bool info13(int k){return strstr(CN[k],"gost89")||strstr(CN[k],"acpkm");}
static void scenario(Src&s,int sc,const std::function<void()>&arm){ const Ps&p=any_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false),e=gen_scalar(s,c,false);PK k,pe;if(sc<=7||(sc>=9&&sc<=12)||sc==15){k=PK(mk_key(t,p.nid,&d));pe=PK(mk_key(t,p.nid,&e));}Buf o(1500);size_t ol=1500;Bytes sk=s.bytes(32),ukm;bool neu=c.hl==64||t==NID_id_GostR3410_2012_256?s.flip():false;int cn=neu?s.pick({NID_magma_ctr,NID_kuznyechik_ctr,NID_kuznyechik_ctr_acpkm_omac}):0;if(s.flip())ukm=s.bytes(neu?32:8);if(ukm.size())ukm[0]|=1;
 auto xctx=[&](EVP_PKEY*q,int op){EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(q,eng());if(!x)return x;int r=op==ENC?EVP_PKEY_encrypt_init(x):op==DEC?EVP_PKEY_decrypt_init(x):op==DERIVE?EVP_PKEY_derive_init(x):EVP_PKEY_sign_init(x);if(r<=0){EVP_PKEY_CTX_free(x);return(EVP_PKEY_CTX*)NULL;}if(cn&&op!=SIGN&&op!=DERIVE)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL);if(ukm.size()&&(op==ENC||op==DERIVE))EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),ukm.data());return x;};
 switch(sc){
 case 0:{arm();PC x(EVP_PKEY_CTX_new(k,eng()));EVP_PKEY*q=NULL;R(x.c&&EVP_PKEY_keygen_init(x)>0&&EVP_PKEY_keygen(x,&q)>0);EVP_PKEY_free(q);break;}
 case 1:case 2:{arm();PC x(xctx(k,ENC));if(!R(x.c!=NULL))break;if(sc==2&&!R(EVP_PKEY_derive_set_peer(x,pe)))break;R(EVP_PKEY_encrypt(x,o.p,&ol,sk.data(),32));break;}
 case 3:{Bytes b;{PC x(xctx(k,ENC));if(!x.c||EVP_PKEY_encrypt(x,o.p,&ol,sk.data(),32)<=0)break;b.assign(o.p,o.p+ol);}arm();PC x(xctx(k,DEC));if(!R(x.c!=NULL))break;In in(b);ol=1500;R(EVP_PKEY_decrypt(x,o.p,&ol,in.p,in.n));break;}
 case 4:{Bytes dg=s.rnd(c.hl);arm();PC x(xctx(k,SIGN));if(!R(x.c!=NULL))break;R(EVP_PKEY_sign(x,o.p,&ol,dg.data(),dg.size()));break;}
 case 5:{arm();PC x(xctx(k,DERIVE));if(!R(x.c!=NULL)||!R(EVP_PKEY_derive_set_peer(x,pe)))break;R(EVP_PKEY_derive(x,o.p,&ol));break;}
 case 6:{Bytes kb=tole(d,c.hl);switch(s.draw(4)){case 1:kb=der_octet(kb);break;case 2:kb=cat(kb,tole(N(3),c.hl));break;case 3:kb=der_seq({der_octet(cat(kb,tole(N(3),c.hl))),der_octet(kx::point_le(c,gen(c)))});}Bytes b=p8(t,p,kb);bool lw=s.flip();if(lw)ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","LEGACY_PK_WRAP",0);arm();In in(b);const uint8_t*q=in.p;PKCS8_PRIV_KEY_INFO*f=d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.n);PK r(f?EVP_PKCS82PKEY(f):NULL);PKCS8_PRIV_KEY_INFO_free(f);f=EVP_PKEY2PKCS8(r.p?r.p:k.p);R(f!=NULL);PKCS8_PRIV_KEY_INFO_free(f);rand_fail(-1);alloc_fail(NULL,0);if(lw)ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","RAW",0);break;}
 case 7:{Bytes b=kx::spki(t,p,mul(c,gen(c),d));arm();In in(b);const uint8_t*q=in.p;PK r(d2i_PUBKEY(NULL,&q,in.n));uint8_t*u=NULL;R(i2d_PUBKEY(r.p?r.p:k.p,&u));OPENSSL_free(u);break;}
 case 8:{int n=s.pick({NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac});bool hexk=s.flip();arm();PC x(EVP_PKEY_CTX_new_id(n,eng()));EVP_PKEY*q=NULL;if(!R(x.c&&EVP_PKEY_keygen_init(x)>0))break;if(s.flip())R(hexk?EVP_PKEY_CTX_ctrl_str(x,"hexkey",tohex(sk).c_str()):EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_MAC_KEY,32,sk.data()));R(EVP_PKEY_keygen(x,&q));PK qk(q);break;}
 case 9:{int n=HN[s.draw(3)];if(EVP_PKEY_id(k)==NID_id_GostR3410_2001DH)break;int dn;EVP_PKEY_get_default_digest_nid(k,&dn);if(s.chance(3,4))n=dn;Bytes m=s.rnd(s.draw(200));arm();EVP_MD_CTX*x=EVP_MD_CTX_new();R(EVP_DigestSignInit(x,NULL,digest(n),eng(),k)>0&&EVP_DigestSignUpdate(x,m.data(),m.size())>0&&EVP_DigestSignFinal(x,o.p,&ol)>0);EVP_MD_CTX_free(x);break;}
 case 10:case 11:case 12:{X509*x=X509_new();X509_NAME*n=X509_NAME_new();X509_NAME_add_entry_by_txt(n,"CN",MBSTRING_ASC,(const uint8_t*)"a",1,-1,0);X509_set_subject_name(x,n);X509_set_issuer_name(x,n);X509_NAME_free(n);ASN1_INTEGER_set(X509_get_serialNumber(x),5);ASN1_TIME_set(X509_getm_notBefore(x),1600000000);ASN1_TIME_set(X509_getm_notAfter(x),2500000000);int dn=0;EVP_PKEY_get_default_digest_nid(k,&dn);
   if(sc==10){arm();R(X509_set_pubkey(x,k)>0&&X509_sign(x,k,digest(dn))>0);X509_verify(x,k);}else{X509_set_pubkey(x,k);if(X509_sign(x,k,digest(dn))>0){Bytes m=s.bytes(s.draw(100));BIO*b=BIO_new_mem_buf(m.data(),m.size());STACK_OF(X509)*st=sk_X509_new_null();sk_X509_push(st,x);const EVP_CIPHER*ci=cipher(nid_of(s.pick({"gost89","kuznyechik-ctr-acpkm","magma-ctr-acpkm","kuznyechik-ctr-acpkm-omac","magma-ctr-acpkm-omac"})));arm();CMS_ContentInfo*cm=sc==12?CMS_sign(x,k,NULL,b,CMS_BINARY):CMS_encrypt(st,b,ci,CMS_BINARY|CMS_KEY_PARAM);R(cm!=NULL);if(cm&&sc==11){BIO*ob=BIO_new(BIO_s_mem());R(CMS_decrypt(cm,k,x,NULL,ob,0));BIO_free(ob);}CMS_ContentInfo_free(cm);sk_X509_free(st);BIO_free(b);}}
   rand_fail(-1);alloc_fail(NULL,0);X509_free(x);break;}
 case 13:case 14:{int kk=s.draw(18);Bytes key=s.bytes(32),iv=s.bytes(16),m=s.rnd(s.draw(2500));iv[0]&=0x7f;arm();EVP_CIPHER_CTX*x=EVP_CIPHER_CTX_new(),*y=NULL;int l;if(R(EVP_CipherInit_ex(x,cipher(nid_of(CN[kk])),eng(),key.data(),iv.data(),1))){Buf ob(m.size()+32);R(EVP_CipherUpdate(x,ob.p,&l,m.data(),m.size()));if(sc==14){y=EVP_CIPHER_CTX_new();if(R(EVP_CIPHER_CTX_copy(y,x)))R(EVP_CipherFinal_ex(y,ob.p,&l));}R(EVP_CipherFinal_ex(x,ob.p,&l));ASN1_TYPE*at=ASN1_TYPE_new();if(info13(kk))R(EVP_CIPHER_param_to_asn1(x,at));ASN1_TYPE_free(at);}EVP_CIPHER_CTX_free(x);EVP_CIPHER_CTX_free(y);break;}
 default:{uint8_t*u=NULL;arm();int n=i2d_KeyParams(k,&u);if(R(n)){const uint8_t*q=u;PK r(d2i_KeyParams(t,NULL,&q,n));R(r.p!=NULL);}OPENSSL_free(u);BIO*b=BIO_new(BIO_s_mem());R(EVP_PKEY_print_private(b,k,0,NULL));BIO_free(b);PK z(EVP_PKEY_new());R(EVP_PKEY_set_type(z,t)>0&&EVP_PKEY_copy_parameters(z,k)>0);break;}}
 rand_fail(-1);alloc_fail(NULL,0);ERR_clear_error(); }
SUB("R01",fault_points,2500,25000,32){ int sc=s.draw(16);label(SC[sc]);note("%s",SC[sc]);size_t points=0;const char*pre=sc==11?s.pick({"gost_ec","gost_ameth"}):sc>=13&&sc<15?s.pick({"gost_crypt","gost_omac"}):"gost";
 for(int kind=0;kind<2;kind++)for(int j=0;j<40;j++){bool used=false;auto one=[&](Src q){okc=badc=0;rand_fail(-1);alloc_fail(NULL,0);rand_script(q.rnd(64));long before=0;scenario(q,sc,[&]{if(kind==0){before=rand_calls();rand_fail(j);}else alloc_fail(pre,j);});used=kind==0?(long)rand_calls()-before>j:alloc_denied()>0;rand_script(Bytes());};
  long l0,l1,l2;one(s);l0=live();live_dump("first");one(s);l1=live();live_dump("second");one(s);l2=live();live_dump("third");REQUIRE(!(l1>l0&&l2>l1),"%s, %s %d fails: each run leaves %ld allocations behind",SC[sc],kind?"engine allocation":"random source call",j,l2-l1);if(!used)break;points++;}
 {okc=badc=0;Src q=s;s.rnd(64);scenario(s,sc,[]{});} if(points)nontrivial();label(points==0?"no fault point":points<3?"1-2 fault points":points<6?"3-5 fault points":"6+ fault points"); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
