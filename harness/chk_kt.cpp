// T01 key transport, T02 hostile key-transport blobs
#include "kx.h"
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace ec;
static pbt::Rule r1("T01","key type, parameter set, recipient and sender keys, session key, UKM, cipher drawn; blobs decrypted by the engine and by the reference and rebuilt byte for byte; every case non-trivial");
static pbt::Rule r2("T02","valid blobs with one or more fields replaced (length, type, curve, point, presence, tags), byte-level edits, and arbitrary bytes; non-trivial: the bytes still parse as ASN.1 or differ from a valid blob by a few edits");
static const Ps&gen_ps(Src&s){return params()[s.draw(params().size())];}
static Bytes n32(Src&s){return s.bytes(32);}
struct Mode{int kind;int nid;}; // 0 legacy, 1 magma, 2 kuznyechik
static int pick_cipher(Src&s,int kind){ if(kind==1)return s.pick({NID_magma_ctr,NID_magma_ctr_acpkm,NID_magma_ctr_acpkm_omac});if(kind==2)return s.pick({NID_kuznyechik_ctr,NID_kuznyechik_ctr_acpkm,NID_kuznyechik_ctr_acpkm_omac});return s.pick({0,NID_id_Gost28147_89}); }
static void setup(EVP_PKEY_CTX*x,bool enc,int nid){ REQUIRE((enc?EVP_PKEY_encrypt_init(x):EVP_PKEY_decrypt_init(x))==1,"init: %s",errs().c_str());if(nid)REQUIRE(EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,nid,NULL)==1,"cipher control: %s",errs().c_str()); }
static int decrypt(EVP_PKEY_CTX*x,const Bytes&b,Bytes&out,Src&s){ In in(b);size_t room=32+(s.flip()?0:s.draw(40));Buf o(room);size_t l=0;if(s.flip()){size_t q=77;int r=EVP_PKEY_decrypt(x,NULL,&q,in.p,in.n);if(r==1)REQUIRE(q==32,"announced length %zu",q);ERR_clear_error();}
 if(s.chance(1,8)){size_t small=s.draw(32);Buf t(small);size_t tl=small;REQUIRE(EVP_PKEY_decrypt(x,t.p,&tl,in.p,in.n)<=0,"decrypted into a buffer of %zu bytes",small);for(size_t i=0;i<small;i++)REQUIRE(t.p[i]==0xa5,"a buffer that is too small was written");ERR_clear_error();}
 l=room;int r=EVP_PKEY_decrypt(x,o.p,&l,in.p,in.n);if(r==1){REQUIRE(l==32,"session key of %zu bytes",l);out.assign(o.p,o.p+32);}for(size_t i=32;i<room;i++)REQUIRE(o.p[i]==0xa5,"decryption wrote past the session key");return r; }
struct Rec{int type;const Ps*p;N d;Pt Q;};
static Rec gen_rec(Src&s,int kind){Rec r;do{r.p=&gen_ps(s);r.type=gen_type(s,*r.p);if(kind&&r.p->c->hl==32)r.type=NID_id_GostR3410_2012_256;}while(0);r.d=gen_scalar(s,*r.p->c,false);r.Q=mul(*r.p->c,gen(*r.p->c),r.d);return r;}
// the blob a sender with private key e makes
static bool make(int kind,const Rec&r,const N&e,const Bytes&ukm,const Bytes&sk,kx::Blob&b,int key_type=0){ bool ok;const Curve&c=*r.p->c;Pt E=mul(c,gen(c),e);b=kx::Blob();b.key=kx::spki(key_type?key_type:r.type,*r.p,E);b.ukm=ukm;
 if(kind){Bytes k=keg(c,e,r.Q,ukm,c.hl==64,ok);if(!ok)return false;b.pskt=true;b.body=kexp15(kind==2,k.data()+32,k.data(),sub(ukm,24,kind==2?8:4),sk);}
 else{Bytes k=vko(c,e,r.Q,ukm,kx::legacy_hash(r.type),ok);if(!ok)return false;Bytes w=cp_wrap(kx::legacy_set(kx::legacy_cipher_sn(r.type)),true,k.data(),ukm.data(),sk.data());b.body=sub(w,8,32);b.mac=sub(w,40,4);b.cipher=kx::oid(OBJ_sn2nid(kx::legacy_cipher_sn(r.type)));}
 return true; }
// take a blob apart in the strict standard structure
static void parse(int kind,const Rec&r,const Bytes&der,bool want_key,Pt&E,kx::Blob&b){ kx::Tlv a,t,u;size_t o;
 auto need=[&](bool x,const char*w){REQUIRE(x,"blob is not the standard structure (%s): %s",w,hex(der,400).c_str());};auto point=[&](const Bytes&spki){size_t hl=r.p->c->hl;need(spki.size()>2*hl,"key");E.inf=false;E.x=le(sub(spki,spki.size()-2*hl,hl));E.y=le(sub(spki,spki.size()-hl,hl));};
 need(kx::tlv(der,0,a)&&a.tag==0x30&&a.total()==der.size(),"outer");const Bytes&v=a.val;b=kx::Blob();
 if(kind){b.pskt=true;need(kx::tlv(v,0,t)&&t.tag==4,"export");b.body=t.val;o=t.total();need(kx::tlv(v,o,t)&&t.tag==0x30,"key");b.key=sub(v,o,t.total());o+=t.total();need(kx::tlv(v,o,t)&&t.tag==4&&o+t.total()==v.size(),"ukm");b.ukm=t.val;point(b.key);return;}
 need(kx::tlv(v,0,t)&&t.tag==0x30,"key info");o=t.total();need(kx::tlv(t.val,0,u)&&u.tag==4,"encrypted key");b.body=u.val;size_t q=u.total();need(kx::tlv(t.val,q,u)&&u.tag==4&&q+u.total()==t.val.size(),"mac");b.mac=u.val;
 need(kx::tlv(v,o,t)&&t.tag==0xa0&&o+t.total()==v.size(),"agreement info");need(kx::tlv(t.val,0,u)&&u.tag==6,"cipher");b.cipher=sub(t.val,0,u.total());q=u.total();need(kx::tlv(t.val,q,u),"key");b.has_key=u.tag==0xa0;if(b.has_key){b.key=sub(t.val,q,u.total());b.key[0]=0x30;point(b.key);q+=u.total();need(kx::tlv(t.val,q,u),"ukm");}need(u.tag==4&&q+u.total()==t.val.size(),"ukm");b.ukm=u.val;need(b.has_key==want_key,"presence of the ephemeral key"); }
static const char*KN[]={"CryptoPro","magma","kuznyechik"};
SUB("T01",transport,6000,80000,32){ int kind=s.draw(3);Rec r=gen_rec(s,kind);const Curve&c=*r.p->c;Bytes sk=n32(s);bool sender=s.chance(1,3);N e=gen_scalar(s,c,false);Pt E=mul(c,gen(c),e);nontrivial();
 Bytes ukm;if(s.flip()){ukm=s.bytes(kind?32:8);if(kind==0&&le(ukm).zero())ukm[0]=1;if(kind==0&&mod(le(ukm),c.q).zero())ukm[0]^=1;}
 note("%s %s %s d=%s ukm=%s%s",KN[kind],OBJ_nid2sn(r.type),r.p->sn.c_str(),r.d.str().c_str(),hex(ukm).c_str(),sender?" sender key":"");label(std::string(KN[kind])+(sender?" static":" ephemeral"));label(c.sn());
 PK pub(s.flip()?mk_key(r.type,r.p->nid,nullptr,&r.Q):mk_key(r.type,r.p->nid,&r.d)),prv(mk_key(r.type,r.p->nid,&r.d)),snd(mk_key(r.type,r.p->nid,&e)),sndpub(mk_key(r.type,r.p->nid,nullptr,&E));
 int cn=pick_cipher(s,kind);PC x(EVP_PKEY_CTX_new(pub,eng()));setup(x,true,cn);if(sender)REQUIRE(EVP_PKEY_derive_set_peer(x,snd)==1,"sender key refused: %s",errs().c_str());
 if(!ukm.empty())REQUIRE(EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),ukm.data())==1,"UKM refused: %s",errs().c_str());
 In isk(sk);size_t q=0;REQUIRE(EVP_PKEY_encrypt(x,NULL,&q,isk.p,32)==1,"size query: %s",errs().c_str());REQUIRE(q>0&&q<2000,"announced length %zu",q);
 if(s.chance(1,6)){size_t bad=s.draw(100);if(bad==32)bad=33;Bytes bk=s.bytes(bad);In ib(bk);Buf t(q+80);size_t tl=q+80;REQUIRE(EVP_PKEY_encrypt(x,t.p,&tl,ib.p,bad)<=0,"session key of %zu bytes accepted",bad);ERR_clear_error();}
 if(s.chance(1,8)){size_t sm=s.draw(q);Buf t(sm);size_t tl=sm;int rr=EVP_PKEY_encrypt(x,t.p,&tl,isk.p,32);if(rr==1)REQUIRE(tl<=sm,"blob of %zu bytes in a buffer of %zu",tl,sm);ERR_clear_error();}
 Buf o(q);size_t ol=q;REQUIRE(EVP_PKEY_encrypt(x,o.p,&ol,isk.p,32)==1,"encrypt: %s",errs().c_str());REQUIRE(ol<=q,"blob of %zu bytes, announced %zu",ol,q);Bytes der(o.p,o.p+ol);
 kx::Blob b;Pt F;parse(kind,r,der,kind||!sender,F,b);if(!b.has_key)F=E;REQUIRE(on(c,F)&&!F.inf,"ephemeral key is not on the curve");if(sender)REQUIRE(F==E,"blob carries another sender key");
 REQUIRE(b.ukm.size()==(kind?32u:8u),"UKM of %zu bytes",b.ukm.size());if(!ukm.empty())REQUIRE(b.ukm==ukm,"blob carries another UKM");
 bool ok;kx::Blob want=b;want.key=kx::spki(r.type,*r.p,F);Bytes k=kind?keg(c,r.d,F,b.ukm,c.hl==64,ok):vko(c,r.d,F,b.ukm,kx::legacy_hash(r.type),ok);REQUIRE(ok,"agreement at infinity");
 if(kind)want.body=kexp15(kind==2,k.data()+32,k.data(),sub(b.ukm,24,kind==2?8:4),sk);else{Bytes w=cp_wrap(kx::legacy_set(kx::legacy_cipher_sn(r.type)),true,k.data(),b.ukm.data(),sk.data());want.body=sub(w,8,32);want.mac=sub(w,40,4);want.cipher=kx::oid(OBJ_sn2nid(kx::legacy_cipher_sn(r.type)));}
 REQUIRE(der==want.der(),"blob %s, expected %s",hex(der,400).c_str(),hex(want.der(),400).c_str());
 PC y(EVP_PKEY_CTX_new(prv,eng()));setup(y,false,cn);if(!b.has_key)REQUIRE(EVP_PKEY_derive_set_peer(y,sndpub)==1,"peer");Bytes got;REQUIRE(decrypt(y,der,got,s)==1,"decrypt: %s",errs().c_str());REQUIRE(got==sk,"another session key came out"); }
SUB("T01",receive,8000,100000,32){ // blobs made by the reference sender, several through one context, some altered or for somebody else
 int kind=s.draw(3);Rec r=gen_rec(s,kind);const Curve&c=*r.p->c;PK prv(mk_key(r.type,r.p->nid,&r.d));PC y(EVP_PKEY_CTX_new(prv,eng()));setup(y,false,pick_cipher(s,kind));nontrivial();label(c.sn());size_t n=1+s.draw(3);
 for(size_t i=0;i<n;i++){ N e=gen_scalar(s,c,false);Bytes ukm=s.bytes(kind?32:8),sk=n32(s);kx::Blob b;if(!make(kind,r,e,ukm,sk,b))continue;int alt=s.weighted({4,2,2,2,2,2,1,1});std::string w="valid";bool may=false;
  auto flip=[&](Bytes&v,size_t lo,size_t hi){size_t bit=s.range(lo*8,hi*8-1);v[bit/8]^=1<<bit%8;};Rec o=r;
  switch(alt){case 0:break;case 1:flip(b.body,0,b.body.size());w="encrypted key altered";break;
  case 2:if(kind){size_t k=s.draw(3)==0?b.body.size()-1:b.body.size()-8;flip(b.body,std::min(k,b.body.size()-1),b.body.size());w="mac altered";}else{flip(b.mac,0,4);w="mac altered";}break;
  case 3:{size_t hi=kind==0?8:kind==1?28:32;flip(b.ukm,0,hi);if(kind&&c.hl==64){Bytes a=sub(b.ukm,16,8);if(a!=sub(ukm,16,8))may=true;}if(kind){Bytes a=sub(ukm,0,16),z=sub(b.ukm,0,16);for(auto*v:{&a,&z})if(*v==Bytes(16,0))(*v)[0]=1;if(a==z&&sub(ukm,16,12)==sub(b.ukm,16,12))may=true;/* a zero UKM is replaced by this value */}w="UKM altered";break;}
  case 4:flip(b.key,b.key.size()-2*c.hl,b.key.size());w="ephemeral key altered";break;
  case 5:{N d2=gen_scalar(s,c,false);if(d2==r.d||mod(d2+r.d,c.q).zero())break;o.d=d2;o.Q=mul(c,gen(c),d2);if(!make(kind,o,e,ukm,sk,b))continue;w="for another recipient";break;}
  case 6:if(kind)break;else{const char*sets[]={"id-Gost28147-89-CryptoPro-A-ParamSet","id-Gost28147-89-CryptoPro-B-ParamSet","id-Gost28147-89-CryptoPro-C-ParamSet","id-Gost28147-89-CryptoPro-D-ParamSet","id-Gost28147-89-TestParamSet","id-tc26-gost-28147-param-Z"};const char*t=sets[s.draw(6)];if(!strcmp(t,kx::legacy_cipher_sn(r.type)))break;b.cipher=kx::oid(OBJ_sn2nid(t));if(s.flip()){w="another S-box announced";}else{bool ok;Bytes k=vko(c,e,r.Q,ukm,kx::legacy_hash(r.type),ok);Bytes ww=cp_wrap(kx::legacy_set(t),true,k.data(),ukm.data(),sk.data());b.body=sub(ww,8,32);b.mac=sub(ww,40,4);w="valid";}break;}
  default:{Pt F=mul(c,gen(c),gen_scalar(s,c,false));Pt E=mul(c,gen(c),e);if(F==E||F==neg(c,E))break;b.key=kx::spki(r.type,*r.p,F);w="ephemeral key replaced";}}
  note("%s %s %s %s",KN[kind],OBJ_nid2sn(r.type),r.p->sn.c_str(),w.c_str());label(std::string(KN[kind])+" "+w);Bytes got,der=b.der();int rr=decrypt(y,der,got,s);std::string er=errs();
  if(w=="valid"){REQUIRE(rr==1,"valid blob refused: %s",er.c_str());REQUIRE(got==sk,"another session key came out");}
  else if(!may)REQUIRE(rr!=1,"blob accepted (%s)",w.c_str()); } }
// ---- T02
static Bytes resize(Src&s,Bytes b){ switch(s.draw(6)){case 0:return Bytes();case 1:if(!b.empty())b.pop_back();return b;case 2:b.push_back(s.draw(256));return b;case 3:b.resize(s.draw(b.size()+1));return b;case 4:b.resize(b.size()+s.draw(300));return b;default:return s.bytes(s.draw(2)?s.draw(70):s.draw(600));} }
static Bytes odd_key(Src&s,const Rec&r,std::string&w){ const Ps&p2=gen_ps(s);int t2=s.pick({NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512,NID_id_GostR3410_2001,NID_id_GostR3410_2001DH});Pt Q=mul(*p2.c,gen(*p2.c),N(1+s.draw(50)));const Curve&c=*r.p->c;
 switch(s.draw(9)){case 0:w="key of another set or type";return kx::spki(t2,p2,Q);
 case 1:{w="point off the curve";Bytes o=s.rnd(2*c.hl);return kx::spki_raw(kx::algid(r.type,*r.p),o);}
 case 2:{w="point octets of wrong length";Bytes o=resize(s,s.rnd(2*c.hl));return kx::spki_raw(kx::algid(r.type,*r.p),o);}
 case 3:{w="zero point";return kx::spki_raw(kx::algid(r.type,*r.p),Bytes(s.pick({2*c.hl,(size_t)1,(size_t)2}),0));}
 case 4:{w="bit string without octet string";return kx::spki_raw(kx::algid(r.type,*r.p),s.rnd(s.draw(140)),false);}
 case 5:{w="foreign key algorithm";static const int f[]={NID_X9_62_id_ecPublicKey,NID_rsaEncryption,NID_id_GostR3411_94,NID_id_Gost28147_89,NID_magma_mac,NID_kuznyechik_mac,NID_ED25519,NID_id_Gost28147_89_MAC,NID_gost_mac_12};return kx::spki_raw(der_seq({kx::oid(f[s.draw(9)]),s.flip()?der(5,{}):kx::params_der(r.type,*r.p)}),kx::point_le(c,r.Q));}
 case 6:{w="no or odd parameters";Bytes a;switch(s.draw(5)){case 0:a=der_seq({kx::oid(r.type)});break;case 1:a=der_seq({kx::oid(r.type),der(5,{})});break;case 2:a=der_seq({kx::oid(r.type),kx::oid(r.p->nid)});break;case 3:a=der_seq({kx::oid(r.type),der_seq({kx::oid(s.pick({NID_X9_62_prime256v1,NID_id_GostR3411_94,NID_id_Gost28147_89_CryptoPro_A_ParamSet}))})});break;default:a=der_seq({kx::oid(r.type),der_seq({kx::oid(r.p->nid),s.bytes(s.draw(10))})});}return kx::spki_raw(a,kx::point_le(c,r.Q));}
 case 7:{w="set not matching the type";return kx::spki_raw(der_seq({kx::oid(r.type),der_seq({kx::oid(p2.nid)})}),s.flip()?kx::point_le(*p2.c,Q):kx::point_le(c,r.Q));}
 default:{w="small-order or own key";Pt T=small_point(s,c);if(T.inf)T=r.Q;return kx::spki(r.type,*r.p,T);}} }
static void edit(Src&s,Bytes&b){ size_t n=1+s.draw(4);for(size_t i=0;i<n&&!b.empty();i++)switch(s.draw(5)){case 0:b[s.draw(b.size())]^=1<<s.draw(8);break;case 1:b[s.draw(b.size())]=s.pick({0,1,4,0x30,0x80,0x82,0xa0,0xff,0x7f});break;case 2:b.erase(b.begin()+s.draw(b.size()));break;case 3:b.insert(b.begin()+s.draw(b.size()+1),(uint8_t)s.draw(256));break;default:b.resize(s.draw(b.size()+1));} }
SUB("T02",hostile,14000,300000,64){ int kind=s.draw(3);Rec r=gen_rec(s,kind);const Curve&c=*r.p->c;N e(1+s.draw(9));kx::Blob b;Bytes sk=s.rnd(32);if(!make(kind,r,e,s.rnd(kind?32:8),sk,b))return;std::string w;
 PK prv(mk_key(r.type,r.p->nid,&r.d));if(s.chance(1,15))prv=PK(mk_key(r.type,r.p->nid,nullptr,s.flip()?&r.Q:nullptr)),w="no private key;";int cn=pick_cipher(s,s.chance(1,10)?(int)s.draw(3):kind);if(s.chance(1,20))cn=s.pick({NID_aes_256_ctr,NID_id_Gost28147_89_MAC});
 PC y(EVP_PKEY_CTX_new(prv,eng()));setup(y,false,cn);if(s.chance(1,6)){Bytes u=s.bytes(s.draw(33));EVP_PKEY_CTX_ctrl(y,-1,-1,EVP_PKEY_CTRL_SET_IV,u.size(),u.data());ERR_clear_error();w+="UKM set;";}
 size_t n=1+s.draw(2);for(size_t i=0;i<n;i++)switch(s.draw(7)){case 0:b.body=resize(s,b.body);w+="body;";break;case 1:if(!kind){b.mac=resize(s,b.mac);w+="mac;";}else{b.ukm=resize(s,b.ukm);w+="ukm;";}break;case 2:b.ukm=resize(s,b.ukm);w+="ukm;";break;case 3:case 4:{std::string q;b.key=odd_key(s,r,q);w+=q+";";break;}
  case 5:if(s.flip()){b.has_key=false;w+="no key;";}else{b.has_ukm=false;w+="no ukm;";}break;default:{int m[]={NID_id_GostR3411_94_CryptoProParamSet,NID_id_Gost28147_89_CryptoPro_A_ParamSet,NID_rsaEncryption,NID_magma_ctr,NID_id_Gost28147_89_cc,NID_id_Gost28147_89_CryptoPro_KeyMeshing};b.cipher=kx::oid(m[s.draw(6)]);w+="cipher;";}}
 Bytes d=b.der();if(s.chance(1,3)){edit(s,d);w+="edited;";}if(s.chance(1,12)){kind=s.draw(3);w+="mode;";}if(s.chance(1,15)){d=s.bytes(s.draw(300));w="arbitrary";}
 nontrivial();note("%s %s %s %s",KN[kind],OBJ_nid2sn(r.type),r.p->sn.c_str(),w.c_str());label(w.substr(0,w.find(';')));
 Bytes got;int rr=decrypt(y,d,got,s);ERR_clear_error();label(rr==1?"accepted":"refused"); if(s.chance(1,4)){Src q0=s;long a=0,z=0;for(int i=0;i<3;i++){In in(d);Buf o(32);size_t l=32;EVP_PKEY_decrypt(y,o.p,&l,in.p,in.n);ERR_clear_error();a=z;z=live_allocs();}REQUIRE(z<=a,"each decryption leaves %ld allocations behind",z-a);} (void)c; }
SUB("T02",lengths,4000,60000,64){ // every field of a blob has one right length: the right octets followed or preceded by more, or cut, are refused
 int kind=s.draw(3);Rec r=gen_rec(s,kind);kx::Blob b;Bytes sk=n32(s);if(!make(kind,r,gen_scalar(s,*r.p->c,false),s.rnd(kind?32:8),sk,b))return;nontrivial();std::string w;
 auto alter=[&](Bytes&f,const char*n){w=n;switch(s.draw(3)){case 0:f=cat(f,s.bytes(1+s.draw(40)));w+=" extended";break;case 1:f=cat(s.bytes(1+s.draw(40)),f);w+=" prefixed";break;default:f.resize(s.draw(f.size()));w+=" cut";}};
 switch(s.draw(kind?2:3)){case 0:alter(b.body,"encrypted key");break;case 1:alter(b.ukm,"UKM");break;default:alter(b.mac,"MAC");}
 PK prv(mk_key(r.type,r.p->nid,&r.d));PC y(EVP_PKEY_CTX_new(prv,eng()));setup(y,false,pick_cipher(s,kind));note("%s %s %s",KN[kind],r.p->sn.c_str(),w.c_str());label(std::string(KN[kind])+" "+w);Bytes got;int rr=decrypt(y,b.der(),got,s);ERR_clear_error();REQUIRE(rr!=1,"a blob with its %s was accepted",w.c_str()); }
SUB("T02",valid_after,3000,50000,64){ // a refused blob leaves the context able to open a valid one
 int kind=s.draw(3);Rec r=gen_rec(s,kind);kx::Blob b,h;Bytes sk=n32(s);if(!make(kind,r,N(3+s.draw(50)),s.rnd(kind?32:8),sk,b)||!make(kind,r,N(2+s.draw(50)),s.rnd(kind?32:8),n32(s),h))return;nontrivial();
 PK prv(mk_key(r.type,r.p->nid,&r.d));PC y(EVP_PKEY_CTX_new(prv,eng()));setup(y,false,pick_cipher(s,kind));std::string w;if(s.flip())h.key=odd_key(s,r,w);else if(s.flip())h.body=resize(s,h.body);else h.ukm=resize(s,h.ukm);Bytes hd=h.der();if(s.flip())edit(s,hd);note("%s %s",KN[kind],w.c_str());label(KN[kind]);
 Bytes got;decrypt(y,hd,got,s);ERR_clear_error();REQUIRE(decrypt(y,b.der(),got,s)==1,"valid blob refused after a hostile one: %s",errs().c_str());REQUIRE(got==sk,"another session key came out"); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
