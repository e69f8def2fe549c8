// M01 GOST 28147-89 MAC, M02 OMAC, M03 OMAC-ACPKM, M04 histories of MAC contexts
#include "env.h"
#include "wide.h"
#include <memory>
extern "C" {
#include "gost89.h"
}
using namespace ref;
#define CTRL_SET_KEY (EVP_MD_CTRL_ALG_CTRL+4)
#define EVP_PKEY_CTRL_MAC_LEN   (EVP_PKEY_ALG_CTRL+5)
#define CTRL_GOST_PARAMSET (EVP_PKEY_ALG_CTRL+1)
static pbt::Rule r1("M01","key, parameter set and its spelling, message (lengths 0..3 meshing sections, biased to 8 and 1024), partition, size 1..8, key source drawn; non-trivial: more than one byte");
static pbt::Rule r2("M02","as M01 for OMAC; keys also chosen so that the subkey derivation carries; non-trivial: more than one byte or empty message");
static pbt::Rule r3("M03","as M02 plus section size and master-key frequency; non-trivial: more than one section or length within a block of a section multiple");
static pbt::Rule r4("M04","histories of init/set key/size/TLSTREE/mesh/update/copy/final/reset over four contexts; non-trivial: at least one copy or re-key between updates");
enum Kind{IMIT,IMIT12,MAGMA,KUZN,ACPKM};
static int knid(int k){switch(k){case IMIT:return NID_id_Gost28147_89_MAC;case IMIT12:return NID_gost_mac_12;case MAGMA:return NID_magma_mac;case KUZN:return NID_grasshopper_mac;default:return NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac;}}
static const char*kname(int k){static const char*n[]={"gost-mac","gost-mac-12","magma-mac","kuznyechik-mac","kuznyechik-acpkm-mac"};return n[k];}
static size_t kblk(int k){return k==KUZN||k==ACPKM?16:8;}
static size_t kmax(int k){return kblk(k);}
static size_t kdef(int k){return k<=IMIT12?4:kblk(k);}
struct PS{const char*name,*oid,*sbox;int nid;};
static const PS psets[]={{"id-Gost28147-89-CryptoPro-A-ParamSet","1.2.643.2.2.31.1","Gost28147_CryptoPro_A",NID_id_Gost28147_89_CryptoPro_A_ParamSet},{"id-Gost28147-89-CryptoPro-B-ParamSet","1.2.643.2.2.31.2","B",NID_id_Gost28147_89_CryptoPro_B_ParamSet},{"id-Gost28147-89-CryptoPro-C-ParamSet","1.2.643.2.2.31.3","C",NID_id_Gost28147_89_CryptoPro_C_ParamSet},{"id-Gost28147-89-CryptoPro-D-ParamSet","1.2.643.2.2.31.4","D",NID_id_Gost28147_89_CryptoPro_D_ParamSet},{"id-tc26-gost-28147-param-Z","1.2.643.7.1.2.5.1.1","TC26_Z",NID_id_tc26_gost_28147_param_Z},{"id-Gost28147-89-TestParamSet","1.2.643.2.2.31.0","T",NID_id_Gost28147_89_TestParamSet}};
static int sb(int p){static const char*n[]={"CryptoPro_A","CryptoPro_B","CryptoPro_C","CryptoPro_D","TC26_Z","Gost28147_Test"};static int id[6]={-1,-1,-1,-1,-1,-1};if(id[p]<0){for(int i=0;i<sbox_count();i++)if(!strcmp(sbox_name(i),n[p])||std::string(sbox_name(i))==std::string("Gost28147_")+n[p])id[p]=i;if(id[p]<0)abort();}return id[p];}
struct Model{int kind;Bytes key;int ps;size_t section=4096,T=4096;Bytes data;};
static Bytes mref(const Model&m){switch(m.kind){case IMIT:case IMIT12:return gost89_mac(sb(m.ps),true,m.key.data(),NULL,m.data,8);case ACPKM:return omac_acpkm(m.key.data(),m.section,m.T,m.data);default:{auto c=make_bc(m.kind==KUZN);c->key(m.key.data());return omac(*c,m.data);}}}
struct Md{EVP_MD_CTX*c;Md():c(EVP_MD_CTX_new()){} ~Md(){EVP_MD_CTX_free(c);} Md(const Md&)=delete;operator EVP_MD_CTX*()const{return c;}};
static bool rawset(EVP_MD_CTX*c,int kind,const Bytes&key){return EVP_DigestInit_ex(c,digest(knid(kind)),eng())==1&&EVP_MD_CTX_ctrl(c,CTRL_SET_KEY,key.size(),(void*)key.data())>0;}
static void mesh(EVP_MD_CTX*c,size_t sec,size_t T){int t=T;REQUIRE(EVP_MD_CTX_ctrl(c,EVP_CTRL_KEY_MESH,sec,T?&t:NULL)>0,"KEY_MESH %zu/%zu refused: %s",sec,T,errs().c_str());}
static void feed(Src&s,EVP_MD_CTX*c,const Bytes&d,const std::vector<size_t>&parts,bool sign){size_t o=0;for(size_t n:parts){In in(sub(d,o,n),s.draw(3));int r=sign&&s.flip()?EVP_DigestSignUpdate(c,in.p,n):EVP_DigestUpdate(c,in.p,n);REQUIRE(r==1,"update of %zu failed: %s",n,errs().c_str());o+=n;}}
static std::string hx(const Bytes&k){return tohex(k);}
// a MAC key object from a drawn source
struct PK{EVP_PKEY*p=NULL;size_t size;int ps;~PK(){EVP_PKEY_free(p);}};
static bool printable(Src&s,Bytes&k){for(auto&b:k)b=1+b%255;return true;}
static void mkkey(Src&s,int kind,Bytes&key,PK&o,bool sizes=true){int how=s.draw(4);o.size=kdef(kind);o.ps=kind==IMIT?0:4;
 if(how==0){ o.p=EVP_PKEY_new_mac_key(knid(kind),eng(),key.data(),key.size());REQUIRE(o.p,"new_mac_key: %s",errs().c_str());note("new_mac_key");return;}
 EVP_PKEY_CTX*c=EVP_PKEY_CTX_new_id(knid(kind),eng());REQUIRE(c,"ctx: %s",errs().c_str());REQUIRE(EVP_PKEY_keygen_init(c)==1,"keygen_init");
 auto setk=[&]{if(how==1){REQUIRE(EVP_PKEY_CTX_ctrl(c,-1,EVP_PKEY_OP_KEYGEN,EVP_PKEY_CTRL_SET_MAC_KEY,32,key.data())==1,"SET_MAC_KEY");note("ctrl key");}
  else if(how==2){printable(s,key);std::string v(key.begin(),key.end());REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"key",v.c_str())==1,"key: %s",errs().c_str());note("key string");}
  else{std::string h=hx(key);if(s.flip())for(auto&ch:h)ch=toupper(ch);REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"hexkey",h.c_str())==1,"hexkey: %s",errs().c_str());note("hexkey");}};
 bool first=s.flip();if(first)setk();
 if(sizes&&s.flip()){size_t n=1+s.draw(kmax(kind));o.size=n;if(s.flip())REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"size",std::to_string(n).c_str())==1,"size %zu refused: %s",n,errs().c_str());else REQUIRE(EVP_PKEY_CTX_ctrl(c,-1,-1,EVP_PKEY_CTRL_MAC_LEN,n,NULL)==1,"MAC_LEN %zu refused",n);note("size=%zu",n);}
 if(kind<=IMIT12&&s.flip()){o.ps=s.draw(6);const char*v=s.flip()?psets[o.ps].name:psets[o.ps].oid;REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"paramset",v)==1,"paramset %s: %s",v,errs().c_str());note("paramset=%s",v);}
 if(!first)setk();
 REQUIRE(EVP_PKEY_keygen(c,&o.p)==1,"keygen: %s",errs().c_str());EVP_PKEY_CTX_free(c);}
static Bytes signfinal(Src&s,EVP_MD_CTX*c,size_t size){size_t q=0;if(s.flip()){REQUIRE(EVP_DigestSignFinal(c,NULL,&q)==1&&q==size,"MAC size query says %zu, expected %zu",q,size);}Buf b(size);q=size;REQUIRE(EVP_DigestSignFinal(c,b.p,&q)==1,"DigestSignFinal: %s",errs().c_str());REQUIRE(q==size,"MAC length %zu, expected %zu",q,size);return Bytes(b.p,b.p+q);}
static void chk(const Bytes&g,const Bytes&full,size_t size,const char*w){Bytes e=sub(full,0,size);if(g!=e)pbt::fail("%s: got %s expected %s",w,hex(g).c_str(),hex(e).c_str());}
static void one(Src&s,Model&m,bool&multi){ // compute m.data's MAC over a drawn interface
 Md c;std::vector<size_t> parts=s.split(m.data.size(),{kblk(m.kind),1024});multi=parts.size()>1;
 if(s.flip()){PK k;mkkey(s,m.kind,m.key,k);m.ps=k.ps;EVP_PKEY_CTX*pc=NULL;REQUIRE(EVP_DigestSignInit(c,&pc,digest(knid(m.kind)),eng(),k.p)==1,"DigestSignInit: %s",errs().c_str());size_t size=k.size;
  if(s.chance(1,4)){size=1+s.draw(kmax(m.kind));REQUIRE(EVP_PKEY_CTX_ctrl(pc,-1,-1,EVP_PKEY_CTRL_MAC_LEN,size,NULL)==1,"MAC_LEN");}
  if(m.kind==ACPKM&&m.section)mesh(c,m.section,m.T);feed(s,c,m.data,parts,true);Bytes full=mref(m);chk(signfinal(s,c,size),full,size,"MAC");if(s.chance(1,4))chk(signfinal(s,c,size),full,size,"MAC asked for again");}
 else{m.ps=m.kind==IMIT?0:4;REQUIRE(rawset(c,m.kind,m.key),"init/set key: %s",errs().c_str());if(m.kind==ACPKM&&m.section)mesh(c,m.section,m.T);size_t size=kdef(m.kind);bool early=s.flip(),xof=s.flip();if(xof&&s.flip())size=1+s.draw(kmax(m.kind));if(early&&xof)REQUIRE(EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_XOF_LEN,size,NULL)>0,"XOF_LEN %zu",size);feed(s,c,m.data,parts,false);Bytes full=mref(m);
  if(xof){Buf b(size);REQUIRE(EVP_DigestFinalXOF(c,b.p,size)==1,"FinalXOF %zu: %s",size,errs().c_str());chk(Bytes(b.p,b.p+size),full,size,"MAC (XOF)");}else{Buf b(size);unsigned l=0;REQUIRE(EVP_DigestFinal_ex(c,b.p,&l)==1&&l==size,"Final: %s",errs().c_str());chk(Bytes(b.p,b.p+size),full,size,"MAC");}} }
SUB("M01",imit,16000,300000,256){ Model m;m.kind=s.draw(2);m.key=s.bytes(32);size_t n=s.chance(1,3)?s.draw(3)*1024+s.draw(40)+(s.flip()?1004:0):s.len(120,{8});m.data=s.bytes(n);note("%s len=%zu",kname(m.kind),n);if(n>1)nontrivial();label(n<=8?"up to a block":n>1024?"meshed":"short");bool mu;one(s,m,mu); }
static void wide_mac(Src&s,int kind){ size_t n=wide_len(s);Bytes pre=s.bytes(s.draw(20)),key=s.bytes(32);note("%s %zu bytes after %zu",kname(kind),n,pre.size());nontrivial();
 wide_update(n,pbt::thorough()?240:2,[&](const uint8_t*d,size_t n,size_t chunk){Md c;if(!rawset(c,kind,key)||EVP_DigestUpdate(c,pre.data(),pre.size())!=1)throw 1;for(size_t o=0;o<n;o+=chunk)if(EVP_DigestUpdate(c,d+o,std::min(chunk,n-o))!=1)throw 1;Bytes r(64);unsigned l=0;if(EVP_DigestFinal_ex(c,r.data(),&l)!=1)throw 1;r.resize(l);return r;}); }
SUB("M01",wide_imit,12,16,1,900){ wide_mac(s,s.draw(2)); }
SUB("M02",wide_omac,12,16,1,900){ wide_mac(s,MAGMA+s.draw(2)); }
SUB("M03",wide_acpkm,12,16,1,900){ wide_mac(s,ACPKM); }
// the MAC functions of the block cipher itself: any number of bits
SUB("M01",raw,4000,60000,256){ static const struct{gost_subst_block*b;const char*n;}sets[]={{&Gost28147_CryptoProParamSetA,"CryptoPro_A"},{&Gost28147_CryptoProParamSetB,"CryptoPro_B"},{&Gost28147_CryptoProParamSetC,"CryptoPro_C"},{&Gost28147_CryptoProParamSetD,"CryptoPro_D"},{&Gost28147_TC26ParamSetZ,"TC26_Z"},{&Gost28147_TestParamSet,"Gost28147_Test"}};
 int p=s.draw(6),id=-1;for(int i=0;i<sbox_count();i++)if(!strcmp(sbox_name(i),sets[p].n))id=i;REQUIRE(id>=0,"harness: no table %s",sets[p].n);Bytes key=s.bytes(32),iv=s.bytes(8),d=s.bytes(s.len(80,{8}));int bits=1+s.draw(64);bool useiv=s.flip();size_t nb=(bits+7)/8;note("%s len=%zu bits=%d%s",sets[p].n,d.size(),bits,useiv?" iv":"");if(d.size()>1)nontrivial();label(bits%8?"odd bits":"whole bytes");
 auto c=std::make_unique<gost_ctx>();gost_init(c.get(),sets[p].b);gost_key(c.get(),key.data());In in(d,s.draw(3));Buf out(nb);REQUIRE((useiv?gost_mac_iv(c.get(),bits,iv.data(),in.p,d.size(),out.p):gost_mac(c.get(),bits,in.p,d.size(),out.p))==1,"refused");
 Bytes g(out.p,out.p+nb),w=gost89_mac(id,false,key.data(),useiv?iv.data():NULL,d,nb);if(bits%8)w.back()&=(1<<bits%8)-1;REQUIRE(g==w,"%d bits of the MAC: got %s expected %s",bits,hex(g).c_str(),hex(w).c_str()); }
static Bytes carrykey(Src&s,bool z){ // key whose E(0) has chosen top bits
 auto c=make_bc(z);unsigned want=s.draw(4);Bytes k;for(int i=0;i<16;i++){k=s.rnd(32);c->key(k.data());Bytes l(c->bs(),0);c->enc(l.data(),l.data());if((l[0]>>6)==want)break;}return k;}
static size_t large(Src&s){size_t n=s.pick<size_t>({65536,65536,131072,196608,262144,98304,33000,524288});return n+s.draw(s.flip()?40:40000)-20;}
static void bulk(Src&s,Model&m){bool multi;nontrivial();note("%s len=%zu",kname(m.kind),m.data.size());one(s,m,multi);}
SUB("M01",large_imit,40,800,4){ Model m;m.kind=s.draw(2);m.key=s.bytes(32);m.data=s.bytes(large(s));bulk(s,m); }
SUB("M02",large_omac,40,800,4){ Model m;m.kind=MAGMA+s.draw(2);m.key=s.bytes(32);m.data=s.bytes(large(s));bulk(s,m); }
SUB("M03",large_acpkm,80,1500,4){ Model m;m.kind=ACPKM;m.ps=0;m.key=s.bytes(32);size_t n;if(s.flip()){m.section=s.pick<size_t>({65536,131072,65536+16,32768,98304});m.T=s.flip()?0:16*(3+s.draw(6000));n=m.section*(1+s.draw(3))+s.draw(60000);label("large section");}
 else{m.section=16*(1+s.draw(3));m.T=s.flip()?0:s.pick<size_t>({4096,32768,65536,65536+16,65536-16,48});n=m.section*((m.T?m.T:4096)/48*(1+s.draw(3))+s.draw(20))+s.draw(40);if(n>150000)n=150000;label("large master period");}
 size_t T=m.T;m.data=s.bytes(n);if(!m.T)m.T=4096;note("len=%zu section=%zu T=%zu",n,m.section,T);nontrivial();Bytes full=mref(m);Md c;REQUIRE(rawset(c,ACPKM,m.key),"set key");mesh(c,m.section,T);auto parts=s.split(n,{16,m.section,65536});if(parts.size()>500)parts={n};feed(s,c,m.data,parts,false);Buf b(16);REQUIRE(EVP_DigestFinalXOF(c,b.p,16)==1,"FinalXOF");chk(Bytes(b.p,b.p+16),full,16,"OMAC-ACPKM"); }
SUB("M02",omac,24000,400000,256){ Model m;m.kind=MAGMA+s.draw(2);m.ps=0;m.key=s.flip()?s.bytes(32):carrykey(s,m.kind==KUZN);size_t n=s.chance(1,12)?s.len(5000,{16}):s.len(200,{kblk(m.kind)});m.data=s.bytes(n);note("%s len=%zu",kname(m.kind),n);if(n!=1)nontrivial();label(n==0?"empty":n%kblk(m.kind)?"partial":"whole blocks");bool mu;one(s,m,mu); }
SUB("M03",acpkm,14000,250000,256){ Model m;m.kind=ACPKM;m.ps=0;m.key=s.flip()?s.bytes(32):carrykey(s,true);size_t n;
 if(s.chance(1,6)){m.section=0;n=s.draw(3)*4096+s.draw(80);if(s.flip()&&n>40)n-=40;}
 else{m.section=16*(1+s.draw(s.flip()?4:40));m.T=s.flip()?0:16*(3+s.draw(s.flip()?4:30));n=s.chance(1,2)?m.section*s.draw(7)+s.draw(40):s.len(600,{16,m.section});if(n>=20&&s.flip())n-=s.draw(20);}
 m.data=s.bytes(n);size_t sec=m.section?m.section:4096,T=m.T;note("len=%zu section=%zu T=%zu%s",n,sec,T?T:4096,m.section?"":" default");if(n>sec||n%sec<16||sec-n%sec<16)nontrivial();
 Model q=m;q.section=sec;if(!m.section||!m.T)q.T=4096; // reference values
 Md c;auto parts=s.split(n,{16,sec});bool sign=s.flip();size_t size=16;
 if(sign){PK k;mkkey(s,ACPKM,q.key,k);m.key=q.key;size=k.size;REQUIRE(EVP_DigestSignInit(c,NULL,digest(knid(ACPKM)),eng(),k.p)==1,"DigestSignInit: %s",errs().c_str());}else REQUIRE(rawset(c,ACPKM,m.key),"set key: %s",errs().c_str());
 if(m.section)mesh(c,m.section,m.T);feed(s,c,m.data,parts,sign);Bytes full=mref(q);
 if(sign)chk(signfinal(s,c,size),full,size,"OMAC-ACPKM");else{if(s.flip())size=1+s.draw(16);Buf b(size);REQUIRE(EVP_DigestFinalXOF(c,b.p,size)==1,"FinalXOF");chk(Bytes(b.p,b.p+size),full,size,"OMAC-ACPKM");} }
SUB("M03",settings,2500,20000,128){ // section and frequency settings that cannot be honoured are refused and change nothing
 Model m;m.kind=ACPKM;m.ps=0;m.key=s.bytes(32);m.section=16*(1+s.draw(8));m.T=16*(3+s.draw(8));m.data=s.bytes(s.len(400,{16}));nontrivial();Md c;bool keyed=s.chance(3,4);
 int bad=s.pick({0,-16,8,1,15,17,-1,24,(int)m.section+1});note("mesh %d %s",bad,keyed?"":"before the key");
 if(!keyed){REQUIRE(EVP_DigestInit_ex(c,digest(knid(ACPKM)),eng())==1,"init");int t=96;REQUIRE(EVP_MD_CTX_ctrl(c,EVP_CTRL_KEY_MESH,s.flip()?bad:32,s.flip()?&t:NULL)<=0,"section setting accepted without a key");ERR_clear_error();}
 REQUIRE(rawset(c,ACPKM,m.key),"set key");mesh(c,m.section,m.T);
 if(s.flip())REQUIRE(EVP_MD_CTX_ctrl(c,EVP_CTRL_KEY_MESH,bad,NULL)<=0,"section size %d accepted",bad);
 else{int t=s.pick({-16,8,1,-1,24});note("T*=%d",t);REQUIRE(EVP_MD_CTX_ctrl(c,EVP_CTRL_KEY_MESH,m.section,&t)<=0,"master-key frequency %d accepted",t);}
 ERR_clear_error();feed(s,c,m.data,{m.data.size()},false);Buf b(16);unsigned l;REQUIRE(EVP_DigestFinal_ex(c,b.p,&l)==1,"final");chk(Bytes(b.p,b.p+16),mref(m),16,"MAC after a refused setting"); }
// ---- M04
static uint64_t gen_seq(Src&s){ switch(s.draw(5)){case 0:return s.draw(5);case 1:{uint64_t b=1ull<<s.draw(64);return b-s.draw(3);}case 2:{static const int p[]={6,12,19,30,38,32,16,24,58,35,42};uint64_t b=(s.draw(0)>>s.draw(40))<<p[s.draw(11)];return b-s.draw(2);}case 3:return s.draw(0)|0xff;default:return s.draw(0)>>s.draw(64);} }
struct Slot{EVP_MD_CTX*c=NULL;bool keyed=false,sign=false;size_t size=0;Model m;Bytes orig;int last=-1;};
static void finalcheck(Src&s,Slot&x){Bytes full=mref(x.m);
 if(x.sign){chk(signfinal(s,x.c,x.size),full,x.size,"MAC (key object)");return;}
 Md d;REQUIRE(EVP_MD_CTX_copy_ex(d,x.c)==1,"copy: %s",errs().c_str());size_t n=x.size;Buf b(n);if(s.flip()){REQUIRE(EVP_DigestFinalXOF(d,b.p,n)==1,"FinalXOF");chk(Bytes(b.p,b.p+n),full,n,"MAC of a copy");}
 else if(n==kdef(x.m.kind)){unsigned l;REQUIRE(EVP_DigestFinal_ex(d,b.p,&l)==1,"Final");chk(Bytes(b.p,b.p+n),full,n,"MAC of a copy");} }
SUB("M04",histories,14000,250000,128,60){ Slot x[4];for(auto&q:x)q.c=EVP_MD_CTX_new();size_t ops=2+s.draw(14);bool nt=false;
 for(size_t i=0;i<ops;i++){Slot&a=x[s.draw(4)];int n=&a-x;switch(s.weighted({6,8,3,3,2,2,1,1})){
  case 0:{ // (re-)initialise with a key, raw or through a key object
   if(a.keyed)nt=true;int kind=s.draw(5);bool swap=kind!=a.last;a.last=kind; /* OpenSSL needs a reset between different MACs (FLAG_NO_INIT) */Bytes key=s.bytes(32);a.m=Model();a.m.kind=kind;a.m.key=key;a.m.ps=kind==IMIT?0:4;a.size=kdef(kind);
   if(s.flip()){if(swap||a.sign||s.chance(1,4))EVP_MD_CTX_reset(a.c);note("%d: raw %s",n,kname(kind));REQUIRE(rawset(a.c,kind,key),"init/set key: %s",errs().c_str());a.sign=false;if(s.chance(1,3)){a.size=1+s.draw(kmax(kind));REQUIRE(EVP_MD_CTX_ctrl(a.c,EVP_MD_CTRL_XOF_LEN,a.size,NULL)>0,"XOF_LEN");}}
   else{EVP_MD_CTX_reset(a.c); /* EVP_DigestSignInit keeps the old key of a context that was not reset */ PK k;note("%d: sign %s",n,kname(kind));mkkey(s,kind,a.m.key,k);a.m.ps=k.ps;a.size=k.size;REQUIRE(EVP_DigestSignInit(a.c,NULL,digest(knid(kind)),eng(),k.p)==1,"DigestSignInit: %s",errs().c_str());a.sign=true;}
   a.orig=a.m.key;a.keyed=true;break;}
  case 1:{if(!a.keyed)break;size_t l=s.len(90,{8,16});Bytes d=s.bytes(l);note("%d: update %zu",n,l);feed(s,a.c,d,{l},a.sign);a.m.data=cat(a.m.data,d);break;}
  case 2:{if(!a.keyed)break;Slot&b=x[s.draw(4)];if(&a==&b)break;note("%d: copy to %d",n,(int)(&b-x));nt=true;REQUIRE(EVP_MD_CTX_copy_ex(b.c,a.c)==1,"copy: %s",errs().c_str());EVP_MD_CTX*k=b.c;b=a;b.c=k;break;}
  case 3:{if(!a.keyed)break;note("%d: check",n);finalcheck(s,a);break;}
  case 4:{ // TLS key tree: select a record key, from the key originally set
   if(!a.keyed||(a.m.kind!=MAGMA&&a.m.kind!=KUZN))break;uint64_t seq=gen_seq(s);Bytes q(8);for(int j=0;j<8;j++)q[j]=seq>>(56-8*j);note("%d: tlstree %llx",n,(unsigned long long)seq);REQUIRE(EVP_MD_CTX_ctrl(a.c,EVP_MD_CTRL_TLSTREE,0,q.data())>0,"TLSTREE: %s",errs().c_str());a.m.key=tlstree(a.m.kind==KUZN,a.orig.data(),seq);a.m.data.clear();nt=true;break;}
  case 5:{if(!a.keyed||a.m.kind!=ACPKM||a.m.data.size())break;a.m.section=16*(1+s.draw(6));a.m.T=16*(3+s.draw(6));note("%d: mesh %zu/%zu",n,a.m.section,a.m.T);mesh(a.c,a.m.section,a.m.T);break;}
  case 6:{note("%d: reset",n);EVP_MD_CTX_reset(a.c);a.keyed=a.sign=false;break;}
  case 7:{if(!a.keyed||a.sign)break;note("%d: final",n);Bytes full=mref(a.m);Buf b(a.size);REQUIRE(EVP_DigestFinalXOF(a.c,b.p,a.size)==1,"final: %s",errs().c_str());chk(Bytes(b.p,b.p+a.size),full,a.size,"MAC");a.keyed=false;break;} } }
 for(auto&a:x)if(a.keyed)finalcheck(s,a);
 for(auto&a:x)EVP_MD_CTX_free(a.c);if(nt)nontrivial(); }
SUB("M04",refusals,6000,60000,128){ int kind=s.draw(5);nontrivial();Bytes key=s.bytes(32);uint8_t o[64];unsigned l;int what=s.draw(7);note("%s refusal %d",kname(kind),what);Md c;
 if(what==0){ // no key
  REQUIRE(EVP_DigestInit_ex(c,digest(knid(kind)),eng())==1,"init");if(s.flip()){Md d;REQUIRE(EVP_MD_CTX_copy_ex(d,c)==1,"copy without key: %s",errs().c_str());}if(s.flip())REQUIRE(EVP_DigestUpdate(c,o,5)<=0,"update without key accepted");else REQUIRE(EVP_DigestFinal_ex(c,o,&l)<=0,"final without key accepted");ERR_clear_error();
  if(kind==MAGMA||kind==KUZN){Bytes q(8,0);REQUIRE(EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_TLSTREE,0,q.data())<=0,"TLSTREE without key accepted");ERR_clear_error();}
  REQUIRE(rawset(c,kind,key),"set key afterwards: %s",errs().c_str());Model m;m.kind=kind;m.key=key;m.ps=kind==IMIT?0:4;m.data=s.bytes(s.len(40,{8,16}));feed(s,c,m.data,{m.data.size()},false);REQUIRE(EVP_DigestFinal_ex(c,o,&l)==1,"final");chk(Bytes(o,o+l),mref(m),kdef(kind),"MAC"); }
 else if(what==1){ // wrong raw key length
  REQUIRE(EVP_DigestInit_ex(c,digest(knid(kind)),eng())==1,"init");bool before=s.flip();if(before){REQUIRE(rawset(c,kind,key),"key");feed(s,c,key,{9},false);}int bad=s.pick({31,33,16,64,1,-1});Bytes k(64,1);REQUIRE(EVP_MD_CTX_ctrl(c,CTRL_SET_KEY,bad,k.data())<=0,"key of %d bytes accepted",bad);ERR_clear_error();REQUIRE(EVP_DigestUpdate(c,o,5)<=0||EVP_DigestFinal_ex(c,o,&l)<=0,"MAC computed after setting the key was refused%s",before?" (context had a key before)":"");ERR_clear_error(); }
 else if(what==2){ // sizes
  REQUIRE(rawset(c,kind,key),"key");int bad=s.pick({0,-1,(int)kmax(kind)+1,17,1000});if(s.flip())REQUIRE(EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_XOF_LEN,bad,NULL)<=0,"size %d accepted",bad);else{Buf b(bad>0?bad:0);REQUIRE(EVP_DigestFinalXOF(c,b.p,bad<0?0:bad)<=0,"size %d accepted",bad);}ERR_clear_error(); }
 else if(what==6){ // a finished MAC gives nothing more, and can be keyed again
  REQUIRE(rawset(c,kind,key),"key");feed(s,c,key,{20},false);REQUIRE(EVP_DigestFinal_ex(c,o,&l)==1,"final");for(int i=1+s.draw(3);i>0;i--){int op=s.draw(5);note("finished: %d",op);switch(op){case 0:REQUIRE(EVP_DigestFinal_ex(c,o,&l)<=0,"a second MAC from a finished context");break;case 1:REQUIRE(EVP_DigestUpdate(c,o,5)<=0,"data added to a finished MAC");break;case 2:EVP_MD_CTX_ctrl(c,EVP_MD_CTRL_XOF_LEN,1+s.draw(20),NULL);break;case 3:{Md d;EVP_MD_CTX_copy_ex(d,c);break;}default:{Bytes q(8,1);int m=s.flip()?EVP_MD_CTRL_TLSTREE:EVP_CTRL_KEY_MESH;EVP_MD_CTX_ctrl(c,m,16,q.data());}}ERR_clear_error();}
  EVP_MD_CTX_reset(c);REQUIRE(rawset(c,kind,key),"key again: %s",errs().c_str());Model m;m.kind=kind;m.key=key;m.ps=kind==IMIT?0:4;m.data=s.bytes(20);feed(s,c,m.data,{20},false);REQUIRE(EVP_DigestFinal_ex(c,o,&l)==1,"final");chk(Bytes(o,o+l),mref(m),kdef(kind),"MAC of a context keyed again"); }
 else if(what==5){ // wrong key length in new_mac_key
  size_t bad=s.pick(std::vector<size_t>{0,31,33,16,64});Bytes k(64,7);EVP_PKEY*p=EVP_PKEY_new_mac_key(knid(kind),eng(),k.data(),bad);ERR_clear_error();if(p)EVP_PKEY_free(p);REQUIRE(!p,"MAC key of %zu bytes accepted",bad); }
 else{ EVP_PKEY_CTX*pc=EVP_PKEY_CTX_new_id(knid(kind),eng());REQUIRE(EVP_PKEY_keygen_init(pc)==1,"init");std::string h=hx(key);REQUIRE(EVP_PKEY_CTX_ctrl_str(pc,"hexkey",h.c_str())==1,"hexkey");size_t good=1+s.draw(kmax(kind));REQUIRE(EVP_PKEY_CTX_ctrl(pc,-1,-1,EVP_PKEY_CTRL_MAC_LEN,good,NULL)==1,"size");
  std::string n,v;switch(s.draw(7)){case 0:n="key";v=std::string(s.pick({0,31,33,64}),'a');break;case 1:n="hexkey";v=s.pick<std::string>({h.substr(2),h+"00","",h.substr(1),"zz"+h.substr(2)});break;case 2:n="size";v=s.pick<std::string>({"0","-1","99",std::to_string(kmax(kind)+1),"4x","x",""," "});break;case 3:if(kind>IMIT12){n="nonsense";v="1";break;}n="paramset";v=s.pick<std::string>({"","nonsense","1.2.3","id-GostR3410-2001-TestParamSet","1.2.643.2.2.31.9","9.9.9"});break;case 4:n="nonsense";v="1";break;case 5:n="hexkey";v=h;v[s.draw(64)]=s.pick({'g',' ','-','\x80','/'});break;default:n="size";v=s.pick<std::string>({"4294967300","18446744073709551620","4 "});}
  note("%s=%s",n.c_str(),v.c_str());int r=EVP_PKEY_CTX_ctrl_str(pc,n.c_str(),v.c_str());ERR_clear_error();
  REQUIRE(r<=0,"invalid %s '%s' accepted",n.c_str(),v.c_str());EVP_PKEY*p=NULL;REQUIRE(EVP_PKEY_keygen(pc,&p)==1,"keygen after refused control");EVP_PKEY_CTX_free(pc);REQUIRE(EVP_DigestSignInit(c,NULL,digest(knid(kind)),eng(),p)==1,"sign init");EVP_PKEY_free(p);Model m;m.kind=kind;m.key=key;m.ps=kind==IMIT?0:4;m.data=s.bytes(20);feed(s,c,m.data,{20},true);chk(signfinal(s,c,good),mref(m),good,"MAC after a refused control"); } }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
