// Z01 erasure: memory released through OpenSSL's allocator holds no key material
#include "kx.h"
#include "ciphers.h"
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/hmac.h>
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <algorithm>
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
using namespace ref; using namespace ec;
static pbt::Rule r1("Z01","keys of every kind (cipher, MAC, signature and agreement keys, session keys, one-time signature secrets, derived keys) drawn at random, used through drawn sequences of operations, contexts copied, re-keyed, abandoned and released; every block released is searched for them; non-trivial: memory was released while being watched and a secret was in use");
static pbt::Assume a2("Z01","OpenSSL's EVP_MD_CTX_copy_ex releases the state of the source when the signing context of a MAC cannot be duplicated; the allocations of that duplication do not fail; a masked key cut short inside is released by OpenSSL's decoder");
static pbt::Assume a1("Z01","memory is released through OpenSSL's allocator; the stack is not examined; what OpenSSL releases outside functions of the engine is its own affair");
// --- watching: only releases made while a function of the engine is on the stack (the library is compiled with -finstrument-functions)
static thread_local int depth; extern "C" void __cyg_profile_func_enter(void*,void*);
// a masked key cut short is released by the ASN.1 decoder before the engine sees it
static void*decoder=dlsym(RTLD_DEFAULT,"d2i_MASKED_GOST_KEY"); static thread_local int decoding;
extern "C" void __cyg_profile_func_enter(void*f,void*){depth++;if(decoder&&f==decoder)decoding++;} extern "C" void __cyg_profile_func_exit(void*f,void*){depth--;if(decoder&&f==decoder)decoding--;}
static bool in_md_copy(){ void*a[64];int n=backtrace(a,64);bool c=false,k=false;for(int i=0;i<n;i++){Dl_info d;if(dladdr(a[i],&d)&&d.dli_sname){c|=!strcmp(d.dli_sname,"EVP_MD_CTX_copy_ex");k|=!strcmp(d.dli_sname,"EVP_PKEY_CTX_dup");}}return c&&k; }
static long fault_at=-1; static bool adeny(const char*){ if(fault_at<0||depth<=0)return false;if(fault_at==0&&in_md_copy())return false;return fault_at--==0; }
static void faults(Src&s){ fault_at=-1;deny_hooks(adeny,NULL);if(s.chance(1,4)){fault_at=s.draw(30);note("fault %ld",fault_at);} }
struct Sec{std::string name;std::vector<uint64_t>n;};
static std::vector<Sec>secs; static bool watching,everywhere; static std::string hit; static size_t freed;
static void secret(const char*name,const Bytes&b){ Sec s;s.name=name;for(int rev=0;rev<2;rev++){Bytes v=b;if(rev)std::reverse(v.begin(),v.end());for(size_t i=0;i+8<=v.size();i+=8){uint64_t x;memcpy(&x,&v[i],8);s.n.push_back(x);}}secs.push_back(s); }
static void look(const void*p,size_t n,const char*f,int l){ if(!watching||(depth<=0&&!everywhere)||decoding)return;freed++;if(n<8)return;const uint8_t*q=(const uint8_t*)p;
 static uint64_t bloom[1024];memset(bloom,0,sizeof bloom);for(auto&s:secs)for(uint64_t x:s.n)bloom[(x&0xffff)>>6]|=1ull<<(x&63);
 for(size_t i=0;i+8<=n;i++){uint64_t x;memcpy(&x,q+i,8);if(!(bloom[(x&0xffff)>>6]>>(x&63)&1))continue;for(auto&s:secs)for(uint64_t y:s.n)if(x==y){watching=false;const char*b=f?strrchr(f,'/'):NULL;if(hit.empty()||getenv("VERIF_ZERO"))hit=s.name+" in a block of "+std::to_string(n)+" bytes released at "+(f?(b?b+1:f):"?")+":"+std::to_string(l);if(const char*z=getenv("VERIF_ZERO")){FILE*o=fopen(z,"a");fprintf(o,"RESIDUE %s",hit.c_str());void*bt[30];int n=backtrace(bt,30);char**sy=backtrace_symbols(bt,n);for(int i=3;i<n&&i<9;i++){char*a=strchr(sy[i],'(');char*e=a?strpbrk(a,"+)"):0;if(a&&e){*e=0;fprintf(o," < %s",a+1);}}fputs("\n",o);fclose(o);free(sy);}watching=true;return;}} }
struct Watch{Watch(bool all=false){everywhere=all;on_free(look);watching=true;freed=0;hit.clear();}~Watch(){watching=false;}};
static unsigned made;
struct Case{Case(){made=0;secs.clear();hit.clear();watching=false;on_free(look);}~Case(){watching=false;secs.clear();}};
static void judge(const char*what){ watching=false;if(freed)nontrivial();if(!hit.empty()&&!getenv("VERIF_ZERO")){std::string h=hit;hit.clear();pbt::fail("%s: %s",what,h.c_str());} }
static Bytes sr(Src&s,size_t n){Bytes k=s.rnd(n);made++;for(size_t i=0;i<n;i++)k[i]^=pbt::mix(made*1000003ull+i);return k;} // never a plain pattern, also after shrinking
static Bytes k32(Src&s,const char*n){Bytes k=sr(s,32);secret(n,k);return k;}
static void sections(bool kz,const Bytes&key){ auto c=make_bc(kz);Bytes k=key;for(int i=0;i<4;i++){c->key(k.data());Bytes d(32);for(int j=0;j<32;j++)d[j]=0x80+j;for(size_t j=0;j<32;j+=c->bs())c->enc(&d[j],&d[j]);k=d;secret("section key",k);} }
static bool has(const char*n,const char*x){return strstr(n,x)!=NULL;}
static const char*CN[]={"gost89","gost89-cbc","gost89-cnt","gost89-cnt-12","magma-ecb","magma-cbc","magma-ctr","magma-ctr-acpkm","magma-ctr-acpkm-omac","magma-mgm","kuznyechik-ecb","kuznyechik-cbc","kuznyechik-cfb","kuznyechik-ofb","kuznyechik-ctr","kuznyechik-ctr-acpkm","kuznyechik-ctr-acpkm-omac","kuznyechik-mgm"};
static const int MN[]={NID_id_Gost28147_89_MAC,NID_gost_mac_12,NID_magma_mac,NID_grasshopper_mac};
static int mac_nid(Src&s){ static std::vector<int>v;if(v.empty()){v.assign(MN,MN+4);for(const char*n:{"magma-ctr-acpkm-omac","kuznyechik-ctr-acpkm-omac"}){int i=OBJ_sn2nid(n);if(i&&ENGINE_get_digest(eng(),i))v.push_back(i);}ERR_clear_error();}return v[s.draw(v.size())]; }
SUB("Z01",ciphers,6000,60000,64){ Case cs;EVP_CIPHER_CTX*c[2]={EVP_CIPHER_CTX_new(),NULL};bool live[2]={false,false};int id[2]={-1,-1};size_t n=2+s.draw(8);Buf o(5000);int l;
 {Watch w(true);faults(s);for(size_t i=0;i<n;i++){size_t j=s.draw(2);if(!c[j])c[j]=EVP_CIPHER_CTX_new();switch(s.weighted({3,4,1,1,2,1,1,1})){
  case 0:{if(id[j]<0||s.chance(1,3)){id[j]=s.draw(18);note("c%zu=%s",j,CN[id[j]]);EVP_CIPHER_CTX_reset(c[j]);}else note("c%zu rekeyed",j);label(CN[id[j]]);Bytes key=k32(s,"cipher key"),iv=s.rnd(16);iv[0]&=0x7f;bool kz=has(CN[id[j]],"kuzn");Bytes base=key;
   if(has(CN[id[j]],"omac")){Bytes seed=s.rnd(8);const char*lb="kdf tree";Bytes ks=kdf_tree(key,Bytes(lb,lb+8),seed,64,1);secret("derived key",ks);base=sub(ks,0,32);rand_script(seed);}
   if(has(CN[id[j]],"acpkm"))sections(kz,base);live[j]=EVP_CipherInit_ex(c[j],cipher(nid_of(CN[id[j]])),eng(),key.data(),iv.data(),s.flip())==1;OPENSSL_cleanse(key.data(),32);break;}
  case 1:if(live[j]){Bytes d=s.rnd(s.pick<size_t>({5,16,64,1100,4200}));note("update %zu",d.size());EVP_CipherUpdate(c[j],o.p,&l,d.data(),d.size());}break;
  case 2:if(live[j]){note("final");EVP_CipherFinal_ex(c[j],o.p,&l);}break;
  case 3:note("reset");EVP_CIPHER_CTX_reset(c[j]);live[j]=false;id[j]=-1;break;
  case 4:if(live[j]){size_t q=1-j;note("copy c%zu->c%zu",j,q);if(!c[q])c[q]=EVP_CIPHER_CTX_new();long fa=fault_at;fault_at=-1;/* OpenSSL forgets the cipher of a failed copy, and so to erase it */int ok=EVP_CIPHER_CTX_copy(c[q],c[j]);fault_at=fa;if(ok==1){live[q]=true;id[q]=id[j];}else{EVP_CIPHER_CTX_free(c[q]);c[q]=NULL;live[q]=false;id[q]=-1;}}break;
  case 5:if(live[j]){note("section");EVP_CIPHER_CTX_ctrl(c[j],EVP_CTRL_KEY_MESH,s.pick({64,256,1,0}),NULL);}break;
  case 6:if(live[j]&&(has(CN[id[j]],"ctr")&&!has(CN[id[j]],"acpkm"))){Bytes root=k32(s,"root key"),seq=s.rnd(8);uint64_t q=0;for(int z=0;z<8;z++)q=q<<8|seq[z];secret("record key",tlstree(has(CN[id[j]],"kuzn"),root.data(),q));note("tlstree");Bytes iv=s.rnd(16);if(EVP_CipherInit_ex(c[j],NULL,NULL,root.data(),iv.data(),1)==1)EVP_CIPHER_CTX_ctrl(c[j],EVP_CTRL_TLSTREE,0,seq.data());}break;
  default:note("free");EVP_CIPHER_CTX_free(c[j]);c[j]=NULL;live[j]=false;id[j]=-1;}}
  fault_at=-1;for(auto x:c)EVP_CIPHER_CTX_free(x);}
 ERR_clear_error();judge("cipher contexts"); }
SUB("Z01",macs,6000,60000,64){ Case cs;EVP_MD_CTX*c[2]={NULL,NULL};bool live[2]={false,false};size_t n=2+s.draw(8);Buf o(200);unsigned l;
 {Watch w(true);faults(s);for(size_t i=0;i<n;i++){size_t j=s.draw(2);if(!c[j])c[j]=EVP_MD_CTX_new();switch(s.weighted({3,3,1,1,2,1})){
  case 0:{int m=mac_nid(s);note("c%zu=%s",j,OBJ_nid2sn(m));label(OBJ_nid2sn(m));EVP_MD_CTX_reset(c[j]);if(EVP_DigestInit_ex(c[j],digest(m),eng())!=1)break;Bytes key=k32(s,"MAC key");int r;if(s.flip())r=EVP_MD_meth_get_ctrl(EVP_MD_CTX_get0_md(c[j]))(c[j],EVP_MD_CTRL_SET_KEY,32,key.data());else{gost_mac_key mk;memset(&mk,0,sizeof mk);memcpy(mk.key,key.data(),32);r=EVP_MD_meth_get_ctrl(EVP_MD_CTX_get0_md(c[j]))(c[j],EVP_MD_CTRL_SET_KEY,0,&mk);OPENSSL_cleanse(&mk,sizeof mk);}if(m!=MN[0]&&m!=MN[1]&&m!=MN[2]&&m!=MN[3]&&EVP_MD_CTX_get0_md(c[j])){secret("section key",acpkm_master(key.data(),4096,96));}OPENSSL_cleanse(key.data(),32);live[j]=r>0;break;}
  case 1:if(live[j]){Bytes d=s.rnd(s.pick<size_t>({5,16,64,1100,4200}));note("update %zu",d.size());EVP_DigestUpdate(c[j],d.data(),d.size());}break;
  case 2:if(live[j]){note("final");EVP_DigestFinal_ex(c[j],o.p,&l);live[j]=false;}break;
  case 3:note("reset");EVP_MD_CTX_reset(c[j]);live[j]=false;break;
  case 4:if(live[j]){size_t q=1-j;note("copy");if(!c[q])c[q]=EVP_MD_CTX_new();if(EVP_MD_CTX_copy_ex(c[q],c[j])==1)live[q]=true;else{EVP_MD_CTX_free(c[q]);c[q]=NULL;live[q]=false;}}break;
  default:note("free");EVP_MD_CTX_free(c[j]);c[j]=NULL;live[j]=false;}}
  fault_at=-1;for(auto x:c)EVP_MD_CTX_free(x);}
 ERR_clear_error();judge("MAC contexts"); }
SUB("Z01",mac_keys,5000,40000,64){ Case cs;int m=MN[s.draw(4)];Bytes key=k32(s,"MAC key");note("%s",OBJ_nid2sn(m));label(OBJ_nid2sn(m));EVP_PKEY*k=NULL,*k2=NULL;
 {Watch w;faults(s);int how=s.draw(4);note("by %d",how);if(how==0){In in(key);k=EVP_PKEY_new_mac_key(m,eng(),in.p,32);}
  else{EVP_PKEY_CTX*x=EVP_PKEY_CTX_new_id(m,eng());if(x)EVP_PKEY_keygen_init(x);if(x)switch(how){case 1:{In in(key);EVP_PKEY_CTX_ctrl(x,-1,EVP_PKEY_OP_KEYGEN,EVP_PKEY_CTRL_SET_MAC_KEY,32,in.p);break;}case 2:{bool asc=true;for(uint8_t&b:key)if(b==0)b=1;secret("MAC key",key);std::string t(key.begin(),key.end());EVP_PKEY_CTX_ctrl_str(x,"key",t.c_str());OPENSSL_cleanse(&t[0],t.size());(void)asc;break;}default:{std::string t=tohex(key);EVP_PKEY_CTX_ctrl_str(x,"hexkey",t.c_str());}}
   if(x&&s.chance(3,4))EVP_PKEY_keygen(x,&k);EVP_PKEY_CTX_free(x);}
  if(k){size_t n=s.draw(4);for(size_t i=0;i<n;i++){EVP_MD_CTX*c=EVP_MD_CTX_new();Buf o(64);size_t l=64;if(EVP_DigestSignInit(c,NULL,digest(m),eng(),k)==1){Bytes d=s.rnd(s.draw(100));EVP_DigestSignUpdate(c,d.data(),d.size());EVP_MD_CTX*c2=NULL;if(s.flip()){c2=EVP_MD_CTX_new();EVP_MD_CTX_copy_ex(c2,c);}if(s.flip())EVP_DigestSignFinal(c,o.p,&l);EVP_MD_CTX_free(c2);}EVP_MD_CTX_free(c);}
   if(s.flip()){size_t l=0;Buf o(32);l=32;EVP_PKEY_get_raw_private_key(k,o.p,&l);}
   if(s.flip())k2=EVP_PKEY_dup(k);}
  fault_at=-1;EVP_PKEY_free(k);EVP_PKEY_free(k2);}
 ERR_clear_error();judge("MAC keys"); }
static Bytes p8(int type,const Ps&p,const Bytes&key){return der_seq({der_int(Bytes(1,0)),kx::algid(type,p),der_octet(key)});}
struct FmtGuard{~FmtGuard(){ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","",0);}};
SUB("Z01",keys,8000,40000,64){ Case cs;const Ps&p=params()[s.draw(params().size())];int t=gen_type(s,p);const Curve&c=*p.c;N d=mod(le(sr(s,c.hl)),c.q);EVP_PKEY*k=NULL;int how=s.draw(7);note("%s %s by %d",OBJ_nid2sn(t),p.sn.c_str(),how);label(OBJ_nid2sn(t));FmtGuard fg;
 if(how)secret("private key",tole(d,c.hl));
 if(how==0){Bytes r=sr(s,c.hl);r[0]&=0x1f;secret("private key",r);rand_script(r);}
 Bytes v=tole(d,c.hl);Bytes enc=how==2?der_octet(v):how==3?der_int(tobe(d,c.hl)):v;
 if(how==4){N m=mod(le(sr(s,c.hl)),c.q);secret("mask",tole(m,c.hl));N x=mulmod(d,m,c.q);secret("masked key",tole(x,c.hl));secs.pop_back();enc=cat(tole(x,c.hl),tole(inv(m,c.q),c.hl));}
 if(how==6){N m=mod(le(sr(s,c.hl)),c.q);secret("mask",tole(m,c.hl));N x=mulmod(d,m,c.q);secret("masked key",tole(x,c.hl));Bytes pub=kx::point_le(c,mul(c,gen(c),d));enc=der_seq({der_octet(cat(tole(x,c.hl),tole(inv(m,c.q),c.hl))),der_octet(pub)});secret("mask",tole(inv(m,c.q),c.hl));}
 if(how>1&&how!=4&&s.chance(1,6)){enc.resize(enc.size()-1-s.draw(3));if(s.flip()&&how<4)enc[1]=enc.size()-2;note("cut");}
 if(s.flip())ENGINE_ctrl_cmd_string(eng(),"GOST_PK_FORMAT","LEGACY_PK_WRAP",0);
 N dd=d;Pt Q=how==5?mul(c,gen(c),d):Pt();EVP_PKEY*made=how==5?mk_key(t,p.nid,&d):NULL;Bytes der=p8(t,p,enc);
 {Watch w;faults(s);if(how==0){EVP_PKEY_CTX*x=EVP_PKEY_CTX_new_id(t,eng());EVP_PKEY_keygen_init(x);EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_GOST_PARAMSET,p.nid,NULL);if(x)EVP_PKEY_keygen(x,&k);EVP_PKEY_CTX_free(x);}
  else if(how==5)k=made;else{In in(der);const uint8_t*q=in.p;PKCS8_PRIV_KEY_INFO*i=d2i_PKCS8_PRIV_KEY_INFO(NULL,&q,in.n);if(i)k=EVP_PKCS82PKEY(i);PKCS8_PRIV_KEY_INFO_free(i);}
  if(k){size_t n=s.draw(4);for(size_t i=0;i<n;i++){int op=s.draw(6);note("op%d",op);switch(op){
   case 0:{PKCS8_PRIV_KEY_INFO*i8=EVP_PKEY2PKCS8(k);PKCS8_PRIV_KEY_INFO_free(i8);break;}
   case 1:{BIO*b=BIO_new(BIO_s_null());if(b)EVP_PKEY_print_private(b,k,0,NULL);BIO_free(b);break;}
   case 2:{EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(k,eng());EVP_PKEY_CTX*y=NULL;if(x&&EVP_PKEY_sign_init(x)==1){Bytes h=sr(s,c.hl),r=sr(s,c.hl);r[0]&=0x1f;if(c.hl==32&&0)r[0]=0;secret("one-time signature key",r);rand_script(r);Buf o(128);size_t l=128;if(s.chance(1,4))y=EVP_PKEY_CTX_dup(x);EVP_PKEY_sign(x,o.p,&l,h.data(),c.hl);}EVP_PKEY_CTX_free(x);EVP_PKEY_CTX_free(y);break;}
   case 3:{EVP_PKEY*e=EVP_PKEY_dup(k);EVP_PKEY_free(e);break;}
   case 4:{EVP_PKEY_eq(k,k);EVP_PKEY_get_bits(k);break;}
   default:{uint8_t*o=NULL;int l=i2d_PrivateKey(k,&o);if(l>0)OPENSSL_clear_free(o,l);break;}}}
  }
  fault_at=-1;EVP_PKEY_free(k);}
 ERR_clear_error();judge("keys"); }
SUB("Z01",agreement,4000,30000,64){ Case cs;int kind=s.draw(4);const Ps&p=params()[s.draw(params().size())];int t=gen_type(s,p);if((kind==1||kind==2)&&p.c->hl==32)t=NID_id_GostR3410_2012_256;const Curve&c=*p.c;N d=mod(le(sr(s,c.hl)),c.q),e=mod(le(sr(s,c.hl)),c.q);Pt Q=mul(c,gen(c),d),E=mul(c,gen(c),e);bool ok=true;
 Bytes ukm=s.rnd(kind==1||kind==2?32:8);Bytes sk=k32(s,"session key");secret("private key",tole(d,c.hl));note("%s %s kind %d",OBJ_nid2sn(t),p.sn.c_str(),kind);label(kind==3?"derive":kind?"pskt":"cryptopro");
 Bytes sh=kind==1||kind==2?keg(c,d,E,ukm,c.hl==64,ok):vko(c,d,E,ukm,kx::legacy_hash(t),ok);if(ok)secret("agreed key",sh);{N u=mod(mulmod(mod(le(ukm),c.q),d,c.q),c.q);Pt P=mul(c,E,u);if(!P.inf){secret("shared point",tole(P.x,c.hl));secret("shared point",tole(P.y,c.hl));}}
 PK prv(mk_key(t,p.nid,&d)),eph(mk_key(t,p.nid,&e)),ep(mk_key(t,p.nid,nullptr,&E)),pub(mk_key(t,p.nid,nullptr,&Q));secret("sender key",tole(e,c.hl));(void)eph;
 int cn=kind==1?NID_magma_ctr:kind==2?NID_kuznyechik_ctr:0;
 {Watch w;faults(s);
  if(kind==3){EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(prv,eng());EVP_PKEY_derive_init(x);EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,8,ukm.data());if(s.flip())EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,s.pick({NID_id_GostR3411_2012_256,NID_id_GostR3411_2012_512}),NULL);EVP_PKEY_derive_set_peer(x,ep);Buf o(200);size_t l=200;if(x)EVP_PKEY_derive(x,o.p,&l);EVP_PKEY_CTX_free(x);}
  else{Buf o(1500);size_t l=1500;EVP_PKEY_CTX*x=EVP_PKEY_CTX_new(pub,eng());EVP_PKEY_encrypt_init(x);if(cn)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL);bool st=s.flip();if(st)EVP_PKEY_derive_set_peer(x,eph);else{Bytes r=sr(s,c.hl);r[0]&=0x1f;watching=false;secret("ephemeral key",r);{N f=mod(be(r),c.q);Pt F=mul(c,gen(c),f);bool k;Bytes z=kind?keg(c,d,F,ukm,c.hl==64,k):vko(c,d,F,ukm,kx::legacy_hash(t),k);if(k)secret("agreed key",z);}watching=true;rand_script(r);}
   EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),ukm.data());int r=EVP_PKEY_encrypt(x,o.p,&l,sk.data(),32);note("enc=%d",r);EVP_PKEY_CTX_free(x);
   if(r==1){x=EVP_PKEY_CTX_new(prv,eng());EVP_PKEY_decrypt_init(x);if(cn)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL);if(st&&!kind)EVP_PKEY_derive_set_peer(x,ep);if(s.chance(1,4))o.p[s.draw(l)]^=1;Buf q(32);size_t ql=32;r=EVP_PKEY_decrypt(x,q.p,&ql,o.p,l);note("dec=%d",r);EVP_PKEY_CTX_free(x);}}}
 fault_at=-1;watching=true;prv=PK();eph=PK();watching=false;
 ERR_clear_error();judge("key agreement"); }
static bool prov(){ static OSSL_PROVIDER*gp,*dp;if(gp)return true;std::string m=getenv("PROG_gostprov");size_t i=m.rfind('/');std::string n=m.substr(i+1,m.size()-i-4);OSSL_PROVIDER_set_default_search_path(NULL,m.substr(0,i).c_str());dp=OSSL_PROVIDER_load(NULL,"default");gp=OSSL_PROVIDER_load(NULL,n.c_str());return gp&&dp; }
static const char*PM[]={"gost-mac","gost-mac-12","magma-mac","kuznyechik-mac","kuznyechik-ctr-acpkm-omac"};
SUB("Z01",provider,5000,30000,64){ Case cs;REQUIRE(prov(),"provider does not load: %s",errs().c_str());size_t n=1+s.draw(6);bool mac=s.flip();Buf o(5000);size_t ol;int l;
 if(mac){EVP_MAC_CTX*c[2]={NULL,NULL};bool live[2]={false,false};{Watch w(true);for(size_t i=0;i<n;i++){size_t j=s.draw(2);switch(s.weighted({3,3,1,2,1})){
  case 0:{if(!c[j]||s.chance(1,3)){EVP_MAC_CTX_free(c[j]);const char*nm=PM[s.draw(5)];EVP_MAC*m=EVP_MAC_fetch(NULL,nm,NULL);if(!m){c[j]=NULL;live[j]=false;break;}label(nm);c[j]=EVP_MAC_CTX_new(m);EVP_MAC_free(m);}Bytes k=k32(s,"MAC key");note("key %zu",j);if(s.flip()){OSSL_PARAM q[2]={OSSL_PARAM_construct_octet_string("key",k.data(),32),OSSL_PARAM_construct_end()};live[j]=EVP_MAC_init(c[j],NULL,0,q)==1;}else live[j]=EVP_MAC_init(c[j],k.data(),32,NULL)==1;OPENSSL_cleanse(k.data(),32);break;}
  case 1:if(live[j]){Bytes d=s.rnd(s.draw(200));note("update");EVP_MAC_update(c[j],d.data(),d.size());}break;
  case 2:if(live[j]){note("final");EVP_MAC_final(c[j],o.p,&ol,64);}break;
  case 3:if(live[j]){note("dup");EVP_MAC_CTX*d=EVP_MAC_CTX_dup(c[j]);EVP_MAC_CTX_free(c[1-j]);c[1-j]=d;live[1-j]=d!=NULL;}break;
  default:note("free");EVP_MAC_CTX_free(c[j]);c[j]=NULL;live[j]=false;}}
  for(auto x:c)EVP_MAC_CTX_free(x);} }
 else{EVP_CIPHER_CTX*c[2]={NULL,NULL};bool live[2]={false,false};{Watch w(true);for(size_t i=0;i<n;i++){size_t j=s.draw(2);if(!c[j])c[j]=EVP_CIPHER_CTX_new();switch(s.weighted({3,3,1,2,1})){
  case 0:{const char*nm=CN[s.draw(18)];EVP_CIPHER*e=EVP_CIPHER_fetch(NULL,nm,NULL);if(!e)break;label(nm);Bytes k=k32(s,"cipher key"),iv=s.rnd(16);iv[0]&=0x7f;note("%s",nm);if(has(nm,"acpkm")&&!has(nm,"omac"))sections(has(nm,"kuzn"),k);live[j]=EVP_CipherInit_ex(c[j],e,NULL,k.data(),iv.data(),1)==1;OPENSSL_cleanse(k.data(),32);EVP_CIPHER_free(e);break;}
  case 1:if(live[j]){Bytes d=s.rnd(s.pick<size_t>({5,16,200,4200}));note("update");EVP_CipherUpdate(c[j],o.p,&l,d.data(),d.size());}break;
  case 2:if(live[j]){note("final");EVP_CipherFinal_ex(c[j],o.p,&l);}break;
  case 3:if(live[j]){note("copy");size_t q=1-j;if(!c[q])c[q]=EVP_CIPHER_CTX_new();live[q]=EVP_CIPHER_CTX_copy(c[q],c[j])==1;}break;
  default:note("free");EVP_CIPHER_CTX_free(c[j]);c[j]=NULL;live[j]=false;}}
  for(auto x:c)EVP_CIPHER_CTX_free(x);} }
 ERR_clear_error();judge("provider contexts"); }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
