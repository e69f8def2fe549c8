// Table of the unauthenticated ciphers and a reference model of an EVP cipher context over them.
#pragma once
#include "env.h"
namespace cm {
using namespace ref;
enum K { G_CFB, G_CBC, G_CNT, G_CNT12, M_ECB, M_CBC, M_CTR, M_ACPKM, Z_ECB, Z_CBC, Z_CFB, Z_OFB, Z_CTR, Z_ACPKM, NK };
struct Info { const char*name; int nid; size_t bs,ivlen; size_t section; bool params; }; // bs: EVP block size; section: re-keying period (0 none); params: has AlgorithmIdentifier parameters
inline const Info&info(int k){ static const Info T[NK]={
 {"gost89",NID_id_Gost28147_89,1,8,1024,true},{"gost89-cbc",NID_gost89_cbc,8,8,0,true},{"gost89-cnt",NID_gost89_cnt,1,8,1024,true},{"gost89-cnt-12",NID_gost89_cnt_12,1,8,1024,true},
 {"magma-ecb",NID_magma_ecb,8,0,0,false},{"magma-cbc",NID_magma_cbc,8,8,0,false},{"magma-ctr",NID_magma_ctr,1,4,0,false},{"magma-ctr-acpkm",NID_magma_ctr_acpkm,1,4,1024,true},
 {"kuznyechik-ecb",NID_grasshopper_ecb,16,0,0,false},{"kuznyechik-cbc",NID_grasshopper_cbc,16,16,0,false},{"kuznyechik-cfb",NID_grasshopper_cfb,1,16,0,false},{"kuznyechik-ofb",NID_grasshopper_ofb,1,16,0,false},
 {"kuznyechik-ctr",NID_grasshopper_ctr,1,8,0,false},{"kuznyechik-ctr-acpkm",NID_kuznyechik_ctr_acpkm,1,8,4096,true}}; return T[k]; }
inline bool g89(int k){return k<=G_CNT12;}
inline bool acpkm(int k){return k==M_ACPKM||k==Z_ACPKM;}
inline size_t real_bs(int k){return k>=Z_ECB?16:8;}
inline int default_sbox(int k){return sbox_by_name(k==G_CNT?"CryptoPro_A":"TC26_Z");}
struct Spec { int k=0; Bytes key,iv; bool enc=true,pad=true; int sbox=-1; bool mesh=true; size_t section=0; // section 0: default
 size_t sec() const {return section?section:info(k).section;} };
// mode of operation without padding (block modes: whole blocks only)
inline Bytes raw(const Spec&p,const Bytes&in){ int sb=p.sbox<0?default_sbox(p.k):p.sbox;const uint8_t*key=p.key.data(),*iv=p.iv.data();uint8_t c0[16]={0};size_t il=info(p.k).ivlen;if(il)memcpy(c0,iv,il);
 auto bc=[&](bool z){auto c=make_bc(z);c->key(key);return c;};
 switch(p.k){
 case G_CFB:return gost89_cfb(sb,p.mesh,key,iv,in,p.enc); case G_CBC:return gost89_cbc_raw(sb,false,key,iv,in,p.enc); case G_CNT:case G_CNT12:return gost89_cnt(sb,p.mesh,key,iv,in);
 case M_ECB:return ecb(*bc(false),in,p.enc); case M_CBC:return cbc(*bc(false),iv,in,p.enc); case M_CTR:return ctr_acpkm(false,key,c0,p.section,in); case M_ACPKM:return ctr_acpkm(false,key,c0,p.sec(),in);
 case Z_ECB:return ecb(*bc(true),in,p.enc); case Z_CBC:return cbc(*bc(true),iv,in,p.enc); case Z_CFB:return cfb(*bc(true),iv,in,p.enc); case Z_OFB:return ofb(*bc(true),iv,in); case Z_CTR:return ctr(*bc(true),c0,in); case Z_ACPKM:return ctr_acpkm(true,key,c0,p.sec(),in);} abort(); }
struct Model { Spec sp; Bytes in; size_t done=0; bool keyset=false,ivset=false;
 Model(){} explicit Model(const Spec&s):sp(s),keyset(true),ivset(true){}
 bool block() const {return info(sp.k).bs>1;}
 bool holds() const {return block()&&!sp.enc&&sp.pad;}
 size_t avail() const {size_t b=info(sp.k).bs,n=in.size(); if(b==1)return n; if(sp.enc||!sp.pad)return n/b*b; return n?(n-1)/b*b:0;}
 Bytes upd(const Bytes&d){in.insert(in.end(),d.begin(),d.end());size_t a=avail();Bytes o=raw(sp,ref::sub(in,0,a));Bytes r=ref::sub(o,done,a-done);done=a;return r;}
 bool fin(Bytes&r){r.clear();size_t b=info(sp.k).bs,n=in.size(); if(b==1)return true; if(!sp.pad)return n%b==0;
  if(sp.enc){Bytes o=raw(sp,pkcs7(in,b));r=ref::sub(o,done,o.size()-done);return true;}
  if(!n||n%b)return false; Bytes o=raw(sp,in);uint8_t p=o.back();if(p==0||p>b)return false;for(size_t i=0;i<p;i++)if(o[n-1-i]!=p)return false;r=ref::sub(o,done,n-p-done);return true;}
 void restart(){in.clear();done=0;} };
inline Bytes gen_key(Src&s){return s.bytes(32);}
inline Bytes gen_iv(Src&s,const Spec&p){ size_t l=info(p.k).ivlen; Bytes iv=s.bytes(l);
 if((p.k==G_CNT||p.k==G_CNT12)&&s.chance(1,3)){ // counters near their moduli: 2^32 for N3, 2^32-1 for N4
  int sb=p.sbox<0?default_sbox(p.k):p.sbox;uint32_t n1=(uint32_t)(0u-0x01010101u*(1+s.draw(3))-1+s.draw(4)),n2=(uint32_t)(0u-0x01010104u*(1+s.draw(3))-2+s.draw(6));if(s.chance(1,4))n1=s.draw(0);iv.resize(8);gost89_cnt_iv_for(sb,p.key.data(),n1,n2,iv.data());}
 return iv; }
inline Spec gen_spec(Src&s,int k=-1){ Spec p;p.k=k>=0?k:(int)s.draw(NK);p.key=gen_key(s);p.iv=gen_iv(s,p);p.enc=true;p.pad=info(p.k).bs==1||!s.chance(1,4);return p; }
inline size_t gen_len(Src&s,int k,size_t maxlong=0){ size_t b=real_bs(k),sec=info(k).section; if(sec&&s.chance(1,4)){size_t n=s.range(1,maxlong?3:2)*sec;return n-2*b+s.draw(4*b+1);} return s.len(s.chance(1,10)?2600:300,{b,64}); }
struct Ctx { EVP_CIPHER_CTX*c; Ctx():c(EVP_CIPHER_CTX_new()){} ~Ctx(){EVP_CIPHER_CTX_free(c);} Ctx(const Ctx&)=delete; operator EVP_CIPHER_CTX*()const{return c;} };
inline void init(EVP_CIPHER_CTX*c,const Spec&p){ REQUIRE(EVP_CipherInit_ex(c,cipher(info(p.k).nid),eng(),p.key.data(),info(p.k).ivlen?p.iv.data():NULL,p.enc)==1,"%s init failed: %s",info(p.k).name,errs().c_str()); EVP_CIPHER_CTX_set_padding(c,p.pad); }
// one update against the model, with exact-size output buffers
inline void step(EVP_CIPHER_CTX*c,Model&m,const Bytes&d,bool inplace,size_t mis,const char*who,Bytes*acc=nullptr){
 size_t b=info(m.sp.k).bs;bool hold=m.holds();if(inplace&&b>1&&m.in.size()%b)inplace=false;if(hold&&m.in.size())inplace=false; // EVP itself refuses overlapping buffers while it holds data back
 size_t before=m.in.size();Bytes e=m.upd(d);size_t room=e.size()+(hold?b:0);if(inplace)room=std::max(room,d.size());
 uint8_t*base=(uint8_t*)malloc(room+mis+1),*o=base+mis; // output ends exactly at room (+1 only so that mis+0 is valid)
 base=(uint8_t*)realloc(base,room+mis?room+mis:1);o=base+mis;memset(base,0xa5,room+mis);
 int ol=-1,r; if(inplace){if(d.size())memcpy(o,d.data(),d.size());r=EVP_CipherUpdate(c,o,&ol,o,d.size());}
 else{In in(d,mis%5);r=EVP_CipherUpdate(c,o,&ol,in.p,d.size());}
 std::string err=r==1?"":errs(); Bytes got(o,o+(ol>=0&&(size_t)ol<=room?ol:0)); bool pre=true;for(size_t i=0;i<mis;i++)if(base[i]!=0xa5)pre=false; bool post=true; if(!hold&&!inplace)for(size_t i=e.size();i<room;i++)if(o[i]!=0xa5)post=false; free(base);
 REQUIRE(r==1,"%s: %s update of %zu bytes failed: %s",who,info(m.sp.k).name,d.size(),err.c_str());
 REQUIRE((size_t)ol==e.size(),"%s: %s update of %zu bytes at offset %zu reported %d bytes, expected %zu",who,info(m.sp.k).name,d.size(),before,ol,e.size());
 REQUIRE(pre&&post,"%s: %s wrote outside the reported output",who,info(m.sp.k).name);
 if(got!=e){size_t i=0;while(got[i]==e[i])i++;pbt::fail("%s: %s %s output differs at stream offset %zu (call at offset %zu, %zu bytes): got %s expected %s",who,info(m.sp.k).name,m.sp.enc?"encryption":"decryption",m.done-e.size()+i,before,d.size(),hex(ref::sub(got,i,16)).c_str(),hex(ref::sub(e,i,16)).c_str());}
 if(acc)acc->insert(acc->end(),got.begin(),got.end()); }
inline bool finish(EVP_CIPHER_CTX*c,Model&m,const char*who,Bytes*acc=nullptr){ Bytes e;bool ok=m.fin(e);size_t b=info(m.sp.k).bs;Buf o(b>1?b:0);int ol=-1;int r=EVP_CipherFinal_ex(c,o.p,&ol);
 if(!ok){REQUIRE(r<=0,"%s: %s final accepted %zu bytes that are not %s",who,info(m.sp.k).name,m.in.size(),m.sp.pad?"correctly padded":"whole blocks");ERR_clear_error();return false;}
 REQUIRE(r==1,"%s: %s final failed after %zu bytes: %s",who,info(m.sp.k).name,m.in.size(),errs().c_str());
 REQUIRE((size_t)ol==e.size()&&!memcmp(o.p,e.data(),e.size()),"%s: %s final gave %d bytes %s, expected %zu bytes %s",who,info(m.sp.k).name,ol,hex(o.p,ol>0?ol:0).c_str(),e.size(),hex(e).c_str());
 if(acc)acc->insert(acc->end(),e.begin(),e.end());return true; }
}
