// B01 block ciphers, C01 modes, C02 partitions, C03 re-keying sections, C04 context histories, C05 algorithm parameters
#include "ciphers.h"
#include <openssl/asn1.h>
#include <openssl/x509.h>
extern "C" {
#include "gost89.h"
#include "gost_grasshopper_core.h"
}
using namespace cm;
static pbt::Rule rB("B01","random / patterned 32-byte keys and blocks, all S-box sets, raw routines and ECB ciphers, keys replaced repeatedly in one context; non-trivial: key and block not both constant");
static pbt::Rule r1("C01","cipher, key, IV (counter-wrapping IVs constructed for CNT), padding and message drawn; lengths biased to block, mesh and section boundaries; non-trivial: at least one byte and (a partial block, more than one block, or a boundary crossed)");
static pbt::Rule r2("C02","as C01 with drawn partitions (empty parts included), in-place or exact-size separate buffers, misaligned; non-trivial: at least two parts of which one ends inside a block");
static pbt::Rule r3("C03","re-keying ciphers with a drawn section size or key meshing switched off/on, message crossing at least one section; refused sizes interleaved; non-trivial: a section boundary is crossed");
static pbt::Rule r4("C04","operation histories over three contexts (full init, key only, IV only, direction change, update, final, copy, reset, free) against one model per context; non-trivial: a context used after re-initialisation or copy");
static pbt::Rule r5("C05","parameters encoded from an initialised context and decoded into another, and mutated or foreign DER decoded; non-trivial: the message crosses a section, or the decoded bytes are not the encoder's output");
// ---- B01
static gost_subst_block*boxes(int set){ static std::map<std::string,gost_subst_block*> m={{"GostR3411_94_Test",&GostR3411_94_TestParamSet},{"GostR3411_94_CryptoPro",&GostR3411_94_CryptoProParamSet},{"Gost28147_Test",&Gost28147_TestParamSet},{"CryptoPro_A",&Gost28147_CryptoProParamSetA},{"CryptoPro_B",&Gost28147_CryptoProParamSetB},{"CryptoPro_C",&Gost28147_CryptoProParamSetC},{"CryptoPro_D",&Gost28147_CryptoProParamSetD},{"TC26_Z",&Gost28147_TC26ParamSetZ}}; return m.at(sbox_name(set)); }
static void eq(const uint8_t*g,const Bytes&e,const char*what){if(memcmp(g,e.data(),e.size()))pbt::fail("%s: got %s expected %s",what,hex(g,e.size(),64).c_str(),hex(e,64).c_str());}
SUB("B01",gost89_raw,60000,1500000,1024){ gost_ctx c;memset(&c,0x5a,sizeof c);size_t rounds=1+s.draw(3);
 for(size_t r=0;r<rounds;r++){int set=s.draw(sbox_count());bool magma=s.chance(1,4);if(magma)set=sbox_by_name("TC26_Z");Bytes key=s.bytes(32);size_t nb=1+s.draw(4);Bytes in=s.bytes(8*nb);
  gost_init(&c,boxes(set));note("%s%s key=%s in=%s",magma?"magma ":"",sbox_name(set),hex(key).c_str(),hex(in).c_str());nontrivial();label(sbox_name(set));
  if(magma){Magma m;m.key(key.data());magma_key(&c,key.data());Bytes e(8),d(8);m.enc(in.data(),e.data());m.dec(in.data(),d.data());Buf o(8);In i(ref::sub(in,0,8),s.draw(4));magmacrypt(&c,i.p,o.p);eq(o.p,e,"magma encrypt");magmadecrypt(&c,i.p,o.p);eq(o.p,d,"magma decrypt");memcpy(o.p,in.data(),8);magmacrypt(&c,o.p,o.p);eq(o.p,e,"magma in place");Buf k(32);magma_get_key(&c,k.p);eq(k.p,key,"magma_get_key");continue;}
  Gost89 g(set);g.key(key.data());bool nomask=s.flip();if(nomask)gost_key_nomask(&c,key.data());else gost_key(&c,key.data());
  Bytes e=ecb(g,in,true),d=ecb(g,in,false);Buf o(8*nb);In i(in,s.draw(4));
  switch(s.draw(5)){case 0:gostcrypt(&c,i.p,o.p);eq(o.p,ref::sub(e,0,8),"gostcrypt");gostdecrypt(&c,i.p,o.p);eq(o.p,ref::sub(d,0,8),"gostdecrypt");break;
  case 1:gost_enc(&c,i.p,o.p,nb);eq(o.p,e,"gost_enc");break; case 2:gost_dec(&c,i.p,o.p,nb);eq(o.p,d,"gost_dec");break;
  case 3:{Bytes iv=s.bytes(8);In v(iv);gost_enc_cfb(&c,v.p,i.p,o.p,nb);eq(o.p,gost89_cfb(set,false,key.data(),iv.data(),in,true),"gost_enc_cfb");gost_dec_cfb(&c,v.p,i.p,o.p,nb);eq(o.p,gost89_cfb(set,false,key.data(),iv.data(),in,false),"gost_dec_cfb");break;}
  case 4:{Bytes k2=s.bytes(32);In kk(k2);gost_enc_with_key(&c,kk.p,i.p,o.p);Gost89 g2(set);g2.key(k2.data());Bytes e2(8);g2.enc(in.data(),e2.data());eq(o.p,e2,"gost_enc_with_key");break;}}
  if(s.flip()){Bytes kk(s.flip()?key:s.bytes(32));gost_key(&c,kk.data());Buf k(32);gost_get_key(&c,k.p);eq(k.p,kk,"gost_get_key");}
  if(s.flip()){gost_destroy(&c);} } }
SUB("B01",kuznyechik_raw,40000,800000,1024){ grasshopper_round_keys_t er,dr;memset(&er,0x5a,sizeof er);memset(&dr,0x5a,sizeof dr);grasshopper_w128_t buf;size_t rounds=1+s.draw(3);
 for(size_t r=0;r<rounds;r++){Bytes key=s.bytes(32),in=s.bytes(16);note("key=%s in=%s",hex(key).c_str(),hex(in).c_str());nontrivial();Kuzn k;k.key(key.data());Bytes e(16),d(16);k.enc(in.data(),e.data());k.dec(in.data(),d.data());
  grasshopper_key_t gk;memcpy(&gk,key.data(),32);grasshopper_set_encrypt_key(&er,&gk);grasshopper_set_decrypt_key(&dr,&gk);grasshopper_w128_t x,y;memcpy(&x,in.data(),16);grasshopper_encrypt_block(&er,&x,&y,&buf);eq((uint8_t*)&y,e,"kuznyechik encrypt block");grasshopper_decrypt_block(&dr,&x,&y,&buf);eq((uint8_t*)&y,d,"kuznyechik decrypt block");
  memcpy(&x,in.data(),16);grasshopper_encrypt_block(&er,&x,&x,&buf);eq((uint8_t*)&x,e,"kuznyechik encrypt block in place");memcpy(&x,in.data(),16);grasshopper_decrypt_block(&dr,&x,&x,&buf);eq((uint8_t*)&x,d,"kuznyechik decrypt block in place");} }
SUB("B01",ecb_rekey,25000,400000,512){ Ctx c;size_t rounds=1+s.draw(4);int k=s.flip()?Z_ECB:M_ECB;bool first=true;
 for(size_t r=0;r<rounds;r++){Spec p;p.k=s.chance(1,4)?(k==Z_ECB?M_ECB:Z_ECB):k;k=p.k;p.key=s.bytes(32);p.pad=false;p.enc=s.flip();bool nullc=!first&&p.k==k&&EVP_CIPHER_CTX_nid(c)==info(k).nid&&s.flip();
  if(nullc){REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,p.key.data(),NULL,p.enc)==1,"re-key");EVP_CIPHER_CTX_set_padding(c,0);}else init(c,p);first=false;size_t n=info(k).bs*(1+s.draw(5));Bytes m=s.bytes(n);note("%s %s key=%s %zu bytes",info(k).name,p.enc?"enc":"dec",hex(p.key).c_str(),n);nontrivial();Model md(p);step(c,md,m,s.flip(),s.draw(4),"ecb");
  if(s.chance(1,8)){EVP_CIPHER_CTX_reset(c);first=true;} } }
SUB("B01",sbox_param,4000,40000,256){ // every named set through the EVP S-box control (CFB with a zero IV-block gives the raw permutation)
 static const struct{const char*eng,*ref;}N[]={{"id-Gost28147-89-CryptoPro-A-ParamSet","CryptoPro_A"},{"id-Gost28147-89-CryptoPro-B-ParamSet","CryptoPro_B"},{"id-Gost28147-89-CryptoPro-C-ParamSet","CryptoPro_C"},{"id-Gost28147-89-CryptoPro-D-ParamSet","CryptoPro_D"},{"id-tc26-gost-28147-param-Z","TC26_Z"},{"id-Gost28147-89-TestParamSet","Gost28147_Test"},{"1.2.643.2.2.31.1","CryptoPro_A"},{"1.2.643.2.2.31.2","CryptoPro_B"},{"1.2.643.2.2.31.3","CryptoPro_C"},{"1.2.643.2.2.31.4","CryptoPro_D"},{"1.2.643.7.1.2.5.1.1","TC26_Z"},{"1.2.643.2.2.31.0","Gost28147_Test"}};
 auto&n=N[s.draw(sizeof N/sizeof*N)];Spec p=gen_spec(s,s.draw(4));Ctx c;init(c,p);p.sbox=sbox_by_name(n.ref);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_SET_SBOX,0,(void*)n.eng)==1,"SET_SBOX %s refused: %s",n.eng,errs().c_str());Model m(p);Bytes msg=s.bytes(1+s.draw(64));note("%s %s",info(p.k).name,n.eng);nontrivial();step(c,m,msg,false,0,n.eng); }
// ---- C01
static void oneway(Src&s,const Spec&p0,const Bytes&msg,const std::vector<size_t>&parts,const std::vector<size_t>&parts2,bool ip,size_t mis,void(*setup)(EVP_CIPHER_CTX*,const Spec&)=nullptr){
 Spec p=p0;size_t b=info(p.k).bs;if(b>1&&!p.pad&&msg.size()%b)p.pad=true;
 Ctx c;init(c,p);if(setup)setup(c,p);Model m(p);Bytes ct;size_t o=0;for(size_t n:parts){step(c,m,ref::sub(msg,o,n),ip,mis,"enc",&ct);o+=n;}REQUIRE(finish(c,m,"enc",&ct),"model");
 Spec q=p;q.enc=false;Ctx d;init(d,q);if(setup)setup(d,q);Model md(q);Bytes pt;o=0;size_t left=ct.size();std::vector<size_t> p2=parts2;for(size_t n:p2){n=std::min(n,left);step(d,md,ref::sub(ct,o,n),ip,mis,"dec",&pt);o+=n;left-=n;}if(left)step(d,md,ref::sub(ct,o,left),ip,mis,"dec",&pt);REQUIRE(finish(d,md,"dec",&pt),"%s decryption of a valid ciphertext failed in the model",info(p.k).name);
 REQUIRE(pt==msg,"%s: decryption does not return the message (%zu bytes, got %zu)",info(p.k).name,msg.size(),pt.size()); }
SUB("C01",modes,24000,500000,256){ Spec p=gen_spec(s);size_t n=gen_len(s,p.k,1);Bytes m=s.bytes(n);size_t mis=s.draw(3);note("%s %s len=%zu key=%s iv=%s",info(p.k).name,p.pad?"pad":"nopad",n,hex(p.key,8).c_str(),hex(p.iv).c_str());label(info(p.k).name);if(n>real_bs(p.k)||n%real_bs(p.k))nontrivial();oneway(s,p,m,{n},{n+16},false,mis); }
SUB("C01",cnt_wrap,8000,120000,256){ Spec p=gen_spec(s,s.flip()?G_CNT12:G_CNT);for(int i=0;i<3&&p.iv.size()==8;i++)p.iv=gen_iv(s,p);size_t n=1+s.len(120,{8});note("%s len=%zu iv=%s",info(p.k).name,n,hex(p.iv).c_str());nontrivial();oneway(s,p,s.bytes(n),{n},{n},false,0); }
SUB("C01",bad_final,8000,120000,256){ // truncated / corrupted padding must be refused at the end
 static const int B[]={G_CBC,M_ECB,M_CBC,Z_ECB,Z_CBC};Spec p=gen_spec(s,B[s.draw(5)]);p.pad=!s.chance(1,4);p.enc=p.pad?false:s.flip();size_t b=info(p.k).bs;size_t n=s.draw(4*b);Bytes d=s.bytes(n);if(p.pad&&n%b==0&&n&&s.flip()){Spec e=p;e.enc=true;Bytes m=s.bytes(n);m[n-1]=s.draw(b+3);if(s.flip()){size_t q=m[n-1]<=b?m[n-1]:b;for(size_t i=0;i<q;i++)m[n-1-i]=m[n-1];if(q&&s.flip())m[n-1-s.draw(q)]^=1<<s.draw(8);}d=raw(e,m);}note("%s %s %zu bytes",info(p.k).name,p.enc?"enc":"dec",n);nontrivial();Ctx c;init(c,p);Model md(p);for(size_t q:{n})step(c,md,d,false,0,"bad");finish(c,md,"bad"); }
SUB("C01",long_stream,12,120,1){ static const int S[]={M_CTR,Z_CTR,M_ACPKM,Z_ACPKM,G_CNT,G_CFB,Z_OFB,Z_CFB};size_t i=s.draw(8);Spec p=gen_spec(s,S[i]);size_t b=real_bs(p.k);size_t n=65536*b+s.draw(5000);if(p.k==Z_OFB||p.k==Z_CFB)n/=8;Bytes m=s.rnd(n);note("%s %zu bytes (16-bit counter carry)",info(p.k).name,n);nontrivial();label(info(p.k).name);size_t cut=s.draw(n+1);oneway(s,p,m,{cut,n-cut},{n},false,0); }
SUB("C01",rng_failure,3000,40000,128){ // initialisation either fails or the cipher is correct, whatever the random source does
 Spec p=gen_spec(s);p.enc=s.flip()||info(p.k).bs>1;int after=s.draw(3);rand_fail(after);Ctx c;int r=EVP_CipherInit_ex(c,cipher(info(p.k).nid),eng(),p.key.data(),p.iv.data(),p.enc);rand_fail(-1);note("%s random source fails after %d calls: init=%d",info(p.k).name,after,r);nontrivial();if(r<=0){label("refused");ERR_clear_error();return;}label("accepted");p.pad=true;Model m(p);step(c,m,s.bytes(1+s.draw(100)),false,0,"after random source failure");if(p.enc)finish(c,m,"after random source failure"); }
static std::string longctr(const std::string&args){const char*p=getenv("PROG_longctr");REQUIRE(p,"helper missing");std::string cmd=std::string("OPENSSL_CONF=/dev/null ")+p+" "+args;FILE*f=popen(cmd.c_str(),"r");char b[1000]="";if(!fgets(b,1000,f))b[0]=0;int rc=pclose(f);b[strcspn(b,"\n")]=0;REQUIRE(rc==0,"helper %s failed (%d)",args.c_str(),rc);return b;}
static void add_be(uint8_t*p,size_t n,uint64_t v){for(size_t i=n;i--&&v;){v+=p[i];p[i]=(uint8_t)v;v>>=8;}}
SUB("C01",long_ctr,4,16,1,900){ // the counter carries past 24 bits (uninstrumented helper)
 int k=(int)s.draw(4);static const char*N[4]={"magma-ctr","kuznyechik-ctr","magma-ctr-acpkm","kuznyechik-ctr-acpkm"};bool z=k&1;size_t b=z?16:8;Bytes key=s.rnd(32),iv=s.rnd(b/2);uint64_t n=(1ull<<24)*b-b*s.draw(4)-s.draw(b);if(pbt::thorough()&&s.flip())n=(1ull<<32)-s.draw(40);int sect=0;
 if(k>1){sect=(int)(b*((1u<<22)+s.draw(1u<<22)));}
 note("%s section=%d %llu bytes key=%s iv=%s",N[k],sect,(unsigned long long)n,hex(key,32).c_str(),hex(iv).c_str());label(N[k]);nontrivial();
 std::string got=longctr(std::string(N[k])+" "+tohex(key)+" "+tohex(iv)+" 0 "+std::to_string(n)+" 80 "+std::to_string(sect));
 auto c=make_bc(z);uint64_t at=0,pos=n-n%b;Bytes cur=key;c->key(cur.data());Bytes e;
 for(;e.size()<80+n%b;pos+=b){while(sect&&at+sect<=pos){Bytes d(32);for(int i=0;i<32;i++)d[i]=0x80+i;for(size_t i=0;i<32;i+=b)c->enc(&d[i],&d[i]);cur=d;c->key(cur.data());at+=sect;}
  Bytes q=iv;q.resize(b,0);add_be(q.data(),b,pos/b);c->enc(q.data(),q.data());e.insert(e.end(),q.begin(),q.end());}
 REQUIRE(got==tohex(ref::sub(e,n%b,80)),"%s: keystream after %llu bytes is %s, expected %s",N[k],(unsigned long long)n,got.c_str(),tohex(ref::sub(e,n%b,80)).c_str()); }
// ---- C02
SUB("C02",partitions,26000,500000,256){ Spec p=gen_spec(s);size_t n=gen_len(s,p.k,1);Bytes m=s.bytes(n);size_t b=real_bs(p.k),sec=info(p.k).section?info(p.k).section:256;auto a=s.split(n,{b,b,sec,1}),d=s.split(n+(info(p.k).bs>1?s.draw(b+1):0),{b,b,sec,1});bool ip=s.flip();size_t mis=s.draw(9);bool mid=false;size_t o=0;for(size_t x:a){o+=x;if(o%b&&o<n)mid=true;}
 note("%s %s len=%zu parts=%zu/%zu %s misalign=%zu",info(p.k).name,p.pad?"pad":"nopad",n,a.size(),d.size(),ip?"in-place":"separate",mis);label(info(p.k).name);if(mid)nontrivial();oneway(s,p,m,a,d,ip,mis); }
SUB("C02",tiny_steps,4000,60000,128){ Spec p=gen_spec(s);size_t b=real_bs(p.k);size_t sec=info(p.k).section;size_t lead=0;if(sec&&sec<=1024&&s.flip())lead=sec-b*2;size_t n=lead+1+s.draw(6*b);std::vector<size_t> a;if(lead)a.push_back(lead);for(size_t o=lead;o<n;){size_t k=std::min(n-o,(size_t)s.draw(4));a.push_back(k);o+=k;if(a.size()>400){a.push_back(n-o);break;}}note("%s len=%zu steps of 0..3 after %zu",info(p.k).name,n,lead);nontrivial();oneway(s,p,s.bytes(n),a,a,s.flip(),s.draw(3)); }
// ---- C03
SUB("C03",sections,12000,250000,128){ int k=s.flip()?Z_ACPKM:M_ACPKM;Spec p=gen_spec(s,k);size_t b=real_bs(k);p.section=s.chance(1,8)?0:b*(1+s.len(s.chance(1,8)?300:24,{}));bool enc=s.flip();size_t sec=p.sec();size_t n=std::min((size_t)9000,sec*(1+s.draw(4)))+s.draw(2*b+1);if(s.chance(1,4))n-=std::min(n,(size_t)s.draw(2*b));Bytes m=s.bytes(n);
 Ctx c;p.enc=enc;init(c,p);for(size_t i=s.draw(3);i--;){ // refused settings leave the context unchanged
  int bad=s.pick({(int)(b*2+1),(int)(b-1),1,(int)(b*3+b/2),-1,-7});note("bad section %d",bad);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,bad,NULL)<=0,"%s accepted section size %d",info(k).name,bad);ERR_clear_error();}
 if(p.section)REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,(int)p.section,NULL)==1,"%s refused section size %zu: %s",info(k).name,p.section,errs().c_str());
 for(size_t i=s.draw(2);i--;){int bad=s.pick({(int)(b*2+1),1,(int)(b+b/2),-1});REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,bad,NULL)<=0,"%s accepted section size %d",info(k).name,bad);ERR_clear_error();}
 auto a=s.split(n,{b,sec,1,b});note("%s %s section=%zu len=%zu parts=%zu",info(k).name,enc?"enc":"dec",sec,n,a.size());if(n>sec)nontrivial();label(info(k).name);Model md(p);size_t o=0;bool ip=s.flip();for(size_t x:a){step(c,md,ref::sub(m,o,x),ip,0,"section");o+=x;} }
SUB("C03",large_sections,60,1500,4){ int k=s.flip()?Z_ACPKM:M_ACPKM;Spec p=gen_spec(s,k);p.enc=s.flip();size_t b=real_bs(k),base=s.pick<size_t>({65536,65536,32768,131072,262144,98304,65536+256,24576});p.section=base+b*s.draw(4)-(s.chance(1,4)?b:0);size_t n=p.section*(1+s.draw(3))+s.draw(p.section)+s.draw(40);if(n>600000&&!pbt::thorough())n=p.section+2000+s.draw(200000);
 Ctx c;init(c,p);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,(int)p.section,NULL)==1,"%s refused section size %zu: %s",info(k).name,p.section,errs().c_str());auto a=s.split(n,{b,p.section,65536});if(a.size()>200)a={n};note("%s %s section=%zu len=%zu parts=%zu",info(k).name,p.enc?"enc":"dec",p.section,n,a.size());if(n>p.section)nontrivial();label(info(k).name);Bytes m=s.bytes(n);Model md(p);size_t o=0;for(size_t x:a){step(c,md,ref::sub(m,o,x),false,0,"section");o+=x;} }
SUB("C03",magma_ctr_section,3000,40000,128){ // plain Magma-CTR with re-keying switched on
 Spec p=gen_spec(s,M_CTR);p.section=8*(1+s.draw(40));size_t n=p.section*(1+s.draw(3))+s.draw(17);Ctx c;init(c,p);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,(int)p.section,NULL)==1,"KEY_MESH refused");Model md(p);Bytes m=s.bytes(n);note("magma-ctr section=%zu len=%zu",p.section,n);nontrivial();size_t o=0;for(size_t x:s.split(n,{8,p.section})){step(c,md,ref::sub(m,o,x),false,0,"section");o+=x;} }
SUB("C03",meshing89,9000,150000,128){ static const int G[]={G_CFB,G_CNT,G_CNT12};int k=G[s.draw(3)];Spec p=gen_spec(s,k);p.enc=s.flip();size_t n=1024*s.range(1,4)-9+s.draw(19);p.mesh=!s.chance(1,3);Ctx c;init(c,p);if(s.flip()||!p.mesh){REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,p.mesh,NULL)==1,"KEY_MESH %d refused",p.mesh);}
 if(s.flip()){static const char*N[][2]={{"id-Gost28147-89-CryptoPro-A-ParamSet","CryptoPro_A"},{"id-Gost28147-89-CryptoPro-C-ParamSet","CryptoPro_C"},{"id-tc26-gost-28147-param-Z","TC26_Z"},{"id-Gost28147-89-TestParamSet","Gost28147_Test"}};auto&q=N[s.draw(4)];REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_SET_SBOX,0,(void*)q[0])==1,"SET_SBOX");p.sbox=sbox_by_name(q[1]);}
 note("%s %s %s len=%zu sbox=%d",info(k).name,p.enc?"enc":"dec",p.mesh?"mesh":"nomesh",n,p.sbox);nontrivial();label(info(k).name);Model md(p);Bytes m=s.bytes(n);size_t o=0;bool ip=s.flip();for(size_t x:s.split(n,{8,1024,1})){step(c,md,ref::sub(m,o,x),ip,0,"mesh");o+=x;
  if(o&&s.chance(1,6)){REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_SET_SBOX,0,(void*)"id-Gost28147-89-CryptoPro-B-ParamSet")<=0,"S-box change accepted in mid-stream");ERR_clear_error();}} }
// ---- C04
SUB("C04",histories,22000,400000,256){ struct C{EVP_CIPHER_CTX*c;Model m;bool live=false,dirty=false,fin=false,custom=false;};C cs[3];for(auto&x:cs)x.c=EVP_CIPHER_CTX_new();size_t nops=3+s.draw(20);bool nt=false;int base=s.draw(NK);
 for(size_t op=0;op<nops;op++){unsigned i=s.draw(3);C&x=cs[i];
  switch(s.weighted({6,12,2,2,4,2,1,1,2})){
  case 0:{int k=s.chance(1,4)?(int)s.draw(NK):base;Spec p=gen_spec(s,k);p.enc=s.flip();bool same=x.live&&x.m.sp.k==k;int how=x.custom?2:(int)s.draw(3);if(x.dirty)nt=true;note("init%u %s %s%s",i,info(k).name,p.enc?"enc":"dec",how==2?" after reset":same&&how==1?" null-cipher":"");
    if(how==2){EVP_CIPHER_CTX_reset(x.c);x.custom=false;same=false;}
    if(same&&how==1){REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,p.key.data(),info(k).ivlen?p.iv.data():NULL,p.enc)==1,"re-init: %s",errs().c_str());EVP_CIPHER_CTX_set_padding(x.c,p.pad);}else init(x.c,p);
    x.m=Model(p);x.live=true;x.fin=false;
    if(s.chance(1,8)&&acpkm(k)){x.m.sp.section=real_bs(k)*(1+s.draw(8));REQUIRE(EVP_CIPHER_CTX_ctrl(x.c,EVP_CTRL_KEY_MESH,(int)x.m.sp.section,NULL)==1,"KEY_MESH %s",errs().c_str());x.custom=true;note("section=%zu",x.m.sp.section);}
    break;}
  case 1:{if(!x.live||x.fin)break;size_t n=gen_len(s,x.m.sp.k);if(acpkm(x.m.sp.k)&&n>1500&&s.flip())n%=97;Bytes d=s.bytes(n);note("upd%u:%zu",i,n);char w[16];snprintf(w,16,"ctx%u",i);step(x.c,x.m,d,s.chance(1,3),s.draw(3),w);if(x.dirty)nt=true;x.dirty=true;break;}
  case 2:{if(!x.live||x.fin)break;note("fin%u",i);char w[16];snprintf(w,16,"ctx%u",i);finish(x.c,x.m,w);x.fin=true;break;}
  case 3:{if(!x.live)break;Bytes key=gen_key(s);note("rekey%u",i);int enc=s.chance(1,3)?!x.m.sp.enc:s.flip()?-1:(int)x.m.sp.enc;if(enc>=0)x.m.sp.enc=enc;REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,key.data(),NULL,enc)==1,"key-only init: %s",errs().c_str());EVP_CIPHER_CTX_set_padding(x.c,x.m.sp.pad);x.m.sp.key=key;x.m.restart();x.fin=false;if(x.dirty)nt=true;break;}
  case 4:{if(!x.live||!info(x.m.sp.k).ivlen)break;x.m.sp.iv=gen_iv(s,x.m.sp);int enc=s.chance(1,3)?!x.m.sp.enc:s.flip()?-1:(int)x.m.sp.enc;if(enc>=0)x.m.sp.enc=enc;note("newiv%u %s",i,x.m.sp.enc?"enc":"dec");REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,NULL,x.m.sp.iv.data(),enc)==1,"IV-only init: %s",errs().c_str());EVP_CIPHER_CTX_set_padding(x.c,x.m.sp.pad);x.m.restart();x.fin=false;if(x.dirty)nt=true;break;}
  case 5:{unsigned j=s.draw(3);if(j==i||!x.live)break;note("copy%u->%u",i,j);C&y=cs[j];REQUIRE(EVP_CIPHER_CTX_copy(y.c,x.c)==1,"copy failed: %s",errs().c_str());y.m=x.m;y.live=true;y.fin=x.fin;y.custom=x.custom;y.dirty=x.dirty=true;break;}
  case 6:note("reset%u",i);EVP_CIPHER_CTX_reset(x.c);x.live=x.dirty=x.custom=false;break;
  case 7:note("free%u",i);EVP_CIPHER_CTX_free(x.c);x.c=EVP_CIPHER_CTX_new();x.live=x.dirty=x.custom=false;break;
  case 8:{if(!x.live||x.m.in.size())break;int enc=!x.m.sp.enc;note("turn%u",i);REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,NULL,NULL,enc)==1,"direction change: %s",errs().c_str());EVP_CIPHER_CTX_set_padding(x.c,x.m.sp.pad);x.m.sp.enc=enc;break;}
  }}
 for(unsigned i=0;i<3;i++){C&x=cs[i];if(x.live&&!x.fin){char w[16];snprintf(w,16,"ctx%u",i);step(x.c,x.m,Bytes(1+s.draw(40),0x33),false,0,w);finish(x.c,x.m,w);}EVP_CIPHER_CTX_free(x.c);}
 if(nt)nontrivial(); }
// the authenticated ciphers: MGM and CTR-ACPKM-OMAC
struct Aead{ EVP_CIPHER_CTX*c=nullptr;bool mgm=true,z=false,enc=true,live=false,fin=false,text=false,dirty=false,tagset=false;Bytes key,iv,seed,aad,pt;
 const EVP_CIPHER*ci()const{return cipher(mgm?nid_of(z?"kuznyechik-mgm":"magma-mgm"):z?NID_kuznyechik_ctr_acpkm_omac:NID_magma_ctr_acpkm_omac);}
 size_t b()const{return z?16:8;}size_t il()const{return mgm?b():b()/2;}
 const char*name()const{return mgm?z?"kuznyechik-mgm":"magma-mgm":z?"kuznyechik-ctr-acpkm-omac":"magma-ctr-acpkm-omac";}
 void ref(Bytes&ct,Bytes&tag)const{ if(mgm){auto k=ref::make_bc(z);k->key(key.data());auto r=ref::mgm(*k,iv,aad,pt,true);ct=r.ct;tag=r.tag;return;}
  const char*l="kdf tree";Bytes ks=ref::kdf_tree(key,Bytes(l,l+8),seed,64,1);auto mc=ref::make_bc(z);mc->key(&ks[32]);Bytes mac=ref::omac(*mc,pt);uint8_t c0[16]={0};memcpy(c0,iv.data(),iv.size());Bytes all=ref::ctr_acpkm(z,ks.data(),c0,z?262144:8192,ref::cat(pt,mac));ct=ref::sub(all,0,pt.size());tag=ref::sub(all,pt.size(),mac.size()); }
 void restart(){aad.clear();pt.clear();fin=text=tagset=false;}
 // what sender and receiver do around every initialisation of the OMAC ciphers: the parameters carry IV and seed
 void params(){ if(mgm)return;if(enc){ASN1_TYPE*t=ASN1_TYPE_new();int ok=EVP_CIPHER_param_to_asn1(c,t);uint8_t*p=NULL;int n=ok>0?i2d_ASN1_TYPE(t,&p):0;Bytes d(p,p+std::max(n,0));OPENSSL_free(p);ASN1_TYPE_free(t);REQUIRE(ok>0&&d.size()==4+il()+8&&ref::sub(d,4,il())==iv,"%s: parameters encoded as %s with IV %s",name(),hex(d).c_str(),hex(iv).c_str());seed=ref::sub(d,4+il(),8);} }
 bool decode(){Bytes d=ref::der_seq({ref::der_octet(ref::cat(iv,seed))});const uint8_t*p=d.data();ASN1_TYPE*t=d2i_ASN1_TYPE(NULL,&p,d.size());int r=EVP_CIPHER_asn1_to_param(c,t);ASN1_TYPE_free(t);return r>0;} };
static Bytes mac_attr(EVP_CIPHER_CTX*c){STACK_OF(X509_ATTRIBUTE)*a=sk_X509_ATTRIBUTE_new_null();Bytes t;if(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PROCESS_UNPROTECTED,1,a)>0&&sk_X509_ATTRIBUTE_num(a)==1){ASN1_OCTET_STRING*o=(ASN1_OCTET_STRING*)X509_ATTRIBUTE_get0_data(sk_X509_ATTRIBUTE_value(a,0),0,V_ASN1_OCTET_STRING,NULL);if(o)t.assign(ASN1_STRING_get0_data(o),ASN1_STRING_get0_data(o)+ASN1_STRING_length(o));}sk_X509_ATTRIBUTE_pop_free(a,X509_ATTRIBUTE_free);return t;}
static bool mac_put(EVP_CIPHER_CTX*c,const Bytes&t){STACK_OF(X509_ATTRIBUTE)*a=NULL;ASN1_OBJECT*o=OBJ_txt2obj("1.2.643.7.1.0.6.1.1",1);X509at_add1_attr_by_OBJ(&a,o,V_ASN1_OCTET_STRING,t.data(),t.size());ASN1_OBJECT_free(o);int r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PROCESS_UNPROTECTED,0,a);sk_X509_ATTRIBUTE_pop_free(a,X509_ATTRIBUTE_free);return r>0;}
static void aead_feed(Src&s,Aead&x,const Bytes&d,bool aad){ int ol=-1;size_t mis=s.draw(3);
 if(aad){In in(d,mis);REQUIRE(EVP_CipherUpdate(x.c,NULL,&ol,in.p,d.size())==1&&ol==(int)d.size(),"%s: associated data refused: %s",x.name(),errs().c_str());x.aad=ref::cat(x.aad,d);return;}
 size_t o=x.pt.size();x.pt=ref::cat(x.pt,d);x.text=true;Bytes ct,tag;x.ref(ct,tag);ct=ref::sub(ct,o,d.size());const Bytes&src=x.enc?d:ct,&dst=x.enc?ct:d;In in(src,mis);Buf out(d.size());REQUIRE(EVP_CipherUpdate(x.c,out.p,&ol,in.p,d.size())==1&&ol==(int)d.size(),"%s: data refused: %s",x.name(),errs().c_str());Bytes g(out.p,out.p+d.size());REQUIRE(g==dst,"%s %s: output at offset %zu: got %s expected %s",x.name(),x.enc?"encryption":"decryption",o,hex(g).c_str(),hex(dst).c_str()); }
static void aead_finish(Src&s,Aead&x){ if(x.mgm&&x.aad.empty()&&x.pt.empty())return;Bytes ct,tag;x.ref(ct,tag);Buf o(0);int ol=-1;bool bad=false;
 if(!x.enc){Bytes t=tag;if(s.chance(1,4)){t[s.draw(t.size())]^=1<<s.draw(8);bad=true;}In it(t);REQUIRE(x.mgm?EVP_CIPHER_CTX_ctrl(x.c,EVP_CTRL_AEAD_SET_TAG,t.size(),it.p)==1:mac_put(x.c,t),"%s: tag not taken: %s",x.name(),errs().c_str());}
 int r=EVP_CipherFinal_ex(x.c,o.p,&ol);ERR_clear_error();x.fin=true;if(bad){REQUIRE(r<=0,"%s: altered tag accepted",x.name());return;}REQUIRE(r==1&&ol==0,"%s: %s final failed",x.name(),x.enc?"encryption":"decryption");
 if(x.enc){Bytes g;if(x.mgm){Buf t(x.b());REQUIRE(EVP_CIPHER_CTX_ctrl(x.c,EVP_CTRL_AEAD_GET_TAG,x.b(),t.p)==1,"%s: no tag",x.name());g.assign(t.p,t.p+x.b());}else g=mac_attr(x.c);REQUIRE(g==tag,"%s: tag %s, expected %s",x.name(),hex(g).c_str(),hex(tag).c_str());} }
SUB("C04",aead,12000,200000,128){ Aead cs[3];for(auto&x:cs)x.c=EVP_CIPHER_CTX_new();struct Fr{Aead*v;~Fr(){for(int i=0;i<3;i++)EVP_CIPHER_CTX_free(v[i].c);}}fr{cs};bool nt=false,mgm=s.flip(),z=s.flip();size_t nops=4+s.draw(18);
 for(size_t op=0;op<nops;op++){unsigned i=s.draw(3);Aead&x=cs[i];
  switch(s.weighted({5,4,8,4,3,3,3,1})){
  case 0:{ Aead n;n.c=x.c;n.live=true;n.mgm=s.chance(1,4)?s.flip():mgm;n.z=s.chance(1,4)?s.flip():z;n.enc=s.flip();n.key=s.bytes(32);n.iv=s.bytes(n.il());n.seed=s.rnd(8);n.seed[0]|=1;n.dirty=x.dirty;bool same=x.live&&x.mgm==n.mgm&&x.z==n.z;int how=s.draw(3);note("init%u %s %s%s",i,n.name(),n.enc?"enc":"dec",how==2?" after reset":same&&how==1?" null-cipher":"");if(x.dirty)nt=true;
    if(how==2){EVP_CIPHER_CTX_reset(x.c);same=false;n.dirty=false;}bool nul=same&&how==1;
    if(n.mgm||n.enc)REQUIRE(EVP_CipherInit_ex(n.c,nul?NULL:n.ci(),nul?NULL:eng(),n.key.data(),n.iv.data(),n.enc)==1,"%s init: %s",n.name(),errs().c_str());
    else{REQUIRE(EVP_CipherInit_ex(n.c,nul?NULL:n.ci(),nul?NULL:eng(),NULL,NULL,0)==1,"%s init: %s",n.name(),errs().c_str());REQUIRE(n.decode(),"%s: parameters refused: %s",n.name(),errs().c_str());REQUIRE(EVP_CipherInit_ex(n.c,NULL,NULL,n.key.data(),s.flip()?n.iv.data():NULL,0)==1,"%s key: %s",n.name(),errs().c_str());}
    x=n;x.params();break;}
  case 1:{if(!x.live||!x.mgm||x.fin||x.text)break;Bytes d=s.bytes(s.len(40,{x.b()}));if(d.empty())break;note("aad%u:%zu",i,d.size());aead_feed(s,x,d,true);if(x.dirty)nt=true;x.dirty=true;break;}
  case 2:{if(!x.live||x.fin)break;Bytes d=s.bytes(!x.mgm&&s.chance(1,12)?1000+s.draw(2000):s.len(70,{x.b()}));if(d.empty())break;note("upd%u:%zu",i,d.size());aead_feed(s,x,d,false);if(x.dirty)nt=true;x.dirty=true;break;}
  case 3:{if(!x.live||x.fin)break;note("fin%u",i);aead_finish(s,x);break;}
  case 4:{if(!x.live)break;x.iv=s.bytes(x.il());note("newiv%u",i);REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,NULL,x.iv.data(),s.flip()?-1:(int)x.enc)==1,"%s: IV-only init: %s",x.name(),errs().c_str());x.restart();x.params();if(x.dirty)nt=true;break;}
  case 5:{if(!x.live||(x.mgm&&x.fin))break; /* a finished MGM message gives up its nonce */ x.key=s.bytes(32);note("rekey%u",i);REQUIRE(EVP_CipherInit_ex(x.c,NULL,NULL,x.key.data(),NULL,s.flip()?-1:(int)x.enc)==1,"%s: key-only init: %s",x.name(),errs().c_str());x.restart();x.params();if(x.dirty)nt=true;break;}
  case 6:{unsigned j=s.draw(3);if(j==i||!x.live)break;note("copy%u->%u",i,j);Aead&y=cs[j];EVP_CIPHER_CTX*t=y.c;REQUIRE(EVP_CIPHER_CTX_copy(t,x.c)==1,"%s: copy failed: %s",x.name(),errs().c_str());x.dirty=true;y=x;y.c=t;break;}
  default:if(s.flip()){note("reset%u",i);EVP_CIPHER_CTX_reset(x.c);}else{note("free%u",i);EVP_CIPHER_CTX_free(x.c);x.c=EVP_CIPHER_CTX_new();}x.live=x.dirty=false;break;
  }}
 for(unsigned i=0;i<3;i++){Aead&x=cs[i];if(!x.live||x.fin)continue;note("last%u",i);aead_feed(s,x,s.bytes(1+s.draw(40)),false);aead_finish(s,x);}
 if(nt)nontrivial(); }
// ---- C05
struct PSet{const char*oid,*ref;int nid;};
static const std::vector<PSet>&psets(){static std::vector<PSet> v={{"1.2.643.2.2.31.1","CryptoPro_A",0},{"1.2.643.2.2.31.2","CryptoPro_B",0},{"1.2.643.2.2.31.3","CryptoPro_C",0},{"1.2.643.2.2.31.4","CryptoPro_D",0},{"1.2.643.7.1.2.5.1.1","TC26_Z",0},{"1.2.643.2.2.31.0","Gost28147_Test",0}};return v;}
struct T{ASN1_TYPE*t;T():t(ASN1_TYPE_new()){} ~T(){ASN1_TYPE_free(t);}};
static Bytes tder(ASN1_TYPE*t){uint8_t*p=NULL;int n=i2d_ASN1_TYPE(t,&p);Bytes r;if(n>0)r.assign(p,p+n);OPENSSL_free(p);return r;}
static size_t cms_section(int k){return k==M_ACPKM?8192:k==Z_ACPKM?262144:0;}
static bool has(const Bytes&h,const uint8_t*n,size_t l){for(size_t i=0;i+l<=h.size();i++)if(!memcmp(&h[i],n,l))return true;return false;}
static const int PC[]={G_CFB,G_CNT,G_CNT12,G_CBC,M_ACPKM,Z_ACPKM};
static Bytes std_params(const Spec&p,const PSet*ps,const Bytes&seed){ if(g89(p.k))return der_seq({der_octet(p.iv),der_oid(ps->oid)}); return der_seq({der_octet(cat(p.iv,seed))}); }
static const PSet*by_ref(const char*n){for(auto&x:psets())if(!strcmp(x.ref,n))return&x;return nullptr;}
SUB("C05",roundtrip,9000,150000,128){ Spec p=gen_spec(s,PC[s.draw(6)]);p.pad=true;Ctx c;Bytes rs=s.rnd(16);rs[0]|=1;rand_script(rs);if(s.chance(1,3)){Spec o=gen_spec(s,p.k);o.enc=false;init(c,o);label("after decryption");}init(c,p); /* the seed is drawn by the first init, before the key masks */const PSet*ps=nullptr;if(g89(p.k)){ps=by_ref(sbox_name(default_sbox(p.k)));if(s.flip()){ps=&psets()[s.draw(6)];REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_SET_SBOX,0,(void*)ps->oid)==1,"SET_SBOX");p.sbox=sbox_by_name(ps->ref);}}else p.section=cms_section(p.k);
 T t;REQUIRE(EVP_CIPHER_param_to_asn1(c,t.t)>0,"%s: encoding parameters failed: %s",info(p.k).name,errs().c_str());Bytes d=tder(t.t);
 if(g89(p.k)){Bytes e=std_params(p,ps,{});REQUIRE(d==e,"%s parameters encoded as %s, expected %s",info(p.k).name,hex(d).c_str(),hex(e).c_str());}
 else{REQUIRE(d.size()==4+p.iv.size()+8&&d==std_params(p,nullptr,ref::sub(d,4+p.iv.size(),8)),"%s parameters encoded as %s with iv %s",info(p.k).name,hex(d).c_str(),hex(p.iv).c_str());REQUIRE(ref::sub(d,4+p.iv.size(),8)==ref::sub(rs,0,8),"%s: the UKM seed %s does not come from the random source (%s)",info(p.k).name,hex(d).c_str(),hex(rs).c_str());}
 size_t n=p.k==M_ACPKM?(s.flip()?s.len(300,{8}):8000+s.draw(400)):p.k==Z_ACPKM?(s.chance(1,60)?262144-20+s.draw(60):s.flip()?4000+s.draw(5000):s.len(300,{16})):s.len(s.chance(1,4)?2200:200,{8,1024});
 note("%s %s len=%zu params=%s",info(p.k).name,ps?ps->ref:"-",n,hex(d).c_str());label(info(p.k).name);if(n>1000)nontrivial();
 Bytes m=s.bytes(n),ct;Model md(p);step(c,md,m,false,0,"enc",&ct);finish(c,md,"enc",&ct);
 // receiving side, as CMS and PKCS#7 do it: parameters first, key afterwards; or key first, parameters, then restart
 Ctx r;const uint8_t*q=d.data();ASN1_TYPE*t2=d2i_ASN1_TYPE(NULL,&q,d.size());REQUIRE(t2,"d2i");bool keyfirst=s.chance(1,3);REQUIRE(EVP_CipherInit_ex(r,cipher(info(p.k).nid),eng(),keyfirst?p.key.data():NULL,NULL,0)==1,"init: %s",errs().c_str());int ok=EVP_CIPHER_asn1_to_param(r,t2);ASN1_TYPE_free(t2);REQUIRE(ok>0,"%s: own parameters %s rejected: %s",info(p.k).name,hex(d).c_str(),errs().c_str());REQUIRE(EVP_CipherInit_ex(r,NULL,NULL,keyfirst&&s.flip()?NULL:p.key.data(),NULL,0)==1,"init key: %s",errs().c_str());
 Spec dp=p;dp.enc=false;Model dm(dp);Bytes pt;step(r,dm,ct,false,0,"decrypt after decoding the parameters",&pt);REQUIRE(finish(r,dm,"dec",&pt)&&pt==m,"%s: message not recovered",info(p.k).name); }
static void usable(Src&s,int k,const Bytes&der,ASN1_TYPE*t,EVP_CIPHER_CTX*r,const Bytes&key){ // decoding succeeded: the context must work with exactly the parameters it now reports, which must come from the input
 REQUIRE(EVP_CipherInit_ex(r,NULL,NULL,key.data(),NULL,1)==1,"init after accepted parameters: %s",errs().c_str());T o;REQUIRE(EVP_CIPHER_param_to_asn1(r,o.t)>0,"accepted parameters cannot be encoded again");Bytes d2=tder(o.t);
 if(der.size()>3&&der[0]==0x30&&der[1]<0x80&&der[2]==4&&der[3]<0x80)REQUIRE(der[3]==info(k).ivlen+(g89(k)?0:8),"%s: parameters with an octet string of %d bytes accepted",info(k).name,der[3]);
 Spec p;p.k=k;p.key=key;size_t il=info(k).ivlen;REQUIRE(d2.size()>4+il,"re-encoded parameters too short: %s",hex(d2).c_str());p.iv=ref::sub(d2,4,il);p.section=cms_section(k);REQUIRE(has(der,p.iv.data(),il),"context uses IV %s that is not in the decoded parameters %s",hex(p.iv).c_str(),hex(der).c_str());
 if(g89(k)){const PSet*f=nullptr;for(auto&x:psets()){Bytes o=der_oid(x.oid);if(has(d2,o.data(),o.size()))f=&x;}REQUIRE(f,"unknown parameter set in %s",hex(d2).c_str());Bytes ob=der_oid(f->oid);REQUIRE(has(der,ob.data()+2,ob.size()-2),"context uses %s that is not in the decoded parameters %s",f->ref,hex(der).c_str());p.sbox=sbox_by_name(f->ref);}
 else REQUIRE(has(der,&d2[4+il],8),"UKM seed not from the input");
 Model m(p);step(r,m,s.bytes(1+s.draw(40)),false,0,"after decoding"); }
static Bytes mutate(Src&s,Bytes d){size_t n=1+s.draw(3);for(size_t i=0;i<n;i++)switch(s.draw(7)){case 0:if(d.size())d[s.draw(d.size())]^=1<<s.draw(8);break;case 1:if(d.size())d[s.draw(std::min(d.size(),(size_t)6))]=s.draw(256);break;case 2:if(d.size()>2)d.resize(2+s.draw(d.size()-2));break;case 3:{Bytes x=s.bytes(1+s.draw(4));d.insert(d.end(),x.begin(),x.end());break;}case 4:if(d.size()){size_t o=s.draw(d.size());d.erase(d.begin()+o,d.begin()+std::min(d.size(),o+1+s.draw(4)));}break;case 5:if(d.size())d.insert(d.begin()+s.draw(d.size()),s.draw(256));break;case 6:if(d.size()>1)d[1]=d.size()-2+s.draw(3)-1;break;}return d;}
SUB("C05",hostile,24000,500000,256){ int k=PC[s.draw(6)];Spec p=gen_spec(s,k);const PSet*ps=&psets()[s.draw(6)];Bytes der;bool valid=false;
 switch(s.draw(7)){case 0:der=std_params(p,ps,s.rnd(8));valid=true;break;case 1:der=mutate(s,std_params(p,ps,s.rnd(8)));break;
 case 2:{Spec q=p;q.iv=s.bytes(s.draw(24));der=std_params(q,ps,s.bytes(s.draw(20)));break;} // wrong field lengths
 case 3:der=der_seq({der_octet(p.iv),der_oid(s.pick({"1.2.643.2.2.30.1","1.2.643.2.2.35.1","1.2.3.4","2.5.4.3","1.2.643.7.1.2.5.1.2"}))});break;
 case 4:der=s.pick({Bytes{5,0},der_octet(s.bytes(8)),der_oid(ps->oid),Bytes{1,1,0xff},Bytes{0x30,0},Bytes{0x30,2,5,0},Bytes{2,1,1},Bytes{0x30,3,2,1,5},der_seq({der_octet(p.iv)}),der_seq({der_oid(ps->oid)}),Bytes{0x31,0}});break;
 case 5:{int k2=PC[s.draw(6)];Spec q=gen_spec(s,k2);der=std_params(q,ps,s.rnd(8));break;}
 default:der=s.bytes(s.draw(40));if(der.size()>1){der[0]=0x30;der[1]=der.size()-2;}}
 note("%s der=%s",info(k).name,hex(der,80).c_str());nontrivial();In in(der);const uint8_t*q=in.p;ASN1_TYPE*t=d2i_ASN1_TYPE(NULL,&q,der.size());if(!t){label("not DER");ERR_clear_error();return;}
 Ctx r;Bytes key=gen_key(s);bool keyfirst=s.flip();REQUIRE(EVP_CipherInit_ex(r,cipher(info(k).nid),eng(),keyfirst?key.data():NULL,NULL,1)==1,"init");int ok=EVP_CIPHER_asn1_to_param(r,t);
 if(ok>0){label("accepted");usable(s,k,der,t,r,key);}else{label("refused");REQUIRE(!valid,"%s: standard parameters %s refused: %s",info(k).name,hex(der).c_str(),errs().c_str());ERR_clear_error();
  Spec n=gen_spec(s,k);init(r,n);Model m(n);if(!g89(k))m.sp.section=info(k).section;step(r,m,s.bytes(20),false,0,"context reused after refused parameters");}
 ASN1_TYPE_free(t); }
SUB("C05",absent,200,1000,16){ int k=PC[s.draw(6)];Ctx r;Bytes key=gen_key(s);REQUIRE(EVP_CipherInit_ex(r,cipher(info(k).nid),eng(),s.flip()?key.data():NULL,NULL,0)==1,"init");note("%s absent parameters",info(k).name);nontrivial();int ok=EVP_CIPHER_asn1_to_param(r,NULL);REQUIRE(ok<=0,"absent parameters accepted");ERR_clear_error(); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
