// A01 / A02 MGM, A03 CTR-ACPKM-OMAC
#include "env.h"
#include <openssl/asn1.h>
#include <openssl/x509.h>
#include <sys/mman.h>
using namespace ref;
static pbt::Rule r1("A01","cipher, key, nonce (also constructed so that the Y or Z counter wraps), associated data, plaintext, partitions and init order drawn, contexts reused and copied; non-trivial: AAD or text longer than a block, or a partition inside a block, or a wrapping counter");
static pbt::Rule r2("A02","a valid (key, nonce, AAD, ciphertext, tag) with one drawn alteration, plus unaltered controls; non-trivial: altered");
static pbt::Rule r3("A03","as A01 for the CTR-ACPKM-OMAC ciphers, UKM seed from the AlgorithmIdentifier or the random source; altered and unaltered decryption; non-trivial: at least one byte of text");
struct Ctx{EVP_CIPHER_CTX*c;Ctx():c(EVP_CIPHER_CTX_new()){} ~Ctx(){EVP_CIPHER_CTX_free(c);} Ctx(const Ctx&)=delete;operator EVP_CIPHER_CTX*()const{return c;}};
static const EVP_CIPHER*mgmc(bool z){return cipher(nid_of(z?"kuznyechik-mgm":"magma-mgm"));}
struct Msg{bool z;Bytes key,nonce,aad,pt;std::string how;size_t b()const{return z?16:8;}};
static Bytes wrapnonce(Src&s,bool z,const Bytes&key,bool forZ){auto c=make_bc(z);c->key(key.data());size_t b=c->bs();for(int t=0;t<64;t++){Bytes n=s.rnd(b),o(b);size_t off=forZ?0:b/2;for(size_t i=0;i<b/2;i++)n[off+i]=0xff;n[off+b/2-1]=0xff-s.draw(4);if(s.chance(1,4))n[off+b/2-2]=0xff-s.draw(2);c->dec(n.data(),o.data());if(((o[0]>>7)&1)==(forZ?1:0)){o[0]&=0x7f;return o;}}return Bytes();}
static Msg gen(Src&s,size_t max=200){Msg m;m.z=s.flip();m.key=s.bytes(32);size_t b=m.b();unsigned h=s.draw(4);if(h==0)m.nonce=s.bytes(b);else if(h==3)m.nonce=s.rnd(b);else{m.nonce=wrapnonce(s,m.z,m.key,h==1);m.how=h==1?" Zwrap":" Ywrap";}if(m.nonce.empty())m.nonce=s.bytes(b);m.aad=s.bytes(s.len(max,{b}));m.pt=s.bytes(s.len(max,{b}));if(s.chance(1,8))m.aad.clear();if(s.chance(1,8))m.pt.clear();if(m.aad.empty()&&m.pt.empty())m.pt=s.bytes(1);/* RFC 9058: |A|+|P|>0 */return m;}
static MgmOut mref(const Msg&m){auto c=make_bc(m.z);c->key(m.key.data());return mgm(*c,m.nonce,m.aad,m.pt,true);}
static void minit(Src&s,EVP_CIPHER_CTX*c,const Msg&m,int enc,bool fresh){const EVP_CIPHER*e=fresh?mgmc(m.z):NULL;ENGINE*g=fresh?eng():NULL;int r=1;
 switch(s.draw(fresh?5:3)){ // every accepted order of supplying key and nonce
 case 0:r=EVP_CipherInit_ex(c,e,g,m.key.data(),m.nonce.data(),enc);break;
 case 1:r=EVP_CipherInit_ex(c,e,g,m.key.data(),NULL,enc)==1&&EVP_CipherInit_ex(c,NULL,NULL,NULL,m.nonce.data(),enc)==1;break;
 case 2:r=EVP_CipherInit_ex(c,e,g,NULL,NULL,enc)==1&&EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),m.nonce.data(),enc)==1;break;
 case 3:r=EVP_CipherInit_ex(c,e,g,NULL,m.nonce.data(),enc)==1&&EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),NULL,enc)==1;break;
 case 4:r=EVP_CipherInit_ex(c,e,g,NULL,NULL,enc)==1&&EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_IVLEN,m.b(),NULL)==1&&EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),m.nonce.data(),enc)==1;break;}
 REQUIRE(r==1,"MGM init failed: %s",errs().c_str());}
static bool feed(Src&s,EVP_CIPHER_CTX*c,const Bytes&d,const std::vector<size_t>&parts,Bytes*out,bool inplace,size_t mis){size_t o=0;for(size_t n:parts){int ol=-1;In in(sub(d,o,n),mis);if(!out){if(EVP_CipherUpdate(c,NULL,&ol,in.p,n)!=1)return false;REQUIRE((size_t)ol==n,"AAD length reported %d for %zu",ol,n);}
 else if(inplace){if(EVP_CipherUpdate(c,in.p,&ol,in.p,n)!=1)return false;REQUIRE((size_t)ol==n,"update reported %d for %zu",ol,n);out->insert(out->end(),in.p,in.p+n);}
 else{Buf b(n);if(EVP_CipherUpdate(c,b.p,&ol,in.p,n)!=1)return false;REQUIRE((size_t)ol==n,"update reported %d for %zu",ol,n);out->insert(out->end(),b.p,b.p+n);}o+=n;}return true;}
static bool fin(EVP_CIPHER_CTX*c){Buf b(0);int l=-1;int r=EVP_CipherFinal_ex(c,b.p,&l);ERR_clear_error();REQUIRE(r<=0||l==0,"final returned %d bytes",l);return r==1;}
static Bytes gettag(Src&s,EVP_CIPHER_CTX*c,size_t b,size_t want=0){size_t n=want?want:1+s.draw(b);Buf t(n);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,n,t.p)==1,"GET_TAG %zu failed %s",n,errs().c_str());return Bytes(t.p,t.p+n);}
static void same(const Bytes&g,const Bytes&e,const char*w){if(g!=e)pbt::fail("%s: got %s expected %s",w,hex(g,64).c_str(),hex(e,64).c_str());}
static void ntrv(const Msg&m,size_t p){if(m.aad.size()>m.b()||m.pt.size()>m.b()||p>2||!m.how.empty())nontrivial();}
static void decrypt_ok(Src&s,EVP_CIPHER_CTX*c,const Msg&m,const MgmOut&e,bool fresh){ minit(s,c,m,0,fresh);Bytes tag=e.tag,pt;bool before=s.flip();auto set=[&]{In t(tag);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,m.b(),t.p)==1,"SET_TAG failed %s",errs().c_str());};if(before)set();auto pa=m.aad.empty()&&s.flip()?std::vector<size_t>{}:s.split(m.aad.size(),{m.b()}),pp=m.pt.empty()&&s.flip()?std::vector<size_t>{}:s.split(m.pt.size(),{m.b()});REQUIRE(feed(s,c,m.aad,pa,NULL,false,0),"AAD refused %s",errs().c_str());REQUIRE(feed(s,c,e.ct,pp,&pt,s.flip(),s.draw(3)),"ciphertext refused %s",errs().c_str());if(!before)set();REQUIRE(fin(c),"valid message refused");same(pt,m.pt,"MGM decryption"); }
static void encrypt_ok(Src&s,EVP_CIPHER_CTX*c,const Msg&m,const MgmOut&e,bool fresh,EVP_CIPHER_CTX*copyto=NULL){ minit(s,c,m,1,fresh);auto pa=m.aad.empty()&&s.flip()?std::vector<size_t>{}:s.split(m.aad.size(),{m.b()}),pp=m.pt.empty()&&s.flip()?std::vector<size_t>{}:s.split(m.pt.size(),{m.b()});Bytes ct;REQUIRE(feed(s,c,m.aad,pa,NULL,false,s.draw(3)),"AAD refused %s",errs().c_str());REQUIRE(feed(s,c,m.pt,pp,&ct,s.flip(),s.draw(3)),"plaintext refused %s",errs().c_str());REQUIRE(fin(c),"encryption final failed");same(ct,e.ct,"MGM ciphertext");Bytes t=gettag(s,c,m.b(),s.flip()?m.b():0);same(t,sub(e.tag,0,t.size()),"MGM tag"); }
// long messages, all of whose blocks that enter the sum are zero (zero associated data, decryption of a zero ciphertext): the sum is
// H_{last} * len(A)||len(C), so the tag is known without processing the message (uninstrumented helper)
static void long_mgm(Src&s,bool z,uint64_t A,uint64_t M,bool within){ const char*p=getenv("PROG_longctr");REQUIRE(p,"helper missing");size_t b=z?16:8,h=b/2;Bytes key=s.rnd(32),n=s.rnd(b);n[0]&=0x7f;auto c=make_bc(z);c->key(key.data());
 auto add=[](uint8_t*q,size_t w,uint64_t v){for(size_t i=w;i--&&v;){v+=q[i];q[i]=(uint8_t)v;v>>=8;}};
 size_t tail=std::min<uint64_t>(M,80);uint64_t body=M-tail;Bytes Z=n,Y=n,H(b),len(b,0),T(b);Z[0]|=0x80;c->enc(Z.data(),Z.data());c->enc(Y.data(),Y.data());add(Z.data(),h,(A+b-1)/b+(M+b-1)/b);c->enc(Z.data(),H.data());add(len.data(),h,A*8);add(len.data()+h,h,M*8);gf_mul(H.data(),len.data(),T.data(),b);c->enc(T.data(),T.data());
 std::string e;{Bytes k;Bytes y=Y;add(y.data()+h,h,body/b);while(k.size()<tail+body%b){Bytes g(b);c->enc(y.data(),g.data());k.insert(k.end(),g.begin(),g.end());add(y.data()+h,h,1);}e=tohex(sub(k,body%b,tail))+"+";}
 if(!within)e="refused";
 note("%s aad=%llu text=%llu key=%s nonce=%s",z?"kuznyechik-mgm":"magma-mgm",(unsigned long long)A,(unsigned long long)M,tohex(key).c_str(),tohex(n).c_str());nontrivial();label(within?"within the limit":"too long");
 std::string cmd=std::string("OPENSSL_CONF=/dev/null ")+p+(z?" kuznyechik-mgm ":" magma-mgm ")+tohex(key)+" "+tohex(n)+" "+std::to_string(A)+" "+std::to_string(body)+" "+std::to_string(tail)+" 0 "+tohex(T);FILE*f=popen(cmd.c_str(),"r");char g[1000]="";if(!fgets(g,1000,f))g[0]=0;int rc=pclose(f);g[strcspn(g,"\n")]=0;REQUIRE(rc==0,"helper failed (%d)",rc);
 REQUIRE(e==g,"%s, %llu bytes of associated data, %llu of text: %s, expected %s",z?"kuznyechik-mgm":"magma-mgm",(unsigned long long)A,(unsigned long long)M,g,e.c_str()); }
static uint64_t deep(uint64_t q,uint64_t t){return pbt::thorough()?t:q;}
SUB("A01",long_kuzn_text,1,1,1,900){ long_mgm(s,true,s.draw(50),deep((1ull<<29)+s.draw(100),(1ull<<32)+s.draw(100)),true); }
SUB("A01",long_kuzn_aad,1,1,1,900){ long_mgm(s,true,deep((1ull<<29)+s.draw(100),(1ull<<32)+s.draw(100)),s.draw(50),true); }
SUB("A01",long_magma_text,1,2,1,900){ uint64_t A=s.draw(50);long_mgm(s,false,A,deep((1ull<<28)-s.draw(100),(1ull<<29)-1-A),true); }
SUB("A01",long_magma_aad,1,2,1,900){ uint64_t M=1+s.draw(50);long_mgm(s,false,(1ull<<29)-1-M,M,true); }
SUB("A01",too_long_magma,1,3,1,900){ uint64_t M=1+s.draw(50);if(s.flip()&&pbt::thorough())long_mgm(s,false,M,(1ull<<29)-M,false);else long_mgm(s,false,(1ull<<29)-M,M,false); }
SUB("A01",vs_rfc9058,24000,400000,256){ Msg m=gen(s,s.chance(1,20)?5000:200);MgmOut e=mref(m);note("%s aad=%zu pt=%zu nonce=%s%s",m.z?"kuznyechik":"magma",m.aad.size(),m.pt.size(),hex(m.nonce).c_str(),m.how.c_str());label(m.how.empty()?"plain":m.how);ntrv(m,0);Ctx c;encrypt_ok(s,c,m,e,true);Ctx d;decrypt_ok(s,d,m,e,true); }
SUB("A01",reuse,9000,150000,128){ Ctx c;bool have=false,z=false;size_t n=2+s.draw(4);nontrivial();Bytes lastkey;
 for(size_t i=0;i<n;i++){Msg m=gen(s,80);bool fresh=!have||m.z!=z||s.chance(1,4);if(have&&s.chance(1,6)){EVP_CIPHER_CTX_reset(c);fresh=true;}MgmOut e=mref(m);bool enc=s.flip();
  if(s.chance(1,4)){ // abandon a message in the middle first
   minit(s,c,m,enc,fresh);fresh=false;Bytes t;feed(s,c,m.aad,{m.aad.size()},NULL,false,0);feed(s,c,m.pt,{m.pt.size()},&t,false,0);}
  note("%s%s aad=%zu pt=%zu%s%s",m.z?"kuznyechik":"magma",enc?" enc":" dec",m.aad.size(),m.pt.size(),m.how.c_str(),fresh?" fresh":"");if(enc)encrypt_ok(s,c,m,e,fresh);else decrypt_ok(s,c,m,e,fresh);have=true;z=m.z;
  if(s.chance(1,3)){ // same key, new nonce only
   Msg m2=gen(s,60);m2.z=m.z;m2.key=m.key;m2.nonce=s.bytes(m.b());MgmOut e2=mref(m2);REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,NULL,m2.nonce.data(),1)==1,"nonce-only init");Bytes ct;REQUIRE(feed(s,c,m2.aad,{m2.aad.size()},NULL,false,0)&&feed(s,c,m2.pt,{m2.pt.size()},&ct,false,0)&&fin(c),"nonce-only encryption");same(ct,e2.ct,"nonce-only ciphertext");same(gettag(s,c,m.b(),m.b()),e2.tag,"nonce-only tag");}
  else if(s.chance(1,4)){ // new key only, before anything was processed: the nonce is retained
   Msg m3=gen(s,60);m3.z=m.z;m3.nonce=s.bytes(m.b());REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),m3.nonce.data(),1)==1,"init");REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,m3.key.data(),NULL,1)==1,"key-only init");MgmOut e3=mref(m3);Bytes ct;REQUIRE(feed(s,c,m3.aad,{m3.aad.size()},NULL,false,0)&&feed(s,c,m3.pt,{m3.pt.size()},&ct,false,0)&&fin(c),"key-only encryption");same(ct,e3.ct,"key-only ciphertext");same(gettag(s,c,m.b(),m.b()),e3.tag,"key-only tag");}
 } }
SUB("A01",copies,9000,150000,128){ Msg m=gen(s,90);MgmOut e=mref(m);bool enc=s.flip();const Bytes&in=enc?m.pt:e.ct;size_t b=m.b();size_t total=m.aad.size()+in.size(),cut=s.draw(total+1);note("%s %s aad=%zu pt=%zu copied at %zu",m.z?"kuznyechik":"magma",enc?"enc":"dec",m.aad.size(),m.pt.size(),cut);nontrivial();
 EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new(),*d=EVP_CIPHER_CTX_new();if(s.chance(1,3)){Msg o=gen(s,20);minit(s,d,o,1,true);}
 minit(s,c,m,enc,true);if(!enc){In t(e.tag);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t.p)==1,"SET_TAG");}
 Bytes o1;auto run=[&](EVP_CIPHER_CTX*x,size_t from,size_t to,Bytes&out){size_t a=m.aad.size();if(from<a&&to>from)REQUIRE(feed(s,x,sub(m.aad,from,std::min(to,a)-from),{std::min(to,a)-from},NULL,false,0),"aad");if(to>a){size_t f=std::max(from,a)-a;REQUIRE(feed(s,x,sub(in,f,to-a-f),{to-a-f},&out,false,0),"text");}};
 run(c,0,cut,o1);REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"copy failed %s",errs().c_str());Bytes o2=o1;
 int mode=s.draw(3);Msg junk=gen(s,30);junk.z=m.z;junk.nonce=s.bytes(b);
 if(mode==0){EVP_CIPHER_CTX_free(c);c=NULL;}else if(mode==1){REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,junk.key.data(),junk.nonce.data(),1)==1,"init");Bytes x;feed(s,c,junk.aad,{junk.aad.size()},NULL,false,0);feed(s,c,junk.pt,{junk.pt.size()},&x,false,0);}
 run(d,cut,total,o2);REQUIRE(fin(d),"copy: final failed");same(o2,enc?e.ct:m.pt,"copy output");if(enc)same(gettag(s,d,b,b),e.tag,"copy tag");
 if(mode==2){run(c,cut,total,o1);REQUIRE(fin(c),"original: final failed");same(o1,enc?e.ct:m.pt,"original output");if(enc)same(gettag(s,c,b,b),e.tag,"original tag");}
 EVP_CIPHER_CTX_free(c);EVP_CIPHER_CTX_free(d); }
SUB("A01",controls,5000,60000,128){ Msg m=gen(s,50);MgmOut e=mref(m);size_t b=m.b();Ctx c;REQUIRE(EVP_CipherInit_ex(c,mgmc(m.z),eng(),NULL,NULL,1)==1,"init");nontrivial();
 int il=s.pick({0,-1,(int)b-1,(int)b+1,17,1,4,16,8,100});note("%s ivlen=%d",m.z?"kuznyechik":"magma",il);int r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_IVLEN,il,NULL);
 if(il==(int)b)REQUIRE(r==1,"nonce length %d refused",il);else REQUIRE(r<=0,"nonce length %d accepted by a cipher with %zu-byte nonces",il,b);ERR_clear_error();
 REQUIRE(EVP_CIPHER_CTX_iv_length(c)==(int)b,"nonce length %d",EVP_CIPHER_CTX_iv_length(c));
 uint8_t t[16]={0};REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,b,t)<=0,"tag available before encryption");REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t)<=0,"tag accepted when encrypting");ERR_clear_error();
 int ol;uint8_t o[64];Bytes one=s.bytes(1);REQUIRE(EVP_CipherUpdate(c,o,&ol,one.data(),1)<=0,"data accepted without key");ERR_clear_error();
 REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),m.nonce.data(),1)==1,"init");Bytes ct;REQUIRE(feed(s,c,m.aad,{m.aad.size()},NULL,false,0)&&feed(s,c,m.pt,{m.pt.size()},&ct,false,0)&&fin(c),"encryption");same(ct,e.ct,"ciphertext");
 for(int bad:{0,-1,(int)b+1,17,100})REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_GET_TAG,bad,o)<=0,"tag length %d accepted",bad);ERR_clear_error();same(gettag(s,c,b,b),e.tag,"tag");
 REQUIRE(EVP_CipherUpdate(c,o,&ol,one.data(),1)<=0,"data accepted after final without a new nonce");ERR_clear_error();
 if(m.pt.size()){REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,NULL,m.nonce.data(),1)==1,"init");ct.clear();REQUIRE(feed(s,c,m.pt,{m.pt.size()},&ct,false,0),"data");REQUIRE(EVP_CipherUpdate(c,NULL,&ol,one.data(),1)<=0,"associated data accepted after text");ERR_clear_error();}
 Ctx d;REQUIRE(EVP_CipherInit_ex(d,mgmc(m.z),eng(),m.key.data(),m.nonce.data(),0)==1,"init");In tg(e.tag);for(int bad:{0,-1,(int)b-1,1,(int)b+1})REQUIRE(EVP_CIPHER_CTX_ctrl(d,EVP_CTRL_AEAD_SET_TAG,bad,tg.p)<=0,"tag length %d accepted",bad);ERR_clear_error();REQUIRE(!fin(d),"success without a tag"); }
// |A|+|P| is limited to less than 2^32 bits for magma (the length fields are 32 bits wide)
SUB("A01",limits,64,200,8){ static uint8_t*big=NULL,*dst;const size_t L=1u<<29;if(!big){big=(uint8_t*)mmap(NULL,L+8192,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);dst=(uint8_t*)mmap(NULL,L+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);}
 Ctx c;int enc=s.flip();REQUIRE(EVP_CipherInit_ex(c,mgmc(false),eng(),s.bytes(32).data(),s.bytes(8).data(),enc)==1,"init");size_t a=s.draw(40),p=s.draw(40),over=s.draw(3)*s.draw(4000);int ol;uint8_t o[64];int where=s.draw(2);note("aad=%zu pt=%zu then %s to %zu past the limit",a,p,where?"text":"AAD",over);nontrivial();
 if(a)REQUIRE(EVP_CipherUpdate(c,NULL,&ol,big,a)==1,"aad");
 if(!where){REQUIRE(EVP_CipherUpdate(c,NULL,&ol,big,L-a+over)<=0,"%zu bytes of AAD accepted",L+over);}
 else{if(p)REQUIRE(EVP_CipherUpdate(c,o,&ol,big,p)==1,"text");REQUIRE(EVP_CipherUpdate(c,dst,&ol,big,L-p-(s.flip()?a:0)+over)<=0,"too much text accepted");}ERR_clear_error();
 }
// everything below the limit is accepted, and long messages are still processed as specified
SUB("A01",longest,4,12,1,300){ static uint8_t*big=NULL;const size_t L=1u<<29;if(!big)big=(uint8_t*)mmap(NULL,L,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
 bool whole=pbt::thorough()&&s.chance(1,2);nontrivial();int ol;Ctx c;
 if(whole){Bytes k=s.bytes(32),n=s.bytes(8),p=s.bytes(1+s.draw(40)),ct(p.size());size_t a=L-1-p.size();note("magma AAD=%zu pt=%zu, the largest allowed",a,p.size());REQUIRE(EVP_CipherInit_ex(c,mgmc(false),eng(),k.data(),n.data(),1)==1,"init");REQUIRE(EVP_CipherUpdate(c,NULL,&ol,big,a)==1,"%zu bytes of AAD refused: %s",a,errs().c_str());REQUIRE(EVP_CipherUpdate(c,ct.data(),&ol,p.data(),p.size())==1,"text refused: %s",errs().c_str());uint8_t o[8];REQUIRE(EVP_CipherUpdate(c,o,&ol,p.data(),1)<=0,"a byte past the limit accepted");ERR_clear_error();}
 else{Msg m;m.z=s.flip();m.key=s.bytes(32);m.nonce=s.bytes(m.b());bool ia=s.flip();m.aad=s.rnd(ia?(1u<<21)+s.draw(70000):s.draw(30));m.pt=s.rnd(!ia?(1u<<21)+s.draw(70000):1+s.draw(30));note("%s aad=%zu pt=%zu",m.z?"kuznyechik":"magma",m.aad.size(),m.pt.size());MgmOut e=mref(m);encrypt_ok(s,c,m,e,true);Ctx d;decrypt_ok(s,d,m,e,true);} }
// ---- A02
SUB("A02",alterations,30000,600000,256){ Msg m=gen(s,100);size_t b=m.b();MgmOut e=mref(m);Msg x=m;Bytes ct=e.ct,tag=e.tag;int kind=s.draw(11);const char*what="none";
 auto flipb=[&](Bytes&v,const char*n,size_t skiptop=0){if(v.empty())return;size_t bit=s.draw(v.size()*8-skiptop)+skiptop;v[bit/8]^=0x80>>(bit%8);what=n;};
 switch(kind){case 0:break;case 1:flipb(ct,"ciphertext bit");break;case 2:flipb(x.aad,"AAD bit");break;case 3:flipb(x.nonce,"nonce bit",1);break;case 4:flipb(x.key,"key bit");break;case 5:flipb(tag,"tag bit");break;
 case 6:{Bytes ex=s.flip()?Bytes(1+s.draw(b),0):s.bytes(1+s.draw(3*b));Bytes&v=s.flip()?ct:x.aad;v.insert(s.flip()?v.end():v.begin()+s.draw(v.size()+1),ex.begin(),ex.end());what="bytes added";break;}
 case 7:{Bytes&v=s.flip()?ct:x.aad;if(v.empty())break;size_t o=s.flip()?v.size()-1:s.draw(v.size()),n=1+s.draw(v.size()-o);v.erase(v.begin()+o,v.begin()+o+n);what="bytes dropped";break;}
 case 8:{ // move bytes between AAD and ciphertext
  if(s.flip()){if(x.aad.empty())break;size_t n=1+s.draw(x.aad.size());ct.insert(ct.begin(),x.aad.end()-n,x.aad.end());x.aad.resize(x.aad.size()-n);}else{if(ct.empty())break;size_t n=1+s.draw(ct.size());x.aad.insert(x.aad.end(),ct.begin(),ct.begin()+n);ct.erase(ct.begin(),ct.begin()+n);}what="bytes moved";break;}
 case 9:{if(tag.size()){Bytes r=s.bytes(b);if(r!=tag){tag=r;what="other tag";}}break;}
 case 10:{if(x.aad!=ct){std::swap(x.aad,ct);what="AAD and ciphertext swapped";}break;}}
 bool altered=x.aad!=m.aad||ct!=e.ct||tag!=e.tag||x.key!=m.key||x.nonce!=m.nonce;note("%s aad=%zu ct=%zu %s",m.z?"kuznyechik":"magma",m.aad.size(),e.ct.size(),what);label(what);if(altered)nontrivial();
 Ctx c;minit(s,c,x,0,true);if(s.chance(1,8)){ // context that verified the genuine message before
  In t(e.tag);EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t.p);Msg g=m;decrypt_ok(s,c,g,e,false);minit(s,c,x,0,false);}
 bool before=s.flip();In t(tag);if(before)REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t.p)==1,"SET_TAG");Bytes pt;auto pa=x.aad.empty()&&s.flip()?std::vector<size_t>{}:s.split(x.aad.size(),{b}),pp=ct.empty()&&s.flip()?std::vector<size_t>{}:s.split(ct.size(),{b});
 REQUIRE(feed(s,c,x.aad,pa,NULL,false,0),"AAD refused");REQUIRE(feed(s,c,ct,pp,&pt,s.flip(),0),"text refused");if(!before)REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_AEAD_SET_TAG,b,t.p)==1,"SET_TAG");bool ok=fin(c);
 if(altered)REQUIRE(!ok,"altered message (%s) accepted",what);else{REQUIRE(ok,"unaltered message refused");same(pt,m.pt,"plaintext");} }
SUB("A02",no_tag,3000,30000,128){ Msg m=gen(s,60);MgmOut e=mref(m);Ctx c;bool used=s.flip();if(used){decrypt_ok(s,c,m,e,true);}Msg x=gen(s,60);x.z=m.z;if(used){x.key=m.key;x.nonce=s.bytes(m.b());}else x.nonce=s.bytes(m.b());if(used&&x.nonce==m.nonce)x.nonce[1]^=1;note("%s decryption finished without setting a tag%s",m.z?"kuznyechik":"magma",used?" (after an earlier message)":"");nontrivial();
 if(used)REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,NULL,x.nonce.data(),0)==1,"init");else REQUIRE(EVP_CipherInit_ex(c,mgmc(x.z),eng(),x.key.data(),x.nonce.data(),0)==1,"init");MgmOut ex=mref(x);Bytes pt;REQUIRE(feed(s,c,x.aad,{x.aad.size()},NULL,false,0)&&feed(s,c,ex.ct,{ex.ct.size()},&pt,false,0),"feed");REQUIRE(!fin(c),"decryption succeeded without a tag"); }
// ---- A03
static int omnid(bool z){return z?NID_kuznyechik_ctr_acpkm_omac:NID_magma_ctr_acpkm_omac;}
struct OM{bool z;Bytes key,iv,seed,pt;size_t section;};
static void oref(const OM&m,Bytes&ct,Bytes&tag){const char*l="kdf tree";Bytes keys=kdf_tree(m.key,Bytes(l,l+8),m.seed,64,1);auto mc=make_bc(m.z);mc->key(&keys[32]);Bytes mac=omac(*mc,m.pt);uint8_t c0[16]={0};memcpy(c0,m.iv.data(),m.iv.size());Bytes all=ctr_acpkm(m.z,keys.data(),c0,m.section,cat(m.pt,mac));ct=sub(all,0,m.pt.size());tag=sub(all,m.pt.size(),mac.size());}
static Bytes oparams(const OM&m){return der_seq({der_octet(cat(m.iv,m.seed))});}
static bool oset(EVP_CIPHER_CTX*c,const Bytes&d){const uint8_t*p=d.data();ASN1_TYPE*t=d2i_ASN1_TYPE(NULL,&p,d.size());int r=EVP_CIPHER_asn1_to_param(c,t);ASN1_TYPE_free(t);return r>0;}
static Bytes oget(EVP_CIPHER_CTX*c){STACK_OF(X509_ATTRIBUTE)*a=sk_X509_ATTRIBUTE_new_null();int r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PROCESS_UNPROTECTED,1,a);Bytes t;int n=sk_X509_ATTRIBUTE_num(a);if(n==1){ASN1_OCTET_STRING*o=(ASN1_OCTET_STRING*)X509_ATTRIBUTE_get0_data(sk_X509_ATTRIBUTE_value(a,0),0,V_ASN1_OCTET_STRING,NULL);char oid[64];OBJ_obj2txt(oid,64,X509_ATTRIBUTE_get0_object(sk_X509_ATTRIBUTE_value(a,0)),1);if(o&&!strcmp(oid,"1.2.643.7.1.0.6.1.1"))t.assign(ASN1_STRING_get0_data(o),ASN1_STRING_get0_data(o)+ASN1_STRING_length(o));}sk_X509_ATTRIBUTE_pop_free(a,X509_ATTRIBUTE_free);REQUIRE(r==1,"MAC attribute not produced: %s",errs().c_str());return t;}
static int oput(EVP_CIPHER_CTX*c,const Bytes&t,bool other=false){STACK_OF(X509_ATTRIBUTE)*a=NULL;ASN1_OBJECT*o=OBJ_txt2obj(other?"1.2.643.7.1.0.6.1.2":"1.2.643.7.1.0.6.1.1",1);X509at_add1_attr_by_OBJ(&a,o,V_ASN1_OCTET_STRING,t.data(),t.size());ASN1_OBJECT_free(o);int r=EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_PROCESS_UNPROTECTED,0,a);sk_X509_ATTRIBUTE_pop_free(a,X509_ATTRIBUTE_free);ERR_clear_error();return r;}
static OM ogen(Src&s){OM m;m.z=s.flip();m.key=s.bytes(32);m.iv=s.bytes(m.z?8:4);m.seed=s.flip()?s.rnd(8):s.bytes(8);if(s.chance(1,4))std::fill(m.seed.begin(),m.seed.begin()+s.draw(8),0);if(m.seed==Bytes(8,0))m.seed[s.draw(8)]=1;/* an all-zero seed is replaced */size_t b=m.z?16:8;m.section=m.z?4096:1024;size_t n=s.chance(1,4)?m.section*s.range(1,2)-2*b+s.draw(4*b):s.len(300,{b});m.pt=s.bytes(n);return m;}
// encrypt with the engine under a drawn way of fixing the seed; fills m.seed / m.section
static Bytes oenc(Src&s,EVP_CIPHER_CTX*c,OM&m,Bytes&tag,bool fresh){
 const EVP_CIPHER*e=fresh?cipher(omnid(m.z)):NULL;ENGINE*g=fresh?eng():NULL;int mode=s.draw(3);
 rand_script(m.seed);
 if(mode==0){REQUIRE(EVP_CipherInit_ex(c,e,g,m.key.data(),m.iv.data(),1)==1,"init %s",errs().c_str());}
 else{REQUIRE(EVP_CipherInit_ex(c,e,g,NULL,NULL,1)==1,"init");rand_script(m.seed);REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),m.iv.data(),1)==1,"init key %s",errs().c_str());}
 rand_script({});ASN1_TYPE*t=ASN1_TYPE_new();
 if(mode==2){size_t b=m.z?16:8;m.section=b*(1+s.draw(60));REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,m.section,NULL)==1,"KEY_MESH %s",errs().c_str());}
 size_t keep=m.section; if(mode!=2){REQUIRE(EVP_CIPHER_param_to_asn1(c,t)>0,"encode params");uint8_t*p=NULL;int n=i2d_ASN1_TYPE(t,&p);REQUIRE(n==(int)(4+m.iv.size()+8),"params length %d",n);REQUIRE(!memcmp(p+4,m.iv.data(),m.iv.size()),"IV in parameters");m.seed.assign(p+n-8,p+n);OPENSSL_free(p);m.section=m.z?262144:8192;}
 else{ // the seed must be learnt from the parameters; that resets the section, so set it again
  REQUIRE(EVP_CIPHER_param_to_asn1(c,t)>0,"encode params");uint8_t*p=NULL;int n=i2d_ASN1_TYPE(t,&p);m.seed.assign(p+n-8,p+n);OPENSSL_free(p);REQUIRE(EVP_CIPHER_CTX_ctrl(c,EVP_CTRL_KEY_MESH,m.section,NULL)==1,"KEY_MESH");}
 (void)keep;ASN1_TYPE_free(t);
 Bytes ct;REQUIRE(feed(s,c,m.pt,s.split(m.pt.size(),{m.z?16u:8u}),&ct,s.flip(),s.draw(3)),"update");REQUIRE(fin(c),"encryption final failed");tag=oget(c);return ct;}
SUB("A03",encrypt,10000,150000,128){ OM m=ogen(s);size_t n=1+s.chance(1,4);Ctx c;bool fresh=true;for(size_t i=0;i<n;i++){if(i){OM k=ogen(s);k.z=m.z;k.iv=s.bytes(m.z?8:4);m=k;if(s.flip()){EVP_CIPHER_CTX_reset(c);fresh=true;}else fresh=false;}
 if(!fresh){EVP_CIPHER_CTX_reset(c);fresh=true;}
 Bytes tag,ct=oenc(s,c,m,tag,fresh);Bytes ec,et;oref(m,ec,et);note("%s len=%zu section=%zu",m.z?"kuznyechik":"magma",m.pt.size(),m.section);if(m.pt.size())nontrivial();label(m.z?"kuznyechik":"magma");same(ct,ec,"CTR-ACPKM-OMAC ciphertext");same(tag,et,"CTR-ACPKM-OMAC tag");} }
SUB("A03",large,40,700,4){ // past the section sizes of the parameter encoding, and sections beyond 64 KiB
 OM m=ogen(s);size_t sec=m.z?262144:8192;m.pt=s.bytes(s.flip()?sec*(1+s.draw(m.z?1:3))-40+s.draw(80):65536+s.draw(70000));Ctx c;Bytes tag,ct;ct=oenc(s,c,m,tag,true);Bytes ec,et;oref(m,ec,et);note("%s len=%zu section=%zu",m.z?"kuznyechik":"magma",m.pt.size(),m.section);nontrivial();label(m.z?"kuznyechik":"magma");same(ct,ec,"CTR-ACPKM-OMAC ciphertext");same(tag,et,"CTR-ACPKM-OMAC tag");
 m.section=sec;oref(m,ec,et);Ctx d;REQUIRE(EVP_CipherInit_ex(d,cipher(omnid(m.z)),eng(),NULL,NULL,0)==1&&oset(d,der_seq({der_octet(cat(m.iv,m.seed))}))&&EVP_CipherInit_ex(d,NULL,NULL,m.key.data(),NULL,0)==1,"init: %s",errs().c_str());REQUIRE(oput(d,et)==1,"tag refused");Bytes pt;REQUIRE(feed(s,d,ec,s.split(ec.size(),{m.z?16u:8u,sec}),&pt,false,0),"update");REQUIRE(fin(d),"an authentic message is refused");same(pt,m.pt,"plaintext"); }
SUB("A03",decrypt,16000,250000,128){ OM m=ogen(s);m.section=m.z?262144:8192;Bytes ct,tag;if(!m.z&&s.chance(1,10))m.pt=s.bytes(8192-40+s.draw(80));oref(m,ct,tag);OM x=m;Bytes t=tag;const char*what="none";int kind=s.draw(8);auto fb=[&](Bytes&v,const char*n){if(v.empty())return;size_t i=s.draw(v.size()*8);v[i/8]^=1<<(i%8);what=n;};
 switch(kind){case 0:case 1:break;case 2:fb(ct,"ciphertext");break;case 3:fb(t,"tag");break;case 4:fb(x.key,"key");break;case 5:if(m.pt.size())fb(x.seed,"seed");break;case 6:if(s.flip()&&ct.size()){ct.resize(s.draw(ct.size()));what="truncated";}else{Bytes a=s.bytes(1+s.draw(20));ct=cat(ct,a);what="extended";}break;case 7:fb(x.iv,"iv");break;}
 bool alt=strcmp(what,"none");note("%s len=%zu %s",m.z?"kuznyechik":"magma",m.pt.size(),what);label(what);if(m.pt.size())nontrivial();
 Ctx c;REQUIRE(EVP_CipherInit_ex(c,cipher(omnid(m.z)),eng(),NULL,NULL,0)==1,"init");REQUIRE(oset(c,oparams(x)),"parameters refused %s",errs().c_str());REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,x.key.data(),s.flip()?NULL:x.iv.data(),0)==1,"init key %s",errs().c_str());bool before=s.flip();
 if(s.chance(1,5)){ // refused attributes: wrong length, wrong OID, absent
  int q=s.draw(3);int r=q==0?oput(c,sub(t,0,s.draw(t.size()))):q==1?oput(c,t,true):oput(c,cat(t,Bytes(1+s.draw(4),0)));REQUIRE(r<=0,"wrong MAC attribute accepted");}
 if(before)REQUIRE(oput(c,t)==1,"MAC attribute refused");Bytes pt;bool copied=s.chance(1,5);size_t cut=s.draw(ct.size()+1);
 if(copied){ Ctx d;REQUIRE(feed(s,c,sub(ct,0,cut),{cut},&pt,false,0),"update");REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"copy failed %s",errs().c_str());
  Bytes junk;if(s.flip()){feed(s,c,s.bytes(20),{20},&junk,false,0);}else EVP_CIPHER_CTX_reset(c);
  REQUIRE(feed(s,d,sub(ct,cut,ct.size()-cut),{ct.size()-cut},&pt,false,0),"update");if(!before)REQUIRE(oput(d,t)==1,"MAC attribute refused");bool ok=fin(d);if(alt)REQUIRE(!ok,"altered message accepted (%s) by a copy",what);else{REQUIRE(ok,"unaltered message refused by a copied context");same(pt,m.pt,"plaintext");}}
 else{ REQUIRE(feed(s,c,ct,s.split(ct.size(),{m.z?16u:8u}),&pt,s.flip(),0),"update");if(!before)REQUIRE(oput(c,t)==1,"MAC attribute refused");bool ok=fin(c);if(alt)REQUIRE(!ok,"altered message accepted (%s)",what);else{REQUIRE(ok,"unaltered message refused");same(pt,m.pt,"plaintext");}} }
SUB("A03",omac_reuse,4000,60000,128){ // the same context, keyed again without reset
 bool z=s.flip();Ctx c;size_t n=2+s.draw(3);nontrivial();REQUIRE(EVP_CipherInit_ex(c,cipher(omnid(z)),eng(),NULL,NULL,0)==1,"init");
 for(size_t i=0;i<n;i++){OM m=ogen(s);m.z=z;m.iv=s.bytes(z?8:4);m.section=z?262144:8192;Bytes ct,tag;oref(m,ct,tag);note("%s len=%zu",z?"kuznyechik":"magma",m.pt.size());
  REQUIRE(oset(c,oparams(m)),"params");REQUIRE(EVP_CipherInit_ex(c,NULL,NULL,m.key.data(),NULL,0)==1,"key");REQUIRE(oput(c,tag)==1,"tag");Bytes pt;bool abandon=s.chance(1,4);REQUIRE(feed(s,c,ct,s.split(ct.size(),{16}),&pt,false,0),"update");same(pt,m.pt,"plaintext");if(abandon)continue;REQUIRE(fin(c),"unaltered message refused in a reused context");} }
SUB("A03",unkeyed,600,4000,32){ // copying or finishing a context without key must not crash
 bool z=s.flip();Ctx c,d;int enc=s.flip();note("%s unkeyed",z?"kuznyechik":"magma");nontrivial();REQUIRE(EVP_CipherInit_ex(c,cipher(omnid(z)),eng(),NULL,NULL,enc)==1,"init");REQUIRE(EVP_CIPHER_CTX_copy(d,c)==1,"an initialised context without key cannot be copied: %s",errs().c_str());OM m=ogen(s);m.z=z;m.iv=s.bytes(z?8:4);Bytes tag;if(enc){Bytes ec,et;REQUIRE(EVP_CipherInit_ex(d,NULL,NULL,m.key.data(),m.iv.data(),1)==1,"init");ASN1_TYPE*t=ASN1_TYPE_new();REQUIRE(EVP_CIPHER_param_to_asn1(d,t)>0,"params");uint8_t*p=NULL;int n=i2d_ASN1_TYPE(t,&p);m.seed.assign(p+n-8,p+n);OPENSSL_free(p);ASN1_TYPE_free(t);m.section=z?262144:8192;Bytes ct;feed(s,d,m.pt,{m.pt.size()},&ct,false,0);REQUIRE(fin(d),"final");oref(m,ec,et);same(ct,ec,"ciphertext");same(oget(d),et,"tag");} }
int main(int c,char**v){return pbt::run(c,v,env_setup_late);}
