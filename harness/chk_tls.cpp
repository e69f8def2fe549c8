// X02 TLS 1.2 connections with GOST suites
#include "kx.h"
#include <openssl/ssl.h>
#include <openssl/x509.h>
using namespace ref; using namespace ec;
static pbt::Rule r1("X02","suite, key types, parameter sets, client certificate, resumption and a sequence of writes in both directions drawn; every protected record is decrypted and authenticated by the reference from the master secret; one record altered, dropped, repeated or swapped; non-trivial: at least two records with data, or an alteration");
static pbt::Assume a1("X02","the handshake state machine and PRF plumbing are OpenSSL's libssl 3.0; TLS 1.3 offers no GOST suite here");
struct Suite{const char*name;int kind;bool g2001;}; // kind 0: 28147 CNT + IMIT, 1: magma, 2: kuznyechik, 3: NULL + HMAC
static const Suite SU[]={{"GOST2012-KUZNYECHIK-KUZNYECHIKOMAC",2,false},{"GOST2012-MAGMA-MAGMAOMAC",1,false},{"IANA-GOST2012-GOST8912-GOST8912",0,false},{"LEGACY-GOST2012-GOST8912-GOST8912",0,false},{"GOST2001-GOST89-GOST89",0,true},{"GOST2012-NULL-GOST12",3,false}};
struct Id{int type;const Ps*p;N d;PK k;X509*cert=nullptr;~Id(){X509_free(cert);}};
static int mdnid(int t){return t==NID_id_GostR3410_2012_512?NID_id_GostR3411_2012_512:t==NID_id_GostR3410_2012_256?NID_id_GostR3411_2012_256:NID_id_GostR3411_94;}
static void gen_id(Src&s,Id&i,bool g2001){ do i.p=&params()[s.draw(params().size())];while(g2001&&i.p->c->hl!=32);i.type=g2001?NID_id_GostR3410_2001:i.p->c->hl==64?NID_id_GostR3410_2012_512:NID_id_GostR3410_2012_256;i.d=gen_scalar(s,*i.p->c,false);i.k=PK(mk_key(i.type,i.p->nid,&i.d));
 X509*x=i.cert=X509_new();X509_set_version(x,2);ASN1_INTEGER_set(X509_get_serialNumber(x),1);X509_NAME*n=X509_NAME_new();X509_NAME_add_entry_by_txt(n,"CN",MBSTRING_ASC,(const uint8_t*)(g2001?"a":"b"),1,-1,0);X509_set_subject_name(x,n);X509_set_issuer_name(x,n);X509_NAME_free(n);ASN1_TIME_set(X509_getm_notBefore(x),1000000000);ASN1_TIME_set_string(X509_getm_notAfter(x),"20991231235959Z");X509_set_pubkey(x,i.k);REQUIRE(X509_sign(x,i.k,digest(mdnid(i.type)))>0,"certificate: %s",errs().c_str()); }
struct Ctx{SSL_CTX*c;Ctx(const SSL_METHOD*m):c(SSL_CTX_new(m)){REQUIRE(c,"SSL_CTX: %s",errs().c_str());}~Ctx(){SSL_CTX_free(c);}operator SSL_CTX*(){return c;}Ctx(const Ctx&)=delete;};
struct End{SSL*s=nullptr;BIO*in=nullptr,*out=nullptr;void make(SSL_CTX*c){s=SSL_new(c);in=BIO_new(BIO_s_mem());out=BIO_new(BIO_s_mem());BIO_set_mem_eof_return(in,-1);BIO_set_mem_eof_return(out,-1);SSL_set_bio(s,in,out);}~End(){SSL_free(s);}};
static Bytes take(End&e){Bytes r;uint8_t b[4096];int n;while((n=BIO_read(e.out,b,sizeof b))>0)r.insert(r.end(),b,b+n);return r;}
static void give(End&e,const Bytes&b){if(b.size())BIO_write(e.in,b.data(),b.size());}
struct Conn{ const Suite*su;End c,s;Bytes wire[2]; // [0] client to server
 bool handshake(){ int rc=0,rs=0;for(int i=0;i<40&&!(rc==1&&rs==1);i++){if(rc!=1){rc=SSL_connect(c.s);if(rc!=1&&SSL_get_error(c.s,rc)!=SSL_ERROR_WANT_READ)return false;}move(0);if(rs!=1){rs=SSL_accept(s.s);if(rs!=1&&SSL_get_error(s.s,rs)!=SSL_ERROR_WANT_READ){move(1);return false;}}move(1);}return rc==1&&rs==1; }
 End&src(int d){return d?s:c;} End&dst(int d){return d?c:s;}
 void move(int d){Bytes b=take(src(d));wire[d]=cat(wire[d],b);give(dst(d),b);} };
struct Rec{uint8_t type;uint16_t ver;Bytes body;Bytes raw()const{return cat(Bytes{type,(uint8_t)(ver>>8),(uint8_t)ver,(uint8_t)(body.size()>>8),(uint8_t)body.size()},body);}};
static std::vector<Rec> records(const Bytes&b){std::vector<Rec> r;size_t o=0;while(o+5<=b.size()){size_t l=b[o+3]<<8|b[o+4];REQUIRE(o+5+l<=b.size(),"incomplete record on the wire");r.push_back({b[o],(uint16_t)(b[o+1]<<8|b[o+2]),sub(b,o+5,l)});o+=5+l;}REQUIRE(o==b.size(),"stray bytes on the wire");return r;}
static Bytes prf(HashId h,const Bytes&secret,const Bytes&seed,size_t n){Bytes a=seed,o;while(o.size()<n){a=hmac(h,secret,a);o=cat(o,hmac(h,secret,cat(a,seed)));}o.resize(n);return o;}
// decrypts the protected part of one direction; yields the application data
struct Keys{Bytes mk[2],ek[2],iv[2];};
static Keys keys(Conn&k){ SSL_SESSION*se=SSL_get_session(k.c.s);Bytes ms(48),cr(32),sr(32);REQUIRE(SSL_SESSION_get_master_key(se,ms.data(),48)==48,"master secret");SSL_get_client_random(k.c.s,cr.data(),32);SSL_get_server_random(k.c.s,sr.data(),32);const char*l="key expansion";Bytes seed=cat(Bytes(l,l+13),cat(sr,cr));size_t el=k.su->kind==3?0:32,il=k.su->kind==1?4:k.su->kind==3?0:8;
 Bytes b=prf(k.su->g2001?H_94:H_12_256,ms,seed,2*(32+el+il));Keys r;size_t o=0;for(int d=0;d<2;d++){r.mk[d]=sub(b,o,32);o+=32;}for(int d=0;d<2;d++){r.ek[d]=sub(b,o,el);o+=el;}for(int d=0;d<2;d++){r.iv[d]=sub(b,o,il);o+=il;}return r; }
static Bytes be8(uint64_t v){Bytes b(8);for(int i=7;i>=0;i--){b[i]=v;v>>=8;}return b;}
static Bytes macin(uint64_t seq,const Rec&r,const Bytes&pt){return cat(cat(be8(seq),Bytes{r.type,(uint8_t)(r.ver>>8),(uint8_t)r.ver,(uint8_t)(pt.size()>>8),(uint8_t)pt.size()}),pt);}
static Bytes open_stream(const Suite&su,const Keys&k,int d,const std::vector<Rec>&v,size_t&nrec){ Bytes data;bool on=false;uint64_t seq=0;nrec=0;
 if(su.kind==0||su.kind==3){Bytes all,macs;std::vector<size_t> len;std::vector<const Rec*> rs;for(auto&r:v){if(!on){if(r.type==20)on=true;continue;}REQUIRE(r.body.size()>=(su.kind?32u:4u),"record too short");all=cat(all,r.body);rs.push_back(&r);}
  int set=sbox_by_name(su.g2001?"CryptoPro_A":"TC26_Z");Bytes pt=su.kind?all:gost89_cnt(set,true,k.ek[d].data(),k.iv[d].data(),all);size_t o=0,tl=su.kind?32:4;for(auto*r:rs){size_t n=r->body.size()-tl;Bytes p=sub(pt,o,n),t=sub(pt,o+n,tl);o+=n+tl;/* both suites MAC the stream of records (TLS1_STREAM_MAC) */macs=cat(macs,macin(seq,*r,p));Bytes e=su.kind?hmac(H_12_256,k.mk[d],macs):gost89_mac(set,true,k.mk[d].data(),nullptr,macs,4);REQUIRE(t==e,"record %llu (%s, %zu bytes): MAC %s, expected %s",(unsigned long long)seq,d?"server":"client",n,hex(t).c_str(),hex(e).c_str());seq++;if(r->type==23){data=cat(data,p);nrec++;}}return data; }
 bool z=su.kind==2;size_t tl=z?16:8;
 for(auto&r:v){if(!on){if(r.type==20)on=true;continue;}REQUIRE(r.body.size()>=tl,"record too short");Bytes ek=tlstree(z,k.ek[d].data(),seq),mk=tlstree(z,k.mk[d].data(),seq);uint8_t c0[16]={0};size_t il=z?8:4;memcpy(c0,k.iv[d].data(),il);unsigned cy=0;uint64_t sq=seq;for(int i=il-1;i>=0;i--){cy+=c0[i]+(sq&255);c0[i]=cy;cy>>=8;sq>>=8;}Bytes pt=ctr_acpkm(z,ek.data(),c0,z?4096:1024,r.body);size_t n=pt.size()-tl;Bytes p=sub(pt,0,n),t=sub(pt,n,tl);auto m=make_bc(z);m->key(mk.data());Bytes e=omac(*m,macin(seq,r,p));
  REQUIRE(t==e,"record %llu (%s, %zu bytes): MAC %s, expected %s",(unsigned long long)seq,d?"server":"client",n,hex(t).c_str(),hex(e).c_str());seq++;if(r.type==23){data=cat(data,p);nrec++;}}
 return data; }
static void contexts(Src&s,const Suite&su,Ctx&cc,Ctx&sc,Id&si,Id&ci,bool auth){ for(SSL_CTX*x:{cc.c,sc.c}){SSL_CTX_set_min_proto_version(x,TLS1_2_VERSION);SSL_CTX_set_max_proto_version(x,TLS1_2_VERSION);SSL_CTX_set_security_level(x,0);REQUIRE(SSL_CTX_set_cipher_list(x,su.name)==1,"suite %s not available: %s",su.name,errs().c_str());}
 REQUIRE(SSL_CTX_use_certificate(sc,si.cert)==1&&SSL_CTX_use_PrivateKey(sc,si.k)==1&&SSL_CTX_check_private_key(sc)==1,"server key: %s",errs().c_str());X509_STORE_add_cert(SSL_CTX_get_cert_store(cc),si.cert);SSL_CTX_set_verify(cc,SSL_VERIFY_PEER,NULL);
 if(auth){REQUIRE(SSL_CTX_use_certificate(cc,ci.cert)==1&&SSL_CTX_use_PrivateKey(cc,ci.k)==1,"client key: %s",errs().c_str());X509_STORE_add_cert(SSL_CTX_get_cert_store(sc),ci.cert);SSL_CTX_set_verify(sc,SSL_VERIFY_PEER|SSL_VERIFY_FAIL_IF_NO_PEER_CERT,NULL);} 
 SSL_CTX_set_session_id_context(sc,(const uint8_t*)"x",1);if(s.flip())SSL_CTX_set_options(sc,SSL_OP_NO_TICKET); }
static void start(Conn&k,Ctx&cc,Ctx&sc,SSL_SESSION*resume,bool must){ k.c.make(cc);k.s.make(sc);if(resume)SSL_set_session(k.c.s,resume);if(!must)return;bool ok=k.handshake();REQUIRE(ok,"%s: handshake failed: %s",k.su->name,errs().c_str());REQUIRE(!strcmp(SSL_get_cipher_name(k.c.s),k.su->name),"negotiated %s",SSL_get_cipher_name(k.c.s)); }
static size_t gen_size(Src&s){switch(s.draw(8)){case 0:return 1;case 1:return 1+s.draw(16);case 2:return s.pick({7,8,9,15,16,17,31,32,33,1023,1024,1025,1027,1028});case 3:return 16384-s.draw(3);case 4:return 16385+s.draw(3000);default:return 1+s.draw(300);}}
// writes d from src, moves it over, reads it back in pieces
static void send(Src&s,Conn&k,int d,const Bytes&m){ size_t o=0;SSL*x=k.src(d).s;In im(m);while(o<m.size()){size_t w=0;REQUIRE(SSL_write_ex(x,im.p+o,m.size()-o,&w)==1,"write of %zu bytes failed: %s",m.size(),errs().c_str());o+=w;} }
static Bytes receive(Src&s,Conn&k,int d,size_t want,bool&err){ Bytes r;err=false;SSL*x=k.dst(d).s;size_t piece=s.pick<size_t>({20000,1,7,64,1000});if(want>2000)piece=std::max<size_t>(piece,64);for(;;){Buf b(piece);size_t n=0;int rc=SSL_read_ex(x,b.p,piece,&n);if(rc==1){r.insert(r.end(),b.p,b.p+n);continue;}int e=SSL_get_error(x,0);if(e!=SSL_ERROR_WANT_READ)err=true;break;}ERR_clear_error();return r; }
static void setup(Src&s,const Suite&su,Id&si,Id&ci,bool&auth){ gen_id(s,si,su.g2001);auth=s.chance(1,3);if(auth)gen_id(s,ci,su.g2001&&s.flip());note("%s server %s %s%s",su.name,OBJ_nid2sn(si.type),si.p->sn.c_str(),auth?" client cert":"");label(su.name); }
SUB("X02",stream,1100,20000,8){ const Suite&su=SU[s.draw(6)];Id si,ci;bool auth;setup(s,su,si,ci,auth);Ctx cc(TLS_client_method()),sc(TLS_server_method());contexts(s,su,cc,sc,si,ci,auth);SSL_SESSION*se=nullptr;struct F{SSL_SESSION*&s;~F(){SSL_SESSION_free(s);}}fs{se};
 size_t rounds=1+s.chance(1,4);for(size_t r=0;r<rounds;r++){Conn k;k.su=&su;start(k,cc,sc,se,true);if(r){label(SSL_session_reused(k.c.s)?"resumed":"not resumed");}
  if(s.chance(1,4)){int f=512+s.draw(1000);SSL_set_max_send_fragment(k.c.s,f);SSL_set_max_send_fragment(k.s.s,f);}
  Bytes sent[2];size_t many=s.chance(1,12)?(su.kind==1&&s.chance(1,4)?4094+s.draw(8):s.flip()?250+s.draw(20):60+s.draw(140)):0,n=many?many:1+s.draw(9);int dir=s.draw(2);if(many)label("many records");
  for(size_t i=0;i<n;i++){int d=many?dir:s.draw(2);Bytes m=s.bytes(many?1+s.draw(20):gen_size(s));send(s,k,d,m);sent[d]=cat(sent[d],m);k.move(d);bool err;Bytes g=receive(s,k,d,m.size(),err);REQUIRE(!err&&g==m,"%s: %zu bytes written as message %zu, %zu bytes received%s",su.name,m.size(),i,g.size(),g==m?" and an error":" that differ");}
  if(s.flip()){SSL_shutdown(k.c.s);k.move(0);SSL_shutdown(k.s.s);k.move(1);}
  Keys ks=keys(k);for(int d=0;d<2;d++){size_t nr;Bytes g=open_stream(su,ks,d,records(k.wire[d]),nr);REQUIRE(g==sent[d],"%s: records of the %s decrypt to other data (%zu bytes, sent %zu)",su.name,d?"server":"client",g.size(),sent[d].size());if(nr>1)nontrivial();}
  if(r+1<rounds){se=SSL_get1_session(k.c.s);} } }
SUB("X02",altered,900,16000,8){ const Suite&su=SU[s.draw(6)];Id si,ci;bool auth;setup(s,su,si,ci,auth);Ctx cc(TLS_client_method()),sc(TLS_server_method());contexts(s,su,cc,sc,si,ci,auth);Conn k;k.su=&su;start(k,cc,sc,nullptr,true);nontrivial();int d=s.draw(2);
 size_t pre=s.draw(4);for(size_t i=0;i<pre;i++){Bytes m=s.bytes(gen_size(s));int e=s.draw(2);send(s,k,e,m);k.move(e);bool err;REQUIRE(receive(s,k,e,m.size(),err)==m,"data differ before the alteration");}
 size_t n=2+s.draw(4);Bytes all;std::vector<size_t> at;std::vector<Bytes> recs;for(size_t i=0;i<n;i++){Bytes m=s.bytes(1+s.draw(s.chance(1,4)?2000:60));at.push_back(all.size());send(s,k,d,m);all=cat(all,m);Bytes w=take(k.src(d));recs.push_back(w);}
 size_t x=s.draw(n);size_t good=at[x];std::string w;switch(s.draw(7)){case 0:case 1:{Bytes&b=recs[x];size_t o=5+s.draw(b.size()-5);b[o]^=1<<s.draw(8);w="bit of a record";break;}case 2:recs.erase(recs.begin()+x);w="record dropped";if(x==n-1){good=all.size();label("last dropped");return;}break;case 3:recs.insert(recs.begin()+x,recs[x]);w="record repeated";good=x+1<n?at[x+1]:all.size();break;case 4:{size_t y=s.draw(n);if(x==y||recs[x]==recs[y])y=(x+1)%n;if(y<x)std::swap(x,y);good=at[x];std::swap(recs[x],recs[y]);w="records swapped";break;}
 case 5:{Bytes&b=recs[x];size_t cut=1+s.draw(b.size()-5);b.resize(b.size()-cut);size_t l=b.size()-5;b[3]=l>>8;b[4]=l;w="record truncated";break;}default:{Bytes&b=recs[x];Bytes e=s.bytes(1+s.draw(30));b=cat(b,e);size_t l=b.size()-5;b[3]=l>>8;b[4]=l;w="record extended";}}
 note("%s, record %zu of %zu",w.c_str(),x,n);label(w);for(auto&b:recs)give(k.dst(d),b);bool err;Bytes g=receive(s,k,d,all.size(),err);REQUIRE(g.size()<=good,"%s: %zu bytes delivered, only %zu precede the alteration (%s)",su.name,g.size(),good,w.c_str());REQUIRE(g==sub(all,0,g.size()),"%s: altered data delivered (%s)",su.name,w.c_str());REQUIRE(g.size()==good,"%s: %zu bytes before the alteration delivered, %zu were sent",su.name,g.size(),good);REQUIRE(err,"%s: no error reported (%s)",su.name,w.c_str()); }
SUB("X02",handshake_altered,600,12000,8){ const Suite&su=SU[s.draw(6)];Id si,ci;bool auth;setup(s,su,si,ci,auth);Ctx cc(TLS_client_method()),sc(TLS_server_method());contexts(s,su,cc,sc,si,ci,auth);Conn k;k.su=&su;start(k,cc,sc,nullptr,false);nontrivial();
 int d=s.draw(2);uint64_t where=s.draw(0);bool done=false;size_t skip=s.draw(5);std::string what="none";
 auto move=[&](int e){Bytes b=take(k.src(e));if(e==d&&!done&&!b.empty()){auto v=records(b);Bytes o;for(auto&r:v){if(!done&&!r.body.empty()){if(skip)skip--;else{done=true;size_t i=where%(r.body.size()*8);r.body[i/8]^=1<<(i%8);what="record type "+std::to_string(r.type)+" byte "+std::to_string(i/8);}}o=cat(o,r.raw());}b=o;}give(k.dst(e),b);};
 int rc=0,rs=0;bool fail=false;for(int i=0;i<40&&!(rc==1&&rs==1);i++){if(rc!=1){rc=SSL_connect(k.c.s);if(rc!=1&&SSL_get_error(k.c.s,rc)!=SSL_ERROR_WANT_READ){fail=true;move(0);break;}}move(0);if(rs!=1){rs=SSL_accept(k.s.s);if(rs!=1&&SSL_get_error(k.s.s,rs)!=SSL_ERROR_WANT_READ){fail=true;move(1);break;}}move(1);}
 ERR_clear_error();note("%s %s",d?"server":"client",what.c_str());label(done?(d?"server handshake record altered":"client handshake record altered"):"nothing altered");if(done)REQUIRE(!(rc==1&&rs==1),"%s: handshake completed although a record was altered (%s, %s)",su.name,d?"server":"client",what.c_str());else REQUIRE(rc==1&&rs==1&&!fail,"handshake failed"); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
