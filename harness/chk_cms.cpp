// X01 certificates, CMS, PKCS#7, PKCS#8 encryption and PKCS#12
#include "kx.h"
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
#include <openssl/pem.h>
using namespace ref; using namespace ec;
static pbt::Rule r1("X01","signed objects (certificates, requests, CRLs, CMS, PKCS#7) whose signature is recomputed by the reference, envelopes made by the engine and by the reference (key transport and key agreement), password encryption checked against reference PBKDF2 and cipher; altered copies; non-trivial: more than one block of content, or altered");
static pbt::Assume a1("X01","CMS and PKCS#7 key-transport decryption with the wrong key may yield garbage instead of an error (OpenSSL's defence against padding oracles): judged only for authenticated ciphers");
static const Ps&gen_ps(Src&s){return params()[s.draw(params().size())];}
struct Id{int type;const Ps*p;N d;Pt Q;PK k;X509*cert=nullptr;int serial=0;~Id(){X509_free(cert);}};
static int mdnid(int t){return t==NID_id_GostR3410_2012_512?NID_id_GostR3411_2012_512:t==NID_id_GostR3410_2012_256?NID_id_GostR3411_2012_256:NID_id_GostR3411_94;}
static HashId hid(int t){return t==NID_id_GostR3410_2012_512?H_12_512:t==NID_id_GostR3410_2012_256?H_12_256:H_94;}
static int signid(int t){return t==NID_id_GostR3410_2012_512?NID_id_tc26_signwithdigest_gost3410_2012_512:t==NID_id_GostR3410_2012_256?NID_id_tc26_signwithdigest_gost3410_2012_256:NID_id_GostR3411_94_with_GostR3410_2001;}
static void gen_id(Src&s,Id&i,bool dh=false,bool only12=false){ i.p=&gen_ps(s);i.type=gen_type(s,*i.p);if(only12&&i.p->c->hl==32)i.type=NID_id_GostR3410_2012_256;if(!dh&&i.type==NID_id_GostR3410_2001DH)i.type=NID_id_GostR3410_2001;i.d=gen_scalar(s,*i.p->c,false);i.Q=mul(*i.p->c,gen(*i.p->c),i.d);i.k=PK(mk_key(i.type,i.p->nid,&i.d)); }
static X509_NAME*mkname(Src&s){X509_NAME*n=X509_NAME_new();Bytes b=s.bytes(1+s.draw(30));for(auto&c:b)c="abcdefghij klmnopXYZ0123456789-."[c&31];X509_NAME_add_entry_by_txt(n,"CN",MBSTRING_ASC,b.data(),b.size(),-1,0);if(s.flip())X509_NAME_add_entry_by_txt(n,"O",MBSTRING_ASC,(const uint8_t*)"Org",3,-1,0);return n;}
static X509*mkcert(Src&s,Id&i,bool sign=true){ static unsigned ser=0;X509*x=X509_new();X509_set_version(x,2);i.serial=1000+4*s.draw(250000)+(ser++&3); /* recipients of one message differ */ASN1_INTEGER_set(X509_get_serialNumber(x),i.serial);X509_NAME*n=mkname(s);X509_set_subject_name(x,n);X509_set_issuer_name(x,n);X509_NAME_free(n);ASN1_TIME_set(X509_getm_notBefore(x),1600000000);ASN1_TIME_set(X509_getm_notAfter(x),2500000000);REQUIRE(X509_set_pubkey(x,i.k)==1,"certificate key: %s",errs().c_str());
 X509V3_CTX v;X509V3_set_ctx_nodb(&v);X509V3_set_ctx(&v,x,x,NULL,NULL,0);X509_EXTENSION*e=X509V3_EXT_conf_nid(NULL,&v,NID_subject_key_identifier,"hash");X509_add_ext(x,e,-1);X509_EXTENSION_free(e);
 if(sign)REQUIRE(X509_sign(x,i.k,digest(mdnid(i.type)))>0,"certificate not signed: %s",errs().c_str());i.cert=x;return x; }
// signature over the first element of SEQ{tbs, alg, bits}, judged by the reference
static bool ref_signed(const Bytes&der,const Id&i,bool req_alg=true){ kx::Tlv o,t,a,b;REQUIRE(kx::tlv(der,0,o)&&o.tag==0x30,"not a signed object");REQUIRE(kx::tlv(o.val,0,t),"tbs");size_t q=t.total();REQUIRE(kx::tlv(o.val,q,a)&&a.tag==0x30,"algorithm");REQUIRE(kx::tlv(o.val,q+a.total(),b)&&b.tag==3&&b.val.size(),"signature");
 if(req_alg){Bytes oid=kx::oid(signid(i.type));REQUIRE(sub(a.val,0,std::min(oid.size(),a.val.size()))==oid,"signature algorithm %s, expected %s",hex(a.val).c_str(),OBJ_nid2sn(signid(i.type)));}
 return b.val[0]==0&&verify(*i.p->c,i.Q,hash(hid(i.type),sub(o.val,0,t.total())),sub(b.val,1,b.val.size()-1)); }
template<class T> static Bytes i2(int(*f)(const T*,unsigned char**),const T*x){uint8_t*p=nullptr;int n=f(x,&p);Bytes r(p,p+(n>0?n:0));OPENSSL_free(p);return r;}
static void flip_bit(Src&s,Bytes&b){size_t i=s.draw(b.size()*8);b[i/8]^=1<<(i%8);}
static void lab(const Id&i){label(OBJ_nid2sn(i.type));}
SUB("X01",cert,2400,30000,16){ Id i;gen_id(s,i);int what=s.draw(3);lab(i);static const char*W[]={"certificate","request","CRL"};label(W[what]);nontrivial();note("%s %s %s d=%s",W[what],OBJ_nid2sn(i.type),i.p->sn.c_str(),i.d.str().c_str());Bytes der;
 if(what==0){X509*x=mkcert(s,i,false);if(s.flip())REQUIRE(X509_sign(x,i.k,digest(mdnid(i.type)))>0,"sign: %s",errs().c_str());else{EVP_MD_CTX*m=EVP_MD_CTX_new();int r=EVP_DigestSignInit(m,NULL,NULL,NULL,i.k)==1&&X509_sign_ctx(x,m)>0;EVP_MD_CTX_free(m);REQUIRE(r,"sign with the default digest: %s",errs().c_str());}REQUIRE(X509_verify(x,i.k)==1,"own certificate does not verify");der=i2(i2d_X509,x);}
 else if(what==1){X509_REQ*x=X509_REQ_new();X509_NAME*n=mkname(s);X509_REQ_set_subject_name(x,n);X509_NAME_free(n);REQUIRE(X509_REQ_set_pubkey(x,i.k)==1&&X509_REQ_sign(x,i.k,digest(mdnid(i.type)))>0,"request: %s",errs().c_str());der=i2(i2d_X509_REQ,x);X509_REQ_free(x);}
 else{X509_CRL*x=X509_CRL_new();X509_NAME*n=mkname(s);X509_CRL_set_issuer_name(x,n);X509_NAME_free(n);ASN1_TIME*t=ASN1_TIME_set(NULL,1700000000);X509_CRL_set1_lastUpdate(x,t);X509_CRL_set1_nextUpdate(x,t);size_t k=s.draw(4);for(size_t j=0;j<k;j++){X509_REVOKED*r=X509_REVOKED_new();ASN1_INTEGER*a=ASN1_INTEGER_new();ASN1_INTEGER_set(a,1+s.draw(100000));X509_REVOKED_set_serialNumber(r,a);X509_REVOKED_set_revocationDate(r,t);ASN1_INTEGER_free(a);X509_CRL_add0_revoked(x,r);}ASN1_TIME_free(t);REQUIRE(X509_CRL_sign(x,i.k,digest(mdnid(i.type)))>0,"CRL: %s",errs().c_str());der=i2(i2d_X509_CRL,x);X509_CRL_free(x);}
 REQUIRE(ref_signed(der,i),"the signature on the %s is not valid for its contents",W[what]);
 auto check=[&](const Bytes&b)->int{In in(b);const uint8_t*q=in.p;int r=-2;if(what==0){X509*x=d2i_X509(NULL,&q,in.n);if(x)r=X509_verify(x,i.k);X509_free(x);}else if(what==1){X509_REQ*x=d2i_X509_REQ(NULL,&q,in.n);if(x)r=X509_REQ_verify(x,i.k);X509_REQ_free(x);}else{X509_CRL*x=d2i_X509_CRL(NULL,&q,in.n);if(x)r=X509_CRL_verify(x,i.k);X509_CRL_free(x);}ERR_clear_error();return r;};
 REQUIRE(check(der)==1,"the %s does not verify after re-reading",W[what]);
 // the key inside, as a relying party reads it
 {In in(der);const uint8_t*q=in.p;EVP_PKEY*pk=nullptr;if(what==0){X509*x=d2i_X509(NULL,&q,in.n);pk=X509_get_pubkey(x);REQUIRE(pk&&X509_verify(x,pk)==1,"self-signed certificate does not verify with its own key: %s",errs().c_str());X509_free(x);}else if(what==1){X509_REQ*x=d2i_X509_REQ(NULL,&q,in.n);pk=X509_REQ_get_pubkey(x);REQUIRE(pk&&X509_REQ_verify(x,pk)==1,"request does not verify with its own key: %s",errs().c_str());X509_REQ_free(x);}if(pk){REQUIRE(EVP_PKEY_eq(pk,i.k)==1,"the key in the %s differs",W[what]);EVP_PKEY_free(pk);}}
 for(int j=0;j<3;j++){Bytes b=der;flip_bit(s,b);int r=check(b);label(r==-2?"altered: unreadable":"altered: refused");REQUIRE(r!=1||(what&&ref_signed(b,i,false)),"altered %s verifies",W[what]);/* OpenSSL does not compare the two algorithm fields of requests and CRLs */}
 Id o;o.p=i.p;o.type=i.type;o.d=gen_scalar(s,*i.p->c,false);if(!(o.d==i.d)){PK k2(mk_key(o.type,o.p->nid,&o.d));In in(der);const uint8_t*q=in.p;if(what==0){X509*x=d2i_X509(NULL,&q,in.n);REQUIRE(X509_verify(x,k2)!=1,"certificate verifies with another key");X509_free(x);ERR_clear_error();}} }
struct Bm{BIO*b;Bm():b(BIO_new(BIO_s_mem())){} explicit Bm(const Bytes&d):b(BIO_new(BIO_s_mem())){size_t o=0;if(d.size())BIO_write(b,d.data(),d.size());(void)o;BIO_set_mem_eof_return(b,0);} ~Bm(){BIO_free_all(b);} operator BIO*(){return b;} Bytes data(){char*p;long n=BIO_get_mem_data(b,&p);return Bytes(p,p+n);} Bm(const Bm&)=delete;};
static Bytes content(Src&s){ return s.bytes(s.chance(1,20)?8192-40+s.draw(80):s.len(s.chance(1,4)?3000:200,{8,16,32,64})); }
SUB("X01",sign,2000,30000,16){ bool p7=s.chance(1,3);Id i[2];size_t n=1+(!p7&&s.chance(1,4));for(size_t j=0;j<n;j++){gen_id(s,i[j]);mkcert(s,i[j]);lab(i[j]);}Bytes m=content(s);bool det=s.flip(),noattr=s.flip();if(m.size()>32)nontrivial();label(p7?"PKCS#7":"CMS");
 note("%s %s %s %zu bytes%s%s",p7?"PKCS#7":"CMS",OBJ_nid2sn(i[0].type),i[0].p->sn.c_str(),m.size(),det?" detached":"",noattr?" no attributes":"");Bytes der;
 if(p7){int f=PKCS7_BINARY|(det?PKCS7_DETACHED:0)|(noattr?PKCS7_NOATTR:0)|(s.flip()?PKCS7_NOSMIMECAP:0);Bm b(m);PKCS7*p=PKCS7_sign(i[0].cert,i[0].k,NULL,b,f);REQUIRE(p,"PKCS#7 signing: %s",errs().c_str());der=i2(i2d_PKCS7,(const PKCS7*)p);
  PKCS7_SIGNER_INFO*si=sk_PKCS7_SIGNER_INFO_value(PKCS7_get_signer_info(p),0);REQUIRE(OBJ_obj2nid(si->digest_alg->algorithm)==mdnid(i[0].type),"digest algorithm %s",OBJ_nid2sn(OBJ_obj2nid(si->digest_alg->algorithm)));REQUIRE(OBJ_obj2nid(si->digest_enc_alg->algorithm)==i[0].type,"signature algorithm %s",OBJ_nid2sn(OBJ_obj2nid(si->digest_enc_alg->algorithm)));
  if(noattr){Bytes sg(si->enc_digest->data,si->enc_digest->data+si->enc_digest->length);REQUIRE(verify(*i[0].p->c,i[0].Q,hash(hid(i[0].type),m),sg),"the signature is not valid for the content");}
  else{ASN1_OCTET_STRING*d=PKCS7_digest_from_attributes(PKCS7_get_signed_attributes(si));Bytes e=hash(hid(i[0].type),m);REQUIRE(d&&d->length==(int)e.size()&&!memcmp(d->data,e.data(),e.size()),"message digest attribute differs from the digest of the content");}PKCS7_free(p);}
 else{int f=CMS_BINARY|(det?CMS_DETACHED:0)|(noattr?CMS_NOATTR:0)|(s.flip()?CMS_NOSMIMECAP:0)|(s.flip()?CMS_USE_KEYID:0);Bm b(m);CMS_ContentInfo*c=CMS_sign(NULL,NULL,NULL,b,f|CMS_PARTIAL);REQUIRE(c,"CMS: %s",errs().c_str());for(size_t j=0;j<n;j++)REQUIRE(CMS_add1_signer(c,i[j].cert,i[j].k,s.flip()?digest(mdnid(i[j].type)):NULL,f),"signer: %s",errs().c_str());REQUIRE(CMS_final(c,b,NULL,f)==1,"CMS signing: %s",errs().c_str());der=i2(i2d_CMS_ContentInfo,(const CMS_ContentInfo*)c);
  for(size_t j=0;j<n;j++){CMS_SignerInfo*si=sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(c),j);Id*w=nullptr;for(size_t k=0;k<n;k++)if(CMS_SignerInfo_cert_cmp(si,i[k].cert)==0)w=&i[k];if(!w)continue;X509_ALGOR*da,*sa;CMS_SignerInfo_get0_algs(si,NULL,NULL,&da,&sa);REQUIRE(OBJ_obj2nid(da->algorithm)==mdnid(w->type)&&OBJ_obj2nid(sa->algorithm)==w->type,"signer algorithms %s, %s",OBJ_nid2sn(OBJ_obj2nid(da->algorithm)),OBJ_nid2sn(OBJ_obj2nid(sa->algorithm)));ASN1_OCTET_STRING*o=CMS_SignerInfo_get0_signature(si);
   if(noattr)REQUIRE(verify(*w->p->c,w->Q,hash(hid(w->type),m),Bytes(o->data,o->data+o->length)),"the signature is not valid for the content");else{ASN1_OCTET_STRING*d=(ASN1_OCTET_STRING*)CMS_signed_get0_data_by_OBJ(si,OBJ_nid2obj(NID_pkcs9_messageDigest),-3,V_ASN1_OCTET_STRING);Bytes e=hash(hid(w->type),m);REQUIRE(d&&d->length==(int)e.size()&&!memcmp(d->data,e.data(),e.size()),"message digest attribute differs from the digest of the content");}}
  CMS_ContentInfo_free(c);}
 auto check=[&](const Bytes&b,const Bytes&cm,Bytes&out)->int{In in(b);const uint8_t*q=in.p;int r=-2;Bm o,d(cm);if(p7){PKCS7*p=d2i_PKCS7(NULL,&q,in.n);if(p){r=PKCS7_verify(p,NULL,NULL,det?d.b:NULL,o,PKCS7_BINARY|PKCS7_NOVERIFY);}PKCS7_free(p);}else{CMS_ContentInfo*c=d2i_CMS_ContentInfo(NULL,&q,in.n);if(c)r=CMS_verify(c,NULL,NULL,det?d.b:NULL,o,CMS_BINARY|CMS_NO_SIGNER_CERT_VERIFY);CMS_ContentInfo_free(c);}out=o.data();return r;};
 Bytes o;int vr=check(der,m,o);REQUIRE(vr==1,"own message does not verify: %s",errs().c_str());REQUIRE(o==m,"verified content differs");
 if(det&&!m.empty()){Bytes x=m;flip_bit(s,x);REQUIRE(check(der,x,o)!=1,"altered detached content verifies");ERR_clear_error();x=m;x.push_back(0);REQUIRE(check(der,x,o)!=1,"extended detached content verifies");ERR_clear_error();}
 for(int j=0;j<3;j++){Bytes b=der;flip_bit(s,b);int r=check(b,m,o);ERR_clear_error();if(r==1)REQUIRE(o==m,"altered message verifies with other content");label(r==1?"altered elsewhere":"altered: refused");} }
SUB("X01",smime,500,8000,16){ // multipart/signed: the right micalg, and the text is intact and verifies
 Id i[2];bool p7=s.chance(1,3);size_t n=1+(!p7&&s.chance(1,3));for(size_t j=0;j<n;j++){gen_id(s,i[j]);mkcert(s,i[j]);lab(i[j]);}nontrivial();label(p7?"PKCS#7 S/MIME":"CMS S/MIME");Bytes m;size_t lines=1+s.draw(6);for(size_t l=0;l<lines;l++){size_t k=s.draw(70);for(size_t j=0;j<k;j++)m.push_back("abcdefghij klmnopXYZ0123456789:,"[s.draw(32)]);m.push_back('\r');m.push_back('\n');}
 note("%s S/MIME %s %s %zu signers %zu bytes",p7?"PKCS#7":"CMS",OBJ_nid2sn(i[0].type),i[0].p->sn.c_str(),n,m.size());Bm out,b(m),b2(m);bool stream=s.flip();auto micalg=[](int t){return std::string(t==NID_id_GostR3410_2012_512?"gostr3411-2012-512":t==NID_id_GostR3410_2012_256?"gostr3411-2012-256":"gostr3411-94");};
 if(p7){PKCS7*p=PKCS7_sign(i[0].cert,i[0].k,NULL,b,PKCS7_BINARY|PKCS7_DETACHED|(stream?PKCS7_STREAM:0));REQUIRE(p,"signing: %s",errs().c_str());int r=SMIME_write_PKCS7(out,p,b2,PKCS7_BINARY|PKCS7_DETACHED|(stream?PKCS7_STREAM:PKCS7_REUSE_DIGEST));PKCS7_free(p);REQUIRE(r==1,"S/MIME output: %s",errs().c_str());}
 else{int f=CMS_BINARY|CMS_DETACHED;CMS_ContentInfo*c=CMS_sign(NULL,NULL,NULL,b,f|CMS_PARTIAL|(stream?CMS_STREAM:0));for(size_t j=0;j<n;j++)REQUIRE(CMS_add1_signer(c,i[j].cert,i[j].k,NULL,f|(stream?CMS_PARTIAL:0)),"signer: %s",errs().c_str());if(!stream)REQUIRE(CMS_final(c,b,NULL,f)==1,"signing: %s",errs().c_str());int r=SMIME_write_CMS(out,c,b2,f|(stream?CMS_STREAM:CMS_REUSE_DIGEST));CMS_ContentInfo_free(c);REQUIRE(r==1,"S/MIME output: %s",errs().c_str());}
 Bytes d=out.data();std::string h((char*)d.data(),std::min(d.size(),(size_t)600));size_t q=h.find("micalg=\"");REQUIRE(q!=std::string::npos,"no micalg in: %s",h.c_str());std::string got=h.substr(q+8,h.find('"',q+8)-q-8),left=","+got+",";bool any94=false;for(size_t j=0;j<n;j++)any94|=mdnid(i[j].type)==NID_id_GostR3411_94;if(!any94)/* OpenSSL stops the list there */for(size_t j=0;j<n;j++){std::string w=micalg(i[j].type);REQUIRE(left.find(","+w+",")!=std::string::npos,"micalg is %s, %s expected",got.c_str(),w.c_str());}if(n==1||i[0].type==i[1].type)REQUIRE(got==micalg(i[0].type),"micalg is %s",got.c_str());
 for(int alt=0;alt<2;alt++){Bytes e=d;if(alt){std::string t((char*)e.data(),e.size()),mm((char*)m.data(),m.size());size_t at=t.find(mm);if(at==std::string::npos||mm.size()<4)break;size_t k=s.draw(mm.size());if(mm[k]=='\r'||mm[k]=='\n')break;e[at+k]^=1;if(e[at+k]=='\n'||e[at+k]=='\r')break;}Bm in(e),o;BIO*c=nullptr;int r=-2;if(p7){PKCS7*x=SMIME_read_PKCS7(in,&c);if(x)r=PKCS7_verify(x,NULL,NULL,c,o,PKCS7_BINARY|PKCS7_NOVERIFY);PKCS7_free(x);}else{CMS_ContentInfo*x=SMIME_read_CMS(in,&c);if(x)r=CMS_verify(x,NULL,NULL,c,o,CMS_BINARY|CMS_NO_SIGNER_CERT_VERIFY);CMS_ContentInfo_free(x);}BIO_free(c);
  if(!alt){REQUIRE(r==1,"own S/MIME message does not verify: %s",errs().c_str());REQUIRE(o.data()==m,"S/MIME content differs");}else{ERR_clear_error();REQUIRE(r!=1,"altered S/MIME message verifies");}} }
// ---- envelopes
static const int CC[]={NID_id_Gost28147_89,NID_magma_ctr_acpkm,NID_kuznyechik_ctr_acpkm,NID_magma_ctr_acpkm_omac,NID_kuznyechik_ctr_acpkm_omac};
static bool modern(int c){return c==NID_magma_ctr_acpkm||c==NID_kuznyechik_ctr_acpkm||c==NID_magma_ctr_acpkm_omac||c==NID_kuznyechik_ctr_acpkm_omac;}
static bool kuz(int c){return c==NID_kuznyechik_ctr_acpkm||c==NID_kuznyechik_ctr_acpkm_omac;}
static bool auth(int c){return c==NID_magma_ctr_acpkm_omac||c==NID_kuznyechik_ctr_acpkm_omac;}
static Bytes gen_content(Src&s,int c){ if(kuz(c)&&s.chance(1,60))return s.bytes(262144-40+s.draw(80));return content(s); }
SUB("X01",envelope,2000,30000,16){ int cn=CC[s.draw(5)];size_t n=1+s.draw(3);std::vector<Id>id(n);for(auto&i:id){gen_id(s,i,true,modern(cn));mkcert(s,i,false);X509_set_version(i.cert,2);Id sg;gen_id(s,sg);REQUIRE(X509_sign(i.cert,sg.k,digest(mdnid(sg.type)))>0,"sign");lab(i);}
 for(size_t a=0;a<n;a++)for(size_t b=0;b<a;b++)if(id[a].Q==id[b].Q){label("two recipients with one key: skipped");return;}/* the key identifier would not tell them apart */
 Bytes m=gen_content(s,cn);if(m.size()>16)nontrivial();label(OBJ_nid2sn(cn));note("CMS %s %zu recipients (%s %s) %zu bytes",OBJ_nid2sn(cn),n,OBJ_nid2sn(id[0].type),id[0].p->sn.c_str(),m.size());
 bool stream=s.flip();int f=CMS_BINARY|(s.flip()?CMS_USE_KEYID:0);for(auto&i:id)note("; %s %s serial %d d=%s%s",OBJ_nid2sn(i.type),i.p->sn.c_str(),i.serial,i.d.str().c_str(),f&CMS_USE_KEYID?" keyid":"");Bm b(m);CMS_ContentInfo*c=CMS_encrypt(NULL,b,cipher(cn),f|CMS_STREAM|CMS_PARTIAL);REQUIRE(c,"%s: CMS encryption: %s",OBJ_nid2sn(cn),errs().c_str());
 for(auto&i:id){CMS_RecipientInfo*ri=CMS_add1_recipient_cert(c,i.cert,f|CMS_KEY_PARAM);REQUIRE(ri,"recipient: %s",errs().c_str());EVP_PKEY_CTX*x=CMS_RecipientInfo_get0_pkey_ctx(ri);REQUIRE(x,"recipient context");int r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_CIPHER,cn,NULL);REQUIRE(r>0||r==-2,"%s: cipher control: %s",OBJ_nid2sn(cn),errs().c_str());}
 Bytes der;
 if(stream){ // content fed in pieces
  BIO*q=CMS_dataInit(c,NULL);REQUIRE(q,"dataInit: %s",errs().c_str());size_t o=0;for(size_t k:s.split(m.size(),{8,16})){if(k)REQUIRE(BIO_write(q,m.data()+o,k)==(int)k,"write");o+=k;}(void)BIO_flush(q);REQUIRE(CMS_dataFinal(c,q)==1,"dataFinal: %s",errs().c_str());BIO_free_all(q);}
 else REQUIRE(CMS_final(c,b,NULL,f)==1,"%s: CMS encryption: %s",OBJ_nid2sn(cn),errs().c_str());
 der=i2(i2d_CMS_ContentInfo,(const CMS_ContentInfo*)c);CMS_ContentInfo_free(c);
 // the algorithms a standard receiver reads: of the content, and of every key transport
 {In in(der);const uint8_t*q=in.p;CMS_ContentInfo*k=d2i_CMS_ContentInfo(NULL,&q,in.n);REQUIRE(k,"message unreadable");struct F{CMS_ContentInfo*c;~F(){CMS_ContentInfo_free(c);}}fr{k};std::vector<Bytes>got,want;STACK_OF(CMS_RecipientInfo)*rs=CMS_get0_RecipientInfos(k);
  for(int j=0;j<sk_CMS_RecipientInfo_num(rs);j++){EVP_PKEY*pk;X509*rx;X509_ALGOR*al=nullptr;REQUIRE(CMS_RecipientInfo_ktri_get0_algs(sk_CMS_RecipientInfo_value(rs,j),&pk,&rx,&al)==1&&al,"not a key transport");got.push_back(i2(i2d_X509_ALGOR,(const X509_ALGOR*)al));}
  for(auto&i:id)want.push_back(modern(cn)?der_seq({kx::oid(kuz(cn)?NID_kuznyechik_kexp15:NID_magma_kexp15),der_seq({kx::oid(i.type==NID_id_GostR3410_2012_512?NID_id_tc26_agreement_gost_3410_2012_512:NID_id_tc26_agreement_gost_3410_2012_256)})}):kx::algid(i.type,*i.p));
  std::sort(got.begin(),got.end());std::sort(want.begin(),want.end());REQUIRE(got.size()==want.size(),"%zu recipients, expected %zu",got.size(),want.size());for(size_t j=0;j<got.size();j++)REQUIRE(got[j]==want[j],"%s: key transport algorithm %s, expected %s",OBJ_nid2sn(cn),tohex(got[j]).c_str(),tohex(want[j]).c_str());}
 auto open=[&](const Bytes&d,Id&i,bool wc,Bytes&out){In in(d);const uint8_t*q=in.p;CMS_ContentInfo*c=d2i_CMS_ContentInfo(NULL,&q,in.n);if(!c)return -2;Bm o;int r=CMS_decrypt(c,i.k,wc?i.cert:NULL,NULL,o,CMS_BINARY|(wc?0:CMS_DEBUG_DECRYPT));out=o.data();CMS_ContentInfo_free(c);return r;};
 for(auto&i:id){Bytes o;int r=open(der,i,true,o);REQUIRE(r==1,"%s: recipient %s %s cannot open the message: %s",OBJ_nid2sn(cn),OBJ_nid2sn(i.type),i.p->sn.c_str(),errs().c_str());REQUIRE(o==m,"%s: opened content differs (%zu bytes of %zu)",OBJ_nid2sn(cn),o.size(),m.size());}
 Id w;gen_id(s,w,true,true);for(auto&i:id)if(w.Q==i.Q)return;Bytes o;int r=open(der,w,false,o);ERR_clear_error();if(auth(cn))REQUIRE(r!=1,"a stranger opened an authenticated message");else if(m.size()>16)REQUIRE(o!=m,"a stranger opened the message");
 if(auth(cn)){ // alter the encrypted content or the MAC: both sit at the end
  Bytes x=der;size_t tail=std::min(x.size(),m.size()+(kuz(cn)?16:8)+20);size_t k=x.size()-1-s.draw(tail);x[k]^=1<<s.draw(8);r=open(x,id[0],true,o);ERR_clear_error();if(r==1)REQUIRE(o==m,"altered authenticated message opened with other content");label(r==1?"altered: framing":"altered: refused");} }
SUB("X01",p7envelope,800,12000,16){ int cn=CC[0];Id i;gen_id(s,i,true);mkcert(s,i,false);Id sg;gen_id(s,sg);X509_sign(i.cert,sg.k,digest(mdnid(sg.type)));Bytes m=content(s);if(m.size()>16)nontrivial();lab(i);label(std::string("PKCS#7 ")+OBJ_nid2sn(cn));note("PKCS#7 %s %s %s %zu bytes",OBJ_nid2sn(cn),OBJ_nid2sn(i.type),i.p->sn.c_str(),m.size());
 STACK_OF(X509)*st=sk_X509_new_null();sk_X509_push(st,i.cert);Bm b(m);PKCS7*p=PKCS7_encrypt(st,b,cipher(cn),PKCS7_BINARY);sk_X509_free(st);REQUIRE(p,"%s: PKCS#7 encryption: %s",OBJ_nid2sn(cn),errs().c_str());Bytes der=i2(i2d_PKCS7,(const PKCS7*)p);PKCS7_free(p);In in(der);const uint8_t*q=in.p;p=d2i_PKCS7(NULL,&q,in.n);REQUIRE(p,"message unreadable");{X509_ALGOR*al=nullptr;PKCS7_RECIP_INFO_get0_alg(sk_PKCS7_RECIP_INFO_value(p->d.enveloped->recipientinfo,0),&al);Bytes g=i2(i2d_X509_ALGOR,(const X509_ALGOR*)al),w=kx::algid(i.type,*i.p);REQUIRE(g==w,"key transport algorithm %s, expected %s",tohex(g).c_str(),tohex(w).c_str());}
 Bm o;int r=PKCS7_decrypt(p,i.k,i.cert,o,PKCS7_BINARY);PKCS7_free(p);REQUIRE(r==1&&o.data()==m,"PKCS#7 content not recovered: %s",errs().c_str()); }
// ---- messages built by the reference
struct RefMsg{ bool kari=false; int cn=0; Bytes content; Id id; N e; Bytes ukm,cek,iv,seed; // fields that a hostile sender may replace
 Bytes orig_alg,orig_bits; bool has_ukm=true,has_params=true; Bytes ukm_field,kea_params,wrapped,cparams,ct,mac; int kea_oid=0; bool has_orig=true,has_unprot=true; Bytes unprot_oid; int version=3; };
static Bytes ias(X509*c){uint8_t*p=nullptr;int n=i2d_X509_NAME(X509_get_issuer_name(c),&p);Bytes r(p,p+n);OPENSSL_free(p);p=nullptr;n=i2d_ASN1_INTEGER(X509_get_serialNumber(c),&p);r=cat(r,Bytes(p,p+n));OPENSSL_free(p);return der(0x30,r);}
static void gen_msg(Src&s,RefMsg&m,bool kari){ m.kari=kari;do m.cn=CC[kari?1+s.draw(4):s.draw(5)];while(0);bool k=kuz(m.cn);gen_id(s,m.id,!kari,modern(m.cn));mkcert(s,m.id,false);const Curve&c=*m.id.p->c;m.content=gen_content(s,m.cn);m.cek=s.rnd(32);m.e=gen_scalar(s,c,false);Pt E=mul(c,gen(c),m.e);
 bool ok=false;if(modern(m.cn)){do{m.ukm=s.rnd(32);m.ukm[0]|=1;Bytes g=keg(c,m.e,m.id.Q,m.ukm,c.hl==64,ok);if(ok)m.wrapped=kexp15(k,g.data()+32,g.data(),sub(m.ukm,24,k?8:4),m.cek);}while(!ok);}
 m.orig_alg=kx::algid(m.id.type,*m.id.p);m.orig_bits=der_octet(kx::point_le(c,E));m.ukm_field=m.ukm;m.kea_oid=k?NID_kuznyechik_kexp15:NID_magma_kexp15;int ag=c.hl==64?NID_id_tc26_agreement_gost_3410_2012_512:NID_id_tc26_agreement_gost_3410_2012_256;m.kea_params=der_seq({kx::oid(ag)});
 if(!kari){kx::Blob b;b.key=kx::spki(m.id.type,*m.id.p,E);if(modern(m.cn)){b.pskt=true;b.body=m.wrapped;b.ukm=m.ukm;}else{m.ukm=s.rnd(8);m.ukm[0]|=1;Bytes kk=vko(c,m.e,m.id.Q,m.ukm,kx::legacy_hash(m.id.type),ok);if(!ok)pbt::fail("harness: ukm");Bytes w=cp_wrap(kx::legacy_set(kx::legacy_cipher_sn(m.id.type)),true,kk.data(),m.ukm.data(),m.cek.data());b.ukm=m.ukm;b.body=sub(w,8,32);b.mac=sub(w,40,4);b.cipher=kx::oid(OBJ_sn2nid(kx::legacy_cipher_sn(m.id.type)));m.kea_oid=m.id.type;m.kea_params=kx::params_der(m.id.type,*m.id.p);}m.wrapped=b.der();}
 m.iv=s.bytes(modern(m.cn)&&!k?4:8);m.seed=s.rnd(8);m.unprot_oid=der_oid("1.2.643.7.1.0.6.1.1");
 if(modern(m.cn)){m.cparams=der_seq({der_octet(cat(m.iv,m.seed))});size_t sec=k?262144:8192;uint8_t c0[16]={0};memcpy(c0,m.iv.data(),m.iv.size());if(auth(m.cn)){const char*l="kdf tree";Bytes keys=kdf_tree(m.cek,Bytes(l,l+8),m.seed,64,1);auto mc=make_bc(k);mc->key(&keys[32]);Bytes mac=omac(*mc,m.content);Bytes all=ctr_acpkm(k,keys.data(),c0,sec,cat(m.content,mac));m.ct=sub(all,0,m.content.size());m.mac=sub(all,m.content.size(),mac.size());}else m.ct=ctr_acpkm(k,m.cek.data(),c0,sec,m.content);}
 else{const char*sb[]={"TC26_Z","CryptoPro_A","CryptoPro_B","CryptoPro_C","CryptoPro_D"};const char*oids[]={"1.2.643.7.1.2.5.1.1","1.2.643.2.2.31.1","1.2.643.2.2.31.2","1.2.643.2.2.31.3","1.2.643.2.2.31.4"};int x=s.draw(5),set=sbox_by_name(sb[x]);m.cparams=der_seq({der_octet(m.iv),der_oid(oids[x])});
  if(m.cn==NID_id_Gost28147_89)m.ct=gost89_cfb(set,true,m.cek.data(),m.iv.data(),m.content,true);else if(m.cn==NID_gost89_cbc)m.ct=gost89_cbc_raw(set,false,m.cek.data(),m.iv.data(),pkcs7(m.content,8),true);else m.ct=gost89_cnt(set,true,m.cek.data(),m.iv.data(),m.content);} }
static Bytes ver(int v){return Bytes{2,1,(uint8_t)v};}
static Bytes msg_der(const RefMsg&m){ Bytes ri;Bytes kea=kx::oid(m.kea_oid);if(m.has_params)kea=cat(kea,m.kea_params);kea=der(0x30,kea);
 if(m.kari){Bytes orig=m.has_orig?der(0xa0,der(0xa1,cat(m.orig_alg,der_bits(m.orig_bits)))):der(0xa0,ias(m.id.cert));Bytes b=cat(ver(m.version),orig);if(m.has_ukm)b=cat(b,der(0xa1,der_octet(m.ukm_field)));b=cat(b,kea);b=cat(b,der_seq({der_seq({ias(m.id.cert),der_octet(m.wrapped)})}));ri=der(0xa1,b);}
 else ri=der_seq({ver(0),ias(m.id.cert),kea,der_octet(m.wrapped)});
 Bytes eci=der_seq({kx::oid(NID_pkcs7_data),der_seq({kx::oid(m.cn),m.cparams}),der(0x80,m.ct)});Bytes ed=cat(ver(auth(m.cn)||m.kari?2:0),cat(der(0x31,ri),eci));if(auth(m.cn)&&m.has_unprot)ed=cat(ed,der(0xa1,der_seq({m.unprot_oid,der(0x31,der_octet(m.mac))})));
 return der_seq({kx::oid(NID_pkcs7_enveloped),der(0xa0,der(0x30,ed))}); }
static int open_msg(const Bytes&d,RefMsg&m,Bytes&out,bool debug,bool set_first=false){ In in(d);const uint8_t*q=in.p;CMS_ContentInfo*c=d2i_CMS_ContentInfo(NULL,&q,in.n);if(!c)return -2;Bm o;int f=CMS_BINARY|(debug?CMS_DEBUG_DECRYPT:0);int r;if(set_first){r=CMS_decrypt_set1_pkey(c,m.id.k,m.id.cert);if(r==1)r=CMS_decrypt(c,NULL,NULL,NULL,o,f);}else r=CMS_decrypt(c,m.id.k,m.id.cert,NULL,o,f);out=o.data();CMS_ContentInfo_free(c);return r; }
SUB("X01",ref_envelope,2400,40000,16){ RefMsg m;bool kari=s.flip();gen_msg(s,m,kari);if(m.content.size()>16)nontrivial();lab(m.id);label(kari?"key agreement":"key transport");label(OBJ_nid2sn(m.cn));note("%s %s %s %s %zu bytes",kari?"key agreement":"key transport",OBJ_nid2sn(m.cn),OBJ_nid2sn(m.id.type),m.id.p->sn.c_str(),m.content.size());
 Bytes d=msg_der(m),o;int r=open_msg(d,m,o,s.flip(),s.flip());REQUIRE(r==1,"standard %s message not opened: %s",kari?"key agreement":"key transport",errs().c_str());REQUIRE(o==m.content,"opened content differs"); }
static void edit(Src&s,Bytes&b){ size_t n=1+s.draw(4);for(size_t i=0;i<n&&!b.empty();i++)switch(s.draw(5)){case 0:b[s.draw(b.size())]^=1<<s.draw(8);break;case 1:b[s.draw(b.size())]=s.pick({0,1,2,4,6,0x30,0x80,0x82,0xa0,0xff,0x7f});break;case 2:b.erase(b.begin()+s.draw(b.size()));break;case 3:b.insert(b.begin()+s.draw(b.size()+1),(uint8_t)s.draw(256));break;default:b.resize(s.draw(b.size()+1));} }
SUB("X01",hostile,5000,100000,32){ RefMsg m;bool kari=s.chance(2,3);gen_msg(s,m,kari);if(m.content.size()>300)m.content.resize(300),m.ct.resize(std::min(m.ct.size(),(size_t)300));std::string w;const Ps&p2=gen_ps(s);size_t n=1+s.draw(2);
 for(size_t k=0;k<n;k++)switch(s.draw(15)){case 0:m.has_ukm=false;w+="no ukm;";break;case 1:m.ukm_field=s.bytes(s.pick({0,1,4,8,16,23,24,25,31,33,40,64,200}));w+="ukm length;";break;case 2:m.has_params=false;w+="no key encryption parameters;";break;case 3:m.kea_params=s.pick({Bytes{5,0},kx::oid(NID_pkcs7_data),Bytes{0x30,0},Bytes{4,0},Bytes{1,1,1}});w+="key encryption parameters;";break;case 4:m.kea_oid=s.pick({NID_kuznyechik_kexp15,NID_magma_kexp15,NID_id_GostR3410_2012_256,NID_id_GostR3410_2001,NID_id_Gost28147_89,NID_rsaEncryption,NID_magma_ctr});w+="key encryption algorithm;";break;
 case 5:m.wrapped=s.flip()?s.bytes(s.draw(120)):sub(m.wrapped,0,s.draw(m.wrapped.size()+1));w+="wrapped key length;";break;case 6:m.wrapped[s.draw(m.wrapped.size())]^=1<<s.draw(8);w+="wrapped key;";break;
 case 7:m.orig_alg=s.pick({der_seq({kx::oid(m.id.type)}),der_seq({kx::oid(m.id.type),Bytes{5,0}}),der_seq({kx::oid(m.id.type),kx::oid(m.id.p->nid)}),der_seq({kx::oid(NID_X9_62_id_ecPublicKey),kx::oid(NID_X9_62_prime256v1)}),der_seq({der_oid("1.2.3.4.5"),der_seq({kx::oid(m.id.p->nid)})}),kx::algid(m.id.type,p2)});w+="originator algorithm;";break;
 case 8:m.orig_bits=s.pick({Bytes(),Bytes{4,0},der_octet(s.bytes(s.draw(140))),s.bytes(s.draw(140)),der_octet(Bytes(2*m.id.p->c->hl,0))});w+="originator key;";break;case 9:m.has_orig=false;w+="originator by name;";break;
 case 10:m.cparams=s.pick({Bytes{5,0},Bytes{0x30,0},der_seq({der_octet(s.bytes(s.draw(30)))}),Bytes{1,1,0},der_octet(s.bytes(8)),Bytes()});w+="content parameters;";break;case 11:m.mac=s.bytes(s.pick({0,1,7,8,9,15,16,17,64}));w+="mac;";break;case 12:m.has_unprot=false;w+="no mac;";break;case 13:m.unprot_oid=der_oid("1.2.643.7.1.0.6.1.9");w+="mac attribute;";break;default:m.cn=s.pick({NID_magma_ctr_acpkm,NID_kuznyechik_ctr_acpkm_omac,NID_id_Gost28147_89,NID_magma_mac,NID_kuznyechik_kexp15,NID_aes_128_cbc,NID_magma_ecb,NID_gost89_cbc});w+="content cipher;";}
 Bytes d=msg_der(m);if(s.chance(1,4)){edit(s,d);w+="edited;";}nontrivial();note("%s %s %s",kari?"key agreement":"key transport",OBJ_nid2sn(m.id.type),w.c_str());label(w.substr(0,w.find(';')));bool dbg=s.flip();Bytes o;int r=open_msg(d,m,o,dbg);ERR_clear_error();label(r==-2?"unreadable":r==1?"opened":"refused");
 if(r==1&&auth(m.cn)&&w.find("edited")==std::string::npos)REQUIRE(o==m.content||w.find("wrapped")==std::string::npos,"message opened with other content");
 if(s.chance(1,4)){long a=0,z=0;for(int i=0;i<3;i++){open_msg(d,m,o,dbg);Bytes().swap(o);ERR_clear_error();a=z;z=live_allocs();}REQUIRE(z<=a,"each opening leaves %ld allocations behind (%s)",z-a,w.c_str());} }
// ---- passwords
static HashId prf(int nid){switch(nid){case NID_id_HMACGostR3411_94:return H_94;case NID_id_tc26_hmac_gost_3411_2012_256:return H_12_256;case NID_id_tc26_hmac_gost_3411_2012_512:return H_12_512;}pbt::fail("unexpected PRF %s",OBJ_nid2sn(nid));}
static const int PB[]={NID_id_Gost28147_89}; // the only one with an object identifier and parameters
SUB("X01",pbe,700,10000,16){ Id i;gen_id(s,i,true);int cn=PB[0];Bytes pw=s.bytes(1+s.draw(40));for(auto&c:pw)c=33+c%90;unsigned iter=1+s.draw(6);nontrivial();lab(i);label(OBJ_nid2sn(cn));note("PBES2 %s %s iter=%u pw=%zu",OBJ_nid2sn(cn),OBJ_nid2sn(i.type),iter,pw.size());
 PKCS8_PRIV_KEY_INFO*p8=EVP_PKEY2PKCS8(i.k);REQUIRE(p8,"PKCS#8: %s",errs().c_str());Bytes plain=i2(i2d_PKCS8_PRIV_KEY_INFO,(const PKCS8_PRIV_KEY_INFO*)p8);Bytes salt=s.bytes(8+s.draw(25));Bytes sc=salt;X509_SIG*x=PKCS8_encrypt(-1,cipher(cn),(const char*)pw.data(),pw.size(),sc.data(),sc.size(),iter,p8);PKCS8_PRIV_KEY_INFO_free(p8);REQUIRE(x,"%s: PKCS#8 encryption: %s",OBJ_nid2sn(cn),errs().c_str());
 const X509_ALGOR*al;const ASN1_OCTET_STRING*od;X509_SIG_get0(x,&al,&od);Bytes ct(od->data,od->data+od->length);PBE2PARAM*pb=(PBE2PARAM*)ASN1_TYPE_unpack_sequence(ASN1_ITEM_rptr(PBE2PARAM),al->parameter);REQUIRE(pb,"PBES2 parameters");PBKDF2PARAM*kd=(PBKDF2PARAM*)ASN1_TYPE_unpack_sequence(ASN1_ITEM_rptr(PBKDF2PARAM),pb->keyfunc->parameter);REQUIRE(kd,"PBKDF2 parameters");int pn=kd->prf?OBJ_obj2nid(kd->prf->algorithm):NID_hmacWithSHA1;Bytes sl(kd->salt->value.octet_string->data,kd->salt->value.octet_string->data+kd->salt->value.octet_string->length);REQUIRE(sl==salt&&ASN1_INTEGER_get(kd->iter)==(long)iter,"salt or iterations");
 uint8_t*cp=nullptr;int cl=i2d_ASN1_TYPE(pb->encryption->parameter,&cp);Bytes pd(cp,cp+cl);OPENSSL_free(cp);REQUIRE(OBJ_obj2nid(pb->encryption->algorithm)==cn||cn==NID_gost89_cnt_12||cn==NID_gost89_cnt||cn==NID_gost89_cbc,"cipher");kx::Tlv a,t;REQUIRE(kx::tlv(pd,0,a)&&kx::tlv(a.val,0,t)&&t.tag==4&&t.val.size()==8,"cipher parameters %s",hex(pd).c_str());Bytes setoid=sub(a.val,t.total(),a.val.size()-t.total());int set=-1;for(auto n:{"id-Gost28147-89-CryptoPro-A-ParamSet","id-tc26-gost-28147-param-Z"})if(setoid==kx::oid(OBJ_sn2nid(n)))set=kx::legacy_set(n);REQUIRE(set>=0,"parameter set %s",hex(setoid).c_str());
 Bytes key=pbkdf2(prf(pn),pw,salt,iter,32);Bytes pt;if(cn==NID_id_Gost28147_89)pt=gost89_cfb(set,true,key.data(),t.val.data(),ct,false);else if(cn==NID_gost89_cbc){pt=gost89_cbc_raw(set,false,key.data(),t.val.data(),ct,false);REQUIRE(pt.size()&&pt.back()>=1&&pt.back()<=8,"padding");pt.resize(pt.size()-pt.back());}else pt=gost89_cnt(set,true,key.data(),t.val.data(),ct);PBE2PARAM_free(pb);PBKDF2PARAM_free(kd);
 REQUIRE(pt==plain,"the encrypted key does not open with the standard derivation (PRF %s): %s",OBJ_nid2sn(pn),hex(pt,40).c_str());
 Bytes der=i2(i2d_X509_SIG,(const X509_SIG*)x);X509_SIG_free(x);In in(der);const uint8_t*q=in.p;x=d2i_X509_SIG(NULL,&q,in.n);p8=PKCS8_decrypt(x,(const char*)pw.data(),pw.size());REQUIRE(p8,"own encrypted key not opened: %s",errs().c_str());PK b(EVP_PKCS82PKEY(p8));PKCS8_PRIV_KEY_INFO_free(p8);REQUIRE(b.p&&EVP_PKEY_eq(b,i.k)==1,"opened key differs");
 Bytes bad=pw;bad[s.draw(bad.size())]^=1;p8=PKCS8_decrypt(x,(const char*)bad.data(),bad.size());bool same=false;if(p8){PK b2(EVP_PKCS82PKEY(p8));same=b2.p&&EVP_PKEY_eq(b2,i.k)==1;PKCS8_PRIV_KEY_INFO_free(p8);}ERR_clear_error();X509_SIG_free(x);REQUIRE(!same,"opened with the wrong password"); }
SUB("X01",p12,400,6000,16){ Id i;gen_id(s,i);mkcert(s,i);Bytes pw=s.bytes(1+s.draw(24));for(auto&c:pw)c=33+c%90;std::string pass(pw.begin(),pw.end());unsigned iter=1+s.draw(4),miter=1+s.draw(4);int cn=PB[0];int mn=s.pick({NID_id_GostR3411_2012_512,NID_id_GostR3411_2012_256,NID_id_GostR3411_94});nontrivial();lab(i);label(OBJ_nid2sn(mn));note("PKCS#12 %s %s %s iter=%u mac iter=%u",OBJ_nid2sn(i.type),OBJ_nid2sn(cn),OBJ_nid2sn(mn),iter,miter);
 PKCS12*p=PKCS12_create(pass.c_str(),"name",i.k,i.cert,NULL,cn,cn,iter,-1,0);REQUIRE(p,"PKCS#12: %s",errs().c_str());Bytes salt=s.bytes(8+s.draw(20));Bytes sc=salt;REQUIRE(PKCS12_set_mac(p,pass.c_str(),-1,sc.data(),sc.size(),miter,digest(mn))==1,"MAC: %s",errs().c_str());
 const ASN1_OCTET_STRING*mac,*ms;const X509_ALGOR*ma;const ASN1_INTEGER*mi;PKCS12_get0_mac(&mac,&ma,&ms,&mi,p);REQUIRE(OBJ_obj2nid(ma->algorithm)==mn,"MAC algorithm");Bytes der=i2(i2d_PKCS12,(const PKCS12*)p);PKCS12_free(p);
 // RFC 9548: the MAC key is the last 32 bytes of 96 bytes of PBKDF2
 kx::Tlv o,v,ci,t1,t2,t3;REQUIRE(kx::tlv(der,0,o)&&kx::tlv(o.val,0,v)&&kx::tlv(o.val,v.total(),ci)&&kx::tlv(ci.val,0,t1)&&kx::tlv(ci.val,t1.total(),t2)&&kx::tlv(t2.val,0,t3)&&t3.tag==4,"PKCS#12 structure");HashId h=mn==NID_id_GostR3411_94?H_94:mn==NID_id_GostR3411_2012_256?H_12_256:H_12_512;
 Bytes k=sub(pbkdf2(h,pw,salt,miter,96),64,32),e=hmac(h,k,t3.val);
 {In in(der);const uint8_t*q=in.p;p=d2i_PKCS12(NULL,&q,in.n);}REQUIRE(p,"PKCS#12 not re-read");PKCS12_get0_mac(&mac,&ma,&ms,&mi,p);REQUIRE(mac->length==(int)e.size()&&!memcmp(mac->data,e.data(),e.size()),"PKCS#12 MAC %s, expected %s",hex(mac->data,mac->length).c_str(),hex(e).c_str());
 EVP_PKEY*k2=nullptr;X509*c2=nullptr;REQUIRE(PKCS12_parse(p,pass.c_str(),&k2,&c2,NULL)==1,"own PKCS#12 not opened: %s",errs().c_str());PK kk(k2);bool same=c2&&X509_cmp(c2,i.cert)==0&&EVP_PKEY_eq(k2,i.k)==1;X509_free(c2);REQUIRE(same,"PKCS#12 contents differ");
 std::string bad=pass;bad[s.draw(bad.size())]^=1;REQUIRE(PKCS12_verify_mac(p,bad.c_str(),-1)!=1,"opened with the wrong password");ERR_clear_error();PKCS12_free(p);
 Bytes x=der;kx::Tlv tt;size_t base=o.hdr+v.total()+ci.hdr+t1.total()+t2.hdr+t3.hdr;x[base+s.draw(t3.val.size())]^=1<<s.draw(8);In in(x);const uint8_t*q=in.p;p=d2i_PKCS12(NULL,&q,in.n);if(p)REQUIRE(PKCS12_verify_mac(p,pass.c_str(),-1)!=1,"altered PKCS#12 accepted");PKCS12_free(p);ERR_clear_error(); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
