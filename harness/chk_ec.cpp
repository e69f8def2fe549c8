// E01 curve arithmetic, E02 parameter sets and key generation, E03/E04 signatures, E05 key agreement
#include "ec.h"
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
#include "ecp32.h"
using namespace ec; using ref::cat; using ref::sub;
static pbt::Rule r1("E01","parameter set, scalars (0, 1, around q and its multiples, powers of two, digit patterns, zero/one runs, up to the field width) and points (G, -G, small and random multiples, chosen x, small order, opposite and equal operands) drawn; non-trivial: scalar above one word or special point");
static pbt::Rule r2("E02","every accepted parameter name and OID in every spelling, key types, scripted random sources (zeros, q, values above q, failures); every case non-trivial");
static pbt::Rule r3("E03","key, digest (0, q, above q, random; made so that s would be 0) and nonce script drawn; every case non-trivial");
static pbt::Rule r4("E04","valid signatures and alterations of each part, out-of-range parts, wrong lengths, crafted cases; oracle decides; non-trivial: anything but a plain valid signature");
static pbt::Rule r5("E05","two keys on one set, UKM of drawn content and length, VKO 256/512, legacy and KEG; wrong partners; every case non-trivial");
static const Ps&gen_ps(Src&s){auto&v=params();return v[s.draw(v.size())];}
struct Grp{ EC_KEY*e; const EC_GROUP*g; Grp(int nid):e(engine_ec(nid)),g(EC_KEY_get0_group(e)){} ~Grp(){EC_KEY_free(e);} };
static void pmul(const Ps&ps,const N*n,const Pt*Q,const N*m,const Pt&expect,const char*what,bool alias){ Grp g(ps.nid);EC_POINT*q=Q?to(g.g,*Q):nullptr,*r=alias&&q?q:EC_POINT_new(g.g);BN_CTX*c=BN_CTX_new();
 int rc=gost_ec_point_mul(g.g,r,n?(BIGNUM*)*n:nullptr,q,m?(BIGNUM*)*m:nullptr,c);std::string es=errs();bool inf=rc==1&&EC_POINT_is_at_infinity(g.g,r)==1;Pt got;if(rc==1)got=from(g.g,r);if(r!=q)EC_POINT_free(r);EC_POINT_free(q);BN_CTX_free(c);
 REQUIRE(rc==1,"%s: %s multiplication failed: %s",ps.sn.c_str(),what,es.c_str());REQUIRE(inf==expect.inf&&got==expect,"%s: %s multiplication: got %s, expected %s",ps.sn.c_str(),what,got.str().c_str(),expect.str().c_str()); }
static void lab(const Ps&p){label(p.sn);}
SUB("E01",base,12000,200000,32){ const Ps&ps=gen_ps(s);N k=gen_scalar(s,*ps.c,true);note("%s k=%s",ps.sn.c_str(),k.str().c_str());lab(ps);if(BN_num_bits(k)>64)nontrivial();pmul(ps,&k,nullptr,nullptr,mul(*ps.c,gen(*ps.c),k),"base-point",false); }
SUB("E01",variable,10000,150000,32){ const Ps&ps=gen_ps(s);std::string how;Pt Q=gen_point(s,*ps.c,how);N k=gen_scalar(s,*ps.c,true);note("%s %s Q=%s k=%s",ps.sn.c_str(),how.c_str(),Q.str().c_str(),k.str().c_str());lab(ps);label(how);nontrivial();
 if(Q.inf)return; Pt e=mul(*ps.c,Q,k); if(ps.c->cof>1)e=mul(*ps.c,e,N(ps.c->cof)); // the variable-point routine clears the cofactor (used by key agreement only)
 pmul(ps,nullptr,&Q,&k,e,"variable-point",s.chance(1,6)); }
SUB("E01",two,10000,150000,32){ const Ps&ps=gen_ps(s);const Curve&c=*ps.c;std::string how;Pt Q;N n,m;nontrivial();
 if(s.chance(1,3)){ // related operands: n*G = +-m*Q and neighbours
  N d=gen_scalar(s,c,false);m=gen_scalar(s,c,false);Q=mul(c,gen(c),d);n=mulmod(m,d,c.q);if(s.flip())n=mod(c.q-n,c.q);if(s.chance(1,3))n=n+N(s.draw(3));how="related operands"; }
 else{Q=gen_point(s,c,how);n=gen_scalar(s,c,true);m=gen_scalar(s,c,true);if(s.chance(1,5))m=n;}
 note("%s %s Q=%s n=%s m=%s",ps.sn.c_str(),how.c_str(),Q.str().c_str(),n.str().c_str(),m.str().c_str());lab(ps);label(how);if(Q.inf)return;
 pmul(ps,&n,&Q,&m,add(c,mul(c,gen(c),n),mul(c,Q,m)),"two-scalar",s.chance(1,6)); }
SUB("E01",word32,4000,150000,32){ // the 32-bit field arithmetic of the same files
 const V32&v=v32[s.draw(sizeof v32/sizeof*v32)];int nid=OBJ_txt2nid(v.sn);const Ps&ps=param_by_nid(nid);const Curve&c=*ps.c;std::string how="base point";Pt Q;N n=gen_scalar(s,c,true),m=gen_scalar(s,c,true);int op=s.draw(3);if(op)Q=gen_point(s,c,how);if(op==2&&s.chance(1,3)){N d=gen_scalar(s,c,false);Q=mul(c,gen(c),d);n=mulmod(m,d,c.q);if(s.flip())n=mod(c.q-n,c.q);how="related operands";}
 note("%s op=%d %s Q=%s n=%s m=%s",v.sn,op,how.c_str(),Q.str().c_str(),n.str().c_str(),m.str().c_str());label(v.sn);nontrivial();if(op&&(Q.inf||(op==2&&Q.y.zero())))return;
 Pt e=op==0?mul(c,gen(c),n):op==1?mul(c,mul(c,Q,m),N(c.cof)):add(c,mul(c,gen(c),n),mul(c,Q,m));
 Grp g(nid);EC_POINT*q=op?to(g.g,Q):nullptr,*r=EC_POINT_new(g.g);BN_CTX*x=BN_CTX_new();int rc=op==0?v.g(g.g,r,n,x):op==1?v.mul(g.g,r,q,m,x):v.two(g.g,r,n,q,m,x);Pt got;if(rc==1)got=from(g.g,r);EC_POINT_free(r);EC_POINT_free(q);BN_CTX_free(x);REQUIRE(rc==1&&got==e,"%s 32-bit code, operation %d: rc=%d got %s, expected %s",v.sn,op,rc,got.str().c_str(),e.str().c_str()); }

// ---- E02
struct Name{int type;std::string s;int nid;};
static std::string oid(int nid){char b[80];OBJ_obj2txt(b,sizeof b,OBJ_nid2obj(nid),1);return b;}
static const std::vector<Name>&names(){ static std::vector<Name>v;if(v.empty()){
  auto n=[](const char*sn){int x=OBJ_txt2nid(sn);if(x==NID_undef)pbt::fail("harness: %s",sn);return x;};
  struct{const char*l,*sn;}l256[]={{"A","id-GostR3410-2001-CryptoPro-A-ParamSet"},{"B","id-GostR3410-2001-CryptoPro-B-ParamSet"},{"C","id-GostR3410-2001-CryptoPro-C-ParamSet"},{"0","id-GostR3410-2001-TestParamSet"},{"XA","id-GostR3410-2001-CryptoPro-XchA-ParamSet"},{"XB","id-GostR3410-2001-CryptoPro-XchB-ParamSet"},{"TCA","id-tc26-gost-3410-2012-256-paramSetA"},{"TCB","id-tc26-gost-3410-2012-256-paramSetB"},{"TCC","id-tc26-gost-3410-2012-256-paramSetC"},{"TCD","id-tc26-gost-3410-2012-256-paramSetD"}};
  struct{const char*l,*sn;}l512[]={{"A","id-tc26-gost-3410-2012-512-paramSetA"},{"B","id-tc26-gost-3410-2012-512-paramSetB"},{"C","id-tc26-gost-3410-2012-512-paramSetC"}};
  for(int t:{NID_id_GostR3410_2001,NID_id_GostR3410_2012_256})for(auto&x:l256){v.push_back({t,x.l,n(x.sn)});std::string lo=x.l;for(auto&ch:lo)ch=tolower(ch);v.push_back({t,lo,n(x.sn)});}
  for(auto&x:l512){v.push_back({NID_id_GostR3410_2012_512,x.l,n(x.sn)});std::string lo=x.l;for(auto&ch:lo)ch=tolower(ch);v.push_back({NID_id_GostR3410_2012_512,lo,n(x.sn)});}
  for(auto&p:params()){if(p.sn!=p.c->row->sn)continue;std::vector<int>ts;if(p.c->hl==64)ts={NID_id_GostR3410_2012_512};else ts={NID_id_GostR3410_2001,NID_id_GostR3410_2012_256};for(int t:ts){v.push_back({t,OBJ_nid2sn(p.nid),p.nid});v.push_back({t,OBJ_nid2ln(p.nid),p.nid});v.push_back({t,oid(p.nid),p.nid});}}
 } return v; }
static void check_group(EC_KEY*e,int nid){ const Ps&p=param_by_nid(nid);const EC_GROUP*g=EC_KEY_get0_group(e);REQUIRE(g,"key without parameters");REQUIRE(EC_GROUP_get_curve_name(g)==nid,"key reports parameter set %s, expected %s",OBJ_nid2sn(EC_GROUP_get_curve_name(g)),p.sn.c_str());
 N a,b,pp,q,h,a2,b2,p2;REQUIRE(EC_GROUP_get_curve(g,pp,a,b,bctx())==1,"curve");EC_GROUP_get_curve(p.c->g,p2,a2,b2,bctx());EC_GROUP_get_order(g,q,bctx());EC_GROUP_get_cofactor(g,h,bctx());
 REQUIRE(pp==p2&&a==a2&&b==b2,"%s: curve coefficients differ from the standard",p.sn.c_str());REQUIRE(q==p.c->q,"%s: order differs from the standard",p.sn.c_str());REQUIRE(h==N(p.c->cof),"%s: cofactor %s",p.sn.c_str(),h.str().c_str());
 Pt G=from(g,EC_GROUP_get0_generator(g));REQUIRE(G==gen(*p.c),"%s: base point differs from the standard",p.sn.c_str()); }
static void check_pair(EC_KEY*e,int nid){ const Ps&p=param_by_nid(nid);const BIGNUM*d=EC_KEY_get0_private_key(e);REQUIRE(d,"generated key has no private part");REQUIRE(EC_KEY_get0_public_key(e),"generated key has no public part");N k(d);REQUIRE(!k.zero()&&!BN_is_negative(k)&&k<p.c->q,"%s: private value %s out of range",p.sn.c_str(),k.str().c_str());Pt Q=from(EC_KEY_get0_group(e),EC_KEY_get0_public_key(e));REQUIRE(Q==mul(*p.c,gen(*p.c),k),"%s: public point is not the multiple of the base point by %s",p.sn.c_str(),k.str().c_str()); }
static Bytes rng_script(Src&s,const Curve&c,std::string&d){ Bytes r;size_t n=s.draw(6);for(size_t i=0;i<n;i++){switch(s.draw(6)){case 0:r=cat(r,Bytes(c.hl,0));d+=" zeros";break;case 1:r=cat(r,tobe(c.q,c.hl));d+=" q";break;case 2:r=cat(r,Bytes(c.hl,0xff));d+=" ones";break;case 3:r=cat(r,tobe(c.q-N(1+s.draw(2)),c.hl));d+=" q-1/2";break;case 4:r=cat(r,tobe(N(1+s.draw(3)),c.hl));d+=" small";break;default:r=cat(r,tobe(c.q+N(1+s.draw(3)),c.hl));d+=" q+";}}return r; }
SUB("E02",keygen,5000,60000,32){ nontrivial();size_t n=1+s.draw(3);struct K{EVP_PKEY*k;int nid;bool pair;};std::vector<K>ks;struct Fr{std::vector<K>&v;~Fr(){for(auto&k:v)EVP_PKEY_free(k.k);}}fr{ks};
 for(size_t i=0;i<n;i++){ const Name&nm=names()[s.draw(names().size())];const Ps&p=param_by_nid(nm.nid);bool gen_=!s.chance(1,4);PC c(EVP_PKEY_CTX_new_id(nm.type,eng()));REQUIRE((EVP_PKEY_CTX*)c,"context");std::string sd;Bytes sc=rng_script(s,*p.c,sd);int fail=s.chance(1,6)?(int)s.draw(3):-1;note("%s %s=%s rng:%s%s",OBJ_nid2sn(nm.type),gen_?"key":"params",nm.s.c_str(),sd.c_str(),fail>=0?" failing":"");label(nm.s.size()<4?nm.s:"long name");
  REQUIRE((gen_?EVP_PKEY_keygen_init(c):EVP_PKEY_paramgen_init(c))==1,"init: %s",errs().c_str());
  if(s.chance(1,8)){EVP_PKEY*x=nullptr;int r=gen_?EVP_PKEY_keygen(c,&x):EVP_PKEY_paramgen(c,&x);EVP_PKEY_free(x);REQUIRE(r<=0,"generation without a parameter set succeeded");ERR_clear_error();}
  if(s.chance(1,4)){const Name&o=names()[s.draw(names().size())];if(o.type==nm.type)EVP_PKEY_CTX_ctrl_str(c,"paramset",o.s.c_str());}
  REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"paramset",nm.s.c_str())==1,"parameter set %s refused: %s",nm.s.c_str(),errs().c_str());
  rand_script(sc);rand_fail(fail);EVP_PKEY*k=nullptr;int r=gen_?EVP_PKEY_keygen(c,&k):EVP_PKEY_paramgen(c,&k);bool failed=fail>=0;rand_fail(-1);rand_script({});
  if(r!=1){REQUIRE(failed&&gen_,"%s failed: %s",gen_?"key generation":"parameter generation",errs().c_str());ERR_clear_error();EVP_PKEY_free(k);continue;}
  REQUIRE(EVP_PKEY_id(k)==nm.type,"type %s, expected %s",OBJ_nid2sn(EVP_PKEY_id(k)),OBJ_nid2sn(nm.type));ks.push_back({k,nm.nid,gen_});check_group((EC_KEY*)EVP_PKEY_get0(k),nm.nid);if(gen_)check_pair((EC_KEY*)EVP_PKEY_get0(k),nm.nid);
  if(s.chance(1,3)){ // generate from an existing key or parameter object
   PC c2(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_keygen_init(c2)==1,"init from key");EVP_PKEY*k2=nullptr;REQUIRE(EVP_PKEY_keygen(c2,&k2)==1,"keygen from key: %s",errs().c_str());ks.push_back({k2,nm.nid,true});REQUIRE(EVP_PKEY_id(k2)==nm.type,"type changed");check_group((EC_KEY*)EVP_PKEY_get0(k2),nm.nid);check_pair((EC_KEY*)EVP_PKEY_get0(k2),nm.nid);}
 }
 for(auto&k:ks){check_group((EC_KEY*)EVP_PKEY_get0(k.k),k.nid);if(k.pair)check_pair((EC_KEY*)EVP_PKEY_get0(k.k),k.nid);} }
SUB("E02",names,4000,60000,128){ // strings that name no parameter set of the key type are refused and change nothing
 int type=s.pick({NID_id_GostR3410_2001,NID_id_GostR3410_2012_256,NID_id_GostR3410_2012_512});std::string v;bool known=false;int nid=0;switch(s.draw(6)){case 0:{Bytes b=s.rnd(s.draw(5));for(auto x:b)v+=(char)(33+x%94);break;}case 1:v=names()[s.draw(names().size())].s;break;case 2:v=names()[s.draw(names().size())].s;if(!v.empty())v[s.draw(v.size())]="ABCDX019.-z"[s.draw(11)];break;case 3:v=names()[s.draw(names().size())].s+s.pick({" ","A","0",".1"});break;case 4:v=s.pick({"","X","T","TC","XC","D","TCE","prime256v1","rsaEncryption","1.2.643.2.2.35","id-Gost28147-89-CryptoPro-A-ParamSet","id-tc26-gost-3410-2012-512-paramSetTest"});break;default:{const Ps&p=gen_ps(s);v=s.flip()?p.sn:oid(p.nid);}}
 auto low=[](std::string x){if(x.size()<4)for(auto&c:x)c=tolower(c);return x;}; // the short names are accepted in any case
 for(auto&n:names())if(n.type==type&&low(n.s)==low(v)){known=true;nid=n.nid;}
 // any other spelling of a known identifier may be accepted, but only for exactly that set
 int other=known?0:OBJ_txt2nid(v.c_str());note("%s '%s' %s",OBJ_nid2sn(type),v.c_str(),known?"known":"");nontrivial();label(known?"known":"unknown");
 std::vector<const Name*>own;for(auto&n:names())if(n.type==type)own.push_back(&n);const Name*base=own[s.draw(own.size())];
 PC c(EVP_PKEY_CTX_new_id(type,eng()));REQUIRE(EVP_PKEY_keygen_init(c)==1,"init");REQUIRE(EVP_PKEY_CTX_ctrl_str(c,"paramset",base->s.c_str())==1,"paramset");int r=EVP_PKEY_CTX_ctrl_str(c,"paramset",v.c_str());ERR_clear_error();EVP_PKEY*k=nullptr;REQUIRE(EVP_PKEY_keygen(c,&k)==1,"keygen after paramset '%s': %s",v.c_str(),errs().c_str());PK kk(k);
 int want=r==1?(known?nid:other):base->nid;if(known)REQUIRE(r==1,"parameter set '%s' refused",v.c_str());if(!known&&r==1){bool good=false;for(auto&p:params())if(p.nid==other&&(p.c->hl==64)==(type==NID_id_GostR3410_2012_512))good=true;REQUIRE(good,"'%s' accepted as a parameter set",v.c_str());}
 check_group((EC_KEY*)EVP_PKEY_get0(k),want); }
SUB("E02",key_check,3000,40000,64){ // EVP_PKEY_check and EVP_PKEY_public_check succeed exactly for valid keys
 const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N d=gen_scalar(s,c,false);Pt G=gen(c),Q=mul(c,G,d);bool priv=!s.chance(1,3),pub=!s.chance(1,8),okp=true,okd=true;std::string w="valid";nontrivial();
 switch(s.draw(6)){case 0:break;case 1:{N e=gen_scalar(s,c,false);if(!(e==d)){Q=mul(c,G,e);okd=false;w="public key of another private key";}break;}
 case 2:if(!(d+d==c.q)){Q=neg(c,Q);okd=Q==mul(c,G,d);w="negated public key";}break;
 case 3:{Q=small_point(s,c);okp=!Q.inf&&mul(c,Q,c.q).inf;okd=Q==mul(c,G,d);w="point of small order";break;}
 case 4:{Pt h=small_point(s,c);Q=add(c,Q,h);okp=!Q.inf&&mul(c,Q,c.q).inf;okd=Q==mul(c,G,d);w="public key plus a point of small order";break;}
 case 5:{N o=s.flip()?d+c.q:s.flip()?c.q:N();Q=o.zero()||o==c.q?Q:mul(c,G,o);d=o;okd=false;w="private key out of range";break;}}
 if(Q.inf){okp=okd=false;}
 EC_KEY*e=engine_ec(p.nid);if(priv){BIGNUM*b=BN_dup(d);int r=EC_KEY_set_private_key(e,b);BN_free(b);if(!r){ERR_clear_error();EC_KEY_free(e);return;}}
 if(pub){EC_POINT*x=to(EC_KEY_get0_group(e),Q);EC_KEY_set_public_key(e,x);EC_POINT_free(x);}
 EVP_PKEY*k=EVP_PKEY_new();EVP_PKEY_set_type(k,t);EVP_PKEY_assign(k,t,e);PK pk(k);bool want=pub&&okp&&(!priv||okd);
 note("%s %s %s%s%s",OBJ_nid2sn(t),p.sn.c_str(),w.c_str(),priv?"":" (public only)",pub?"":" (no public key)");label(want?"valid":w);
 for(int j=0;j<2;j++){PC x(EVP_PKEY_CTX_new(k,eng()));int r=j?EVP_PKEY_public_check(x):EVP_PKEY_check(x);ERR_clear_error();
  if(want)REQUIRE(r==1,"%s gave %d for a valid key",j?"EVP_PKEY_public_check":"EVP_PKEY_check",r);
  else if(!pub||!okp||!j)REQUIRE(r!=1,"%s succeeded for: %s",j?"EVP_PKEY_public_check":"EVP_PKEY_check",w.c_str());} }
// ---- E03 / E04
static Bytes gen_digest(Src&s,const Curve&c){ size_t n=c.hl;if(s.chance(1,12))n=96-n;switch(s.weighted({4,1,1,1,1,1})){case 0:return s.bytes(n);case 1:return Bytes(n,0);case 2:return Bytes(n,0xff);case 3:{N e=c.q;if(BN_num_bytes(e)>(int)n)return s.rnd(n);return tole(e,n);}case 4:{N e=s.flip()?c.q+N(1+s.draw(3)):c.q-N(1+s.draw(3));if(BN_num_bytes(e)>(int)n)return s.rnd(n);return tole(e,n);}default:return tole(N(1+s.draw(3)),n);} }
static EVP_PKEY*key(Src&s,const Ps&p,const N&d,const Pt*Q=nullptr,bool priv=true){return mk_key(gen_type(s,p),p.nid,priv?&d:nullptr,Q);}
SUB("E03",sign,10000,120000,32){ const Ps&p=gen_ps(s);const Curve&c=*p.c;N d=gen_scalar(s,c,false);Bytes dg=gen_digest(s,c);std::string sd;Bytes sc;N k1;bool crafted=s.chance(1,5);
 if(crafted){ k1=gen_scalar(s,c,false);Pt C=mul(c,gen(c),k1);N r=mod(C.x,c.q);N e=mod(c.q-mulmod(mulmod(r,d,c.q),inv(k1,c.q),c.q),c.q);dg=tole(e,c.hl);sc=tobe(k1,c.hl);sd=" digest making s zero under the first nonce";nontrivial(); }
 else sc=rng_script(s,c,sd);
 note("%s d=%s digest=%s rng:%s",p.sn.c_str(),d.str().c_str(),hex(dg,64).c_str(),sd.c_str());lab(p);label(crafted?"s=0 first":"plain");nontrivial();
 PK k(key(s,p,d));PC x(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_sign_init(x)==1,"sign init: %s",errs().c_str());
 size_t q=0;REQUIRE(EVP_PKEY_sign(x,NULL,&q,dg.data(),dg.size())==1&&q==2*c.hl,"size query: %zu",q);
 int fail=s.chance(1,10)?(int)s.draw(2):-1;Buf o(2*c.hl);size_t ol=2*c.hl;rand_script(sc);rand_fail(fail);In in(dg,s.draw(3));int r=EVP_PKEY_sign(x,o.p,&ol,in.p,in.n);rand_fail(-1);rand_script({});
 if(r!=1){ REQUIRE(fail>=0,"signing failed: %s",errs().c_str());ERR_clear_error();return; }
 REQUIRE(ol==2*c.hl,"signature of %zu bytes",ol);Bytes sig(o.p,o.p+ol);N ss=be(sub(sig,0,c.hl)),rr=be(sub(sig,c.hl,c.hl));REQUIRE(!ss.zero()&&!rr.zero()&&ss<c.q&&rr<c.q,"signature part out of range: %s",hex(sig,128).c_str());
 Pt Q=mul(c,gen(c),d);REQUIRE(verify(c,Q,dg,sig),"signature %s does not satisfy the verification equation",hex(sig,128).c_str());
 PC v(EVP_PKEY_CTX_new(k,eng()));REQUIRE(EVP_PKEY_verify_init(v)==1&&EVP_PKEY_verify(v,sig.data(),sig.size(),in.p,in.n)==1,"the engine does not verify its own signature: %s",errs().c_str());
 if(s.chance(1,8)){Bytes bd=s.bytes(s.draw(80));if(bd.size()!=32&&bd.size()!=64){size_t bl=2*c.hl;REQUIRE(EVP_PKEY_sign(x,o.p,&bl,bd.data(),bd.size())<=0,"digest of %zu bytes signed",bd.size());ERR_clear_error();}} }
SUB("E03",message,4000,60000,32){ // whole messages through the digest-and-sign interface
 const Ps&p=gen_ps(s);const Curve&c=*p.c;N d=gen_scalar(s,c,false);int t=gen_type(s,p);PK k(mk_key(t,p.nid,&d));int md=t==NID_id_GostR3410_2012_512?NID_id_GostR3411_2012_512:t==NID_id_GostR3410_2012_256?NID_id_GostR3411_2012_256:NID_id_GostR3411_94;int h=md==NID_id_GostR3411_2012_512?ref::H_12_512:md==NID_id_GostR3411_94?ref::H_94:ref::H_12_256;
 Bytes m=s.bytes(s.len(600,{64}));note("%s type=%s message of %zu",p.sn.c_str(),OBJ_nid2sn(t),m.size());lab(p);nontrivial();EVP_MD_CTX*x=EVP_MD_CTX_new();struct F{EVP_MD_CTX*x;~F(){EVP_MD_CTX_free(x);}}f{x};
 REQUIRE(EVP_DigestSignInit(x,NULL,s.flip()?digest(md):NULL,eng(),k)==1,"sign init: %s",errs().c_str());size_t o=0;for(size_t n:s.split(m.size(),{64})){REQUIRE(EVP_DigestSignUpdate(x,m.data()+o,n)==1,"update");o+=n;}Buf sg(2*c.hl);size_t sl=2*c.hl;REQUIRE(EVP_DigestSignFinal(x,sg.p,&sl)==1&&sl==2*c.hl,"sign final: %s",errs().c_str());Bytes sig(sg.p,sg.p+sl);
 Bytes dg=ref::hash((ref::HashId)h,m);Pt Q=mul(c,gen(c),d);REQUIRE(verify(c,Q,dg,sig),"signature of the message is not valid under the standard");
 bool bad=s.flip();Bytes m2=m;if(bad){if(m2.empty()||s.flip())m2.push_back(0);else m2[s.draw(m2.size())]^=1<<s.draw(8);}
 EVP_MD_CTX*y=EVP_MD_CTX_new();F g{y};PK pub(mk_key(t,p.nid,nullptr,&Q));REQUIRE(EVP_DigestVerifyInit(y,NULL,digest(md),eng(),pub)==1,"verify init: %s",errs().c_str());o=0;for(size_t n:s.split(m2.size(),{64})){REQUIRE(EVP_DigestVerifyUpdate(y,m2.data()+o,n)==1,"update");o+=n;}int r=EVP_DigestVerifyFinal(y,sig.data(),sig.size());ERR_clear_error();REQUIRE((r==1)==!bad,"message verification returned %d for %s message",r,bad?"an altered":"the signed"); }
SUB("E04",verify,14000,200000,32){ const Ps&p=gen_ps(s);const Curve&c=*p.c;N d=gen_scalar(s,c,false);Pt Q=mul(c,gen(c),d);Bytes dg=gen_digest(s,c);N k=gen_scalar(s,c,false);bool ok;Bytes sig=signature(c,d,k,dg,ok);if(!ok)sig=Bytes(2*c.hl,1);std::string w="valid";
 auto S=[&]{return be(sub(sig,0,c.hl));};auto R=[&]{return be(sub(sig,c.hl,c.hl));};auto put=[&](const N&ss,const N&rr){sig=cat(tobe(ss,c.hl),tobe(rr,c.hl));};N top(1);BN_lshift(top,top,c.hl*8);
 switch(s.weighted({3,3,2,2,2,2,2,1,2,1,1,1,2})){case 0:break;
 case 1:{size_t b=s.draw(sig.size()*8);sig[b/8]^=1<<b%8;w="signature bit flipped";break;}
 case 2:{size_t b=s.draw(dg.size()*8);dg[b/8]^=1<<b%8;w="digest bit flipped";break;}
 case 3:{N e=mod(le(dg),c.q);N t(1);BN_lshift(t,t,dg.size()*8);N e2=e;int n=s.draw(4);for(int i=0;i<n;i++)e2=e2+c.q;if(e2<t){dg=tole(e2,dg.size());w="digest congruent mod q";}break;}
 case 4:{N a=S(),b=R();int which=s.draw(3);if(which!=1&&(a+c.q)<top)a=a+c.q;if(which!=0&&(b+c.q)<top)b=b+c.q;put(a,b);w="parts plus q";break;}
 case 5:{N a=S(),b=R();N z=s.pick({N(),c.q,c.q+N(1),top-N(1)});if(s.flip())a=z;else b=z;put(a,b);w="part out of range";break;}
 case 6:{size_t n=s.draw(sig.size()+20);switch(s.draw(4)){case 0:sig.resize(n);w="length changed";break;case 1:sig.push_back(s.draw(256));w="trailing byte";break;case 2:{sig=cat(cat(Bytes(1+s.draw(3)*1,0),sub(sig,0,c.hl)),Bytes());Bytes rr=tobe(R().zero()?N(1):N(1),c.hl);sig=cat(sig,rr);w="misaligned";break;}default:{size_t z=1+s.draw(8);Bytes a=sub(sig,0,c.hl),b=sub(sig,c.hl,c.hl);sig=cat(cat(Bytes(z,0),a),cat(Bytes(z,0),b));w="zero-padded parts";}}break;}
 case 7:{put(R(),S());w="parts swapped";break;}
 case 8:{N d2=gen_scalar(s,c,false);Q=mul(c,gen(c),d2);w="other key";break;}
 case 9:{N a=mod(c.q-S(),c.q),b=R();if(s.flip())b=mod(c.q-b,c.q);put(a,b);w="negated";break;}
case 11:{/* s = 0 or q where the equation would hold: e = -r/k, so that s = rd+ke = 0 for d = k... */
  N r=mod(mul(c,gen(c),k).x,c.q);if(r.zero())break;N e=mod(c.q-mulmod(mulmod(r,d,c.q),inv(k,c.q),c.q),c.q);if(e.zero())break;dg.resize(c.hl);N t(1);BN_lshift(t,t,dg.size()*8);while(s.flip()&&e+c.q<t)e=e+c.q;dg=tole(e,dg.size());put(s.flip()?c.q:N(),r);w="s is 0 mod q and the equation holds";break;}
 case 10:{/* s = r*d: the combination is the point at infinity */N r=gen_scalar(s,c,false);put(mulmod(r,d,c.q),r);w="combination at infinity";break;}
 default:{/* key outside the subgroup */Pt t=small_point(s,c);if(!t.inf){Q=add(c,Q,t);w="key with small-order part";}break;}}
 bool good=verify(c,Q,dg,sig);note("%s %s %s",p.sn.c_str(),w.c_str(),good?"valid":"invalid");lab(p);label(w+(good?" (valid)":" (invalid)"));if(w!="valid")nontrivial();if(Q.inf)return;
 int t=gen_type(s,p);PK kk(s.flip()||w=="other key"||w=="key with small-order part"?mk_key(t,p.nid,nullptr,&Q):mk_key(t,p.nid,&d));PC v(EVP_PKEY_CTX_new(kk,eng()));REQUIRE(EVP_PKEY_verify_init(v)==1,"init");In is(sig,s.draw(3)),id(dg,s.draw(3));int r=EVP_PKEY_verify(v,is.p,is.n,id.p,id.n);ERR_clear_error();
 REQUIRE((r==1)==good,"verification returned %d, the signature (%s) is %s under the standard: d=%s digest=%s sig=%s",r,w.c_str(),good?"valid":"invalid",d.str().c_str(),hex(dg,64).c_str(),hex(sig,128).c_str());
 if(s.chance(1,10)){Bytes bd=s.bytes(s.draw(80));if(bd.size()!=32&&bd.size()!=64)REQUIRE(EVP_PKEY_verify(v,is.p,is.n,bd.data(),bd.size())<=0,"digest of %zu bytes verified",bd.size());ERR_clear_error();} }
SUB("E04",hostile,4000,100000,64){ const Ps&p=gen_ps(s);const Curve&c=*p.c;N d=gen_scalar(s,c,false);PK k(key(s,p,d));PC v(EVP_PKEY_CTX_new(k,eng()));Bytes sig=s.bytes(s.draw(300)),dg=s.bytes(s.draw(4)?c.hl:s.draw(150));note("%s sig=%zu digest=%zu",p.sn.c_str(),sig.size(),dg.size());nontrivial();In is(sig),id(dg);REQUIRE(EVP_PKEY_verify_init(v)==1,"init");int r=EVP_PKEY_verify(v,is.p,is.n,id.p,id.n);ERR_clear_error();if(r==1)REQUIRE((dg.size()==32||dg.size()==64)&&verify(c,mul(c,gen(c),d),dg,sig),"random data accepted as a signature"); }
// ---- E05
static int dig_of(int type){return type==NID_id_GostR3410_2001||type==NID_id_GostR3410_2001DH?ref::H_94:ref::H_12_256;}
static int derive(EVP_PKEY*me,EVP_PKEY*peer,int vko,const Bytes&ukm,Bytes&out,bool&setpeer,bool str,Src&s){ PC x(EVP_PKEY_CTX_new(me,eng()));REQUIRE(EVP_PKEY_derive_init(x)==1,"derive init: %s",errs().c_str());setpeer=EVP_PKEY_derive_set_peer(x,peer)==1;if(!setpeer){ERR_clear_error();return 0;}
 if(vko){int r=str?EVP_PKEY_CTX_ctrl_str(x,"vko",vko==256?"256":"512"):EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,vko==256?NID_id_GostR3411_2012_256:NID_id_GostR3411_2012_512,NULL);REQUIRE(r==1,"vko control: %s",errs().c_str());}
 if(s.chance(1,5)){Bytes o=s.bytes(s.draw(33));EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,o.size(),o.data());} // an earlier UKM must not matter
 int r;if(str&&!ukm.empty())r=EVP_PKEY_CTX_ctrl_str(x,"ukmhex",ref::tohex(ukm).c_str());else{In u(ukm);r=EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),u.p);}REQUIRE(r==1||ukm.size()>32,"UKM of %zu bytes refused",ukm.size());
 size_t want=0;if(EVP_PKEY_derive(x,NULL,&want)!=1){ERR_clear_error();return 0;}REQUIRE(want<=64,"derived length %zu",want);Buf o(want);size_t ol=want;r=EVP_PKEY_derive(x,o.p,&ol);ERR_clear_error();if(r!=1)return 0;REQUIRE(ol==want,"derived %zu bytes, announced %zu",ol,want);out.assign(o.p,o.p+ol);return 1; }
SUB("E05",agree,8000,100000,32){ const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N a=gen_scalar(s,c,false),b=gen_scalar(s,c,false);Pt A=mul(c,gen(c),a),B=mul(c,gen(c),b);int vko=s.pick({0,0,256,512});size_t ul=vko?s.pick({8,16,1,32,7,24,31}):s.pick({8,32,32,16,1});Bytes ukm=s.bytes(ul);if(s.chance(1,8))std::fill(ukm.begin(),ukm.end(),0);if(ul==32&&s.chance(1,5))std::fill(ukm.begin(),ukm.begin()+16,0);if(s.chance(1,8)&&ul>=c.hl)ukm=cat(tole(c.q,c.hl),Bytes(ul-c.hl,0));if(s.chance(1,6))for(size_t i=ul/2;i<ul;i++)ukm[i]=0;
 note("%s type=%s a=%s b=%s vko=%d ukm=%s",p.sn.c_str(),OBJ_nid2sn(t),a.str().c_str(),b.str().c_str(),vko,hex(ukm).c_str());lab(p);label(vko?"VKO":ul==8?"legacy":ul==32?"KEG":"refused UKM size");nontrivial();
 bool ok=true;Bytes e;if(vko)e=vko==256?ec::vko(c,a,B,ukm,ref::H_12_256,ok):ec::vko(c,a,B,ukm,ref::H_12_512,ok);else if(ul==8)e=ec::vko(c,a,B,ukm,dig_of(t),ok);else if(ul==32&&t!=NID_id_GostR3410_2001&&t!=NID_id_GostR3410_2001DH)e=keg(c,a,B,ukm,c.hl==64,ok);else ok=false;
 PK ka(mk_key(t,p.nid,&a)),kb(mk_key(t,p.nid,&b)),pa(mk_key(t,p.nid,nullptr,&A)),pb(mk_key(t,p.nid,nullptr,&B));bool sp;Bytes o1,o2;
 int r1=derive(ka,s.flip()?pb:kb,vko,ukm,o1,sp,s.flip(),s);REQUIRE(sp,"peer key refused");int r2=derive(kb,s.flip()?pa:ka,vko,ukm,o2,sp,s.flip(),s);REQUIRE(sp,"peer key refused");
 REQUIRE(r1==(int)ok&&r2==(int)ok,"derivation returned %d and %d, expected %d",r1,r2,ok);if(ok){REQUIRE(o1==e,"shared key %s, expected %s",hex(o1,64).c_str(),hex(e,64).c_str());REQUIRE(o2==e,"the parties derive different keys");} }
SUB("E05",shared_point,1600,20000,32){ // the shared point is chosen, and the peer's point computed from it
 const Ps&p=gen_ps(s);const Curve&c=*p.c;int t=gen_type(s,p);N a=gen_scalar(s,c,false);std::string how;Pt R=short_point(s,c,how);bool kegm=t!=NID_id_GostR3410_2001&&t!=NID_id_GostR3410_2001DH&&s.chance(1,3);int vko=kegm?0:s.pick({0,256,512});Bytes ukm=kegm?s.rnd(32):s.bytes(vko?1+s.draw(16):8);bool zero=true;for(size_t i=0;i<(kegm?16:ukm.size());i++)if(ukm[i])zero=false;if(zero)ukm[0]=1;
 Bytes u=kegm?Bytes(ukm.rend()-16,ukm.rend()):ukm;N k=mulmod(mod(le(u),c.q),a,c.q);BN_mul_word(k,c.cof);k=mod(k,c.q);if(k.zero())return;Pt B=mul(c,R,ec::inv(k,c.q));note("%s type=%s a=%s shared point=%s (%s) %s ukm=%s",p.sn.c_str(),OBJ_nid2sn(t),a.str().c_str(),R.str().c_str(),how.c_str(),kegm?"KEG":vko?"VKO":"legacy",hex(ukm).c_str());label(how);lab(p);nontrivial();
 bool ok,sp;Bytes e=kegm?keg(c,a,B,ukm,c.hl==64,ok):ec::vko(c,a,B,ukm,vko?(vko==256?ref::H_12_256:ref::H_12_512):dig_of(t),ok);REQUIRE(ok,"reference");if(!kegm)REQUIRE(e==ref::hash(vko?(vko==256?ref::H_12_256:ref::H_12_512):(ref::HashId)dig_of(t),ref::cat(tole(R.x,c.hl),tole(R.y,c.hl))),"reference: shared point");
 PK ka(mk_key(t,p.nid,&a)),pb(mk_key(t,p.nid,nullptr,&B));Bytes o;int r=derive(ka,pb,vko,ukm,o,sp,s.flip(),s);REQUIRE(sp,"peer key refused");REQUIRE(r==1,"derivation failed");REQUIRE(o==e,"shared key %s, expected %s",hex(o,64).c_str(),hex(e,64).c_str()); }
SUB("E05",twisted_peer,2000,30000,32){ // peers outside the subgroup: the cofactor removes the small-order part
 const Ps&p=[&]()->const Ps&{static std::vector<const Ps*>v;if(v.empty())for(auto&q:params())if(q.c->cof>1)v.push_back(&q);return *v[s.draw(v.size())];}();const Curve&c=*p.c;N a=gen_scalar(s,c,false),b=gen_scalar(s,c,false);Pt T=small_point(s,c);Pt B=mul(c,gen(c),b),B2=s.chance(1,4)?T:add(c,B,T);int vko=s.pick({256,512});Bytes ukm=s.bytes(8+s.draw(9));note("%s vko=%d",p.sn.c_str(),vko);lab(p);nontrivial();if(B2.inf)return;bool ok,sp;Bytes e=ec::vko(c,a,B2,ukm,vko==256?ref::H_12_256:ref::H_12_512,ok),o;int t=gen_type(s,p);PK ka(mk_key(t,p.nid,&a)),pb(mk_key(t,p.nid,nullptr,&B2));int r=derive(ka,pb,vko,ukm,o,sp,false,s);REQUIRE(sp,"peer refused");REQUIRE(r==(int)ok,"derivation returned %d, expected %d",r,ok);if(ok)REQUIRE(o==e,"shared key %s, expected %s",hex(o,64).c_str(),hex(e,64).c_str()); }
SUB("E05",refuse,4000,50000,64){ const Ps&p=gen_ps(s),&p2=gen_ps(s);int t=gen_type(s,p),t2=gen_type(s,p2);N a=gen_scalar(s,*p.c,false),b=gen_scalar(s,*p2.c,false);Pt A=mul(*p.c,gen(*p.c),a),B=mul(*p2.c,gen(*p2.c),b);nontrivial();int kind=s.draw(5);Bytes ukm=s.bytes(s.pick({8,16,32}));ukm[0]|=1;int vko=s.pick({256,512,0});
 PC x(nullptr);PK me(kind==1?mk_key(t,p.nid,nullptr,&A):kind==4?mk_key(t,p.nid,nullptr):mk_key(t,p.nid,&a)),pe(kind==2?mk_key(t,p.nid,nullptr):mk_key(kind==0?t2:t,kind==0?p2.nid:p.nid,nullptr,kind==0?&B:&A));
 note("%s/%s kind=%d vko=%d",p.sn.c_str(),p2.sn.c_str(),kind,vko);label(kind==0?"other set or type":kind==1?"own private part missing":kind==2?"peer point missing":kind==3?"no peer set":"own key empty");
 bool same=kind==0&&t==t2&&p.nid==p2.nid;x.c=EVP_PKEY_CTX_new(me,eng());REQUIRE(EVP_PKEY_derive_init(x)==1,"init");if(kind!=3){int sp=EVP_PKEY_derive_set_peer(x,pe);ERR_clear_error();if(kind==0)REQUIRE((sp==1)==same,"peer on %s %s for a key on %s",p2.sn.c_str(),sp==1?"accepted":"refused",p.sn.c_str());if(sp!=1&&s.flip())return;}
 if(same)return;if(vko)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_VKO,vko==256?NID_id_GostR3411_2012_256:NID_id_GostR3411_2012_512,NULL);bool u=!s.chance(1,6);if(u)EVP_PKEY_CTX_ctrl(x,-1,-1,EVP_PKEY_CTRL_SET_IV,ukm.size(),ukm.data());Buf o(64);size_t ol=64;int r=EVP_PKEY_derive(x,o.p,&ol);ERR_clear_error();REQUIRE(r<=0,"derivation succeeded (kind %d)",kind); }
SUB("E05",no_ukm,300,3000,64){ const Ps&p=gen_ps(s);int t=gen_type(s,p);N a=gen_scalar(s,*p.c,false);PK k(mk_key(t,p.nid,&a));PC x(EVP_PKEY_CTX_new(k,eng()));nontrivial();REQUIRE(EVP_PKEY_derive_init(x)==1&&EVP_PKEY_derive_set_peer(x,k)==1,"init");Buf o(64);size_t ol=64;REQUIRE(EVP_PKEY_derive(x,o.p,&ol)<=0,"derivation without a UKM succeeded");ERR_clear_error(); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
