#include "ec.h"
extern "C" {
#define template template_
#include "gost_lcl.h"
#undef template
}
namespace ec {
BN_CTX*bctx(){static BN_CTX*c=BN_CTX_new();return c;}
static void ck(int r,const char*w){if(r!=1)pbt::fail("harness: %s: %s",w,errs().c_str());}
N operator+(const N&a,const N&b){N r;BN_add(r,a,b);return r;} N operator-(const N&a,const N&b){N r;BN_sub(r,a,b);return r;}
N mulmod(const N&a,const N&b,const N&q){N r;BN_mod_mul(r,a,b,q,bctx());return r;} N mod(const N&a,const N&q){N r;BN_nnmod(r,a,q,bctx());return r;} N inv(const N&a,const N&q){N r;if(!BN_mod_inverse(r,a,q,bctx()))pbt::fail("harness: no inverse");return r;}
N le(const Bytes&b){N r;BN_lebin2bn(b.data(),b.size(),r);return r;} N be(const Bytes&b){N r;BN_bin2bn(b.data(),b.size(),r);return r;}
Bytes tole(const N&n,size_t len){Bytes r(len);if(BN_bn2lebinpad(n,r.data(),len)<0)pbt::fail("harness: number too wide");return r;} Bytes tobe(const N&n,size_t len){Bytes r(len);if(BN_bn2binpad(n,r.data(),len)<0)pbt::fail("harness: number too wide");return r;}
static N hx(const char*h){N r;BIGNUM*t=nullptr;BN_hex2bn(&t,h);BN_copy(r,t);BN_free(t);return r;}
const std::vector<Curve>&curves(){ static std::vector<Curve>v; if(v.empty()){size_t n;const ref::CurveRow*r=ref::curve_rows(n);for(size_t i=0;i<n;i++){Curve c;c.row=r+i;c.p=hx(r[i].p);c.q=hx(r[i].q);c.cof=r[i].cof;c.hl=atoi(r[i].bits)/8;N a=hx(r[i].a),b=hx(r[i].b);c.g=EC_GROUP_new_curve_GFp(c.p,a,b,bctx());EC_POINT*G=EC_POINT_new(c.g);N x=hx(r[i].x),y=hx(r[i].y),h(c.cof);ck(EC_POINT_set_affine_coordinates(c.g,G,x,y,bctx()),"generator");ck(EC_GROUP_set_generator(c.g,G,c.q,h),"set generator");ck(EC_GROUP_check(c.g,bctx()),"curve check");EC_POINT_free(G);v.push_back(c);}} return v; }
const std::vector<Ps>&params(){ static std::vector<Ps>v; if(v.empty()){for(auto&c:curves())v.push_back({c.row->nid,&c,c.row->sn});
  const char*al[][2]={{"id-tc26-gost-3410-2012-256-paramSetB","id-GostR3410-2001-CryptoPro-A-ParamSet"},{"id-tc26-gost-3410-2012-256-paramSetC","id-GostR3410-2001-CryptoPro-B-ParamSet"},{"id-tc26-gost-3410-2012-256-paramSetD","id-GostR3410-2001-CryptoPro-C-ParamSet"}};
  for(auto&a:al)for(auto&c:curves())if(std::string(c.row->sn)==a[1])v.push_back({OBJ_txt2nid(a[0]),&c,a[0]});} return v; }
const Ps&param_by_nid(int nid){for(auto&p:params())if(p.nid==nid)return p;pbt::fail("harness: no parameter set %d",nid);}
Pt from(const EC_GROUP*g,const EC_POINT*p){Pt r;if(EC_POINT_is_at_infinity(g,p))return r;r.inf=false;ck(EC_POINT_get_affine_coordinates(g,p,r.x,r.y,bctx()),"affine");return r;}
EC_POINT*to(const EC_GROUP*g,const Pt&p){EC_POINT*r=EC_POINT_new(g);if(p.inf)EC_POINT_set_to_infinity(g,r);else if(!EC_POINT_set_affine_coordinates(g,r,p.x,p.y,bctx())){EC_POINT_free(r);pbt::fail("point refused by its own curve: %s",errs().c_str());}return r;}
static void dbladd(const EC_GROUP*g,EC_POINT*r,const EC_POINT*p,const BIGNUM*k){EC_POINT_set_to_infinity(g,r);for(int i=BN_num_bits(k)-1;i>=0;i--){ck(EC_POINT_dbl(g,r,r,bctx()),"dbl");if(BN_is_bit_set(k,i))ck(EC_POINT_add(g,r,r,p,bctx()),"add");}}
Pt mul(const Curve&c,const Pt&P,const N&k){EC_POINT*p=to(c.g,P),*r=EC_POINT_new(c.g);dbladd(c.g,r,p,k);Pt o=from(c.g,r);EC_POINT_free(p);EC_POINT_free(r);return o;}
Pt add(const Curve&c,const Pt&A,const Pt&B){EC_POINT*a=to(c.g,A),*b=to(c.g,B);ck(EC_POINT_add(c.g,a,a,b,bctx()),"add");Pt o=from(c.g,a);EC_POINT_free(a);EC_POINT_free(b);return o;}
Pt neg(const Curve&c,const Pt&P){Pt r=P;if(!P.inf)r.y=mod(c.p-P.y,c.p);return r;}
Pt gen(const Curve&c){return from(c.g,EC_GROUP_get0_generator(c.g));}
bool on(const Curve&c,const Pt&P){if(P.inf)return true;if(!(P.x<c.p)||!(P.y<c.p))return false;N a,b,p;EC_GROUP_get_curve(c.g,p,a,b,bctx());N l=mulmod(P.y,P.y,c.p),r=mod(mulmod(mod(mulmod(P.x,P.x,c.p)+a,c.p),P.x,c.p)+b,c.p);return l==r;}
Pt with_x(const Curve&c,const N&x,bool odd,bool&ok){EC_POINT*p=EC_POINT_new(c.g);ok=EC_POINT_set_compressed_coordinates(c.g,p,x,odd,bctx())==1;Pt r;if(ok)r=from(c.g,p);else ERR_clear_error();EC_POINT_free(p);return r;}
N gen_scalar(Src&s,const Curve&c,bool full){ N top(1);BN_lshift(top,top,c.hl*8);N k;
 switch(s.weighted({4,3,2,3,3,3,2,2})){
 case 0:k=N(s.draw(40));break;
 case 1:k=le(s.rnd(c.hl));break;
 case 2:{N m(1+s.draw(full?(c.cof==4?4:2):1));BN_mul(k,m,c.q,bctx());uint64_t d=s.draw(20);if(s.flip())k=k+N(d);else k=k-N(d);break;}
 case 3:{k=N(1);BN_lshift(k,k,s.draw(c.hl*8));uint64_t d=s.draw(4);if(s.flip())k=k+N(d);else k=k-N(d);break;}
 case 4:{Bytes b(c.hl);uint8_t v=s.draw(256);for(auto&x:b)x=v;if(s.flip())b[s.draw(b.size())]=s.draw(256);k=le(b);break;}
 case 5:{Bytes b=s.rnd(c.hl);size_t a=s.draw(c.hl),e=a+s.draw(c.hl-a+1);uint8_t f=s.flip()?0xff:0;for(size_t i=a;i<e;i++)b[i]=f;k=le(b);break;}
 case 6:{/* repeated signed-window digit patterns */unsigned w=4+s.draw(4);uint64_t v=s.draw(1u<<w);for(size_t i=0;i+w<=c.hl*8;i+=w){BN_lshift(k,k,w);k=k+N(v);}break;}
 default:{k=c.q;BN_rshift1(k,k);uint64_t d=s.draw(5);k=s.flip()?k+N(d):k-N(d);break;}}
 if(BN_is_negative(k))BN_set_negative(k,0);
 k=mod(k,top); if(!full){k=mod(k,c.q);if(k.zero())k=N(1);} return k; }
Pt small_point(Src&s,const Curve&c){ Pt r;if(c.cof==1)return r;bool ok=false;for(int i=0;i<60;i++){r=with_x(c,mod(le(s.rnd(c.hl)),c.p),s.flip(),ok);if(ok){r=mul(c,r,c.q);if(!r.inf)return r;}}return Pt(); }
Pt short_point(Src&s,const Curve&c,std::string&how){ static std::map<const Curve*,std::vector<Pt>> both;bool ok;
 auto sub=[&](const Pt&p){return c.cof==1||mul(c,p,c.q).inf;};
 if(s.flip()){auto&v=both[&c];if(v.empty()){uint64_t seed=0;for(char ch:std::string(c.sn()))seed=seed*131+ch;for(int i=0;i<20000&&v.size()<2;i++){Bytes b(c.hl-1);pbt::expand(seed*1000003+i,b.data(),b.size());Pt p=with_x(c,le(b),false,ok);if(!ok)continue;for(int k=0;k<2;k++){if((size_t)BN_num_bytes(p.y)<c.hl&&sub(p))v.push_back(p);p=neg(c,p);}}}
  if(v.size()){how="both coordinates short";return v[s.draw(v.size())];}}
 size_t n=s.draw(c.hl-1);N x=n?le(s.rnd(n)):N();for(int i=0;i<200;i++){Pt p=with_x(c,x+N(i),s.flip(),ok);if(ok&&sub(p)){how="short x";return p;}}how="base point";return gen(c);}
Pt gen_point(Src&s,const Curve&c,std::string&how){ switch(s.weighted({4,3,2,2,2,3,1})){
 case 0:how="random multiple";return mul(c,gen(c),mod(le(s.rnd(c.hl)),c.q));
 case 1:how="structured multiple";return mul(c,gen(c),gen_scalar(s,c,false));
 case 2:how="base point";return gen(c);
 case 3:how="minus base point";return neg(c,gen(c));
 case 4:{uint64_t k=2+s.draw(70);how="small multiple";Pt p=mul(c,gen(c),N(k));return s.flip()?neg(c,p):p;}
 case 5:{bool ok;N x;int kind=s.draw(3);for(int i=0;;i++){x=kind==0?mod(le(s.rnd(c.hl)),c.p):kind==1?N(s.draw(1000)+i):mod(le(s.rnd(c.hl-1-s.draw(8)))+N(i),c.p);Pt p=with_x(c,x,s.flip(),ok);if(ok){how="point with chosen x";return p;}if(i>200)return gen(c);}}
 default:{Pt t=small_point(s,c);if(c.cof==1){how="base point";return gen(c);}if(s.flip()){how="small-order point";return t;}how="small-order offset";return add(c,t,mul(c,gen(c),gen_scalar(s,c,false)));}} }
static N digest_e(const Curve&c,const Bytes&dg){N e=mod(le(dg),c.q);return e.zero()?N(1):e;}
Bytes signature(const Curve&c,const N&d,const N&k,const Bytes&dg,bool&ok){N e=digest_e(c,dg);Pt C=mul(c,gen(c),k);ok=!C.inf;if(!ok)return{};N r=mod(C.x,c.q),s=mod(mulmod(r,d,c.q)+mulmod(k,e,c.q),c.q);ok=!r.zero()&&!s.zero();return ref::cat(tobe(s,c.hl),tobe(r,c.hl));}
bool verify(const Curve&c,const Pt&Q,const Bytes&dg,const Bytes&sig){ if(sig.size()!=2*c.hl)return false;N s=be(ref::sub(sig,0,c.hl)),r=be(ref::sub(sig,c.hl,c.hl));if(r.zero()||s.zero()||!(r<c.q)||!(s<c.q))return false;N v=inv(digest_e(c,dg),c.q);Pt C=add(c,mul(c,gen(c),mulmod(s,v,c.q)),mul(c,Q,mulmod(mod(c.q-r,c.q),v,c.q)));return !C.inf&&mod(C.x,c.q)==r; }
Bytes vko(const Curve&c,const N&d,const Pt&Y,const Bytes&ukm,int h,bool&ok){ N m=mulmod(mod(le(ukm),c.q),d,c.q);N k;BN_copy(k,m);BN_mul_word(k,c.cof);Pt K=mul(c,Y,k);ok=!K.inf;if(!ok)return{};return ref::hash((ref::HashId)h,ref::cat(tole(K.x,c.hl),tole(K.y,c.hl))); }
Bytes keg(const Curve&c,const N&d,const Pt&Y,const Bytes&u,bool k512,bool&ok){ Bytes r(16,0);bool z=true;for(int i=0;i<16;i++){r[15-i]=u[i];if(u[i])z=false;}if(z)r[15]=1; // r is the little-endian form of the 16-byte UKM
 if(k512)return vko(c,d,Y,r,ref::H_12_512,ok);Bytes t=vko(c,d,Y,r,ref::H_12_256,ok);if(!ok)return t;const char*l="kdf tree";return ref::kdf_tree(t,Bytes(l,l+8),ref::sub(u,16,8),64,1); }
EC_KEY*engine_ec(int nid){EC_KEY*e=EC_KEY_new();if(!fill_GOST_EC_params(e,nid)){EC_KEY_free(e);pbt::fail("parameter set %d refused: %s",nid,errs().c_str());}return e;}
EVP_PKEY*mk_key(int type,int nid,const N*d,const Pt*Q){ EC_KEY*e=engine_ec(nid);if(d){BIGNUM*t=BN_dup(*d);EC_KEY_set_private_key(e,t);BN_free(t);if(!Q&&!gost_ec_compute_public(e)){EC_KEY_free(e);pbt::fail("public key not computed: %s",errs().c_str());}}if(Q){EC_POINT*p=to(EC_KEY_get0_group(e),*Q);EC_KEY_set_public_key(e,p);EC_POINT_free(p);}EVP_PKEY*p=EVP_PKEY_new();if(!EVP_PKEY_set_type(p,type)||!EVP_PKEY_assign(p,type,e))pbt::fail("key not assigned: %s",errs().c_str());return p; }
int gen_type(Src&s,const Ps&p){ if(p.c->hl==64)return NID_id_GostR3410_2012_512;return s.pick({NID_id_GostR3410_2012_256,NID_id_GostR3410_2001,NID_id_GostR3410_2001DH}); }
}
