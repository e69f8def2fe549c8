// Reference elliptic curve arithmetic: affine group law on the transcribed curve tables, by double-and-add over
// OpenSSL's generic (never the engine's) point addition, plus GOST R 34.10 and VKO/KEG written from the standards.
#pragma once
#include "env.h"
#include <openssl/ec.h>
#include <openssl/bn.h>
namespace ec {
struct BNc{ BN_CTX*c=BN_CTX_new(); ~BNc(){BN_CTX_free(c);} operator BN_CTX*(){return c;} };
extern BN_CTX*bctx();
struct N{ BIGNUM*b; N():b(BN_new()){BN_zero(b);} N(const N&o):b(BN_dup(o.b)){} explicit N(const BIGNUM*o):b(BN_dup(o)){} N(uint64_t v):b(BN_new()){BN_set_word(b,v);} ~N(){BN_free(b);} N&operator=(const N&o){BN_copy(b,o.b);return *this;} operator BIGNUM*()const{return b;}
 bool operator==(const N&o)const{return BN_cmp(b,o.b)==0;} bool operator<(const N&o)const{return BN_cmp(b,o.b)<0;} bool zero()const{return BN_is_zero(b);} std::string str()const{char*s=BN_bn2hex(b);std::string r=s;OPENSSL_free(s);return r;} };
N operator+(const N&a,const N&b); N operator-(const N&a,const N&b); N mulmod(const N&a,const N&b,const N&q); N mod(const N&a,const N&q); N inv(const N&a,const N&q);
N le(const Bytes&b); N be(const Bytes&b); Bytes tole(const N&n,size_t len); Bytes tobe(const N&n,size_t len);
struct Curve{ const ref::CurveRow*row; EC_GROUP*g; N p,q; unsigned cof; size_t hl; const char*sn()const{return row->sn;} };
const std::vector<Curve>&curves();                 // one per row
struct Ps{ int nid; const Curve*c; std::string sn; }; // every parameter-set identifier incl. aliases
const std::vector<Ps>&params(); const Ps&param_by_nid(int nid);
struct Pt{ bool inf=true; N x,y; bool operator==(const Pt&o)const{return inf==o.inf&&(inf||(x==o.x&&y==o.y));} std::string str()const{return inf?"infinity":x.str()+","+y.str();} };
Pt mul(const Curve&,const Pt&,const N&k); Pt add(const Curve&,const Pt&,const Pt&); Pt neg(const Curve&,const Pt&); Pt gen(const Curve&); bool on(const Curve&,const Pt&);
Pt from(const EC_GROUP*g,const EC_POINT*p); EC_POINT*to(const EC_GROUP*g,const Pt&);
Pt with_x(const Curve&,const N&x,bool odd,bool&ok);
N gen_scalar(Src&s,const Curve&c,bool full);        // full: up to the field width, else [1,q-1]
Pt gen_point(Src&s,const Curve&c,std::string&how); // any point of the curve
Pt short_point(Src&s,const Curve&c,std::string&how); // of the prime-order subgroup, with leading zero bytes in both coordinates or in x
Pt small_point(Src&s,const Curve&c);               // small order, infinity when cofactor is 1
Bytes signature(const Curve&,const N&d,const N&k,const Bytes&dg,bool&ok);
bool verify(const Curve&,const Pt&Q,const Bytes&dg,const Bytes&sig);
Bytes vko(const Curve&,const N&d,const Pt&Y,const Bytes&ukm,int hash,bool&ok);
Bytes keg(const Curve&,const N&d,const Pt&Y,const Bytes&ukm32,bool k512,bool&ok);
// engine keys
EC_KEY*engine_ec(int nid); EVP_PKEY*mk_key(int type,int nid,const N*d,const Pt*Q=nullptr);
struct PK{ EVP_PKEY*p; PK(EVP_PKEY*p=nullptr):p(p){} ~PK(){EVP_PKEY_free(p);} PK(PK&&o):p(o.p){o.p=nullptr;} PK&operator=(PK&&o){std::swap(p,o.p);return *this;} PK(const PK&)=delete; operator EVP_PKEY*(){return p;} };
struct PC{ EVP_PKEY_CTX*c; PC(EVP_PKEY_CTX*c):c(c){} ~PC(){EVP_PKEY_CTX_free(c);} PC(const PC&)=delete; operator EVP_PKEY_CTX*(){return c;} };
int gen_type(Src&s,const Ps&p);
}
