#include "kx.h"
using namespace ref;
namespace kx {
Bytes oid(int nid){ ASN1_OBJECT*o=OBJ_nid2obj(nid);if(!o||nid==0)pbt::fail("harness: no object %d",nid);return der(6,Bytes(OBJ_get0_data(o),OBJ_get0_data(o)+OBJ_length(o))); }
Bytes params_der(int type,const ec::Ps&p){ Bytes b=oid(p.nid);bool cp=p.sn.find("2001")!=std::string::npos;
 if(type==NID_id_GostR3410_2001||type==NID_id_GostR3410_2001DH)b=cat(b,oid(NID_id_GostR3411_94_CryptoProParamSet));
 else if(type==NID_id_GostR3410_2012_256&&cp)b=cat(b,oid(NID_id_GostR3411_2012_256));
 else if(type==NID_id_GostR3410_2012_512&&p.nid!=NID_id_tc26_gost_3410_2012_512_paramSetC)b=cat(b,oid(NID_id_GostR3411_2012_512));
 return der(0x30,b); }
Bytes algid(int type,const ec::Ps&p){return der_seq({oid(type),params_der(type,p)});}
Bytes point_le(const ec::Curve&c,const ec::Pt&Q){return cat(ec::tole(Q.x,c.hl),ec::tole(Q.y,c.hl));}
Bytes spki_raw(const Bytes&a,const Bytes&o,bool wrap){return der_seq({a,der_bits(wrap?der_octet(o):o)});}
Bytes spki(int type,const ec::Ps&p,const ec::Pt&Q){return spki_raw(algid(type,p),point_le(*p.c,Q));}
int legacy_hash(int t){return t==NID_id_GostR3410_2001||t==NID_id_GostR3410_2001DH?H_94:H_12_256;}
const char*legacy_cipher_sn(int t){return legacy_hash(t)==H_94?"id-Gost28147-89-CryptoPro-A-ParamSet":"id-tc26-gost-28147-param-Z";}
int legacy_set(const char*sn){ static const std::map<std::string,const char*>m={{"id-Gost28147-89-CryptoPro-A-ParamSet","CryptoPro_A"},{"id-Gost28147-89-CryptoPro-B-ParamSet","CryptoPro_B"},{"id-Gost28147-89-CryptoPro-C-ParamSet","CryptoPro_C"},{"id-Gost28147-89-CryptoPro-D-ParamSet","CryptoPro_D"},{"id-Gost28147-89-TestParamSet","Gost28147_Test"},{"id-tc26-gost-28147-param-Z","TC26_Z"}};return sbox_by_name(m.at(sn)); }
static Bytes ctx0(const Bytes&whole){Bytes r=whole;if(!r.empty())r[0]=0xa0;return r;} // implicit constructed [0]
Bytes Blob::der()const{ if(pskt){Bytes b=der_octet(body);if(has_key)b=cat(b,key);if(has_ukm)b=cat(b,der_octet(ukm));return ref::der(0x30,b);}
 Bytes ki=der_seq({der_octet(body),der_octet(mac)});Bytes ai=cipher;if(has_key)ai=cat(ai,ctx0(key));if(has_ukm)ai=cat(ai,der_octet(ukm));return der_seq({ki,ctx0(ref::der(0x30,ai))}); }
bool tlv(const Bytes&b,size_t off,Tlv&t){ if(off+2>b.size())return false;t.tag=b[off];size_t l=b[off+1],h=2;if(l&0x80){unsigned n=l&0x7f;if(n==0||n>3||off+2+n>b.size())return false;l=0;for(unsigned i=0;i<n;i++)l=l<<8|b[off+2+i];h+=n;if(l<0x80)return false;}if(off+h+l>b.size())return false;t.hdr=h;t.val=sub(b,off+h,l);return true; }
}
