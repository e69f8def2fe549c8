// Standard encodings of GOST keys and key-transport blobs, written from RFC 4490/4491, RFC 9215, RFC 9548 and R 1323565.1.020.
#pragma once
#include "ec.h"
namespace kx {
Bytes oid(int nid);
Bytes algid(int type,const ec::Ps&p);                    // SEQ{OID type, SEQ{OID set [, OID digest]}}
Bytes params_der(int type,const ec::Ps&p);               // SEQ{OID set [, OID digest]}
Bytes point_le(const ec::Curve&c,const ec::Pt&Q);        // leX|leY
Bytes spki(int type,const ec::Ps&p,const ec::Pt&Q);
Bytes spki_raw(const Bytes&algid,const Bytes&octets,bool wrap=true);
int legacy_hash(int type);                               // ref::HashId used by the legacy key transport and VKO
const char*legacy_cipher_sn(int type); int legacy_set(const char*sn); // parameter set object and its S-box
struct Blob{ bool pskt=false; Bytes body,mac,ukm,key; bool has_key=true,has_ukm=true; Bytes cipher; Bytes der()const; }; // key: SPKI
struct Tlv{ int tag; size_t hdr; Bytes val; size_t total()const{return hdr+val.size();} };
bool tlv(const Bytes&b,size_t off,Tlv&t);                // strict DER header
}
