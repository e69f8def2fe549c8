// Reference implementations used as oracles. Written from the standards, independently of /repo's code;
// depend only on libcrypto (big numbers, generic curve arithmetic) and the tables of the standards.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
namespace ref {
typedef std::vector<uint8_t> Bytes;
std::string tohex(const Bytes&b); std::string tohex(const uint8_t*p,size_t n); Bytes unhex(const std::string&s);
Bytes cat(const Bytes&a,const Bytes&b); Bytes sub(const Bytes&a,size_t off,size_t n);
void secure_be_inc(uint8_t*p,size_t n);             // big-endian counter + 1 on n bytes

// ---- block ciphers -------------------------------------------------------------------------------------
struct BlockCipher { virtual ~BlockCipher(){} virtual size_t bs() const=0; virtual void key(const uint8_t k[32])=0;
  virtual void enc(const uint8_t*in,uint8_t*out) const=0; virtual void dec(const uint8_t*in,uint8_t*out) const=0; };
int sbox_count(); const char* sbox_name(int i); int sbox_by_name(const char*);
void sbox_row(int set,int k1to8,uint8_t out[16]);   // row k1..k8 (1..8)
struct Gost89 : BlockCipher { uint32_t T[4][256]; uint32_t K[8]; bool be;
  Gost89(int sbox,bool bigendian=false); size_t bs() const override{return 8;} void key(const uint8_t k[32]) override;
  void enc(const uint8_t*,uint8_t*) const override; void dec(const uint8_t*,uint8_t*) const override;
  void mac16(uint8_t st[8],const uint8_t blk[8]) const;  // st = 16 rounds of (st xor blk)
  void keybytes(uint8_t k[32]) const; };
struct Magma : Gost89 { Magma():Gost89(sbox_by_name("TC26_Z"),true){} };
struct Kuzn : BlockCipher { uint8_t rk[10][16]; size_t bs() const override{return 16;} void key(const uint8_t k[32]) override;
  void enc(const uint8_t*,uint8_t*) const override; void dec(const uint8_t*,uint8_t*) const override; };
std::unique_ptr<BlockCipher> make_magma(); std::unique_ptr<BlockCipher> make_kuzn(); std::unique_ptr<BlockCipher> make_bc(bool kuzn);

// ---- GOST 28147-89 modes -------------------------------------------------------------------------------
struct CpCipher { // stream state of CFB / CNT / CBC with optional CryptoPro key meshing
  Gost89 c; bool mesh; uint8_t iv[8]; uint64_t count; uint8_t gamma[8]; unsigned used;
  CpCipher(int sbox,bool mesh,const uint8_t*key,const uint8_t*iv8);
  void domesh(); };
Bytes gost89_cfb(int sbox,bool mesh,const uint8_t*key,const uint8_t*iv,const Bytes&in,bool enc);
Bytes gost89_cnt(int sbox,bool mesh,const uint8_t*key,const uint8_t*iv,const Bytes&in);
Bytes gost89_cbc_raw(int sbox,bool mesh,const uint8_t*key,const uint8_t*iv,const Bytes&in,bool enc);
// IV such that the first CNT state (after the initial encryption of the IV) equals (n1,n2) (before the first addition)
void gost89_cnt_iv_for(int sbox,const uint8_t*key,uint32_t n1,uint32_t n2,uint8_t iv[8]);
void cp_mesh(Gost89&c,uint8_t*iv /*may be null*/);
// MAC (imitovstavka). size 1..8
Bytes gost89_mac(int sbox,bool mesh,const uint8_t*key,const uint8_t*iv /*or null*/,const Bytes&msg,size_t size);
// raw MAC without the "at least two blocks" rule nor meshing, for key wrap (same rule applies there: 32 byte input)

// ---- GOST R 34.13 modes --------------------------------------------------------------------------------
Bytes pkcs7(const Bytes&m,size_t bs);
Bytes ecb(const BlockCipher&c,const Bytes&in,bool enc);
Bytes cbc(const BlockCipher&c,const uint8_t*iv,const Bytes&in,bool enc);
Bytes cfb(const BlockCipher&c,const uint8_t*iv,const Bytes&in,bool enc);
Bytes ofb(const BlockCipher&c,const uint8_t*iv,const Bytes&in);
Bytes ctr(const BlockCipher&c,const uint8_t*ctr0 /*full block*/,const Bytes&in);
void acpkm_next(BlockCipher&c,uint8_t key[32]);     // key := ACPKM(key), c rekeyed
Bytes ctr_acpkm(bool kuzn,const uint8_t*key,const uint8_t*ctr0,size_t section,const Bytes&in); // section 0: none
Bytes omac(const BlockCipher&c,const Bytes&m);      // full block
Bytes omac_acpkm(const uint8_t*key,size_t section,size_t tstar,const Bytes&m); // Kuznyechik, RFC 8645 6.3.6; full block
Bytes acpkm_master(const uint8_t*key,size_t tstar,size_t len); // Kuznyechik ACPKM-Master key material
struct MgmOut { Bytes ct, tag; };
void gf_mul(const uint8_t*x,const uint8_t*y,uint8_t*z,size_t b); // product in the field MGM uses
MgmOut mgm(const BlockCipher&c,const Bytes&nonce,const Bytes&aad,const Bytes&in,bool enc);
// ---- hashes --------------------------------------------------------------------------------------------
struct Hash { virtual ~Hash(){} virtual void upd(const uint8_t*,size_t)=0; virtual Bytes fin()=0; virtual size_t size() const=0; virtual size_t block() const=0; virtual std::unique_ptr<Hash> clone() const=0; };
std::unique_ptr<Hash> streebog(int bits); std::unique_ptr<Hash> gost94(int sbox);
enum HashId { H_94, H_94TEST, H_12_256, H_12_512 };
std::unique_ptr<Hash> mkhash(HashId); Bytes hash(HashId,const Bytes&);
Bytes hmac(HashId,const Bytes&key,const Bytes&msg);
Bytes pbkdf2(HashId,const Bytes&pw,const Bytes&salt,unsigned iter,size_t len);
// Streebog compression internals for crafting inputs: Sigma after given 64-byte blocks is just their sum mod 2^512.
// ---- key management ------------------------------------------------------------------------------------
Bytes kdf_tree(const Bytes&key,const Bytes&label,const Bytes&seed,size_t outlen,unsigned repr);
Bytes tlstree(bool kuzn,const uint8_t key[32],uint64_t seq);
Bytes kexp15(bool kuzn,const uint8_t ck[32],const uint8_t mk[32],const Bytes&iv /*half block*/,const Bytes&key);
void cp_diversify(int sbox,const uint8_t kek[32],const uint8_t ukm[8],uint8_t out[32]);
Bytes cp_wrap(int sbox,bool diversify,const uint8_t kek[32],const uint8_t ukm[8],const uint8_t sk[32]); // 44 bytes: ukm|enc|mac
struct CurveRow{int nid;const char*sn,*a,*b,*p,*q,*x,*y,*bits;int cof;}; const CurveRow*curve_rows(size_t&n);
// ---- DER -----------------------------------------------------------------------------------------------
Bytes der(uint8_t tag,const Bytes&content); Bytes der_seq(std::initializer_list<Bytes>); Bytes der_int(const Bytes&be_unsigned);
Bytes der_oid(const std::string&dotted); Bytes der_octet(const Bytes&); Bytes der_bits(const Bytes&);
}
