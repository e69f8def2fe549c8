// Engine loading, deterministic random source and EVP helpers shared by all checks.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/obj_mac.h>
#include <openssl/objects.h>
#include <cstdio>
using pbt::Src; using pbt::Bytes; using pbt::label; using pbt::note; using pbt::hex; using pbt::nontrivial;
ENGINE*eng();
void env_setup();                     // the engine is loaded first
void env_setup_late();                // the engine is loaded after OpenSSL has filled its name map
void rand_script(const Bytes&b);      // next bytes the random source delivers
void rand_fail(int after);            // random source fails after that many calls (-1: never)
void env_bare();                      // allocation hooks and random source only; no engine
size_t rand_calls(); void rand_seed(uint64_t);
void on_alloc(void(*)());              // called before every allocation and release made through OpenSSL
int nid_of(const char*sn);
const EVP_CIPHER*cipher(int nid); const EVP_MD*digest(int nid);
std::string errs();                   // OpenSSL error queue text, cleared
void on_free(void(*)(const void*p,size_t n,const char*file,int line)); // called before memory is released or resized through OpenSSL
long live_allocs();                   // allocations OpenSSL and the engine hold
void live_dump(const char*);            // debugging aid: changes since the last dump by source line, when VERIF_LEAKS is set
long alloc_denied();                  // how many allocations failed on request since the last call
void deny_hooks(bool(*alloc)(const char*file),bool(*rnd)()); // asked before every allocation and random call; true: it fails
void alloc_fail(const char*prefix,int nth); // the nth (from 0) allocation made directly by a source file with that name prefix fails; NULL: none
// An output buffer with exact heap size (ASan guards both ends)
struct Buf{ uint8_t*p; size_t n; Buf(size_t n):p((uint8_t*)malloc(n?n:1)),n(n){memset(p,0xa5,n?n:1);} ~Buf(){free(p);} Buf(const Buf&)=delete; };
// heap copy of exact size, optional misalignment
struct In{ uint8_t*base,*p; size_t n; In(const Bytes&b,size_t mis=0):n(b.size()){base=(uint8_t*)malloc(n+mis+(n+mis==0));p=base+mis;if(n)memcpy(p,b.data(),n);} ~In(){free(base);} In(const In&)=delete; };
