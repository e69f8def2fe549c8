#include "env.h"
#include <atomic>
#include <deque>
#include <map>
#include <malloc.h>
extern "C" void ENGINE_load_gost(void) __attribute__((weak)); // absent where the engine is not linked
static ENGINE*E; ENGINE*eng(){return E;}
static thread_local Bytes script; static thread_local size_t spos=0,calls=0; static thread_local int failafter=-1; static thread_local uint64_t rst=1; // per thread
void rand_seed(uint64_t v){rst=v;} static void(*alloc_hook)(); void on_alloc(void(*h)()){alloc_hook=h;}
static void(*free_hook)(const void*,size_t,const char*,int);void on_free(void(*h)(const void*,size_t,const char*,int)){free_hook=h;}
static bool(*adeny)(const char*),(*rdeny)();void deny_hooks(bool(*a)(const char*),bool(*r)()){adeny=a;rdeny=r;}
static int rbytes(unsigned char*b,int n){calls++;if(rdeny&&rdeny())return 0;if(failafter>=0){if(failafter==0)return 0;failafter--;}for(int i=0;i<n;i++){if(spos<script.size())b[i]=script[spos++];else{if(i==0||(i&7)==0||spos==script.size()){}rst+=0x9e3779b97f4a7c15ull;b[i]=(uint8_t)pbt::mix(rst);}}return 1;}
static int rseed(const void*,int){return 1;} static void rclean(){} static int radd(const void*,int,double){return 1;} static int rstatus(){return 1;}
static RAND_METHOD rm={rseed,rbytes,rclean,radd,rbytes,rstatus};
void rand_script(const Bytes&b){script=b;spos=0;} void rand_fail(int a){failafter=a;} size_t rand_calls(){return calls;}
static long an=-1; static void case_start(uint64_t s){script.clear();spos=0;calls=0;failafter=-1;an=-1;rst=s;ERR_clear_error();}
int nid_of(const char*sn){int n=OBJ_txt2nid(sn);if(n==NID_undef){fprintf(stderr,"no nid for %s\n",sn);}return n;}
const EVP_CIPHER*cipher(int nid){const EVP_CIPHER*c=ENGINE_get_cipher(E,nid);if(!c)pbt::fail("engine offers no cipher %s",OBJ_nid2sn(nid));return c;}
const EVP_MD*digest(int nid){const EVP_MD*c=ENGINE_get_digest(E,nid);if(!c)pbt::fail("engine offers no digest %s",OBJ_nid2sn(nid));return c;}
std::string errs(){std::string r;unsigned long e;char b[256];while((e=ERR_get_error())){ERR_error_string_n(e,b,sizeof b);if(r.size()<500){r+=b;r+=";";}}return r;}
static std::atomic<long> live{0}; static std::string af; void alloc_fail(const char*prefix,int nth){af=prefix?prefix:"";an=prefix?nth:-1;}
static long ad=0;long alloc_denied(){long r=ad;ad=0;return r;} static bool deny(const char*f){ if(adeny&&adeny(f))return true;if(an<0||!f)return false;const char*b=strrchr(f,'/');b=b?b+1:f;if(strncmp(b,af.c_str(),af.size()))return false;if(an--==0){ad++;return true;}return false; }
// with VERIF_LEAKS set, live allocations are remembered with the place that made them
static bool track; static std::map<void*,std::pair<const char*,int>>*where; static void mark(void*p,const char*f,int l){if(track&&p){(*where)[p]={f,l};}} static void unmark(void*p){if(track)where->erase(p);}
static void*cm(size_t n,const char*f,int l){if(alloc_hook)alloc_hook();if(deny(f))return NULL;void*p=malloc(n);if(p)live++;mark(p,f,l);return p;} static void*cr(void*p,size_t n,const char*f,int l){if(free_hook&&p)free_hook(p,malloc_usable_size(p),f,l);if(p&&!n){live--;unmark(p);free(p);return NULL;}if(deny(f))return NULL;if(!p)live++;unmark(p);p=realloc(p,n);mark(p,f,l);return p;} static void cf(void*p,const char*f,int l){if(alloc_hook)alloc_hook();if(free_hook&&p)free_hook(p,malloc_usable_size(p),f,l);if(p){live--;unmark(p);}free(p);}
void live_dump(const char*w){if(!track)return;std::map<std::string,int>m;for(auto&e:*where)m[std::string(e.second.first?e.second.first:"?")+":"+std::to_string(e.second.second)]++;static std::map<std::string,int>old;fprintf(stderr,"live at %s:\n",w);for(auto&e:m)if(e.second!=old[e.first])fprintf(stderr,"  %s %+d\n",e.first.c_str(),e.second-old[e.first]);old=m;}
long live_allocs(){return live;}
static void setup(bool late){
 track=getenv("VERIF_LEAKS")!=NULL;where=new std::map<void*,std::pair<const char*,int>>;
 CRYPTO_set_mem_functions(cm,cr,cf);
 OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG|OPENSSL_INIT_ADD_ALL_CIPHERS|OPENSSL_INIT_ADD_ALL_DIGESTS,NULL);
 RAND_set_rand_method(&rm);
 if(late)EVP_MD_free(EVP_MD_fetch(NULL,"SHA256",NULL)); // OpenSSL fills its name map now, without the names of the engine
 ENGINE_load_gost();E=ENGINE_by_id("gost");if(!E||!ENGINE_init(E)||!ENGINE_set_default(E,ENGINE_METHOD_ALL)){ERR_print_errors_fp(stderr);fprintf(stderr,"cannot load engine\n");exit(2);}
 pbt::on_case_start(case_start);}
void env_bare(){ track=getenv("VERIF_LEAKS")!=NULL;where=new std::map<void*,std::pair<const char*,int>>;CRYPTO_set_mem_functions(cm,cr,cf);OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG,NULL);RAND_set_rand_method(&rm); }
void env_setup(){setup(false);} void env_setup_late(){setup(true);}
