// Small property-based testing core: cases are choice sequences, failures shrink on the sequence, workers fork.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <initializer_list>
namespace pbt {
typedef std::vector<uint8_t> Bytes;
struct Failure { std::string msg; };
[[noreturn]] void fail(const char*fmt,...) __attribute__((format(printf,1,2)));
#define REQUIRE(c,...) do{ if(!(c)) pbt::fail(__VA_ARGS__); }while(0)

class Src { // source of choices; 0 is always the simplest choice
 public:
  uint64_t draw(uint64_t n);                       // [0,n), n==0: any 64-bit value
  uint64_t range(uint64_t lo,uint64_t hi){return lo+draw(hi-lo+1);} // inclusive
  bool chance(unsigned num,unsigned den){return draw(den)>=den-num;} // shrinks to false
  bool flip(){return draw(2);}
  template<class T> const T& pick(const std::vector<T>&v){return v[draw(v.size())];}
  template<class T> T pick(std::initializer_list<T> l){return *(l.begin()+draw(l.size()));}
  size_t weighted(std::initializer_list<unsigned> w); // index with weights, 0 simplest
  Bytes bytes(size_t n);                           // patterned or random content
  Bytes rnd(size_t n);                             // uniformly random content (seed drawn), zero when shrunk to 0
  size_t len(size_t max,std::initializer_list<size_t> units={}); // lengths biased to 0, small, around multiples of units
  std::vector<size_t> split(size_t total,std::initializer_list<size_t> units={},bool empties=true); // partition of total
  // internals
  std::vector<uint64_t> rec; const std::vector<uint64_t>*rep=nullptr; size_t pos=0; uint64_t st=0;
};
uint64_t mix(uint64_t);
void expand(uint64_t seed,uint8_t*p,size_t n);
void label(const std::string&s);           // classify the running case
void note(const char*fmt,...) __attribute__((format(printf,1,2))); // describe the running case (kept for samples / replay)
void nontrivial();                         // mark the running case non-trivial
uint64_t case_seed();                      // derived from the choices drawn so far? no: fixed per case, for RAND stubs
bool thorough();
std::string hex(const Bytes&b,size_t max=48); std::string hex(const uint8_t*p,size_t n,size_t max=48);

typedef void(*CaseFn)(Src&);
struct Sub { std::string prop,name; int quick,thorough; CaseFn fn; int batch; int cpu; };
struct Reg { Reg(const char*prop,const char*name,int quick,int thorough,CaseFn fn,int batch=64,int cpu=40); };
void rule(const char*prop,const char*text);        // what makes a case non-trivial
void assume(const char*prop,const char*text);
struct Rule{ Rule(const char*p,const char*t){rule(p,t);} };
struct Assume{ Assume(const char*p,const char*t){assume(p,t);} };
// known findings: probe throws Failure while the recorded defect is present
struct Known{ Known(const char*prop,const char*key,const char*desc,void(*probe)()); };
bool is_known(const char*key);                      // listed in known_findings.txt
void on_case_start(void(*)(uint64_t seed));         // hook (RAND stub reset)
int run(int argc,char**argv,void(*setup)());
}
#define PBT_CAT_(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT_(a,b)
#define SUB(prop,name,quick,thor,...) \
  static void PBT_CAT(sub_,name)(pbt::Src&); \
  static pbt::Reg PBT_CAT(reg_,name)(prop,#name,quick,thor,PBT_CAT(sub_,name),##__VA_ARGS__); \
  static void PBT_CAT(sub_,name)(pbt::Src&s)
