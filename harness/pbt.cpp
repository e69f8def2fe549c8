#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <atomic>
#include <set>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern "C" const char*__asan_default_options(){return "detect_leaks=0:exitcode=77:symbolize=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=24:print_legend=0:max_malloc_fill_size=65536:detect_odr_violation=0";}
namespace pbt {
static std::vector<Sub>&subs(){static std::vector<Sub> v;return v;}
static std::map<std::string,std::string>&rules(){static std::map<std::string,std::string> m;return m;}
static std::map<std::string,std::vector<std::string>>&assumes(){static std::map<std::string,std::vector<std::string>> m;return m;}
struct KnownP{std::string prop,key,desc;void(*probe)();}; static std::vector<KnownP>&knowns(){static std::vector<KnownP> v;return v;}
Reg::Reg(const char*p,const char*n,int q,int t,CaseFn f,int b,int c){subs().push_back({p,n,q,t,f,b,c});}
void rule(const char*p,const char*t){rules()[p]=t;} void assume(const char*p,const char*t){assumes()[p].push_back(t);}
Known::Known(const char*p,const char*k,const char*d,void(*f)()){knowns().push_back({p,k,d,f});}
static std::set<std::string> known_keys; bool is_known(const char*k){return known_keys.count(k)>0;}
static void(*start_hook)(uint64_t)=nullptr; void on_case_start(void(*f)(uint64_t)){start_hook=f;}
static bool g_thorough=false; bool thorough(){return g_thorough;}
struct Cur{std::map<std::string,int> labels;std::string note;bool nt=false;uint64_t seed=0;}; static Cur cur;
uint64_t case_seed(){return cur.seed;}
static std::string ascii(const char*b){std::string r;for(;*b;b++){unsigned char c=*b;if((c>=32&&c<127)||c=='\n'){r+=c;}else{char x[8];snprintf(x,8,"\\x%02x",c);r+=x;}}return r;}
void fail(const char*fmt,...){char b[4096];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);throw Failure{ascii(b)};}
void label(const std::string&s){cur.labels[s]=1;}
void note(const char*fmt,...){if(cur.note.size()>3000)return;char b[2048];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);if(!cur.note.empty())cur.note+=" ";cur.note+=ascii(b);}
void nontrivial(){cur.nt=true;}
uint64_t mix(uint64_t z){z+=0x9e3779b97f4a7c15ull;z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;z=(z^(z>>27))*0x94d049bb133111ebull;return z^(z>>31);}
void expand(uint64_t seed,uint8_t*p,size_t n){uint64_t s=seed;for(size_t i=0;i<n;i+=8){s+=0x9e3779b97f4a7c15ull;uint64_t v=mix(s);memcpy(p+i,&v,n-i<8?n-i:8);}}
// Shared recording area so that the choices of a crashed case survive
struct Rec{uint64_t n;uint64_t v[1<<18];}; static Rec*shrec=nullptr;
struct Exhausted{}; // a generator that does not end on a shortened list of choices: not a case
uint64_t Src::draw(uint64_t n){uint64_t v;if(rep){if(pos>rep->size()+(1u<<22))throw Exhausted();v=pos<rep->size()?(*rep)[pos]:0;if(n&&v>=n)v=n-1>v?v:v%n;}else{st+=0x9e3779b97f4a7c15ull;v=mix(st);if(n)v%=n;}
 pos++;rec.push_back(v);if(shrec&&shrec->n<(1<<18))shrec->v[shrec->n++]=v;return v;}
size_t Src::weighted(std::initializer_list<unsigned> w){uint64_t t=0;for(auto x:w)t+=x;uint64_t d=draw(t);size_t i=0;for(auto x:w){if(d<x)return i;d-=x;i++;}return 0;}
Bytes Src::rnd(size_t n){Bytes b(n);if(!n)return b;uint64_t s=draw(0);if(s)expand(s,b.data(),n);return b;}
Bytes Src::bytes(size_t n){Bytes b(n);if(!n)return b;switch(draw(12)){case 0:break;case 1:memset(b.data(),0xff,n);break;case 2:{uint64_t k=draw(n*8);b[k/8]=1<<(k%8);break;}case 3:{uint8_t v=draw(256);memset(b.data(),v,n);break;}
 case 4:for(size_t i=0;i<n;i++)b[i]=i;break;case 5:{b=rnd(n);size_t k=draw(n+1);memset(b.data(),draw(2)?0xff:0,k);break;}case 6:{b=rnd(n);size_t k=draw(n+1);memset(b.data()+n-k,draw(2)?0xff:0,k);break;}default:b=rnd(n);}return b;}
size_t Src::len(size_t max,std::initializer_list<size_t> units){size_t r;switch(draw(8)){case 0:r=draw(max<20?max+1:20);break;case 1:r=draw(max<70?max+1:70);break;
 case 2:case 3:case 4:if(units.size()){size_t u=pick(units);size_t k=max/u;if(k<1)k=1;if(k>4&&draw(3))k=4;r=u*range(0,k)+draw(7);r=r>=3?r-3:0;break;} /* fallthrough */
 case 5:r=draw(max+1);break;default:{size_t m=max;unsigned sh=draw(12);m>>=sh;r=draw(m+1);}}return r>max?max:r;}
std::vector<size_t> Src::split(size_t total,std::initializer_list<size_t> units,bool empties){std::vector<size_t> v;size_t left=total;switch(draw(5)){case 0:v.push_back(left);return v;case 1:{size_t k=1+draw(40);while(left&&v.size()<3000){size_t c=k<left?k:left;v.push_back(c);left-=c;}if(left)v.push_back(left);if(v.empty())v.push_back(0);return v;}default:;}
 unsigned maxparts=2+draw(24);while(left&&v.size()+1<maxparts){size_t c;switch(draw(6)){case 0:c=empties?0:1;break;case 1:c=1+draw(17);break;case 2:case 3:if(units.size()){size_t u=pick(units);c=u*range(1,3)+draw(5);c=c>2?c-2:c;break;} /* fallthrough */ default:c=1+draw(left);}
 if(c>left)c=left;v.push_back(c);left-=c;}v.push_back(left);return v;}
std::string hex(const uint8_t*p,size_t n,size_t max){static const char*d="0123456789abcdef";std::string s;for(size_t i=0;i<n&&i<max;i++){s+=d[p[i]>>4];s+=d[p[i]&15];}if(n>max)s+="..("+std::to_string(n)+")";return s;}
std::string hex(const Bytes&b,size_t max){return hex(b.data(),b.size(),max);}

// ------------------------------------------------------------------------------------------------ runner
struct FailRec{int sub,idx,lo;char msg[1500];};
struct Shared{std::atomic<int> next,stop,nfail;std::atomic<int> curidx[64];FailRec f[64];};
static Shared*sh;
struct Batch{int sub,lo,hi;};
static uint64_t seedof(uint64_t seed,const Sub&s,int idx){uint64_t h=mix(seed);for(char c:s.prop+"/"+s.name)h=mix(h^(uint8_t)c);return mix(h^(uint64_t)idx*0x9e3779b97f4a7c15ull);}
static void arm(int sec){struct itimerval t={{0,0},{sec,0}};setitimer(ITIMER_PROF,&t,0);}
// runs one case in this process; returns true if it failed (message in msg)
static bool onecase(const Sub&s,Src&src,uint64_t seed,std::string&msg){cur=Cur();cur.seed=seed;if(start_hook)start_hook(seed);{static const char*e=getenv("VERIF_CPU");arm(e?atoi(e):s.cpu);}
 try{s.fn(src);}catch(Failure&f){msg=f.msg;return true;}catch(Exhausted&){return false;}catch(std::exception&e){msg=std::string("harness exception: ")+e.what();return true;}return false;}
static std::string tmpdir;
static std::string readfile(const std::string&p){FILE*f=fopen(p.c_str(),"rb");std::string r;if(!f)return r;char b[65536];size_t n;while((n=fread(b,1,sizeof b,f))>0)r.append(b,n);fclose(f);return r;}
static std::string crashmsg(int st,const std::string&errfile){std::string e=readfile(errfile),m;size_t p=e.find("ERROR: AddressSanitizer");if(p==std::string::npos)p=e.find("OpenSSL internal error");if(p==std::string::npos)p=e.find("rror:");if(p!=std::string::npos){m=e.substr(p,900);}
 std::string w;if(WIFSIGNALED(st)){int g=WTERMSIG(st);w=g==SIGPROF?"CPU limit exceeded (hang)":"killed by signal "+std::to_string(g)+(g==6?" (abort)":g==11?" (segv)":"");}else w="exit status "+std::to_string(WEXITSTATUS(st));return "crash: "+w+" "+m;}
// run a case (by seed or by choices) in a fork. 0 pass 1 fail
static int forkcase(const Sub&s,uint64_t seed,const std::vector<uint64_t>*rep,std::string&msg,std::string&nt,std::vector<uint64_t>&rec){
 shrec->n=0;std::string ef=tmpdir+"/fork.err",of=tmpdir+"/fork.out";fflush(0);pid_t p=fork();if(p==0){int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600);dup2(fd,2);dup2(fd,1);
  Src src;src.rep=rep;src.st=seed;std::string m;bool f=onecase(s,src,seed,m);FILE*o=fopen(of.c_str(),"wb");fprintf(o,"%s\n%s",f?m.c_str():"",cur.note.c_str());fclose(o);_exit(f?3:0);}
 unlink(of.c_str());int st;waitpid(p,&st,0);rec.assign(shrec->v,shrec->v+shrec->n);
 if(WIFEXITED(st)&&WEXITSTATUS(st)==0)return 0;
 if(WIFEXITED(st)&&WEXITSTATUS(st)==3){std::string o=readfile(of);size_t k=o.find("\n");size_t k2=k;/*message may hold newlines*/while(k2!=std::string::npos&&o.find("\n",k2+1)!=std::string::npos)k2=o.find("\n",k2+1);msg=o.substr(0,k2);nt=k2==std::string::npos?"":o.substr(k2+1);return 1;}
 msg=crashmsg(st,ef);return 1;}
static int forkbatch(const Sub&s,uint64_t vseed,int lo,int hi,std::string&msg){std::string ef=tmpdir+"/fork.err",of=tmpdir+"/fork.out";fflush(0);pid_t p=fork();if(p==0){int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600);dup2(fd,2);dup2(fd,1);shrec=nullptr;
  for(int i=lo;i<=hi;i++){Src src;src.st=seedof(vseed,s,i);std::string m;if(onecase(s,src,src.st,m)){FILE*o=fopen(of.c_str(),"wb");fprintf(o,"case %d: %s",i,m.c_str());fclose(o);_exit(3);}}_exit(0);}
 int st;waitpid(p,&st,0);if(WIFEXITED(st)&&WEXITSTATUS(st)==0)return 0;if(WIFEXITED(st)&&WEXITSTATUS(st)==3){msg=readfile(of);return 1;}msg=crashmsg(st,ef);return 1;}
static double now(){struct timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
static std::string jesc(const std::string&s){std::string r="\"";for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;}else r+=c;}return r+"\"";}
static std::vector<uint64_t> shrink(const Sub&s,uint64_t seed,std::vector<uint64_t> best,std::string&msg,std::string&nt,int&runs){
 double t0=now();int budget=500;auto attempt=[&](std::vector<uint64_t> c)->bool{if(runs>=budget||now()-t0>45)return false;runs++;std::string m,n;std::vector<uint64_t> r;if(forkcase(s,seed,&c,m,n,r)&&!strstr(m.c_str(),"CPU limit")){ if(r.size()<c.size())c.resize(r.size()); best=c;msg=m;nt=n;return true;}return false;};
 bool prog=true;int rounds=0;while(prog&&runs<budget&&now()-t0<45&&rounds++<6){prog=false;
  for(size_t k=best.size()/2;k>=1;k/=2){for(size_t i=0;i+k<=best.size();){std::vector<uint64_t> c(best);c.erase(c.begin()+i,c.begin()+i+k);if(attempt(c))prog=true;else i+=k;if(runs>=budget)break;}if(best.size()>400&&k<best.size()/64)break;}
  for(size_t k=best.size()/2;k>=1;k/=2){for(size_t i=0;i+k<=best.size();i+=k){bool z=true;for(size_t j=i;j<i+k;j++)if(best[j])z=false;if(z)continue;std::vector<uint64_t> c(best);std::fill(c.begin()+i,c.begin()+i+k,0);if(attempt(c))prog=true;if(runs>=budget)break;}if(best.size()>400&&k<best.size()/64)break;}
  for(size_t i=0;i<best.size()&&i<300;i++){if(best[i]>1){std::vector<uint64_t> c(best);c[i]=1;if(attempt(c)){prog=true;continue;}}
   uint64_t lo=0;while(i<best.size()&&best[i]>lo+1&&runs<budget){std::vector<uint64_t> c(best);uint64_t mid=lo+(best[i]-lo)/2;c[i]=mid;if(attempt(c))prog=true;else lo=mid;}}}
 return best;}
static int usage(){fprintf(stderr,"usage: --prop ID --tier quick|thorough --seed N [--out ev.json] [--replays DIR] [--sub NAME] [--count N] | --replay FILE\n");return 2;}
static bool jfind(const std::string&j,const char*k,std::string&v){size_t p=j.find(std::string("\"")+k+"\":");if(p==std::string::npos)return false;p+=strlen(k)+3;while(j[p]==' ')p++;if(j[p]=='"'){size_t e=j.find('"',p+1);v=j.substr(p+1,e-p-1);}else if(j[p]=='['){size_t e=j.find(']',p);v=j.substr(p+1,e-p-1);}else{size_t e=j.find_first_of(",}",p);v=j.substr(p,e-p);}return true;}
int run(int argc,char**argv,void(*setup)()){
 std::string prop,tier="quick",out,repdir="/verif/replays",replay,onlysub,bin=argv[0],kf="/verif/known_findings.txt";uint64_t seed=1;int count=-1;int nw=8;double scale=1;int onlyidx=-1;
 for(int i=1;i<argc;i++){std::string a=argv[i];auto nx=[&]()->std::string{return i+1<argc?argv[++i]:"";};
  if(a=="--prop")prop=nx();else if(a=="--tier")tier=nx();else if(a=="--seed")seed=strtoull(nx().c_str(),0,10);else if(a=="--out")out=nx();else if(a=="--replays")repdir=nx();else if(a=="--replay")replay=nx();else if(a=="--sub")onlysub=nx();else if(a=="--count")count=atoi(nx().c_str());else if(a=="--workers")nw=atoi(nx().c_str());else if(a=="--scale")scale=atof(nx().c_str());else if(a=="--known")kf=nx();else if(a=="--case")onlyidx=atoi(nx().c_str());else return usage();}
 g_thorough=tier=="thorough";double t0=now();
 {std::string k=readfile(kf);size_t p=0;while(p<k.size()){size_t e=k.find('\n',p);if(e==std::string::npos)e=k.size();std::string l=k.substr(p,e-p);p=e+1;if(l.compare(0,6,"known:")==0){size_t q=l.find("key=");if(q!=std::string::npos){size_t r=l.find(' ',q);known_keys.insert(l.substr(q+4,r==std::string::npos?std::string::npos:r-q-4));}}}}
 char td[]="/tmp/pbt.XXXXXX";tmpdir=mkdtemp(td);
 struct Clean{std::string d;pid_t p;~Clean(){if(getpid()==p){std::string c="rm -rf "+d;if(system(c.c_str())){}}}} clean{tmpdir,getpid()};
 sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
 Rec*recarea=(Rec*)mmap(0,sizeof(Rec),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
 if(setup)setup();
 if(!replay.empty()){std::string j=readfile(replay),v,sn,pr,sd;if(j.empty()||!jfind(j,"sub",sn)||!jfind(j,"property",pr))return usage();jfind(j,"case_seed",sd);
  for(auto&s:subs())if(s.name==sn&&s.prop==pr){shrec=recarea;std::string m,n;
   if(jfind(j,"batch_lo",v)){int lo=atoi(v.c_str());std::string h,vs;jfind(j,"batch_hi",h);jfind(j,"verif_seed",vs);int f=forkbatch(s,strtoull(vs.c_str(),0,10),lo,atoi(h.c_str()),m);printf("%s\n%s\n",f?"FAILS":"passes",m.c_str());return f;}
   std::vector<uint64_t> d,r;jfind(j,"draws",v);char*q=&v[0];while(*q){while(*q==','||*q==' ')q++;if(!*q)break;d.push_back(strtoull(q,&q,10));}
   int f=forkcase(s,strtoull(sd.c_str(),0,10),&d,m,n,r);printf("%s\n%s\n%s\n",f?"FAILS":"passes",m.c_str(),n.c_str());return f;}
  return usage();}
 if(onlyidx>=0){shrec=recarea;for(auto&s:subs())if(s.name==onlysub&&(prop.empty()||s.prop==prop)){Src src;src.st=seedof(seed,s,onlyidx);std::string m;bool f=onecase(s,src,src.st,m);printf("%s %s\n%s\n",f?"FAIL":"pass",m.c_str(),cur.note.c_str());return f;}return 2;}
 std::vector<Batch> bs;std::vector<int> mysubs;
 for(size_t i=0;i<subs().size();i++){Sub&s=subs()[i];if(s.prop!=prop||(!onlysub.empty()&&s.name!=onlysub))continue;mysubs.push_back(i);int n=count>=0?count:(int)((g_thorough?s.thorough:s.quick)*scale);
  for(int lo=0;lo<n;lo+=s.batch)bs.push_back({(int)i,lo,std::min(n,lo+s.batch)-1});}
 if(mysubs.empty()){fprintf(stderr,"no such property %s\n",prop.c_str());return 2;}
 // interleave sub-properties so that a late sub is not starved
 std::stable_sort(bs.begin(),bs.end(),[](const Batch&a,const Batch&b){return a.lo<b.lo;});
 double limit=g_thorough?6*3600:700;
 std::vector<pid_t> ws;
 for(int w=0;w<nw;w++){fflush(0);pid_t p=fork();if(p==0){
   for(;;){if(sh->stop)break;int k=sh->next++;if(k>=(int)bs.size())break;if(now()-t0>limit)break;Batch b=bs[k];Sub&s=subs()[b.sub];
    std::string ef=tmpdir+"/w"+std::to_string(w)+".err",rf=tmpdir+"/w"+std::to_string(w)+".res";pid_t c=fork();
    if(c==0){int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600);dup2(fd,2);dup2(fd,1);
     std::map<std::string,long> lab;std::vector<uint64_t> hs;std::string samples;long ev=0;
     for(int i=b.lo;i<=b.hi;i++){sh->curidx[w]=i;Src src;src.st=seedof(seed,s,i);std::string m;
      if(onecase(s,src,src.st,m)){int n=sh->nfail++;if(n<64){sh->f[n].sub=b.sub;sh->f[n].idx=i;sh->f[n].lo=b.lo;snprintf(sh->f[n].msg,sizeof sh->f[n].msg,"%s",m.c_str());}sh->stop=1;_exit(3);}
      ev++;for(auto&l:cur.labels)lab[s.name+":"+l.first]++;if(cur.nt){uint64_t h=mix(b.sub+1);for(uint64_t v:src.rec)h=mix(h^v);hs.push_back(h);if(i<200&&samples.size()<3000&&!cur.note.empty())samples+="S "+s.name+" #"+std::to_string(i)+": "+cur.note.substr(0,400)+"\n";}}
     arm(0);FILE*o=fopen(rf.c_str(),"ab");fprintf(o,"E %s %ld\n",s.name.c_str(),ev);for(auto&l:lab)fprintf(o,"L %ld %s\n",l.second,l.first.c_str());for(uint64_t h:hs)fprintf(o,"H %s %llx\n",s.name.c_str(),(unsigned long long)h);fputs(samples.c_str(),o);fclose(o);_exit(0);}
    int st;waitpid(c,&st,0);if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==3))){int n=sh->nfail++;if(n<64){sh->f[n].sub=b.sub;sh->f[n].idx=sh->curidx[w];sh->f[n].lo=b.lo;snprintf(sh->f[n].msg,sizeof sh->f[n].msg,"%s",crashmsg(st,ef).c_str());}sh->stop=1;}
   }_exit(0);}ws.push_back(p);}
 for(pid_t p:ws){int st;waitpid(p,&st,0);}
 // merge
 long ev=0;std::map<std::string,long> evs,nts,lab;std::set<std::string> seen;std::vector<std::string> samples;std::map<std::string,int> sc;
 for(int w=0;w<nw;w++){std::string r=readfile(tmpdir+"/w"+std::to_string(w)+".res");size_t p=0;while(p<r.size()){size_t e=r.find('\n',p);if(e==std::string::npos)e=r.size();std::string l=r.substr(p,e-p);p=e+1;if(l.size()<3)continue;
  if(l[0]=='E'){size_t q=l.rfind(' ');long n=atol(l.c_str()+q);ev+=n;evs[l.substr(2,q-2)]+=n;}else if(l[0]=='L'){size_t q=l.find(' ',2);lab[l.substr(q+1)]+=atol(l.c_str()+2);}else if(l[0]=='H'){if(seen.insert(l).second)nts[l.substr(2,l.rfind(' ')-2)]++;}else if(l[0]=='S'){std::string n=l.substr(2,l.find(' ',2)-2);if(sc[n]++<3)samples.push_back(l.substr(2));}}}
 int viol=0;std::string vline;shrec=recarea;
 // known findings
 for(auto&k:knowns())if(k.prop==prop){fflush(0);pid_t p=fork();if(p==0){int fd=open("/dev/null",O_WRONLY);dup2(fd,2);arm(100);if(start_hook)start_hook(1);try{k.probe();}catch(Failure&){_exit(3);}_exit(0);}int st;waitpid(p,&st,0);bool present=!(WIFEXITED(st)&&WEXITSTATUS(st)==0);
  if(present){if(known_keys.count(k.key))printf("KNOWN-FINDING: property=%s %s: %s\n",prop.c_str(),k.key.c_str(),k.desc.c_str());else{viol++;mkdir(repdir.c_str(),0755);std::string rp=repdir+"/"+prop+"-"+k.key+".json";FILE*f=fopen(rp.c_str(),"w");if(f){fprintf(f,"{\"property\":%s,\"probe\":%s,\"msg\":%s}\n",jesc(prop).c_str(),jesc(k.key).c_str(),jesc(k.desc).c_str());fclose(f);}vline="VIOLATION property="+prop+" replay="+rp;}}}
 int nf=std::min(64,(int)sh->nfail);std::sort(sh->f,sh->f+nf,[](const FailRec&a,const FailRec&b){return a.sub!=b.sub?a.sub<b.sub:a.idx<b.idx;});
 for(int k=0;k<nf&&!viol;k++){FailRec&F=sh->f[k];Sub&s=subs()[F.sub];uint64_t cs=seedof(seed,s,F.idx);std::string m,n;std::vector<uint64_t> r;int hits=0;
  fprintf(stderr,"candidate failure %s/%s case %d: %s\n",prop.c_str(),s.name.c_str(),F.idx,F.msg);
  bool hang=strstr(F.msg,"CPU limit");for(int t=0;t<3&&!(hang&&hits);t++)hits+=forkcase(s,cs,nullptr,m,n,r);if(hang&&hits)hits=2;mkdir(repdir.c_str(),0755);std::string rp=repdir+"/"+prop+"-"+s.name+"-"+std::to_string(seed)+"-"+std::to_string(F.idx)+".json";
  if(hits>=2){int runs=0;std::vector<uint64_t> best=r;std::string sm=m,sn=n;if(!hang&&!getenv("VERIF_NOSHRINK")&&forkcase(s,cs,&best,sm,sn,r))best=shrink(s,cs,best,sm,sn,runs);else{sm=m;sn=n;}
   FILE*f=fopen(rp.c_str(),"w");if(f){fprintf(f,"{\"property\":%s,\"sub\":%s,\"binary\":%s,\"verif_seed\":%llu,\"case_index\":%d,\"case_seed\":%llu,\"draws\":[",jesc(prop).c_str(),jesc(s.name).c_str(),jesc(bin.substr(bin.rfind('/')+1)).c_str(),(unsigned long long)seed,F.idx,(unsigned long long)cs);for(size_t i=0;i<best.size();i++)fprintf(f,"%s%llu",i?",":"",(unsigned long long)best[i]);
    fprintf(f,"],\"shrink_runs\":%d,\"message\":%s,\"case\":%s,\"rerun\":%s}\n",runs,jesc(sm).c_str(),jesc(sn).c_str(),jesc("/verif/check replay "+rp).c_str());fclose(f);}
   fprintf(stderr,"shrunk (%d runs, %zu choices): %s\n  case: %s\n",runs,best.size(),sm.c_str(),sn.c_str());viol++;vline="VIOLATION property="+prop+" replay="+rp;break;}
  hits=0;for(int t=0;t<3;t++)hits+=forkbatch(s,seed,F.lo,F.idx,m);
  if(hits>=2){int lo=F.lo;for(int step=(F.idx-lo)/2;step>=1;step/=2)while(lo+step<=F.idx&&forkbatch(s,seed,lo+step,F.idx,n))lo+=step;
   FILE*f=fopen(rp.c_str(),"w");if(f){fprintf(f,"{\"property\":%s,\"sub\":%s,\"binary\":%s,\"verif_seed\":%llu,\"batch_lo\":%d,\"batch_hi\":%d,\"message\":%s,\"rerun\":%s}\n",jesc(prop).c_str(),jesc(s.name).c_str(),jesc(bin.substr(bin.rfind('/')+1)).c_str(),(unsigned long long)seed,lo,F.idx,jesc(m).c_str(),jesc("/verif/check replay "+rp).c_str());fclose(f);}
   fprintf(stderr,"state-dependent failure, cases %d..%d: %s\n",lo,F.idx,m.c_str());viol++;vline="VIOLATION property="+prop+" replay="+rp;break;}
  fprintf(stderr,"not reproducible, discarded\n");}
 // evidence
 long ntot=0;for(auto&x:nts)ntot+=x.second;std::string j="{\"property\":"+jesc(prop)+",\"tier\":"+jesc(tier)+",\"seed\":"+std::to_string(seed)+",\"level\":\"exploration\",\"coverage\":{\"evaluations\":"+std::to_string(ev)+",\"distinct_nontrivial\":"+std::to_string(ntot)+",\"rule\":"+jesc(rules()[prop])+",\"per_subproperty\":{";
 bool first=true;for(auto&x:evs){j+=std::string(first?"":",")+jesc(x.first)+":{\"evaluations\":"+std::to_string(x.second)+",\"distinct_nontrivial\":"+std::to_string(nts[x.first])+"}";first=false;}j+="},\"classes\":{";first=true;for(auto&x:lab){j+=std::string(first?"":",")+jesc(x.first)+":"+std::to_string(x.second);first=false;}
 j+="},\"samples\":[";for(size_t i=0;i<samples.size();i++)j+=(i?",":"")+jesc(samples[i]);j+="]},\"assumptions\":[";auto&as=assumes()[prop];for(size_t i=0;i<as.size();i++)j+=(i?",":"")+jesc(as[i]);char wb[64];snprintf(wb,64,"%.2f",now()-t0);j+="],\"wall_s\":"+std::string(wb)+",\"violations\":"+std::to_string(viol)+"}\n";
 if(!out.empty()){FILE*f=fopen(out.c_str(),"w");if(f){fputs(j.c_str(),f);fclose(f);}}
 printf("%s %s seed=%llu: %ld cases, %ld distinct non-trivial, %.1fs\n",prop.c_str(),tier.c_str(),(unsigned long long)seed,ev,ntot,now()-t0);
 if(viol){printf("%s\n",vline.c_str());return 1;}
 if(ev==0&&count!=0){fprintf(stderr,"nothing was evaluated\n");return 2;}
 return 0;}
}
